// Declared stubs of the symbolic build: logging and profiling have empty bodies.
#include <iostream>
#include <typeinfo>
#include <functional>
#include <map>
#include "logging/LogConfiguration.hpp"
#include "logging/Logger.hpp"
#include "logging/Tracer.hpp"
#include "profiling/Event.hpp"
#include "profiling/EventUtils.hpp"
#include "utils/assertion.hpp"

extern "C" {
const char *__verif_assert_text = "";
void        __verif_assertion(const char *e, const char *f)
{
  std::cerr << "ASSERTION FAILED: " << e << " in " << f << std::endl;
  __verif_assert_text = e;
  std::abort();
}
}
namespace precice::logging {
class Logger::LoggerImpl {};
Logger::Logger(std::string_view) {}
Logger::Logger(const Logger &) {}
Logger::Logger(Logger &&) noexcept {}
Logger &Logger::operator=(Logger) { return *this; }
Logger::~Logger() {}
void Logger::swap(Logger &) noexcept {}
void Logger::error(LogLocation, std::string_view) noexcept {}
void Logger::warning(LogLocation, std::string_view) noexcept {}
void Logger::info(LogLocation, std::string_view) noexcept {}
void Logger::debug(LogLocation, std::string_view) noexcept {}
void Logger::trace(LogLocation, std::string_view) noexcept {}
const std::string BackendConfiguration::default_type      = "stream";
const std::string BackendConfiguration::default_output    = "stdout";
const std::string BackendConfiguration::default_filter    = "";
const std::string BackendConfiguration::default_formatter = "";
void BackendConfiguration::setOption(std::string, std::string) {}
bool BackendConfiguration::isValidOption(std::string) { return true; }
void BackendConfiguration::setEnabled(bool) {}
LoggingConfiguration readLogConfFile(std::string const &) { return {}; }
void                 setupLogging(std::string const &) {}
void                 setupLogging(LoggingConfiguration, bool) {}
void                 setMPIRank(int const) {}
void                 setParticipant(std::string const &) {}
void                 lockConf() {}
GlobalLoggingConfig &getGlobalLoggingConfig()
{
  static GlobalLoggingConfig c;
  return c;
}
} // namespace precice::logging
namespace precice::profiling {
Event::Event(std::string_view, Options o)
    : _group(o.group), _synchronize(o.synchronized) { _eid = 0; start(); }
Event::~Event() {}
void Event::start() { _state = State::RUNNING; }
void Event::stop() { _state = State::STOPPED; }
void Event::addData(std::string_view, int) {}
EventRegistry::~EventRegistry() {}
EventRegistry &EventRegistry::instance()
{
  static EventRegistry e;
  return e;
}
void EventRegistry::initialize(std::string_view, int, int) {}
void EventRegistry::setWriteQueueMax(std::size_t) {}
void EventRegistry::setDirectory(std::string_view) {}
void EventRegistry::setMode(Mode) {}
void EventRegistry::startBackend() {}
void EventRegistry::finalize() {}
void EventRegistry::clear() {}
void EventRegistry::put(PendingEntry) {}
void EventRegistry::putCritical(PendingEntry) {}
void EventRegistry::flush() {}
int  EventRegistry::nameToID(std::string_view) { return 0; }
} // namespace precice::profiling

// naming-convention assertion of configuration tags: only costs time (regular expression per attribute)
extern "C" bool __wrap__ZN7precice5utils12isKebabStyleESt17basic_string_viewIcSt11char_traitsIcEE(std::string_view) { return true; }

// Tables (watch points, watch integrals, iteration and convergence logs) are kept in memory instead of a text file:
// the values handed to the writer are observed, their text formatting is outside every claim.
#include <Eigen/Core>
#include "io/TXTTableWriter.hpp"
#include "../world/world.hpp"
namespace world {
static std::map<std::string, Table> *g_tables = nullptr;
std::map<std::string, Table>        &tables()
{
  if (!g_tables)
    g_tables = new std::map<std::string, Table>;
  return *g_tables;
}
} // namespace world
namespace precice::io {
static std::map<const void *, std::string> *g_names = nullptr;
static world::Table                        &table(const void *w) { return world::tables()[(*g_names)[w]]; }
TXTTableWriter::TXTTableWriter(const std::string &filename)
{
  if (!g_names)
    g_names = new std::map<const void *, std::string>;
  (*g_names)[this]          = filename;
  world::tables()[filename] = world::Table{};
  _writeIterator            = _data.end();
}
void TXTTableWriter::addData(const std::string &name, DataType type)
{
  Data d;
  d.name = name;
  d.type = type;
  _data.push_back(d);
  table(this).columns.push_back(name);
  _writeIterator = _data.end();
}
static void putValue(TXTTableWriter *w, bool newRow, const std::string &name, std::vector<double> v)
{
  auto &t = table(w);
  if (newRow)
    t.rows.emplace_back();
  t.rows.back()[name] = std::move(v);
}
#define PUT(T, EXPR)                                                         \
  bool newRow = _writeIterator == _data.end();                               \
  if (newRow)                                                                \
    _writeIterator = _data.begin();                                          \
  PRECICE_ASSERT(_writeIterator->name == name, _writeIterator->name, name);  \
  PRECICE_ASSERT(_writeIterator->type == T, _writeIterator->type);           \
  ++_writeIterator;                                                          \
  putValue(this, newRow, name, EXPR);
void TXTTableWriter::writeData(const std::string &name, int value) { PUT(INT, (std::vector<double>{(double) value})) }
void TXTTableWriter::writeData(const std::string &name, double value) { PUT(DOUBLE, (std::vector<double>{value})) }
void TXTTableWriter::writeData(const std::string &name, const Eigen::Vector2d &value) { PUT(VECTOR2D, (std::vector<double>{value[0], value[1]})) }
void TXTTableWriter::writeData(const std::string &name, const Eigen::Vector3d &value) { PUT(VECTOR3D, (std::vector<double>{value[0], value[1], value[2]})) }
void TXTTableWriter::close() {}
void TXTTableWriter::reset()
{
  _data.clear();
  _writeIterator = _data.end();
}
} // namespace precice::io

// Symbolic configuration values: the attribute text "sym:<name>" stands for world::setSymbol(<name>, value).
namespace world {
static std::map<std::string, double> *g_symd = nullptr;
static std::map<std::string, int>    *g_symi = nullptr;
void setSymbol(const std::string &n, double v)
{
  if (!g_symd)
    g_symd = new std::map<std::string, double>;
  (*g_symd)[n] = v;
}
void setSymbolInt(const std::string &n, int v)
{
  if (!g_symi)
    g_symi = new std::map<std::string, int>;
  (*g_symi)[n] = v;
}
} // namespace world
extern "C" {
void __real__ZN7precice3xml17readValueSpecificERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERd(const std::string &, double &);
void __real__ZN7precice3xml17readValueSpecificERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERi(const std::string &, int &);
void __wrap__ZN7precice3xml17readValueSpecificERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERd(const std::string &t, double &v)
{
  if (t.rfind("sym:", 0) == 0)
    v = world::g_symd->at(t.substr(4));
  else
    __real__ZN7precice3xml17readValueSpecificERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERd(t, v);
}
void __wrap__ZN7precice3xml17readValueSpecificERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERi(const std::string &t, int &v)
{
  if (t.rfind("sym:", 0) == 0)
    v = world::g_symi->at(t.substr(4));
  else
    __real__ZN7precice3xml17readValueSpecificERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERi(t, v);
}
}
