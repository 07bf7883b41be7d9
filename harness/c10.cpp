// C10: initial data.
#include "couple.hpp"
static couple::Run R;
static couple::Plan base(const char *scheme, bool a, bool b)
{
  couple::Plan p;
  p.scheme  = scheme;
  p.T       = 2;
  p.own     = true;
  p.init[0] = a;
  p.init[1] = b;
  p.iters   = p.scheme.find("implicit") != std::string::npos ? 2 : 1;
  p.symWindow = 0;
  return p;
}
static void a1() { auto p = base("serial-explicit", false, true); R.prep(p); }
SYM_SCENARIO_PREP(serial_explicit_second, a1) { R.finish(); }
static void a2() { auto p = base("serial-explicit", true, true); p.steps[0] = 2; p.nv = 2; p.initPartial = true; R.prep(p); }
SYM_SCENARIO_PREP(serial_explicit_both_partial, a2) { R.finish(); }
static void a3() { auto p = base("serial-explicit", true, false); p.swap = true; p.kind = "vector"; R.prep(p); }
SYM_SCENARIO_PREP(serial_explicit_swapped, a3) { R.finish(); }
static void a4() { auto p = base("serial-explicit", true, true); p.substeps[0] = p.substeps[1] = false; p.T = 0.5; R.prep(p); }
SYM_SCENARIO_PREP(serial_explicit_window_end_only, a4) { R.finish(); }
static void b1() { auto p = base("parallel-explicit", true, true); p.steps[1] = 2; R.prep(p); }
SYM_SCENARIO_PREP(parallel_explicit_both, b1) { R.finish(); }
static void b2() { auto p = base("parallel-explicit", false, true); p.nv = 2; p.initPartial = true; p.kind = "vector"; R.prep(p); }
SYM_SCENARIO_PREP(parallel_explicit_one, b2) { R.finish(); }
static void c1() { auto p = base("serial-implicit", false, true); p.steps[1] = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_implicit_second, c1) { R.finish(); }
static void c2() { auto p = base("serial-implicit", true, true); p.substeps[1] = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_implicit_both, c2) { R.finish(); }
static void c3() { auto p = base("serial-implicit", true, true); p.iters = 3; p.measures = {{1, 0, 0.5, 0, false, false}}; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_implicit_measured, c3) { R.finish(); }
static void d1() { auto p = base("parallel-implicit", true, true); p.steps[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(parallel_implicit_both, d1) { R.finish(); }
static void d2() { auto p = base("parallel-implicit", true, false); p.T = 1; p.iters = 3; p.measures = {{0, 1, 0.25, 0, false, false}}; p.symRead = false; p.swap = true; R.prep(p); }
SYM_SCENARIO_PREP(parallel_implicit_measured, d2) { R.finish(); }

// through a mapping, and forgotten initial data
namespace {
using namespace h;
std::string cfg;
double      ia[2], ib[2];
bool        forget = false;
void        mapped(int who)
{
  Participant P(who == 0 ? "A" : "B", cfg, 0, 1);
  for (int i = 0; i < 2; ++i) {
    double x[2] = {i + 0.125 * who, 0};
    P.setMeshVertex(who == 0 ? "MA" : "MB", x);
  }
  world::ready();
  VertexID ids[2] = {1, 0};
  if (forget && who == 0) {
    sym::check(throws([&] { P.initialize(); }), "initialize() without the requested initial data is an error");
    sym::cover("initial data forgotten");
    world::abandonOthers();
    return;
  }
  sym::check(P.requiresInitialData(), "initial data requested by both");
  double *mine = who == 0 ? ia : ib;
  for (int i = 0; i < 2; ++i)
    mine[i] = sym::real(who == 0 ? "ia" : "ib", -10, 10);
  double w[2] = {mine[1], mine[0]};
  P.writeData(who == 0 ? "MA" : "MB", who == 0 ? "DA" : "DB", ids, w);
  P.initialize();
  while (P.isCouplingOngoing()) {
    double  g[2] = {-7, -7}, *other = who == 0 ? ib : ia;
    double  dt = P.getMaxTimeStepSize();
    P.readData(who == 0 ? "MA" : "MB", who == 0 ? "DB" : "DA", ids, 0, g);
    sym::close(g[0], other[1], 1e-9, "mapped initial data of the second vertex");
    sym::close(g[1], other[0], 1e-9, "mapped initial data of the first vertex");
    double z[2] = {0, 0};
    P.writeData(who == 0 ? "MA" : "MB", who == 0 ? "DA" : "DB", ids, z);
    P.advance(dt);
  }
  P.finalize();
}
void m()
{
  std::string x = R"(<?xml version="1.0"?>
<precice-configuration><profiling mode="off"/><data:scalar name="DA"/><data:scalar name="DB"/>
<mesh name="MA" dimensions="2"><use-data name="DA"/><use-data name="DB"/></mesh><mesh name="MB" dimensions="2"><use-data name="DA"/><use-data name="DB"/></mesh>
<participant name="A"><provide-mesh name="MA"/><receive-mesh name="MB" from="B"/><write-data name="DA" mesh="MA"/><read-data name="DB" mesh="MA"/>
<mapping:nearest-neighbor direction="read" from="MB" to="MA" constraint="consistent"/><mapping:nearest-neighbor direction="write" from="MA" to="MB" constraint="consistent"/></participant>
<participant name="B"><provide-mesh name="MB"/><write-data name="DB" mesh="MB"/><read-data name="DA" mesh="MB"/></participant>
<m2n:sockets acceptor="A" connector="B"/><coupling-scheme:parallel-explicit><participants first="A" second="B"/><max-time value="1"/><time-window-size value="1"/>
<exchange data="DA" mesh="MB" from="A" to="B" initialize="true"/><exchange data="DB" mesh="MB" from="B" to="A" initialize="true"/></coupling-scheme:parallel-explicit></precice-configuration>)";
  cfg = world::writeConfig(x);
  world::spawn("A", [] { mapped(0); });
  world::spawn("B", [] { mapped(1); });
  world::prepare();
}
} // namespace
SYM_SCENARIO_PREP(mapped_both_ways, m)
{
  world::run();
  sym::cover("initial data mapped");
}
SYM_SCENARIO_PREP(forgotten, m)
{
  forget = true;
  world::run();
}
static void c4() { auto p = base("serial-implicit", true, true); p.T = 1; p.iters = 3; p.measures = {{0, 0, 0.5, 0, false, false}}; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_implicit_measured_first, c4) { R.finish(); }
static void c5() { auto p = base("serial-implicit", true, true); p.T = 1; p.iters = 3; p.substeps[0] = false; p.measures = {{0, 0, 0.5, 0, false, false}}; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_implicit_measured_first_window_end, c5) { R.finish(); }
static void d3() { auto p = base("parallel-implicit", true, true); p.T = 1; p.iters = 3; p.measures = {{0, 0, 0.5, 0, false, false}}; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_implicit_measured_first, d3) { R.finish(); }
static void d4() { auto p = base("parallel-implicit", true, true); p.T = 1; p.iters = 2; p.accel = 1; p.omega = 0.25; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_implicit_relaxed, d4) { R.finish(); }
static void d5() { auto p = base("serial-implicit", true, true); p.T = 1; p.iters = 3; p.accel = 1; p.omega = 0.25; p.symRead = false; p.steps[1] = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_implicit_relaxed, d5) { R.finish(); }
