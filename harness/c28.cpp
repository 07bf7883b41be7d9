// C28: configurations are accepted exactly if every setting is in its documented range and every reference resolves.
#include "common.hpp"
#include <cstdlib>
using namespace h;
namespace {
// Two participants with a mesh each: A writes DA on MA, B receives MA, maps DA to MB and reads it; DB goes the other way.
struct Cfg {
  std::string root = "";
  std::string profiling = R"(<profiling mode="off"/>)";
  std::string dataA = R"(<data:scalar name="DA"/>)", dataB = R"(<data:scalar name="DB"/>)";
  std::string dimA = "2", dimB = "2";
  std::string useA = R"(<use-data name="DA"/><use-data name="DB"/>)", useB = useA;
  std::string extraMesh = "";
  std::string partA = R"(<provide-mesh name="MA"/><write-data name="DA" mesh="MA"/><read-data name="DB" mesh="MA"/>)";
  std::string partB = R"(<provide-mesh name="MB"/><write-data name="DB" mesh="MB"/><read-data name="DA" mesh="MB"/>)";
  std::string extraA = "", extraB = "";
  std::string receive = R"(<receive-mesh name="MA" from="A"/>)";
  std::string mapRead = R"(<mapping:nearest-neighbor direction="read" from="MA" to="MB" constraint="consistent"/>)";
  std::string mapWrite = R"(<mapping:nearest-neighbor direction="write" from="MB" to="MA" constraint="conservative"/>)";
  std::string nameA = "A", nameB = "B";
  std::string third = "";
  std::string m2n = R"(<m2n:sockets acceptor="A" connector="B"/>)";
  std::string scheme = "parallel-implicit";
  std::string participants = R"(<participants first="A" second="B"/>)";
  std::string time = R"(<max-time value="2"/><time-window-size value="1"/>)";
  std::string exA = R"(<exchange data="DA" mesh="MA" from="A" to="B"/>)", exB = R"(<exchange data="DB" mesh="MA" from="B" to="A"/>)";
  std::string iterations = R"(<max-iterations value="5"/>)";
  std::string measures = R"(<absolute-convergence-measure data="DA" mesh="MA" limit="1e-3"/>)";
  std::string acceleration = "";
  std::string more = "";
  std::string xml() const
  {
    std::string s = "<?xml version=\"1.0\"?>\n<precice-configuration " + root + ">" + profiling + dataA + dataB;
    s += "<mesh name=\"MA\" dimensions=\"" + dimA + "\">" + useA + "</mesh><mesh name=\"MB\" dimensions=\"" + dimB + "\">" + useB + "</mesh>" + extraMesh;
    s += "<participant name=\"" + nameA + "\">" + partA + extraA + "</participant>";
    s += "<participant name=\"" + nameB + "\">" + partB + receive + mapRead + mapWrite + extraB + "</participant>" + third + m2n;
    bool impl = scheme.find("implicit") != std::string::npos;
    s += "<coupling-scheme:" + scheme + ">" + participants + time + exA + exB;
    if (impl)
      s += iterations + measures + acceleration;
    return s + "</coupling-scheme:" + scheme + ">" + more + "</precice-configuration>";
  }
};
// true if creating a participant raised an error
bool rejected(const Cfg &c, const char *who)
{
  std::string f = world::writeConfig(c.xml());
  bool        r = false;
  world::spawn(who, [&] {
    try {
      Participant P(who, f, 0, 1);
    } catch (const std::exception &e) {
      r = true;
      if (getenv("C28_VERBOSE"))
        fprintf(stderr, "%s\n", e.what());
    }
  });
  world::run();
  return r;
}
// both participants (or the given one) reject the configuration exactly if it is invalid
void expect(const Cfg &c, bool valid, const char *only = nullptr)
{
  bool r = rejected(c, only ? only : sym::choice("who", 2) ? "B" : "A");
  if (r)
    sym::check(!valid, "accepted within its range");
  else
    sym::check(valid, "rejected outside of its range");
  if (r)
    sym::cover("rejected");
  else
    sym::cover("accepted");
}
// the values around a limit where the documented tolerance of comparisons matters are not decided here
double value(const char *name, std::vector<double> borders, double lo = -10, double hi = 10)
{
  double x = sym::real(name, lo, hi);
  for (double b : borders)
    sym::assume((x == b) | (x <= b - 1e-10) | (x >= b + 1e-10));
  world::setSymbol(name, x);
  return x;
}
int integer(const char *name, int lo = -5, int hi = 5)
{
  int x = sym::integer(name, lo, hi);
  world::setSymbolInt(name, x);
  return x;
}
} // namespace

// ---- coupling schemes
static const char *SCHEMES[] = {"parallel-implicit", "serial-implicit", "parallel-explicit", "serial-explicit"};
SYM_SCENARIO(max_time)
{
  Cfg    c;
  double x = value("x", {0});
  c.scheme = SCHEMES[sym::choice("scheme", 4)];
  c.time   = R"(<max-time value="sym:x"/><time-window-size value="1"/>)";
  expect(c, x > 0);
}
SYM_SCENARIO(max_time_windows)
{
  Cfg c;
  int x    = integer("x");
  c.scheme = SCHEMES[sym::choice("scheme", 4)];
  c.time   = R"(<max-time-windows value="sym:x"/><time-window-size value="1"/>)";
  expect(c, x > 0);
}
SYM_SCENARIO(max_time_and_windows)
{
  Cfg    c;
  int    n = integer("n");
  double x = value("x", {0});
  c.scheme = SCHEMES[sym::choice("scheme", 4)];
  c.time   = R"(<max-time value="sym:x"/><max-time-windows value="sym:n"/><time-window-size value="1"/>)";
  expect(c, (n > 0) & (x > 0));
}
SYM_SCENARIO(window_size)
{
  Cfg    c;
  double x = value("x", {0});
  c.scheme = SCHEMES[sym::choice("scheme", 4)];
  c.time   = R"(<max-time value="2"/><time-window-size value="sym:x"/>)";
  expect(c, x > 0);
}
SYM_SCENARIO(iteration_limits)
{
  Cfg c;
  int a = integer("a"), b = integer("b");
  int k = sym::choice("which", 4);
  c.scheme = SCHEMES[sym::choice("scheme", 2)];
  bool minSet = k & 1, maxSet = k & 2;
  c.iterations = std::string(minSet ? R"(<min-iterations value="sym:a"/>)" : "") + (maxSet ? R"(<max-iterations value="sym:b"/>)" : "");
  bool order   = sym::choice("order", 2);
  if (order && k == 3)
    c.iterations = R"(<max-iterations value="sym:b"/><min-iterations value="sym:a"/>)";
  bool noMeasure = sym::choice("nomeasure", 2);
  if (noMeasure)
    c.measures = "";
  expect(c, (!minSet || a > 0) & (!maxSet || b > 0) & (k != 3 || a <= b) & (!noMeasure || maxSet));
}
SYM_SCENARIO(limit_absolute)
{
  Cfg    c;
  double x   = value("x", {0});
  c.scheme   = SCHEMES[sym::choice("scheme", 2)];
  c.measures = R"(<absolute-convergence-measure data="DA" mesh="MA" limit="sym:x"/>)";
  expect(c, x > 0);
}
SYM_SCENARIO(limit_relative)
{
  Cfg    c;
  double x   = value("x", {0, 1});
  c.scheme   = SCHEMES[sym::choice("scheme", 2)];
  c.measures = R"(<relative-convergence-measure data="DA" mesh="MA" limit="sym:x"/>)";
  expect(c, (x > 0) & (x <= 1));
}
SYM_SCENARIO(limit_residual)
{
  Cfg    c;
  double x   = value("x", {0, 1});
  c.scheme   = SCHEMES[sym::choice("scheme", 2)];
  c.measures = R"(<residual-relative-convergence-measure data="DA" mesh="MA" limit="sym:x"/>)";
  expect(c, (x > 0) & (x <= 1));
}
SYM_SCENARIO(limit_either)
{
  Cfg    c;
  double x = value("x", {0}), y = value("y", {0, 1});
  c.scheme   = SCHEMES[sym::choice("scheme", 2)];
  c.measures = R"(<absolute-or-relative-convergence-measure data="DA" mesh="MA" abs-limit="sym:x" rel-limit="sym:y"/>)";
  expect(c, (x > 0) & (y > 0) & (y <= 1));
}
SYM_SCENARIO(limit_second)
{
  Cfg    c;
  double x = value("x", {0}), y = value("y", {0, 1});
  c.measures = R"(<absolute-convergence-measure data="DA" mesh="MA" limit="sym:x"/><relative-convergence-measure data="DB" mesh="MA" limit="sym:y"/>)";
  expect(c, (x > 0) & (y > 0) & (y <= 1));
}
// the degree of interpolation and the exchange of substeps have to fit
SYM_SCENARIO(waveform_degree)
{
  Cfg c;
  int x = integer("x"), y = integer("y", 0, 3);
  c.scheme  = SCHEMES[sym::choice("scheme", 4)];
  bool sA   = sym::choice("substepsA", 2), sB = sym::choice("substepsB", 2);
  c.dataA   = R"(<data:scalar name="DA" waveform-degree="sym:x"/>)";
  c.dataB   = R"(<data:scalar name="DB" waveform-degree="sym:y"/>)";
  c.exA     = std::string(R"(<exchange data="DA" mesh="MA" from="A" to="B" substeps=")") + (sA ? "true" : "false") + "\"/>";
  c.exB     = std::string(R"(<exchange data="DB" mesh="MA" from="B" to="A" substeps=")") + (sB ? "true" : "false") + "\"/>";
  auto fits = [](int d, bool s) { return ((d == 0) & !s) | (d == 1) | ((d >= 2) & s); };
  expect(c, fits(x, sA) & fits(y, sB));
}
SYM_SCENARIO(time_limit_needed)
{
  Cfg  c;
  int  k    = sym::choice("which", 4);
  c.scheme  = SCHEMES[sym::choice("scheme", 4)];
  c.time    = std::string(k & 1 ? R"(<max-time value="2"/>)" : "") + (k & 2 ? R"(<max-time-windows value="2"/>)" : "") + R"(<time-window-size value="1"/>)";
  expect(c, k != 0);
}

// ---- accelerations
static const char *ACCDATA = R"(<data name="DA" mesh="MA"/><data name="DB" mesh="MA"/>)";
SYM_SCENARIO(relaxation)
{
  Cfg         c;
  double      x = value("x", {0, 1});
  std::string d = ACCDATA;
  c.scheme = SCHEMES[sym::choice("scheme", 2)];
  if (c.scheme == "serial-implicit")
    d = R"(<data name="DB" mesh="MA"/>)";
  switch (sym::choice("type", 3)) {
  case 0: c.acceleration = R"(<acceleration:constant><relaxation value="sym:x"/></acceleration:constant>)"; break;
  case 1: c.acceleration = "<acceleration:aitken>" + d + R"(<initial-relaxation value="sym:x"/></acceleration:aitken>)"; break;
  default: c.acceleration = "<acceleration:IQN-ILS>" + d + R"(<initial-relaxation value="sym:x"/></acceleration:IQN-ILS>)";
  }
  expect(c, (x > 0) & (x <= 1));
}
SYM_SCENARIO(reuse)
{
  Cfg c;
  int x = integer("x"), y = integer("y");
  c.acceleration = std::string("<acceleration:IQN-ILS>") + ACCDATA + R"(<initial-relaxation value="0.5"/><max-used-iterations value="sym:x"/><time-windows-reused value="sym:y"/></acceleration:IQN-ILS>)";
  expect(c, (x > 0) & (y >= 0));
}

// ---- data, meshes, participants
SYM_SCENARIO(bounds_scalar)
{
  Cfg    c;
  double x = value("x", {}), y = value("y", {});
  int    k = sym::choice("which", 4);
  c.dataA  = std::string(R"(<data:scalar name="DA" )") + (k & 1 ? "lower-bound=\"sym:x\" " : "") + (k & 2 ? "upper-bound=\"sym:y\"" : "") + "/>";
  expect(c, k != 3 || x <= y);
}
SYM_SCENARIO(bounds_vector)
{
  Cfg         c;
  bool        ok = true;
  std::string a;
  int         open = sym::choice("open", 4); // one component has a single bound only
  for (int d = 0; d < 3; ++d) {
    std::string n(1, "xyz"[d]), l = "l" + n, u = "u" + n;
    double      lo = value(l.c_str(), {}), hi = value(u.c_str(), {});
    if (open != d)
      a += " lower-bound-" + n + "=\"sym:" + l + "\"", ok = ok & (lo <= hi);
    a += " upper-bound-" + n + "=\"sym:" + u + "\"";
  }
  c.dimA = c.dimB = "3";
  c.dataB = "<data:vector name=\"DB\"" + a + "/>";
  expect(c, ok);
}
SYM_SCENARIO(dimensions)
{
  Cfg c;
  int x = integer("x"), y = integer("y");
  c.dimA = "sym:x";
  c.dimB = "sym:y";
  // mapped meshes have the same dimension
  expect(c, ((x == 2) | (x == 3)) & (x == y));
}
SYM_SCENARIO(safety_factor)
{
  Cfg    c;
  double x = value("x", {0});
  static const char *F[] = {"no-filter", "on-primary-rank", "on-secondary-ranks"};
  c.receive = std::string(R"(<receive-mesh name="MA" from="A" safety-factor="sym:x" geometric-filter=")") + F[sym::choice("filter", 3)] + "\"/>";
  expect(c, x >= 0);
}
SYM_SCENARIO(port)
{
  Cfg c;
  int x = integer("x", -70000, 140000);
  c.m2n = R"(<m2n:sockets acceptor="A" connector="B" port="sym:x"/>)";
  expect(c, (x >= 0) & (x <= 65535));
}
SYM_SCENARIO(flush)
{
  Cfg c;
  int x       = integer("x");
  c.profiling = R"(<profiling mode="off" flush-every="sym:x"/>)";
  expect(c, x >= 0);
}
// ---- radial basis functions
SYM_SCENARIO(support_radius)
{
  Cfg                c;
  double             x   = value("x", {0});
  static const char *F[] = {"compact-tps-c2", "compact-polynomial-c0", "compact-polynomial-c2", "compact-polynomial-c4", "compact-polynomial-c6", "compact-polynomial-c8", "gaussian"};
  bool               pum = sym::choice("pum", 2);
  std::string        t   = pum ? "mapping:rbf-pum-direct" : "mapping:rbf-global-direct";
  c.mapRead              = "<" + t + " direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"><basis-function:" + F[sym::choice("function", 7)] + " support-radius=\"sym:x\"/></" + t + ">";
  expect(c, x > 0);
}
SYM_SCENARIO(shape_parameter)
{
  Cfg                c;
  double             x   = value("x", {0});
  static const char *F[] = {"multiquadrics", "inverse-multiquadrics", "gaussian"};
  int                f   = sym::choice("function", 3);
  std::string        t   = "mapping:rbf-global-direct";
  c.mapRead              = "<" + t + " direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"><basis-function:" + F[f] + " shape-parameter=\"sym:x\"/></" + t + ">";
  // the sign matters for the Gaussian only
  if (f == 0)
    sym::cover("?multiquadrics");
  expect(c, f == 0 || x > 0);
}
SYM_SCENARIO(clusters)
{
  Cfg    c;
  int    n = integer("n");
  double x = value("x", {0, 1});
  c.mapRead = R"(<mapping:rbf-pum-direct direction="read" from="MA" to="MB" constraint="consistent" vertices-per-cluster="sym:n" relative-overlap="sym:x"><basis-function:compact-polynomial-c2 support-radius="1"/></mapping:rbf-pum-direct>)";
  expect(c, (n > 0) & (x >= 0) & (x < 1));
}

// ---- structure: which variant of the configuration is the (finite) unknown; variant 0 is the valid one
namespace {
struct Variant {
  const char                *what;
  std::function<void(Cfg &)> change;
  const char                *only = nullptr; // the participant that notices it, default: both
};
void sub(std::string &s, const std::string &a, const std::string &b)
{
  size_t p = s.find(a);
  if (p == std::string::npos)
    sym::fail(("harness: nothing to replace: " + a).c_str());
  s.replace(p, a.size(), b);
}
void variants(std::function<void(Cfg &)> base, const std::vector<Variant> &vs)
{
  Cfg c;
  if (base)
    base(c);
  int k = sym::choice("variant", (int) vs.size() + 1);
  if (k)
    vs[k - 1].change(c);
  if (k && getenv("C28_VERBOSE"))
    fprintf(stderr, "%s: ", vs[k - 1].what);
  expect(c, k == 0, k ? vs[k - 1].only : nullptr);
}
#define SUB(field, a, b) [](Cfg &c) { sub(c.field, a, b); }
#define SET(field, v) [](Cfg &c) { c.field = v; }
#define ADD(field, v) [](Cfg &c) { c.field += v; }
} // namespace
SYM_SCENARIO(references)
{
  variants([](Cfg &c) {
      c.scheme = SCHEMES[sym::choice("scheme", 2)];
      c.acceleration = R"(<acceleration:aitken><data name="DB" mesh="MA"/><initial-relaxation value="0.5"/></acceleration:aitken>)"; },
           {
               {"mesh uses unknown data", SUB(useA, "DA", "DX")},
               {"unknown provided mesh", SUB(partA, "<provide-mesh name=\"MA\"", "<provide-mesh name=\"MX\"")},
               {"write data unknown", SUB(partA, "<write-data name=\"DA\"", "<write-data name=\"DX\"")},
               {"write data on unknown mesh", SUB(partA, "<write-data name=\"DA\" mesh=\"MA\"", "<write-data name=\"DA\" mesh=\"MX\"")},
               {"read data unknown", SUB(partA, "<read-data name=\"DB\"", "<read-data name=\"DX\"")},
               {"read data on unknown mesh", SUB(partA, "<read-data name=\"DB\" mesh=\"MA\"", "<read-data name=\"DB\" mesh=\"MX\"")},
               {"read data of mesh without that data", SUB(useB, "<use-data name=\"DA\"/>", "")},
               {"receive unknown mesh", SUB(receive, "MA", "MX")},
               {"receive from unknown participant", SUB(receive, "from=\"A\"", "from=\"X\""), "B"},
               {"receive from oneself", SUB(receive, "from=\"A\"", "from=\"B\"")},
               {"receive from nowhere", SUB(receive, "from=\"A\"", "from=\"\"")},
               {"map from unknown mesh", SUB(mapRead, "from=\"MA\"", "from=\"MX\"")},
               {"map to unknown mesh", SUB(mapRead, "to=\"MB\"", "to=\"MX\"")},
               {"read mapping in the wrong direction", [](Cfg &c) { c.mapWrite = ""; c.mapRead = R"(<mapping:nearest-neighbor direction="read" from="MB" to="MA" constraint="consistent"/>)"; }},
               {"write mapping in the wrong direction", [](Cfg &c) { c.mapRead = ""; c.mapWrite = R"(<mapping:nearest-neighbor direction="write" from="MA" to="MB" constraint="consistent"/>)"; }},
               {"mapping without meshes", SET(mapRead, R"(<mapping:nearest-neighbor direction="read" constraint="consistent"/>)")},
               {"unknown acceptor", SUB(m2n, "acceptor=\"A\"", "acceptor=\"X\"")},
               {"unknown connector", SUB(m2n, "connector=\"B\"", "connector=\"X\"")},
               {"unknown acceptor of another connection", ADD(m2n, R"(<m2n:sockets acceptor="X" connector="B"/>)")},
               {"unknown connector of another connection", ADD(m2n, R"(<m2n:sockets acceptor="B" connector="X"/>)")},
               {"explicit exchange on a mesh the other does not use", [](Cfg &c) { c.scheme = "parallel-explicit"; sub(c.exA, "mesh=\"MA\"", "mesh=\"MB\""); }},
               {"no connection", SET(m2n, "")},
               {"unknown first participant", SUB(participants, "\"A\"", "\"X\"")},
               {"unknown second participant", SUB(participants, "\"B\"", "\"X\"")},
               {"coupling with itself", SUB(participants, "\"B\"", "\"A\"")},
               {"exchange of unknown data", SUB(exA, "data=\"DA\"", "data=\"DX\"")},
               {"exchange on unknown mesh", SUB(exA, "mesh=\"MA\"", "mesh=\"MX\"")},
               {"exchange on a mesh the other does not use", SUB(exA, "mesh=\"MA\"", "mesh=\"MB\"")},
               {"exchange from unknown participant", SUB(exA, "from=\"A\"", "from=\"X\"")},
               {"exchange to unknown participant", SUB(exA, "to=\"B\"", "to=\"X\"")},
               {"exchange with oneself", SUB(exA, "to=\"B\"", "to=\"A\"")},
               {"measure of unknown data", SUB(measures, "DA", "DX")},
               {"measure on unknown mesh", SUB(measures, "MA", "MX")},
               {"measure of data that is not exchanged", SUB(measures, "mesh=\"MA\"", "mesh=\"MB\"")},
               {"acceleration of unknown data", SUB(acceleration, "DB", "DX")},
               {"acceleration on unknown mesh", SUB(acceleration, "MA", "MX")},
               {"acceleration of data that is not exchanged", SUB(acceleration, "mesh=\"MA\"", "mesh=\"MB\"")},
               {"watch point on unknown mesh", ADD(extraA, R"(<watch-point mesh="MX" name="w" coordinate="0;0"/>)"), "A"},
               {"watch point on the other's mesh", ADD(extraA, R"(<watch-point mesh="MB" name="w" coordinate="0;0"/>)"), "A"},
               {"watch point on a received mesh", ADD(extraB, R"(<watch-point mesh="MA" name="w" coordinate="0;0"/>)"), "B"},
               {"watch integral on unknown mesh", ADD(extraA, R"(<watch-integral mesh="MX" name="w" scale-with-connectivity="0"/>)"), "A"},
               {"watch integral on a received mesh", ADD(extraB, R"(<watch-integral mesh="MA" name="w" scale-with-connectivity="0"/>)"), "B"},
               {"watch point with three coordinates", ADD(extraA, R"(<watch-point mesh="MA" name="w" coordinate="0;0;0"/>)"), "A"},
               {"watch point with one coordinate", ADD(extraA, R"(<watch-point mesh="MA" name="w" coordinate="0"/>)"), "A"},
               {"action on unknown mesh", ADD(extraA, R"(<action:multiply-by-area timing="write-mapping-post" mesh="MX"><target-data name="DA"/></action:multiply-by-area>)")},
               {"action on unknown data", ADD(extraA, R"(<action:multiply-by-area timing="write-mapping-post" mesh="MA"><target-data name="DX"/></action:multiply-by-area>)")},
           });
}
SYM_SCENARIO(duplicates)
{
  variants([](Cfg &c) {
      c.scheme = SCHEMES[sym::choice("scheme", 2)];
      c.acceleration = R"(<acceleration:aitken><data name="DB" mesh="MA"/><initial-relaxation value="0.5"/></acceleration:aitken>)"; },
           {
               {"data", ADD(dataB, R"(<data:vector name="DB"/>)")},
               {"mesh", ADD(extraMesh, R"(<mesh name="MA" dimensions="2"><use-data name="DA"/></mesh>)")},
               {"data of a mesh", ADD(useA, R"(<use-data name="DA"/>)")},
               {"participant", ADD(third, R"(<participant name="A"><receive-mesh name="MB" from="B" api-access="true"/><read-data name="DA" mesh="MB"/></participant><m2n:sockets acceptor="A" connector="C"/>)")},
               {"provided mesh", ADD(partA, R"(<provide-mesh name="MA"/>)")},
               {"received mesh", ADD(receive, R"(<receive-mesh name="MA" from="A"/>)")},
               {"write data", ADD(partA, R"(<write-data name="DA" mesh="MA"/>)")},
               {"read data", ADD(partA, R"(<read-data name="DB" mesh="MA"/>)")},
               {"read and write data", ADD(partA, R"(<read-data name="DA" mesh="MA"/>)")},
               {"mapping", ADD(mapRead, R"(<mapping:nearest-projection direction="read" from="MA" to="MB" constraint="consistent"/>)")},
               {"connection", ADD(m2n, R"(<m2n:sockets acceptor="A" connector="B"/>)")},
               {"reverse connection", ADD(m2n, R"(<m2n:sockets acceptor="B" connector="A"/>)")},
               {"exchange", ADD(exA, R"(<exchange data="DA" mesh="MA" from="A" to="B"/>)")},
               {"limit of iterations", ADD(iterations, R"(<max-iterations value="3"/>)")},
               {"limit of the time", ADD(time, R"(<max-time value="3"/>)")},
               {"size of the window", ADD(time, R"(<time-window-size value="1"/>)")},
               {"acceleration", ADD(acceleration, R"(<acceleration:constant><relaxation value="0.5"/></acceleration:constant>)")},
               {"data of the acceleration", SUB(acceleration, "<data name=\"DB\" mesh=\"MA\"/>", "<data name=\"DB\" mesh=\"MA\"/><data name=\"DB\" mesh=\"MA\"/>")},
               {"participants of the scheme", ADD(participants, R"(<participants first="A" second="B"/>)")},
               {"implicit scheme", ADD(more, R"(<coupling-scheme:serial-implicit><participants first="A" second="B"/><max-time value="2"/><time-window-size value="1"/><exchange data="DA" mesh="MA" from="A" to="B"/><exchange data="DB" mesh="MA" from="B" to="A"/><max-iterations value="3"/></coupling-scheme:serial-implicit>)")},
           });
}
SYM_SCENARIO(combinations)
{
  variants(nullptr,
           {
               {"gradient mapping, conservative", SET(mapWrite, R"(<mapping:nearest-neighbor-gradient direction="write" from="MB" to="MA" constraint="conservative"/>)")},
               {"projection, volume scaling", SET(mapRead, R"(<mapping:nearest-projection direction="read" from="MA" to="MB" constraint="scaled-consistent-volume"/>)")},
               {"cells, surface scaling", SET(mapRead, R"(<mapping:linear-cell-interpolation direction="read" from="MA" to="MB" constraint="scaled-consistent-surface"/>)")},
               {"just-in-time projection", SET(mapRead, R"(<mapping:nearest-projection direction="read" from="MA" constraint="consistent"/>)")},
               {"just-in-time conservative read", SET(mapRead, R"(<mapping:nearest-neighbor direction="read" from="MA" constraint="conservative"/>)")},
               {"just-in-time consistent write", SET(mapWrite, R"(<mapping:nearest-neighbor direction="write" to="MA" constraint="consistent"/>)")},
               {"just-in-time write mapping from", SET(mapWrite, R"(<mapping:nearest-neighbor direction="write" from="MB" constraint="conservative"/>)")},
               {"basis function missing", SET(mapRead, R"(<mapping:rbf-global-direct direction="read" from="MA" to="MB" constraint="consistent"/>)")},
               {"two basis functions", SET(mapRead, R"(<mapping:rbf-global-direct direction="read" from="MA" to="MB" constraint="consistent"><basis-function:volume-splines/><basis-function:multiquadrics shape-parameter="1"/></mapping:rbf-global-direct>)")},
               {"two parameters of the Gaussian", SET(mapRead, R"(<mapping:rbf-global-direct direction="read" from="MA" to="MB" constraint="consistent"><basis-function:gaussian shape-parameter="1" support-radius="1"/></mapping:rbf-global-direct>)")},
               {"no parameter of the Gaussian", SET(mapRead, R"(<mapping:rbf-global-direct direction="read" from="MA" to="MB" constraint="consistent"><basis-function:gaussian/></mapping:rbf-global-direct>)")},
               {"all axes dead", SET(mapRead, R"(<mapping:rbf-global-direct direction="read" from="MA" to="MB" constraint="consistent" x-dead="1" y-dead="1"><basis-function:volume-splines/></mapping:rbf-global-direct>)")},
               {"integrated polynomial, positive definite", SET(mapRead, R"(<mapping:rbf-global-direct direction="read" from="MA" to="MB" constraint="consistent" polynomial="on"><basis-function:gaussian shape-parameter="1"/></mapping:rbf-global-direct>)")},
               {"integrated polynomial, clusters", SET(mapRead, R"(<mapping:rbf-pum-direct direction="read" from="MA" to="MB" constraint="consistent" polynomial="on"><basis-function:volume-splines/></mapping:rbf-pum-direct>)")},
               {"mapping of another dimension", SET(dimB, "3")},
               {"remeshing, not experimental", SET(root, "allow-remeshing=\"true\"")},
               {"remeshing, serial", [](Cfg &c) { c.root = "experimental=\"true\" allow-remeshing=\"true\""; c.scheme = "serial-implicit"; }},
               {"gather-scatter and two-level initialization", SUB(m2n, "connector=\"B\"", "connector=\"B\" enforce-gather-scatter=\"1\" use-two-level-initialization=\"1\"")},
               {"two-level initialization, serial participant", SUB(m2n, "connector=\"B\"", "connector=\"B\" use-two-level-initialization=\"1\"")},
               {"implicit one-way coupling", SET(exB, "")},
               {"first participant method, parallel", SUB(time, "<time-window-size value=\"1\"/>", "<time-window-size method=\"first-participant\"/>")},
               {"acceleration without factor", ADD(acceleration, R"(<acceleration:constant/>)")},
               {"serial: accelerated data of the first", [](Cfg &c) { c.scheme = "serial-implicit"; c.acceleration = R"(<acceleration:aitken><data name="DA" mesh="MA"/><initial-relaxation value="0.5"/></acceleration:aitken>)"; }},
               {"quasi-Newton needs all fields", SUB(participants, "first=\"A\" ", "")},
               {"unknown tag", ADD(dataB, R"(<datum:scalar name="D"/>)")},
               {"unknown attribute", ADD(dataB, R"(<data:scalar name="D" size="1"/>)")},
               {"required attribute missing", ADD(dataB, R"(<data:scalar/>)")},
               {"value is no number", SUB(time, "value=\"2\"", "value=\"two\"")},
               {"value followed by text", SUB(time, "value=\"2\"", "value=\"2s\"")},
               {"integer with fraction", SUB(iterations, "value=\"5\"", "value=\"5.5\"")},
               {"value out of the options", SUB(mapRead, "direction=\"read\"", "direction=\"receive\"")},
               {"no time window", SUB(time, "<time-window-size value=\"1\"/>", "")},
               {"no participants", SET(participants, "")},
               {"read mapping without data", SUB(partB, "<read-data name=\"DA\" mesh=\"MB\"/>", "")},
               {"write mapping without data", SUB(partB, "<write-data name=\"DB\" mesh=\"MB\"/>", "")},
           });
}
// optional settings, which are fine
SYM_SCENARIO(options)
{
  static const std::vector<Variant> vs = {
      {"scaled consistent", SET(mapRead, R"(<mapping:nearest-projection direction="read" from="MA" to="MB" constraint="scaled-consistent-surface"/>)")},
      {"scaled volume", SET(mapRead, R"(<mapping:linear-cell-interpolation direction="read" from="MA" to="MB" constraint="scaled-consistent-volume"/>)")},
      {"gradient mapping", [](Cfg &c) { c.root = "experimental=\"true\""; c.mapRead = R"(<mapping:nearest-neighbor-gradient direction="read" from="MA" to="MB" constraint="consistent"/>)"; }},
      {"one dead axis", SET(mapRead, R"(<mapping:rbf-global-direct direction="read" from="MA" to="MB" constraint="consistent" x-dead="1"><basis-function:volume-splines/></mapping:rbf-global-direct>)")},
      {"integrated polynomial", SET(mapRead, R"(<mapping:rbf-global-direct direction="read" from="MA" to="MB" constraint="consistent" polynomial="on"><basis-function:thin-plate-splines/></mapping:rbf-global-direct>)")},
      {"remeshing", SET(root, "experimental=\"true\" allow-remeshing=\"true\"")},
      {"fraction", SUB(time, "value=\"2\"", "value=\"1/2\"")},
      {"exponent", SUB(time, "value=\"2\"", "value=\"2.5e-3\"")},
      {"one-way explicit", [](Cfg &c) { c.scheme = "serial-explicit"; c.exB = ""; }},
      {"watch point", ADD(extraA, R"(<watch-point mesh="MA" name="w" coordinate="0;0"/>)")},
      {"watch integral", ADD(extraA, R"(<watch-integral mesh="MA" name="w" scale-with-connectivity="0"/>)")},
      {"initialization", SUB(exA, "to=\"B\"", "to=\"B\" initialize=\"true\"")},
      {"first participant method", [](Cfg &c) { c.scheme = "serial-explicit"; sub(c.time, "<time-window-size value=\"1\"/>", "<time-window-size method=\"first-participant\"/>"); }},
      {"acceleration", ADD(acceleration, R"(<acceleration:constant><relaxation value="1"/></acceleration:constant>)")},
      {"swapped participants", SET(participants, R"(<participants first="B" second="A"/>)")},
      {"swapped connection", SET(m2n, R"(<m2n:sockets acceptor="B" connector="A"/>)")},
      {"gather-scatter", SUB(m2n, "connector=\"B\"", "connector=\"B\" enforce-gather-scatter=\"1\"")},
      {"three dimensions", [](Cfg &c) { c.dimA = c.dimB = "3"; }},
      {"api access", [](Cfg &c) { c.mapWrite = ""; sub(c.receive, "from=\"A\"", "from=\"A\" api-access=\"true\""); sub(c.partB, "<write-data name=\"DB\" mesh=\"MB\"/>", "<write-data name=\"DB\" mesh=\"MA\"/>"); }},
  };
  Cfg c;
  int k = sym::choice("variant", (int) vs.size());
  vs[k].change(c);
  bool r = rejected(c, sym::choice("who", 2) ? "B" : "A");
  sym::check(!r, "accepted with the option");
  sym::cover("accepted");
}
// several participants coupled by one scheme
SYM_SCENARIO(multi)
{
  auto base = [](Cfg &c) {
    c.scheme       = "multi";
    c.dataB       += R"(<data:scalar name="DC"/>)";
    c.useA        += R"(<use-data name="DC"/>)";
    c.partA       += R"(<read-data name="DC" mesh="MA"/>)";
    c.third        = R"(<participant name="C"><receive-mesh name="MA" from="A" api-access="true"/><read-data name="DA" mesh="MA"/><write-data name="DC" mesh="MA"/></participant>)";
    c.m2n         += R"(<m2n:sockets acceptor="A" connector="C"/>)";
    c.participants = R"(<participant name="A" control="1"/><participant name="B"/><participant name="C"/>)";
    c.exB         += R"(<exchange data="DA" mesh="MA" from="A" to="C"/><exchange data="DC" mesh="MA" from="C" to="A"/>)";
    c.exB         += c.iterations + c.measures;
  };
  variants(base, {
                     {"no controller", SUB(participants, "control=\"1\"", "")},
                     {"two controllers", SUB(participants, "name=\"B\"", "name=\"B\" control=\"1\"")},
                     {"unknown participant", ADD(participants, R"(<participant name="X"/>)")},
                     {"participant twice", ADD(participants, R"(<participant name="B"/>)")},
                     {"controller twice", ADD(participants, R"(<participant name="A"/>)")},
                     {"participant missing", SUB(participants, R"(<participant name="C"/>)", "")},
                     {"exchange with oneself", SUB(exB, "from=\"C\"", "from=\"A\"")},
                     {"exchange from unknown participant", SUB(exB, "from=\"C\"", "from=\"X\"")},
                     {"exchange to unknown participant", SUB(exB, "to=\"C\"", "to=\"X\"")},
                     {"exchange without connection", SUB(exB, R"(<exchange data="DC" mesh="MA" from="C" to="A"/>)", R"(<exchange data="DC" mesh="MA" from="C" to="B"/>)")},
                     {"no connection", SUB(m2n, R"(<m2n:sockets acceptor="A" connector="C"/>)", "")},
                     {"remeshing", SET(root, "experimental=\"true\" allow-remeshing=\"true\"")},
                     {"neither measures nor limit", [](Cfg &c) { sub(c.exB, c.iterations, ""); sub(c.exB, c.measures, ""); }},
                 });
}
