// C29: data actions.
#include "map.hpp"
using namespace h;
namespace {
struct Plan {
  int         dims = 2, windows = 2, iters = 1, steps = 1;
  std::string kind = "scalar", scheme = "serial-explicit", type = "multiply-by-area", timing = "write-mapping-post", extra, side = "A";
  bool        byWriting = false; // A maps to the mesh of B
  int         start = 0;         // 0: all reads, 1: only reads after the first step of the window, 2: only reads before
  bool        summation = false, init = false;
  int         sources = 2;
  std::string maxTime;
};
Plan                  plan;
std::string           cfg;
int                   comps;
maps::Mesh            M;
std::vector<std::vector<std::vector<double>>> F; // per source and step
std::vector<std::vector<double>>              F0;
struct Read {
  int                 window, iteration;
  double              t; // relative to the window's begin
  std::vector<double> v;
};
std::vector<Read>                reads;
std::vector<std::vector<double>> stepTimes; // per written step: window, iteration, time within the window
std::vector<int>                 itersOf;   // of every window

std::vector<double> fresh(const char *n)
{
  std::vector<double> v;
  for (size_t i = 0; i < M.x.size() * comps; ++i)
    v.push_back(sym::real(n, -10, 10));
  return v;
}
int nData() { return plan.summation ? plan.sources : 1; }
std::string data(int s) { return plan.summation ? "S" + std::to_string(s) : "D"; }
// A writes, B reads; the mesh MA of A
void a()
{
  Participant P("A", cfg, 0, 1);
  world::ready();
  std::vector<VertexID> ids;
  for (auto &x : M.x)
    ids.push_back(P.setMeshVertex("MA", x));
  for (auto &e : M.edges)
    P.setMeshEdge("MA", ids[e[0]], ids[e[1]]);
  for (auto &t : M.triangles)
    P.setMeshTriangle("MA", ids[t[0]], ids[t[1]], ids[t[2]]);
  if (plan.init) {
    P.requiresInitialData();
    for (int s = 0; s < nData(); ++s)
      P.writeData("MA", data(s), ids, F0[s]);
  }
  if (M.edges.empty() && M.triangles.empty()) {
    sym::check(h::throws([&] { P.initialize(); }), "scaling by area requires connectivity");
    sym::cover("refused");
    world::abandonOthers();
    return;
  }
  P.initialize();
  int w = 0, it = 0;
  while (P.isCouplingOngoing()) {
    if (plan.iters > 1)
      P.requiresWritingCheckpoint();
    double rest = P.getMaxTimeStepSize(), t = 0;
    for (int k = 0; k < plan.steps; ++k) {
      double dt = k + 1 == plan.steps ? rest : 0.25 * rest;
      rest -= dt;
      t += dt;
      stepTimes.push_back({(double) w, (double) it, t});
      for (int s = 0; s < nData(); ++s) {
        F[s].push_back(fresh("f"));
        P.writeData("MA", data(s), ids, F[s].back());
      }
      P.advance(dt);
    }
    ++it;
    if (plan.iters > 1 && P.requiresReadingCheckpoint())
      continue;
    itersOf.push_back(it);
    ++w, it = 0;
  }
  P.finalize();
}
void b()
{
  Participant P("B", cfg, 0, 1);
  world::ready();
  std::vector<VertexID> ids;
  for (auto &x : M.x)
    ids.push_back(P.setMeshVertex("MB", x));
  for (auto &e : M.edges)
    P.setMeshEdge("MB", ids[e[0]], ids[e[1]]);
  for (auto &t : M.triangles)
    P.setMeshTriangle("MB", ids[t[0]], ids[t[1]], ids[t[2]]);
  P.initialize();
  std::string d = plan.summation ? "T" : "D";
  int         w = 0, it = 0;
  while (P.isCouplingOngoing()) {
    if (plan.iters > 1)
      P.requiresWritingCheckpoint();
    double dt = P.getMaxTimeStepSize();
    auto   rd = [&](double t) {
      reads.push_back({w, it, t, std::vector<double>(ids.size() * comps, -77.0)});
      P.readData("MB", d, ids, t, reads.back().v);
    };
    rd(0);
    rd(dt * 0.375);
    rd(dt);
    P.advance(dt);
    ++it;
    if (plan.iters > 1 && P.requiresReadingCheckpoint())
      continue;
    ++w, it = 0;
  }
  P.finalize();
}
void prep(const Plan &p)
{
  plan          = p;
  comps         = p.kind == "vector" ? p.dims : 1;
  std::string d = std::to_string(p.dims), s = "<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\"><profiling mode=\"off\"/>", use, useA, write;
  std::vector<std::string> all;
  for (int i = 0; i < nData(); ++i)
    all.push_back(data(i));
  if (p.summation)
    all.push_back("T");
  for (auto &n : all) {
    s += "<data:" + p.kind + " name=\"" + n + "\" waveform-degree=\"1\"/>";
    use += "<use-data name=\"" + n + "\"/>";
    if (p.side == "A" || n != "T")
      useA += "<use-data name=\"" + n + "\"/>";
  }
  for (auto &n : std::vector<std::string>(all.begin(), all.begin() + nData()))
    write += "<write-data name=\"" + n + "\" mesh=\"MA\"/>";
  if (p.iters > 1) {
    s += "<data:scalar name=\"Z\"/>";
    use += "<use-data name=\"Z\"/>";
    useA += "<use-data name=\"Z\"/>";
  }
  s += "<mesh name=\"MA\" dimensions=\"" + d + "\">" + useA + "</mesh><mesh name=\"MB\" dimensions=\"" + d + "\">" + use + "</mesh>";
  bool        onA = p.side == "A";
  std::string m   = onA && !p.byWriting ? "MA" : "MB", act = "<action:" + p.type + " timing=\"" + p.timing + "\" mesh=\"" + m + "\">";
  if (p.summation)
    for (int i = 0; i < nData(); ++i)
      act += "<source-data name=\"" + data(i) + "\"/>";
  std::string target = p.summation ? "T" : "D";
  act += "<target-data name=\"" + target + "\"/></action:" + p.type + ">";
  std::vector<std::string> moved{target};
  if (p.summation && !onA)
    moved = std::vector<std::string>(all.begin(), all.begin() + nData());
  std::string reads, z;
  for (auto &n : all)
    if (n == target || (p.summation && !onA))
      reads += "<read-data name=\"" + n + "\" mesh=\"MB\"/>";
  bool two = p.iters > 1;
  if (p.byWriting) {
    // A maps to B's mesh
    s += "<participant name=\"A\"><provide-mesh name=\"MA\"/><receive-mesh name=\"MB\" from=\"B\"/>" + write + (two ? "<read-data name=\"Z\" mesh=\"MA\"/><mapping:nearest-neighbor direction=\"read\" from=\"MB\" to=\"MA\" constraint=\"consistent\"/>" : "") + (onA ? act : "") + "<mapping:nearest-neighbor direction=\"write\" from=\"MA\" to=\"MB\" constraint=\"conservative\"/></participant>";
    s += "<participant name=\"B\"><provide-mesh name=\"MB\"/>" + reads + (onA ? "" : act) + (two ? "<write-data name=\"Z\" mesh=\"MB\"/>" : "") + "</participant>";
  } else {
    s += "<participant name=\"A\"><provide-mesh name=\"MA\"/>" + write + (two ? "<read-data name=\"Z\" mesh=\"MA\"/>" : "") + (onA ? act : "") + "</participant>";
    s += "<participant name=\"B\"><provide-mesh name=\"MB\"/><receive-mesh name=\"MA\" from=\"A\"/>" + reads + (onA ? "" : act) + (two ? "<write-data name=\"Z\" mesh=\"MB\"/><mapping:nearest-neighbor direction=\"write\" from=\"MB\" to=\"MA\" constraint=\"conservative\"/>" : "") + "<mapping:nearest-neighbor direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/></participant>";
  }
  s += "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" + p.scheme + "><participants first=\"A\" second=\"B\"/>" + (p.maxTime.empty() ? "<max-time-windows value=\"" + std::to_string(p.windows) + "\"/>" : "<max-time value=\"" + p.maxTime + "\"/>") + "<time-window-size value=\"1\"/>";
  if (p.iters > 1)
    s += "<max-iterations value=\"" + std::to_string(p.iters) + "\"/>";
  for (auto &n : moved)
    s += "<exchange data=\"" + n + "\" mesh=\"" + (p.byWriting ? "MB" : "MA") + "\" from=\"A\" to=\"B\" substeps=\"" + (p.steps > 1 ? "true" : "false") + "\"" + (p.init ? " initialize=\"true\"" : "") + "/>";
  if (p.iters > 1)
    s += std::string("<exchange data=\"Z\" mesh=\"") + (p.byWriting ? "MB" : "MA") + "\" from=\"B\" to=\"A\"/>";
  s += p.extra + "</coupling-scheme:" + p.scheme + "></precice-configuration>";
  cfg = world::writeConfig(s);
  world::spawn("A", [] { a(); });
  world::spawn("B", [] { b(); });
  world::prepare();
}
double len(const std::vector<double> &x)
{
  double s = 0;
  for (double c : x)
    s += c * c;
  return std::sqrt(s);
}
std::vector<double> diff(int i, int j)
{
  std::vector<double> r;
  for (int d = 0; d < plan.dims; ++d)
    r.push_back(M.x[i][d] - M.x[j][d]);
  return r;
}
std::vector<double> areas()
{
  std::vector<double> r(M.x.size(), 0.0);
  if (plan.dims == 2)
    for (auto &e : M.edges)
      for (int i : e)
        r[i] += 0.5 * len(diff(e[0], e[1]));
  else
    for (auto &t : M.triangles) {
      auto e = diff(t[1], t[0]), f = diff(t[2], t[0]);
      for (int i : t)
        r[i] += 0.5 * len({e[1] * f[2] - e[2] * f[1], e[2] * f[0] - e[0] * f[2], e[0] * f[1] - e[1] * f[0]}) / 3;
    }
  return r;
}
// what the action makes of the values of one step (-1: initial values)
std::vector<double> acted(int k)
{
  std::vector<double> r(M.x.size() * comps, 0.0);
  for (int s = 0; s < nData(); ++s)
    for (size_t i = 0; i < r.size(); ++i)
      r[i] += k < 0 ? F0[s][i] : F[s][k][i];
  if (plan.summation)
    return r;
  auto A = areas();
  for (size_t i = 0; i < r.size(); ++i)
    r[i] = plan.type[0] == 'm' ? r[i] * A[i / comps] : r[i] / A[i / comps];
  return r;
}
void go()
{
  F.assign(nData(), {});
  F0.assign(nData(), {});
  for (auto &f : F0)
    f = plan.init ? fresh("i") : std::vector<double>(M.x.size() * comps, 0.0);
  reads.clear(), stepTimes.clear(), itersOf.clear();
  world::run();
  bool serial = plan.scheme[0] == 's', implicit = plan.iters > 1;
  for (auto &r : reads) {
    // knots: end of the previous window, then the steps of the iteration visible
    std::vector<std::pair<double, int>> knots;
    int                                 last = -1;
    int                                 from = serial ? r.iteration : implicit ? r.iteration - 1 : -1;
    for (size_t k = 0; k < stepTimes.size(); ++k) {
      if (stepTimes[k][0] < r.window)
        last = k;
    }
    knots.push_back({0.0, last});
    for (size_t k = 0; k < stepTimes.size(); ++k)
      if (stepTimes[k][0] == r.window && from >= 0 && stepTimes[k][1] == from)
        knots.push_back({stepTimes[k][2], (int) k});
    // area scaling applies again to samples kept from before (see known_findings.txt)
    bool atStart = knots.size() > 1 && r.t < knots[1].first && (r.window > 0 || r.iteration > 0);
    if (plan.start && atStart != (plan.start == 2))
      continue;
    std::vector<double> want;
    size_t              k = 0;
    while (k + 1 < knots.size() && knots[k + 1].first <= r.t)
      ++k;
    want = acted(knots[k].second);
    if (k + 1 < knots.size() && knots[k].first != r.t) {
      auto   w = acted(knots[k + 1].second);
      double c = (r.t - knots[k].first) / (knots[k + 1].first - knots[k].first);
      for (size_t i = 0; i < w.size(); ++i)
        want[i] = (1 - c) * want[i] + c * w[i];
    }
    if (getenv("DBG"))
      for (size_t i = 0; i < want.size(); ++i)
        fprintf(stderr, "window %d iteration %d t %g i %zu got %g want %g (knots %zu)\n", r.window, r.iteration, r.t, i, r.v[i], want[i], knots.size());
    for (size_t i = 0; i < want.size(); ++i)
      sym::close(r.v[i], want[i], 1e-8, plan.start == 2 ? "area scaling applies exactly once to the value at the begin of a time window" : "the action applies exactly once to every value");
    sym::cover("read");
  }
}
maps::Mesh polyline()
{
  maps::Mesh m;
  m.x     = {{0, 0}, {1, 0}, {1, 2}};
  m.edges = {{0, 1}, {2, 1}};
  return m;
}
maps::Mesh patch()
{
  maps::Mesh m;
  m.x         = {{0, 0, 1}, {1, 0, 1}, {0, 1, 1}, {1.25, 1, 1}};
  m.triangles = {{0, 1, 2}, {3, 1, 2}};
  return m;
}
void s1() { prep({}); }
void s2() { Plan p; p.start = 1; p.side = "B"; p.timing = "read-mapping-post"; p.type = "divide-by-area"; prep(p); }
void s3() { Plan p; p.dims = 3; p.kind = "vector"; p.type = "divide-by-area"; p.scheme = "parallel-explicit"; prep(p); }
void s3b() { Plan p; p.dims = 3; p.kind = "vector"; p.start = 1; p.side = "B"; p.timing = "read-mapping-post"; prep(p); }
void s4() { Plan p; p.scheme = "serial-implicit"; p.iters = 2; prep(p); }
void s5() { Plan p; p.start = 1; p.side = "B"; p.timing = "read-mapping-post"; p.scheme = "parallel-implicit"; p.iters = 3; prep(p); }
void s6() { Plan p; p.steps = 2; prep(p); }
void s7() { Plan p; p.start = 1; p.steps = 2; p.side = "B"; p.timing = "read-mapping-post"; prep(p); }
void s8() { Plan p; p.summation = true; p.type = "summation"; prep(p); }
void s9() { Plan p; p.summation = true; p.type = "summation"; p.side = "B"; p.timing = "read-mapping-post"; p.scheme = "serial-implicit"; p.iters = 2; p.kind = "vector"; prep(p); }
void s10() { Plan p; p.summation = true; p.type = "summation"; p.steps = 2; p.sources = 3; prep(p); }
void s11() { Plan p; p.init = true; prep(p); }
void s19() { Plan p; p.start = 2; p.side = "B"; p.timing = "read-mapping-post"; prep(p); }
void s20() { Plan p; p.start = 2; p.byWriting = true; p.side = "A"; p.scheme = "parallel-implicit"; p.iters = 2; p.steps = 2; prep(p); }
void s12() { Plan p; p.byWriting = true; prep(p); }
void s13() { Plan p; p.start = 1; p.byWriting = true; p.side = "B"; p.timing = "read-mapping-post"; prep(p); }
void s14() { Plan p; p.start = 1; p.byWriting = true; p.side = "B"; p.timing = "read-mapping-post"; p.scheme = "serial-implicit"; p.iters = 2; p.steps = 2; p.init = true; prep(p); }
void s15() { Plan p; p.start = 1; p.side = "B"; p.timing = "read-mapping-post"; p.scheme = "serial-implicit"; p.iters = 3; p.steps = 2; p.init = true; p.maxTime = "1.5"; prep(p); }
void s16() { Plan p; p.start = 1; p.side = "B"; p.timing = "read-mapping-post"; p.scheme = "parallel-explicit"; p.init = true; prep(p); }
void s17() { Plan p; p.start = 1; p.byWriting = true; p.side = "A"; p.scheme = "parallel-implicit"; p.iters = 2; p.steps = 2; prep(p); }
void s18() { Plan p; p.start = 1; p.byWriting = true; p.side = "B"; p.timing = "read-mapping-post"; p.scheme = "parallel-implicit"; p.iters = 2; prep(p); }
} // namespace
SYM_SCENARIO_PREP(write_to_received_mesh, s12) { M = polyline(); go(); }
SYM_SCENARIO_PREP(read_unmapped, s13) { M = polyline(); go(); }
SYM_SCENARIO_PREP(read_unmapped_implicit, s14) { M = polyline(); go(); }
SYM_SCENARIO_PREP(read_implicit_substeps, s15) { M = polyline(); go(); }
SYM_SCENARIO_PREP(read_parallel, s16) { M = polyline(); go(); }
SYM_SCENARIO_PREP(write_parallel_implicit, s17) { M = polyline(); go(); }
SYM_SCENARIO_PREP(read_unmapped_parallel_implicit, s18) { M = polyline(); go(); }
SYM_SCENARIO_PREP(no_edges, s11) { M = polyline(); M.edges.clear(); go(); }
SYM_SCENARIO_PREP(no_triangles, s3) { M = patch(); M.triangles.clear(); M.edges = {}; go(); }
SYM_SCENARIO_PREP(start_read, s19) { M = polyline(); go(); }
SYM_SCENARIO_PREP(start_write_implicit, s20) { M = polyline(); go(); }
SYM_SCENARIO_PREP(write_2d, s1) { M = polyline(); M.x[2][1] = sym::real("y", 0.25, 3); go(); }
SYM_SCENARIO_PREP(read_2d, s2) { M = polyline(); M.x.push_back({-1, 1}); M.edges = {{1, 0}, {1, 2}, {2, 3}, {0, 3}}; go(); }
SYM_SCENARIO_PREP(write_3d_vector, s3) { M = patch(); go(); }
SYM_SCENARIO_PREP(read_3d_vector, s3b) { M = patch(); go(); }
SYM_SCENARIO_PREP(write_implicit, s4) { M = polyline(); go(); }
SYM_SCENARIO_PREP(read_implicit, s5) { M = polyline(); go(); }
SYM_SCENARIO_PREP(write_substeps, s6) { M = polyline(); go(); }
SYM_SCENARIO_PREP(read_substeps, s7) { M = polyline(); go(); }
SYM_SCENARIO_PREP(summation_write, s8) { M = polyline(); go(); }
SYM_SCENARIO_PREP(summation_read_implicit, s9) { M = polyline(); go(); }
SYM_SCENARIO_PREP(summation_substeps, s10) { M = polyline(); go(); }
SYM_SCENARIO_PREP(initial_data, s11) { M = polyline(); go(); }
