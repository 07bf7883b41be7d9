// C31: watch points and watch integrals.
#include "geo.hpp"
using namespace h;
namespace {
struct Plan {
  int         dims = 2, ranks = 1, iters = 1, windows = 2;
  std::string kind = "scalar", scheme = "serial-explicit", watch, extra, maxTime;
  bool        conn = true;       // a mapping needs the connectivity of the mesh
  bool        init = false, swap = false, substeps = false, writeOnly = false;
  int         degree = 1;
};
Plan                             plan;
std::string                      cfg;
int                              comps;
maps::Mesh                       M;      // mesh of A
std::vector<std::vector<int>>    owner;  // vertices of each rank of A
std::vector<std::vector<double>> FA, FB; // values per step, over all windows, iterations and steps
std::vector<double>              A0, B0; // initial data
// what A saw at every completed window
struct Row {
  double              t;
  std::vector<double> a, b;
};
std::vector<Row> rows;

std::vector<double> fresh(const char *n)
{
  std::vector<double> v;
  for (size_t i = 0; i < M.x.size() * comps; ++i)
    v.push_back(sym::real(n, -10, 10));
  return v;
}
const std::vector<double> &step(std::vector<std::vector<double>> &f, const char *n, size_t k)
{
  while (f.size() <= k)
    f.push_back(fresh(n));
  return f[k];
}
int steps() { return plan.substeps ? 2 : 1; }
void a(int rank)
{
  Participant P("A", cfg, rank, plan.ranks);
  world::ready();
  std::vector<VertexID>   ids;
  std::map<int, VertexID> at;
  for (int i : owner[rank])
    ids.push_back(at[i] = P.setMeshVertex("MA", M.x[i]));
  auto have = [&](auto &e) {
    for (int i : e)
      if (!at.count(i))
        return false;
    return true;
  };
  for (auto &e : M.edges)
    if (have(e))
      P.setMeshEdge("MA", at[e[0]], at[e[1]]);
  for (auto &t : M.triangles)
    if (have(t))
      P.setMeshTriangle("MA", at[t[0]], at[t[1]], at[t[2]]);
  auto mine = [&](const std::vector<double> &v) {
    std::vector<double> r;
    for (int i : owner[rank])
      r.insert(r.end(), v.begin() + i * comps, v.begin() + (i + 1) * comps);
    return r;
  };
  auto record = [&](size_t k, double t, const std::vector<double> &w) {
    if (rows.size() <= k)
      rows.resize(k + 1, {0, std::vector<double>(M.x.size() * comps, 0.0), std::vector<double>(M.x.size() * comps, 0.0)});
    rows[k].t = t;
    rows[k].a = w;
    std::vector<double> r(ids.size() * comps, -77);
    P.readData("MA", "DB", ids, 0, r);
    for (size_t i = 0; i < ids.size(); ++i)
      for (int c = 0; c < comps; ++c)
        rows[k].b[owner[rank][i] * comps + c] = r[i * comps + c];
  };
  if (plan.init) {
    P.requiresInitialData();
    P.writeData("MA", "DA", ids, mine(A0));
  }
  P.initialize();
  record(0, 0, A0);
  int    n = 0, w = 0;
  double t = 0;
  while (P.isCouplingOngoing()) {
    if (plan.iters > 1)
      P.requiresWritingCheckpoint();
    double dt = P.getMaxTimeStepSize(), rest = dt;
    for (int s = 0; s < steps(); ++s) {
      P.writeData("MA", "DA", ids, mine(step(FA, "a", n)));
      double h = s + 1 == steps() ? rest : 0.25 * rest;
      rest -= h;
      P.advance(h);
      ++n;
    }
    if (plan.iters > 1 && P.requiresReadingCheckpoint())
      continue;
    sym::check(P.isTimeWindowComplete(), "window complete");
    t += dt;
    record(++w, t, FA[n - 1]);
  }
  P.finalize();
}
void b()
{
  Participant P("B", cfg, 0, 1);
  world::ready();
  std::vector<double> region;
  for (int d = 0; d < plan.dims; ++d)
    region.push_back(-100), region.push_back(100);
  P.setMeshAccessRegion("MA", region);
  // vertices arrive in the order of A's ranks
  std::vector<VertexID> ids;
  std::vector<int>      order;
  for (auto &o : owner)
    order.insert(order.end(), o.begin(), o.end());
  auto mine = [&](const std::vector<double> &v) {
    std::vector<double> r;
    for (int i : order)
      r.insert(r.end(), v.begin() + i * comps, v.begin() + (i + 1) * comps);
    return r;
  };
  if (plan.init)
    P.requiresInitialData();
  if (plan.conn)
    P.setMeshVertex("MB", M.x[0]);
  P.initialize();
  ids.resize(P.getMeshVertexSize("MA"));
  std::vector<double> x(ids.size() * plan.dims);
  P.getMeshVertexIDsAndCoordinates("MA", ids, x);
  int n = 0;
  while (P.isCouplingOngoing()) {
    if (plan.iters > 1)
      P.requiresWritingCheckpoint();
    double rest = P.getMaxTimeStepSize();
    for (int s = 0; s < steps(); ++s) {
      P.writeData("MA", "DB", ids, mine(step(FB, "b", n)));
      double h = s + 1 == steps() ? rest : 0.5 * rest;
      rest -= h;
      P.advance(h);
      ++n;
    }
    if (plan.iters > 1)
      P.requiresReadingCheckpoint();
  }
  P.finalize();
}
void prep(const Plan &p)
{
  plan  = p;
  comps = p.kind == "vector" ? p.dims : 1;
  Two two;
  two.dims     = p.dims;
  two.rootAttr = "experimental=\"true\"";
  two.kind     = p.kind;
  two.scheme   = p.scheme;
  two.dataAttr = "waveform-degree=\"" + std::to_string(p.degree) + "\"";
  if (p.swap)
    std::swap(two.first, two.second);
  two.time   = (p.maxTime.empty() ? "<max-time-windows value=\"" + std::to_string(p.windows) + "\"/>" : "<max-time value=\"" + p.maxTime + "\"/>") + "<time-window-size value=\"1\"/>";
  two.extraA = p.watch;
  if (p.conn) {
    two.extraMesh = "<mesh name=\"MB\" dimensions=\"" + std::to_string(p.dims) + "\"><use-data name=\"DA\"/></mesh>";
    two.extraB    = "<provide-mesh name=\"MB\"/><read-data name=\"DA\" mesh=\"MB\"/><mapping:nearest-projection direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/>";
  }
  two.extra  = p.extra;
  if (p.iters > 1)
    two.extra = "<max-iterations value=\"" + std::to_string(p.iters) + "\"/>" + two.extra;
  two.exA = std::string("substeps=\"") + (p.substeps ? "true" : "false") + "\"" + (p.init ? " initialize=\"true\"" : "");
  two.exB = std::string("substeps=\"") + (p.substeps ? "true" : "false") + "\"";
  cfg     = world::writeConfig(two.xml());
  for (int r = 0; r < p.ranks; ++r)
    world::spawn("A" + std::to_string(r), [r] { a(r); });
  world::spawn("B", [] { b(); });
  world::prepare();
}
void go()
{
  if (owner.empty()) {
    owner.assign(1, {});
    for (size_t i = 0; i < M.x.size(); ++i)
      owner[0].push_back(i);
  }
  rows.clear(), FA.clear(), FB.clear();
  A0 = plan.init ? fresh("a0") : std::vector<double>(M.x.size() * comps, 0.0);
  world::run();
  sym::check(rows.size() == (size_t) plan.windows + 1, "all windows done");
}
world::Table *table(const std::string &name, std::vector<std::string> columns)
{
  auto it = world::tables().find(name);
  sym::check(it != world::tables().end(), "the file is written");
  if (it == world::tables().end())
    return nullptr;
  auto &t = it->second;
  sym::check(t.rows.size() == rows.size(), "one row initially and after every completed window");
  if (t.rows.size() != rows.size())
    return nullptr;
  for (size_t k = 0; k < rows.size(); ++k) {
    for (auto &c : columns)
      sym::check(t.rows[k].count(c), "every column is written");
    sym::close(t.rows[k]["Time"].at(0), rows[k].t, 1e-9, "time of the row");
  }
  return &t;
}
void near(const std::vector<double> &got, const std::vector<double> &want, const char *label)
{
  sym::check(got.size() == want.size(), "number of components");
  for (size_t c = 0; c < want.size() && c < got.size(); ++c)
    sym::close(got[c], want[c], 1e-8, label);
}
void checkPoint(const char *name, const geo::V &point, const geo::V &d, const maps::Mesh &m, bool surface)
{
  // the closest point of the unshifted mesh to point + d
  geo::V q = point;
  for (size_t i = 0; i < d.size(); ++i)
    q[i] += d[i];
  auto *t = table(std::string("precice-A-watchpoint-") + name + ".log", {"Time", "Coordinate", "DA", "DB"});
  if (!t)
    return;
  auto hit = geo::closest(m, q, surface);
  sym::cover(hit.ids.size() == 1 ? "?vertex" : hit.ids.size() == 2 ? "?edge" : "?triangle");
  for (size_t k = 0; k < rows.size(); ++k) {
    near(t->rows[k]["Coordinate"], geo::sub(hit.p, d), "the closest point of the mesh");
    for (int which = 0; which < 2; ++which) {
      std::vector<double> want(comps, 0.0);
      auto               &v = which ? rows[k].b : rows[k].a;
      for (size_t i = 0; i < hit.ids.size(); ++i)
        for (int c = 0; c < comps; ++c)
          want[c] += hit.w[i] * v[hit.ids[i] * comps + c];
      near(t->rows[k][which ? "DB" : "DA"], want, which ? "read data interpolated at the point" : "written data interpolated at the point");
    }
  }
}
double len(const geo::V &x) { return std::sqrt(geo::dot(x, x)); }
double area(const geo::V &e, const geo::V &f)
{
  return 0.5 * len({e[1] * f[2] - e[2] * f[1], e[2] * f[0] - e[0] * f[2], e[0] * f[1] - e[1] * f[0]});
}
void checkIntegral(const char *name, bool scaled, bool connected)
{
  std::vector<std::string> cols{"Time", "DA", "DB"};
  if (connected)
    cols.push_back("SurfaceArea");
  auto *t = table(std::string("precice-A-watchintegral-") + name + ".log", cols);
  if (!t)
    return;
  for (size_t k = 0; k < rows.size(); ++k) {
    std::vector<std::pair<double, std::vector<int>>> parts;
    double                                           total = 0;
    if (plan.dims == 2)
      for (auto &e : M.edges)
        parts.push_back({len(geo::sub(M.x[e[1]], M.x[e[0]])), {e[0], e[1]}});
    else
      for (auto &e : M.triangles)
        parts.push_back({area(geo::sub(M.x[e[1]], M.x[e[0]]), geo::sub(M.x[e[2]], M.x[e[0]])), {e[0], e[1], e[2]}});
    for (auto &p : parts)
      total += p.first;
    for (int which = 0; which < 2; ++which) {
      auto               &v = which ? rows[k].b : rows[k].a;
      std::vector<double> want(comps, 0.0);
      for (int c = 0; c < comps; ++c)
        if (scaled && connected) {
          for (auto &p : parts)
            for (int i : p.second)
              want[c] += p.first / p.second.size() * v[i * comps + c];
        } else {
          for (size_t i = 0; i < M.x.size(); ++i)
            want[c] += v[i * comps + c];
        }
      near(t->rows[k][which ? "DB" : "DA"], want, scaled && connected ? "surface integral of the data" : "sum of the data");
    }
    sym::check(connected == (t->rows[k].count("SurfaceArea") > 0), "surface area exactly with connectivity");
    if (connected)
      near(t->rows[k]["SurfaceArea"], {total}, "surface area");
  }
  sym::cover(scaled && connected ? "integral" : "sum");
}
maps::Mesh polyline()
{
  maps::Mesh m;
  m.x     = {{0, 0}, {1, 0.5}, {2, 0}, {2.5, 1}};
  m.edges = {{0, 1}, {2, 1}, {2, 3}};
  return m;
}
maps::Mesh patch()
{
  maps::Mesh m;
  m.x         = {{0, 0, 0}, {1, 0, 0.5}, {0, 1, 0}, {1.25, 1, 0.625}};
  m.triangles = {{0, 1, 2}, {3, 1, 2}};
  return m;
}
// the mesh moves, the point stays
void shift(maps::Mesh &m, const geo::V &d)
{
  for (auto &x : m.x)
    for (size_t i = 0; i < d.size(); ++i)
      x[i] -= d[i];
}
const char *W2 = R"(<watch-point mesh="MA" name="p" coordinate="0.5;-0.25"/>)";
const char *W3 = R"(<watch-point mesh="MA" name="p" coordinate="0.5;0.25;0.5"/>)";
const char *I  = R"(<watch-integral mesh="MA" name="s" scale-with-connectivity="true"/><watch-integral mesh="MA" name="n" scale-with-connectivity="false"/>)";
void p1() { Plan p; p.watch = W2; p.init = true; prep(p); }
void p2() { Plan p; p.watch = W3; p.dims = 3; p.kind = "vector"; p.scheme = "parallel-explicit"; p.windows = 1; prep(p); }
void p3() { Plan p; p.conn = false; p.watch = W2; p.scheme = "serial-implicit"; p.iters = 2; p.swap = true; p.extra = R"(<absolute-convergence-measure data="DA" mesh="MA" limit="1"/>)"; prep(p); }
void p4() { Plan p; p.watch = I; p.scheme = "serial-implicit"; p.iters = 3; p.extra = R"(<absolute-convergence-measure data="DB" mesh="MA" limit="1"/><acceleration:constant><relaxation value="0.5"/></acceleration:constant>)"; prep(p); }
void p5() { Plan p; p.conn = false; p.watch = I; p.scheme = "parallel-implicit"; p.iters = 2; p.substeps = true; p.maxTime = "1.5"; p.extra = R"(<acceleration:constant><relaxation value="0.25"/></acceleration:constant>)"; prep(p); }
void p6() { Plan p; p.watch = std::string(I) + W2; p.kind = "vector"; p.windows = 1; prep(p); }
void p7() { Plan p; p.watch = I; p.dims = 3; p.windows = 1; p.kind = "vector"; prep(p); }
void p8() { Plan p; p.watch = W2; p.ranks = 2; p.windows = 1; prep(p); }
void p9() { Plan p; p.conn = false; p.watch = std::string(I) + W2; p.ranks = 3; p.windows = 1; p.init = true; prep(p); }
void p10() { Plan p; p.watch = W2; p.substeps = true; p.degree = 2; p.maxTime = "1.5"; prep(p); }
} // namespace
SYM_SCENARIO_PREP(point_2d, p1)
{
  geo::V d = maps::onSegments("t", {{{-1.5, 0.5}, {3.5, 0.5}}, {{0.25, -1}, {0.25, 2}}});
  M        = polyline();
  auto m0  = M;
  shift(M, d);
  go();
  checkPoint("p", {0.5, -0.25}, d, m0, false);
}
SYM_SCENARIO_PREP(point_3d_vector, p2)
{
  geo::V d = maps::onSegments("t", {{{-1.5, 0, 0.25}, {1.5, 0.25, -0.25}}, {{0.25, -1, 0}, {0, 2, 0.5}}});
  M        = patch();
  auto m0  = M;
  shift(M, d);
  go();
  checkPoint("p", {0.5, 0.25, 0.5}, d, m0, true);
}
SYM_SCENARIO_PREP(point_implicit, p3)
{
  double t = sym::real("t", -1, 3);
  M        = polyline(); // nobody needs the edges
  auto m0 = M;
  m0.edges.clear();
  shift(M, {t, 0.25});
  go();
  checkPoint("p", {0.5, -0.25}, {t, 0.25}, m0, false);
}
SYM_SCENARIO_PREP(integral_implicit, p4)
{
  M = polyline();
  M.x.resize(3);
  M.edges.resize(2);
  go();
  checkIntegral("s", true, true);
  checkIntegral("n", false, true);
}
SYM_SCENARIO_PREP(integral_substeps, p5)
{
  M = polyline();
  M.edges.clear();
  go();
  checkIntegral("s", true, false);
  checkIntegral("n", false, false);
}
SYM_SCENARIO_PREP(integral_moving_2d, p6)
{
  M      = polyline();
  double t = sym::real("t", 0.25, 3);
  M.x[3] = {2 + 0.75 * t, t};
  go();
  checkIntegral("s", true, true);
  checkIntegral("n", false, true);
}
SYM_SCENARIO_PREP(integral_3d, p7)
{
  M        = patch();
  double t = sym::real("t", 0.25, 3);
  for (auto &x : M.x)
    x[2] = 1;
  M.x[2] = {0, t, 1};
  go();
  checkIntegral("s", true, true);
  checkIntegral("n", false, true);
}
static void spread(int ranks)
{
  owner.assign(ranks, {});
  for (size_t i = 0; i < M.x.size(); ++i)
    owner[sym::choice("rank", ranks)].push_back(i);
}
SYM_SCENARIO_PREP(point_ranks, p8)
{
  double t = sym::real("t", -1, 3);
  M        = polyline();
  spread(2);
  // edges exist only where one rank has both vertices
  maps::Mesh m0 = M;
  m0.edges.clear();
  for (auto &e : M.edges)
    for (auto &o : owner)
      if (std::count(o.begin(), o.end(), e[0]) && std::count(o.begin(), o.end(), e[1]))
        m0.edges.push_back(e);
  shift(M, {t, 0.5});
  go();
  checkPoint("p", {0.5, -0.25}, {t, 0.5}, m0, false);
}
SYM_SCENARIO_PREP(integral_ranks, p9)
{
  M = polyline();
  M.edges.clear();
  spread(3);
  go();
  checkIntegral("s", true, false);
  checkIntegral("n", false, false);
}
void p11() { Plan p; p.conn = false; p.watch = W2; p.ranks = 3; p.windows = 1; prep(p); }
SYM_SCENARIO_PREP(point_three_ranks, p11)
{
  double t = 0.625 * sym::choice("t", 5) - 0.5;
  M        = polyline();
  M.edges.clear();
  spread(3);
  auto m0 = M;
  shift(M, {t, 0.5});
  go();
  checkPoint("p", {0.5, -0.25}, {t, 0.5}, m0, false);
}
SYM_SCENARIO_PREP(point_substeps, p10)
{
  double t = sym::real("t", -1, 3);
  M        = polyline();
  M.edges.resize(2);
  auto m0 = M;
  shift(M, {t, 0.25});
  go();
  checkPoint("p", {0.5, -0.25}, {t, 0.25}, m0, false);
}

