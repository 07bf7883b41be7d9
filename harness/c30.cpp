// C30: after remeshing the coupling continues as a coupling that starts with the new meshes.
#include "map.hpp"
using namespace h;
using maps::Mesh;
using maps::Points;
namespace {
struct Plan {
  std::string type = "nearest-neighbor", attrs, inner, typeB = "nearest-neighbor", attrsB, innerB;
  bool        write[2] = {false, false}; // A's data / B's data are mapped by the writer (conservative), else by the reader (consistent)
  int         dims = 2, ranks[2] = {1, 1};
  std::string kind = "scalar", extra, filter, m2n, dataAttr;
  int         iters = 1, windows = 3;
  int         concrete = 0;    // windows whose values are fixed
  int         sparse = 0;      // values are fixed up to few symbols
  bool        second = false;  // B provides another mesh that is never reset
  std::vector<int> starts{0, 1}; // first window of every epoch
};
struct Epoch {
  bool resets[2] = {false, false};
  int  only      = -1; // the only rank which resets the mesh
  Mesh m[2];
  std::vector<std::vector<int>> part[2]; // vertices per rank
};
Plan                       plan;
std::vector<Epoch>         ep;
std::vector<std::string>   cfg;
std::vector<double>        in[2];
// values read: key (epoch, window of the epoch, iteration, vertex, component, position), one log per world
typedef std::map<std::vector<int>, double> Log;
std::vector<Log>           got[2];
std::vector<std::map<std::vector<int>, std::string>> ctl[2];
int nComp() { return plan.kind == "vector" ? plan.dims : 1; }
std::string name(int w, int who) { return std::string(w ? "F" + std::to_string(w) : "R") + (who ? "B" : "A"); }
double value(int who, int window, int it, int k)
{
  auto &v = in[who];
  if (window < plan.concrete)
    return 1 + (window * 5 + it * it * 3 + k * 2 + who) % 7;
  if (plan.sparse)
    return 1 + (window * 5 + it * it * 3 + k * 2 + who) % 7 + (it == plan.sparse && (it == 1 || !who) ? v[who ? 0 : k % v.size()] * (it == 2 ? 0.0625 : 1) : 0.0);
  return v[(window * 7 + it * 3 + k) % v.size()];
}
void body(int w, int who, int rank)
{
  Participant P(name(w, who), cfg[w], rank, plan.ranks[who]);
  world::ready();
  const char *mesh = who ? "MB" : "MA", *dw = who ? "DB" : "DA", *dr = who ? "DA" : "DB";
  int         e = w; // world w > 0 begins with epoch w
  int         nc = nComp();
  std::vector<int>        mine;
  std::vector<VertexID>   ids;
  auto define = [&] {
    const Mesh &m = ep[e].m[who];
    mine = ep[e].part[who][rank];
    ids.clear();
    std::map<int, VertexID> at;
    for (int i : mine)
      at[i] = P.setMeshVertex(mesh, m.x[i]), ids.push_back(at[i]);
    for (auto &d : m.edges)
      if (at.count(d[0]) && at.count(d[1]))
        P.setMeshEdge(mesh, at[d[0]], at[d[1]]);
    for (auto &t : m.triangles)
      if (at.count(t[0]) && at.count(t[1]) && at.count(t[2]))
        P.setMeshTriangle(mesh, at[t[0]], at[t[1]], at[t[2]]);
  };
  define();
  std::vector<VertexID> ids2;
  if (plan.second && who == 1)
    for (double x : {0.125, 2.5})
      ids2.push_back(P.setMeshVertex("MC", std::vector<double>{x, 1.5}));
  P.initialize();
  int  window = 0, it = 0, guard = 0;
  auto read = [&](int pos, double t) {
    std::vector<double> r(mine.size() * nc, -77);
    P.readData(mesh, dr, ids, t, r);
    for (size_t k = 0; k < mine.size(); ++k)
      for (int c = 0; c < nc; ++c)
        got[who][w][{e, window, it, mine[k], c, pos}] = r[k * nc + c];
    if (plan.second && who == 1) {
      std::vector<double> q(2, -77);
      P.readData("MC", "DC", ids2, t, q);
      for (int k = 0; k < 2; ++k)
        got[who][w][{e, window, it, 100 + k, 0, pos}] = q[k];
    }
  };
  while (P.isCouplingOngoing()) {
    if (++guard > 20) {
      sym::fail("coupling does not end");
      return;
    }
    std::string log;
    if (plan.iters > 1)
      log += P.requiresWritingCheckpoint() ? "w" : ".";
    double dt = P.getMaxTimeStepSize();
    log += num(dt);
    int global = window + (w ? plan.starts[w] : 0);
    std::vector<double> v;
    for (int i : mine)
      for (int c = 0; c < nc; ++c)
        v.push_back(value(who, global, it, i * nc + c));
    P.writeData(mesh, dw, ids, v);
    if (plan.second && who == 0) {
      // A writes a second data on its mesh for MC
      std::vector<double> u;
      for (int i : mine)
        u.push_back(value(1, global, it + 1, i + 2));
      P.writeData(mesh, "DC", ids, u);
    }
    P.advance(dt);
    if (plan.iters > 1)
      log += P.requiresReadingCheckpoint() ? "r" : ".";
    bool done = P.isTimeWindowComplete();
    log += done ? "c" : ".";
    ctl[who][w][{e, window, it, rank}] = log;
    if (P.isCouplingOngoing() && done)
      read(0, 0), read(1, P.getMaxTimeStepSize());
    else if (P.isCouplingOngoing())
      read(1, P.getMaxTimeStepSize()); // a repeated window ends with the data received (its begin is not claimed)
    else
      read(0, 0);
    if (done)
      ++window, it = 0;
    else
      ++it;
    // next epoch
    int nextE = e + 1;
    if (done && P.isCouplingOngoing() && nextE < (int) ep.size() && window + (w ? plan.starts[w] : 0) == plan.starts[nextE]) {
      e = nextE;
      if (w == 0 && ep[e].resets[who] && (ep[e].only < 0 || ep[e].only == rank)) {
        P.resetMesh(mesh);
        define();
      }
    }
  }
  P.finalize();
}
std::string xml(int w)
{
  std::string A = name(w, 0), B = name(w, 1), d = std::to_string(plan.dims);
  std::string s = "<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\" allow-remeshing=\"" + std::string(w ? "false" : "true") + "\"><profiling mode=\"off\"/>";
  s += "<data:" + plan.kind + " name=\"DA\" " + plan.dataAttr + "/><data:" + plan.kind + " name=\"DB\" " + plan.dataAttr + "/>";
  if (plan.second)
    s += "<data:scalar name=\"DC\"/>";
  s += "<mesh name=\"MA\" dimensions=\"" + d + "\"><use-data name=\"DA\"/><use-data name=\"DB\"/>" + (plan.second ? "<use-data name=\"DC\"/>" : "") + "</mesh>";
  s += "<mesh name=\"MB\" dimensions=\"" + d + "\"><use-data name=\"DA\"/><use-data name=\"DB\"/></mesh>";
  if (plan.second)
    s += "<mesh name=\"MC\" dimensions=\"" + d + "\"><use-data name=\"DC\"/></mesh>";
  auto mapping = [&](bool write, const std::string &type, const std::string &attrs, const std::string &inner, const char *from, const char *to) {
    return "<mapping:" + type + " direction=\"" + (write ? "write" : "read") + "\" from=\"" + from + "\" to=\"" + to + "\" constraint=\"" + (write ? "conservative" : "consistent") + "\" " + attrs + (inner.empty() ? "/>" : ">" + inner + "</mapping:" + type + ">");
  };
  std::string ma = mapping(plan.write[0], plan.type, plan.attrs, plan.inner, "MA", "MB"), mb = mapping(plan.write[1], plan.typeB, plan.attrsB, plan.innerB, "MB", "MA");
  bool        aMaps = plan.write[0] || !plan.write[1], bMaps = !plan.write[0] || plan.write[1];
  std::string f = plan.filter.empty() ? "" : " geometric-filter=\"" + plan.filter + "\"";
  s += "<participant name=\"" + A + "\"><provide-mesh name=\"MA\"/>" + (aMaps ? "<receive-mesh name=\"MB\" from=\"" + B + "\"" + f + "/>" : "") + "<write-data name=\"DA\" mesh=\"MA\"/><read-data name=\"DB\" mesh=\"MA\"/>" + (plan.second ? "<write-data name=\"DC\" mesh=\"MA\"/>" : "") + (plan.write[0] ? ma : "") + (plan.write[1] ? "" : mb) + "</participant>";
  s += "<participant name=\"" + B + "\"><provide-mesh name=\"MB\"/>" + (plan.second ? "<provide-mesh name=\"MC\"/>" : "") + (bMaps ? "<receive-mesh name=\"MA\" from=\"" + A + "\"" + f + "/>" : "") + "<write-data name=\"DB\" mesh=\"MB\"/><read-data name=\"DA\" mesh=\"MB\"/>" + (plan.second ? "<read-data name=\"DC\" mesh=\"MC\"/>" : "") + (plan.write[0] ? "" : ma) + (plan.write[1] ? mb : "") + (plan.second ? "<mapping:nearest-neighbor direction=\"read\" from=\"MA\" to=\"MC\" constraint=\"consistent\"/>" : "") + "</participant>";
  std::string sch = plan.iters > 1 ? "parallel-implicit" : "parallel-explicit";
  int         windows = plan.windows - (w ? plan.starts[w] : 0);
  s += "<m2n:sockets acceptor=\"" + A + "\" connector=\"" + B + "\" " + plan.m2n + "/><coupling-scheme:" + sch + "><participants first=\"" + A + "\" second=\"" + B + "\"/><max-time-windows value=\"" + std::to_string(windows) + "\"/><time-window-size value=\"1\"/>";
  s += std::string("<exchange data=\"DA\" mesh=\"") + (plan.write[0] ? "MB" : "MA") + "\" from=\"" + A + "\" to=\"" + B + "\" substeps=\"false\"/><exchange data=\"DB\" mesh=\"" + (plan.write[1] ? "MA" : "MB") + "\" from=\"" + B + "\" to=\"" + A + "\" substeps=\"false\"/>";
  if (plan.second)
    s += "<exchange data=\"DC\" mesh=\"MA\" from=\"" + A + "\" to=\"" + B + "\" substeps=\"false\"/>";
  if (plan.iters > 1)
    s += "<max-iterations value=\"" + std::to_string(plan.iters) + "\"/>" + plan.extra;
  return s + "</coupling-scheme:" + sch + "></precice-configuration>";
}
void prep(const Plan &p)
{
  plan = p;
  int worlds = p.starts.size();
  cfg.assign(worlds, "");
  for (int w = 0; w < worlds; ++w) {
    cfg[w] = world::writeConfig(xml(w));
    for (int who = 0; who < 2; ++who)
      for (int r = 0; r < p.ranks[who]; ++r)
        world::spawn(name(w, who) + std::to_string(r), [=] { body(w, who, r); });
  }
  world::prepare();
}
Mesh line(std::vector<double> x, double y, bool edges = false)
{
  Mesh m;
  for (double v : x) {
    m.x.push_back({v, y});
    if (plan.dims == 3)
      m.x.back().push_back(0.25 * v * (v < 1.5));
  }
  for (size_t i = 0; edges && i + 1 < x.size(); ++i)
    m.edges.push_back({(int) i, (int) i + 1});
  return m;
}
void allOnFirst(Epoch &e)
{
  for (int who = 0; who < 2; ++who) {
    e.part[who].assign(plan.ranks[who], {});
    for (size_t i = 0; i < e.m[who].x.size(); ++i)
      e.part[who][i * plan.ranks[who] / e.m[who].x.size()].push_back(i);
  }
}
void anyRanks(Epoch &e, int who)
{
  e.part[who].assign(plan.ranks[who], {});
  for (size_t i = 0; i < e.m[who].x.size(); ++i)
    e.part[who][plan.ranks[who] == 1 ? 0 : sym::choice(who ? "rankB" : "rankA", plan.ranks[who])].push_back(i);
}
void go(int nv = 5)
{
  for (int who = 0; who < 2; ++who) {
    in[who].clear();
    for (int i = 0; i < nv; ++i)
      in[who].push_back(sym::real(who ? "b" : "a", -10, 10));
    got[who].assign(plan.starts.size(), {});
    ctl[who].assign(plan.starts.size(), {});
  }
  world::run();
  for (int who = 0; who < 2; ++who)
    for (size_t w = 1; w < plan.starts.size(); ++w)
      for (auto &q : got[who][w]) {
        auto key = q.first;
        // worlds follow later epochs only in the remeshed run: compare up to the next remeshing
        int global = key[1] + plan.starts[w];
        if (w + 1 < plan.starts.size() && global >= plan.starts[w + 1])
          continue;
        key[1] = global;
        auto o = got[who][0].find(key);
        if (o == got[who][0].end()) {
          sym::fail("the remeshed run reads what a run starting with the new meshes reads");
          continue;
        }
        sym::close(o->second, q.second, 1e-6, "after remeshing: the value of a run starting with the new meshes");
      }
  for (int who = 0; who < 2; ++who)
    for (size_t w = 1; w < plan.starts.size(); ++w)
      for (auto &q : ctl[who][w]) {
        auto key    = q.first;
        int  global = key[1] + plan.starts[w];
        if (w + 1 < plan.starts.size() && global >= plan.starts[w + 1])
          continue;
        key[1] = global;
        sym::check(ctl[who][0].count(key) && ctl[who][0][key] == q.second, "after remeshing: iterations and steps as in a run starting with the new meshes");
      }
  sym::check(world::undelivered() == 0, "every message sent is received");
  sym::cover("compared");
}
// who resets: a symbolic choice of at least one
void reset(Epoch &e)
{
  int c      = 1 + sym::choice("who resets", 3);
  e.resets[0] = c & 1, e.resets[1] = (c & 2) != 0;
}
void s1() { Plan p; p.starts = {0, 1, 2}; prep(p); }
SYM_SCENARIO_PREP(explicit_nn, s1)
{
  ep.assign(3, {});
  double q   = sym::real("x", 0.1, 1.9), r = sym::real("y", 0.1, 0.9);
  ep[0].m[0] = line({0, 1, 2}, 0), ep[0].m[1] = line({0.25, 1.75}, 0);
  for (int e = 1; e < 3; ++e) {
    reset(ep[e]);
    for (int who = 0; who < 2; ++who)
      ep[e].m[who] = !ep[e].resets[who] ? ep[e - 1].m[who] : who ? (e == 1 ? line({q, 0.3, 2.5, 1.1}, 0.125) : line({r + 1}, 0)) : (e == 1 ? line({1.25, 0.125}, 0) : line({r, 1.5, 2, 0.25, 3}, 0.25));
  }
  for (auto &e : ep)
    allOnFirst(e);
  for (double b : {0.5, 1.5, 0.6875})
    sym::assume(std::fabs(q - b) > 1e-3);
  go(11);
}
void s2() { Plan p; p.write[0] = p.write[1] = true; p.kind = "vector"; p.dims = 3; prep(p); }
SYM_SCENARIO_PREP(explicit_conservative_write, s2)
{
  ep.assign(2, {});
  double q   = sym::real("x", 0.1, 1.9);
  ep[0].m[0] = line({0, 1, 2}, 0), ep[0].m[1] = line({0.25, 1.75}, 0);
  reset(ep[1]);
  ep[1].m[0] = ep[1].resets[0] ? line({q, 0.5}, 0.125) : ep[0].m[0];
  ep[1].m[1] = ep[1].resets[1] ? line({1.25, 0.125, 0.75}, 0) : ep[0].m[1];
  for (auto &e : ep)
    allOnFirst(e);
  go(11);
}
void implicit(const char *extra, int iters, int windows = 3, int concrete = 0, int sparse = 0)
{
  Plan p;
  p.iters = iters, p.extra = extra, p.windows = windows, p.concrete = concrete, p.sparse = sparse;
  prep(p);
}
void meshes(bool edges = false)
{
  ep.assign(2, {});
  ep[0].m[0] = line({0, 1, 2}, 0, edges), ep[0].m[1] = line({0.25, 1.75}, 0, edges);
  reset(ep[1]);
  ep[1].m[0] = ep[1].resets[0] ? line({0.25, 1.25}, 0.125, edges) : ep[0].m[0];
  ep[1].m[1] = ep[1].resets[1] ? line({1.25, 0.125, 0.875}, 0, edges) : ep[0].m[1];
  for (auto &e : ep)
    allOnFirst(e);
}
void s3() { implicit("", 3); }
SYM_SCENARIO_PREP(implicit_plain, s3) { meshes(); go(13); }
void s4() { implicit("<absolute-convergence-measure data=\"DA\" mesh=\"MA\" limit=\"4\"/>", 3, 3, 1, true); }
SYM_SCENARIO_PREP(implicit_measure, s4) { meshes(); go(3); }
void s5() { implicit("<acceleration:constant><relaxation value=\"0.5\"/></acceleration:constant>", 3); }
SYM_SCENARIO_PREP(implicit_constant, s5) { meshes(); go(13); }
void s7() { implicit("<acceleration:IQN-ILS><initial-relaxation value=\"0.5\"/><max-used-iterations value=\"4\"/><time-windows-reused value=\"2\"/><data name=\"DA\" mesh=\"MA\"/><data name=\"DB\" mesh=\"MB\"/><preconditioner type=\"constant\"/><filter type=\"QR2\" limit=\"1e-4\"/></acceleration:IQN-ILS>", 3, 2, 1, 2); }
SYM_SCENARIO_PREP(implicit_iqnils, s7)
{
  ep.assign(2, {});
  ep[0].m[0] = line({0}, 0), ep[0].m[1] = line({0.25}, 0);
  reset(ep[1]);
  for (int who = 0; who < 2; ++who)
    ep[1].m[who] = ep[1].resets[who] ? line({0.5 * who, 1}, 0) : ep[0].m[who];
  for (auto &e : ep)
    allOnFirst(e);
  go(1);
}
void s8() { Plan p; p.type = "nearest-projection"; p.typeB = "rbf-global-direct", p.attrsB = "polynomial=\"separate\"", p.innerB = "<basis-function:thin-plate-splines/>"; p.kind = "vector"; prep(p); }
SYM_SCENARIO_PREP(projection_and_rbf, s8)
{
  ep.assign(2, {});
  ep[0].m[0] = line({0, 1, 2}, 0, true), ep[0].m[1] = line({0.25, 1.75, 2}, 0);
  ep[0].m[1].x[1][1] = 1;
  reset(ep[1]);
  double q = sym::real("x", 0.1, 1.9);
  ep[1].m[0] = ep[1].resets[0] ? line({0.25, 1.25, 3}, 0.125, true) : ep[0].m[0];
  ep[1].m[1] = ep[1].resets[1] ? line({1.25, 0.125, 0.875, 2}, 0) : ep[0].m[1];
  if (ep[1].resets[1])
    ep[1].m[1].x[0][1] = 0.75, ep[1].m[1].x[2][1] = -0.5;
  else
    q = 0;
  for (auto &e : ep)
    allOnFirst(e);
  go(11);
}
void s9() { Plan p; p.second = true; prep(p); }
SYM_SCENARIO_PREP(other_mesh_kept, s9) { meshes(); go(11); }
void sa() { Plan p; p.ranks[0] = p.ranks[1] = 2; p.filter = "no-filter"; prep(p); }
SYM_SCENARIO_PREP(distributed, sa)
{
  meshes();
  for (int who = 0; who < 2; ++who)
    if (ep[1].resets[who])
      anyRanks(ep[1], who);
  go(5);
}
void sa2() { Plan p; p.ranks[0] = p.ranks[1] = 2; p.filter = "no-filter"; prep(p); }
// one rank gets other vertices, the other one does not know
SYM_SCENARIO_PREP(distributed_one_rank, sa2)
{
  int who = sym::choice("who", 2), only = sym::choice("only", 2);
  ep.assign(2, {});
  ep[0].m[0] = line({0, 1, 2, 3}, 0), ep[0].m[1] = line({0.25, 1.75, 2.25}, 0);
  for (int k = 0; k < 2; ++k)
    for (int e = 0; e < 2; ++e)
      ep[e].m[k] = ep[0].m[k], ep[e].part[k] = {{0, 1}, {2}};
  ep[0].part[0][1].push_back(3);
  ep[1].part[0][1].push_back(3);
  ep[1].resets[who] = true, ep[1].only = only;
  double x = sym::real("x", 0.125, 3);
  for (double b : {0.5, 1.0, 1.5, 2.0, 2.5})
    sym::assume(std::fabs(x - b) > 1e-3);
  if (only == 0)
    ep[1].m[who].x[0][0] = x;
  else {
    ep[1].m[who].x[2][0] = x;
    ep[1].m[who].x.push_back({0.5, 1.25});
    ep[1].part[who][1].push_back(ep[1].m[who].x.size() - 1);
  }
  go(5);
}
void sb() { Plan p; p.ranks[0] = 2; p.ranks[1] = 1; p.filter = "no-filter"; p.iters = 2; p.windows = 2; p.extra = "<acceleration:constant><relaxation value=\"0.5\"/></acceleration:constant>"; prep(p); }
SYM_SCENARIO_PREP(distributed_implicit, sb)
{
  meshes();
  for (int who = 0; who < 2; ++who)
    if (ep[1].resets[who])
      anyRanks(ep[1], who);
  go(5);
}
void sc() { Plan p; p.ranks[0] = p.ranks[1] = 2; p.m2n = "use-two-level-initialization=\"true\""; p.filter = "on-secondary-ranks\" safety-factor=\"10"; prep(p); }
SYM_SCENARIO_PREP(distributed_two_level, sc)
{
  meshes();
  for (auto &e : ep)
    e.m[0].x.push_back({4, 0.5}), e.m[0].x.push_back({5, 0}), e.m[1].x.push_back({3.5, 0}), e.m[1].x.push_back({4.5, 1});
  for (auto &e : ep)
    allOnFirst(e);
  go(5);
}
} // namespace
