// C22: direct access to received meshes.
#include "map.hpp"
using namespace h;
using maps::Points;
namespace {
struct Plan {
  int         dims = 2, ranksA = 1, ranksB = 1;
  std::string kind = "scalar", m2n, mapping, scheme = "parallel-explicit", attrs, extraData;
  bool        read = true, write = true, init = false;
};
Plan                             plan;
std::string                      cfg;
int                              comps;
Points                           X;          // vertices of A
std::vector<std::vector<int>>    owner;      // vertices of each rank of A
std::vector<std::vector<double>> region;     // per rank of B: min, max per axis
std::vector<double>              F, G;       // values of A; G[rank*n*comps + i*comps + c] written by ranks of B
std::vector<double>              back;       // read by A
Points                           own;        // B's own mesh (with a mapping)
std::vector<double>              ownGot;
std::vector<std::vector<int>>    ownParts;

bool inside(int i, int r)
{
  bool b = true;
  for (int d = 0; d < plan.dims; ++d)
    b = b & (X[i][d] >= region[r][2 * d]) & (X[i][d] <= region[r][2 * d + 1]);
  return b;
}
void a(int rank)
{
  Participant P("A", cfg, rank, plan.ranksA);
  world::ready();
  std::vector<VertexID> ids;
  std::vector<double>   f, g;
  for (int i : owner[rank]) {
    ids.push_back(P.setMeshVertex("M", X[i]));
    f.insert(f.end(), F.begin() + i * comps, F.begin() + (i + 1) * comps);
  }
  g.assign(f.size(), -77);
  P.initialize();
  while (P.isCouplingOngoing()) {
    P.writeData("M", "F", ids, f);
    P.advance(P.getMaxTimeStepSize());
    P.readData("M", "G", ids, 0, g);
  }
  for (size_t k = 0; k < ids.size(); ++k)
    for (int c = 0; c < comps; ++c)
      back[owner[rank][k] * comps + c] = g[k * comps + c];
  P.finalize();
}
void b(int rank)
{
  Participant P("B", cfg, rank, plan.ranksB);
  world::ready();
  P.setMeshAccessRegion("M", region[rank]);
  sym::check(h::throws([&] { P.setMeshAccessRegion("M", region[rank]); }), "the access region can be set only once");
  std::vector<VertexID> ownIds;
  if (!plan.mapping.empty())
    for (int i : ownParts[rank])
      ownIds.push_back(P.setMeshVertex("O", own[i]));
  P.initialize();
  int want = 0;
  for (size_t i = 0; i < X.size(); ++i)
    want += inside(i, rank) ? 1 : 0;
  int n = P.getMeshVertexSize("M");
  sym::check(n == want, "as many vertices as lie inside of the region");
  if (n != want)
    return;
  std::vector<VertexID> ids(n);
  std::vector<double>   x(n * plan.dims, -77);
  P.getMeshVertexIDsAndCoordinates("M", ids, x);
  std::vector<VertexID> tooMany(n + 1);
  std::vector<double>   xx((n + 1) * plan.dims);
  sym::check(h::throws([&] { P.getMeshVertexIDsAndCoordinates("M", tooMany, xx); }), "buffers of the wrong size are refused");
  // which vertex is which: vertices differ in their first coordinate
  std::vector<int> at(n, -1);
  for (int k = 0; k < n; ++k) {
    for (size_t i = 0; i < X.size(); ++i) {
      bool same = true;
      for (int d = 0; d < plan.dims; ++d)
        same = same & (x[k * plan.dims + d] == X[i][d]);
      if (same)
        at[k] = i;
    }
    sym::check(at[k] >= 0, "the coordinates are those of a vertex");
    if (at[k] < 0)
      return;
    sym::check(inside(at[k], rank), "the vertex lies inside of the region");
    for (int l = 0; l < k; ++l)
      sym::check(at[k] != at[l] && ids[k] != ids[l], "every vertex is listed once");
  }
  if (n)
    sym::cover("?vertices inside");
  if (n < (int) X.size())
    sym::cover("?vertices outside");
  while (P.isCouplingOngoing()) {
    double              dt = P.getMaxTimeStepSize();
    std::vector<double> g(n * comps);
    for (int k = 0; k < n; ++k)
      for (int c = 0; c < comps; ++c)
        g[k * comps + c] = G[(rank * X.size() + at[k]) * comps + c];
    P.writeData("M", "G", ids, g);
    P.advance(dt);
    std::vector<double> f(n * comps, -77);
    P.readData("M", "F", ids, 0, f);
    for (int k = 0; k < n; ++k)
      for (int c = 0; c < comps; ++c)
        sym::close(f[k * comps + c], F[at[k] * comps + c], 1e-9, "the value of exactly this vertex");
    if (!plan.mapping.empty()) {
      std::vector<double> o(ownIds.size() * comps);
      P.readData("O", "F", ownIds, 0, o);
      for (size_t k = 0; k < ownIds.size(); ++k)
        for (int c = 0; c < comps; ++c)
          ownGot[ownParts[rank][k] * comps + c] = o[k * comps + c];
    }
  }
  P.finalize();
}
void prep(const Plan &p)
{
  plan          = p;
  comps         = p.kind == "vector" ? p.dims : 1;
  std::string d = std::to_string(p.dims), s = "<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\"><profiling mode=\"off\"/>";
  s += "<data:" + p.kind + " name=\"F\"/><data:" + p.kind + " name=\"G\"/><mesh name=\"M\" dimensions=\"" + d + "\"><use-data name=\"F\"/><use-data name=\"G\"/></mesh>";
  if (!p.mapping.empty())
    s += "<mesh name=\"O\" dimensions=\"" + d + "\"><use-data name=\"F\"/></mesh>";
  s += "<participant name=\"A\"><provide-mesh name=\"M\"/><write-data name=\"F\" mesh=\"M\"/><read-data name=\"G\" mesh=\"M\"/></participant>";
  s += "<participant name=\"B\">" + std::string(p.mapping.empty() ? "" : "<provide-mesh name=\"O\"/>") + "<receive-mesh name=\"M\" from=\"A\" api-access=\"true\" " + p.attrs + "/><write-data name=\"G\" mesh=\"M\"/><read-data name=\"F\" mesh=\"M\"/>" + (p.mapping.empty() ? "" : "<read-data name=\"F\" mesh=\"O\"/>" + p.mapping) + "</participant>";
  s += "<m2n:sockets acceptor=\"A\" connector=\"B\" " + p.m2n + "/><coupling-scheme:" + p.scheme + "><participants first=\"A\" second=\"B\"/><max-time-windows value=\"1\"/><time-window-size value=\"1\"/>";
  s += "<exchange data=\"F\" mesh=\"M\" from=\"A\" to=\"B\" substeps=\"false\"/><exchange data=\"G\" mesh=\"M\" from=\"B\" to=\"A\" substeps=\"false\"/></coupling-scheme:" + p.scheme + "></precice-configuration>";
  cfg = world::writeConfig(s);
  for (int r = 0; r < p.ranksA; ++r)
    world::spawn("A" + std::to_string(r), [r] { a(r); });
  for (int r = 0; r < p.ranksB; ++r)
    world::spawn("B" + std::to_string(r), [r] { b(r); });
  world::prepare();
}
void go()
{
  if (owner.empty()) {
    owner.assign(1, {});
    for (size_t i = 0; i < X.size(); ++i)
      owner[0].push_back(i);
  }
  if (plan.ranksB > 1) { // all ranks empty: documented error
    bool any = false;
    for (int r = 0; r < plan.ranksB; ++r)
      for (size_t i = 0; i < X.size(); ++i)
        any = any | inside(i, r);
    sym::assume(any);
  }
  F.clear(), G.clear();
  for (size_t i = 0; i < X.size() * comps; ++i)
    F.push_back(sym::real("f", -10, 10));
  for (size_t i = 0; i < X.size() * comps * plan.ranksB; ++i)
    G.push_back(sym::real("g", -10, 10));
  back.assign(X.size() * comps, -99);
  ownGot.assign(own.size() * comps, -99);
  world::run();
  for (size_t i = 0; i < X.size(); ++i)
    for (int c = 0; c < comps; ++c) {
      double want = 0;
      for (int r = 0; r < plan.ranksB; ++r)
        if (inside(i, r))
          want += G[(r * X.size() + i) * comps + c];
      sym::close(back[i * comps + c], want, 1e-9, "values written inside arrive at their vertex, others are zero");
    }
  sym::check(world::undelivered() == 0, "every message sent is received");
  sym::cover("accessed");
}
std::vector<double> box(const char *n, int dims, double lo, double hi)
{
  std::vector<double> r;
  for (int d = 0; d < dims; ++d) {
    double a = sym::real(n, lo, hi), b = sym::real(n, lo, hi);
    sym::assume(b - a > 1e-3);
    r.push_back(a);
    r.push_back(b);
  }
  return r;
}
void s1() { prep({}); }
void s2() { Plan p; p.dims = 3; p.kind = "vector"; prep(p); }
void s3() { Plan p; p.ranksB = 2; prep(p); }
void s4() { Plan p; p.ranksB = 2; p.ranksA = 2; p.kind = "vector"; p.m2n = "enforce-gather-scatter=\"true\""; prep(p); }
void s5() { Plan p; p.ranksB = 2; p.ranksA = 2; p.m2n = "use-two-level-initialization=\"true\""; prep(p); }
void s6() { Plan p; p.ranksB = 2; p.attrs = "safety-factor=\"5\""; p.mapping = "<mapping:nearest-neighbor direction=\"read\" from=\"M\" to=\"O\" constraint=\"consistent\"/>"; prep(p); }
void s7() { Plan p; p.dims = 3; p.mapping = "<mapping:nearest-neighbor direction=\"read\" from=\"M\" to=\"O\" constraint=\"consistent\"/>"; prep(p); }
} // namespace
SYM_SCENARIO_PREP(any_region_2d, s1)
{
  X      = {{0, 0}, {1, 0.5}, {2, -1}};
  region = {box("b", 2, -2, 3)};
  go();
}
SYM_SCENARIO_PREP(any_vertex_3d, s2)
{
  X      = {{0, 0, 0}, maps::point("p", 3, -2, 3)};
  sym::assume(X[1][0] != 0);
  region = {{-1, 1.5, -0.5, 1, 0, 2}};
  go();
}
SYM_SCENARIO_PREP(two_ranks, s3)
{
  X      = {{0, 0}, {1, 0.5}, {2, 0}};
  region = {box("b", 1, -1, 3), box("c", 1, -1, 3)};
  for (auto &r : region)
    r.push_back(-1), r.push_back(1);
  go();
}
static void someOwner()
{
  owner.assign(2, {});
  for (size_t i = 0; i < X.size(); ++i)
    owner[sym::choice("rankA", 2)].push_back(i);
}
SYM_SCENARIO_PREP(gather_scatter_vector, s4)
{
  X      = {{0, 0}, {1, 0.5}, {2, 0}};
  region = {box("b", 1, -1, 3), {0.5, 3}};
  for (auto &r : region)
    r.push_back(-1), r.push_back(1);
  someOwner();
  go();
}
SYM_SCENARIO_PREP(two_level, s5)
{
  X      = {{0, 0}, {1, 0.5}, {2, 0}};
  region = {{-1, 1.5}, box("c", 1, -1, 3)};
  for (auto &r : region)
    r.push_back(-1), r.push_back(1);
  someOwner();
  go();
}
static void nearestChecks()
{
  for (size_t k = 0; k < own.size(); ++k) {
    size_t best = 0;
    for (size_t i = 1; i < X.size(); ++i)
      if (maps::dist2(X[i], own[k]) < maps::dist2(X[best], own[k]))
        best = i;
    for (int c = 0; c < comps; ++c)
      sym::close(ownGot[k * comps + c], F[best * comps + c], 1e-9, "the mapping is independent of the region");
  }
}
SYM_SCENARIO_PREP(two_ranks_with_mapping, s6)
{
  X        = {{0, 0}, {1, 0.5}, {2, 0}};
  own      = {{0.25, 0}, {0.75, 0.25}, {1.75, 0}, {1.125, 1}};
  ownParts = {{0, 3}, {1, 2}};
  region   = {box("b", 1, -1, 3), {0.5, 3}};
  for (auto &r : region)
    r.push_back(-1), r.push_back(1);
  go();
  nearestChecks();
}
SYM_SCENARIO_PREP(with_mapping_3d, s7)
{
  X        = {{0, 0, 1}, {1, 0.5, 0}, {2, 0, 0}};
  own      = {{0.25, 0, 0}, {0.75, 0.25, 0.125}, {1.75, 0, 0}};
  ownParts = {{0, 1, 2}};
  region   = {box("b", 1, -1, 3)};
  for (double q : {-1., 1., -0.5, 0.5})
    region[0].push_back(q);
  go();
  nearestChecks();
}
