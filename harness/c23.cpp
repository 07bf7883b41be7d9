// C23: mesh connectivity, seen in what both participants export.
#include "exp.hpp"
#include <numeric>
static void prep(int dims, int ranks = 1, const char *mapping = "nearest-projection")
{
  auto p    = base(dims);
  p.windows = 1;
  p.ranks   = ranks;
  p.mapping = mapping;
  p.formats = {"vtu"};
  R.prep(p);
}
static void finish()
{
  R.p.near = {0, 2};
  for (int i : R.p.near)
    R.p.y.push_back(R.p.m.x[i]);
  R.values();
  R.go();
}
// the k-th permutation
static std::vector<int> perm(int n, int k)
{
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  while (k--)
    std::next_permutation(p.begin(), p.end());
  return p;
}
typedef std::vector<double> V;
static double cross(const V &a, const V &b, const V &c)
{
  return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
// four points, handed over in any order: in convex position, they become a convex quadrilateral around which e then runs
static bool convex(const Points &x, std::vector<int> &e)
{
  for (int i = 0; i < 4; ++i) { // no three of them on a line
    double s = cross(x[e[i]], x[e[(i + 1) % 4]], x[e[(i + 2) % 4]]);
    sym::assume((s > 0.01) | (s < -0.01));
  }
  for (auto o : {std::vector<int>{e[0], e[1], e[2], e[3]}, {e[0], e[2], e[1], e[3]}, {e[0], e[1], e[3], e[2]}}) {
    bool left = true, right = true;
    for (int i = 0; i < 4; ++i) {
      double s = cross(x[o[i]], x[o[(i + 1) % 4]], x[o[(i + 2) % 4]]);
      left     = left & (s > 0);
      right    = right & (s < 0);
    }
    if (left | right) {
      e = o;
      return true;
    }
  }
  return false;
}
static double dist2(const V &a, const V &b) { return maps::dist2(a, b); }
// t moves one of the vertices; the quad is handed over in any order, alone or with a second one
static void quad(int moved, double dx, double dy, double lo, double hi, bool second, bool bulk)
{
  Points flat = {{0, 0}, {4, 0.5}, {3.5, 3}, {0.5, 4}};
  if (second) {
    flat.push_back({7, 1});
    flat.push_back({7.5, 3.5});
  }
  double t = sym::real("t", lo, hi);
  flat[moved][0] += dx * t;
  flat[moved][1] += dy * t;
  std::vector<std::vector<int>> quads = {{0, 1, 2, 3}};
  if (second)
    quads.push_back({1, 4, 5, 2});
  auto around = quads;
  bool ok     = true;
  for (auto &e : around)
    ok = convex(flat, e) && ok;
  for (auto &x : flat) // 3D: a tilted plane
    if (R.p.dims == 3)
      x.push_back(0.5 * x[0] - 0.25 * x[1]);
  R.p.m.x = flat;
  if (ok)
    for (auto &e : around) {
      double d = dist2(flat[e[0]], flat[e[2]]), f = dist2(flat[e[1]], flat[e[3]]);
      sym::assume((d < f - 0.01) | (d > f + 0.01));
      if (d < f) {
        R.p.m.triangles.push_back({e[0], e[1], e[2]});
        R.p.m.triangles.push_back({e[0], e[2], e[3]});
      } else {
        R.p.m.triangles.push_back({e[1], e[2], e[3]});
        R.p.m.triangles.push_back({e[1], e[3], e[0]});
      }
    }
  auto order = perm(4, sym::choice("order", 24));
  R.connect  = [&](Participant &P, const std::vector<VertexID> &v) {
    bool error = h::throws([&] {
      std::vector<VertexID> all;
      for (auto &e : quads) {
        std::vector<VertexID> w;
        for (int i : order)
          w.push_back(v[e[i]]);
        if (!bulk)
          P.setMeshQuad("MA", w[0], w[1], w[2], w[3]);
        all.insert(all.end(), w.begin(), w.end());
      }
      if (bulk)
        P.setMeshQuads("MA", all);
    });
    sym::check(error == !ok, "exactly convex quads are accepted");
    sym::cover(ok ? "convex" : "not convex");
    return !error && ok;
  };
  finish();
}
static void p1() { prep(2); }
static void p2() { prep(3); }
SYM_SCENARIO_PREP(quad_2d, p1) { quad(5, 1, 0.5, -6, 6, true, false); }
SYM_SCENARIO_PREP(quad_3d, p2) { quad(1, 0.75, 1, -6, 6, false, false); }
SYM_SCENARIO_PREP(quads_2d, p1) { quad(5, 1, 0.5, -6, 6, true, true); }
SYM_SCENARIO_PREP(quads_3d, p2) { quad(1, 0.75, 1, -6, 6, false, true); }

// any order of calls, any order of the vertices of an element, any repetition, one by one or in bulk
static void mixed(int dims)
{
  R.p.m.x = dims == 3 ? Points{{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}, {4, 4, 4}} : Points{{0, 0}, {4, 0}, {0, 4}, {4, 4}, {6, 2}};
  std::vector<std::vector<int>> el = {{1, 2}, {0, 4}, {0, 1, 2}, {2, 1, 3}};
  if (dims == 3)
    el.push_back({4, 1, 2, 3});
  else
    el.push_back({1, 3, 4});
  int  first = sym::choice("first", 5), turn = sym::choice("turn", 6), again = sym::choice("again", 5);
  bool bulk  = sym::boolean("bulk");
  std::rotate(el.begin(), el.begin() + first, el.end());
  el.push_back(el[again]);
  std::reverse(el.back().begin(), el.back().end());
  for (auto &e : el) {
    auto p = perm(e.size(), e.size() == 2 ? turn % 2 : e.size() == 3 ? turn : turn * 4 + 1);
    auto c = e;
    for (size_t i = 0; i < e.size(); ++i)
      e[i] = c[p[i]];
    if (e.size() == 2)
      R.p.m.edges.push_back({e[0], e[1]});
    else if (e.size() == 3)
      R.p.m.triangles.push_back({e[0], e[1], e[2]});
    else
      R.p.m.tets.push_back({e[0], e[1], e[2], e[3]});
  }
  R.connect = [&](Participant &P, const std::vector<VertexID> &v) {
    std::vector<VertexID> all[5];
    for (auto &e : el) {
      auto &a = all[e.size()];
      if (!bulk)
        a.clear();
      for (int i : e)
        a.push_back(v[i]);
      if (bulk)
        continue;
      if (a.size() == 2)
        P.setMeshEdge("MA", a[0], a[1]);
      else if (a.size() == 3)
        P.setMeshTriangle("MA", a[0], a[1], a[2]);
      else
        P.setMeshTetrahedron("MA", a[0], a[1], a[2], a[3]);
    }
    if (bulk) {
      P.setMeshTriangles("MA", all[3]);
      P.setMeshEdges("MA", all[2]);
      if (dims == 3)
        P.setMeshTetrahedra("MA", all[4]);
    }
    return true;
  };
  finish();
}
SYM_SCENARIO_PREP(mixed_2d, p1) { mixed(2); }
SYM_SCENARIO_PREP(mixed_3d, p2) { mixed(3); }

// connectivity that nobody needs is ignored
static void p3() { prep(3, 1, "nearest-neighbor"); }
SYM_SCENARIO_PREP(not_required, p3)
{
  R.p.m.x       = {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {4, 4, 0}};
  R.unconnected = true;
  R.connect     = [&](Participant &P, const std::vector<VertexID> &v) {
    sym::check(!P.requiresMeshConnectivityFor("MA"), "no connectivity required");
    switch (sym::choice("call", 6)) {
    case 0: P.setMeshEdge("MA", v[0], v[1]); break;
    case 1: P.setMeshEdges("MA", std::vector<VertexID>{v[0], v[1]}); break;
    case 2: P.setMeshTriangles("MA", std::vector<VertexID>{v[0], v[1], v[2]}); break;
    case 3: P.setMeshQuad("MA", v[0], v[1], v[3], v[2]); break;
    case 4: P.setMeshQuads("MA", std::vector<VertexID>{v[0], v[1], v[3], v[2]}); break;
    case 5: P.setMeshTetrahedron("MA", v[0], v[1], v[2], v[3]); break;
    }
    return true;
  };
  finish();
}
// unknown vertices, repeated vertices and incomplete lists are rejected
SYM_SCENARIO_PREP(rejected, p2)
{
  R.p.m.x   = {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}};
  R.connect = [&](Participant &P, const std::vector<VertexID> &v) {
    sym::check(P.requiresMeshConnectivityFor("MA"), "connectivity required");
    std::vector<VertexID> w = v;
    int                   n = 2, kind = sym::choice("call", 9), at = 0;
    bool                  bad = false;
    n  = kind < 2 ? 2 : kind < 4 ? 3 : 4;
    at = sym::choice("at", n);
    VertexID id = sym::integer("id", -2, 6);
    w[at]       = id;
    bad         = (id < 0) | (id > 3);
    bool repeated = false;
    for (int i = 0; i < n; ++i)
      if (i != at)
        repeated = repeated | (id == v[i]);
    if (kind == 0 || kind == 1 || kind == 3 || kind > 6)
      sym::assume(!repeated); // not promised
    w.resize(n);
    if (kind == 6) // a list that does not fit
      w.resize(sym::integer("size", 0, 3));
    bool fits  = kind != 6 || w.empty();
    bool error = h::throws([&] {
      switch (kind) {
      case 0: P.setMeshEdge("MA", w[0], w[1]); break;
      case 1: P.setMeshEdges("MA", w); break;
      case 2: P.setMeshTriangle("MA", w[0], w[1], w[2]); break;
      case 3: P.setMeshTriangles("MA", w); break;
      case 4: P.setMeshQuad("MA", w[0], w[1], w[2], w[3]); break;
      case 5:
      case 6: P.setMeshQuads("MA", w); break;
      case 7: P.setMeshTetrahedron("MA", w[0], w[1], w[2], w[3]); break;
      case 8: P.setMeshTetrahedra("MA", w); break;
      }
    });
    sym::check(error == (kind == 6 ? !fits : bool(bad | repeated)), "exactly the invalid elements are rejected");
    sym::cover(error ? "rejected" : "accepted");
    return false;
  };
  finish();
}
