// C15: nearest projection and linear cell interpolation.
#include "geo.hpp"
static maps::Run R;
static maps::Plan base(const char *type, const char *constraint, bool write, int dims, const char *kind)
{
  maps::Plan p;
  p.type       = type;
  p.constraint = constraint;
  p.write      = write;
  p.dims       = dims;
  p.kind       = kind;
  return p;
}
static maps::Mesh polyline()
{
  maps::Mesh m;
  m.x     = {{0, 0}, {1, 0.5}, {2, 0}, {2.5, 1}};
  m.edges = {{0, 1}, {2, 1}, {2, 3}};
  return m;
}
static maps::Mesh patch() // planar, tilted
{
  maps::Mesh m;
  m.x         = {{0, 0, 0}, {1, 0, 0.5}, {0, 1, 0}, {1.25, 1, 0.625}};
  m.triangles = {{0, 1, 2}, {3, 1, 2}};
  return m;
}
static maps::Mesh roof()
{
  maps::Mesh m;
  m.x         = {{0, 0, 1}, {0, 2, 1}, {-2, 1, 0}, {2, 1, 0}};
  m.triangles = {{0, 1, 2}, {0, 1, 3}};
  return m;
}
static maps::Mesh fan() // 2D, two triangles
{
  maps::Mesh m;
  m.x         = {{0, 0}, {1, 0}, {0.25, 1}, {1.25, 1.25}};
  m.triangles = {{0, 1, 2}, {1, 2, 3}};
  return m;
}
static maps::Mesh cells() // 3D, two tetrahedra
{
  maps::Mesh m;
  m.x    = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0.25}, {0.25, 0, 1}, {1, 1, 1}};
  m.tets = {{0, 1, 2, 3}, {1, 2, 3, 4}};
  return m;
}
static void consistent(size_t j, const geo::Hit &h)
{
  for (int c = 0; c < R.comps; ++c) {
    double want = 0;
    for (size_t i = 0; i < h.ids.size(); ++i)
      want += h.w[i] * R.in(h.ids[i], c);
    sym::close(R.out(j, c), want, 1e-8, "value of the piecewise linear interpolant at the closest point of the mesh");
  }
}
static void conservative(const std::vector<geo::Hit> &hs)
{
  std::vector<double> want(R.p.out.x.size() * R.comps, 0.0);
  for (size_t j = 0; j < hs.size(); ++j)
    for (size_t i = 0; i < hs[j].ids.size(); ++i)
      for (int c = 0; c < R.comps; ++c)
        want[hs[j].ids[i] * R.comps + c] += hs[j].w[i] * R.in(j, c);
  for (size_t k = 0; k < want.size(); ++k)
    sym::close(R.r[k], want[k], 1e-8, "values are distributed with the weights of the closest point of the mesh");
  R.checkSum("the total is conserved");
}
static geo::Hit cellOrClosest(const maps::Mesh &m, const geo::V &q)
{
  geo::Hit h;
  if (q.size() == 2) {
    for (auto &t : m.triangles)
      if (geo::triangle(m, t[0], t[1], t[2], q, h)) {
        sym::cover("inside a cell");
        return h;
      }
  } else {
    for (auto &t : m.tets)
      if (geo::tet(m, t[0], t[1], t[2], t[3], q, h)) {
        sym::cover("inside a cell");
        return h;
      }
  }
  sym::cover("outside all cells");
  return geo::closest(m, q, q.size() == 3);
}
static void a1() { R.prep(base("nearest-projection", "consistent", false, 2, "scalar")); }
static void run_projection_2d(const geo::V &q)
{
  R.p.in    = polyline();
  R.p.out.x = {q};
  R.values();
  R.go();
  auto h = geo::closest(R.p.in, q, false);
  consistent(0, h);
  sym::cover(h.ids.size() == 2 ? "?edge" : "?vertex");
}
SYM_SCENARIO_PREP(projection_2d, a1) { run_projection_2d(maps::onSegments("t", {{{-1, 0.25}, {4, 0.25}}, {{-1, 1.5}, {4, 0.75}}, {{0.75, -1}, {0.75, 2}}, {{-1, -1}, {3.5, 2}}})); }
SYM_SCENARIO_PREP(T_projection_2d, a1) { run_projection_2d(maps::point("q", 2, -1, 4)); }
static void a2() { R.prep(base("nearest-projection", "consistent", true, 3, "vector")); }
static void run_projection_planar_3d(const geo::V &q)
{
  R.p.in    = patch();
  R.p.out.x = {{0.5, 0.5, 0.25}, q};
  R.values();
  R.go();
  consistent(1, geo::closest(R.p.in, q, true));
}
SYM_SCENARIO_PREP(projection_planar_3d, a2) { run_projection_planar_3d(maps::onSegments("t", {{{-1, 0.25, 0.75}, {2, 0.5, 0.25}}, {{0.75, -1, 0.5}, {0.5, 2, 1}}})); }
SYM_SCENARIO_PREP(T_projection_planar_3d, a2) { run_projection_planar_3d(geo::V{sym::real("q", -1, 2), sym::real("q", -1, 2), 0.75}); }
static void a3() { R.prep(base("nearest-projection", "consistent", false, 3, "scalar")); }
static void run_projection_roof_3d(const geo::V &q)
{
  R.p.in    = roof();
  R.p.out.x = {q};
  R.values();
  R.go();
  consistent(0, geo::closest(R.p.in, q, true));
}
SYM_SCENARIO_PREP(projection_roof_3d, a3) { run_projection_roof_3d(maps::onSegments("t", {{{-1, 0.75, 0.75}, {1, 0.75, 1.25}}, {{-0.75, 1.25, 1.5}, {1, 0.75, 0.5}}})); }
SYM_SCENARIO_PREP(T_projection_roof_3d, a3) { run_projection_roof_3d(geo::V{sym::real("q", -1, 1), 0.75, sym::real("q", 0.5, 1.5)}); }
static void a4() { R.prep(base("nearest-projection", "consistent", false, 3, "scalar")); }
static void run_projection_edges_only_3d(const geo::V &q)
{
  R.p.in       = maps::Mesh();
  R.p.in.x     = {{0, 0, 0}, {1, 0, 0.5}, {1, 1, 0}};
  R.p.in.edges = {{0, 1}, {1, 2}};
  R.p.out.x    = {q};
  R.values();
  R.go();
  consistent(0, geo::closest(R.p.in, q, true));
}
SYM_SCENARIO_PREP(projection_edges_only_3d, a4) { run_projection_edges_only_3d(maps::onSegments("t", {{{-1, 0.5, 0}, {2, 0.25, 0.5}}, {{0.5, -1, 1}, {1.25, 2, -0.5}}})); }
SYM_SCENARIO_PREP(T_projection_edges_only_3d, a4) { run_projection_edges_only_3d(maps::point("q", 3, -1, 2)); }
// a quadrilateral reproduces linear fields, whichever diagonal splits it
static void a5() { R.prep(base("nearest-projection", "consistent", false, 3, "scalar")); }
static void run_projection_quad(const geo::V &q)
{
  R.p.in       = maps::Mesh();
  R.p.in.x     = {{0, 0, 0}, {2, 0, 0}, {0.25, 1.5, 0}, {2.5, 2, 0}};
  R.p.in.quads = {{0, 1, 3, 2}};
  R.p.out.x    = {q};
  int    f = sym::choice("field", 2);
  double a = sym::real("a", -5, 5), b = f == 0 ? 2 : -1, c = f == 0 ? -3 : 0.5;
  R.v.clear();
  for (auto &x : R.p.in.x)
    R.v.push_back(a + b * x[0] + c * x[1]);
  R.go();
  // inside the quadrilateral
  sym::assume((6 * q[0] - q[1] >= 0.6) & (4 * q[0] - q[1] <= 7.9));
  sym::close(R.out(0, 0), a + b * q[0] + c * q[1], 1e-8, "a linear field is reproduced on a quadrilateral");
}
SYM_SCENARIO_PREP(projection_quad, a5) { run_projection_quad(maps::onSegments("t", {{{0.25, 0.25, 0.5}, {2, 0.5, -0.25}}})); }
SYM_SCENARIO_PREP(T_projection_quad, a5) { run_projection_quad(geo::V{sym::real("q", 0.25, 1.5), sym::real("q", 0, 1), sym::real("q", -0.5, 0.5)}); }
static void b1() { R.prep(base("nearest-projection", "conservative", true, 2, "vector")); }
static void run_projection_conservative_2d(const geo::V &q)
{
  R.p.out  = polyline();
  R.p.in.x = {q, {0.5, 1}, {1.75, 0.25}};
  R.values();
  R.go();
  conservative({geo::closest(R.p.out, q, false), geo::closest(R.p.out, R.p.in.x[1], false), geo::closest(R.p.out, R.p.in.x[2], false)});
}
SYM_SCENARIO_PREP(projection_conservative_2d, b1) { run_projection_conservative_2d(maps::onSegments("t", {{{-1, 0.5}, {4, 0.25}}, {{1.25, -1}, {0.75, 2}}})); }
SYM_SCENARIO_PREP(T_projection_conservative_2d, b1) { run_projection_conservative_2d(maps::point("q", 2, -1, 4)); }
static void b2() { R.prep(base("nearest-projection", "conservative", false, 3, "scalar")); }
static void run_projection_conservative_3d(const geo::V &q)
{
  R.p.out  = patch();
  R.p.in.x = {q, {0.25, 0.5, 1}};
  R.values();
  R.go();
  conservative({geo::closest(R.p.out, q, true), geo::closest(R.p.out, R.p.in.x[1], true)});
}
SYM_SCENARIO_PREP(projection_conservative_3d, b2) { run_projection_conservative_3d(maps::onSegments("t", {{{-1, 0.25, 0.75}, {2, 0.5, 0.25}}, {{0.75, -1, 0.5}, {0.5, 2, 1}}})); }
SYM_SCENARIO_PREP(T_projection_conservative_3d, b2) { run_projection_conservative_3d(geo::V{sym::real("q", -0.5, 1.5), sym::real("q", -0.5, 1.5), 0.5}); }
static void c1() { R.prep(base("linear-cell-interpolation", "consistent", false, 2, "scalar")); }
static void run_cells_2d(const geo::V &q)
{
  R.p.in    = fan();
  R.p.out.x = {q};
  R.values();
  R.go();
  consistent(0, cellOrClosest(R.p.in, q));
}
SYM_SCENARIO_PREP(cells_2d, c1) { run_cells_2d(maps::onSegments("t", {{{-0.5, 0.25}, {2, 1}}, {{0.5, -0.5}, {0.75, 2}}})); }
SYM_SCENARIO_PREP(T_cells_2d, c1) { run_cells_2d(maps::point("q", 2, -0.5, 2)); }
static void c2() { R.prep(base("linear-cell-interpolation", "consistent", true, 3, "scalar")); }
static void run_cells_3d(const geo::V &q)
{
  R.p.in    = cells();
  R.p.out.x = {q};
  R.values();
  R.go();
  geo::Hit h;
  // outside the cells, a concave corner has several closest points: inside only
  bool in = false;
  for (auto &t : R.p.in.tets)
    if (!in && geo::tet(R.p.in, t[0], t[1], t[2], t[3], q, h))
      in = true;
  if (!in)
    __sym_end_path();
  consistent(0, h);
  sym::cover("inside a tetrahedron");
}
SYM_SCENARIO_PREP(cells_3d, c2) { run_cells_3d(maps::onSegments("t", {{{0, 0.125, 0.25}, {1, 0.75, 0.75}}, {{0.375, 0, 0.125}, {0.25, 0.5, 0.5}}})); }
SYM_SCENARIO_PREP(T_cells_3d, c2) { run_cells_3d(geo::V{sym::real("q", 0, 1), sym::real("q", 0, 1), 0.375}); }
static void c3() { R.prep(base("linear-cell-interpolation", "conservative", true, 2, "scalar")); }
static void run_cells_conservative_2d(const geo::V &q)
{
  R.p.out  = fan();
  R.p.in.x = {{0.5, 0.5}, q};
  R.values();
  R.go();
  conservative({cellOrClosest(R.p.out, R.p.in.x[0]), cellOrClosest(R.p.out, q)});
}
SYM_SCENARIO_PREP(cells_conservative_2d, c3) { run_cells_conservative_2d(maps::onSegments("t", {{{-0.5, 0.25}, {2, 1}}, {{0.5, -0.5}, {0.75, 2}}})); }
SYM_SCENARIO_PREP(T_cells_conservative_2d, c3) { run_cells_conservative_2d(maps::point("q", 2, -0.5, 2)); }
static void c4() { R.prep(base("linear-cell-interpolation", "conservative", false, 3, "scalar")); }
static void run_cells_conservative_3d(const geo::V &q)
{
  R.p.out = cells();
  R.p.in.x = {q, {0.25, 0.25, 0.25}};
  R.values();
  R.go();
  geo::Hit h, h2;
  bool     in = false;
  for (auto &t : R.p.out.tets)
    if (!in && geo::tet(R.p.out, t[0], t[1], t[2], t[3], q, h))
      in = true;
  if (!in)
    __sym_end_path();
  geo::tet(R.p.out, 0, 1, 2, 3, R.p.in.x[1], h2);
  conservative({h, h2});
}
SYM_SCENARIO_PREP(cells_conservative_3d, c4) { run_cells_conservative_3d(maps::onSegments("t", {{{0, 0.125, 0.25}, {1, 0.75, 0.75}}})); }
SYM_SCENARIO_PREP(T_cells_conservative_3d, c4) { run_cells_conservative_3d(geo::V{sym::real("q", 0, 1), 0.25, sym::real("q", 0, 1)}); }
