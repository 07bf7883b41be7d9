// C18: scaled-consistent mapping preserves integrals.
#include "geo.hpp"
static maps::Run R;
static maps::Plan base(const char *type, const char *constraint, bool write, int dims, const char *kind)
{
  maps::Plan p;
  p.type       = type;
  p.constraint = constraint;
  p.write      = write;
  p.dims       = dims;
  p.kind       = kind;
  return p;
}
static double area(const maps::Mesh &m, int a, int b, int c)
{
  auto e = geo::sub(m.x[b], m.x[a]), f = geo::sub(m.x[c], m.x[a]);
  double ee = geo::dot(e, e), ff = geo::dot(f, f), ef = geo::dot(e, f);
  return 0.5 * std::sqrt(ee * ff - ef * ef);
}
// weight of each vertex in the integral
static std::vector<double> weights(const maps::Mesh &m, int dims, bool volume)
{
  std::vector<double> w(m.x.size(), 0.0);
  if (dims == 2 && !volume)
    for (auto &e : m.edges) {
      double l = std::sqrt(maps::dist2(m.x[e[0]], m.x[e[1]]));
      for (int i : e)
        w[i] += 0.5 * l;
    }
  else if (dims == 2 || !volume)
    for (auto &t : m.triangles)
      for (int i : t)
        w[i] += area(m, t[0], t[1], t[2]) / 3;
  else
    for (auto &t : m.tets) {
      double V = std::fabs(geo::det3(geo::sub(m.x[t[1]], m.x[t[0]]), geo::sub(m.x[t[2]], m.x[t[0]]), geo::sub(m.x[t[3]], m.x[t[0]]))) / 6;
      for (int i : t)
        w[i] += V / 4;
    }
  return w;
}
static double integral(const std::vector<double> &w, const std::vector<double> &v, int comps, int c)
{
  double s = 0;
  for (size_t i = 0; i < w.size(); ++i)
    s += w[i] * v[i * comps + c];
  return s;
}
// plain: the result of the consistent mapping
static void scaled(const std::vector<double> &plain, bool volume)
{
  auto wi = weights(R.p.in, R.p.dims, volume), wo = weights(R.p.out, R.p.dims, volume);
  for (int c = 0; c < R.comps; ++c) {
    double I = integral(wi, R.v, R.comps, c), O = integral(wo, plain, R.comps, c);
    sym::assume((O > 0.25) | (O < -0.25) | (O == 0));
    if (O == 0) {
      sym::cover("?zero output integral");
      for (size_t j = 0; j < R.p.out.x.size(); ++j)
        sym::close(R.out(j, c), plain[j * R.comps + c], 1e-7, "without an output integral the values stay as mapped");
      continue;
    }
    sym::close(integral(wo, R.r, R.comps, c), I, 1e-7, "the integral is preserved");
    for (size_t j = 0; j < R.p.out.x.size(); ++j)
      sym::close(R.out(j, c) * O, plain[j * R.comps + c] * I, 1e-6, "all values of a component are scaled by the same factor");
  }
  sym::cover("scaled");
}
static std::vector<double> nearest()
{
  std::vector<double> r;
  for (auto &x : R.p.out.x) {
    size_t b = 0;
    for (size_t i = 1; i < R.p.in.x.size(); ++i)
      if (maps::dist2(R.p.in.x[i], x) < maps::dist2(R.p.in.x[b], x))
        b = i;
    for (int c = 0; c < R.comps; ++c)
      r.push_back(R.in(b, c));
  }
  return r;
}
static std::vector<double> closest()
{
  std::vector<double> r;
  for (auto &x : R.p.out.x) {
    auto h = geo::closest(R.p.in, x, R.p.dims == 3);
    for (int c = 0; c < R.comps; ++c) {
      double s = 0;
      for (size_t i = 0; i < h.ids.size(); ++i)
        s += h.w[i] * R.in(h.ids[i], c);
      r.push_back(s);
    }
  }
  return r;
}
static void a1() { R.prep(base("nearest-neighbor", "scaled-consistent-surface", false, 2, "scalar")); }
SYM_SCENARIO_PREP(nearest_surface_2d, a1)
{
  // all lengths and areas in this file are exact numbers
  R.p.in.x      = {{0, 0}, {1.5, 2}, {3, 0}};
  R.p.in.edges  = {{0, 1}, {2, 1}};
  R.p.out.x     = {{0.25, 0}, {1, 1}, {2, 1}, {2.75, 0}};
  R.p.out.edges = {{0, 1}, {1, 2}, {2, 3}};
  R.values();
  R.go();
  scaled(nearest(), false);
}
static void a2() { R.prep(base("nearest-neighbor", "scaled-consistent-volume", true, 2, "vector")); }
SYM_SCENARIO_PREP(nearest_volume_2d, a2)
{
  R.p.in.x          = {{0, 0}, {1, 0}, {0, 1}, {1, 1}};
  R.p.in.triangles  = {{0, 1, 2}, {1, 2, 3}};
  R.p.out.x         = {{0.125, 0}, {0.875, 0.125}, {0.25, 0.75}};
  R.p.out.triangles = {{0, 1, 2}};
  R.values();
  R.go();
  scaled(nearest(), true);
}
static void a3() { R.prep(base("nearest-projection", "scaled-consistent-surface", false, 3, "scalar")); }
SYM_SCENARIO_PREP(projection_surface_3d, a3)
{
  R.p.in.x          = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {2, 2, 0}};
  R.p.in.triangles  = {{0, 1, 2}, {1, 2, 3}};
  R.p.out.x         = {{0.25, 0.25, 0.125}, {1.5, 0.25, 0.125}, {0.5, 1.5, 0.125}};
  R.p.out.triangles = {{0, 1, 2}};
  R.values();
  R.go();
  scaled(closest(), false);
}
static void a4() { R.prep(base("nearest-projection", "scaled-consistent-surface", true, 2, "scalar")); }
SYM_SCENARIO_PREP(projection_surface_2d, a4)
{
  R.p.in.x      = {{0, 0}, {2, 0}, {2, 4}};
  R.p.in.edges  = {{0, 1}, {2, 1}};
  R.p.out.x     = {{0.5, -0.25}, {2.5, 1.25}};
  R.p.out.edges = {{1, 0}};
  R.values();
  R.go();
  scaled(closest(), false);
}
static void a5() { R.prep(base("linear-cell-interpolation", "scaled-consistent-volume", false, 3, "scalar")); }
SYM_SCENARIO_PREP(cells_volume_3d, a5)
{
  R.p.in.x    = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}};
  R.p.in.tets = {{0, 1, 2, 3}, {1, 2, 3, 4}};
  R.p.out.x   = {{0.125, 0.125, 0.125}, {0.5, 0.25, 0.125}, {0.25, 0.5, 0.125}, {0.5, 0.5, 0.5}};
  R.p.out.tets = {{0, 1, 2, 3}};
  R.values();
  R.go();
  std::vector<double> plain;
  for (auto &x : R.p.out.x) {
    geo::Hit h;
    if (!geo::tet(R.p.in, 0, 1, 2, 3, x, h))
      geo::tet(R.p.in, 1, 2, 3, 4, x, h);
    double s = 0;
    for (size_t i = 0; i < h.ids.size(); ++i)
      s += h.w[i] * R.in(h.ids[i], 0);
    plain.push_back(s);
  }
  scaled(plain, true);
}
static void a6() { R.prep(base("linear-cell-interpolation", "scaled-consistent-volume", true, 2, "scalar")); }
SYM_SCENARIO_PREP(cells_volume_2d, a6)
{
  R.p.in.x          = {{0, 0}, {1, 0}, {0, 1}};
  R.p.in.triangles  = {{0, 1, 2}};
  R.p.out.x         = {{0.125, 0.125}, {0.5, 0.25}, {0.25, 0.5}, {0.25, 0.25}};
  R.p.out.triangles = {{0, 1, 3}, {0, 2, 3}};
  R.values();
  R.go();
  std::vector<double> plain;
  for (auto &x : R.p.out.x)
    plain.push_back((1 - x[0] - x[1]) * R.in(0, 0) + x[0] * R.in(1, 0) + x[1] * R.in(2, 0));
  scaled(plain, true);
}
