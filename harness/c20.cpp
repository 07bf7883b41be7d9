// C20: geometric multiscale mappings and coarse graining.
#include "map.hpp"
using namespace h;
using maps::Points;
static maps::Run R;
static void geo(const char *type, bool write, const char *kind, const std::string &attrs, int dims = 3)
{
  maps::Plan p;
  p.type     = type;
  p.write    = write;
  p.dims     = dims;
  p.kind     = kind;
  p.attrs    = attrs;
  p.rootAttr = "experimental=\"true\"";
  R.prep(p);
}
// index of the vertex whose coordinate along the axis is nearest
static int along(const Points &line, const std::vector<double> &q, int axis)
{
  for (size_t i = 0; i < line.size(); ++i) {
    bool best = true;
    for (size_t k = 0; k < line.size(); ++k)
      if (k != i)
        best = best & (std::fabs(line[i][axis] - q[axis]) + 1e-6 < std::fabs(line[k][axis] - q[axis]));
    if (best)
      return i;
  }
  __sym_end_path(); // tie
  return -1;
}
static int nearest(const Points &x, const std::vector<double> &q)
{
  for (size_t i = 0; i < x.size(); ++i) {
    bool best = true;
    for (size_t k = 0; k < x.size(); ++k)
      if (k != i)
        best = best & (maps::dist2(x[i], q) + 1e-6 < maps::dist2(x[k], q));
    if (best)
      return i;
  }
  __sym_end_path();
  return -1;
}
// ---------------------------------------------------------------- radial
static void radialSpread(int axis)
{
  R.go();
  for (size_t j = 0; j < R.p.out.x.size(); ++j) {
    int i = along(R.p.in.x, R.p.out.x[j], axis);
    for (int c = 0; c < R.comps; ++c)
      sym::close(R.out(j, c), R.in(i, c), 1e-9, "value of the nearest vertex along the axis");
  }
  sym::cover("spread");
}
static void radialCollect(int axis)
{
  R.go();
  std::vector<double> sum(R.r.size(), 0.0);
  std::vector<int>    n(R.p.out.x.size(), 0);
  for (size_t i = 0; i < R.p.in.x.size(); ++i) {
    int j = along(R.p.out.x, R.p.in.x[i], axis);
    ++n[j];
    for (int c = 0; c < R.comps; ++c)
      sum[j * R.comps + c] += R.in(i, c);
  }
  for (size_t j = 0; j < n.size(); ++j)
    for (int c = 0; c < R.comps; ++c)
      sym::close(R.out(j, c), n[j] ? sum[j * R.comps + c] / n[j] : 0, 1e-9, "mean of the values nearest along the axis");
  sym::cover("collected");
}
static void r1() { geo("radial-geometric-multiscale", false, "scalar", "multiscale-type=\"spread\" multiscale-radius=\"1\" multiscale-axis=\"z\""); }
SYM_SCENARIO_PREP(radial_spread_z, r1)
{
  R.p.in.x  = {{0, 0, sym::real("a", 0, 5)}, {0.25, 0, sym::real("b", 0, 5)}, {0, 0.125, sym::real("c", 0, 5)}};
  R.p.out.x = {{1, 0, sym::real("q", -1, 6)}, {0, 1, 2.5}};
  R.values();
  radialSpread(2);
}
static void r2() { geo("radial-geometric-multiscale", true, "vector", "multiscale-type=\"spread\" multiscale-radius=\"1\" multiscale-axis=\"y\""); }
SYM_SCENARIO_PREP(radial_spread_vector, r2)
{
  R.p.in.x  = {{0, 3, 0}, {0, sym::real("b", -1, 5), 0.25}, {0, 1, 0}, {0.5, 2, 0}};
  R.p.out.x = {{1, 0, 0}, {1, 0.75, 0.5}, {0.25, 2.25, 1}, {1, 4, 0}};
  R.values();
  radialSpread(1);
}
static void r3() { geo("radial-geometric-multiscale", true, "scalar", "multiscale-type=\"collect\" multiscale-radius=\"1\" multiscale-axis=\"x\""); }
SYM_SCENARIO_PREP(radial_collect_x, r3)
{
  R.p.out.x = {{sym::real("a", 0, 5), 0, 0}, {sym::real("b", 0, 5), 0.25, 0}, {sym::real("c", 0, 5), 0, 0.125}};
  R.p.in.x  = {{0.5, 1, 0}, {1.75, 0, 1}, {3.5, 1, 1}};
  R.values();
  radialCollect(0);
}
static void r4() { geo("radial-geometric-multiscale", false, "vector", "multiscale-type=\"collect\" multiscale-radius=\"1\" multiscale-axis=\"z\""); }
SYM_SCENARIO_PREP(radial_collect_vector, r4)
{
  R.p.out.x = {{0, 0, 2}, {0, 0, 1}, {0, 0, sym::real("c", -2, 5)}};
  R.p.in.x  = {{1, 1, 0.25}, {1, 1, 1.125}, {0, 1, 2.25}, {1, 0, 3.75}};
  R.values();
  radialCollect(2);
}
// ---------------------------------------------------------------- axial, one vertex
static int AXIS;
static std::string axial(const char *dim, const char *type, const char *axis, double radius, const char *profile, const char *section)
{
  AXIS = axis[0] - 'x';
  return std::string("multiscale-dimension=\"") + dim + "\" multiscale-type=\"" + type + "\" multiscale-axis=\"" + axis + "\" multiscale-radius=\"" + num(radius) + "\"" +
         (profile[0] ? std::string(" multiscale-cross-section-profile=\"") + profile + "\"" : "") + (section[0] ? std::string(" multiscale-cross-section=\"") + section + "\"" : "");
}
static int axisComp() { return R.comps == 1 ? 0 : AXIS; }
static void axialChecks(const std::vector<double> &factor, const std::vector<int> &from)
{
  for (size_t j = 0; j < R.p.out.x.size(); ++j)
    for (int c = 0; c < R.comps; ++c)
      sym::close(R.out(j, c), c == axisComp() ? factor[j] * R.in(from[j], c) : 0, 1e-8, "profile times the value along the axis, nothing across it");
  sym::cover("profile");
}
static void x1() { geo("axial-geometric-multiscale", false, "vector", axial("1d-3d", "spread", "y", 2, "parabolic", "")); }
SYM_SCENARIO_PREP(axial_spread_circle_parabolic, x1)
{
  double t  = sym::real("t", -2.1, 2.1);
  R.p.in.x  = {{0.25, 1, -0.5}};
  R.p.out.x = {{0.25, 1, -0.5}, {0.25 + t, 1, -0.5}, {0.25, 1, -0.5 + 1.5}, {2.25, 1, -0.5}};
  R.values();
  R.go();
  axialChecks({2, 2 * (1 - t * t / 4), 2 * (1 - 2.25 / 4), 0}, {0, 0, 0, 0});
}
static void x2() { geo("axial-geometric-multiscale", true, "scalar", axial("1d-2d", "spread", "x", 0.5, "parabolic", "circle")); }
SYM_SCENARIO_PREP(axial_spread_line_parabolic, x2)
{
  double t  = sym::real("t", -0.5, 0.5);
  R.p.in.x  = {{3, 0.5, 0}};
  R.p.out.x = {{3, 0.5 + t, 0}, {3, 0.75, 0}};
  R.values();
  R.go();
  axialChecks({1.5 * (1 - 4 * t * t), 1.5 * 0.75}, {0, 0});
}
static void x3() { geo("axial-geometric-multiscale", false, "vector", axial("1d-3d", "spread", "z", 1, "uniform", "")); }
SYM_SCENARIO_PREP(axial_spread_uniform, x3)
{
  double t  = sym::real("t", -1, 1);
  R.p.in.x  = {{0, 0, 0}};
  R.p.out.x = {{t, 0, 0}, {0.5, 0.5, 0}, {0, -1, 0}};
  R.values();
  R.go();
  axialChecks({1, 1, 1}, {0, 0, 0});
}
static void x4() { geo("axial-geometric-multiscale", true, "vector", axial("1d-3d", "spread", "x", 2, "parabolic", "square")); }
SYM_SCENARIO_PREP(axial_spread_square_parabolic, x4)
{
  R.p.in.x  = {{1, 0.5, 0}};
  R.p.out.x = {{1, 0.5, 0}, {1, 1.5, 0.5}, {1, 2.5, 0}, {1, -0.5, -1.75}};
  R.values();
  R.go();
  auto f = [](double a, double b) { return 2.096 * std::pow(1 - a * a / 4, 0.879) * std::pow(1 - b * b / 4, 0.879); };
  axialChecks({2.096, f(1, 0.5), 0, f(1, 1.75)}, {0, 0, 0, 0});
}
static void x5() { geo("axial-geometric-multiscale", false, "scalar", axial("1d-3d", "spread", "z", 2, "uniform", sym::thorough() ? "square" : "circle")); }
// vertices outside of the tube are refused
SYM_SCENARIO_PREP(axial_spread_outside, x5)
{
  double t  = sym::real("t", -5, 5);
  R.p.in.x  = {{0, 0, 0}};
  R.p.out.x = {{t, 0, 0}};
  sym::assume(std::fabs(std::fabs(t) - 2.1) > 1e-6);
  R.values();
  bool error = false;
  try {
    R.go();
  } catch (const precice::Error &) {
    error = true;
    world::abandonOthers();
  }
  sym::check(error == (std::fabs(t) > 2.1), "refused exactly outside of the tube");
}
static void x6() { geo("axial-geometric-multiscale", true, "vector", axial("1d-3d", "collect", "z", 1, "", "")); }
SYM_SCENARIO_PREP(axial_collect, x6)
{
  R.p.out.x = {{0, 0, 0}};
  R.p.in.x  = {{1, 0, 0}, {0, 0.5, 0}, maps::point("p", 3, -1, 1)};
  R.values();
  R.go();
  for (int c = 0; c < 3; ++c)
    sym::close(R.out(0, c), c == AXIS ? (R.in(0, c) + R.in(1, c) + R.in(2, c)) / 3 : 0, 1e-9, "mean along the axis, nothing across it");
  sym::cover("collected");
}
// ---------------------------------------------------------------- axial between a line and a cross section
static void y1() { geo("axial-geometric-multiscale", false, "vector", axial("2d-3d", "spread", "z", 1, "parabolic", "circle")); }
SYM_SCENARIO_PREP(plane_spread_parabolic, y1)
{
  double t  = sym::real("t", 0.0625, 1.5);
  R.p.in.x  = {{0, 0.5, 0}, {0, -0.5, 0}, {0, 2, 0}};
  R.p.out.x = {{0.5, 0.5, 0}, {0, -0.5 - t, 0}, {0.75, -0.5, 0}, {0.25, 0.5, 0}, {0, 2, 0}};
  R.values();
  R.go();
  double m = t > 0.75 ? t : 0.75;
  axialChecks({0, 4. / 3 * (1 - (t / m) * (t / m)), 4. / 3 * (1 - (0.75 / m) * (0.75 / m)), 4. / 3 * 0.75, 4. / 3}, {0, 1, 1, 0, 2});
}
static void y2() { geo("axial-geometric-multiscale", true, "scalar", axial("2d-3d", "spread", "z", 1, "", "")); }
SYM_SCENARIO_PREP(plane_spread_uniform, y2)
{
  R.p.in.x  = {{0, 0.5, 0}, {0, -0.5, 0}, {0, 2, 0}};
  R.p.out.x = {maps::point("q", 3, -1, 2), {0.5, 1, 0.25}};
  R.values();
  R.go();
  axialChecks({1, 1}, {nearest(R.p.in.x, R.p.out.x[0]), nearest(R.p.in.x, R.p.out.x[1])});
}
static void planeCollect(double factor)
{
  R.p.out.x = {{0, 0.5, 0}, {0, -0.5, 0}, {0, 4, 0}};
  R.p.in.x  = {maps::point("q", 3, -1, 2), {0.5, 1, 0.25}, {0, -1, 0}};
  R.values();
  R.go();
  std::vector<double> sum(R.r.size(), 0.0);
  std::vector<int>    n(3, 0);
  for (size_t i = 0; i < 3; ++i) {
    int j = nearest(R.p.out.x, R.p.in.x[i]);
    ++n[j];
    for (int c = 0; c < R.comps; ++c)
      sum[j * R.comps + c] += R.in(i, c);
  }
  for (size_t j = 0; j < 3; ++j)
    for (int c = 0; c < R.comps; ++c)
      sym::close(R.out(j, c), c == axisComp() && n[j] ? factor * sum[j * R.comps + c] / n[j] : 0, 1e-8, "mean of the values nearest to the vertex");
  sym::cover("collected");
}
static void y3() { geo("axial-geometric-multiscale", false, "vector", axial("2d-3d", "collect", "x", 1, "uniform", "circle")); }
SYM_SCENARIO_PREP(plane_collect_uniform, y3) { planeCollect(1); }
static void y4() { geo("axial-geometric-multiscale", true, "scalar", axial("2d-3d", "collect", "z", 1, "parabolic", "circle")); }
SYM_SCENARIO_PREP(plane_collect_parabolic, y4) { planeCollect(9. / 8); }
