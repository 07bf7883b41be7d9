// C16: global radial-basis-function mappings with a direct solver.
#include "rbf.hpp"
using namespace rbf;
static maps::Run R;

struct Case {
  Basis             phi;
  Poly              poly;
  bool              conservative, write;
  int               dims;
  const char       *kind;
  std::vector<bool> dead;
};
static Case K;
static void prep(const Case &c, const char *alias = "rbf-global-direct")
{
  K = c;
  if (K.dead.empty())
    K.dead.assign(K.dims, false);
  maps::Plan p;
  p.type       = alias;
  p.inner      = K.phi.xml();
  p.constraint = K.conservative ? "conservative" : "consistent";
  p.write      = K.write;
  p.dims       = K.dims;
  p.kind       = K.kind;
  if (K.poly != SEPARATE)
    p.attrs = std::string("polynomial=\"") + polyName(K.poly) + "\" ";
  const char *ax = "xyz";
  for (int d = 0; d < K.dims; ++d)
    if (K.dead[d])
      p.attrs += std::string(1, ax[d]) + "-dead=\"true\" ";
  R.prep(p);
}
// every value equals the one of the interpolation operator (of its transpose if conservative)
static void verify()
{
  auto &p = R.p;
  Mat   W;
  // the interpolant lives on the output mesh of a conservative mapping
  const maps::Points &from = K.conservative ? p.out.x : p.in.x, &to = K.conservative ? p.in.x : p.out.x;
  if (!operatorMatrix(K.phi, K.poly, from, to, K.dead, W)) {
    sym::fail("the oracle found the system singular, the mapping did not");
    return;
  }
  if (K.conservative)
    W = transpose(W);
  for (size_t j = 0; j < p.out.x.size(); ++j)
    for (int c = 0; c < R.comps; ++c) {
      double want = 0;
      for (size_t i = 0; i < p.in.x.size(); ++i)
        want += W[j][i] * R.in(i, c);
      sym::close(R.out(j, c), want, 1e-5, K.conservative ? "value distributed by the transposed interpolation operator" : "value of the interpolant at the vertex");
    }
  if (K.conservative) {
    if (K.poly != OFF)
      R.checkSum("the sum of the values is conserved");
  } else {
    for (size_t j = 0; j < p.out.x.size(); ++j)
      for (size_t i = 0; i < p.in.x.size(); ++i)
        if (p.out.x[j] == p.in.x[i])
          for (int c = 0; c < R.comps; ++c)
            sym::close(R.out(j, c), R.in(i, c), 1e-5, "interpolation condition");
  }
  sym::cover("compared");
}
// meshes by choice: the order of vertices and positions vary
static maps::Points fine(int dims, bool permuted)
{
  if (K.dead[1])
    return permuted ? maps::Points{{1.25, 1}, {0.5, 3}, {-1, 0}, {0, 0}} : maps::Points{{0, 0}, {1.25, 1}, {0.5, 3}, {-1, 0}};
  maps::Points x = dims == 2 ? maps::Points{{0, 0}, {1, 0}, {0, 1}, {1.25, 1}, {0.5, 0.375}} : maps::Points{{0, 0, 0}, {1, 0, 0.25}, {0, 1, 0}, {0.25, 0, 1}, {1, 1, 1.25}};
  if (permuted) {
    std::swap(x[0], x[3]);
    std::swap(x[1], x[4]);
  }
  return x;
}
static maps::Points coarse(int dims, int k)
{
  if (K.dead[1]) // all different in the remaining axis
    return k == 0 ? maps::Points{{-0.75, 1}, {0.25, 0}, {2, 0.5}} : maps::Points{{0.125, 3}, {1.25, 1}, {0.5, 0.75}, {-0.5, 0.5}};
  if (dims == 2)
    return k == 0 ? maps::Points{{0, 1}, {0.75, 0.25}, {2.5, -1}} : maps::Points{{0.125, 0.25}, {1.25, 1}, {0.5, 0.75}, {-0.5, 0.5}};
  return k == 0 ? maps::Points{{0, 1, 0}, {0.75, 0.25, 0.5}, {-1, 2, 0.5}} : maps::Points{{0.5, 0.5, 0.5}, {0.25, 0, 1}, {1, 0.5, 0}, {0.125, 0.25, 1.5}, {-1, 0.5, 0.75}};
}
static void body(double lim = 10)
{
  int           v    = sym::choice("meshes", 3);
  maps::Points  big  = fine(K.dims, v == 1), small = coarse(K.dims, v ? 1 : 0);
  R.p.in.x  = K.conservative ? small : big;
  R.p.out.x = K.conservative ? big : small;
  if (v == 2) { // the other way round
    maps::Points s = coarse(K.dims, 1);
    R.p.in.x  = K.conservative ? big : s;
    R.p.out.x = K.conservative ? s : big;
  }
  R.values(lim);
  R.go();
  verify();
}
#define CASE(name, ...)                  \
  static void p_##name() { prep(__VA_ARGS__); } \
  SYM_SCENARIO_PREP(name, p_##name) { body(); }

CASE(tps_separate_read_2d, Case{{TPS}, SEPARATE, false, false, 2, "scalar"})
CASE(tps_on_write_2d, Case{{TPS}, ON, false, true, 2, "vector"})
CASE(tps_conservative_2d, Case{{TPS}, SEPARATE, true, true, 2, "scalar"})
CASE(tps_on_conservative_2d, Case{{TPS}, ON, true, false, 2, "scalar"})
CASE(multiquadrics_on_3d, Case{{MQ, 0.5}, ON, false, false, 3, "scalar"})
CASE(multiquadrics_off_conservative_2d, Case{{MQ, 0.5}, OFF, true, true, 2, "scalar"})
CASE(inverse_multiquadrics_3d, Case{{IMQ, 0.75}, SEPARATE, false, true, 3, "vector"})
CASE(inverse_multiquadrics_off_2d, Case{{IMQ, 0.75}, OFF, false, false, 2, "scalar"})
CASE(volume_splines_separate_3d, Case{{VOL}, SEPARATE, false, false, 3, "scalar"})
CASE(volume_splines_on_conservative_3d, Case{{VOL}, ON, true, true, 3, "scalar"})
CASE(gaussian_shape_2d, Case{{GAUSS, 1.5}, SEPARATE, false, false, 2, "scalar"})
CASE(gaussian_support_off_3d, Case{{GAUSS, 1.75, true}, OFF, false, false, 3, "scalar"})
CASE(gaussian_support_conservative_2d, Case{{GAUSS, 3, true}, SEPARATE, true, false, 2, "vector"})
CASE(compact_tps_2d, Case{{CTPS, 1.25}, SEPARATE, false, false, 2, "scalar"})
CASE(compact_tps_off_conservative_3d, Case{{CTPS, 1.25}, OFF, true, false, 3, "scalar"})
CASE(compact_c0_2d, Case{{C0, 1.125}, OFF, false, false, 2, "scalar"})
CASE(compact_c2_3d, Case{{C2, 1.5}, SEPARATE, false, true, 3, "scalar"})
CASE(compact_c4_2d, Case{{C4, 1.5}, OFF, false, false, 2, "scalar"})
CASE(compact_c6_conservative_3d, Case{{C6, 2}, SEPARATE, true, true, 3, "scalar"})
CASE(compact_c8_2d, Case{{C8, 2}, SEPARATE, false, false, 2, "scalar"})
// dead axes: distances and polynomial ignore them
CASE(dead_axis_2d, Case{{TPS}, ON, false, false, 2, "scalar", {false, true}})
CASE(dead_axis_3d, Case{{C2, 3}, SEPARATE, false, false, 3, "scalar", {true, false, false}})

// degenerate input: the polynomial uses only the axes the input vertices span
static void p_degen() { prep(Case{{C6, 4}, SEPARATE, false, false, 3, "scalar"}); }
SYM_SCENARIO_PREP(degenerate_input_3d, p_degen)
{
  static const maps::Points in[] = {{{0, 0, 0.5}, {1, 0, 0.5}, {0, 2, 0.5}, {1.5, 2, 0.5}}, {{0, 1, 0}, {1, 1, 0}, {2.5, 1, 0}}, {{0.5, 0.25, -0.5}}};
  R.p.in.x  = in[sym::choice("input", 3)];
  R.p.out.x = {{0.5, 0.25, -0.5}, {1, 0, 0.5}, {1.25, 1, 0}};
  R.values();
  R.go();
  verify();
}
static void p_degenc() { prep(Case{{C6, 4}, SEPARATE, true, true, 3, "scalar"}); }
SYM_SCENARIO_PREP(degenerate_output_conservative_3d, p_degenc)
{
  static const maps::Points out[] = {{{0, 0, 0.5}, {1, 0, 0.5}, {0, 2, 0.5}, {1.5, 2, 0.5}}, {{0, 1, 0}, {1, 1, 0}, {2.5, 1, 0}}};
  R.p.out.x = out[sym::choice("output", 2)];
  R.p.in.x  = {{0.5, 0.25, -0.5}, {1, 0, 0.5}, {1.25, 1, 0}};
  R.values();
  R.go();
  verify();
}
// fewer input vertices than polynomial parameters
static void p_few() { prep(Case{{C6, 4}, SEPARATE, false, false, 2, "scalar"}); }
SYM_SCENARIO_PREP(few_input_vertices_2d, p_few)
{
  static const maps::Points in[] = {{{10, 3}, {12, 8}}, {{5, -2}}, {{-3, 0.5}, {-1, 0.25}}};
  R.p.in.x  = in[sym::choice("input", 3)];
  R.p.out.x = {{11, 3}, {8, -2}, {-2, 0.5}};
  R.values();
  R.go();
  verify();
}
static void p_fewc() { prep(Case{{VOL}, SEPARATE, true, true, 3, "scalar"}); }
SYM_SCENARIO_PREP(few_output_vertices_conservative_3d, p_fewc)
{
  static const maps::Points out[] = {{{10, 3, 5}, {12, 8, 1}, {9, 2, 3}}, {{4, 1, 2}, {3, 5, 9}}};
  R.p.out.x = out[sym::choice("output", 2)];
  R.p.in.x  = {{11, 3, 4}, {8, -2, 2}, {-2, 0.5, 1}};
  R.values();
  R.go();
  verify();
}
// a linear field is reproduced everywhere, whatever the basis function
static void linear(bool thorough)
{
  double              a = sym::real("a", -10, 10), b = sym::real("b", -10, 10), c = sym::real("c", -10, 10), d = sym::real("d", -10, 10);
  auto                f = [&](const std::vector<double> &x) { return a + b * x[0] + c * x[1] + (K.dims == 3 ? d * x[2] : 0.0); };
  R.p.in.x  = fine(K.dims, sym::choice("order", 2));
  R.p.out.x = coarse(K.dims, sym::choice("out", 2));
  R.p.out.x.push_back(K.dims == 2 ? std::vector<double>{-3, 4} : std::vector<double>{-3, 4, 2});
  R.v.clear();
  for (auto &x : R.p.in.x)
    R.v.push_back(f(x));
  R.go();
  for (size_t j = 0; j < R.p.out.x.size(); ++j)
    sym::close(R.out(j, 0), f(R.p.out.x[j]), 1e-4, "linear field reproduced");
  sym::cover("linear");
}
static void p_l1() { prep(Case{{C0, 0.75}, SEPARATE, false, false, 2, "scalar"}); }
SYM_SCENARIO_PREP(linear_compact_2d, p_l1) { linear(false); }
static void p_l2() { prep(Case{{TPS}, ON, false, true, 3, "scalar"}); }
SYM_SCENARIO_PREP(linear_tps_3d, p_l2) { linear(false); }

// duplicate vertices make the problem singular: refused
static void p_dup() { prep(Case{{TPS}, SEPARATE, false, false, 2, "scalar"}); }
SYM_SCENARIO_PREP(duplicate_vertices_rejected, p_dup)
{
  R.p.in.x  = {{0, 0}, {1, 0}, {0, 1}};
  R.p.in.x.push_back(R.p.in.x[sym::choice("twin", 3)]);
  R.p.out.x = {{0.5, 0.5}};
  R.values();
  bool refused = false;
  try {
    world::run();
  } catch (const precice::Error &) {
    refused = true;
  }
  sym::check(refused, "singular system refused");
}
