// C19: nearest-neighbor mapping with gradients.
#include "map.hpp"
static maps::Run R;
static maps::Plan base(bool write, int dims, const char *kind, const char *constraint = "consistent")
{
  maps::Plan p;
  p.type       = "nearest-neighbor-gradient";
  p.constraint = constraint;
  p.write      = write;
  p.dims       = dims;
  p.kind       = kind;
  p.gradient   = true;
  p.steps      = 1;
  p.rootAttr   = "experimental=\"true\"";
  return p;
}
static void taylor()
{
  auto &p = R.p;
  for (size_t j = 0; j < p.out.x.size(); ++j) {
    int best = -1;
    for (size_t i = 0; i < p.in.x.size(); ++i) {
      bool nearest = true;
      for (size_t k = 0; k < p.in.x.size(); ++k)
        if (k != i)
          nearest = nearest & (maps::dist2(p.in.x[i], p.out.x[j]) + 1e-6 < maps::dist2(p.in.x[k], p.out.x[j]));
      if (nearest)
        best = i;
    }
    if (best < 0)
      __sym_end_path();
    for (int c = 0; c < R.comps; ++c) {
      double want = R.in(best, c);
      for (int d = 0; d < p.dims && (R.skipGradient.empty() || !R.skipGradient[best]); ++d)
        want += (p.out.x[j][d] - p.in.x[best][d]) * R.g[(best * R.comps + c) * p.dims + d];
      sym::close(R.out(j, c), want, 1e-9, "value of the nearest vertex plus its gradient times the offset");
    }
  }
  sym::cover("extrapolated");
}
static void a1() { R.prep(base(false, 2, "scalar")); }
SYM_SCENARIO_PREP(scalar_read_2d, a1)
{
  R.p.in.x  = {{0, 0}, {2, 0.25}, {0.5, 1.5}};
  R.p.out.x = {maps::point("q", 2, -1, 3), {0.25, 0.125}};
  R.values();
  R.go();
  taylor();
}
static void a2() { R.prep(base(true, 3, "vector")); }
SYM_SCENARIO_PREP(vector_write_3d, a2)
{
  R.p.in.x  = {{0, 0, 0}, {1, 0, 0.25}, {0, 1, 0.5}};
  R.p.out.x = {maps::point("q", 3, -1, 2)};
  R.values();
  R.go();
  taylor();
}
static void a3() { R.prep(base(false, 2, "vector")); }
SYM_SCENARIO_PREP(vector_read_2d_moving_input, a3)
{
  R.p.in.x  = {{0, 0}, maps::point("p", 2, -1, 3)};
  R.p.out.x = {{0.5, 0.75}, {1.5, 0.25}};
  R.values();
  R.go();
  taylor();
}
static void a4() { auto p = base(true, 2, "scalar"); p.scheme = "parallel-explicit"; R.prep(p); }
SYM_SCENARIO_PREP(scalar_write_parallel, a4)
{
  R.p.in.x  = {{0, 0}, {2, 0.25}, {0.5, 1.5}};
  R.p.out.x = {maps::point("q", 2, -1, 3), {1.75, 0.5}, {0.5, 1}};
  R.values();
  R.go();
  taylor();
}
// initial data with gradients, values zero or not
static void a5() { auto p = base(false, 2, "scalar"); p.init = true; p.scheme = "parallel-explicit"; R.prep(p); }
SYM_SCENARIO_PREP(scalar_read_parallel, a5)
{
  R.p.in.x  = {{0, 0}, {2, 0.25}};
  R.p.out.x = {maps::point("q", 2, -1, 3), {1.75, 0.5}};
  R.values();
  R.go();
  taylor();
}

// gradients not written in a step are zero; several steps per window
static void a6() { auto p = base(false, 2, "vector"); R.skipGradient = {false, true, false}; R.prep(p); }
SYM_SCENARIO_PREP(vector_read_unwritten_gradient, a6)
{
  R.p.in.x  = {{0, 0}, {2, 0.25}, {0.5, 1.5}};
  R.p.out.x = {maps::point("q", 2, -1, 3)};
  R.values();
  R.go();
  taylor();
}
static void a7() { auto p = base(true, 2, "scalar"); R.skipGradient = {true, false}; p.steps = 3; R.prep(p); }
SYM_SCENARIO_PREP(scalar_write_steps, a7)
{
  R.p.in.x  = {{0, 0}, {2, 0.25}};
  R.p.out.x = {maps::point("q", 2, -1, 3), {1.75, 0.5}};
  R.values();
  R.go();
  taylor();
}
static void a8() { auto p = base(false, 3, "vector"); p.steps = 2; p.scheme = "parallel-explicit"; R.prep(p); }
SYM_SCENARIO_PREP(vector_read_steps_3d, a8)
{
  R.p.in.x  = {{0, 0, 0}, {1, 0, 0.25}};
  R.p.out.x = {maps::point("q", 3, -1, 2)};
  R.values();
  R.go();
  taylor();
}
