// C14: nearest-neighbor mapping.
#include "map.hpp"
static maps::Run R;
using maps::dist2;
static maps::Plan base(const char *constraint, bool write, int dims, const char *kind)
{
  maps::Plan p;
  p.constraint = constraint;
  p.write      = write;
  p.dims       = dims;
  p.kind       = kind;
  return p;
}
static const maps::Points grid2 = {{0, 0}, {2, 0.25}, {0.5, 1.5}, {2.25, 2}, {1, 0.75}};
static const maps::Points grid3 = {{0, 0, 0}, {1, 0, 0.25}, {0, 1, 0.5}, {0.25, 0, 1}, {1, 1, 1}};

// every output value is a value of the closest input vertex
static void consistent()
{
  auto &p = R.p;
  for (size_t j = 0; j < p.out.x.size(); ++j) {
    // clear of ties, so that the nearest vertex is unique
    int best = -1;
    for (size_t i = 0; i < p.in.x.size(); ++i) {
      bool nearest = true;
      for (size_t k = 0; k < p.in.x.size(); ++k)
        if (k != i)
          nearest = nearest & (dist2(p.in.x[i], p.out.x[j]) + 1e-6 < dist2(p.in.x[k], p.out.x[j]));
      if (nearest)
        best = i;
    }
    if (best < 0)
      __sym_end_path();
    for (int c = 0; c < R.comps; ++c)
      sym::close(R.out(j, c), R.in(best, c), 1e-12, "value of the nearest input vertex");
  }
  sym::cover("nearest found");
}
// every output value is the sum of the input values it is closest to
static void conservative()
{
  auto               &p = R.p;
  std::vector<double> want(p.out.x.size() * R.comps, 0.0);
  for (size_t i = 0; i < p.in.x.size(); ++i) {
    int best = -1;
    for (size_t j = 0; j < p.out.x.size(); ++j) {
      bool nearest = true;
      for (size_t k = 0; k < p.out.x.size(); ++k)
        if (k != j)
          nearest = nearest & (dist2(p.in.x[i], p.out.x[j]) + 1e-6 < dist2(p.in.x[i], p.out.x[k]));
      if (nearest)
        best = j;
    }
    if (best < 0)
      __sym_end_path();
    for (int c = 0; c < R.comps; ++c)
      want[best * R.comps + c] += R.in(i, c);
  }
  for (size_t k = 0; k < want.size(); ++k)
    sym::close(R.r[k], want[k], 1e-9, "sum of the input values this vertex is nearest to");
  R.checkSum("the total is conserved");
  sym::cover("distributed");
}
static void a1() { R.prep(base("consistent", false, 2, "scalar")); }
SYM_SCENARIO_PREP(consistent_read_2d, a1)
{
  R.p.in.x  = grid2;
  R.p.out.x = {maps::point("q", 2, -1, 3), {0.25, 0.125}};
  R.values();
  R.go();
  consistent();
}
static void a2() { R.prep(base("consistent", true, 3, "vector")); }
SYM_SCENARIO_PREP(consistent_write_3d, a2)
{
  R.p.in.x  = grid3;
  R.p.out.x = {maps::point("q", 3, -1, 2)};
  R.values();
  R.go();
  consistent();
}
static void a3() { R.prep(base("consistent", false, 2, "vector")); }
SYM_SCENARIO_PREP(consistent_moving_inputs, a3)
{
  R.p.in.x  = {{0, 0}, maps::point("p", 2, -1, 3), {1.5, 1}};
  R.p.out.x = {{0.5, 0.75}};
  R.values();
  R.go();
  consistent();
}
static void b1() { R.prep(base("conservative", true, 2, "vector")); }
SYM_SCENARIO_PREP(conservative_write_2d, b1)
{
  R.p.out.x = {{0, 0}, {2, 0.25}, {0.5, 1.5}, {2.25, 2}};
  R.p.in.x  = {maps::point("q", 2, -1, 3), {0.25, 0.125}, {2, 1.875}};
  R.values();
  R.go();
  conservative();
}
static void b2() { R.prep(base("conservative", false, 3, "scalar")); }
SYM_SCENARIO_PREP(conservative_read_3d, b2)
{
  R.p.out.x = {{0, 0, 0}, {1, 0, 0.25}, {0, 1, 0.5}};
  R.p.in.x  = {maps::point("q", 3, -1, 2), {0.875, 0.125, 0.25}, {0.125, 0.125, 0.25}};
  R.values();
  R.go();
  conservative();
}
// many vertices: several levels of the search tree
static void c1() { R.prep(base("consistent", false, 2, "scalar")); }
SYM_SCENARIO_PREP(consistent_many, c1)
{
  R.p.in.x.clear();
  for (int i = 0; i < 40; ++i)
    R.p.in.x.push_back({0.25 * (i % 8) + 0.03125 * ((i * 5) % 7), 0.25 * (i / 8) + 0.03125 * ((i * 3) % 7)});
  R.p.out.x = {maps::point("q", 2, 0.5, 0.6875)};
  R.values();
  R.go();
  consistent();
}
// the same location on both sides
static void d1() { auto p = base("consistent", true, 2, "vector"); p.init = true; R.prep(p); }
SYM_SCENARIO_PREP(matching_meshes, d1)
{
  R.p.in.x  = grid2;
  R.p.out.x = {grid2[3], grid2[1], grid2[4], grid2[0], grid2[2]};
  R.values();
  R.go();
  static const int perm[] = {3, 1, 4, 0, 2};
  for (size_t j = 0; j < 5; ++j)
    for (int c = 0; c < R.comps; ++c) {
      sym::close(R.out(j, c), R.in(perm[j], c), 1e-12, "value of the matching vertex");
      sym::close(R.r0[j * R.comps + c], R.v0[perm[j] * R.comps + c], 1e-12, "initial value of the matching vertex");
    }
}
