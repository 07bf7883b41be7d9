// C33: exported meshes, data, file names and series.
#include "exp.hpp"
static void p0() { R.prep(base(2)); }
SYM_SCENARIO_PREP(windows_2d, p0)
{
  meshes({2, 0, 1, 3});
  R.values();
  R.go();
}
// every subset of the connectivity
static void connectivity(int dims)
{
  R.p.near = {0, 3, 1};
  auto x = square(dims, -1);
  for (int i : R.p.near)
    R.p.y.push_back(x[i]);
  R.p.m.x = x;
  if (dims == 3) {
    R.p.m.x.push_back({4, 4, 4});
    R.p.m.tets = {{3, 0, 1, 2}, {3, 1, 2, 4}};
    R.p.m.triangles = {{0, 1, 2}, {1, 2, 4}, {4, 2, 1}};
  } else {
    R.p.m.triangles = {{0, 1, 2}, {3, 1, 2}};
  }
  R.p.m.edges = {{0, 3}, {1, 2}, {2, 1}};
  auto some = [](auto &e, const char *n) {
    auto all = e;
    e.clear();
    for (auto &k : all)
      if (sym::boolean(n))
        e.push_back(k);
  };
  some(R.p.m.edges, "edge");
  some(R.p.m.triangles, "triangle");
  some(R.p.m.tets, "tet");
}
static void p5() { auto p = base(2); p.windows = 1; p.mapping = "nearest-projection"; R.prep(p); }
SYM_SCENARIO_PREP(connectivity_2d, p5)
{
  connectivity(2);
  R.values();
  R.go();
}
static void p6() { auto p = base(3); p.windows = 1; p.mapping = "nearest-projection"; R.prep(p); }
SYM_SCENARIO_PREP(connectivity_3d, p6)
{
  connectivity(3);
  R.values();
  R.go();
}
static void p7() { auto p = base(2); p.windows = 1; p.gradient = true; p.mapping = "nearest-neighbor-gradient"; R.prep(p); }
SYM_SCENARIO_PREP(gradient_2d, p7)
{
  near0_(2);
  R.values();
  R.go();
}
static void p8() { auto p = base(3); p.windows = 1; p.gradient = true; p.init = true; p.kindD = "vector"; p.mapping = "nearest-neighbor-gradient"; R.prep(p); }
SYM_SCENARIO_PREP(gradient_3d, p8)
{
  near0_(2);
  R.values();
  R.go();
}
// every vertex on an arbitrary rank, ranks without vertices included
static void ranks(int n)
{
  R.p.parts.assign(n, {});
  for (size_t i = 0; i < R.p.m.x.size(); ++i)
    R.p.parts[sym::choice("rank", n)].push_back(i);
}
static void p9() { auto p = base(2); p.ranks = 2; p.windows = 2; R.prep(p); }
SYM_SCENARIO_PREP(ranks_2d, p9)
{
  meshes({2, 0, 3});
  ranks(2);
  R.values();
  R.go();
}
static void p10() { auto p = base(3); p.ranks = 3; p.windows = 1; p.mapping = "nearest-projection"; p.init = true; p.update = true; R.prep(p); }
SYM_SCENARIO_PREP(ranks_connectivity_3d, p10)
{
  near0_(3);
  R.p.m.triangles = {{0, 1, 2}, {1, 2, 3}};
  R.p.m.edges = {{0, 3}};
  ranks(3);
  R.values();
  R.go();
}
static void p11() { auto p = base(2); p.ranks = 2; p.iters = 2; p.everyIter = true; p.every = 2; p.update = true; R.prep(p); }
SYM_SCENARIO_PREP(ranks_every_iteration, p11)
{
  meshes({1, 2, 3});
  R.p.m.x.resize(3);
  R.p.near = {1, 2};
  R.p.y.resize(2);
  ranks(2);
  R.values();
  R.go();
}
static void p12() { auto p = base(2); p.every = -1; R.prep(p); }
SYM_SCENARIO_PREP(never, p12)
{
  meshes({0, 1});
  R.values();
  R.go();
}
static void p13() { auto p = base(2); p.every = -1; p.everyIter = true; p.iters = 2; p.steps = 2; R.prep(p); }
SYM_SCENARIO_PREP(every_iteration_substeps, p13)
{
  meshes({0, 1});
  R.values();
  R.go();
}
static void p1() { auto p = base(3); p.init = true; p.kindD = "vector"; p.update = true; R.prep(p); }
SYM_SCENARIO_PREP(initial_data_3d, p1)
{
  meshes({3, 2, 0, 1});
  R.values();
  R.go();
}
static void p2() { auto p = base(2); p.windows = 5; p.every = 2; p.steps = 2; p.update = true; R.prep(p); }
SYM_SCENARIO_PREP(every_second_window_substeps, p2)
{
  meshes({0, 1, 2, 3});
  R.values();
  R.go();
}
static void p3() { auto p = base(2); p.iters = 2; R.prep(p); }
SYM_SCENARIO_PREP(implicit_windows, p3)
{
  meshes({0, 1, 2, 3});
  R.values();
  R.go();
}
static void p4() { auto p = base(2); p.iters = 2; p.everyIter = true; R.prep(p); }
SYM_SCENARIO_PREP(every_iteration, p4)
{
  meshes({0, 1, 2, 3});
  R.values();
  R.go();
}
