// C37: distributing participants over ranks does not change results.
#include "par.hpp"
using namespace par;
static Run R;
static Mesh line(int n, double y, double dx = 1, double x0 = 0)
{
  Mesh m;
  for (int i = 0; i < n; ++i)
    m.x.push_back({x0 + i * dx, y});
  for (int i = 0; i + 1 < n; ++i)
    m.edges.push_back({i, i + 1});
  return m;
}
static Plan base(const char *type, bool write, const char *constraint, const char *kind = "scalar")
{
  Plan p;
  p.type = type, p.write = write, p.constraint = constraint, p.kind = kind;
  return p;
}
static void p1() { R.prep(base("nearest-neighbor", false, "consistent", "vector")); }
SYM_SCENARIO_PREP(nn_consistent_read, p1)
{
  R.p.in.x  = {{0, 0}, {1, 0}, {2, 0.5}};
  R.p.out.x = {{sym::real("q", -1, 3), 0}, {0.75, 1}, {1.75, 0}};
  for (double b : {0.5, 1.625})
    sym::assume(std::fabs(R.p.out.x[0][0] - b) > 1e-3);
  R.anyPartition(0);
  R.anyPartition(1);
  R.v = {R.values(6, "v")};
  R.go();
}

// D is written from MI on B's ranks; with back, E comes back
static void assign(bool any0, bool any1, bool two)
{
  if (any0)
    R.anyPartition(0);
  if (any1)
    R.anyPartition(1);
  if (two) // the geometric filter needs an extent
    for (auto &q : R.parts[R.p.write ? 0 : 1])
      sym::assume(q.size() != 1);
}
static void p2() { auto p = base("nearest-neighbor", true, "conservative"); p.both = true; p.constraintBack = "consistent"; p.kindBack = "vector"; R.prep(p); }
SYM_SCENARIO_PREP(nn_conservative_write_and_back, p2)
{
  R.p.out.x = {{0, 0}, {1, 0}, {2, 0.5}};
  R.p.in.x  = {{sym::real("q", -1, 3), 0}, {0.75, 1}, {1.75, 0}};
  for (double b : {0.5, 1.625})
    sym::assume(std::fabs(R.p.in.x[0][0] - b) > 1e-3);
  assign(true, true, false);
  R.v = {R.values(3, "v")};
  R.w = {R.values(6, "w")};
  R.go();
}
static void p3() { auto p = base("nearest-neighbor", true, "conservative"); p.dims = 3; p.ranks[0] = 3; p.ranks[1] = 1; p.filter = "on-secondary-ranks"; p.safety = "10"; p.init = true; p.scheme = "parallel-explicit"; p.windows = 2; R.prep(p); }
SYM_SCENARIO_PREP(nn_three_ranks_filtered_initial, p3)
{
  R.p.out.x = {{0, 0, 0}, {1, 0, 0.5}, {2, 0.5, 0}};
  R.p.in.x  = {{0.25, 0, 0}, {0.75, 1, 0}, {1.75, 0, 0}, {1.5, 1, 1}};
  assign(true, true, true);
  R.v0 = R.values(4, "i");
  R.v  = {R.values(4, "v"), R.values(4, "v")};
  R.go();
}
static void p4() { auto p = base("nearest-neighbor", false, "consistent"); p.filter = "on-primary-rank"; p.safety = "10"; p.both = true; p.kindBack = "vector"; p.scheme = "parallel-explicit"; p.init = true; R.prep(p); }
SYM_SCENARIO_PREP(nn_filtered_on_primary, p4)
{
  R.p.in.x  = {{0.25, 0}, {0.875, 1}, {1.625, 0}};
  R.p.out.x = {{0, 0}, {1, 0}, {2, 0.5}, {1.5, -1}};
  assign(true, true, true);
  R.v0 = R.values(3, "i");
  R.w0 = R.values(8, "j");
  R.v  = {R.values(3, "v")};
  R.w  = {R.values(8, "w")};
  R.go();
}
static void p5() { auto p = base("nearest-neighbor", false, "consistent"); p.m2n = "use-two-level-initialization=\"true\""; p.both = true; p.filter = "on-secondary-ranks"; p.safety = "10"; R.prep(p); }
SYM_SCENARIO_PREP(nn_two_level, p5)
{
  R.p.in.x  = {{0.25, 0}, {0.875, 1}, {1.625, 0}};
  R.p.out.x = {{0, 0}, {1, 0}, {2, 0.5}, {1.5, -1}};
  assign(true, true, true);
  R.v  = {R.values(3, "v")};
  R.w  = {R.values(4, "w")};
  R.go();
}
static void p6() { auto p = base("nearest-neighbor", true, "conservative"); p.m2n = "enforce-gather-scatter=\"true\""; p.both = true; p.constraintBack = "consistent"; p.scheme = "serial-implicit"; p.iters = 3; p.extra = "<absolute-convergence-measure data=\"E\" mesh=\"MO\" limit=\"1\"/>"; p.substeps = true; R.prep(p); }
SYM_SCENARIO_PREP(nn_gather_scatter_implicit, p6)
{
  R.p.in.x  = {{0.25, 0}, {0.875, 1}, {1.5, 0}};
  R.p.out.x = {{0, 0}, {1, 0}, {2, 0.5}};
  assign(true, true, false);
  for (int i = 0; i < 6; ++i) {
    R.v.push_back({0, i * 0.5, 1});
    R.w.push_back({i < 4 ? 0.5 * i : 2, 1, 0.25 * (i / 2)});
  }
  for (int i = 0; i < 3; ++i)
    R.v[5][i] = sym::real("v", -10, 10), R.v[1][i] = sym::real("v", -10, 10);
  R.w[3][0] = sym::real("w", -2, 2);
  R.w[3][2] = sym::real("w", -2, 2);
  R.go();
}
static void p7() { auto p = base("nearest-projection", false, "consistent"); p.both = true; p.typeBack = "nearest-projection"; R.prep(p); }
SYM_SCENARIO_PREP(np_both_directions, p7)
{
  R.p.in  = line(4, 0);
  R.p.out = line(3, 0.25, 1.25, 0.125);
  R.p.out.x[1][0] = sym::real("q", 1.0625, 1.9375);
  R.p.out.edges.clear();
  R.parts[0] = {{}, {0, 1, 2, 3}};
  if (sym::choice("other", 2))
    R.parts[0] = {{2, 3, 0, 1}, {}};
  assign(false, true, false);
  R.v = {R.values(4, "v")};
  R.w = {R.values(3, "w")};
  R.go();
}
static void p8() { auto p = base("nearest-projection", false, "consistent", "vector"); p.filter = "on-secondary-ranks"; p.safety = "4"; R.prep(p); }
SYM_SCENARIO_PREP(np_shared_vertices_filtered, p8)
{
  R.p.in  = line(4, 0);
  R.p.out.x = {{0.125, 0.25}, {1.25, 0.25}, {sym::real("q", 1.0625, 2.9375), 0.5}, {2.25, -0.25}};
  R.parts[0] = {{0, 1}, {1, 2, 3}};
  assign(false, true, true);
  for (auto &q : R.parts[1]) // each rank near the whole interface
    sym::assume(q.size() != 2);
  R.v = {R.values(8, "v")};
  R.go();
}
static void p9() { auto p = base("linear-cell-interpolation", true, "conservative"); p.both = true; p.typeBack = "linear-cell-interpolation"; p.constraintBack = "consistent"; p.ranks[1] = 1; p.ranks[0] = sym::thorough() ? 3 : 2; R.prep(p); }
SYM_SCENARIO_PREP(lci, p9)
{
  R.p.out.x = {{0, 0}, {2, 0}, {0, 2}, {2, 2}};
  R.p.out.triangles = {{0, 1, 2}, {1, 2, 3}};
  R.p.in.x  = {{0.5, 0.25}, {sym::real("q", -0.5, 2.5), 0.75}, {0.25, 1.25}, {1.75, 1.5}};
  sym::assume((std::fabs(R.p.in.x[1][0] - 1.25) > 1e-3) & (std::fabs(R.p.in.x[1][0]) > 1e-3) & (std::fabs(R.p.in.x[1][0] - 2) > 1e-3));
  assign(true, true, false);
  R.v = {R.values(4, "v")};
  R.w = {R.values(4, "w")};
  R.go();
}
static const char *RBF = "<basis-function:thin-plate-splines/>";
static void q1() { auto p = base("rbf-global-direct", false, "consistent"); p.inner = "<basis-function:compact-polynomial-c2 support-radius=\"3\"/>"; p.both = true; p.typeBack = "rbf-global-direct"; p.innerBack = p.inner; R.prep(p); }
SYM_SCENARIO_PREP(rbf_global, q1)
{
  R.p.in.x  = {{0, 0}, {1, 0.25}, {2, 0}, {1, 1}};
  R.p.out.x = {{0.5, 0}, {1.5, 0.5}, {1, 1.25}, {2.25, 0.25}};
  if (!sym::thorough())
    R.parts[0] = {{1, 3}, {0, 2}};
  assign(sym::thorough(), true, false);
  R.v = {R.values(4, "v")};
  R.w = {R.values(4, "w")};
  R.go(1e-5);
}
static void q2() { auto p = base("rbf-global-direct", true, "conservative", "vector"); p.attrs = "polynomial=\"on\""; p.inner = RBF; p.both = true; p.typeBack = "rbf-global-direct"; p.attrsBack = p.attrs; p.innerBack = RBF; p.constraintBack = "consistent"; R.prep(p); }
SYM_SCENARIO_PREP(rbf_global_polynomial, q2)
{
  R.p.out.x  = {{0, 0}, {1, 0.25}, {2, 0}, {1, 1}};
  R.p.in.x = {{0.5, 0}, {1.5, 0.5}, {1, 1.25}, {2.25, 0.25}};
  R.parts[1] = {{1, 3}, {0, 2}};
  if (sym::choice("b", 2))
    R.parts[1] = {{}, {1, 3, 0, 2}};
  assign(true, false, false);
  R.v = {R.values(8, "v")};
  R.w = {R.values(4, "w")};
  R.go(1e-5);
}
static void q3() { auto p = base("rbf-pum-direct", false, "consistent"); p.attrs = "vertices-per-cluster=\"50\" polynomial=\"separate\""; p.inner = "<basis-function:compact-polynomial-c4 support-radius=\"4\"/>"; p.both = true; p.typeBack = "rbf-pum-direct"; p.attrsBack = p.attrs; p.innerBack = p.inner; R.prep(p); }
SYM_SCENARIO_PREP(rbf_pum, q3)
{
  R.p.in.x  = {{0, 0}, {1, 0.25}, {2, 0}, {1, 1}};
  R.p.out.x = {{0.5, 0}, {1.5, 0.5}, {1, 1.25}, {2.25, 0.25}};
  R.parts[0] = {{1, 3}, {0, 2}};
  assign(false, true, false);
  R.v = {R.values(4, "v")};
  R.w = {R.values(4, "w")};
  R.go(1e-5);
}
// implicit coupling, acceleration of the data of B's own mesh (and of the data received on it)
static Plan accel(const std::string &extra, const char *scheme, int iters)
{
  auto p           = base("nearest-neighbor", true, "conservative");
  p.both           = true;
  p.constraintBack = "consistent";
  p.scheme         = scheme;
  p.iters          = iters;
  p.extra          = extra;
  p.ranks[0]       = 1;
  return p;
}
static void accelerated(bool symbolicE, int n)
{
  R.p.in.x  = {{0.25, 0}, {0.875, 1}, {1.5, 0}};
  R.p.out.x = {{0, 0}, {1, 0}, {2, 0.5}, {1.5, 2}};
  R.parts[0] = {{0, 1, 2}};
  assign(false, true, false);
  for (int i = 0; i < n; ++i) {
    R.v.push_back(symbolicE ? std::vector<double>{0.5 * i, 1, -1} : R.values(3, "v"));
    std::vector<double> e;
    for (int k = 0; k < 4; ++k)
      e.push_back(((i * 7 + k * 5 + i * i * (k + 1)) % 11) * 0.25 - 1);
    if (symbolicE && i < 2)
      e[1] = sym::real("w", -4, 4);
    R.w.push_back(e);
  }
}
static void r1() { R.prep(accel("<acceleration:aitken><data name=\"E\" mesh=\"MO\"/><initial-relaxation value=\"0.5\"/></acceleration:aitken>", "serial-implicit", 3)); }
SYM_SCENARIO_PREP(aitken, r1) { accelerated(true, 3); R.go(1e-5); }
static void r2() { R.prep(accel("<acceleration:IQN-ILS><data name=\"E\" mesh=\"MO\"/><initial-relaxation value=\"0.5\"/><max-used-iterations value=\"6\"/><time-windows-reused value=\"2\"/><filter type=\"QR1\" limit=\"1e-9\"/></acceleration:IQN-ILS>", "parallel-implicit", 4)); R.p.windows = 1; }
SYM_SCENARIO_PREP(iqn_secondary_data, r2) { accelerated(false, 4); R.go(1e-5); }
static void r2b() { auto p = accel("<acceleration:IQN-ILS><data name=\"E\" mesh=\"MO\"/><preconditioner type=\"residual\"/><initial-relaxation value=\"0.5\"/><max-used-iterations value=\"6\"/><time-windows-reused value=\"2\"/><filter type=\"QR1\" limit=\"1e-9\"/></acceleration:IQN-ILS>", "serial-implicit", 4); p.windows = 1; p.ranks[1] = 3; R.prep(p); }
SYM_SCENARIO_PREP(iqn_three_ranks, r2b) { accelerated(false, 4); R.go(1e-5); }
static void r3() { auto p = accel("<acceleration:IQN-ILS><data name=\"E\" mesh=\"MO\"/><preconditioner type=\"residual-sum\"/><initial-relaxation value=\"0.5\"/><max-used-iterations value=\"2\"/><time-windows-reused value=\"2\"/><filter type=\"QR2\" limit=\"1e-3\"/></acceleration:IQN-ILS><relative-convergence-measure data=\"E\" mesh=\"MO\" limit=\"0.25\"/>", "serial-implicit", 4); p.windows = 2; R.prep(p); }
SYM_SCENARIO_PREP(iqn_windows_filter, r3)
{
  accelerated(false, 8);
  R.go(1e-5);
}

// IQN-IMVJ: three windows of three iterations, the Jacobian is spread over the ranks
static Plan imvj(const std::string &attr, const std::string &restart, const char *scheme, int ranks = 2)
{
  auto p = accel("<acceleration:IQN-IMVJ " + attr + "><data name=\"E\" mesh=\"MO\"/><preconditioner type=\"residual\"/><initial-relaxation value=\"0.5\"/><max-used-iterations value=\"6\"/><time-windows-reused value=\"1\"/><filter type=\"QR1\" limit=\"1e-9\"/>" + restart + "</acceleration:IQN-IMVJ>", scheme, 3);
  p.windows  = 3;
  p.ranks[1] = ranks;
  return p;
}
static void m1() { R.prep(imvj("", "<imvj-restart-mode type=\"no-restart\"/>", "parallel-implicit")); }
SYM_SCENARIO_PREP(imvj, m1) { accelerated(false, 9); R.go(1e-5); }
static void m2() { R.prep(imvj("always-build-jacobian=\"true\"", "", "serial-implicit")); }
SYM_SCENARIO_PREP(imvj_always, m2) { accelerated(false, 9); R.go(1e-5); }
static void m3() { R.prep(imvj("", "<imvj-restart-mode type=\"RS-LS\" chunk-size=\"1\"/>", "parallel-implicit")); }
SYM_SCENARIO_PREP(imvj_restart_ls, m3) { accelerated(false, 9); R.go(1e-5); }
static void m4() { R.prep(imvj("", "<imvj-restart-mode type=\"RS-SLIDE\" chunk-size=\"1\"/>", "serial-implicit")); }
SYM_SCENARIO_PREP(imvj_restart_slide, m4) { accelerated(false, 9); R.go(1e-5); }
static void m5() { R.prep(imvj("", "<imvj-restart-mode type=\"no-restart\"/>", "parallel-implicit", 3)); }
SYM_SCENARIO_PREP(imvj_three_ranks, m5) { accelerated(false, 9); R.go(1e-5); }

static void m6() { R.prep(imvj("", "<imvj-restart-mode type=\"RS-SVD\" chunk-size=\"1\"/>", "serial-implicit")); }
SYM_SCENARIO_PREP(imvj_restart_svd, m6) { accelerated(false, 9); R.go(1e-5); }
static void r4() { auto p = accel("<acceleration:IQN-ILS on-bound-violation=\"scale\"><data name=\"E\" mesh=\"MO\"/><initial-relaxation value=\"0.5\"/><max-used-iterations value=\"6\"/><time-windows-reused value=\"2\"/><filter type=\"QR1\" limit=\"1e-9\"/></acceleration:IQN-ILS>", "serial-implicit", 4); p.dataBackAttr = "lower-bound=\"-1\" upper-bound=\"1.5\""; R.prep(p); }
SYM_SCENARIO_PREP(iqn_bounds_scaled, r4) { accelerated(false, 4); R.go(1e-5); }
static void r5() { auto p = accel("<acceleration:IQN-ILS on-bound-violation=\"clamp\"><data name=\"E\" mesh=\"MO\"/><initial-relaxation value=\"0.5\"/><max-used-iterations value=\"6\"/><time-windows-reused value=\"2\"/><filter type=\"QR3\" limit=\"1e-3\"/></acceleration:IQN-ILS>", "serial-implicit", 4); p.dataBackAttr = "lower-bound=\"-1\" upper-bound=\"1.5\""; R.prep(p); }
SYM_SCENARIO_PREP(iqn_bounds_clamped, r5) { accelerated(false, 4); R.go(1e-5); }
// criteria decided by data of all ranks
static void r6() { auto p = accel("<relative-convergence-measure data=\"E\" mesh=\"MO\" limit=\"0.5\"/><absolute-convergence-measure data=\"D\" mesh=\"MO\" limit=\"2\"/>", "parallel-implicit", 3); p.ranks[1] = 3; R.prep(p); }
SYM_SCENARIO_PREP(measures_three_ranks, r6)
{
  R.p.in.x   = {{0.25, 0}, {0.875, 1}};
  R.p.out.x  = {{0, 0}, {1, 0}, {2, 0.5}};
  R.parts[0] = {{0, 1}};
  assign(false, true, false);
  R.v = {{1, 2}, {3, sym::real("v", -4, 4)}, {1, 2}};
  R.w = {{2, -1, 0.5}, {2.5, -1, sym::real("w", -4, 4)}, {sym::real("w", -4, 4), 1, 1}};
  R.go(1e-6);
}
// the order in which the processes run
static void r7() { auto p = base("nearest-neighbor", false, "consistent"); p.both = true; p.ranks[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(schedules, r7)
{
  R.p.in.x  = {{0.25, 0}, {0.875, 1}, {1.5, 0}};
  R.p.out.x = {{0, 0}, {1, 0}, {2, 0.5}};
  R.parts[0] = {{0, 2}, {1}};
  R.parts[1] = {{0, 1}, {2}};
  R.v = {R.values(3, "v")};
  R.w = {R.values(3, "w")};
  world::exploreSchedules(sym::thorough() ? 5 : 3);
  R.go();
}
