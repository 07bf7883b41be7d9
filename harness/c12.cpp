// C12: IQN-ILS acceleration passes on the quasi-Newton update.
#include "qn.hpp"
static qn::Run R;
static int     SEED = -1;
static qn::Plan base(std::vector<qn::Data> data, int nv, int iters, int windows = 1)
{
  qn::Plan p;
  p.data    = data;
  p.nv      = nv;
  p.iters   = iters;
  p.windows = windows;
  p.filter  = "QR1-absolute";
  p.limit   = 1e-9;
  return p;
}
static void go(qn::Plan p)
{
  static const double omegas[4] = {0.5, 0.125, 1.0, 0.75};
  if (SEED >= 0)
    p.omega = omegas[SEED % 4];
  R.p = p;
  R.run();
}
// all primary values by table, values of the secondary data symbolic
static std::function<double(int, int, int, int, int)> secondarySymbolic(const std::vector<qn::Data> &data)
{
  SEED = sym::choice("seed", 8);
  return [data](int d, int k, int it, int s, int e) { return data[d].primary ? qn::table(SEED, d, k, it, s, e) : sym::real("s", -10, 10); };
}
static std::function<double(int, int, int, int, int)> allSymbolic()
{
  sym::split();
  return [](int, int, int, int, int) { return sym::real("x", -10, 10); };
}
static double om() { return sym::real("omega", 0.05, 1.0); }
// one unknown: the secant method
SYM_SCENARIO(secant) { auto p = base({{1}}, 1, 3); p.stopAt = 2; p.value = allSymbolic(); go(p); }
SYM_SCENARIO(one_column_vector) { auto p = base({{1, 2}}, 1, 3); p.stopAt = 2; p.value = allSymbolic(); go(p); }
SYM_SCENARIO(one_column_parallel) { auto p = base({{0}, {1}}, 1, 3); p.stopAt = 2; p.scheme = "parallel-implicit"; p.value = allSymbolic(); go(p); }
SYM_SCENARIO(T_secant_relaxation) { auto p = base({{1}}, 1, 3); p.stopAt = 2; p.omega = om(); p.value = allSymbolic(); go(p); }
// secondary data follow the primary data's coefficients
SYM_SCENARIO(secondary_serial) { auto p = base({{1, 2}, {1, 1, false}}, 2, 5); p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(secondary_parallel) { auto p = base({{0, 1, false}, {1, 2}, {1, 1, false}}, 2, 4); p.scheme = "parallel-implicit"; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(windows_reused_default) { auto p = base({{1, 2}, {1, 1, false}}, 3, 3, 3); p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(windows_reused_one) { auto p = base({{1, 2}, {1, 1, false}}, 3, 3, 3); p.reuse = 1; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(windows_reused_none) { auto p = base({{1, 2}, {1, 1, false}}, 3, 3, 3); p.reuse = 0; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(relaxed_every_window) { auto p = base({{1, 2}, {1, 1, false}}, 3, 3, 3); p.enforce = true; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(relaxed_every_window_reused_none) { auto p = base({{1, 2}, {1, 1, false}}, 3, 3, 2); p.enforce = true; p.reuse = 0; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(column_limit) { auto p = base({{1, 2}, {1, 1, false}}, 2, 5, 2); p.maxUsed = 2; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(column_limit_one) { auto p = base({{1, 2}, {1, 1, false}}, 2, 4, 2); p.maxUsed = 1; p.reuse = 1; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(converging_at_once) { auto p = base({{1, 2}, {1, 1, false}}, 3, 4, 3); p.itersOf = {1, 3, 1}; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(converging_at_once_reused_none) { auto p = base({{1, 2}, {1, 1, false}}, 3, 4, 4); p.itersOf = {2, 1, 2, 3}; p.reuse = 0; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(converging_at_once_reused_one) { auto p = base({{1, 2}, {1, 1, false}}, 3, 4, 4); p.itersOf = {2, 1, 2, 3}; p.reuse = 1; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(substeps) { auto p = base({{1, 2}, {1, 1, false}}, 2, 4); p.steps = 2; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(substeps_full_grid) { auto p = base({{1, 2}, {1, 1, false}}, 2, 4, 2); p.steps = 2; p.full = true; p.value = secondarySymbolic(p.data); go(p); }
// more columns than unknowns
SYM_SCENARIO(one_unknown_qr1) { auto p = base({{1}, {1, 1, false}}, 1, 5); p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(one_unknown_qr1_windows) { auto p = base({{1}, {1, 1, false}}, 1, 3, 3); p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(one_unknown_qr1_limit) { auto p = base({{1}, {1, 1, false}}, 1, 4, 2); p.maxUsed = 1; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(two_unknowns_qr1) { auto p = base({{1, 2}, {1, 1, false}}, 1, 6); p.filter = "QR1"; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(two_unknowns_qr1_windows) { auto p = base({{1, 2}, {1, 1, false}}, 1, 4, 3); p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(two_unknowns_qr1_residual_sum) { auto p = base({{1}, {1}, {1, 1, false}}, 1, 4, 2); p.prec = "residual-sum"; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(two_unknowns_qr2) { auto p = base({{1, 2}, {1, 1, false}}, 1, 6); p.filter = "QR2"; p.limit = 1e-3; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(two_unknowns_qr2_windows) { auto p = base({{1, 2}, {1, 1, false}}, 1, 4, 3); p.filter = "QR2"; p.limit = 1e-3; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(two_unknowns_qr3) { auto p = base({{1, 2}, {1, 1, false}}, 1, 6); p.filter = "QR3"; p.limit = 1e-3; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(two_unknowns_qr3_windows) { auto p = base({{1, 2}, {1, 1, false}}, 1, 4, 3); p.filter = "QR3"; p.limit = 1e-3; p.value = secondarySymbolic(p.data); go(p); }
SYM_SCENARIO(two_unknowns_default) { auto p = base({{1, 2}, {1, 1, false}}, 1, 4, 3); p.filter = ""; p.prec = ""; p.value = secondarySymbolic(p.data); go(p); }
