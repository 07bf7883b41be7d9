// C39: IQN-IMVJ acceleration.
#include "qn.hpp"
static qn::Run R;
static int     SEED;
typedef qn::Data D;
static qn::Plan base(std::vector<D> data, int nv, int iters, int windows)
{
  qn::Plan p;
  p.imvj    = true;
  p.lenient = true;
  p.data    = data;
  p.nv      = nv;
  p.iters   = iters;
  p.windows = windows;
  p.filter  = "QR1-absolute";
  p.limit   = 1e-9;
  SEED      = data.size() > 1 ? sym::choice("seed", 8) : 0;
  p.value   = [data](int d, int k, int it, int s, int e) { return data[d].primary ? qn::table(SEED, d, k, it, s, e) : sym::real("s", -10, 10); };
  return p;
}
static void go(qn::Plan p)
{
  R.p = p;
  R.run();
}
static std::vector<D> one() { return {{1, 2}, {1, 1, false}}; }
SYM_SCENARIO(one_window) { go(base(one(), 3, 5, 1)); }
SYM_SCENARIO(counted_once) { auto p = base(one(), 3, 3, 2); p.lenient = false; go(p); }
SYM_SCENARIO(counted_once_default) { auto p = base(one(), 3, 3, 2); p.lenient = false; p.filter = ""; p.prec = ""; p.restart = ""; go(p); }
SYM_SCENARIO(windows) { go(base(one(), 3, 3, 3)); }
SYM_SCENARIO(windows_reused) { auto p = base(one(), 3, 3, 3); p.reuse = 1; go(p); }
SYM_SCENARIO(windows_relaxed) { auto p = base(one(), 3, 3, 3); p.enforce = true; go(p); }
SYM_SCENARIO(restart_zero) { auto p = base(one(), 3, 3, 4); p.restart = "RS-0"; p.chunk = 1; go(p); }
SYM_SCENARIO(always) { auto p = base(one(), 3, 3, 3); p.always = true; p.restart = ""; go(p); }
SYM_SCENARIO(restart_not_reached) { auto p = base(one(), 3, 3, 3); p.restart = ""; go(p); }
SYM_SCENARIO(restart_zero_reused) { auto p = base(one(), 3, 3, 4); p.restart = "RS-0"; p.chunk = 1; p.reuse = 2; go(p); }
SYM_SCENARIO(restart_zero_relaxed) { auto p = base(one(), 3, 3, 4); p.restart = "RS-0"; p.chunk = 1; p.enforce = true; go(p); }
SYM_SCENARIO(restart_ls_relaxed) { auto p = base(one(), 4, 3, 4); p.restart = "RS-LS"; p.chunk = 1; p.enforce = true; go(p); }
SYM_SCENARIO(restart_ls_reused) { auto p = base(one(), 4, 3, 4); p.restart = "RS-LS"; p.chunk = 1; p.reuse = 1; p.lsReuse = 1; go(p); }
SYM_SCENARIO(restart_ls_few_unknowns) { auto p = base(one(), 2, 3, 4); p.restart = "RS-LS"; p.chunk = 1; p.enforce = true; go(p); }
SYM_SCENARIO(restart_ls_two_unknowns) { auto p = base(one(), 1, 3, 4); p.restart = "RS-LS"; p.chunk = 1; p.enforce = true; go(p); }
SYM_SCENARIO(restart_ls_forgetting) { auto p = base(one(), 4, 3, 5); p.restart = "RS-LS"; p.chunk = 1; p.enforce = true; p.lsReuse = 1; go(p); }
SYM_SCENARIO(restart_ls_qr2) { auto p = base(one(), 4, 4, 4); p.restart = "RS-LS"; p.chunk = 1; p.filter = "QR2"; p.limit = 0.2; p.reuse = 1; go(p); }
SYM_SCENARIO(restart_ls_residual_weights) { auto p = base({{1, 1}, {1, 2}, {1, 1, false}}, 3, 3, 4); p.prec = "residual"; p.restart = "RS-LS"; p.chunk = 1; p.enforce = true; go(p); }
SYM_SCENARIO(restart_slide_relaxed) { auto p = base(one(), 3, 3, 4); p.restart = "RS-SLIDE"; p.chunk = 1; p.enforce = true; go(p); }
SYM_SCENARIO(restart_slide_two) { auto p = base(one(), 3, 3, 5); p.restart = "RS-SLIDE"; p.chunk = 2; p.enforce = true; go(p); }
SYM_SCENARIO(restart_slide_reused) { auto p = base(one(), 4, 3, 4); p.restart = "RS-SLIDE"; p.chunk = 1; p.reuse = 1; go(p); }
SYM_SCENARIO(converging_at_once) { auto p = base(one(), 3, 4, 5); p.itersOf = {1, 3, 1, 2, 3}; go(p); }
SYM_SCENARIO(converging_at_once_reused) { auto p = base(one(), 4, 4, 5); p.itersOf = {3, 1, 2, 1, 3}; p.reuse = 1; go(p); }
SYM_SCENARIO(converging_at_once_relaxed) { auto p = base(one(), 3, 4, 4); p.itersOf = {3, 1, 2, 3}; p.enforce = true; go(p); }
SYM_SCENARIO(converging_at_once_restart) { auto p = base(one(), 4, 4, 5); p.restart = ""; p.itersOf = {3, 1, 2, 1, 3}; p.reuse = 1; go(p); }
SYM_SCENARIO(converging_at_once_restart_relaxed) { auto p = base(one(), 3, 4, 4); p.restart = ""; p.itersOf = {3, 1, 2, 3}; p.enforce = true; go(p); }
SYM_SCENARIO(converging_at_once_always) { auto p = base(one(), 3, 4, 5); p.always = true; p.restart = ""; p.itersOf = {3, 1, 2, 1, 3}; p.reuse = 1; go(p); }
SYM_SCENARIO(column_limit) { auto p = base(one(), 3, 5, 2); p.maxUsed = 2; p.reuse = 1; go(p); }
SYM_SCENARIO(few_unknowns) { auto p = base(one(), 1, 6, 2); p.reuse = 1; go(p); }
SYM_SCENARIO(few_unknowns_qr2) { auto p = base(one(), 1, 5, 3); p.filter = "QR2"; p.limit = 1e-3; p.reuse = 1; go(p); }
SYM_SCENARIO(defaults) { auto p = base(one(), 3, 4, 3); p.filter = ""; p.prec = ""; p.restart = ""; go(p); }
SYM_SCENARIO(residual_weights) { auto p = base({{1, 1}, {1, 2}, {1, 1, false}}, 2, 4, 3); p.prec = "residual"; p.filter = "QR2"; p.limit = 0.1; p.reuse = 1; go(p); }
SYM_SCENARIO(parallel_scheme) { auto p = base({{0, 1, false}, {1, 2}, {1, 1, false}}, 3, 4, 2); p.scheme = "parallel-implicit"; p.enforce = true; go(p); }
SYM_SCENARIO(substeps_full_grid) { auto p = base(one(), 2, 3, 3); p.steps = 2; p.full = true; p.enforce = true; go(p); }
SYM_SCENARIO(two_data_scaled) { auto p = base({{1, 1, true, 4}, {1, 2, true, 0.01}, {1, 1, false}}, 3, 3, 3); p.reuse = 2; go(p); }
SYM_SCENARIO(value_weights) { auto p = base({{1, 1}, {1, 2}, {1, 1, false}}, 2, 4, 3); p.prec = "value"; p.filter = "QR1"; p.limit = 0.05; go(p); }
SYM_SCENARIO(parallel_scheme_windows) { auto p = base({{0, 1, false}, {1, 2}, {0, 1}}, 2, 3, 3); p.scheme = "parallel-implicit"; p.reuse = 1; go(p); }
SYM_SCENARIO(substeps) { auto p = base(one(), 3, 3, 3); p.steps = 2; go(p); }
SYM_SCENARIO(column_limit_restart) { auto p = base(one(), 3, 5, 3); p.maxUsed = 2; p.restart = "RS-0"; p.chunk = 1; go(p); }
SYM_SCENARIO(clamped) { auto p = base({{1, 2}, {1, 1, false, 0, {-4}, {5}}}, 1, 2, 3); p.filter = "QR2"; p.limit = 0.1; p.reuse = 1; p.bounds = "clamp"; go(p); }
static void symbolic(qn::Plan p)
{
  sym::split();
  p.value = [](int, int, int, int, int) { return sym::real("x", -10, 10); };
  p.omega = 0.5;
  go(p);
}
SYM_SCENARIO(secant) { auto p = base({{1}}, 1, 3, 1); p.stopAt = 2; symbolic(p); }
SYM_SCENARIO(one_column_vector) { auto p = base({{1, 2}}, 1, 3, 1); p.stopAt = 2; symbolic(p); }
