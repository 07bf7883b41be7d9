// C13: filters and preconditioners of IQN-ILS acceleration.
#include "qn.hpp"
static qn::Run R;
static int     SEED;
static void go(const char *prec, const char *attr, const char *filter, double limit, std::vector<qn::Data> data, int nv, int iters, int windows, std::function<void(qn::Plan &)> more = {}, std::function<double(int, int)> scale = {})
{
  qn::Plan p;
  p.data     = data;
  p.nv       = nv;
  p.iters    = iters;
  p.windows  = windows;
  p.prec     = prec;
  p.precAttr = attr;
  p.filter   = filter;
  p.limit    = limit > 0 ? sym::real("limit", limit / 16, std::min(0.9, limit * 4)) : 0;
  if (more)
    more(p);
  SEED    = sym::choice("seed", 3);
  p.value = [data, scale](int d, int k, int it, int s, int e) {
    if (!data[d].primary)
      return sym::real("s", -10, 10);
    // columns get small, and similar, towards the end of a window
    double t = qn::table(SEED, d, k, it, s, e), u = qn::table(SEED, d, k, 7, s, e);
    return (u + t / (1 << it * (d + 1))) * (scale ? scale(d, k) : 1.0);
  };
  R.p = p;
  R.run();
}
typedef qn::Data D;
static std::vector<D> two() { return {{1, 1}, {1, 2}, {1, 1, false}}; }
static std::vector<D> scaled() { return {{1, 1, true, 4}, {1, 2, true, 0.01}, {1, 1, false}}; }
SYM_SCENARIO(constant_qr2) { go("constant", "", "QR2", 0.3, scaled(), 2, 5, 1); }
SYM_SCENARIO(constant_qr1) { go("constant", "", "QR1", 0.2, scaled(), 2, 5, 1); }
SYM_SCENARIO(constant_qr1_absolute) { go("constant", "", "QR1-absolute", 0.5, scaled(), 2, 5, 1); }
SYM_SCENARIO(constant_qr3) { go("constant", "", "QR3", 0.3, scaled(), 2, 5, 1); }
SYM_SCENARIO(value_qr2) { go("value", "", "QR2", 0.3, two(), 2, 5, 2); }
SYM_SCENARIO(value_qr1) { go("value", "", "QR1", 0.2, two(), 2, 5, 2); }
SYM_SCENARIO(value_frozen) { go("value", "freeze-after=\"1\"", "QR2", 0.1, two(), 2, 4, 3, [](qn::Plan &p) { p.freeze = 1; }); }
SYM_SCENARIO(residual_qr2) { go("residual", "", "QR2", 0.3, two(), 2, 5, 2); }
SYM_SCENARIO(residual_qr1) { go("residual", "", "QR1", 0.2, two(), 2, 5, 2); }
SYM_SCENARIO(residual_frozen) { go("residual", "freeze-after=\"1\"", "QR2", 0.1, two(), 2, 4, 3, [](qn::Plan &p) { p.freeze = 1; }); }
SYM_SCENARIO(residual_sum_qr2) { go("residual-sum", "", "QR2", 0.3, two(), 2, 5, 2); }
SYM_SCENARIO(residual_sum_qr1) { go("residual-sum", "", "QR1", 0.2, two(), 2, 5, 2); }
SYM_SCENARIO(residual_sum_always) { go("residual-sum", "update-on-threshold=\"false\"", "QR2", 0.1, two(), 2, 4, 3, [](qn::Plan &p) { p.threshold = false; }); }
SYM_SCENARIO(residual_sum_frozen) { go("residual-sum", "freeze-after=\"2\"", "QR2", 0.1, two(), 2, 4, 4, [](qn::Plan &p) { p.freeze = 2; }); }
SYM_SCENARIO(defaults) { go("", "", "", 0, two(), 2, 5, 3); }
SYM_SCENARIO(defaults_substeps) { go("", "", "", 0, two(), 2, 4, 2, [](qn::Plan &p) { p.steps = 2; }); }
SYM_SCENARIO(residual_sum_parallel) { go("residual-sum", "", "QR2", 0.3, {{0, 2}, {1, 1}, {0, 1, false}}, 2, 4, 2, [](qn::Plan &p) { p.scheme = "parallel-implicit"; }); }
SYM_SCENARIO(value_full_grid) { go("value", "", "QR2", 0.1, two(), 2, 4, 2, [](qn::Plan &p) { p.steps = 2; p.full = true; }); }
SYM_SCENARIO(residual_sum_windows_reused_none) { go("residual-sum", "", "QR3", 0.01, two(), 2, 4, 3, [](qn::Plan &p) { p.reuse = 0; }); }
SYM_SCENARIO(residual_sum_windows_reused_one) { go("residual-sum", "", "QR3", 0.01, two(), 2, 4, 3, [](qn::Plan &p) { p.reuse = 1; }); }
// columns are removed from several windows while windows are forgotten
SYM_SCENARIO(qr1_windows_reused_one) { go("constant", "", "QR1", 0.2, two(), 2, 4, 4, [](qn::Plan &p) { p.reuse = 1; }); }
SYM_SCENARIO(qr1_windows_reused_two) { go("constant", "", "QR1", 0.2, two(), 2, 3, 5, [](qn::Plan &p) { p.reuse = 2; }); }
SYM_SCENARIO(qr2_windows_reused_one) { go("constant", "", "QR2", 0.5, two(), 2, 4, 4, [](qn::Plan &p) { p.reuse = 1; }); }
SYM_SCENARIO(qr2_windows_reused_two) { go("constant", "", "QR2", 0.5, two(), 2, 3, 5, [](qn::Plan &p) { p.reuse = 2; }); }
SYM_SCENARIO(qr2_few_unknowns) { go("constant", "", "QR2", 0.3, two(), 1, 6, 3); }
SYM_SCENARIO(qr3_few_unknowns) { go("constant", "", "QR3", 0.3, two(), 1, 6, 3); }
// one data's share of the residual grows by more than the threshold in a later window
SYM_SCENARIO(residual_sum_growing)
{
  go("residual-sum", "", "QR2", 0.1, two(), 2, 4, 3, [](qn::Plan &p) { p.reuse = 1; }, [](int d, int k) { return d == 0 ? (k == 0 ? 1 / 64. : k == 1 ? 1.0 : 1 / 64.) : 1.0; });
}
SYM_SCENARIO(residual_sum_growing_later)
{
  go("residual-sum", "", "QR1", 0.1, two(), 2, 4, 4, {}, [](int d, int k) { return d == 1 ? (k < 2 ? 1 / 128. : 1.0) : 1.0; });
}
