// C05: convergence criteria of implicit coupling.
#include "couple.hpp"
static couple::Run R;
static void run(const char *scheme, int iters, std::vector<couple::Measure> ms, int nv = 1, int minIters = 0, double T = 1, bool unlimited = false)
{
  couple::Plan p;
  p.scheme   = scheme;
  p.T        = T;
  p.iters    = iters;
  p.unlimited = unlimited;
  p.minIters = minIters;
  p.measures = ms;
  p.symRead  = false;
  p.nv       = nv;
  p.pinned   = R.p.pinned;
  R.p        = p;
  R.spawn();
  world::prepare();
  R.finish();
}
static double lim(const char *n) { return sym::real(n, 0.01, 1.0); }
SYM_SCENARIO(absolute_two_vertices) { run("serial-implicit", 2, {{1, 0, lim("limit"), 0, false, false}}, 2); }
SYM_SCENARIO(relative) { run("serial-implicit", 3, {{1, 1, lim("limit"), 0, false, false}}); }
SYM_SCENARIO(relative_two_vertices) { R.p.pinned = true; run("parallel-implicit", 3, {{0, 1, 0.25, 0, false, false}}, 2); }
SYM_SCENARIO(T_relative_two_vertices) { run("parallel-implicit", 3, {{0, 1, 0.25, 0, false, false}}, 2); }
SYM_SCENARIO(absolute_or_relative) { run("parallel-implicit", 3, {{1, 2, 0.25, lim("abs"), false, false}}); }
SYM_SCENARIO(residual_relative) { run("serial-implicit", 3, {{1, 3, lim("limit"), 0, false, false}}); }
SYM_SCENARIO(residual_relative_windows) { run("parallel-implicit", 3, {{0, 3, 0.25, 0, false, false}}, 1, 0, 2); }
SYM_SCENARIO(all_must_converge) { run("parallel-implicit", 3, {{0, 0, 0.5, 0, false, false}, {1, 1, 0.25, 0, false, false}}); }
SYM_SCENARIO(one_suffices) { run("parallel-implicit", 3, {{0, 0, 0.5, 0, true, false}, {1, 0, 0.25, 0, false, false}}); }
SYM_SCENARIO(strict_measures) { run("parallel-implicit", 3, {{0, 0, 0.5, 0, true, false}, {1, 0, 0.25, 0, false, true}}); }
SYM_SCENARIO(strict_suffices) { run("serial-implicit", 2, {{0, 0, 0.5, 0, true, true}, {1, 0, 0.25, 0, false, false}}, 1, 2); }
SYM_SCENARIO(suffices_with_minimum) { run("serial-implicit", 3, {{0, 0, 0.5, 0, true, false}, {1, 3, 0.25, 0, true, false}}, 1, 2); }
SYM_SCENARIO(absolute_and_residual_relative) { run("parallel-implicit", 3, {{0, 0, 0.5, 0, false, false}, {1, 3, 0.25, 0, false, false}}); }
SYM_SCENARIO(strict_residual_relative) { run("serial-implicit", 3, {{1, 1, 0.25, 0, false, false}, {0, 3, 0.5, 0, false, true}}); }
SYM_SCENARIO(strict_without_limit) { run("serial-implicit", 3, {{1, 0, 0.5, 0, false, true}}, 1, 0, 1, true); }
SYM_SCENARIO(without_limit) { run("serial-implicit", 3, {{0, 0, 0.5, 0, true, false}, {1, 0, 0.25, 0, false, false}}, 1, 0, 1, true); }
// the last of several windows
static void later(const char *scheme, int iters, std::vector<couple::Measure> ms, int minIters, double T)
{
  couple::Plan p;
  p.scheme = scheme, p.T = T, p.iters = iters, p.minIters = minIters, p.measures = ms, p.symRead = false, p.symFrom = int(T) - 1;
  R.p = p;
  R.spawn();
  world::prepare();
  R.finish();
}
SYM_SCENARIO(later_window_serial) { later("serial-implicit", 4, {{1, 0, 0.5, 0, true, false}, {0, 3, 0.25, 0, false, false}}, 2, 5); }
SYM_SCENARIO(later_window_parallel) { later("parallel-implicit", 3, {{0, 1, 0.5, 0, false, false}, {1, 3, 0.25, 0, false, false}}, 2, 4); }
SYM_SCENARIO(later_window_suffices) { later("parallel-implicit", 3, {{0, 0, 0.5, 0, true, false}, {1, 2, 0.25, 0.5, false, false}}, 2, 4); }
