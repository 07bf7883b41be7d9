// C08: interpolation in time of higher degree.
#include "couple.hpp"
static couple::Run R;
static couple::Plan base(const char *scheme, double T, int iters = 1)
{
  couple::Plan p;
  p.scheme = scheme;
  p.T      = T;
  p.iters  = iters;
  return p;
}
// as many samples as the polynomial needs: any values
static void a1() { auto p = base("serial-explicit", 2); p.steps[0] = 2; p.degree[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(quadratic, a1) { R.finish(); }
static void a2() { auto p = base("serial-explicit", 2); p.steps[0] = 3; p.degree[0] = 3; p.kind = "vector"; p.nv = 2; p.steps[1] = 2; p.symWindow = 0; R.prep(p); }
SYM_SCENARIO_PREP(cubic_vector, a2) { R.finish(); }
static void a3() { auto p = base("parallel-implicit", 2, 2); p.steps[0] = 2; p.steps[1] = 3; p.degree[0] = 2; p.degree[1] = 3; R.prep(p); }
SYM_SCENARIO_PREP(implicit_parallel, a3) { R.finish(); }
static void a4() { auto p = base("serial-implicit", 1.5, 3); p.steps[0] = 2; p.steps[1] = 2; p.degree[0] = 2; p.degree[1] = 2; p.symWindow = 1; R.prep(p); }
SYM_SCENARIO_PREP(implicit_serial_truncated, a4) { R.finish(); }
// fewer samples than the configured degree needs
static void a5() { auto p = base("serial-explicit", 2); p.steps[0] = 2; p.degree[0] = 3; p.degree[1] = 5; R.prep(p); }
SYM_SCENARIO_PREP(fewer_samples, a5) { R.finish(); }
// acceleration changes the samples of the window
static void a6() { auto p = base("parallel-implicit", 1, 3); p.steps[0] = 2; p.steps[1] = 2; p.degree[0] = 2; p.degree[1] = 2; p.accel = 1; p.omega = 0.5; p.symWindow = 0; R.prep(p); }
SYM_SCENARIO_PREP(relaxed, a6) { R.finish(); }
// more samples: polynomials of the configured degree are reproduced
static void b1() { auto p = base("serial-explicit", 2); p.steps[0] = 4; p.degree[0] = 2; p.poly[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(quadratic_reproduced, b1) { R.finish(); }
static void b2() { auto p = base("serial-explicit", 1.5); p.steps[0] = 5; p.degree[0] = 3; p.poly[0] = 3; p.swap = false; p.kind = "vector"; R.prep(p); }
SYM_SCENARIO_PREP(cubic_reproduced_truncated, b2) { R.finish(); }
static void b3() { auto p = base("serial-explicit", 2); p.steps[0] = 3; p.degree[0] = 2; p.poly[0] = 2; p.symStep = true; p.symRead = false; p.symWindow = 0; p.steps[0] = 2; p.degree[0] = 2; p.steps[1] = 2; R.prep(p); }
SYM_SCENARIO_PREP(quadratic_symbolic_step, b3) { R.finish(); }
static void b4() { auto p = base("serial-implicit", 1, 2); p.steps[0] = p.steps[1] = 5; p.degree[0] = p.degree[1] = 3; p.poly[0] = p.poly[1] = 3; p.symWindow = 0; R.prep(p); }
SYM_SCENARIO_PREP(cubic_reproduced_implicit, b4) { R.finish(); }
