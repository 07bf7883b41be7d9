// C11: constant relaxation and Aitken acceleration.
#include "couple.hpp"
static couple::Run R;
static void run(const couple::Plan &p)
{
  R.p = p;
  R.spawn();
  world::prepare();
  R.finish();
}
static couple::Plan base(const char *scheme, int accel, int iters, double T = 1)
{
  couple::Plan p;
  p.scheme    = scheme;
  p.T         = T;
  p.iters     = iters;
  p.accel     = accel;
  p.symRead   = false;
  p.symWindow = 0;
  p.omega     = 0.5;
  return p;
}
static double om() { return sym::real("omega", 0.05, 1.0); }
SYM_SCENARIO(constant_serial) { auto p = base("serial-implicit", 1, 3, 2); p.omega = om(); run(p); }
SYM_SCENARIO(constant_serial_swapped_substeps) { auto p = base("serial-implicit", 1, 3); p.swap = true; p.steps[0] = p.steps[1] = 2; p.omega = om(); run(p); }
SYM_SCENARIO(constant_serial_varying_steps) { auto p = base("serial-implicit", 1, 3); p.steps[1] = 2; p.varySteps = true; p.omega = om(); run(p); }
SYM_SCENARIO(constant_serial_measured) { auto p = base("serial-implicit", 1, 3, 2); p.omega = 0.25; p.measures = {{1, 0, 0.5, 0, false, false}}; run(p); }
SYM_SCENARIO(constant_parallel) { auto p = base("parallel-implicit", 1, 3, 2); p.omega = om(); p.nv = 2; p.partial = true; run(p); }
SYM_SCENARIO(constant_parallel_substeps) { auto p = base("parallel-implicit", 1, 3, 1.5); p.steps[0] = 2; p.varySteps = true; p.substeps[1] = false; p.symRead = true; p.symWindow = 1; run(p); }
SYM_SCENARIO(constant_parallel_measured) { auto p = base("parallel-implicit", 1, 3, 1); p.omega = 0.5; p.measures = {{0, 0, 0.5, 0, false, false}, {1, 1, 0.25, 0, false, false}}; run(p); }
SYM_SCENARIO(aitken_serial) { auto p = base("serial-implicit", 2, 3); p.primary[1] = true; p.omega = om(); run(p); }
SYM_SCENARIO(aitken_serial_first_window) { auto p = base("serial-implicit", 2, 3, 2); p.primary[1] = true; p.fixedWindow = 1; run(p); }
SYM_SCENARIO(aitken_serial_second_window) { auto p = base("serial-implicit", 2, 3, 2); p.primary[1] = true; p.fixedWindow = 0; run(p); }
SYM_SCENARIO(T_aitken_serial_windows) { auto p = base("serial-implicit", 2, 3, 2); p.primary[1] = true; run(p); }
SYM_SCENARIO(aitken_serial_substeps) { auto p = base("serial-implicit", 2, 4); p.primary[1] = true; p.steps[1] = 2; run(p); }
SYM_SCENARIO(aitken_parallel_one_primary) { auto p = base("parallel-implicit", 2, 3); p.primary[0] = true; p.swap = true; run(p); }
SYM_SCENARIO(aitken_parallel_scaled) { auto p = base("parallel-implicit", 2, 3); p.primary[0] = p.primary[1] = true; p.scale[0] = 2; p.scale[1] = 0.5; run(p); }
SYM_SCENARIO(aitken_vector) { auto p = base("serial-implicit", 2, 3); p.primary[1] = true; p.kind = "vector"; run(p); }
// mapped data, later windows
static couple::Plan mapped(couple::Plan p, int by)
{
  p.mapBy  = by;
  p.nv     = 2;
  p.pinned = true;
  return p;
}
SYM_SCENARIO(constant_serial_mapped) { auto p = mapped(base("serial-implicit", 1, 3, 2), 1); p.steps[1] = 2; p.omega = om(); run(p); }
SYM_SCENARIO(constant_parallel_mapped) { auto p = mapped(base("parallel-implicit", 1, 3, 2), 0); p.conserve = true; p.steps[0] = 2; p.varySteps = true; p.omega = 0.25; run(p); }
SYM_SCENARIO(aitken_serial_mapped) { auto p = mapped(base("serial-implicit", 2, 3), 0); p.primary[1] = true; run(p); }
SYM_SCENARIO(constant_later_windows) { auto p = base("parallel-implicit", 1, 3, 5); p.symFrom = 3; p.omega = om(); run(p); }
SYM_SCENARIO(aitken_later_window) { auto p = base("serial-implicit", 2, 3, 4); p.primary[1] = true; p.symFrom = 3; run(p); }
SYM_SCENARIO(aitken_converging_windows) { auto p = base("serial-implicit", 2, 4, 3); p.primary[1] = true; p.symFrom = 2; p.measures = {{0, 0, 0.5, 0, false, false}}; run(p); }
