// C04: implicit coupling - iteration protocol, and which values of which iteration a participant reads.
#include "couple.hpp"
static couple::Run R;
static couple::Plan base(const char *scheme, double T, int iters)
{
  couple::Plan p;
  p.scheme = scheme;
  p.T      = T;
  p.iters  = iters;
  return p;
}
static void a1() { auto p = base("serial-implicit", 2.5, 2); p.steps[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_substeps, a1) { R.finish(); }
static void a2() { auto p = base("serial-implicit", 1.5, 3); p.steps[1] = 2; p.substeps[0] = p.substeps[1] = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_window_end_truncated, a2) { R.finish(); }
static void a3() { auto p = base("serial-implicit", 2, 2); p.steps[1] = 2; p.kind = "vector"; p.nv = 2; p.partial = true; p.swap = true; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_swapped_vector_partial, a3) { R.finish(); }
static void a4() { auto p = base("serial-implicit", 2, 3); p.steps[0] = 2; p.steps[1] = 2; p.degree[0] = 0; p.substeps[0] = false; p.degree[1] = 3; p.symWindow = 0; R.prep(p); }
SYM_SCENARIO_PREP(serial_degrees, a4) { R.finish(); }
static void a5() { auto p = base("serial-implicit", 1, 2); p.steps[0] = p.steps[1] = 2; p.symWindow = 0; p.symStep = true; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_symbolic_step, a5) { R.finish(); }
static void b1() { auto p = base("parallel-implicit", 2.5, 2); p.steps[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(parallel_substeps, b1) { R.finish(); }
static void b2() { auto p = base("parallel-implicit", 1.5, 3); p.steps[1] = 2; p.substeps[0] = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_window_end_truncated, b2) { R.finish(); }
static void b3() { auto p = base("parallel-implicit", 2, 2); p.steps[1] = 2; p.kind = "vector"; p.nv = 2; p.partial = true; p.swap = true; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_swapped_vector_partial, b3) { R.finish(); }
static void b4() { auto p = base("parallel-implicit", 1, 2); p.steps[0] = p.steps[1] = 2; p.symWindow = 0; p.symStep = true; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_symbolic_step, b4) { R.finish(); }
// the number of iterations is decided by the data
static void c1() { auto p = base("serial-implicit", 2, 4); p.minIters = 2; p.measures = {{1, 0, 0.5, 0, false, false}}; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_min_and_max_iterations, c1) { R.finish(); }
static void c2() { auto p = base("parallel-implicit", 2, 4); p.minIters = 3; p.measures = {{0, 0, 0.5, 0, false, false}}; p.symRead = false; p.swap = true; R.prep(p); }
SYM_SCENARIO_PREP(parallel_min_and_max_iterations, c2) { R.finish(); }
static void c3() { auto p = base("serial-implicit", 2, 3); p.measures = {{0, 0, 0.5, 0, false, false}}; p.symRead = false; p.steps[0] = 2; p.steps[1] = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_measure_received_data, c3) { R.finish(); }
static void c4() { auto p = base("parallel-implicit", 2, 3); p.measures = {{1, 0, 0.5, 0, false, false}}; p.symRead = false; p.steps[0] = 2; p.substeps[1] = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_measure_second, c4) { R.finish(); }

// one of the participants maps both data between its own mesh and the one of its partner
static couple::Plan mapped(const char *scheme, double T, int iters, int by)
{
  auto p  = base(scheme, T, iters);
  p.mapBy = by;
  p.nv    = 2;
  p.pinned = true;
  return p;
}
static void d1() { auto p = mapped("serial-implicit", 2.5, 2, 0); p.steps[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_mapped_by_first, d1) { R.finish(); }
static void d2() { auto p = mapped("serial-implicit", 2, 2, 1); p.steps[1] = 2; p.partial = true; p.conserve = true; R.prep(p); }
SYM_SCENARIO_PREP(serial_mapped_by_second, d2) { R.finish(); }
static void d3() { auto p = mapped("serial-implicit", 1.5, 3, 1); p.substeps[0] = p.substeps[1] = false; p.kind = "vector"; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_mapped_window_end, d3) { R.finish(); }
static void d4() { auto p = mapped("parallel-implicit", 2.5, 2, 0); p.steps[0] = p.steps[1] = 2; p.conserve = true; R.prep(p); }
SYM_SCENARIO_PREP(parallel_mapped, d4) { R.finish(); }
static void d5() { auto p = mapped("parallel-implicit", 2, 3, 1); p.measures = {{0, 0, 0.5, 0, false, false}}; p.symRead = false; p.steps[0] = 2; p.nv = 1; p.pinned = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_mapped_measure, d5) { R.finish(); }
static void d6() { auto p = mapped("serial-implicit", 2, 3, 0); p.measures = {{1, 0, 0.5, 0, false, false}}; p.symRead = false; p.steps[1] = 2; p.swap = true; p.nv = 1; p.pinned = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_mapped_measure, d6) { R.finish(); }
// many windows, iterations and steps
static void e1() { auto p = base("serial-implicit", 5, 3); p.minIters = 2; p.measures = {{1, 0, 0.5, 0, false, false}}; p.symFrom = 4; p.symRead = false; p.steps[0] = 3; p.steps[1] = 4; R.prep(p); }
SYM_SCENARIO_PREP(serial_later_window, e1) { R.finish(); }
static void e2() { auto p = base("parallel-implicit", 4.25, 5); p.measures = {{0, 0, 0.5, 0, false, false}}; p.symFrom = 4; p.symRead = false; p.steps[0] = 4; p.steps[1] = 3; R.prep(p); }
SYM_SCENARIO_PREP(parallel_later_window, e2) { R.finish(); }
