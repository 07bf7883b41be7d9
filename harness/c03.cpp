// C03: explicit coupling - which of the partner's values a participant reads, at which time.
#include "couple.hpp"
static couple::Run R;
static couple::Plan base(const char *scheme, double T)
{
  couple::Plan p;
  p.scheme = scheme;
  p.T      = T;
  return p;
}
static void a1() { auto p = base("serial-explicit", 2.5); p.steps[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_substeps_first, a1) { R.finish(); }
static void a2() { auto p = base("serial-explicit", 2.5); p.steps[0] = 2; p.substeps[0] = p.substeps[1] = false; p.symWindow = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_window_end_only_truncated, a2) { R.finish(); }
static void a3() { auto p = base("serial-explicit", 3); p.steps[1] = 2; p.kind = "vector"; p.nv = 2; p.partial = true; p.swap = true; R.prep(p); }
SYM_SCENARIO_PREP(serial_swapped_vector_partial, a3) { R.finish(); }
static void a4() { auto p = base("serial-explicit", 2); p.steps[0] = 3; p.degree[0] = 0; p.degree[1] = 0; p.substeps[0] = p.substeps[1] = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_degree0, a4) { R.finish(); }
static void a5() { auto p = base("serial-explicit", 2); p.steps[0] = 3; p.steps[1] = 3; p.degree[0] = 3; R.prep(p); }
SYM_SCENARIO_PREP(serial_degree3, a5) { R.finish(); }
static void a6() { auto p = base("serial-explicit", 2); p.steps[0] = 2; p.symStep = true; p.symRead = false; R.prep(p); }
SYM_SCENARIO_PREP(serial_symbolic_step, a6) { R.finish(); }
static void a7() { auto p = base("serial-explicit", 2); p.sends[1] = false; p.steps[0] = 2; p.steps[1] = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_one_way, a7) { R.finish(); }
static void b1() { auto p = base("parallel-explicit", 2.5); p.steps[0] = 2; R.prep(p); }
SYM_SCENARIO_PREP(parallel_substeps, b1) { R.finish(); }
static void b2() { auto p = base("parallel-explicit", 3); p.steps[1] = 2; p.kind = "vector"; p.nv = 2; p.partial = true; p.swap = true; p.substeps[0] = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_swapped_vector_partial, b2) { R.finish(); }
static void b3() { auto p = base("parallel-explicit", 2); p.degree[0] = 0; p.substeps[0] = false; p.degree[1] = 2; p.steps[0] = 2; p.steps[1] = 2; p.symStep = true; R.prep(p); }
SYM_SCENARIO_PREP(parallel_symbolic_step, b3) { R.finish(); }
static void b4() { auto p = base("parallel-explicit", 2.5); p.sends[0] = false; p.symWindow = 2; R.prep(p); }
SYM_SCENARIO_PREP(parallel_one_way, b4) { R.finish(); }
// vertices in other orders than the mesh's
static void c1() { auto p = base("serial-explicit", 2); p.nv = 3; p.kind = "vector"; p.readOrder = {0, 2, 1}; p.writeOrder = {1, 2, 0}; R.prep(p); }
SYM_SCENARIO_PREP(serial_vertex_order, c1) { R.finish(); }
static void c2() { auto p = base("parallel-explicit", 2); p.nv = 3; p.readOrder = {2, 0, 2}; p.writeOrder = {0, 2, 1}; R.prep(p); }
SYM_SCENARIO_PREP(parallel_vertex_subset, c2) { R.finish(); }
// one of the participants maps both data between its own mesh and the one of its partner
static couple::Plan mapped(const char *scheme, double T, int by) { auto p = base(scheme, T); p.mapBy = by; p.nv = 2; return p; }
static void d1() { auto p = mapped("serial-explicit", 2.5, 0); p.steps[0] = p.steps[1] = 2; R.prep(p); }
SYM_SCENARIO_PREP(serial_mapped_by_first, d1) { R.finish(); }
static void d2() { auto p = mapped("serial-explicit", 3, 1); p.steps[0] = 2; p.partial = true; p.conserve = true; p.kind = "vector"; R.prep(p); }
SYM_SCENARIO_PREP(serial_mapped_by_second, d2) { R.finish(); }
static void d3() { auto p = mapped("parallel-explicit", 2.5, 1); p.steps[1] = 3; p.substeps[0] = false; p.conserve = true; R.prep(p); }
SYM_SCENARIO_PREP(parallel_mapped, d3) { R.finish(); }
// many windows and steps
static void e1() { auto p = base("serial-explicit", 5.25); p.steps[0] = 4; p.steps[1] = 3; p.symWindow = 4; R.prep(p); }
SYM_SCENARIO_PREP(serial_many_windows, e1) { R.finish(); }
static void e2() { auto p = base("parallel-explicit", 5.25); p.steps[0] = 5; p.steps[1] = 2; p.symWindow = 5; p.substeps[0] = false; R.prep(p); }
SYM_SCENARIO_PREP(parallel_many_windows, e2) { R.finish(); }
