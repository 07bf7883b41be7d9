// C06: several coupling schemes per participant, and fully implicit coupling of more than two participants.
#include "net.hpp"
using namespace net;
static Run R;
enum { A,
       B,
       C,
       D };
static Link both(int a, int b) { return Link{a, b}; }
static Link one(int a, int b, bool sub = true)
{
  Link l{a, b};
  l.ba  = false;
  l.sub = sub;
  return l;
}
static void m1() { Plan p; p.schemes = {{"multi", {B, A, C}, {both(A, B), both(B, C)}, 1, 3, 01}}; p.steps = {2, 1, 1}; R.prep(p); }
SYM_SCENARIO_PREP(multi_chain_controller_in_the_middle, m1) { R.finish(); }
static void m2() { Plan p; p.schemes = {{"multi", {A, B, C}, {both(A, B), both(A, C), one(B, C)}, 1, 2, 02}}; p.T = 1.5; p.steps = {1, 2, 1}; R.prep(p); }
SYM_SCENARIO_PREP(multi_triangle_truncated, m2) { R.finish(); }
static void m3() { Plan p; p.n = 4; p.schemes = {{"multi", {D, A, B, C}, {both(A, D), both(B, D), both(C, D)}, 1, 2}}; p.T = 2; R.prep(p); }
SYM_SCENARIO_PREP(multi_star_of_four, m3) { R.finish(); }
static void e1() { Plan p; p.schemes = {{"serial-explicit", {A, B}, {both(A, B)}}, {"serial-explicit", {B, C}, {both(B, C)}}}; p.steps = {2, 1, 1}; R.prep(p); }
SYM_SCENARIO_PREP(explicit_serial_chain, e1) { R.finish(); }
static void e2() { Plan p; p.schemes = {{"serial-explicit", {A, B}, {both(A, B)}}, {"parallel-explicit", {C, B}, {both(B, C)}}}; p.steps = {1, 2, 1}; p.T = 2.5; R.prep(p); }
SYM_SCENARIO_PREP(explicit_mixed, e2) { R.finish(); }
static void e3() { Plan p; p.schemes = {{"parallel-explicit", {A, B}, {both(A, B)}}, {"parallel-explicit", {B, C}, {both(B, C)}}, {"serial-explicit", {A, C}, {both(A, C)}}}; R.prep(p); }
SYM_SCENARIO_PREP(explicit_triangle, e3) { R.finish(); }
static void i1() { Plan p; p.schemes = {{"serial-implicit", {A, B}, {both(A, B)}, 1, 3, 10}, {"serial-explicit", {B, C}, {both(B, C)}}}; R.prep(p); }
SYM_SCENARIO_PREP(implicit_then_explicit, i1) { R.finish(); }
static void i2() { Plan p; p.schemes = {{"parallel-implicit", {A, B}, {both(A, B)}, 1, 3, 10}, {"serial-explicit", {C, B}, {both(B, C)}}}; p.steps = {1, 2, 2}; p.T = 1.5; R.prep(p); }
SYM_SCENARIO_PREP(explicit_first_then_implicit, i2) { R.finish(); }
static void i3() { Plan p; p.schemes = {{"serial-implicit", {A, B}, {both(A, B)}, 1, 2, 10}, {"parallel-explicit", {A, C}, {both(A, C)}}}; p.steps = {2, 1, 1}; R.prep(p); }
SYM_SCENARIO_PREP(implicit_with_parallel_explicit, i3) { R.finish(); }
static void i4() { Plan p; p.n = 4; p.schemes = {{"serial-explicit", {C, A}, {both(A, C)}}, {"serial-implicit", {A, B}, {both(A, B)}, 1, 2, 10}, {"serial-explicit", {B, D}, {one(B, D, false)}}}; p.steps = {1, 2, 2, 2}; R.prep(p); }
SYM_SCENARIO_PREP(implicit_between_explicit, i4) { R.finish(); }
static void i5() { Plan p; p.n = 4; p.schemes = {{"serial-implicit", {A, B}, {both(A, B)}, 1, 2}, {"parallel-explicit", {B, C}, {both(B, C)}}, {"parallel-implicit", {C, D}, {both(C, D)}, 1, 3, 23}}; R.prep(p); }
SYM_SCENARIO_PREP(two_implicit_pairs_coupled_explicitly, i5) { R.finish(); }
static void w1() { Plan p; p.schemes = {{"serial-explicit", {A, B}, {both(A, B)}, 1}, {"serial-explicit", {B, C}, {both(B, C)}, 2}}; p.T = 4; R.prep(p); }
SYM_SCENARIO_PREP(explicit_different_windows, w1) { R.finish(); }
static void w2() { Plan p; p.schemes = {{"parallel-implicit", {A, B}, {both(A, B)}, 1, 2, 10}, {"serial-explicit", {B, C}, {both(B, C)}, 2}}; p.T = 4; R.prep(p); }
SYM_SCENARIO_PREP(implicit_with_longer_explicit_windows, w2) { R.finish(); }
// initial data in several schemes at once
static Link init(Link l) { l.init = true; return l; }
static void n1() { Plan p; p.schemes = {{"serial-explicit", {B, A}, {init(both(A, B))}}, {"serial-explicit", {C, A}, {init(both(A, C))}}, {"parallel-explicit", {C, B}, {init(one(B, C))}}}; p.T = 1.5; p.readWindow = 0; R.prep(p); }
SYM_SCENARIO_PREP(explicit_initial_data, n1) { R.finish(); }
static void n2() { Plan p; p.schemes = {{"multi", {B, A, C}, {init(both(A, B)), init(both(B, C))}, 1, 2, 10}}; p.steps = {2, 1, 1}; p.readWindow = 0; R.prep(p); }
SYM_SCENARIO_PREP(multi_initial_data, n2) { R.finish(); }
static void n3() { Plan p; p.schemes = {{"multi", {C, A, B}, {init(both(A, C)), both(B, C)}, 1, 3, 21}}; p.T = 1; p.readWindow = 0; R.prep(p); }
SYM_SCENARIO_PREP(multi_initial_data_of_one, n3) { R.finish(); }
static void n4() { Plan p; p.schemes = {{"serial-implicit", {B, A}, {init(both(A, B))}, 1, 3, 01}, {"serial-explicit", {C, A}, {init(both(A, C))}}}; p.readWindow = 0; R.prep(p); }
SYM_SCENARIO_PREP(implicit_and_explicit_initial_data, n4) { R.finish(); }
static void n5() { Plan p; p.schemes = {{"multi", {A, B, C}, {init(both(A, B)), init(both(C, A))}, 1, 2}}; p.T = 3; p.readWindow = 2; R.prep(p); }
SYM_SCENARIO_PREP(multi_initial_data_both_directions, n5) { R.finish(); }
