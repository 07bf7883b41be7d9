// Interface between harnesses and the symbolic runtime.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
// Fresh symbolic inputs.  Within a replay they return the recorded concrete values.
double   __sym_input_f(const char *name, double lo, double hi, int integral);
uint64_t __sym_input_i(const char *name, int width, int64_t lo, int64_t hi);
int      __sym_choice(const char *name, int n);        // forks into n concrete values
int      __sym_choice_if_symbolic(const char *name, int n);
void     __sym_assume(bool c);
void     __sym_check(bool c, const char *label);       // proof obligation: c for every value on this path
void     __sym_check_close(double a, double b, double tol, const char *label); // |a-b| <= tol
void     __sym_cover(const char *label);               // vacuity witness
void     __sym_fail(const char *label);                // reached = violated
void     __sym_note(const char *text);                 // free text attached to the path
bool     __sym_is_symbolic_f(double x);
int      __sym_replaying();
void     __sym_end_path();                             // stop this path quietly (outside the claim)
void     __sym_register(const char *name, void (*fn)(), int mode, void (*prepare)());
uint64_t __sym_seed();
int      __sym_thorough();
void     __sym_split(bool on);
}

namespace sym {
inline double real(const char *n, double lo, double hi) { return __sym_input_f(n, lo, hi, 0); }
inline double integral(const char *n, double lo, double hi) { return __sym_input_f(n, lo, hi, 1); }
inline int    integer(const char *n, int lo, int hi) { return (int) (int64_t) (int32_t) __sym_input_i(n, 32, lo, hi); }
inline int64_t integer64(const char *n, int64_t lo, int64_t hi) { return (int64_t) __sym_input_i(n, 64, lo, hi); }
inline unsigned char byte(const char *n, int lo, int hi) { return (unsigned char) __sym_input_i(n, 8, lo, hi); }
inline bool   boolean(const char *n) { return __sym_input_i(n, 8, 0, 1) != 0; }
inline int    choice(const char *n, int k) { return __sym_choice(n, k); }
inline void   assume(bool c) { __sym_assume(c); }
inline void   check(bool c, const char *l) { __sym_check(c, l); }
inline void   close(double a, double b, double tol, const char *l) { __sym_check_close(a, b, tol, l); }
inline void   cover(const char *l) { __sym_cover(l); }
// fork at floating-point selections (absolute values, minima, conditional moves) from here on
inline void   split(bool on = true) { __sym_split(on); }
inline void   fail(const char *l) { __sym_fail(l); }
inline bool   thorough() { return __sym_thorough() != 0; }

struct Scenario {
  Scenario(const char *name, void (*fn)(), int mode, void (*prep)() = nullptr) { __sym_register(name, fn, mode, prep); }
};
} // namespace sym

// mode 0: doubles are exact reals, mode 1: doubles are IEEE-754 binary64
#define SYM_SCENARIO(name) \
  static void          scenario_##name(); \
  static sym::Scenario reg_##name(#name, &scenario_##name, 0); \
  static void          scenario_##name()
// the same with a preparation that runs once, concretely, before the exploration forks
#define SYM_SCENARIO_PREP(name, prep) \
  static void          scenario_##name(); \
  static sym::Scenario reg_##name(#name, &scenario_##name, 0, prep); \
  static void          scenario_##name()
#define SYM_SCENARIO_IEEE(name) \
  static void          scenario_##name(); \
  static sym::Scenario reg_##name(#name, &scenario_##name, 1); \
  static void          scenario_##name()
