// C38: quasi-Newton updates respect the bounds of the data.
#include "qn.hpp"
static qn::Run R;
static int     SEED;
// the solvers' own values stay within the bounds
static void go(const char *kind, std::vector<qn::Data> data, int nv, int iters, int steps = 1, int windows = 1, bool full = false, const char *scheme = "serial-implicit")
{
  qn::Plan p;
  p.data    = data;
  p.nv      = nv;
  p.iters   = iters;
  p.windows = windows;
  p.steps   = steps;
  p.full    = full;
  p.scheme  = scheme;
  p.filter  = "QR1-absolute";
  p.limit   = 1e-9;
  p.bounds  = kind;
  SEED      = sym::choice("seed", 2);
  bool scale = std::string(kind) == "scale";
  p.value   = [data, scale, iters](int d, int k, int it, int s, int e) {
    auto   &D = data[d];
    size_t  c = e % D.comps;
    double  a = c < D.lo.size() && !std::isnan(D.lo[c]) ? D.lo[c] : -10, b = c < D.hi.size() && !std::isnan(D.hi[c]) ? D.hi[c] : 10;
    double  t = qn::table(SEED, d, k, it, s, e); // in [-4, 4]
    if (D.primary)
      return std::max(a, std::min(b, t));
    // a scaled step makes everything after it nonlinear: only the values of the last accelerated iteration are free
    if (scale && it != iters - 2)
      return std::max(a, std::min(b, t));
    return sym::real("s", a, b);
  };
  if (scale)
    p.stopAt = iters - 1;
  R.p = p;
  R.run();
}
static const double none = NAN;
typedef qn::Data D;
static std::vector<D> scalarBoth() { return {{1, 2}, {1, 1, false, 0, {-1}, {1}}}; }
static std::vector<D> vectorMixed() { return {{1, 1}, {1, 2, false, 0, {none, -0.5}, {2, none}}}; }
static std::vector<D> primaryBound() { return {{1, 2, true, 0, {-3, none}, {none, 3}}, {1, 1, false}}; }
static std::vector<D> twoBound() { return {{1, 2}, {1, 1, false, 0, {-1}, {}}, {1, 1, false, 0, {}, {1}}}; }
SYM_SCENARIO(clamp_scalar) { go("clamp", scalarBoth(), 1, 4); }
SYM_SCENARIO(clamp_vector) { go("clamp", vectorMixed(), 2, 4); }
SYM_SCENARIO(clamp_primary) { go("clamp", primaryBound(), 2, 4); }
SYM_SCENARIO(clamp_two) { go("clamp", twoBound(), 1, 4); }
SYM_SCENARIO(clamp_substeps) { go("clamp", scalarBoth(), 1, 4, 2); }
SYM_SCENARIO(clamp_substeps_two) { go("clamp", twoBound(), 1, 4, 2); }
SYM_SCENARIO(clamp_windows) { go("clamp", scalarBoth(), 1, 3, 1, 2); }
SYM_SCENARIO(clamp_parallel) { go("clamp", {{0, 2}, {0, 1, false, 0, {-1}, {}}, {1, 1, false, 0, {}, {1}}}, 1, 3, 1, 1, false, "parallel-implicit"); }
SYM_SCENARIO(discard_scalar) { go("discard", scalarBoth(), 1, 4); }
SYM_SCENARIO(discard_vector) { go("discard", vectorMixed(), 2, 4); }
SYM_SCENARIO(discard_substeps) { go("discard", scalarBoth(), 1, 4, 2); }
SYM_SCENARIO(discard_substeps_two) { go("discard", twoBound(), 1, 4, 2); }
SYM_SCENARIO(scale_scalar) { go("scale", scalarBoth(), 1, 4); }
SYM_SCENARIO(scale_vector) { go("scale", vectorMixed(), 2, 4); }
SYM_SCENARIO(scale_primary) { go("scale", primaryBound(), 2, 4); }
SYM_SCENARIO(scale_two) { go("scale", twoBound(), 1, 4); }
SYM_SCENARIO(scale_substeps) { go("scale", scalarBoth(), 1, 4, 2); }
SYM_SCENARIO(scale_substeps_two) { go("scale", twoBound(), 1, 4, 2); }
SYM_SCENARIO(scale_windows) { go("scale", scalarBoth(), 1, 3, 1, 2); }
SYM_SCENARIO(ignore_scalar) { go("ignore", scalarBoth(), 1, 4); }
SYM_SCENARIO(clamp_substeps_full) { go("clamp", twoBound(), 1, 4, 2, 1, true); }
