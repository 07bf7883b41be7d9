// Symbolic runtime: expression DAG, shadow memory, path exploration, Z3 back end.
// A path is one execution of the scenario function in a forked child.  Along the path every
// conditional whose outcome depends on symbolic inputs is decided by the path's model, the opposite
// outcome is put to the solver, and if satisfiable becomes a new work item (decision prefix + model).
// Exploration of a scenario is complete when the work list is empty: the explored path conditions then
// partition the input space given by the scenario's input declarations and assumptions.
#include "sym.h"
#include <execinfo.h>
#include <cxxabi.h>
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <gmpxx.h>
#include <map>
#include <poll.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>
// own copies of what libstdc++ would otherwise provide and instrumented objects might define (see build.py)
template class std::__cxx11::basic_string<char>;

typedef uint64_t u64;
typedef int64_t  i64;

// ------------------------------------------------------------------ deterministic arena
static int g_inRuntime = 0;
struct RT {
  RT() { ++g_inRuntime; }
  ~RT() { --g_inRuntime; }
};
static char       *arenaBase = nullptr, *arenaTop = nullptr;
static const u64   ARENA = 0x600000000000ull, ARENA_SIZE = 16ull << 30;
static const int   NCLS = 160;
static void       *freeList[NCLS];
extern "C" void    __sym_clear(void *a, u64 n);
static int         clsOf(u64 n)
{
  if (n <= 1024)
    return (int) ((n + 15) / 16);
  int k = 64;
  u64 s = 1024;
  while (s < n) {
    s += s / 4;
    ++k;
  }
  return k;
}
static u64 clsSize(int c)
{
  if (c <= 64)
    return 16ull * (c ? c : 1);
  u64 s = 1024;
  for (int k = 64; k < c; ++k)
    s += s / 4;
  return (s + 15) & ~15ull;
}
static inline bool inArena(void *p) { return (u64) p >= ARENA && (u64) p < ARENA + ARENA_SIZE; }
static void       *arenaAlloc(u64 n)
{
  if (!arenaBase) {
    arenaBase = (char *) mmap((void *) ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (arenaBase != (char *) ARENA) {
      fprintf(stderr, "arena mmap failed\n");
      _exit(99);
    }
    arenaTop = arenaBase;
  }
  if (n > (1ull << 32))
    return nullptr;
  int   c = clsOf(n ? n : 1);
  void *p;
  if (freeList[c]) {
    p           = freeList[c];
    freeList[c] = *(void **) p;
  } else {
    u64 s = clsSize(c);
    if (arenaTop + s + 16 > arenaBase + ARENA_SIZE)
      return nullptr;
    *(u64 *) arenaTop = (u64) c;
    ((u64 *) arenaTop)[1] = 0;
    p = arenaTop + 16;
    arenaTop += s + 16;
  }
  ((u64 *) p)[-1] = n;
  __sym_clear(p, clsSize(c));
  return p;
}
static void arenaFree(void *p)
{
  int c       = (int) ((u64 *) p)[-2];
  __sym_clear(p, clsSize(c));
  // poison freed memory so that use-after-free shows up
  memset(p, 0xDD, std::min<u64>(clsSize(c), 256));
  *(void **) p = freeList[c];
  freeList[c]  = p;
}
static u64 arenaUsable(void *p) { return ((u64 *) p)[-1]; }

extern "C" {
void *__sym_malloc(u64 n) { return g_inRuntime ? malloc(n) : arenaAlloc(n); }
void  __sym_free(void *p)
{
  if (!p)
    return;
  if (inArena(p))
    arenaFree(p);
  else
    free(p);
}
void *__sym_calloc(u64 a, u64 b)
{
  void *p = __sym_malloc(a * b);
  if (p)
    memset(p, 0, a * b);
  return p;
}
void  __sym_memcpy_shadow(void *d, void *s, u64 n);
void *__sym_realloc(void *p, u64 n)
{
  if (!p)
    return __sym_malloc(n);
  if (!inArena(p))
    return realloc(p, n);
  void *q = __sym_malloc(n);
  if (!q)
    return nullptr;
  u64 m = std::min(arenaUsable(p), n);
  memcpy(q, p, m);
  __sym_memcpy_shadow(q, p, m);
  arenaFree(p);
  return q;
}
void *__sym_aligned_alloc(u64 a, u64 n)
{
  void *p = nullptr;
  if (a <= 16)
    return __sym_malloc(n);
  if (posix_memalign(&p, a, n))
    return nullptr;
  __sym_clear(p, n);
  return p;
}
int __sym_posix_memalign(void **o, u64 a, u64 n)
{
  *o = __sym_aligned_alloc(a, n);
  return *o ? 0 : ENOMEM;
}
}
static void *newImpl(u64 n)
{
  void *p = g_inRuntime ? malloc(n ? n : 1) : arenaAlloc(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return newImpl(n); }
void *operator new[](size_t n) { return newImpl(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return g_inRuntime ? malloc(n ? n : 1) : arenaAlloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return g_inRuntime ? malloc(n ? n : 1) : arenaAlloc(n); }
void *operator new(size_t n, std::align_val_t a) { return __sym_aligned_alloc((u64) a, n); }
void *operator new[](size_t n, std::align_val_t a) { return __sym_aligned_alloc((u64) a, n); }
void  operator delete(void *p) noexcept { __sym_free(p); }
void  operator delete[](void *p) noexcept { __sym_free(p); }
void  operator delete(void *p, size_t) noexcept { __sym_free(p); }
void  operator delete[](void *p, size_t) noexcept { __sym_free(p); }
void  operator delete(void *p, std::align_val_t) noexcept { __sym_free(p); }
void  operator delete[](void *p, std::align_val_t) noexcept { __sym_free(p); }
void  operator delete(void *p, size_t, std::align_val_t) noexcept { __sym_free(p); }
void  operator delete[](void *p, size_t, std::align_val_t) noexcept { __sym_free(p); }

// ------------------------------------------------------------------ expressions
enum Sort : uint8_t { SBool,
                      SBV,
                      SF };
enum Op : uint16_t {
  O_CONST,
  O_INPUT,
  // bool
  O_NOT,
  O_BAND,
  O_BOR,
  O_BXOR,
  // bv
  O_ADD,
  O_SUB,
  O_MUL,
  O_UDIV,
  O_SDIV,
  O_UREM,
  O_SREM,
  O_SHL,
  O_LSHR,
  O_ASHR,
  O_AND,
  O_OR,
  O_XOR,
  O_EXTRACT,
  O_CONCAT,
  O_ZEXT,
  O_SEXT,
  O_B2BV,
  O_ITE,
  // cmp
  O_EQ,
  O_ULT,
  O_ULE,
  O_SLT,
  O_SLE,
  // f
  O_FADD,
  O_FSUB,
  O_FMUL,
  O_FDIV,
  O_FREM,
  O_FNEG,
  O_FABS,
  O_FSQRT,
  O_FFLOOR,
  O_FTRUNC,
  O_FRNE,
  O_FEQ,
  O_FLT,
  O_FLE,
  O_FISNAN,
  O_FISINF,
  O_F2BITS,
  O_BITS2F,
  O_SI2F,
  O_UI2F,
  O_F2SI,
  O_UF1,
  O_UF2,
};

struct Expr {
  Op       op;
  Sort     sort;
  bool     approx;  // exact value could not be computed exactly
  bool     bitexact; // SF: proven equal to the IEEE value
  bool     isint;
  uint16_t width;
  uint32_t id;
  Expr    *a, *b, *c;
  u64      k;  // constant / parameter
  u64      v;  // value under the model (bool, bv, ieee bits)
  mpq_class *q; // value under the model (real mode)
  double   lo, hi;
  std::string *name;
  Z3_ast   z;
};

static int   g_mode = 0; // 0 real, 1 ieee
static bool  g_sym  = false; // symbolic execution active (inside a path)
static bool  g_replay = false;
static u64   MASK(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static i64   SX(u64 v, int w) { return w >= 64 ? (i64) v : (i64) (v << (64 - w)) >> (64 - w); }
static double bits2d(u64 v)
{
  double d;
  memcpy(&d, &v, 8);
  return d;
}
static u64 d2bits(double d)
{
  u64 v;
  memcpy(&v, &d, 8);
  return v;
}

struct Stats {
  u64    branches = 0, implied = 0, qsat = 0, qunsat = 0, qunknown = 0, checks = 0, checksConcrete = 0, discharged = 0, checkUnknown = 0;
  u64    fops = 0, fopsExact = 0, opchecks = 0, opmismatch = 0, diverge = 0, concs = 0, exprs = 0, unknownBranches = 0, boundary = 0;
  double solver = 0;
  double maxq   = 0;
} st;

struct KeyHash {
  size_t operator()(const Expr *e) const
  {
    size_t h = e->op * 1000003u + e->sort * 7 + e->width * 131;
    h        = h * 1000003u ^ (size_t) e->a;
    h        = h * 1000003u ^ (size_t) e->b;
    h        = h * 1000003u ^ (size_t) e->c;
    h        = h * 1000003u ^ (size_t) e->k;
    return h ^ (h >> 29);
  }
};
struct KeyEq {
  bool operator()(const Expr *x, const Expr *y) const
  {
    return x->op == y->op && x->sort == y->sort && x->width == y->width && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k && x->name == y->name;
  }
};
static std::unordered_set<Expr *, KeyHash, KeyEq> *g_tab;
static uint32_t                                     g_nid = 1;

static inline bool isC(const Expr *e) { return e->op == O_CONST; }
static void        evalExpr(Expr *e);

static Expr *intern(Op op, Sort s, int w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u64 k = 0)
{
  Expr t;
  memset((void *) &t, 0, sizeof t);
  t.op = op;
  t.sort = s;
  t.width = (uint16_t) w;
  t.a = a;
  t.b = b;
  t.c = c;
  t.k = k;
  auto it = g_tab->find(&t);
  if (it != g_tab->end())
    return *it;
  Expr *e = new Expr(t);
  e->id   = g_nid++;
  st.exprs++;
  evalExpr(e);
  g_tab->insert(e);
  return e;
}

static mpq_class dToQ(double d) { return mpq_class(d); }
static double    qToD(const mpq_class &q) { return q.get_d(); }

static Expr *cBV(u64 v, int w) { return intern(O_CONST, SBV, w, nullptr, nullptr, nullptr, v & MASK(w)); }
static Expr *cBool(bool b) { return intern(O_CONST, SBool, 1, nullptr, nullptr, nullptr, b); }
static Expr *cF(double d) { return intern(O_CONST, SF, 64, nullptr, nullptr, nullptr, d2bits(d)); }

static double dval(const Expr *e) { return g_mode == 1 ? bits2d(e->v) : qToD(*e->q); }

static void setQ(Expr *e, mpq_class q)
{
  if (mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2) > 20000) {
    q         = mpq_class(q.get_d());
    e->approx = true;
  }
  e->q = new mpq_class(std::move(q));
}

static mpq_class qfloor(const mpq_class &q)
{
  mpz_class z;
  mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return mpq_class(z);
}
static mpq_class qtrunc(const mpq_class &q)
{
  mpz_class z;
  mpz_tdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return mpq_class(z);
}
static double uf1(int code, double x)
{
  switch (code) {
  case 8: return exp(x);
  case 9: return log(x);
  case 10: return sin(x);
  case 11: return cos(x);
  case 12: return acos(x);
  case 13: return asin(x);
  case 14: return atan(x);
  case 15: return tan(x);
  case 16: return cbrt(x);
  case 17: return log10(x);
  case 18: return exp2(x);
  case 19: return log2(x);
  case 20: return tanh(x);
  }
  return x;
}
static double uf2(int code, double x, double y)
{
  switch (code) {
  case 103: return pow(x, y);
  case 105: return hypot(x, y);
  case 106: return atan2(x, y);
  }
  return x;
}

// value of e under the path's model; also interval / exactness bookkeeping
static void evalExpr(Expr *e)
{
  Expr *a = e->a, *b = e->b, *c = e->c;
  int   w = e->width;
  e->approx = (a && a->approx) || (b && b->approx) || (c && c->approx);
  switch (e->op) {
  case O_CONST:
    e->v = e->k;
    if (e->sort == SF) {
      double d = bits2d(e->k);
      e->lo = e->hi = d;
      e->bitexact   = true;
      e->isint      = std::floor(d) == d && std::fabs(d) <= 9e15;
      if (g_mode == 0)
        e->q = new mpq_class(std::isfinite(d) ? dToQ(d) : mpq_class(0));
    }
    return;
  case O_INPUT: return; // set by creator
  case O_NOT: e->v = !a->v; return;
  case O_BAND: e->v = a->v & b->v; return;
  case O_BOR: e->v = a->v | b->v; return;
  case O_BXOR: e->v = a->v ^ b->v; return;
  case O_ADD: e->v = (a->v + b->v) & MASK(w); return;
  case O_SUB: e->v = (a->v - b->v) & MASK(w); return;
  case O_MUL: e->v = (a->v * b->v) & MASK(w); return;
  case O_UDIV: e->v = b->v ? a->v / b->v : MASK(w); return;
  case O_UREM: e->v = b->v ? a->v % b->v : a->v; return;
  case O_SDIV: {
    i64 x = SX(a->v, w), y = SX(b->v, w);
    e->v = (y == 0 ? (x < 0 ? 1 : -1) : (y == -1 ? (u64) -x : (u64) (x / y))) & MASK(w);
    return;
  }
  case O_SREM: {
    i64 x = SX(a->v, w), y = SX(b->v, w);
    e->v = (y == 0 ? (u64) x : (y == -1 ? 0 : (u64) (x % y))) & MASK(w);
    return;
  }
  case O_SHL: e->v = b->v >= (u64) w ? 0 : (a->v << b->v) & MASK(w); return;
  case O_LSHR: e->v = b->v >= (u64) w ? 0 : (a->v >> b->v); return;
  case O_ASHR: e->v = (u64) (SX(a->v, w) >> std::min<u64>(b->v, 63)) & MASK(w); return;
  case O_AND: e->v = a->v & b->v; return;
  case O_OR: e->v = a->v | b->v; return;
  case O_XOR: e->v = a->v ^ b->v; return;
  case O_EXTRACT: e->v = (a->v >> e->k) & MASK(w); return;
  case O_CONCAT: e->v = ((a->v << b->width) | b->v) & MASK(w); return;
  case O_ZEXT: e->v = a->v; return;
  case O_SEXT: e->v = (u64) SX(a->v, a->width) & MASK(w); return;
  case O_B2BV: e->v = a->v; return;
  case O_ITE: {
    Expr *s = a->v ? b : c;
    e->v    = s->v;
    if (e->sort == SF) {
      if (g_mode == 0)
        e->q = s->q;
      e->bitexact = b->bitexact && c->bitexact;
      e->isint    = b->isint && c->isint;
      e->lo       = std::min(b->lo, c->lo);
      e->hi       = std::max(b->hi, c->hi);
    }
    return;
  }
  case O_EQ: e->v = a->v == b->v; return;
  case O_ULT: e->v = a->v < b->v; return;
  case O_ULE: e->v = a->v <= b->v; return;
  case O_SLT: e->v = SX(a->v, a->width) < SX(b->v, b->width); return;
  case O_SLE: e->v = SX(a->v, a->width) <= SX(b->v, b->width); return;
  case O_FEQ: e->v = g_mode ? bits2d(a->v) == bits2d(b->v) : *a->q == *b->q; return;
  case O_FLT: e->v = g_mode ? bits2d(a->v) < bits2d(b->v) : *a->q < *b->q; return;
  case O_FLE: e->v = g_mode ? bits2d(a->v) <= bits2d(b->v) : *a->q <= *b->q; return;
  case O_FISNAN: e->v = g_mode ? std::isnan(bits2d(a->v)) : false; return;
  case O_FISINF: e->v = g_mode ? std::isinf(bits2d(a->v)) : false; return;
  case O_F2BITS: e->v = g_mode ? a->v : d2bits(qToD(*a->q)); return;
  case O_BITS2F:
    e->lo = -INFINITY;
    e->hi = INFINITY;
    e->v  = a->v;
    if (g_mode == 0) {
      e->q      = new mpq_class(std::isfinite(bits2d(a->v)) ? dToQ(bits2d(a->v)) : mpq_class(0));
      e->approx = true;
    }
    return;
  case O_SI2F:
  case O_UI2F: {
    double d = e->op == O_SI2F ? (double) SX(a->v, a->width) : (double) a->v;
    e->v     = d2bits(d);
    if (g_mode == 0)
      e->q = new mpq_class(d);
    e->isint = e->bitexact = true;
    double m               = std::ldexp(1.0, a->width);
    e->lo                  = -m;
    e->hi                  = m;
    return;
  }
  case O_F2SI: {
    double d = g_mode ? bits2d(a->v) : qToD(qtrunc(*a->q));
    e->v     = (u64) (i64) d & MASK(w);
    return;
  }
  default: break;
  }
  // arithmetic on floats
  double lo = -INFINITY, hi = INFINITY;
  auto   D = [](Expr *x) { return bits2d(x->v); };
  bool   ex = false, in = false;
  switch (e->op) {
  case O_FADD:
    lo = a->lo + b->lo, hi = a->hi + b->hi;
    in = a->isint && b->isint;
    if (g_mode)
      e->v = d2bits(D(a) + D(b));
    else
      setQ(e, *a->q + *b->q);
    break;
  case O_FSUB:
    lo = a->lo - b->hi, hi = a->hi - b->lo;
    in = a->isint && b->isint;
    if (g_mode)
      e->v = d2bits(D(a) - D(b));
    else
      setQ(e, *a->q - *b->q);
    break;
  case O_FMUL: {
    double p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi};
    lo          = *std::min_element(p, p + 4);
    hi          = *std::max_element(p, p + 4);
    if (std::isnan(p[0]) || std::isnan(p[1]) || std::isnan(p[2]) || std::isnan(p[3]))
      lo = -INFINITY, hi = INFINITY;
    if (a == b)
      lo = std::max(lo, 0.0);
    in = a->isint && b->isint;
    if (g_mode)
      e->v = d2bits(D(a) * D(b));
    else
      setQ(e, *a->q * *b->q);
    break;
  }
  case O_FDIV:
    if (g_mode)
      e->v = d2bits(D(a) / D(b));
    else if (*b->q == 0) {
      setQ(e, mpq_class(0));
      e->approx = true;
    } else
      setQ(e, *a->q / *b->q);
    break;
  case O_FREM:
    if (g_mode)
      e->v = d2bits(fmod(D(a), D(b)));
    else if (*b->q == 0)
      setQ(e, mpq_class(0));
    else
      setQ(e, *a->q - qtrunc(*a->q / *b->q) * *b->q);
    break;
  case O_FNEG:
    lo = -a->hi, hi = -a->lo, in = a->isint, ex = a->bitexact;
    if (g_mode)
      e->v = d2bits(-D(a));
    else
      setQ(e, -*a->q);
    break;
  case O_FABS:
    lo = 0, hi = std::max(std::fabs(a->lo), std::fabs(a->hi)), in = a->isint, ex = a->bitexact;
    if (g_mode)
      e->v = d2bits(std::fabs(D(a)));
    else
      setQ(e, abs(*a->q));
    break;
  case O_FSQRT:
    lo = 0;
    hi = std::sqrt(std::max(0.0, a->hi));
    if (g_mode)
      e->v = d2bits(std::sqrt(D(a)));
    else {
      if (*a->q >= 0 && mpz_perfect_square_p(a->q->get_num_mpz_t()) && mpz_perfect_square_p(a->q->get_den_mpz_t())) {
        mpz_class n = sqrt(a->q->get_num()), d = sqrt(a->q->get_den());
        mpq_class r(n, d);
        r.canonicalize();
        setQ(e, r);
      } else {
        double dd = std::sqrt(std::max(0.0, a->q->get_d()));
        setQ(e, std::isfinite(dd) ? mpq_class(dd) : mpq_class(0));
        e->approx = true;
      }
    }
    break;
  case O_FFLOOR:
    lo = std::floor(a->lo), hi = std::floor(a->hi), in = true, ex = a->bitexact;
    if (g_mode)
      e->v = d2bits(std::floor(D(a)));
    else
      setQ(e, qfloor(*a->q));
    break;
  case O_FTRUNC:
    lo = std::trunc(a->lo), hi = std::trunc(a->hi), in = true, ex = a->bitexact;
    if (g_mode)
      e->v = d2bits(std::trunc(D(a)));
    else
      setQ(e, qtrunc(*a->q));
    break;
  case O_FRNE:
    lo = std::floor(a->lo), hi = std::ceil(a->hi), in = true, ex = a->bitexact;
    if (g_mode)
      e->v = d2bits(std::nearbyint(D(a)));
    else {
      mpq_class f = qfloor(*a->q), d = *a->q - f;
      if (d > mpq_class(1, 2) || (d == mpq_class(1, 2) && mpz_odd_p(f.get_num_mpz_t())))
        f += 1;
      setQ(e, f);
    }
    break;
  case O_UF1: {
    double d = uf1((int) e->k, dval(a));
    e->v     = d2bits(d);
    if (!g_mode)
      setQ(e, std::isfinite(d) ? mpq_class(d) : mpq_class(0));
    e->approx = true;
    break;
  }
  case O_UF2: {
    double d = uf2((int) e->k, dval(a), dval(b));
    e->v     = d2bits(d);
    if (!g_mode)
      setQ(e, std::isfinite(d) ? mpq_class(d) : mpq_class(0));
    e->approx = true;
    break;
  }
  default:
    fprintf(stderr, "eval: bad op %d\n", e->op);
    _exit(98);
  }
  if (std::isnan(lo) || std::isnan(hi))
    lo = -INFINITY, hi = INFINITY;
  e->lo    = lo;
  e->hi    = hi;
  e->isint = in;
  if (e->op == O_FADD || e->op == O_FSUB || e->op == O_FMUL) {
    st.fops++;
    ex = a->bitexact && b->bitexact && in && std::max(std::fabs(lo), std::fabs(hi)) <= 9007199254740992.0;
    // x+0, x-0, x*1, x*-1, x*0 are exact for any x
    if (!ex && a->bitexact && b->bitexact) {
      auto tr = [&](Expr *p) { return isC(p) && (bits2d(p->k) == 0 || (e->op == O_FMUL && std::fabs(bits2d(p->k)) == 1)); };
      if (tr(a) || tr(b))
        ex = true;
    }
    if (ex)
      st.fopsExact++;
  } else if (e->op == O_FDIV || e->op == O_FREM || e->op == O_FSQRT || e->op == O_UF1 || e->op == O_UF2) {
    st.fops++;
    // division by a power of two is exact away from underflow
    if (e->op == O_FDIV && a->bitexact && isC(b)) {
      int    ee;
      double m = std::frexp(std::fabs(bits2d(b->k)), &ee);
      if (m == 0.5) {
        ex      = true;
        st.fopsExact++;
      }
    }
  }
  e->bitexact = ex;
}

// ---------------------------------------------------------------- smart constructors
static Expr *mkNot(Expr *a)
{
  if (isC(a))
    return cBool(!a->k);
  if (a->op == O_NOT)
    return a->a;
  return intern(O_NOT, SBool, 1, a);
}
static Expr *mkAnd(Expr *a, Expr *b)
{
  if (isC(a))
    return a->k ? b : a;
  if (isC(b))
    return b->k ? a : b;
  if (a == b)
    return a;
  return intern(O_BAND, SBool, 1, a, b);
}
static Expr *mkOr(Expr *a, Expr *b)
{
  if (isC(a))
    return a->k ? a : b;
  if (isC(b))
    return b->k ? b : a;
  if (a == b)
    return a;
  return intern(O_BOR, SBool, 1, a, b);
}
static Expr *mkXor(Expr *a, Expr *b)
{
  if (isC(a))
    return a->k ? mkNot(b) : b;
  if (isC(b))
    return b->k ? mkNot(a) : a;
  return intern(O_BXOR, SBool, 1, a, b);
}
static Expr *mkIte(Expr *c, Expr *a, Expr *b)
{
  if (isC(c))
    return c->k ? a : b;
  if (a == b)
    return a;
  if (c->op == O_NOT)
    return mkIte(c->a, b, a);
  if (a->sort == SBool) {
    if (isC(a) && isC(b))
      return a->k ? c : mkNot(c);
    if (isC(a))
      return a->k ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b))
      return b->k ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == O_ITE && a->a == c)
    a = a->b;
  if (b->op == O_ITE && b->a == c)
    b = b->c;
  if (a == b)
    return a;
  return intern(O_ITE, a->sort, a->width, c, a, b);
}
static Expr *mkB2BV(Expr *a, int w)
{
  if (isC(a))
    return cBV(a->k, w);
  return intern(O_B2BV, SBV, w, a);
}
static Expr *mkExtract(Expr *a, int lo, int w)
{
  if (lo == 0 && w == a->width)
    return a;
  if (isC(a))
    return cBV(a->k >> lo, w);
  if (a->op == O_EXTRACT)
    return mkExtract(a->a, lo + (int) a->k, w);
  if (a->op == O_CONCAT) {
    int lw = a->b->width;
    if (lo + w <= lw)
      return mkExtract(a->b, lo, w);
    if (lo >= lw)
      return mkExtract(a->a, lo - lw, w);
  }
  if (a->op == O_ZEXT || a->op == O_SEXT) {
    if (lo + w <= a->a->width)
      return mkExtract(a->a, lo, w);
    if (a->op == O_ZEXT && lo >= a->a->width)
      return cBV(0, w);
    if (a->op == O_ZEXT && lo == 0)
      return intern(O_ZEXT, SBV, w, a->a);
  }
  if (a->op == O_B2BV) {
    if (lo > 0)
      return cBV(0, w);
    return mkB2BV(a->a, w);
  }
  if (a->op == O_ITE && isC(a->b) && isC(a->c))
    return mkIte(a->a, cBV(a->b->k >> lo, w), cBV(a->c->k >> lo, w));
  return intern(O_EXTRACT, SBV, w, a, nullptr, nullptr, (u64) lo);
}
static Expr *mkConcat(Expr *hi, Expr *lo)
{
  if (isC(hi) && isC(lo))
    return cBV((hi->k << lo->width) | lo->k, hi->width + lo->width);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->width)
    return mkExtract(hi->a, (int) lo->k, hi->width + lo->width);
  if (isC(hi) && hi->k == 0) {
    if (lo->op == O_B2BV)
      return mkB2BV(lo->a, hi->width + lo->width);
    if (lo->op == O_ZEXT)
      return intern(O_ZEXT, SBV, hi->width + lo->width, lo->a);
    return intern(O_ZEXT, SBV, hi->width + lo->width, lo);
  }
  return intern(O_CONCAT, SBV, hi->width + lo->width, hi, lo);
}
static Expr *mkZext(Expr *a, int w)
{
  if (a->sort == SBool)
    return mkB2BV(a, w);
  if (a->width == w)
    return a;
  if (isC(a))
    return cBV(a->k, w);
  if (a->op == O_ZEXT)
    return intern(O_ZEXT, SBV, w, a->a);
  if (a->op == O_B2BV)
    return mkB2BV(a->a, w);
  return intern(O_ZEXT, SBV, w, a);
}
static Expr *mkSext(Expr *a, int w)
{
  if (a->sort == SBool)
    return mkIte(a, cBV(~0ull, w), cBV(0, w));
  if (a->width == w)
    return a;
  if (isC(a))
    return cBV((u64) SX(a->k, a->width), w);
  if (a->op == O_B2BV && a->width > 1)
    return mkB2BV(a->a, w);
  if (a->op == O_ZEXT)
    return intern(O_ZEXT, SBV, w, a->a);
  return intern(O_SEXT, SBV, w, a);
}
static Expr *mkF2Bits(Expr *a)
{
  if (isC(a))
    return cBV(a->k, 64);
  if (a->op == O_BITS2F)
    return a->a;
  return intern(O_F2BITS, SBV, 64, a);
}
static Expr *mkBits2F(Expr *a)
{
  if (isC(a))
    return cF(bits2d(a->k));
  if (a->op == O_F2BITS)
    return a->a;
  if (a->op == O_ITE)
    return mkIte(a->a, mkBits2F(a->b), mkBits2F(a->c));
  return intern(O_BITS2F, SF, 64, a);
}
static Expr *toBV(Expr *a, int w)
{
  if (a->sort == SBool)
    return mkB2BV(a, w);
  if (a->sort == SF)
    return mkF2Bits(a);
  return a;
}
static Expr *mkBV(Op op, Expr *a, Expr *b)
{
  int  w  = a->width;
  bool ca = isC(a), cb = isC(b);
  if (ca && cb) {
    Expr t;
    memset((void *) &t, 0, sizeof t);
    t.op = op;
    t.sort = SBV;
    t.width = (uint16_t) w;
    t.a = a;
    t.b = b;
    evalExpr(&t);
    return cBV(t.v, w);
  }
  u64 M = MASK(w);
  switch (op) {
  case O_ADD:
    if (ca)
      std::swap(a, b), std::swap(ca, cb);
    if (cb && b->k == 0)
      return a;
    if (cb && a->op == O_ADD && isC(a->b))
      return mkBV(O_ADD, a->a, cBV(a->b->k + b->k, w));
    break;
  case O_SUB:
    if (cb)
      return mkBV(O_ADD, a, cBV(-b->k, w));
    if (a == b)
      return cBV(0, w);
    if (a->op == O_ADD && isC(a->b) && a->a == b)
      return a->b;
    if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b))
      return mkBV(O_ADD, mkBV(O_SUB, a->a, b->a), cBV(a->b->k - b->b->k, w));
    break;
  case O_MUL:
    if (ca)
      std::swap(a, b), std::swap(ca, cb);
    if (cb && b->k == 1)
      return a;
    if (cb && b->k == 0)
      return b;
    break;
  case O_AND:
    if (ca)
      std::swap(a, b), std::swap(ca, cb);
    if (cb && b->k == 0)
      return b;
    if (cb && b->k == M)
      return a;
    if (cb && a->op == O_B2BV)
      return (b->k & 1) ? a : cBV(0, w);
    if (cb && (b->k & (b->k + 1)) == 0) { // low mask
      int n = __builtin_ctzll(~b->k);
      return mkZext(mkExtract(a, 0, n), w);
    }
    if (a == b)
      return a;
    if (a->op == O_B2BV && b->op == O_B2BV)
      return mkB2BV(mkAnd(a->a, b->a), w);
    break;
  case O_OR:
    if (ca)
      std::swap(a, b), std::swap(ca, cb);
    if (cb && b->k == 0)
      return a;
    if (a == b)
      return a;
    if (a->op == O_B2BV && b->op == O_B2BV)
      return mkB2BV(mkOr(a->a, b->a), w);
    break;
  case O_XOR:
    if (ca)
      std::swap(a, b), std::swap(ca, cb);
    if (cb && b->k == 0)
      return a;
    if (cb && b->k == 1 && a->op == O_B2BV)
      return mkB2BV(mkNot(a->a), w);
    break;
  case O_SHL:
  case O_LSHR:
  case O_ASHR:
    if (cb && b->k == 0)
      return a;
    if (cb && op == O_LSHR && b->k < (u64) w)
      return mkZext(mkExtract(a, (int) b->k, w - (int) b->k), w);
    if (cb && op == O_SHL && b->k < (u64) w)
      return mkConcat(mkExtract(a, 0, w - (int) b->k), cBV(0, (int) b->k));
    break;
  default: break;
  }
  return intern(op, SBV, w, a, b);
}
static Expr *mkEq(Expr *a, Expr *b)
{
  if (a == b)
    return cBool(true);
  if (isC(a))
    std::swap(a, b);
  if (a->sort == SBool) {
    return mkNot(mkXor(a, b));
  }
  if (isC(b)) {
    if (isC(a))
      return cBool(a->k == b->k);
    if (a->op == O_B2BV)
      return b->k == 0 ? mkNot(a->a) : b->k == 1 ? a->a : cBool(false);
    if (a->op == O_ADD && isC(a->b))
      return mkEq(a->a, cBV(b->k - a->b->k, a->width));
    if (a->op == O_ZEXT) {
      if (b->k > MASK(a->a->width))
        return cBool(false);
      return mkEq(a->a, cBV(b->k, a->a->width));
    }
    if (a->op == O_SEXT) {
      if ((u64) SX(b->k & MASK(a->a->width), a->a->width) != (u64) SX(b->k, a->width))
        return cBool(false);
      return mkEq(a->a, cBV(b->k, a->a->width));
    }
    if (a->op == O_ITE && isC(a->b) && isC(a->c)) {
      bool x = a->b->k == b->k, y = a->c->k == b->k;
      if (x && y)
        return cBool(true);
      if (!x && !y)
        return cBool(false);
      return x ? a->a : mkNot(a->a);
    }
  }
  if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b))
    return mkEq(a->a, mkBV(O_ADD, b->a, cBV(b->b->k - a->b->k, a->width)));
  return intern(O_EQ, SBool, 1, a, b);
}
static Expr *mkCmp(Op op, Expr *a, Expr *b)
{
  if (isC(a) && isC(b)) {
    Expr t;
    memset((void *) &t, 0, sizeof t);
    t.op = op;
    t.a = a;
    t.b = b;
    t.width = 1;
    evalExpr(&t);
    return cBool(t.v);
  }
  if (a == b)
    return cBool(op == O_ULE || op == O_SLE);
  if (op == O_ULT && isC(b) && b->k == 0)
    return cBool(false);
  if (op == O_ULT && isC(b) && b->k == 1)
    return mkEq(a, cBV(0, a->width));
  if (op == O_ULT && isC(a) && a->k == 0)
    return mkNot(mkEq(b, a));
  if ((op == O_ULT || op == O_ULE) && a->op == O_B2BV && isC(b)) {
    bool f = op == O_ULT ? 0 < b->k : true, t = op == O_ULT ? 1 < b->k : 1 <= b->k;
    return mkIte(a->a, cBool(t), cBool(f));
  }
  return intern(op, SBool, 1, a, b);
}
static Expr *mkF(Op op, Expr *a, Expr *b = nullptr, u64 k = 0)
{
  if (g_mode == 0) {
    if ((op == O_FMUL || op == O_FADD) && a->id > b->id)
      std::swap(a, b);
    if (op == O_FMUL && ((isC(a) && bits2d(a->k) == 0) || (isC(b) && bits2d(b->k) == 0)))
      return cF(0);
    if (op == O_FMUL && isC(a) && isC(b))
      return cF(bits2d(a->k) * bits2d(b->k));
    // quotients by a root: one common division, so that roots cancel
    auto over = [](Expr *e, Expr *&num) -> Expr * {
      if (e->op != O_FDIV || e->b->op != O_FSQRT)
        return nullptr;
      num = e->a;
      return e->b;
    };
    Expr *na = nullptr, *nb = nullptr, *da = b || op == O_FNEG ? over(a, na) : nullptr, *db = b ? over(b, nb) : nullptr;
    switch (op) {
    case O_FNEG:
      if (da)
        return mkF(O_FDIV, mkF(O_FNEG, na), da);
      break;
    case O_FADD:
    case O_FSUB:
      if (da && da == db)
        return mkF(O_FDIV, mkF(op, na, nb), da);
      break;
    case O_FMUL:
      if (da && da == db)
        return mkF(O_FDIV, mkF(O_FMUL, na, nb), da->a);
      if (da && b == da)
        return na;
      if (db && a == db)
        return nb;
      if (da)
        return mkF(O_FDIV, mkF(O_FMUL, na, b), da);
      if (db)
        return mkF(O_FDIV, mkF(O_FMUL, a, nb), db);
      break;
    case O_FDIV:
      if (da && b == da)
        return mkF(O_FDIV, na, da->a);
      break;
    default: break;
    }
    if (op == O_FDIV && a == b)
      return cF(1); // the divisor is known not to be zero
    if (op == O_FMUL && a == b && a->op == O_FSQRT)
      return a->a;
    if (op == O_FMUL && a == b && a->op == O_FABS)
      return intern(op, SF, 64, a->a, a->a, nullptr, k);
  }
  return intern(op, SF, 64, a, b, nullptr, k);
}
// non-negative (positive) by construction, whatever the inputs
static bool nonneg(Expr *e, bool pos = false, int depth = 0)
{
  if (isC(e))
    return pos ? bits2d(e->k) > 0 : bits2d(e->k) >= 0;
  if (depth > 40)
    return false;
  auto rec = [&](Expr *x, bool p) { return nonneg(x, p, depth + 1); };
  switch (e->op) {
  case O_INPUT: return pos ? e->lo > 0 : e->lo >= 0;
  case O_FABS: return !pos;
  case O_FSQRT: return pos ? rec(e->a, true) : true;
  case O_FADD: return rec(e->a, pos) ? rec(e->b, false) : pos && rec(e->a, false) && rec(e->b, true);
  case O_FMUL: return (!pos && e->a == e->b) || (rec(e->a, pos) && rec(e->b, pos));
  case O_FDIV: return rec(e->a, pos) && rec(e->b, false); // the divisor is known not to be zero
  case O_ITE: return rec(e->b, pos) && rec(e->c, pos);
  default: return false;
  }
}
// the square of a root, of a constant multiple of one, or of a constant, all of them non-negative
static Expr *squared(Expr *e)
{
  if (isC(e)) {
    double d = bits2d(e->k);
    return d >= 0 && d < 1e100 ? cF(d > 1e-100 ? d * d : 0) : nullptr;
  }
  if (e->op == O_FSQRT)
    return e->a;
  if (e->op == O_FMUL) {
    Expr *x = squared(e->a), *y = squared(e->b);
    return x && y ? mkF(O_FMUL, x, y) : nullptr;
  }
  return nullptr;
}
static Expr *mkFC(Op op, Expr *a, Expr *b)
{
  if (g_mode == 0) {
    // without quotients and roots where that needs no case distinction
    if (isC(a) && b->op == O_FDIV && nonneg(b->b) && !isC(b->b))
      return mkFC(op, mkF(O_FMUL, a, b->b), b->a);
    if (isC(b) && a->op == O_FDIV && nonneg(a->b) && !isC(a->b))
      return mkFC(op, a->a, mkF(O_FMUL, b, a->b));
    if (!(isC(a) && isC(b)) && a != b) {
      Expr *x = squared(a), *y = x ? squared(b) : nullptr;
      if (x && y)
        return mkFC(op, x, y);
    }
  }
  if (g_mode == 0 && op != O_FEQ) {
    if (isC(b) && bits2d(b->k) <= 0 && nonneg(a, op == O_FLE && bits2d(b->k) == 0))
      return cBool(false);
    if (isC(a) && bits2d(a->k) <= 0 && nonneg(b, op == O_FLT && bits2d(a->k) == 0))
      return cBool(true);
  }
  if (g_mode == 0 && a == b)
    return cBool(op != O_FLT);
  if (isC(a) && isC(b)) {
    double x = bits2d(a->k), y = bits2d(b->k);
    return cBool(op == O_FEQ ? x == y : op == O_FLT ? x < y : x <= y);
  }
  if (g_mode == 0) { // interval pruning (sound: intervals are derived from input bounds)
    // widen by rounding of interval arithmetic
    auto up = [](double x) { return std::isfinite(x) ? x + std::fabs(x) * 1e-12 + 1e-300 : x; };
    auto dn = [](double x) { return std::isfinite(x) ? x - std::fabs(x) * 1e-12 - 1e-300 : x; };
    if (op == O_FLT || op == O_FLE) {
      if (up(a->hi) < dn(b->lo))
        return cBool(true);
      if (up(b->hi) < dn(a->lo))
        return cBool(false);
    } else if (up(a->hi) < dn(b->lo) || up(b->hi) < dn(a->lo))
      return cBool(false);
  }
  return intern(op, SBool, 1, a, b);
}

// ---------------------------------------------------------------- z3
static Z3_context zc;
static Z3_solver  zs;
static std::vector<Z3_ast> *pcAsts;
static std::vector<Expr *> *pcExprs;
static size_t               pcAsserted = 0;
static std::unordered_map<Expr *, bool> *known; // decided conditions
static std::vector<Expr *> *inputs;
static bool                 nonlinear = false;
static unsigned             g_timeout = 5000;
static std::map<std::string, int> *lostMap;

static void z3err(Z3_context c, Z3_error_code e)
{
  fprintf(stderr, "z3 error %d: %s\n", e, Z3_get_error_msg(c, e));
  _exit(97);
}
static void zinit()
{
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  zc = Z3_mk_context(cfg);
  Z3_set_error_handler(zc, z3err);
  Z3_del_config(cfg);
  zs = Z3_mk_solver(zc);
  Z3_solver_inc_ref(zc, zs);
}
static Z3_sort zsort(Expr *e)
{
  if (e->sort == SBool)
    return Z3_mk_bool_sort(zc);
  if (e->sort == SBV)
    return Z3_mk_bv_sort(zc, e->width);
  return g_mode ? Z3_mk_fpa_sort_double(zc) : Z3_mk_real_sort(zc);
}
static Z3_ast zreal(const mpq_class &q) { return Z3_mk_numeral(zc, q.get_str().c_str(), Z3_mk_real_sort(zc)); }
static void   addSide(Z3_ast a);
// Linear normal form of real-valued terms: sum of coefficient * atom, exact rationals.  Terms reach the solver in
// this form, so that deep chains of additions and scalings (dense linear algebra) stay one flat constraint.
struct Lin {
  std::vector<std::pair<Expr *, mpq_class>> t; // ordered by atom id
  mpq_class                                 c;
};
static std::unordered_map<Expr *, Lin *> *lins;
static Lin *linAdd(const Lin *a, const Lin *b, int sign)
{
  Lin   *r = new Lin;
  size_t i = 0, j = 0;
  r->c = sign > 0 ? mpq_class(a->c + b->c) : mpq_class(a->c - b->c);
  while (i < a->t.size() || j < b->t.size()) {
    if (j == b->t.size() || (i < a->t.size() && a->t[i].first->id < b->t[j].first->id))
      r->t.push_back(a->t[i++]);
    else if (i == a->t.size() || b->t[j].first->id < a->t[i].first->id) {
      r->t.emplace_back(b->t[j].first, sign > 0 ? b->t[j].second : mpq_class(-b->t[j].second));
      ++j;
    } else {
      mpq_class k = sign > 0 ? mpq_class(a->t[i].second + b->t[j].second) : mpq_class(a->t[i].second - b->t[j].second);
      if (k != 0)
        r->t.emplace_back(a->t[i].first, k);
      ++i;
      ++j;
    }
  }
  return r;
}
static Lin *linScale(const Lin *a, const mpq_class &k)
{
  Lin *r = new Lin;
  r->c   = a->c * k;
  if (k != 0)
    for (auto &x : a->t)
      r->t.emplace_back(x.first, mpq_class(x.second * k));
  return r;
}
static bool isLinOp(const Expr *e)
{
  switch (e->op) {
  case O_FADD:
  case O_FSUB:
  case O_FNEG:
  case O_FMUL:
    return true;
  case O_FDIV:
    return isC(e->b) && *e->b->q != 0;
  default:
    return false;
  }
}
static Lin *linOf(Expr *e)
{
  if (!lins)
    lins = new std::unordered_map<Expr *, Lin *>;
  auto get = [](Expr *x) -> Lin * {
    auto it = lins->find(x);
    return it == lins->end() ? nullptr : it->second;
  };
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back();
    if (get(x)) {
      st.pop_back();
      continue;
    }
    auto atom = [&] {
      Lin *l = new Lin;
      l->t.emplace_back(x, mpq_class(1));
      return l;
    };
    Lin *r = nullptr;
    if (isC(x)) {
      r    = new Lin;
      r->c = *x->q;
    } else if (!isLinOp(x))
      r = atom();
    else {
      Lin *a = get(x->a), *b = x->b ? get(x->b) : nullptr;
      if (!a || (x->b && !b)) {
        if (!a)
          st.push_back(x->a);
        if (x->b && !b)
          st.push_back(x->b);
        continue;
      }
      switch (x->op) {
      case O_FADD:
      case O_FSUB: r = linAdd(a, b, x->op == O_FADD ? 1 : -1); break;
      case O_FNEG: r = linScale(a, mpq_class(-1)); break;
      case O_FDIV: r = linScale(a, mpq_class(1 / b->c)); break;
      default:
        r = a->t.empty() ? linScale(b, a->c) : b->t.empty() ? linScale(a, b->c) : atom();
      }
      if (r->t.size() > 200) {
        delete r;
        r = atom();
      }
    }
    (*lins)[x] = r;
    st.pop_back();
  }
  return get(e);
}
static Z3_ast zlin(const Lin *l)
{
  std::vector<Z3_ast> sum;
  for (auto &x : l->t) {
    Z3_ast m[2] = {zreal(x.second), x.first->z};
    sum.push_back(x.second == 1 ? x.first->z : Z3_mk_mul(zc, 2, m));
  }
  if (l->c != 0 || sum.empty())
    sum.push_back(zreal(l->c));
  return sum.size() == 1 ? sum[0] : Z3_mk_add(zc, sum.size(), sum.data());
}
// A sum of squares (or its root) below a constant bounds every summand: an implied linear fact, stated explicitly
// because the solver is slow to find it.
static Z3_ast zx(Expr *e);
static void   squareFacts(Expr *cmp, Z3_ast holds)
{
  Expr *l = cmp->a, *r = cmp->b;
  if (!isC(r))
    return;
  mpq_class K = *r->q;
  if (l->op == O_FSQRT) {
    K = K > 0 ? mpq_class(K * K) : mpq_class(0);
    l = l->a;
  }
  Lin *s = linOf(l);
  if (s->t.empty() || s->t.size() > 64)
    return;
  for (auto &x : s->t)
    if (x.second <= 0 || x.first->op != O_FMUL || x.first->a != x.first->b)
      return;
  K -= s->c;
  if (K < 0)
    return;
  std::vector<Z3_ast> facts;
  for (auto &x : s->t) {
    double    b  = std::sqrt(mpq_class(K / x.second).get_d()) * (1 + 1e-12) + 1e-300;
    if (!std::isfinite(b))
      continue;
    Z3_ast    a  = zx(x.first->a);
    mpq_class up(b), dn(-b);
    facts.push_back(Z3_mk_le(zc, a, zreal(up)));
    facts.push_back(Z3_mk_ge(zc, a, zreal(dn)));
  }
  addSide(Z3_mk_implies(zc, holds, Z3_mk_and(zc, facts.size(), facts.data())));
}
// Rational normal form: sum of coefficient * product of atoms (with integer exponents), where inverses of sums are
// atoms of their own.  Used to recognise equal values that are written differently before the solver is asked.
typedef std::vector<std::pair<uint32_t, int>> Mono;
typedef std::map<Mono, mpq_class>             Poly;
struct PolyTable {
  std::vector<std::pair<Expr *, Poly>> atoms; // an expression or the inverse of a polynomial
  std::unordered_map<Expr *, uint32_t> ofExpr;
  std::map<Poly, uint32_t>             ofInverse;
  std::unordered_map<Expr *, Poly *>   memo;
  std::unordered_map<Expr *, mpq_class> known;
};
static PolyTable *polys;
static const size_t polyLimit = 400;
static uint32_t polyAtom(Expr *x)
{
  auto it = polys->ofExpr.find(x);
  if (it != polys->ofExpr.end())
    return it->second;
  uint32_t n = polys->atoms.size();
  polys->atoms.push_back({x, {}});
  return polys->ofExpr[x] = n;
}
static bool polyOf(Expr *x, Poly &r);
static bool polyMul(const Poly &a, const Poly &b, Poly &r);
static bool polyInv(const Poly &d, Poly &r)
{
  r.clear();
  if (d.empty())
    return false;
  if (d.size() == 1) {
    Mono m = d.begin()->first;
    for (auto &f : m)
      f.second = -f.second;
    r[m] = 1 / d.begin()->second;
    return true;
  }
  mpq_class lead = d.begin()->second;
  Poly      n;
  for (auto &t : d)
    n[t.first] = t.second / lead;
  auto it = polys->ofInverse.find(n);
  if (it == polys->ofInverse.end()) {
    it = polys->ofInverse.emplace(n, polys->atoms.size()).first;
    polys->atoms.push_back({nullptr, n});
  }
  r[{{it->second, 1}}] = 1 / lead;
  return true;
}
static bool monoMul(const Mono &a, const Mono &b, const mpq_class &k, Poly &r)
{
  Mono   m;
  size_t i = 0, j = 0;
  std::vector<std::pair<Poly, bool>> extra;
  while (i < a.size() || j < b.size()) {
    std::pair<uint32_t, int> f;
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
      f = a[i++];
    else if (i == a.size() || b[j].first < a[i].first)
      f = b[j++];
    else {
      f = {a[i].first, a[i].second + b[j].second};
      ++i, ++j;
    }
    Expr *x = polys->atoms[f.first].first;
    while (x && x->op == O_FSQRT && (f.second >= 2 || f.second <= -2)) {
      Poly p;
      if (!polyOf(x->a, p))
        return false;
      extra.push_back({p, f.second < 0});
      f.second += f.second < 0 ? 2 : -2;
    }
    if (f.second)
      m.push_back(f);
  }
  Poly t;
  t[m] = k;
  for (auto &e : extra) {
    Poly q = e.first, u;
    if (e.second) {
      Poly v;
      if (!polyInv(q, v))
        return false;
      q = v;
    }
    if (!polyMul(t, q, u))
      return false;
    t = u;
  }
  for (auto &x : t) {
    mpq_class &c = r[x.first];
    c += x.second;
    if (c == 0)
      r.erase(x.first);
  }
  return true;
}
static bool polyMul(const Poly &a, const Poly &b, Poly &r)
{
  r.clear();
  if (a.size() * b.size() > 10 * polyLimit)
    return false;
  for (auto &x : a)
    for (auto &y : b)
      if (!monoMul(x.first, y.first, x.second * y.second, r))
        return false;
  return r.size() <= polyLimit;
}
static bool polyOf(Expr *x, Poly &r)
{
  auto it = polys->memo.find(x);
  if (it != polys->memo.end()) {
    if (it->second)
      r = *it->second;
    return it->second != nullptr;
  }
  Poly a, b;
  bool ok = true;
  r.clear();
  auto k = polys->known.find(x);
  if (k != polys->known.end()) {
    if (k->second != 0)
      r[{}] = k->second;
    polys->memo[x] = new Poly(r);
    return true;
  }
  switch (x->op) {
  case O_FADD:
  case O_FSUB:
    ok = polyOf(x->a, r) && polyOf(x->b, b);
    for (auto &t : b) {
      mpq_class &c = r[t.first];
      c += x->op == O_FADD ? t.second : mpq_class(-t.second);
      if (c == 0)
        r.erase(t.first);
    }
    ok = ok && r.size() <= polyLimit;
    break;
  case O_FNEG:
    ok = polyOf(x->a, r);
    for (auto &t : r)
      t.second = -t.second;
    break;
  case O_FMUL: ok = polyOf(x->a, a) && polyOf(x->b, b) && polyMul(a, b, r); break;
  case O_FDIV: {
    Poly i;
    ok = polyOf(x->a, a) && polyOf(x->b, b) && polyInv(b, i) && polyMul(a, i, r);
    break;
  }
  default:
    if (isC(x)) {
      if (*x->q != 0)
        r[{}] = *x->q;
    } else
      r[{{polyAtom(x), 1}}] = 1;
  }
  polys->memo[x] = ok ? new Poly(r) : nullptr;
  return ok;
}
// multiplies with the denominators until none is left; the result is zero exactly if p is
static bool polyClear(Poly &p)
{
  for (int round = 0; round < 64; ++round) {
    long     best = -1;
    int      k    = 0;
    for (auto &t : p)
      for (auto &f : t.first) {
        bool inverse = !polys->atoms[f.first].first;
        if ((inverse ? f.second > 0 : f.second < 0) && long(f.first) > best)
          best = f.first;
      }
    if (best < 0)
      return true;
    bool inverse = !polys->atoms[best].first;
    for (auto &t : p)
      for (auto &f : t.first)
        if (long(f.first) == best)
          k = std::max(k, inverse ? f.second : -f.second);
    std::vector<Poly> power(k + 1);
    power[0][{}] = 1;
    for (int i = 1; i <= k; ++i)
      if (inverse) {
        Poly base = polys->atoms[best].second;
        if (!polyMul(power[i - 1], base, power[i]))
          return false;
      }
    Poly n;
    for (auto &t : p) {
      Mono m;
      int  e = 0;
      for (auto &f : t.first)
        if (long(f.first) == best)
          e = f.second;
        else
          m.push_back(f);
      Poly a, b;
      a[m] = t.second;
      if (inverse) {
        if (!polyMul(a, power[k - e], b))
          return false;
      } else {
        Poly r;
        if (k + e)
          r[{{uint32_t(best), k + e}}] = 1;
        else
          r[{}] = 1;
        if (!polyMul(a, r, b))
          return false;
      }
      for (auto &x : b) {
        mpq_class &c = n[x.first];
        c += x.second;
        if (c == 0)
          n.erase(x.first);
      }
      if (n.size() > 10 * polyLimit)
        return false;
    }
    p = n;
  }
  return false;
}
// whether e has the same value v for all inputs for which it is defined
static bool constantValue(Expr *e, mpq_class &v)
{
  if (!polys)
    polys = new PolyTable;
  // values known on this path
  static size_t seen = 0;
  for (; seen < pcExprs->size(); ++seen) {
    Expr *c = (*pcExprs)[seen];
    if (c->op != O_FEQ || (!isC(c->a) && !isC(c->b)))
      continue;
    polys->memo.clear();
    Expr *x = isC(c->a) ? c->b : c->a, *k = isC(c->a) ? c->a : c->b;
    polys->known[x] = *k->q;
  }
  Poly p;
  if (!polyOf(e, p))
    return false;
  v = p.empty() ? mpq_class(0) : p.begin()->second;
  if (p.empty() || (p.size() == 1 && p.begin()->first.empty()))
    return true;
  v = 0;
  return polyClear(p) && p.empty();
}
static bool flatLinear = true;
static Z3_ast zx(Expr *e)
{
  if (e->z)
    return e->z;
  // iterative on deep DAGs: ensure children first
  std::vector<Expr *> stack{e};
  while (!stack.empty()) {
    Expr *x = stack.back();
    if (x->z) {
      stack.pop_back();
      continue;
    }
    bool ready = true;
    if (g_mode == 0 && flatLinear && x->sort == SF && isLinOp(x)) {
      Lin *l = linOf(x);
      if (!(l->t.size() == 1 && l->t[0].first == x)) {
        for (auto &m : l->t)
          if (!m.first->z) {
            stack.push_back(m.first);
            ready = false;
          }
        if (!ready)
          continue;
        stack.pop_back();
        x->z = zlin(l);
        Z3_inc_ref(zc, x->z);
        continue;
      }
    }
    for (Expr *ch : {x->a, x->b, x->c})
      if (ch && !ch->z) {
        stack.push_back(ch);
        ready = false;
      }
    if (!ready)
      continue;
    stack.pop_back();
    Z3_ast r = nullptr, a = x->a ? x->a->z : nullptr, b = x->b ? x->b->z : nullptr, c = x->c ? x->c->z : nullptr;
    Z3_ast ab[2] = {a, b};
    Z3_ast rm    = nullptr;
    if (g_mode)
      rm = Z3_mk_fpa_rne(zc);
    switch (x->op) {
    case O_CONST:
      if (x->sort == SBool)
        r = x->k ? Z3_mk_true(zc) : Z3_mk_false(zc);
      else if (x->sort == SBV)
        r = Z3_mk_unsigned_int64(zc, x->k, Z3_mk_bv_sort(zc, x->width));
      else if (g_mode)
        r = Z3_mk_fpa_to_fp_bv(zc, Z3_mk_unsigned_int64(zc, x->k, Z3_mk_bv_sort(zc, 64)), Z3_mk_fpa_sort_double(zc));
      else
        r = zreal(*x->q);
      break;
    case O_INPUT: {
      Z3_symbol s = Z3_mk_string_symbol(zc, x->name->c_str());
      if (x->sort == SF && g_mode == 0 && x->isint)
        r = Z3_mk_int2real(zc, Z3_mk_const(zc, s, Z3_mk_int_sort(zc)));
      else
        r = Z3_mk_const(zc, s, zsort(x));
      break;
    }
    case O_NOT: r = Z3_mk_not(zc, a); break;
    case O_BAND: r = Z3_mk_and(zc, 2, ab); break;
    case O_BOR: r = Z3_mk_or(zc, 2, ab); break;
    case O_BXOR: r = Z3_mk_xor(zc, a, b); break;
    case O_ADD: r = Z3_mk_bvadd(zc, a, b); break;
    case O_SUB: r = Z3_mk_bvsub(zc, a, b); break;
    case O_MUL: r = Z3_mk_bvmul(zc, a, b); break;
    case O_UDIV: r = Z3_mk_bvudiv(zc, a, b); break;
    case O_SDIV: r = Z3_mk_bvsdiv(zc, a, b); break;
    case O_UREM: r = Z3_mk_bvurem(zc, a, b); break;
    case O_SREM: r = Z3_mk_bvsrem(zc, a, b); break;
    case O_SHL: r = Z3_mk_bvshl(zc, a, b); break;
    case O_LSHR: r = Z3_mk_bvlshr(zc, a, b); break;
    case O_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
    case O_AND: r = Z3_mk_bvand(zc, a, b); break;
    case O_OR: r = Z3_mk_bvor(zc, a, b); break;
    case O_XOR: r = Z3_mk_bvxor(zc, a, b); break;
    case O_EXTRACT: r = Z3_mk_extract(zc, (unsigned) x->k + x->width - 1, (unsigned) x->k, a); break;
    case O_CONCAT: r = Z3_mk_concat(zc, a, b); break;
    case O_ZEXT: r = Z3_mk_zero_ext(zc, x->width - x->a->width, a); break;
    case O_SEXT: r = Z3_mk_sign_ext(zc, x->width - x->a->width, a); break;
    case O_B2BV: r = Z3_mk_ite(zc, a, Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, x->width)), Z3_mk_unsigned_int64(zc, 0, Z3_mk_bv_sort(zc, x->width))); break;
    case O_ITE: r = Z3_mk_ite(zc, a, b, c); break;
    case O_EQ: r = Z3_mk_eq(zc, a, b); break;
    case O_ULT: r = Z3_mk_bvult(zc, a, b); break;
    case O_ULE: r = Z3_mk_bvule(zc, a, b); break;
    case O_SLT: r = Z3_mk_bvslt(zc, a, b); break;
    case O_SLE: r = Z3_mk_bvsle(zc, a, b); break;
    case O_FADD: r = g_mode ? Z3_mk_fpa_add(zc, rm, a, b) : Z3_mk_add(zc, 2, ab); break;
    case O_FSUB: r = g_mode ? Z3_mk_fpa_sub(zc, rm, a, b) : Z3_mk_sub(zc, 2, ab); break;
    case O_FMUL:
      if (!g_mode && !isC(x->a) && !isC(x->b))
        nonlinear = true;
      r = g_mode ? Z3_mk_fpa_mul(zc, rm, a, b) : Z3_mk_mul(zc, 2, ab);
      break;
    case O_FDIV:
      if (!g_mode && !isC(x->b))
        nonlinear = true;
      if (!g_mode && isC(x->b)) {
        Z3_ast m[2] = {a, zreal(1 / *x->b->q)};
        r           = Z3_mk_mul(zc, 2, m);
      } else
        r = g_mode ? Z3_mk_fpa_div(zc, rm, a, b) : Z3_mk_div(zc, a, b);
      break;
    case O_FREM: {
      if (g_mode) {
        // C fmod is not fpa_rem (IEEE remainder): model as fresh value
        r = Z3_mk_fresh_const(zc, "frem", zsort(x));
        (*lostMap)["model:fmod-ieee"]++;
        break;
      }
      nonlinear     = nonlinear || !isC(x->b);
      Z3_ast q      = Z3_mk_div(zc, a, b);
      Z3_ast zero   = Z3_mk_real(zc, 0, 1);
      Z3_ast fl     = Z3_mk_int2real(zc, Z3_mk_real2int(zc, q));
      Z3_ast nf     = Z3_mk_unary_minus(zc, Z3_mk_int2real(zc, Z3_mk_real2int(zc, Z3_mk_unary_minus(zc, q))));
      Z3_ast tr     = Z3_mk_ite(zc, Z3_mk_ge(zc, q, zero), fl, nf);
      Z3_ast tb[2]  = {tr, b};
      Z3_ast s2[2]  = {a, Z3_mk_mul(zc, 2, tb)};
      r             = Z3_mk_sub(zc, 2, s2);
      break;
    }
    case O_FNEG: r = g_mode ? Z3_mk_fpa_neg(zc, a) : Z3_mk_unary_minus(zc, a); break;
    case O_FABS: r = g_mode ? Z3_mk_fpa_abs(zc, a) : Z3_mk_ite(zc, Z3_mk_ge(zc, a, Z3_mk_real(zc, 0, 1)), a, Z3_mk_unary_minus(zc, a)); break;
    case O_FSQRT:
      if (g_mode)
        r = Z3_mk_fpa_sqrt(zc, rm, a);
      else {
        r         = Z3_mk_fresh_const(zc, "sqrt", Z3_mk_real_sort(zc));
        nonlinear = true;
        Z3_inc_ref(zc, r);
        Z3_ast rr[2] = {r, r};
        Z3_ast zero  = Z3_mk_real(zc, 0, 1);
        Z3_ast cj[2] = {Z3_mk_ge(zc, r, zero), Z3_mk_eq(zc, Z3_mk_mul(zc, 2, rr), a)};
        addSide(Z3_mk_implies(zc, Z3_mk_ge(zc, a, zero), Z3_mk_and(zc, 2, cj)));
      }
      break;
    case O_FFLOOR: r = g_mode ? Z3_mk_fpa_round_to_integral(zc, Z3_mk_fpa_rtn(zc), a) : Z3_mk_int2real(zc, Z3_mk_real2int(zc, a)); break;
    case O_FTRUNC:
      if (g_mode)
        r = Z3_mk_fpa_round_to_integral(zc, Z3_mk_fpa_rtz(zc), a);
      else {
        Z3_ast zero = Z3_mk_real(zc, 0, 1);
        r           = Z3_mk_ite(zc, Z3_mk_ge(zc, a, zero), Z3_mk_int2real(zc, Z3_mk_real2int(zc, a)),
                                Z3_mk_unary_minus(zc, Z3_mk_int2real(zc, Z3_mk_real2int(zc, Z3_mk_unary_minus(zc, a)))));
      }
      break;
    case O_FRNE:
      if (g_mode)
        r = Z3_mk_fpa_round_to_integral(zc, rm, a);
      else { // ties: to even
        Z3_ast f  = Z3_mk_real2int(zc, a);
        Z3_ast fr = Z3_mk_int2real(zc, f);
        Z3_ast s2[2] = {a, fr};
        Z3_ast d     = Z3_mk_sub(zc, 2, s2);
        Z3_ast half  = Z3_mk_real(zc, 1, 2);
        Z3_ast two   = Z3_mk_int(zc, 2, Z3_mk_int_sort(zc));
        Z3_ast odd   = Z3_mk_eq(zc, Z3_mk_mod(zc, f, two), Z3_mk_int(zc, 1, Z3_mk_int_sort(zc)));
        Z3_ast tie[2] = {Z3_mk_eq(zc, d, half), odd};
        Z3_ast o2[2]  = {Z3_mk_gt(zc, d, half), Z3_mk_and(zc, 2, tie)};
        Z3_ast p2[2]  = {fr, Z3_mk_real(zc, 1, 1)};
        r             = Z3_mk_ite(zc, Z3_mk_or(zc, 2, o2), Z3_mk_add(zc, 2, p2), fr);
      }
      break;
    case O_FEQ: r = g_mode ? Z3_mk_fpa_eq(zc, a, b) : Z3_mk_eq(zc, a, b); break;
    case O_FLT: r = g_mode ? Z3_mk_fpa_lt(zc, a, b) : Z3_mk_lt(zc, a, b); break;
    case O_FLE: r = g_mode ? Z3_mk_fpa_leq(zc, a, b) : Z3_mk_le(zc, a, b); break;
    case O_FISNAN: r = g_mode ? Z3_mk_fpa_is_nan(zc, a) : Z3_mk_false(zc); break;
    case O_FISINF: r = g_mode ? Z3_mk_fpa_is_infinite(zc, a) : Z3_mk_false(zc); break;
    case O_F2BITS:
      if (g_mode)
        r = Z3_mk_fpa_to_ieee_bv(zc, a);
      else {
        Z3_sort        rs = Z3_mk_real_sort(zc);
        Z3_func_decl   f  = Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, "f2bits"), 1, &rs, Z3_mk_bv_sort(zc, 64));
        r                 = Z3_mk_app(zc, f, 1, &a);
        (*lostMap)["model:f2bits-as-uf"]++;
        if (getenv("SYM_FORKS")) {
          void *bt[40];
          int   n = backtrace(bt, 40);
          fprintf(stderr, "F2BITS\n");
          backtrace_symbols_fd(bt, n, 2);
        }
      }
      break;
    case O_BITS2F:
      if (g_mode)
        r = Z3_mk_fpa_to_fp_bv(zc, a, Z3_mk_fpa_sort_double(zc));
      else {
        Z3_sort      bs = Z3_mk_bv_sort(zc, 64);
        Z3_func_decl f  = Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, "bits2f"), 1, &bs, Z3_mk_real_sort(zc));
        r               = Z3_mk_app(zc, f, 1, &a);
        (*lostMap)["model:bits2f-as-uf"]++;
      }
      break;
    case O_SI2F: r = g_mode ? Z3_mk_fpa_to_fp_signed(zc, rm, a, Z3_mk_fpa_sort_double(zc)) : Z3_mk_int2real(zc, Z3_mk_bv2int(zc, a, true)); break;
    case O_UI2F: r = g_mode ? Z3_mk_fpa_to_fp_unsigned(zc, rm, a, Z3_mk_fpa_sort_double(zc)) : Z3_mk_int2real(zc, Z3_mk_bv2int(zc, a, false)); break;
    case O_F2SI: r = g_mode ? Z3_mk_fpa_to_sbv(zc, Z3_mk_fpa_rtz(zc), a, x->width) : Z3_mk_int2bv(zc, x->width, Z3_mk_real2int(zc, a)); break;
    case O_UF1: {
      Z3_sort      fs = zsort(x);
      Z3_func_decl f  = Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, ("uf" + std::to_string(x->k)).c_str()), 1, &fs, fs);
      r               = Z3_mk_app(zc, f, 1, &a);
      (*lostMap)["model:uninterpreted-libm-" + std::to_string(x->k)]++;
      break;
    }
    case O_UF2: {
      Z3_sort      fs[2] = {zsort(x), zsort(x)};
      Z3_func_decl f     = Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, ("uf" + std::to_string(x->k)).c_str()), 2, fs, zsort(x));
      r                  = Z3_mk_app(zc, f, 2, ab);
      (*lostMap)["model:uninterpreted-libm-" + std::to_string(x->k)]++;
      break;
    }
    default:
      fprintf(stderr, "lower: bad op %d\n", x->op);
      _exit(96);
    }
    Z3_inc_ref(zc, r);
    x->z = r;
    if (g_mode == 0 && (x->op == O_FLT || x->op == O_FLE))
      squareFacts(x, r);
  }
  return e->z;
}
static void addSide(Z3_ast a)
{
  Z3_inc_ref(zc, a);
  pcAsts->push_back(a);
}
static void addPC(Expr *e)
{
  if (isC(e))
    return;
  pcExprs->push_back(e);
}
static size_t pcLowered = 0;
static void   lowerPC()
{
  for (; pcLowered < pcExprs->size(); ++pcLowered) {
    Z3_ast a = zx((*pcExprs)[pcLowered]);
    pcAsts->push_back(a);
  }
}
static void flushPC()
{
  lowerPC();
  for (; pcAsserted < pcAsts->size(); ++pcAsserted)
    Z3_solver_assert(zc, zs, (*pcAsts)[pcAsserted]);
}
static double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

typedef std::map<std::string, std::string> Model;
static std::string modelVal(Z3_model m, Expr *in)
{
  Z3_ast v;
  Z3_ast q = in->z;
  if (!Z3_model_eval(zc, m, q, true, &v))
    return "?";
  if (in->sort == SF && g_mode == 1) {
    // convert to bits
    Z3_ast bv = Z3_mk_fpa_to_ieee_bv(zc, v);
    Z3_ast r  = Z3_simplify(zc, bv);
    uint64_t u;
    if (Z3_get_ast_kind(zc, r) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(zc, r, &u))
      return std::to_string(u);
    return std::to_string(d2bits(NAN));
  }
  if (in->sort == SF) {
    if (Z3_get_ast_kind(zc, v) == Z3_NUMERAL_AST)
      return Z3_get_numeral_string(zc, v);
    if (Z3_is_algebraic_number(zc, v)) {
      // lower end of an isolating interval of width 2^-64, flagged approximate
      Z3_ast l = Z3_get_algebraic_number_lower(zc, v, 20);
      return std::string("~") + Z3_get_numeral_string(zc, l);
    }
    // int2real(k)
    Z3_ast s = Z3_simplify(zc, v);
    if (Z3_get_ast_kind(zc, s) == Z3_NUMERAL_AST)
      return Z3_get_numeral_string(zc, s);
    return "0";
  }
  uint64_t u = 0;
  if (in->sort == SBool)
    return Z3_get_bool_value(zc, v) == Z3_L_TRUE ? "1" : "0";
  Z3_get_numeral_uint64(zc, v, &u);
  return std::to_string(u);
}
static Model extractModel(Z3_model m)
{
  Model r;
  for (Expr *in : *inputs) {
    if (!in->z)
      zx(in);
    r[*in->name] = modelVal(m, in);
  }
  return r;
}
static void setTimeout(Z3_solver s, unsigned ms)
{
  Z3_params p = Z3_mk_params(zc);
  Z3_params_inc_ref(zc, p);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), ms);
  Z3_solver_set_params(zc, s, p);
  Z3_params_dec_ref(zc, p);
}
static void dumpQuery(Expr *extra, int res);
// 1 sat, 0 unsat, -1 unknown.   pc && extra
static int query(Expr *extra, Model *out, bool prefInt = false)
{
  RT     rt;
  double t0 = now();
  Z3_ast x  = zx(extra);
  flushPC();
  int res = -1;
  {
    setTimeout(zs, nonlinear ? std::min(g_timeout, 1500u) : g_timeout);
    Z3_solver_push(zc, zs);
    Z3_solver_assert(zc, zs, x);
    Z3_lbool r = Z3_solver_check(zc, zs);
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(zc, zs);
      if (m) {
        res = 1;
        Z3_model_inc_ref(zc, m);
        if (out)
          *out = extractModel(m);
        Z3_model_dec_ref(zc, m);
      }
    } else if (r == Z3_L_FALSE)
      res = 0;
    Z3_solver_pop(zc, zs, 1);
  }
  if (res < 0) {
    for (int attempt = 0; attempt < 2 && res < 0; ++attempt) {
      Z3_solver f;
      if (attempt == 0 && g_mode == 0)
        f = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_NRA"));
      else
        f = Z3_mk_simple_solver(zc);
      Z3_solver_inc_ref(zc, f);
      setTimeout(f, g_timeout);
      for (auto a : *pcAsts)
        Z3_solver_assert(zc, f, a);
      Z3_solver_assert(zc, f, x);
      Z3_lbool r = Z3_solver_check(zc, f);
      if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(zc, f);
        if (m) {
          res = 1;
          Z3_model_inc_ref(zc, m);
          if (out)
            *out = extractModel(m);
          Z3_model_dec_ref(zc, m);
        }
      } else if (r == Z3_L_FALSE)
        res = 0;
      Z3_solver_dec_ref(zc, f);
    }
  }
  double dt = now() - t0;
  st.solver += dt;
  st.maxq = std::max(st.maxq, dt);
  if (res == 1)
    st.qsat++;
  else if (res == 0)
    st.qunsat++;
  else
    st.qunknown++;
  if (dt > 0.3 && getenv("SYM_SLOW")) {
    fprintf(stderr, "SLOWQUERY %.2f res %d pc %zu  %.600s\n", dt, res, pcAsts->size(), Z3_ast_to_string(zc, x));
  }
  dumpQuery(extra, res);
  return res;
}
static const char *g_dumpDir = nullptr;
static int         g_dumpN   = 0;
static void        dumpQuery(Expr *extra, int res)
{
  if (!g_dumpDir || g_dumpN >= 3 || res < 0)
    return;
  Z3_ast_vector dummy = nullptr;
  (void) dummy;
  Z3_solver f = Z3_mk_simple_solver(zc);
  Z3_solver_inc_ref(zc, f);
  for (auto a : *pcAsts)
    Z3_solver_assert(zc, f, a);
  Z3_solver_assert(zc, f, zx(extra));
  char fn[512];
  snprintf(fn, sizeof fn, "%s/q_%d_%d_%s.smt2", g_dumpDir, getpid(), g_dumpN++, res ? "sat" : "unsat");
  FILE *o = fopen(fn, "w");
  if (o) {
    fprintf(o, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(zc, f));
    fclose(o);
  }
  Z3_solver_dec_ref(zc, f);
}

// ---------------------------------------------------------------- path state
struct Dec {
  char             t; // '0','1' decided; 'a','b' implied 0/1; 'C' value chosen; 'c' value implied; 'X' exclude
  u64              v = 0;
  std::vector<u64> ex;
};
struct Item {
  std::vector<Dec> prefix;
  Model            model;
};
static Item            *cur; // item being executed
static std::vector<Dec> *trail;
static size_t           g_pos = 0;
static int              g_out = -1;
static std::string     *g_buf;
static std::map<std::string, u64> *g_covers, *g_checks;
static std::set<std::string>      *g_sites;
static std::set<const char *>     *g_siteptr;
static Model                       g_replayModel;
static std::map<std::string, int>  g_inputCount;
static std::vector<std::string>    g_notes;
static u64                         g_seed = 1;
static int                         g_thorough = 0;
static bool                        g_abortedPath = false;
static u64                         g_maxConc = 4096;
static int                         g_replayFailed = 0;
static std::string                 g_scenarioName;

static void emit(const std::string &s) { g_buf->append(s); }
static std::string esc(const std::string &s)
{
  std::string r;
  for (char c : s)
    if (c == '\n' || c == '\t' || c == '\r')
      r += ' ';
    else
      r += c;
  return r;
}
static std::string serDec(const std::vector<Dec> &d)
{
  std::string r;
  for (auto &x : d) {
    r += x.t;
    if (x.t == 'C' || x.t == 'c') {
      r += std::to_string(x.v);
      r += ';';
    } else if (x.t == 'X') {
      for (auto v : x.ex)
        r += std::to_string(v) + ",";
      r += ';';
    }
  }
  return r;
}
static std::vector<Dec> deserDec(const std::string &s)
{
  std::vector<Dec> r;
  for (size_t i = 0; i < s.size();) {
    Dec d;
    d.t = s[i++];
    if (d.t == 'C' || d.t == 'c') {
      size_t j = s.find(';', i);
      d.v      = strtoull(s.substr(i, j - i).c_str(), nullptr, 10);
      i        = j + 1;
    } else if (d.t == 'X') {
      size_t            j = s.find(';', i);
      std::stringstream ss(s.substr(i, j - i));
      std::string       tok;
      while (std::getline(ss, tok, ','))
        if (!tok.empty())
          d.ex.push_back(strtoull(tok.c_str(), nullptr, 10));
      i = j + 1;
    }
    r.push_back(std::move(d));
  }
  return r;
}
static std::string serModel(const Model &m)
{
  std::string r;
  for (auto &kv : m)
    r += kv.first + "=" + kv.second + " ";
  return r;
}
static Model deserModel(const std::string &s)
{
  Model             m;
  std::stringstream ss(s);
  std::string       tok;
  while (ss >> tok) {
    auto p               = tok.find('=');
    m[tok.substr(0, p)] = tok.substr(p + 1);
  }
  return m;
}
static void emitItem(const std::vector<Dec> &pre, const Dec &last, const Model &m)
{
  Model full;
  for (auto &kv : cur->model)
    full[kv.first] = kv.second;
  for (auto &kv : m)
    full[kv.first] = kv.second;
  std::vector<Dec> p = pre;
  p.push_back(last);
  emit("ITEM\t" + serDec(p) + "\t" + serModel(full) + "\n");
}
static Model currentModel()
{
  Model r;
  if (inputs)
    for (Expr *in : *inputs) {
      if (in->sort == SF && g_mode == 0)
        r[*in->name] = (in->approx ? "~" : "") + in->q->get_str();
      else
        r[*in->name] = std::to_string(in->v);
    }
  return r;
}
static void emitViolation(const std::string &label, const Model &m)
{
  std::string n;
  for (auto &x : g_notes)
    n += x + "; ";
  emit("VIOL\t" + esc(label) + "\t" + serModel(m) + "\t" + esc(n) + "\n");
}

static void flushOut()
{
  // path summary
  RT          rt;
  std::string s;
  for (auto &kv : *g_covers)
    s += "COVER\t" + esc(kv.first) + "\t" + std::to_string(kv.second) + "\n";
  for (auto &kv : *g_checks)
    s += "CHECK\t" + esc(kv.first) + "\t" + std::to_string(kv.second) + "\n";
  for (auto &kv : *lostMap)
    s += "LOST\t" + esc(kv.first) + "\t" + std::to_string(kv.second) + "\n";
  for (auto p : *g_siteptr)
    s += std::string("SITE\t") + p + "\n";
  char b[1024];
  snprintf(b, sizeof b, "STAT\t%lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %g %g\n", st.branches, st.implied, st.qsat, st.qunsat, st.qunknown, st.checks, st.checksConcrete, st.discharged, st.checkUnknown, st.fops, st.fopsExact, st.opchecks, st.opmismatch, st.diverge, st.concs, st.exprs, st.unknownBranches, st.boundary, st.solver, st.maxq);
  s += b;
  s += "PATH\t" + std::to_string(trail->size()) + "\t" + serModel(currentModel()) + "\n";
  s = *g_buf + s;
  size_t o = 0;
  while (o < s.size()) {
    ssize_t k = write(g_out, s.data() + o, s.size() - o);
    if (k <= 0)
      break;
    o += (size_t) k;
  }
}
[[noreturn]] static void endPath()
{
  flushOut();
  _exit(0);
}
static void nativeMismatch(const char *what, const char *site)
{
  if (g_mode == 1 && getenv("SYM_DEBUG"))
    fprintf(stderr, "ENGINE: encoding mismatch (%s) at %s\n", what, site ? site : "?");
}

// sym::split(): fork at floating point selections instead of building conditional terms
static bool g_split = false;
static bool decide(Expr *e, const char *site);
static Expr *mkAbs(Expr *x)
{
  if (g_mode == 0 && nonneg(x))
    return x;
  if (g_mode == 0 && g_split && !isC(x)) {
    Expr *c = mkFC(O_FLT, x, cF(0));
    return (isC(c) ? c->k != 0 : decide(c, nullptr)) ? mkF(O_FNEG, x) : x;
  }
  return mkF(O_FABS, x);
}
// decide condition e (non constant). returns direction
static bool decide(Expr *e, const char *site)
{
  RT   rt;
  bool neg = false;
  if (e->op == O_NOT) {
    e   = e->a;
    neg = true;
  }
  auto it = known->find(e);
  if (it != known->end())
    return it->second != neg;
  bool v = e->v & 1;
  bool d = v;
  st.branches++;
  if (site)
    g_siteptr->insert(site);
  size_t pos = g_pos++;
  if (pos < cur->prefix.size()) {
    Dec &p = cur->prefix[pos];
    if (p.t == '0' || p.t == '1' || p.t == 'a' || p.t == 'b') {
      d = p.t == '1' || p.t == 'b';
      if (d != v)
        st.boundary++; // model value only approximately satisfies the prefix
      trail->push_back(p);
      if (p.t == '0' || p.t == '1')
        addPC(d ? e : mkNot(e));
    } else {
      emit("ERROR\tprefix mismatch (branch expected value decision) at " + std::string(site ? site : "?") + "\n");
      endPath();
    }
  } else {
    if (e->approx) {
      // own evaluation is approximate: ask the solver whether this side is feasible at all
      int r = query(d ? e : mkNot(e), nullptr);
      if (r == 0)
        d = !d;
    }
    Model m;
    int   r = query(d ? mkNot(e) : e, &m);
    if (r == 1) {
      static const bool showForks = getenv("SYM_FORKS") != nullptr;
      if (showForks) {
        fprintf(stderr, "FORK %s\n", site ? site : "?");
        if (!site) {
          void *bt[8];
          int   n = backtrace(bt, 8);
          backtrace_symbols_fd(bt, n, 2);
        }
      }
      Dec o;
      o.t = d ? '0' : '1';
      emitItem(*trail, o, m);
      Dec n;
      n.t = d ? '1' : '0';
      trail->push_back(n);
      addPC(d ? e : mkNot(e));
    } else if (r == 0) {
      st.implied++;
      Dec n;
      n.t = d ? 'b' : 'a';
      trail->push_back(n);
    } else {
      st.unknownBranches++;
      (*lostMap)[std::string("unknown-branch:") + (site ? site : "?")]++;
      Dec n;
      n.t = d ? '1' : '0';
      trail->push_back(n);
      addPC(d ? e : mkNot(e));
    }
  }
  (*known)[e] = d;
  return d != neg;
}

static Expr *eqVal(Expr *e, u64 v)
{
  if (e->sort == SF)
    return mkFC(O_FEQ, e, cF(bits2d(v)));
  return mkEq(e, cBV(v, e->width));
}
static u64 valueOf(Expr *e)
{
  if (e->sort == SF && g_mode == 0)
    return d2bits(qToD(*e->q));
  return e->v;
}
static std::unordered_map<Expr *, u64> *concd;
// make e concrete: enumerates all feasible values over sibling paths
static u64 concretise(Expr *e, const char *site)
{
  RT rt;
  if (isC(e))
    return e->k;
  switch (e->op) {
  case O_ITE: return decide(e->a, site) ? concretise(e->b, site) : concretise(e->c, site);
  case O_B2BV: return decide(e->a, site);
  case O_ZEXT: return concretise(e->a, site);
  case O_SEXT: return (u64) SX(concretise(e->a, site), e->a->width) & MASK(e->width);
  case O_ADD:
    if (isC(e->b))
      return (concretise(e->a, site) + e->b->k) & MASK(e->width);
    break;
  case O_MUL:
    if (isC(e->b))
      return (concretise(e->a, site) * e->b->k) & MASK(e->width);
    break;
  case O_SHL:
    if (isC(e->b))
      return (concretise(e->a, site) << e->b->k) & MASK(e->width);
    break;
  case O_CONCAT:
    if (isC(e->b))
      return ((concretise(e->a, site) << e->b->width) | e->b->k) & MASK(e->width);
    break;
  default: break;
  }
  if (e->sort == SBool)
    return decide(e, site);
  auto it = concd->find(e);
  if (it != concd->end())
    return it->second;
  st.concs++;
  if (site)
    g_siteptr->insert(site);
  size_t           pos = g_pos++;
  u64              v   = valueOf(e);
  std::vector<u64> ex;
  if (pos < cur->prefix.size()) {
    Dec &p = cur->prefix[pos];
    if (p.t == 'C' || p.t == 'c') {
      trail->push_back(p);
      if (p.t == 'C')
        addPC(eqVal(e, p.v));
      (*concd)[e] = p.v;
      return p.v;
    }
    if (p.t != 'X') {
      emit("ERROR\tprefix mismatch (value expected) at " + std::string(site ? site : "?") + "\n");
      endPath();
    }
    ex = p.ex;
    for (u64 x : ex)
      addPC(mkNot(eqVal(e, x)));
  }
  Expr *alt = mkNot(eqVal(e, v));
  Model m;
  int   r = ex.size() + 1 >= g_maxConc ? -1 : query(alt, &m);
  if (r == 1) {
    Dec o;
    o.t  = 'X';
    o.ex = ex;
    o.ex.push_back(v);
    emitItem(*trail, o, m);
    Dec n;
    n.t = 'C';
    n.v = v;
    trail->push_back(n);
    addPC(eqVal(e, v));
  } else {
    Dec n;
    n.t = r == 0 && ex.empty() ? 'c' : 'C';
    n.v = v;
    trail->push_back(n);
    addPC(eqVal(e, v));
    if (r < 0) {
      st.unknownBranches++;
      (*lostMap)[std::string("unknown-conc:") + (site ? site : "?")]++;
    }
  }
  (*concd)[e] = v;
  return v;
}

// ---------------------------------------------------------------- shadow memory
struct Page {
  Expr   *e[4096];
  uint8_t off[4096];
  int     cnt;
};
static std::unordered_map<u64, Page *> *pages;
static uint8_t                          pageFilter[1 << 16];
static int                              nPages = 0;
static inline bool                      mayHave(u64 pg) { return nPages && pageFilter[(pg ^ (pg >> 16)) & 0xffff]; }
static Page                            *lastPage = nullptr;
static u64                              lastPg   = ~0ull;
static Page                            *getPage(u64 pg)
{
  if (!mayHave(pg))
    return nullptr;
  if (pg == lastPg)
    return lastPage;
  auto  it = pages->find(pg);
  Page *p  = it == pages->end() ? nullptr : it->second;
  lastPg   = pg;
  lastPage = p;
  return p;
}
static Page *makePage(u64 pg)
{
  Page *p = getPage(pg);
  if (p)
    return p;
  RT rt;
  p = (Page *) calloc(1, sizeof(Page));
  (*pages)[pg] = p;
  nPages++;
  pageFilter[(pg ^ (pg >> 16)) & 0xffff] = 1;
  lastPg   = pg;
  lastPage = p;
  return p;
}
static bool safeRead(u64 addr, void *dst, size_t n)
{
  struct iovec l = {dst, n}, r = {(void *) addr, n};
  return process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t) n;
}

extern "C" {
void *__sym_callee = nullptr;
Expr *__sym_args[96];
Expr *__sym_rets[16];

void __sym_clear(void *a, u64 n)
{
  if (!nPages)
    return;
  u64 x = (u64) a, end = x + n;
  while (x < end) {
    u64   pg = x >> 12, pe = std::min(end, (pg + 1) << 12);
    Page *p  = getPage(pg);
    if (p && p->cnt) {
      for (u64 i = x; i < pe; ++i) {
        Expr *&s = p->e[i & 4095];
        if (s) {
          s = nullptr;
          p->cnt--;
        }
      }
    }
    x = pe;
  }
}
void __sym_store(void *a, Expr *e, unsigned n)
{
  if (!e) {
    if (nPages)
      __sym_clear(a, n);
    return;
  }
  RT    rt;
  int   w = (int) n * 8;
  if (e->sort == SBool)
    e = mkB2BV(e, w);
  else if (e->sort == SBV && e->width < w)
    e = mkZext(e, w);
  u64 x = (u64) a;
  for (unsigned i = 0; i < n; ++i) {
    Page *p = makePage((x + i) >> 12);
    int   k = (int) ((x + i) & 4095);
    if (!p->e[k])
      p->cnt++;
    p->e[k]   = e;
    p->off[k] = (uint8_t) i;
  }
}
static Expr *adapt(Expr *e, int kind, int w)
{
  // e -> sort wanted by kind
  if (kind == 2 || kind == 1) {
    if (e->sort == SF)
      return e;
    if (e->sort == SBV && e->width == 64)
      return mkBits2F(e);
    return e;
  }
  if (e->sort == SF)
    e = mkF2Bits(e);
  if (kind == 4) {
    if (e->sort == SBool)
      return e;
    Expr *b = mkExtract(e, 0, 1);
    return mkEq(b, cBV(1, 1));
  }
  if (e->sort == SBool)
    return mkB2BV(e, w);
  if (e->width > w)
    return mkExtract(e, 0, w);
  return e;
}
static Expr *loadRaw(u64 x, unsigned n, int kind, int w, const unsigned char *mem)
{
  Page *p0 = getPage(x >> 12);
  Page *p1 = ((x + n - 1) >> 12) == (x >> 12) ? p0 : getPage((x + n - 1) >> 12);
  if ((!p0 || !p0->cnt) && (!p1 || !p1->cnt))
    return nullptr;
  Expr   *ex[16];
  uint8_t of[16];
  bool    any = false;
  if (n > 16)
    return nullptr;
  for (unsigned i = 0; i < n; ++i) {
    Page *p = ((x + i) >> 12) == (x >> 12) ? p0 : p1;
    ex[i]   = p ? p->e[(x + i) & 4095] : nullptr;
    of[i]   = p ? p->off[(x + i) & 4095] : 0;
    if (ex[i])
      any = true;
  }
  if (!any)
    return nullptr;
  RT   rt;
  bool whole = true;
  for (unsigned i = 0; i < n; ++i)
    if (ex[i] != ex[0] || of[i] != i)
      whole = false;
  if (whole && ex[0]->width == n * 8)
    return adapt(ex[0], kind, w);
  Expr *r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    Expr *b;
    if (ex[i])
      b = mkExtract(toBV(ex[i], ex[i]->width), of[i] * 8, 8);
    else
      b = cBV(mem[i], 8);
    r = r ? mkConcat(b, r) : b;
  }
  return adapt(r, kind, w);
}
Expr *__sym_load(void *a, unsigned n, int kind, int w, const char *site)
{
  if (!nPages)
    return nullptr;
  Expr *e = loadRaw((u64) a, n, kind, w, (const unsigned char *) a);
  if (e && !isC(e) && g_sym) {
    RT rt;
    g_siteptr->insert(site);
  }
  return e && isC(e) ? nullptr : e;
}
static Expr *liftConst(u64 bits, int kind, int w)
{
  if (kind == 2)
    return cF(bits2d(bits));
  if (kind == 1) {
    float f;
    uint32_t t = (uint32_t) bits;
    memcpy(&f, &t, 4);
    return cF(f);
  }
  if (kind == 4)
    return cBool(bits & 1);
  return cBV(bits, w);
}
static bool iteLeaves(Expr *p, int depth, int &n)
{
  if (isC(p)) {
    ++n;
    return true;
  }
  if (p->op == O_ITE && depth < 6)
    return iteLeaves(p->b, depth + 1, n) && iteLeaves(p->c, depth + 1, n);
  return false;
}
static Expr *loadTree(Expr *p, unsigned n, int kind, int w, bool &ok)
{
  if (!ok)
    return nullptr;
  if (isC(p)) {
    unsigned char buf[16];
    if (n > 16 || !safeRead(p->k, buf, n)) {
      ok = false;
      return nullptr;
    }
    Expr *e = loadRaw(p->k, n, kind, w, buf);
    if (e)
      return e;
    u64 bits = 0;
    memcpy(&bits, buf, std::min(n, 8u));
    return liftConst(bits, kind, w);
  }
  Expr *x = loadTree(p->b, n, kind, w, ok);
  Expr *y = loadTree(p->c, n, kind, w, ok);
  if (!ok)
    return nullptr;
  if (x->sort != y->sort || x->width != y->width) {
    ok = false;
    return nullptr;
  }
  return mkIte(p->a, x, y);
}
u64   __sym_conc(Expr *e, u64 native, const char *site);
u64   __sym_addr; // the address the native load goes on with
Expr *__sym_load_ite(void *a, Expr *pe, unsigned n, int kind, int w, const char *site)
{
  __sym_addr = (u64) a;
  if (!pe || !g_sym)
    return __sym_load(a, n, kind, w, site);
  {
    RT  rt;
    int nl = 0;
    if (pe->op == O_ITE && iteLeaves(pe, 0, nl)) {
      bool  ok = true;
      Expr *r  = loadTree(pe, n, kind, w, ok);
      if (ok) {
        g_siteptr->insert(site);
        return isC(r) ? nullptr : r;
      }
    }
  }
  a          = (void *) __sym_conc(pe, (u64) a, site);
  __sym_addr = (u64) a;
  return __sym_load(a, n, kind, w, site);
}
void __sym_memcpy_shadow(void *d, void *s, u64 n)
{
  if (!nPages || d == s)
    return;
  bool any = false;
  for (u64 pg = (u64) s >> 12; pg <= ((u64) s + n - 1) >> 12 && n; ++pg) {
    Page *p = getPage(pg);
    if (p && p->cnt) {
      any = true;
      break;
    }
  }
  if (!any) {
    __sym_clear(d, n);
    return;
  }
  RT                                       rt;
  std::vector<std::pair<Expr *, uint8_t>> tmp(n);
  for (u64 i = 0; i < n; ++i) {
    Page *p = getPage(((u64) s + i) >> 12);
    if (p)
      tmp[i] = {p->e[((u64) s + i) & 4095], p->off[((u64) s + i) & 4095]};
  }
  __sym_clear(d, n);
  for (u64 i = 0; i < n; ++i)
    if (tmp[i].first) {
      Page *p = makePage(((u64) d + i) >> 12);
      int   k = (int) (((u64) d + i) & 4095);
      if (!p->e[k])
        p->cnt++;
      p->e[k]   = tmp[i].first;
      p->off[k] = tmp[i].second;
    }
}
void __sym_memset_shadow(void *d, Expr *v, u64 n)
{
  if (!v) {
    __sym_clear(d, n);
    return;
  }
  RT    rt;
  Expr *b = mkExtract(toBV(v, 8), 0, 8);
  for (u64 i = 0; i < n; ++i)
    __sym_store((char *) d + i, b, 1);
}
void __sym_byval(void *d, void *src, u64 n)
{
  if (src)
    __sym_memcpy_shadow(d, src, n);
  else
    __sym_clear(d, n);
}

void __sym_lost(Expr *e, int code, const char *site)
{
  if (!e || !g_sym)
    return;
  RT rt;
  if (e->sort != SF) {
    concretise(e, site);
    return;
  }
  (*lostMap)["lost-" + std::to_string(code) + ":" + (site ? site : "?")]++;
}
u64 __sym_conc(Expr *e, u64 native, const char *site)
{
  if (!e || !g_sym)
    return native;
  RT  rt;
  u64 v = concretise(e, site);
  if (v != native && e->width == 64)
    st.opmismatch++, nativeMismatch("concretised value", site);
  return v;
}
void __sym_post_call(void *fn, const char *site, unsigned nslots)
{
  if (__sym_callee != fn)
    return;
  __sym_callee = nullptr;
  if (!g_sym || !nslots)
    return;
  for (unsigned i = 0; i < nslots; ++i)
    if (__sym_args[i]) {
      RT    rt;
      Expr *e = __sym_args[i];
      if (e->sort != SF)
        concretise(e, site);
      else
        (*lostMap)[std::string("native-call:") + site]++;
    }
}

static inline void opCheckF(Expr *e, double c, const char *what)
{
  st.opchecks++;
  if (g_mode == 1) {
    double d = bits2d(e->v);
    if (!(d == c || (std::isnan(d) && std::isnan(c))))
      st.opmismatch++, nativeMismatch(what, nullptr);
  } else {
    double d = qToD(*e->q);
    if (!(std::fabs(d - c) <= 1e-6 * (1 + std::fabs(d) + std::fabs(c))))
      st.opmismatch++;
  }
}
static inline void opCheckI(Expr *e, u64 c, int w)
{
  st.opchecks++;
  if (g_mode == 0 && e->op == O_F2BITS)
    return;
  if (e->v != (c & MASK(w)))
    st.opmismatch++;
}
static Expr *ret(Expr *e) { return e && isC(e) ? nullptr : e; }

static Expr *bv(Expr *e, u64 c, int w)
{
  if (!e)
    return cBV(c, w);
  opCheckI(e, c, w);
  if (e->sort == SBool)
    return w == 1 ? e : mkB2BV(e, w);
  if (e->sort == SF)
    return mkF2Bits(e);
  return e;
}
// LLVM opcode numbers (LLVM 18 Instruction.def)
enum { L_Add = 13,
       L_FAdd,
       L_Sub,
       L_FSub,
       L_Mul,
       L_FMul,
       L_UDiv,
       L_SDiv,
       L_FDiv,
       L_URem,
       L_SRem,
       L_FRem,
       L_Shl,
       L_LShr,
       L_AShr,
       L_And,
       L_Or,
       L_Xor };
Expr *__sym_bin(int op, Expr *a, Expr *b, u64 ca, u64 cb, int w)
{
  if ((!a && !b) || !g_sym)
    return nullptr;
  RT rt;
  if (w == 1) {
    Expr *x = a ? (a->sort == SBool ? a : mkEq(mkExtract(a, 0, 1), cBV(1, 1))) : cBool(ca & 1);
    Expr *y = b ? (b->sort == SBool ? b : mkEq(mkExtract(b, 0, 1), cBV(1, 1))) : cBool(cb & 1);
    switch (op) {
    case L_And:
    case L_Mul: return ret(mkAnd(x, y));
    case L_Or: return ret(mkOr(x, y));
    case L_Xor:
    case L_Add:
    case L_Sub: return ret(mkXor(x, y));
    default:
      decide(x, nullptr);
      decide(y, nullptr);
      return nullptr;
    }
  }
  Expr *x = bv(a, ca, w), *y = bv(b, cb, w);
  if (w > 64)
    return nullptr;
  Op o;
  switch (op) {
  case L_Add: o = O_ADD; break;
  case L_Sub: o = O_SUB; break;
  case L_Mul: o = O_MUL; break;
  case L_UDiv: o = O_UDIV; break;
  case L_SDiv: o = O_SDIV; break;
  case L_URem: o = O_UREM; break;
  case L_SRem: o = O_SREM; break;
  case L_Shl: o = O_SHL; break;
  case L_LShr: o = O_LSHR; break;
  case L_AShr: o = O_ASHR; break;
  case L_And: o = O_AND; break;
  case L_Or: o = O_OR; break;
  case L_Xor: o = O_XOR; break;
  default: return nullptr;
  }
  if ((o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM) && !isC(y)) {
    // division by zero traps: decide it (the native run would crash on that side)
    decide(mkEq(y, cBV(0, w)), nullptr);
  }
  return ret(mkBV(o, x, y));
}
static Expr *fx(Expr *e, double c)
{
  if (!e)
    return cF(c);
  if (e->sort == SBV)
    e = mkBits2F(e);
  opCheckF(e, c, "float operand");
  return e;
}
static Expr *fminmax(bool mx, Expr *x, Expr *y)
{
  Expr *c = mx ? mkFC(O_FLT, x, y) : mkFC(O_FLT, y, x);
  if (g_split && g_mode == 0 && !isC(c))
    return decide(c, nullptr) ? y : x;
  return mkIte(c, y, x);
}
Expr *__sym_fbin(int op, Expr *a, Expr *b, double ca, double cb, int w)
{
  if ((!a && !b) || !g_sym)
    return nullptr;
  RT rt;
  if (w == 32 && g_mode == 1) {
    (*lostMap)["float32"]++;
    return nullptr;
  }
  if (g_mode == 0) {
    // concrete non finite operands: result is decided by the sign of the symbolic one
    bool na = !a && !std::isfinite(ca), nb = !b && !std::isfinite(cb);
    if (na || nb) {
      Expr *s = na ? b : a;
      if (s->sort == SF && (op == L_FMul || (op == L_FDiv && na))) {
        decide(mkFC(O_FLT, s, cF(0)), nullptr);
        decide(mkFC(O_FEQ, s, cF(0)), nullptr);
      }
      if (op == 101 || op == 102) { // min/max against inf: result is either operand
        double k = na ? ca : cb;
        if (std::isinf(k))
          return ((op == 101) == (k > 0)) ? s : nullptr;
        return s; // nan: the other operand
      }
      return nullptr;
    }
  }
  Expr *x = fx(a, ca), *y = fx(b, cb);
  if (g_mode == 0) {
    switch (op) {
    case L_FAdd:
      if (isC(x) && bits2d(x->k) == 0)
        return ret(y);
      if (isC(y) && bits2d(y->k) == 0)
        return ret(x);
      return ret(mkF(O_FADD, x, y));
    case L_FSub:
      if (isC(y) && bits2d(y->k) == 0)
        return ret(x);
      if (x == y)
        return nullptr;
      return ret(mkF(O_FSUB, x, y));
    case L_FMul:
      if (isC(x))
        std::swap(x, y);
      if (isC(y) && bits2d(y->k) == 0)
        return nullptr;
      if (isC(y) && bits2d(y->k) == 1)
        return ret(x);
      return ret(mkF(O_FMUL, x, y));
    case L_FDiv:
      if (!isC(y)) {
        if (decide(mkFC(O_FEQ, y, cF(0)), nullptr)) {
          // IEEE: x/0 is +-inf or nan, a concrete non finite value once the sign of x is fixed
          decide(mkFC(O_FLT, x, cF(0)), nullptr);
          decide(mkFC(O_FEQ, x, cF(0)), nullptr);
          return nullptr;
        }
      }
      if (isC(y) && bits2d(y->k) == 1)
        return ret(x);
      if (isC(y) && bits2d(y->k) == 0) {
        decide(mkFC(O_FLT, x, cF(0)), nullptr);
        decide(mkFC(O_FEQ, x, cF(0)), nullptr);
        return nullptr;
      }
      if (isC(x) && bits2d(x->k) == 0)
        return nullptr;
      return ret(mkF(O_FDIV, x, y));
    }
  }
  switch (op) {
  case L_FAdd: return ret(mkF(O_FADD, x, y));
  case L_FSub: return ret(mkF(O_FSUB, x, y));
  case L_FMul: return ret(mkF(O_FMUL, x, y));
  case L_FDiv: return ret(mkF(O_FDIV, x, y));
  case L_FRem: return ret(mkF(O_FREM, x, y));
  case 101: return ret(fminmax(false, x, y));
  case 102: return ret(fminmax(true, x, y));
  case 103:
    if (isC(y)) {
      double p = bits2d(y->k);
      if (p == 0.5)
        return ret(mkF(O_FSQRT, x));
      if (p == std::floor(p) && std::fabs(p) <= 8 && g_mode == 0) {
        int   n = (int) std::fabs(p);
        Expr *r = cF(1);
        for (int i = 0; i < n; ++i)
          r = i ? mkF(O_FMUL, r, x) : x;
        if (p < 0) {
          if (decide(mkFC(O_FEQ, x, cF(0)), nullptr))
            return nullptr;
          r = mkF(O_FDIV, cF(1), r);
        }
        return ret(r);
      }
    }
    return ret(mkF(O_UF2, x, y, 103));
  case 104: {
    Expr *ax = mkF(O_FABS, x);
    return ret(mkIte(mkFC(O_FLT, y, cF(0)), mkF(O_FNEG, ax), ax));
  }
  default: return ret(mkF(O_UF2, x, y, (u64) op));
  }
}
Expr *__sym_fma(Expr *a, Expr *b, Expr *c, double x, double y, double z)
{
  Expr *m = __sym_fbin(L_FMul, a, b, x, y, 64);
  return __sym_fbin(L_FAdd, m, c, x * y, z, 64);
}
Expr *__sym_fun(int code, Expr *a, double c, int w)
{
  if (!a || !g_sym)
    return nullptr;
  RT    rt;
  Expr *x = fx(a, c);
  switch (code) {
  case 0: return ret(mkF(O_FNEG, x));
  case 1:
    if (g_mode == 0 && x->lo >= 0)
      return ret(x);
    return ret(mkAbs(x));
  case 2:
    if (g_mode == 0) {
      if (decide(mkFC(O_FLT, x, cF(0)), nullptr))
        return nullptr; // NaN natively
      // sqrt(y*y) = |y|
      if (x->op == O_FMUL && x->a == x->b)
        return ret(mkAbs(x->a));
    }
    return ret(mkF(O_FSQRT, x));
  case 3: return ret(x->isint ? x : mkF(O_FFLOOR, x));
  case 4: return ret(mkF(O_FNEG, mkF(O_FFLOOR, mkF(O_FNEG, x))));
  case 5: return ret(mkF(O_FTRUNC, x));
  case 6: return ret(mkF(O_FRNE, x));
  case 7: { // round half away from zero = trunc(x + copysign(0.5,x)) in exact arithmetic
    if (g_mode == 1) {
      (*lostMap)["round-ieee"]++;
      return nullptr;
    }
    Expr *h = mkIte(mkFC(O_FLT, x, cF(0)), cF(-0.5), cF(0.5));
    return ret(mkF(O_FTRUNC, mkF(O_FADD, x, h)));
  }
  default: {
    Expr *r = mkF(O_UF1, x, nullptr, (u64) code);
    return ret(r);
  }
  }
}
Expr *__sym_intr2(int code, Expr *a, Expr *b, u64 ca, u64 cb, int w)
{
  if ((!a && !b) || !g_sym)
    return nullptr;
  RT    rt;
  Expr *x = bv(a, ca, w), *y = bv(b, cb, w);
  switch (code) {
  case 0: return ret(mkIte(mkCmp(O_ULT, x, y), x, y));
  case 1: return ret(mkIte(mkCmp(O_ULT, x, y), y, x));
  case 2: return ret(mkIte(mkCmp(O_SLT, x, y), x, y));
  case 3: return ret(mkIte(mkCmp(O_SLT, x, y), y, x));
  case 4: return ret(mkIte(mkCmp(O_ULT, x, y), cBV(0, w), mkBV(O_SUB, x, y)));
  case 5: {
    Expr *s = mkBV(O_ADD, x, y);
    return ret(mkIte(mkCmp(O_ULT, s, x), cBV(~0ull, w), s));
  }
  case 6: return ret(mkIte(mkCmp(O_SLT, x, cBV(0, w)), mkBV(O_SUB, cBV(0, w), x), x));
  }
  return nullptr;
}
Expr *__sym_ovf(int code, Expr *a, Expr *b, u64 ca, u64 cb, int w)
{
  if ((!a && !b) || !g_sym)
    return nullptr;
  RT    rt;
  Expr *x = bv(a, ca, w), *y = bv(b, cb, w);
  bool  sgn = !(code & 1);
  if (code >= 4) {
    if (w > 32) {
      if (isC(x))
        std::swap(x, y);
      if (isC(y) && !sgn && y->k) // x*k overflows iff x > max/k
        return ret(mkCmp(O_ULT, cBV(MASK(w) / y->k, w), x));
      concretise(x, nullptr);
      concretise(y, nullptr);
      return nullptr;
    }
    Expr *X = sgn ? mkSext(x, 64) : mkZext(x, 64), *Y = sgn ? mkSext(y, 64) : mkZext(y, 64);
    Expr *p = mkBV(O_MUL, X, Y), *t = mkExtract(p, 0, w);
    return ret(mkNot(mkEq(p, sgn ? mkSext(t, 64) : mkZext(t, 64))));
  }
  Expr *r = mkBV(code < 2 ? O_ADD : O_SUB, x, y);
  if (!sgn)
    return ret(code == 1 ? mkCmp(O_ULT, r, x) : mkCmp(O_ULT, x, y));
  Expr *z  = cBV(0, w);
  Expr *nx = mkCmp(O_SLT, x, z), *ny = mkCmp(O_SLT, y, z), *nr = mkCmp(O_SLT, r, z);
  Expr *same = code == 0 ? mkNot(mkXor(nx, ny)) : mkXor(nx, ny);
  return ret(mkAnd(same, mkXor(nx, nr)));
}
Expr *__sym_icmp(int pred, Expr *a, Expr *b, u64 ca, u64 cb, int w)
{
  if ((!a && !b) || !g_sym)
    return nullptr;
  RT rt;
  if (w == 1) {
    Expr *x = a ? (a->sort == SBool ? a : mkEq(a, cBV(1, 1))) : cBool(ca & 1);
    Expr *y = b ? (b->sort == SBool ? b : mkEq(b, cBV(1, 1))) : cBool(cb & 1);
    Expr *n = mkXor(x, y);
    switch (pred) {
    case 32: return ret(mkNot(n));
    case 33: return ret(n);
    case 34: return ret(mkAnd(x, mkNot(y)));
    case 35: return ret(mkOr(x, mkNot(y)));
    case 36: return ret(mkAnd(mkNot(x), y));
    case 37: return ret(mkOr(mkNot(x), y));
    case 38: return ret(mkAnd(mkNot(x), y));
    case 39: return ret(mkOr(mkNot(x), y));
    case 40: return ret(mkAnd(x, mkNot(y)));
    case 41: return ret(mkOr(x, mkNot(y)));
    }
  }
  // sign test on the bits of a double
  if (g_mode == 0 && w == 64) {
    Expr *f = a && a->sort == SBV && a->op == O_F2BITS ? a->a : nullptr;
    if (f && !b && cb == 0 && pred == 40)
      return ret(mkFC(O_FLT, f, cF(0)));
    if (f && !b && cb == ~0ull && pred == 38)
      return ret(mkFC(O_FLE, cF(0), f));
  }
  Expr *x = bv(a, ca, w), *y = bv(b, cb, w);
  switch (pred) {
  case 32: return ret(mkEq(x, y));
  case 33: return ret(mkNot(mkEq(x, y)));
  case 34: return ret(mkCmp(O_ULT, y, x));
  case 35: return ret(mkCmp(O_ULE, y, x));
  case 36: return ret(mkCmp(O_ULT, x, y));
  case 37: return ret(mkCmp(O_ULE, x, y));
  case 38: return ret(mkCmp(O_SLT, y, x));
  case 39: return ret(mkCmp(O_SLE, y, x));
  case 40: return ret(mkCmp(O_SLT, x, y));
  case 41: return ret(mkCmp(O_SLE, x, y));
  }
  return nullptr;
}
Expr *__sym_fcmp(int pred, Expr *a, Expr *b, double ca, double cb, int w)
{
  if ((!a && !b) || !g_sym)
    return nullptr;
  RT rt;
  if (pred == 100) { // is_fpclass
    unsigned m = (unsigned) cb;
    Expr    *x = fx(a, ca);
    Expr    *z = cF(0);
    Expr    *r = cBool(false);
    if (m & 3)
      r = mkOr(r, intern(O_FISNAN, SBool, 1, x));
    if (g_mode == 0) {
      // finite classes: neg normal/subnormal 8|16, neg zero 32, pos zero 64, pos sub/normal 128|256
      r = cBool(false);
      if (m & 0x18)
        r = mkOr(r, mkFC(O_FLT, x, z));
      if (m & 0x60)
        r = mkOr(r, mkFC(O_FEQ, x, z));
      if (m & 0x180)
        r = mkOr(r, mkFC(O_FLT, z, x));
      return ret(r);
    }
    Expr *nan = intern(O_FISNAN, SBool, 1, x), *inf = intern(O_FISINF, SBool, 1, x);
    Expr *neg = mkCmp(O_SLT, mkF2Bits(x), cBV(0, 64));
    r         = cBool(false);
    if (m & 3)
      r = mkOr(r, nan);
    if (m & 4)
      r = mkOr(r, mkAnd(inf, neg));
    if (m & 0x200)
      r = mkOr(r, mkAnd(inf, mkNot(neg)));
    Expr *fin = mkAnd(mkNot(nan), mkNot(inf));
    Expr *zz  = mkFC(O_FEQ, x, z);
    if (m & 0x18)
      r = mkOr(r, mkAnd(fin, mkAnd(neg, mkNot(zz))));
    if (m & 0x20)
      r = mkOr(r, mkAnd(zz, neg));
    if (m & 0x40)
      r = mkOr(r, mkAnd(zz, mkNot(neg)));
    if (m & 0x180)
      r = mkOr(r, mkAnd(fin, mkAnd(mkNot(neg), mkNot(zz))));
    return ret(r);
  }
  if (g_mode == 0) {
    if ((!a && !std::isfinite(ca)) || (!b && !std::isfinite(cb)))
      return nullptr; // outcome does not depend on the finite operand
    if (pred == 7)
      return nullptr; // ord: all symbolic reals are ordered
    if (pred == 8)
      return nullptr;
  }
  Expr *x = fx(a, ca), *y = fx(b, cb);
  Expr *r = nullptr;
  switch (pred & 7) {
  case 1: r = mkFC(O_FEQ, x, y); break;
  case 2: r = mkFC(O_FLT, y, x); break;
  case 3: r = mkFC(O_FLE, y, x); break;
  case 4: r = mkFC(O_FLT, x, y); break;
  case 5: r = mkFC(O_FLE, x, y); break;
  case 6: r = mkOr(mkFC(O_FLT, x, y), mkFC(O_FLT, y, x)); break;
  case 7: r = nullptr; break;
  case 0: r = nullptr; break;
  }
  if (g_mode == 0) {
    if ((pred & 7) == 6)
      r = mkNot(mkFC(O_FEQ, x, y));
    return ret(r);
  }
  Expr *un = mkOr(intern(O_FISNAN, SBool, 1, x), intern(O_FISNAN, SBool, 1, y));
  if (pred == 7)
    return ret(mkNot(un));
  if (pred == 8)
    return ret(un);
  if (pred > 8 && pred < 15)
    return ret(mkOr(un, r));
  return ret(r);
}
enum { L_Trunc = 38,
       L_ZExt,
       L_SExt,
       L_FPToUI,
       L_FPToSI,
       L_UIToFP,
       L_SIToFP,
       L_FPTrunc,
       L_FPExt,
       L_PtrToInt,
       L_IntToPtr,
       L_BitCast,
       L_ASC };
Expr *__sym_cast(int op, Expr *a, int k1, int w1, int k2, int w2)
{
  if (!a || !g_sym)
    return nullptr;
  RT rt;
  switch (op) {
  case L_Trunc: {
    Expr *x = toBV(a, w1);
    if (w2 == 1)
      return ret(x->op == O_B2BV ? x->a : mkEq(mkExtract(x, 0, 1), cBV(1, 1)));
    return ret(mkExtract(x, 0, w2));
  }
  case L_ZExt: return ret(mkZext(toBV(a, w1 == 1 ? w2 : w1), w2));
  case L_SExt:
    if (a->sort == SBool)
      return ret(mkSext(a, w2));
    return ret(mkSext(toBV(a, w1), w2));
  case L_PtrToInt:
  case L_IntToPtr:
    if (w2 < 64 && op == L_PtrToInt)
      return ret(mkExtract(a, 0, w2));
    return a;
  case L_BitCast:
    if (k1 == 2 && k2 == 0)
      return ret(toBV(a, 64));
    if (k1 == 0 && k2 == 2)
      return ret(a->sort == SF ? a : mkBits2F(a));
    return a;
  case L_FPTrunc:
  case L_FPExt:
    if (g_mode == 1) {
      (*lostMap)["float32"]++;
      return nullptr;
    }
    return a;
  case L_SIToFP:
  case L_UIToFP:
    if (a->sort == SBool)
      return ret(mkIte(a, cF(op == L_SIToFP ? -1 : 1), cF(0)));
    if (a->op == O_B2BV)
      return ret(mkIte(a->a, cF(1), cF(0)));
    if (g_mode == 0) {
      concretise(a, "int-to-double");
      return nullptr;
    }
    return ret(intern(op == L_SIToFP ? O_SI2F : O_UI2F, SF, 64, a));
  case L_FPToSI:
  case L_FPToUI:
    if (g_mode == 0) {
      concretise(mkF(O_FTRUNC, a), "double-to-int");
      return nullptr;
    }
    return ret(intern(O_F2SI, SBV, w2, a));
  }
  return nullptr;
}
Expr *__sym_select(bool c, Expr *sc, Expr *a, Expr *b, u64 ca, u64 cb, int kind, int w)
{
  if (!sc || !g_sym)
    return c ? a : b;
  RT    rt;
  Expr *x = a ? adapt(a, kind, w) : nullptr, *y = b ? adapt(b, kind, w) : nullptr;
  if (!x || !y) {
    // non finite constants cannot be represented in real mode: decide the condition instead
    if (g_mode == 0 && (kind == 2) && ((!x && !std::isfinite(bits2d(ca))) || (!y && !std::isfinite(bits2d(cb))))) {
      bool d = decide(sc, nullptr);
      return d ? a : b;
    }
    if (!x)
      x = liftConst(ca, kind, w);
    if (!y)
      y = liftConst(cb, kind, w);
  }
  if (sc->sort != SBool)
    sc = mkEq(mkExtract(sc, 0, 1), cBV(1, 1));
  if (g_split && g_mode == 0 && kind == 2 && !isC(sc))
    return decide(sc, nullptr) ? a : b;
  return ret(mkIte(sc, x, y));
}
static bool isShortcut(const char *site)
{
  static std::map<const char *, bool> *memo = new std::map<const char *, bool>;
  auto                                 it   = memo->find(site);
  if (it == memo->end())
    it = memo->emplace(site, strstr(site, "SparseQR_QProduct") || strstr(site, "sparse_solve_triangular_selector")).first;
  return it->second;
}
bool __sym_branch(bool c, Expr *s, const char *site)
{
  if (!s || !g_sym)
    return c;
  RT rt;
  if (s->sort != SBool)
    s = mkEq(mkExtract(s, 0, 1), cBV(1, 1));
  if (isC(s)) {
    if ((s->k & 1) != c)
      st.diverge++;
    return s->k & 1;
  }
  if ((s->v & 1) != c)
    st.diverge++, nativeMismatch("branch condition", site);
  if (g_mode == 0 && site && isShortcut(site)) {
    // "if (tau == 0) continue;" in front of y -= tau * v: skipping and not skipping give the same result, so that
    // no decision is needed and the general side is taken
    Expr *e   = s->op == O_NOT ? s->a : s;
    bool  neg = s->op == O_NOT;
    if (e->op == O_FEQ && ((isC(e->b) && valueOf(e->b) << 1 == 0) || (isC(e->a) && valueOf(e->a) << 1 == 0)))
      return neg;
  }
  return decide(s, site);
}

// ---------------------------------------------------------------- harness API
static std::string inputName(const char *n)
{
  RT  rt;
  int k = g_inputCount[n]++;
  std::string r(n);
  for (auto &c : r)
    if (c == ' ' || c == '=' || c == '\t')
      c = '_';
  return k ? r + "#" + std::to_string(k) : r;
}
static u64 hashName(const std::string &s)
{
  u64 h = 1469598103934665603ull ^ (g_seed * 0x9E3779B97F4A7C15ull);
  for (char c : s)
    h = (h ^ (unsigned char) c) * 1099511628211ull;
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
static double parseQ(const std::string &v, mpq_class &q, bool &approx)
{
  std::string s = v;
  approx        = false;
  if (!s.empty() && s[0] == '~') {
    approx = true;
    s      = s.substr(1);
  }
  q = mpq_class(s);
  q.canonicalize();
  return q.get_d();
}
static void consume(void *fn)
{
  if (__sym_callee == fn)
    __sym_callee = nullptr;
}
double __sym_input_f(const char *name, double lo, double hi, int integral)
{
  consume((void *) &__sym_input_f);
  RT          rt;
  std::string n = inputName(name);
  if (!g_sym) {
    auto it = g_replayModel.find(n);
    __sym_rets[0] = nullptr;
    if (it != g_replayModel.end()) {
      if (g_mode == 1)
        return bits2d(strtoull(it->second.c_str(), nullptr, 10));
      mpq_class q;
      bool      ap;
      return parseQ(it->second, q, ap);
    }
    double mid = (lo + hi) / 2;
    return integral ? std::floor(mid) : mid;
  }
  Expr *e = new Expr;
  memset((void *) e, 0, sizeof *e);
  e->op       = O_INPUT;
  e->sort     = SF;
  e->width    = 64;
  e->name     = new std::string(n);
  e->id       = g_nid++;
  e->lo       = lo;
  e->hi       = hi;
  e->isint    = integral;
  e->bitexact = true;
  double      native;
  auto        it = cur->model.find(n);
  if (g_mode == 1) {
    if (it != cur->model.end())
      native = bits2d(strtoull(it->second.c_str(), nullptr, 10));
    else {
      native = lo + (double) (hashName(n) % 1024) / 1024 * (hi - lo);
      if (integral)
        native = std::floor(native);
    }
    e->v = d2bits(native);
  } else {
    mpq_class q;
    bool      ap = false;
    if (it != cur->model.end())
      native = parseQ(it->second, q, ap);
    else {
      double l = std::max(lo, -1e6), h = std::min(hi, 1e6);
      native = l + (double) (hashName(n) % 1024) / 1024 * (h - l);
      if (integral)
        native = std::floor(native);
      q = mpq_class(native);
    }
    e->q      = new mpq_class(q);
    e->approx = ap;
  }
  // fresh inputs are unique by name, no interning needed
  inputs->push_back(e);
  zx(e);
  Expr *L = mkFC(O_FLE, cF(lo), e), *H = mkFC(O_FLE, e, cF(hi));
  if (g_mode == 0) { // mkFC prunes by the very same interval: assert the raw comparison
    L = intern(O_FLE, SBool, 1, cF(lo), e);
    H = intern(O_FLE, SBool, 1, e, cF(hi));
  }
  if (std::isfinite(lo))
    addPC(L), (*known)[L] = true;
  if (std::isfinite(hi))
    addPC(H), (*known)[H] = true;
  if (g_mode == 1 && integral) {
    addPC(mkFC(O_FEQ, e, mkF(O_FTRUNC, e)));
  }
  __sym_rets[0] = e;
  return native;
}
u64 __sym_input_i(const char *name, int width, i64 lo, i64 hi)
{
  consume((void *) &__sym_input_i);
  RT          rt;
  std::string n = inputName(name);
  if (!g_sym) {
    __sym_rets[0] = nullptr;
    auto it       = g_replayModel.find(n);
    if (it != g_replayModel.end())
      return strtoull(it->second.c_str(), nullptr, 10);
    return (u64) lo & MASK(width);
  }
  Expr *e = new Expr;
  memset((void *) e, 0, sizeof *e);
  e->op    = O_INPUT;
  e->sort  = SBV;
  e->width = (uint16_t) width;
  e->name  = new std::string(n);
  e->id    = g_nid++;
  auto it  = cur->model.find(n);
  if (it != cur->model.end())
    e->v = strtoull(it->second.c_str(), nullptr, 10);
  else {
    u64 range = (u64) hi - (u64) lo + 1;
    e->v      = ((u64) lo + (range ? hashName(n) % range : hashName(n))) & MASK(width);
  }
  inputs->push_back(e);
  zx(e);
  Expr *L = mkCmp(O_SLE, cBV((u64) lo, width), e), *H = mkCmp(O_SLE, e, cBV((u64) hi, width));
  bool  full = width == 64 ? false : (lo == -(1ll << (width - 1)) && hi == (1ll << (width - 1)) - 1);
  if (width < 64 && lo == 0 && hi == (i64) MASK(width))
    full = true; // unsigned full range
  else if (width < 64 && hi > (1ll << (width - 1)) - 1) {
    L = mkCmp(O_ULE, cBV((u64) lo, width), e);
    H = mkCmp(O_ULE, e, cBV((u64) hi, width));
  }
  if (!full) {
    addPC(L);
    addPC(H);
  }
  __sym_rets[0] = width == 64 ? e : mkZext(e, 64);
  return e->v;
}
int __sym_choice(const char *name, int n)
{
  consume((void *) &__sym_choice);
  u64 v = __sym_input_i(name, 32, 0, n - 1);
  if (g_sym && __sym_rets[0]) {
    Expr *e = __sym_rets[0];
    v       = concretise(e, "choice");
  }
  __sym_rets[0] = nullptr;
  return (int) v;
}
static Expr *takeArg(void *fn, int i)
{
  Expr *e = __sym_callee == fn ? __sym_args[i] : nullptr;
  return e;
}
static Expr *toB(Expr *e)
{
  if (e->sort == SBool)
    return e;
  return mkEq(mkExtract(toBV(e, 8), 0, 1), cBV(1, 1));
}
void __sym_end_path()
{
  consume((void *) &__sym_end_path);
  if (g_sym)
    endPath();
  if (g_replay) {
    printf("REPLAY path ended outside the assumptions\n");
    fflush(stdout);
    _exit(g_replayFailed ? 1 : 3); // what failed before still failed
  }
  _exit(0);
}
void __sym_assume(bool c)
{
  Expr *e = takeArg((void *) &__sym_assume, 0);
  consume((void *) &__sym_assume);
  RT rt;
  if (!g_sym) {
    if (!c)
      __sym_end_path();
    return;
  }
  if (!e) {
    if (!c)
      endPath();
    return;
  }
  e = toB(e);
  if (isC(e)) {
    if (!e->k)
      endPath();
    return;
  }
  auto it = known->find(e->op == O_NOT ? e->a : e);
  if (it != known->end()) {
    if (it->second == (e->op == O_NOT))
      endPath();
    return;
  }
  // restart from a model satisfying the assumption if the present one does not
  if (g_pos >= cur->prefix.size()) {
    if (!(e->v & 1) || e->approx) {
      Model m;
      int   r = query(e, &m);
      if (r == 1) {
        Dec d;
        d.t = '1';
        if (!(e->v & 1)) {
          emitItem(*trail, d, m);
          endPath();
        }
      } else {
        if (r < 0) {
          st.unknownBranches++;
          (*lostMap)["unknown-assume"]++;
        }
        endPath();
      }
    }
    Dec d;
    d.t = '1';
    trail->push_back(d);
    g_pos++;
  } else {
    if (cur->prefix[g_pos].t != '1') {
      emit("ERROR\tprefix mismatch at assume\n");
      endPath();
    }
    trail->push_back(cur->prefix[g_pos]);
    g_pos++;
  }
  addPC(e);
  (*known)[e->op == O_NOT ? e->a : e] = e->op != O_NOT;
}
// strongNeg: optional stronger refutation, tried first after a refutation to get a robust counterexample
static void doCheck(Expr *e, bool c, const char *label, Expr *strongNeg = nullptr)
{
  st.checks++;
  (*g_checks)[label]++;
  if (!e) {
    st.checksConcrete++;
    if (!c) {
      emitViolation(label, currentModel());
      endPath();
    }
    return;
  }
  e = toB(e);
  if (isC(e)) {
    if (e->k) {
      st.discharged++;
      return;
    }
    emitViolation(label, currentModel());
    endPath();
  }
  auto it = known->find(e->op == O_NOT ? e->a : e);
  if (it != known->end()) {
    bool val = it->second != (e->op == O_NOT);
    if (val) {
      st.discharged++;
      return;
    }
  }
  // skip when re-executing a prefix that was already checked: obligations before the last prefix
  // decision were discharged by the parent path under a weaker path condition
  if (g_pos < cur->prefix.size()) {
    addPC(e);
    (*known)[e->op == O_NOT ? e->a : e] = e->op != O_NOT;
    return;
  }
  Model m;
  int   r = query(mkNot(e), &m);
  if (r == 0) {
    st.discharged++;
    (*known)[e->op == O_NOT ? e->a : e] = e->op != O_NOT;
  } else if (r == 1) {
    if (strongNeg) {
      Model m2;
      if (query(strongNeg, &m2) == 1)
        m = m2;
    }
    Model full = currentModel();
    for (auto &kv : m)
      full[kv.first] = kv.second;
    emitViolation(label, full);
    // continue on the side where the property holds, if any
    if (!(e->v & 1))
      endPath();
    addPC(e);
    (*known)[e->op == O_NOT ? e->a : e] = e->op != O_NOT;
  } else {
    st.checkUnknown++;
    (*lostMap)[std::string("unknown-check:") + label]++;
    if (!(e->v & 1) && !e->approx) { // our own model already refutes it
      emitViolation(label, currentModel());
      endPath();
    }
  }
}
static void replayCheck(bool c, const char *label)
{
  if (!c) {
    printf("REPLAY-VIOLATION %s\n", label);
    fflush(stdout);
    g_replayFailed++;
  }
}
void __sym_check(bool c, const char *label)
{
  Expr *e = takeArg((void *) &__sym_check, 0);
  consume((void *) &__sym_check);
  RT rt;
  if (!g_sym)
    return replayCheck(c, label);
  doCheck(e, c, label);
}
void __sym_check_close(double a, double b, double tol, const char *label)
{
  void *self = (void *) &__sym_check_close;
  Expr *x = takeArg(self, 0), *y = takeArg(self, 1), *t = takeArg(self, 2);
  consume(self);
  RT rt;
  if (!g_sym)
    return replayCheck(std::fabs(a - b) <= tol * (1 + 1e-6) + 1e-9 * (1 + std::fabs(a) + std::fabs(b)) || (a == b), label);
  if (!x && !y && !t)
    return doCheck(nullptr, std::fabs(a - b) <= tol || a == b, label);
  if (g_mode == 0 && ((!x && !std::isfinite(a)) || (!y && !std::isfinite(b))))
    return doCheck(nullptr, false, label);
  Expr *X = fx(x, a), *Y = fx(y, b), *T = fx(t, tol);
  if (X == Y)
    return doCheck(cBool(true), true, label);
  Expr *D = mkF(O_FSUB, X, Y);
  mpq_class diff;
  if (g_mode == 0 && isC(T) && constantValue(D, diff))
    return doCheck(cBool(abs(diff) <= *T->q), true, label);
  Expr *r = mkAnd(mkFC(O_FLE, D, T), mkFC(O_FLE, mkF(O_FNEG, T), D));
  Expr *S  = cF(std::fabs(tol) * 1e3 + 1e-4);
  Expr *sn = mkNot(mkAnd(mkFC(O_FLE, D, S), mkFC(O_FLE, mkF(O_FNEG, S), D)));
  doCheck(r, true, label, sn);
}
void __sym_fail(const char *label)
{
  consume((void *) &__sym_fail);
  RT rt;
  if (!g_sym) {
    replayCheck(false, label);
    fflush(stdout);
    _exit(1);
  }
  (*g_checks)[label]++;
  st.checks++;
  // only reached if the path condition is satisfiable: the current model is the counterexample
  emitViolation(label, currentModel());
  endPath();
}
void __sym_cover(const char *label)
{
  consume((void *) &__sym_cover);
  RT rt;
  if (g_sym)
    (*g_covers)[label]++;
}
void __sym_note(const char *t)
{
  consume((void *) &__sym_note);
  RT rt;
  if (g_sym)
    g_notes.push_back(t);
  else if (g_replay)
    printf("NOTE %s\n", t);
}
bool __sym_is_symbolic_f(double x)
{
  Expr *e = takeArg((void *) &__sym_is_symbolic_f, 0);
  consume((void *) &__sym_is_symbolic_f);
  return e != nullptr;
}
int __sym_replaying() { return g_replay; }
u64 __sym_seed() { return g_seed; }
void __sym_split(bool on) { g_split = on; }
int __sym_thorough() { return g_thorough; }
int __sym_choice_if_symbolic(const char *, int) { return 0; }
} // extern C

// ---------------------------------------------------------------- driver
struct Scen {
  std::string name;
  void (*fn)();
  int mode;
  void (*prep)();
};
static std::vector<Scen> &scens()
{
  static std::vector<Scen> *s = new std::vector<Scen>;
  return *s;
}
extern "C" void __sym_register(const char *name, void (*fn)(), int mode, void (*prep)()) { scens().push_back({name, fn, mode, prep}); }

static void onSignal(int sig)
{
  static int once = 0;
  if (once++)
    _exit(95);
  if (!g_sym) {
    const char *m = sig == SIGABRT ? "REPLAY-VIOLATION abort\n" : sig == SIGALRM ? "REPLAY-TIMEOUT\n" : "REPLAY-VIOLATION crash\n";
    (void) !write(1, m, strlen(m));
    _exit(sig == SIGALRM ? 4 : 1);
  }
  ++g_inRuntime;
  if (getenv("SYM_BT")) {
    void *b[60];
    int   n = backtrace(b, 60);
    backtrace_symbols_fd(b, n, 2);
  }
  if (sig == SIGALRM) {
    emit("TIMEOUT\t" + serModel(currentModel()) + "\n");
    endPath();
  }
  emitViolation(sig == SIGABRT ? "abort (failed internal assertion or std::terminate)" : sig == SIGSEGV ? "memory fault (SIGSEGV)" : sig == SIGFPE ? "arithmetic fault (SIGFPE)" : "fatal signal", currentModel());
  endPath();
}
static void installSignals()
{
  static char      alt[1 << 17];
  stack_t          ss;
  ss.ss_sp    = alt;
  ss.ss_size  = sizeof alt;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSignal;
  sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM})
    sigaction(s, &sa, nullptr);
}

static void runGuarded(void (*fn)())
{
  try {
    fn();
  } catch (const std::exception &ex) {
    RT          rt;
    int         stt;
    char       *dm  = abi::__cxa_demangle(typeid(ex).name(), nullptr, nullptr, &stt);
    std::string lab = std::string("unexpected exception ") + (dm ? dm : "?") + ": " + ex.what();
    if (g_sym) {
      emitViolation(lab, currentModel());
      endPath();
    }
    replayCheck(false, lab.c_str());
  } catch (...) {
    if (g_sym) {
      ++g_inRuntime;
      emitViolation("unexpected exception of unknown type", currentModel());
      endPath();
    }
    replayCheck(false, "unexpected exception of unknown type");
  }
}

static int pathTimeout = 60;
[[noreturn]] static void childRun(const Scen &sc, Item &it, int fd)
{
  ++g_inRuntime;
  g_out    = fd;
  g_mode   = sc.mode;
  g_tab    = new std::unordered_set<Expr *, KeyHash, KeyEq>;
  pcAsts   = new std::vector<Z3_ast>;
  pcExprs  = new std::vector<Expr *>;
  known    = new std::unordered_map<Expr *, bool>;
  concd    = new std::unordered_map<Expr *, u64>;
  inputs   = new std::vector<Expr *>;
  lostMap  = new std::map<std::string, int>;
  pages    = new std::unordered_map<u64, Page *>;
  trail    = new std::vector<Dec>;
  g_buf    = new std::string;
  g_covers = new std::map<std::string, u64>;
  g_checks = new std::map<std::string, u64>;
  g_siteptr = new std::set<const char *>;
  cur      = &it;
  if (!getenv("SYM_VERBOSE")) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    dup2(dn, 2);
  }
  zinit();
  installSignals();
  alarm((unsigned) pathTimeout);
  g_sym = true;
  --g_inRuntime;
  runGuarded(sc.fn);
  ++g_inRuntime;
  if (g_pos < cur->prefix.size())
    emit("ERROR\tpath ended before its decision prefix was consumed\n");
  emit("DONE\n");
  endPath();
}

struct Agg {
  u64                        paths = 0, donePaths = 0, timeouts = 0, errors = 0, died = 0;
  Stats                      s;
  std::map<std::string, u64> covers, checks, lost;
  std::set<std::string>      sites;
  struct V {
    std::string label, model, notes;
  };
  std::vector<V>           viols;
  std::vector<std::string> samples, errs, witnesses;
  size_t                   left = 0;
  double                   wall = 0;
  std::set<std::string>    crashLabels;
};

static std::string jesc(const std::string &s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char) c;
    } else if (c < 32)
      r += ' ';
    else
      r += (char) c;
  }
  return r;
}
static std::string dem(const std::string &s)
{
  int         stt;
  char       *d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &stt);
  std::string r = d ? d : s;
  free(d);
  return r;
}

static void parseChild(const std::string &buf, Agg &ag, std::deque<Item> &work)
{
  std::stringstream ss(buf);
  std::string       line;
  bool              sawPath = false;
  while (std::getline(ss, line)) {
    std::vector<std::string> f;
    {
      size_t i = 0;
      while (true) {
        size_t j = line.find('\t', i);
        f.push_back(line.substr(i, j == std::string::npos ? j : j - i));
        if (j == std::string::npos)
          break;
        i = j + 1;
      }
    }
    if (f[0] == "ITEM" && f.size() >= 3)
      work.push_back({deserDec(f[1]), deserModel(f[2])});
    else if (f[0] == "VIOL" && f.size() >= 4) {
      if (ag.viols.size() < 200)
        ag.viols.push_back({f[1], f[2], f[3]});
    } else if (f[0] == "COVER")
      ag.covers[f[1]] += strtoull(f[2].c_str(), nullptr, 10);
    else if (f[0] == "CHECK")
      ag.checks[f[1]] += strtoull(f[2].c_str(), nullptr, 10);
    else if (f[0] == "LOST")
      ag.lost[f[1]] += strtoull(f[2].c_str(), nullptr, 10);
    else if (f[0] == "SITE")
      ag.sites.insert(f[1]);
    else if (f[0] == "TIMEOUT")
      ag.timeouts++;
    else if (f[0] == "DONE")
      ag.donePaths++;
    else if (f[0] == "ERROR") {
      ag.errors++;
      if (ag.errs.size() < 20)
        ag.errs.push_back(f[1]);
    } else if (f[0] == "STAT") {
      Stats t;
      sscanf(f[1].c_str(), "%lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lg %lg", &t.branches, &t.implied, &t.qsat, &t.qunsat, &t.qunknown, &t.checks, &t.checksConcrete, &t.discharged, &t.checkUnknown, &t.fops, &t.fopsExact, &t.opchecks, &t.opmismatch, &t.diverge, &t.concs, &t.exprs, &t.unknownBranches, &t.boundary, &t.solver, &t.maxq);
      ag.s.branches += t.branches;
      ag.s.implied += t.implied;
      ag.s.qsat += t.qsat;
      ag.s.qunsat += t.qunsat;
      ag.s.qunknown += t.qunknown;
      ag.s.checks += t.checks;
      ag.s.checksConcrete += t.checksConcrete;
      ag.s.discharged += t.discharged;
      ag.s.checkUnknown += t.checkUnknown;
      ag.s.fops += t.fops;
      ag.s.fopsExact += t.fopsExact;
      ag.s.opchecks += t.opchecks;
      ag.s.opmismatch += t.opmismatch;
      ag.s.diverge += t.diverge;
      ag.s.concs += t.concs;
      ag.s.exprs += t.exprs;
      ag.s.unknownBranches += t.unknownBranches;
      ag.s.boundary += t.boundary;
      ag.s.solver += t.solver;
      ag.s.maxq = std::max(ag.s.maxq, t.maxq);
    } else if (f[0] == "PATH") {
      sawPath = true;
      ag.paths++;
      if (ag.witnesses.size() < 12 && f.size() > 2)
        ag.witnesses.push_back(f[2]);
      if (ag.samples.size() < 5)
        ag.samples.push_back("decisions=" + f[1] + " witness: " + (f.size() > 2 ? f[2].substr(0, 600) : ""));
    }
  }
  if (!sawPath)
    ag.died++;
}

static void explore(const Scen &sc, double budget, int workers, size_t maxPaths, Agg &ag)
{
  double           t0 = now();
  std::deque<Item> work;
  work.push_back({});
  struct W {
    pid_t       pid;
    int         fd;
    std::string buf;
    double      start;
  };
  std::vector<W> ws;
  int            turn = 0;
  bool           stop = false;
  while (!work.empty() || !ws.empty()) {
    double t = now() - t0;
    if (t > budget || ag.paths >= maxPaths)
      stop = true;
    if (ag.viols.size() >= 60)
      stop = true;
    while (!stop && !work.empty() && (int) ws.size() < workers) {
      Item it;
      // alternate depth first and breadth first
      if (++turn % 2) {
        it = std::move(work.back());
        work.pop_back();
      } else {
        it = std::move(work.front());
        work.pop_front();
      }
      int pfd[2];
      if (pipe(pfd))
        exit(90);
      fflush(stdout);
      fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        close(pfd[0]);
        for (auto &w : ws)
          close(w.fd);
        childRun(sc, it, pfd[1]);
      }
      close(pfd[1]);
      ws.push_back({p, pfd[0], "", now()});
    }
    if (ws.empty())
      break;
    std::vector<pollfd> pf;
    for (auto &w : ws)
      pf.push_back({w.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = ws.size(); i-- > 0;) {
      bool eof = false;
      if (pf[i].revents & (POLLIN | POLLHUP | POLLERR)) {
        char    b[65536];
        ssize_t k = read(ws[i].fd, b, sizeof b);
        if (k > 0)
          ws[i].buf.append(b, (size_t) k);
        else
          eof = true;
      }
      double age = now() - ws[i].start;
      if (!eof && (age > pathTimeout + 10 || (stop && now() - t0 > budget + 15))) {
        kill(ws[i].pid, SIGKILL);
        ag.timeouts++;
      }
      if (eof) {
        int stt;
        waitpid(ws[i].pid, &stt, 0);
        close(ws[i].fd);
        parseChild(ws[i].buf, ag, work);
        ws.erase(ws.begin() + (long) i);
      }
    }
  }
  ag.left = work.size();
  ag.wall = now() - t0;
}

static void report(FILE *o, const Scen &sc, Agg &a)
{
  fprintf(o, "{\"scenario\":\"%s\",\"mode\":\"%s\",\"wall\":%.3f,\"paths\":%lu,\"completed\":%lu,\"timeouts\":%lu,\"died\":%lu,\"errors\":%lu,\"left\":%zu,", sc.name.c_str(), sc.mode ? "ieee" : "real", a.wall, a.paths, a.donePaths, a.timeouts, a.died, a.errors, a.left);
  fprintf(o, "\"branches\":%lu,\"implied\":%lu,\"queries_sat\":%lu,\"queries_unsat\":%lu,\"queries_unknown\":%lu,\"checks\":%lu,\"checks_concrete\":%lu,\"discharged\":%lu,\"check_unknown\":%lu,", a.s.branches, a.s.implied, a.s.qsat, a.s.qunsat, a.s.qunknown, a.s.checks, a.s.checksConcrete, a.s.discharged, a.s.checkUnknown);
  fprintf(o, "\"float_ops\":%lu,\"float_ops_bitexact\":%lu,\"operand_validations\":%lu,\"operand_mismatches\":%lu,\"branch_divergences\":%lu,\"boundary\":%lu,\"concretisations\":%lu,\"exprs\":%lu,\"unknown_branches\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,", a.s.fops, a.s.fopsExact, a.s.opchecks, a.s.opmismatch, a.s.diverge, a.s.boundary, a.s.concs, a.s.exprs, a.s.unknownBranches, a.s.solver, a.s.maxq);
  auto mp = [&](const char *n, std::map<std::string, u64> &m) {
    fprintf(o, "\"%s\":{", n);
    bool f = true;
    for (auto &kv : m) {
      std::string k = kv.first;
      auto        p = k.find(":_Z");
      if (p != std::string::npos)
        k = k.substr(0, p + 1) + dem(k.substr(p + 1));
      fprintf(o, "%s\"%s\":%lu", f ? "" : ",", jesc(k).c_str(), kv.second);
      f = false;
    }
    fprintf(o, "},");
  };
  mp("covers", a.covers);
  mp("check_labels", a.checks);
  mp("lost", a.lost);
  fprintf(o, "\"functions\":[");
  bool f = true;
  for (auto &s : a.sites) {
    fprintf(o, "%s\"%s\"", f ? "" : ",", jesc(dem(s)).c_str());
    f = false;
  }
  fprintf(o, "],\"errors_text\":[");
  f = true;
  for (auto &s : a.errs) {
    fprintf(o, "%s\"%s\"", f ? "" : ",", jesc(s).c_str());
    f = false;
  }
  fprintf(o, "],\"samples\":[");
  f = true;
  for (auto &s : a.samples) {
    fprintf(o, "%s\"%s\"", f ? "" : ",", jesc(s).c_str());
    f = false;
  }
  fprintf(o, "],\"witnesses\":[");
  f = true;
  for (auto &s : a.witnesses) {
    fprintf(o, "%s\"%s\"", f ? "" : ",", jesc(s).c_str());
    f = false;
  }
  fprintf(o, "],\"violations\":[");
  f = true;
  for (auto &v : a.viols) {
    fprintf(o, "%s{\"label\":\"%s\",\"model\":\"%s\",\"notes\":\"%s\"}", f ? "" : ",", jesc(v.label).c_str(), jesc(v.model).c_str(), jesc(v.notes).c_str());
    f = false;
  }
  fprintf(o, "]}\n");
  fflush(o);
}

int main(int argc, char **argv)
{
  // fixed address space layout: forked paths and re-runs see the same addresses
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SYM_NOREEXEC")) {
    setenv("SYM_NOREEXEC", "1", 1);
    if (personality((unsigned long) per | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  std::string only, replay, out;
  double      budget   = 60;
  int         workers  = 8;
  size_t      maxPaths = 1000000;
  bool        list     = false;
  g_thorough           = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  if (getenv("VERIF_SEED"))
    g_seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto        nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--scenario")
      only = nx();
    else if (a == "--replay")
      replay = nx();
    else if (a == "--budget")
      budget = atof(nx().c_str());
    else if (a == "--workers")
      workers = atoi(nx().c_str());
    else if (a == "--max-paths")
      maxPaths = (size_t) atoll(nx().c_str());
    else if (a == "--out")
      out = nx();
    else if (a == "--timeout")
      g_timeout = (unsigned) atoi(nx().c_str());
    else if (a == "--path-timeout")
      pathTimeout = atoi(nx().c_str());
    else if (a == "--dump")
      g_dumpDir = strdup(nx().c_str());
    else if (a == "--list")
      list = true;
  }
  if (list) {
    for (auto &s : scens())
      printf("%s %s\n", s.name.c_str(), s.mode ? "ieee" : "real");
    return 0;
  }
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "r");
    if (!f)
      return 2;
    std::string all;
    char        b[4096];
    size_t      k;
    while ((k = fread(b, 1, sizeof b, f)) > 0)
      all.append(b, k);
    fclose(f);
    g_replay      = true;
    g_replayModel = deserModel(all);
    installSignals();
    alarm(120);
    for (auto &s : scens())
      if (s.name == only) {
        g_mode = s.mode;
        if (s.prep)
          s.prep();
        runGuarded(s.fn);
        printf(g_replayFailed ? "REPLAY: violation reproduced\n" : "REPLAY: no violation\n");
        fflush(stdout);
        _exit(g_replayFailed ? 1 : 0);
      }
    return 2;
  }
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  for (auto &s : scens()) {
    if (!only.empty() && s.name != only)
      continue;
    Agg a;
    if (s.prep)
      s.prep();
    explore(s, budget, workers, maxPaths, a);
    report(o, s, a);
  }
  fflush(stdout);
  _exit(0);
}
