// A reference model of IQN-ILS acceleration run next to the library: two participants exchange several data, the
// accelerated iterate that the partner reads is compared with the documented quasi-Newton update.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <deque>

namespace qn {
using namespace h;
typedef std::vector<double> Vec;

struct Data {
  int                 owner   = 1;     // who writes it
  int                 comps   = 1;     // 1: scalar, 2: vector
  bool                primary = true;
  double              scaling = 0;     // constant preconditioner
  std::vector<double> lo, hi;          // bounds per component (NAN: none)
  bool                substeps = true;
};
struct Plan {
  std::string       scheme  = "serial-implicit";
  std::vector<Data> data;
  int               nv      = 1, steps = 1, windows = 1, iters = 3;
  std::vector<int>  itersOf;           // iterations of every window through convergence (0: to the limit)
  double            omega   = 0.5;
  bool              enforce = false;
  int               maxUsed = -1, reuse = -1; // -1: tag absent
  std::string       filter;            // "", "QR1", "QR1-absolute", "QR2", "QR3"
  double            limit   = 0;
  std::string       prec    = "constant";     // "": default
  std::string       precAttr;
  bool              threshold = true;
  int               freeze  = -1;
  int               stopAt  = -1;      // the path ends before this iteration
  bool              full    = false;   // reduced-time-grid="false"
  std::string       bounds;            // "", clamp, discard, scale
  bool              imvj    = false;   // IQN-IMVJ
  bool              always  = false;   // always-build-jacobian
  std::string       restart = "no-restart"; // "": default
  int               chunk   = 8, lsReuse = 8;
  bool              lenient = false;   // see Run::alt
  // values: data index, window, iteration, step, entry -> value
  std::function<double(int d, int k, int it, int step, int e)> value;
};

struct Run {
  Plan        p;
  std::string cfg;
  struct Col {
    Vec v, w;
    int win;
  };
  std::deque<Col> cols;
  bool            firstWindow = true;
  // [data][step][entry]
  typedef std::vector<std::vector<Vec>> Field;
  Field  raw, old, passed, prevRaw;
  Vec    prevR, prevW;
  std::vector<Vec> start;
  Vec    weight, resSum, prevSum;
  bool   precFirst = true, precFrozen = false;
  int    nonConst = 0;
  int    window = 0, iter = 0;
  struct Count { // columns kept, deleted by the filter, dropped
    int kept = 0, deleted = 0, dropped = 0;
  };
  std::vector<Count> log;
  Count             &count()
  {
    log.resize(std::max<size_t>(log.size(), window + 1));
    return log[window];
  }

  bool serial() const { return p.scheme[0] == 's'; }
  bool accelerated(int d) const { return !serial() || p.data[d].owner == 1; }
  int  size(int d) const { return p.data[d].comps * p.nv; }
  int  samples(int d) const { return p.data[d].substeps ? p.steps : 1; }
  std::string name(int d) const { return "D" + std::to_string(d); }
  int itersIn(int k) const { return k < (int) p.itersOf.size() && p.itersOf[k] ? p.itersOf[k] : p.iters; }

  std::string tag() const { return p.imvj ? "IQN-IMVJ" : "IQN-ILS"; }
  void build()
  {
    std::string s = "<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\"><profiling mode=\"off\"/>";
    static const char *ax[] = {"-x", "-y", "-z"};
    for (size_t d = 0; d < p.data.size(); ++d) {
      auto &D = p.data[d];
      s += std::string("<data:") + (D.comps == 1 ? "scalar" : "vector") + " name=\"" + name(d) + "\"";
      for (int c = 0; c < D.comps; ++c) {
        if (c < (int) D.lo.size() && !std::isnan(D.lo[c]))
          s += std::string(" lower-bound") + (D.comps == 1 ? "" : ax[c]) + "=\"" + num(D.lo[c]) + "\"";
        if (c < (int) D.hi.size() && !std::isnan(D.hi[c]))
          s += std::string(" upper-bound") + (D.comps == 1 ? "" : ax[c]) + "=\"" + num(D.hi[c]) + "\"";
      }
      s += "/>";
    }
    s += "<data:scalar name=\"Go\"/><mesh name=\"M\" dimensions=\"2\"><use-data name=\"Go\"/>";
    for (size_t d = 0; d < p.data.size(); ++d)
      s += "<use-data name=\"" + name(d) + "\"/>";
    s += "</mesh>";
    for (int who = 0; who < 2; ++who) {
      s += who == 0 ? "<participant name=\"A\"><provide-mesh name=\"M\"/><write-data name=\"Go\" mesh=\"M\"/>" : "<participant name=\"B\"><receive-mesh name=\"M\" from=\"A\" api-access=\"true\"/><read-data name=\"Go\" mesh=\"M\"/>";
      for (size_t d = 0; d < p.data.size(); ++d)
        s += std::string("<") + (p.data[d].owner == who ? "write" : "read") + "-data name=\"" + name(d) + "\" mesh=\"M\"/>";
      s += "</participant>";
    }
    s += "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" + p.scheme + "><participants first=\"A\" second=\"B\"/><max-time-windows value=\"" + std::to_string(p.windows) + "\"/><time-window-size value=\"1\"/>";
    bool measured = std::any_of(p.itersOf.begin(), p.itersOf.end(), [](int i) { return i > 0; });
    s += "<max-iterations value=\"" + std::to_string(p.iters) + "\"/>";
    s += "<exchange data=\"Go\" mesh=\"M\" from=\"A\" to=\"B\" substeps=\"false\"/>";
    if (measured)
      s += "<absolute-convergence-measure data=\"Go\" mesh=\"M\" limit=\"0.5\"/>";
    for (size_t d = 0; d < p.data.size(); ++d)
      s += "<exchange data=\"" + name(d) + "\" mesh=\"M\" from=\"" + (p.data[d].owner ? "B" : "A") + "\" to=\"" + (p.data[d].owner ? "A" : "B") + "\" substeps=\"" + (p.data[d].substeps ? "true" : "false") + "\"/>";
    s += std::string("<acceleration:") + tag() + (p.always ? " always-build-jacobian=\"true\"" : "") + (p.full ? " reduced-time-grid=\"false\"" : "") + (p.bounds.empty() ? "" : " on-bound-violation=\"" + p.bounds + "\"") + ">";
    for (size_t d = 0; d < p.data.size(); ++d)
      if (p.data[d].primary && accelerated(d))
        s += "<data name=\"" + name(d) + "\" mesh=\"M\"" + (p.data[d].scaling > 0 ? " scaling=\"" + num(p.data[d].scaling) + "\"" : "") + "/>";
    if (!p.filter.empty())
      s += "<filter type=\"" + p.filter + "\" limit=\"sym:limit\"/>";
    s += std::string("<initial-relaxation value=\"sym:omega\" enforce=\"") + (p.enforce ? "true" : "false") + "\"/>";
    if (p.maxUsed >= 0)
      s += "<max-used-iterations value=\"" + std::to_string(p.maxUsed) + "\"/>";
    if (p.reuse >= 0)
      s += "<time-windows-reused value=\"" + std::to_string(p.reuse) + "\"/>";
    if (!p.prec.empty())
      s += "<preconditioner type=\"" + p.prec + "\" " + p.precAttr + "/>";
    if (p.imvj && !p.restart.empty())
      s += "<imvj-restart-mode type=\"" + p.restart + "\" chunk-size=\"" + std::to_string(p.chunk) + "\" reused-time-windows-at-restart=\"" + std::to_string(p.lsReuse) + "\" truncation-threshold=\"1e-9\"/>";
    s += "</acceleration:" + tag() + "></coupling-scheme:" + p.scheme + "></precice-configuration>";
    world::setSymbol("omega", p.omega);
    world::setSymbol("limit", p.limit);
    cfg = world::writeConfig(s);
  }

  // ---- the reference ----
  Vec flat(const Field &f, bool primary) const
  {
    Vec r;
    for (size_t d = 0; d < p.data.size(); ++d) {
      if (!accelerated(d) || (primary && !p.data[d].primary))
        continue;
      for (int s = 0; s < samples(d); ++s)
        if (!primary || p.full || s + 1 == samples(d))
          r.insert(r.end(), f[d][s].begin(), f[d][s].end());
    }
    return r;
  }
  int        reuse() const { return p.reuse >= 0 ? p.reuse : p.imvj ? 0 : 10; }
  static Vec minus(const Vec &a, const Vec &b)
  {
    Vec r(a.size());
    for (size_t i = 0; i < a.size(); ++i)
      r[i] = a[i] - b[i];
    return r;
  }
  static double dot(const Vec &a, const Vec &b)
  {
    double r = 0;
    for (size_t i = 0; i < a.size(); ++i)
      r += a[i] * b[i];
    return r;
  }
  Vec weighted(const Vec &v) const
  {
    Vec r = v;
    for (size_t i = 0; i < r.size(); ++i)
      r[i] *= weight[i];
    return r;
  }
  // sub-vector of the primary values: per data
  std::vector<std::pair<int, int>> parts() const
  {
    std::vector<std::pair<int, int>> r;
    int                              at = 0;
    for (size_t d = 0; d < p.data.size(); ++d)
      if (accelerated(d) && p.data[d].primary) {
        int n = size(d) * (p.full ? samples(d) : 1);
        r.push_back({at, n});
        at += n;
      }
    return r;
  }
  void setWeight(std::pair<int, int> part, double w)
  {
    for (int i = 0; i < part.second; ++i)
      weight[part.first + i] = w;
  }
  static double norm(const Vec &v, std::pair<int, int> part)
  {
    double s = 0;
    for (int i = 0; i < part.second; ++i)
      s += v[part.first + i] * v[part.first + i];
    return std::sqrt(s);
  }
  void updateWeights(bool complete, const Vec &x, const Vec &r)
  {
    auto        ps   = parts();
    std::string kind = p.prec.empty() ? "residual-sum" : p.prec;
    if (kind == "constant" || precFrozen)
      return;
    if (complete) {
      ++nonConst;
      if (p.freeze > 0 && nonConst >= p.freeze)
        precFrozen = true;
    }
    if (kind == "residual" && !complete) {
      for (auto &q : ps)
        if (norm(r, q) > 1e-10)
          setWeight(q, 1 / norm(r, q));
    } else if (kind == "value" && (complete || precFirst)) {
      for (auto &q : ps)
        if (norm(x, q) > 1e-10)
          setWeight(q, 1 / norm(x, q));
      precFirst = false;
    } else if (kind == "residual-sum") {
      if (complete) {
        precFirst = false;
        std::fill(resSum.begin(), resSum.end(), 0.0);
        return;
      }
      double all = std::sqrt(dot(r, r));
      for (size_t i = 0; i < ps.size(); ++i)
        if (all > 1e-10)
          resSum[i] += norm(r, ps[i]) / all;
      bool reset = precFirst || !p.threshold;
      for (size_t i = 0; i < ps.size() && !reset; ++i)
        if (resSum[i] > 1e-10)
          reset = prevSum[i] / resSum[i] > 10 || prevSum[i] / resSum[i] < 0.1;
      if (reset)
        for (size_t i = 0; i < ps.size(); ++i) {
          if (resSum[i] > 1e-10)
            setWeight(ps[i], 1 / resSum[i]);
          prevSum[i] = resSum[i];
        }
    }
  }
  // norms of the columns orthogonalized against the previous (kept) ones: the diagonal of R
  static Vec residualNorms(const std::vector<Vec> &a)
  {
    std::vector<Vec> q;
    Vec              r;
    for (auto v : a) {
      for (int pass = 0; pass < 2; ++pass)
        for (auto &u : q) {
          double f = dot(u, v);
          for (size_t i = 0; i < v.size(); ++i)
            v[i] -= f * u[i];
        }
      double n = std::sqrt(dot(v, v));
      r.push_back(n);
      for (double &x : v)
        x /= n;
      q.push_back(v);
    }
    return r;
  }
  static double frobenius(const std::vector<Vec> &a)
  {
    double s = 0;
    for (auto &v : a)
      s += dot(v, v);
    return std::sqrt(s);
  }
  void filter() { filter(cols); }
  void filter(std::deque<Col> &cols)
  {
    std::string f = p.filter.empty() ? "QR3" : p.filter;
    double      l = p.filter.empty() ? 1e-2 : p.limit;
    auto        near = [&](double a, double b) { // keep away from ties
      sym::assume((a < 0.9999 * b) | (a > 1.0001 * b));
      return a < b;
    };
    if (cols.size() < 2)
      return;
    std::vector<Vec> a;
    for (auto &c : cols)
      a.push_back(weighted(c.v));
    if (f == "QR2" || f == "QR3") { // from the newest to the oldest column
      std::vector<Vec> kept;
      std::deque<Col>  k;
      for (size_t i = 0; i < cols.size(); ++i) {
        auto t = kept;
        t.push_back(a[i]);
        double n = kept.size() == a[i].size() ? 0.0 : residualNorms(t).back();
        if (near(n, l * std::sqrt(dot(a[i], a[i])))) {
          ++count().deleted;
          sym::cover("?column filtered");
          continue;
        }
        kept = t;
        k.push_back(cols[i]);
      }
      cols = k;
    } else {
      while (cols.size() > a[0].size()) { // as many columns as unknowns at most, newest first
        a.pop_back();
        cols.pop_back();
        sym::cover("?more columns than unknowns");
      }
      bool again = true;
      while (again) {
        again = false;
        for (size_t i = 0; i < cols.size() && cols.size() > 1;) {
          double n = residualNorms(a)[i];
          if (near(n, f == "QR1" ? l * frobenius(a) : l)) {
            a.erase(a.begin() + i);
            cols.erase(cols.begin() + i);
            ++count().deleted;
            again = true;
            sym::cover("?column filtered");
          } else {
            ++i;
          }
        }
      }
    }
  }
  // least squares: min |V alpha + r|
  Vec leastSquares(const Vec &r) { return leastSquares(cols, r); }
  Vec leastSquares(const std::deque<Col> &cols, const Vec &r)
  {
    size_t           n = cols.size();
    std::vector<Vec> a;
    for (auto &c : cols)
      a.push_back(weighted(c.v));
    Vec              wr = weighted(r);
    std::vector<Vec> m(n, Vec(n + 1));
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < n; ++j)
        m[i][j] = dot(a[i], a[j]);
      m[i][n] = -dot(a[i], wr);
    }
    for (size_t i = 0; i < n; ++i) // positive definite: no pivoting needed
      for (size_t j = i + 1; j < n; ++j) {
        double f = m[j][i] / m[i][i];
        for (size_t c = i; c <= n; ++c)
          m[j][c] -= f * m[i][c];
      }
    Vec x(n);
    for (size_t i = n; i-- > 0;) {
      x[i] = m[i][n];
      for (size_t j = i + 1; j < n; ++j)
        x[i] -= m[i][j] * x[j];
      x[i] /= m[i][i];
    }
    return x;
  }
  void addColumn(const Vec &r, const Vec &w)
  {
    int limit = p.maxUsed >= 0 ? p.maxUsed : p.imvj ? 20 : 100;
    cols.push_front({minus(r, prevR), minus(w, prevW), window});
    lsCols.push_front(cols.front());
    if ((int) cols.size() > limit) {
      cols.pop_back();
      ++count().dropped;
      sym::cover("?column limit");
    }
  }
  void initialise(size_t n)
  {
    auto ps = parts();
    weight.assign(n, 1.0);
    resSum.assign(ps.size(), 0.0);
    prevSum.assign(ps.size(), 0.0);
    if (p.prec == "constant") {
      int i = 0;
      for (size_t d = 0; d < p.data.size(); ++d)
        if (accelerated(d) && p.data[d].primary) {
          setWeight(ps[i], 1 / (p.data[d].scaling > 0 ? p.data[d].scaling : 1.0));
          ++i;
        }
    }
  }
  // ---- IQN-IMVJ: the inverse Jacobian of the windows so far, one column per primary unknown ----
  std::vector<Vec> J, Jlast, Jbefore;
  // Without reused windows the first iteration of a window may count the columns of the window before twice: a known
  // finding of its own. Lenient runs follow the library in this, as far as it does so.
  Field            alt;
  std::deque<Col>  lsCols;
  int              chunks = 0;
  static Vec       apply(const std::vector<Vec> &J, const Vec &v, size_t rows)
  {
    Vec r(rows, 0.0);
    for (size_t j = 0; j < J.size(); ++j)
      for (size_t i = 0; i < rows; ++i)
        r[i] += J[j][i] * v[j];
    return r;
  }
  // J + (W - J V) V^+
  std::vector<Vec> updated(const std::vector<Vec> &J, const std::deque<Col> &cols, size_t rows, size_t unknowns)
  {
    std::vector<Vec> wt, K = J;
    for (auto &c : cols)
      wt.push_back(minus(c.w, apply(J, c.v, rows)));
    K.resize(unknowns, Vec(rows, 0.0));
    for (size_t j = 0; j < unknowns && !cols.empty(); ++j) {
      Vec e(unknowns, 0.0);
      e[j]  = -1;
      Vec z = leastSquares(cols, e);
      for (size_t c = 0; c < cols.size(); ++c)
        for (size_t i = 0; i < rows; ++i)
          K[j][i] += wt[c][i] * z[c];
    }
    return K;
  }
  void windowDone(size_t rows, size_t unknowns)
  {
    if (p.always) {
      J = Jlast;
      return;
    }
    Jbefore = J;
    filter();
    J = updated(J, cols, rows, unknowns);
    if (p.restart == "no-restart")
      return;
    std::vector<int> wins;
    for (auto &c : lsCols)
      if (wins.empty() || wins.back() != c.win)
        wins.push_back(c.win);
    while (!lsCols.empty() && ((int) wins.size() > p.lsReuse)) {
      while (!lsCols.empty() && lsCols.back().win == wins.back())
        lsCols.pop_back();
      wins.pop_back();
    }
    if (cols.empty() || ++chunks < p.chunk + 1)
      return;
    sym::cover("restarted");
    chunks = 1;
    std::vector<Vec> none;
    if (p.restart == "RS-0") {
      J      = none;
      chunks = 0;
    } else if (p.restart == "RS-LS") {
      while (lsCols.size() > 1 && lsCols.size() * 2 >= unknowns)
        lsCols.pop_back();
      filter(lsCols);
      J = updated(none, lsCols, rows, unknowns);
      if (lsCols.empty())
        chunks = 0;
    } else if (p.restart == "RS-SLIDE") {
      J = updated(none, cols, rows, unknowns);
    }
  }
  std::function<void(const Vec &alpha)> onAlpha;
  void                                  unflatten(const Vec &x)
  {
    size_t at = 0;
    for (size_t d = 0; d < p.data.size(); ++d)
      if (accelerated(d))
        for (int s = 0; s < samples(d); ++s)
          for (double &v : passed[d][s])
            v = x[at++];
  }
  bool violates(const Vec &x) const
  {
    size_t at = 0;
    bool   b  = false;
    for (size_t d = 0; d < p.data.size(); ++d)
      if (accelerated(d))
        for (int s = 0; s < samples(d); ++s)
          for (int e = 0; e < size(d); ++e, ++at) {
            size_t c = e % p.data[d].comps;
            if (c < p.data[d].lo.size() && !std::isnan(p.data[d].lo[c]))
              b = b | (x[at] < p.data[d].lo[c]);
            if (c < p.data[d].hi.size() && !std::isnan(p.data[d].hi[c]))
              b = b | (x[at] > p.data[d].hi[c]);
          }
    return b;
  }
  // all values of this iteration are written (raw): what does the scheme pass on
  void accelerate(bool accepted)
  {
    Vec w = flat(raw, false), x = flat(raw, true), r = minus(x, flat(old, true));
    if (weight.empty())
      initialise(x.size());
    passed = raw;
    if (accepted) {
      if (iter > 0) {
        addColumn(r, w);
        firstWindow = false;
      }
      if (p.imvj)
        windowDone(w.size(), x.size());
      updateWeights(true, x, r);
      int reuse = this->reuse();
      if (reuse == 0 && p.enforce)
        cols.clear();
      if (reuse > 0) { // windows that contributed columns
        std::vector<int> wins;
        for (auto &c : cols)
          if (wins.empty() || wins.back() != c.win)
            wins.push_back(c.win);
        while ((int) wins.size() > reuse) {
          while (!cols.empty() && cols.back().win == wins.back())
            cols.pop_back(), ++count().dropped;
          wins.pop_back();
          sym::cover("?window forgotten");
        }
      }
      count().kept = cols.size();
      return;
    }
    Vec before = flat(old, false), res = w;
    if (iter == 0 && (firstWindow || p.enforce)) {
      for (size_t i = 0; i < w.size(); ++i)
        res[i] = p.omega * w[i] + (1 - p.omega) * before[i];
      sym::cover("relaxed");
    } else {
      if (iter > 0) {
        Vec dr = minus(r, prevR);
        sym::assume((dot(dr, dr) > 0.01) & (dot(x, x) > 0.01) & (dot(r, r) > 0.01)); // stay clear of warnings and refusals
        addColumn(r, w);
      }
      updateWeights(false, x, r);
      filter();
      Vec alpha = leastSquares(r);
      for (double a : alpha)
        sym::assume((a < 50) & (a > -50));
      Vec upd(w.size(), 0.0);
      if (p.imvj) {
        Jlast = updated(J, cols, w.size(), x.size());
        Vec m = r;
        for (double &v : m)
          v = -v;
        upd = apply(Jlast, m, w.size());
        if (p.lenient && iter == 0 && reuse() == 0) {
          Vec u = apply(J, m, w.size()), t;
          for (size_t c = 0; c < cols.size(); ++c) {
            t = minus(cols[c].w, apply(Jbefore, cols[c].v, w.size()));
            for (size_t i = 0; i < w.size(); ++i)
              u[i] += t[i] * alpha[c];
          }
          for (size_t i = 0; i < w.size(); ++i)
            u[i] += w[i];
          unflatten(u);
          alt = passed;
        }
      } else
        for (size_t j = 0; j < cols.size(); ++j)
          for (size_t i = 0; i < w.size(); ++i)
            upd[i] += cols[j].w[i] * alpha[j];
      for (size_t i = 0; i < w.size(); ++i)
        res[i] = w[i] + upd[i];
      if (!p.bounds.empty() && p.bounds != "ignore")
        limitUpdate(w, upd, res);
      if (iter == 0 && reuse() == 0 && !p.enforce)
        cols.clear();
      sym::cover("quasi-Newton step");
    }
    prevR = r;
    prevW = w;
    unflatten(res);
  }
  void limitUpdate(const Vec &w, const Vec &upd, Vec &res)
  {
    if (p.bounds == "discard") { // the outcome jumps at the bound
      size_t at = 0;
      bool   b  = true;
      for (size_t d = 0; d < p.data.size(); ++d)
        if (accelerated(d))
          for (int s = 0; s < samples(d); ++s)
            for (int e = 0; e < size(d); ++e, ++at)
              for (auto &v : {p.data[d].lo, p.data[d].hi})
                if (e % p.data[d].comps < (int) v.size() && !std::isnan(v[e % p.data[d].comps]))
                  b = b & ((res[at] > v[e % p.data[d].comps] + 1e-6) | (res[at] < v[e % p.data[d].comps] - 1e-6));
      sym::assume(b);
    }
    if (!violates(res))
      return;
    sym::cover("?bounds violated");
    if (p.bounds == "discard") {
      res = w;
      return;
    }
    size_t at     = 0;
    double factor = 1; // largest step that stays within the bounds
    for (size_t d = 0; d < p.data.size(); ++d)
      if (accelerated(d))
        for (int s = 0; s < samples(d); ++s)
          for (int e = 0; e < size(d); ++e, ++at) {
            size_t c = e % p.data[d].comps;
            for (int side = 0; side < 2; ++side) {
              auto &b = side ? p.data[d].hi : p.data[d].lo;
              if (c >= b.size() || std::isnan(b[c]))
                continue;
              bool out = side ? res[at] > b[c] : res[at] < b[c];
              if (!out)
                continue;
              if (p.bounds == "clamp")
                res[at] = b[c];
              else
                factor = std::min(factor, (b[c] - w[at]) / upd[at]);
            }
          }
    if (p.bounds == "scale")
      for (size_t i = 0; i < w.size(); ++i)
        res[i] = w[i] + factor * upd[i];
  }
  // ---- the participants ----
  void writeStep(Participant &P, int who, int step, const std::vector<VertexID> &ids)
  {
    for (size_t d = 0; d < p.data.size(); ++d)
      if (p.data[d].owner == who) {
        Vec v(size(d));
        for (int e = 0; e < size(d); ++e)
          v[e] = p.value(d, window, iter, step, e);
        P.writeData("M", name(d), ids, v);
        int s = p.data[d].substeps ? step : 0;
        raw[d][s] = v;
      }
    if (who == 0) {
      // the measured data changes until the window is to converge
      bool stop = window < (int) p.itersOf.size() && p.itersOf[window] && iter + 1 == p.itersOf[window];
      if (!stop)
        go += 1;
      Vec g(p.nv, go);
      P.writeData("M", "Go", ids, g);
    }
  }
  double              go = 0;
  std::pair<int, int> written{-1, -1};
  void   readAll(Participant &P, int who, const std::vector<VertexID> &ids, const Field &f, const char *label)
  {
    for (size_t d = 0; d < p.data.size(); ++d)
      if (p.data[d].owner != who)
        for (int s = 0; s < samples(d); ++s) {
          Vec got(size(d), -77.0);
          P.readData("M", name(d), ids, (s + 1) / double(samples(d)), got);
          for (int e = 0; e < size(d); ++e)
            sym::close(got[e], f[d][s][e], 1e-6, label);
        }
  }
  Field constant(const std::vector<Vec> &v) const
  {
    Field f(p.data.size());
    for (size_t d = 0; d < p.data.size(); ++d)
      f[d].assign(samples(d), v[d]);
    return f;
  }
  void participant(int who)
  {
    Participant           P(who ? "B" : "A", cfg, 0, 1);
    std::vector<VertexID> ids;
    for (int i = 0; i < p.nv; ++i) {
      double x[2] = {double(i), 0};
      if (who == 0)
        P.setMeshVertex("M", x);
      ids.push_back(i);
    }
    if (who == 1) {
      double bb[4] = {-1, 10, -1, 1};
      P.setMeshAccessRegion("M", bb);
    }
    world::ready();
    if (who == 0) {
      start.clear();
      for (size_t d = 0; d < p.data.size(); ++d)
        start.push_back(Vec(size(d), 0.0));
      raw = old = passed = constant(start);
    }
    P.initialize();
    int k = 0, it = 0;
    while (P.isCouplingOngoing()) {
      P.requiresWritingCheckpoint();
      // the shared state belongs to iteration (k, it) once the first participant has started it
      if (who == 1)
        world::waitFor([&] { return written == std::make_pair(k, it); }, "the other participant's values");
      if (who == 0) {
        window = k;
        iter   = it;
        if (it == 0 && k > 0)
          for (size_t d = 0; d < p.data.size(); ++d)
            start[d] = passed[d].back();
        if (!alt.empty()) {
          for (size_t d = 0; d < p.data.size(); ++d)
            if (p.data[d].owner == 1 && p.data[d].primary) {
              Vec got(size(d));
              P.readData("M", name(d), ids, 1, got);
              if (std::fabs(got[0] - alt[d].back()[0]) < std::fabs(got[0] - passed[d].back()[0]))
                passed = alt;
              break;
            }
          alt.clear();
        }
        old = it == 0 ? constant(start) : passed;
      }
      if (p.stopAt >= 0 && who == 0 && it == p.stopAt) {
        readAll(P, who, ids, old, "the accelerated iterate is passed on");
        sym::cover("completed");
        __sym_end_path();
      }
      if (who == 0 || !serial()) {
        bool seen = k > 0 || it > 0;
        if (seen)
          readAll(P, who, ids, old, it ? "the accelerated iterate is passed on" : "the accepted iterate is the start of the next window");
      }
      for (int s = 0; s < p.steps; ++s) {
        writeStep(P, who, s, ids);
        if (who == 0 && s + 1 == p.steps)
          written = {k, it};
        if (who == 1 && s + 1 == p.steps)
          accelerate(it + 1 == itersIn(k));
        P.advance(1.0 / p.steps);
      }
      bool again = P.requiresReadingCheckpoint();
      sym::check(again == (it + 1 < itersIn(k)), "iterations as arranged");
      if (again)
        ++it;
      else {
        it = 0;
        ++k;
      }
    }
    if (who == 0)
      readEnd(P, ids);
    P.finalize();
  }
  void readEnd(Participant &P, const std::vector<VertexID> &ids)
  {
    for (size_t d = 0; d < p.data.size(); ++d)
      if (p.data[d].owner != 0) {
        Vec got(size(d), -77.0);
        P.readData("M", name(d), ids, 0, got);
        for (int e = 0; e < size(d); ++e)
          sym::close(got[e], passed[d].back()[e], 1e-6, "the final values are the last ones written");
      }
    sym::cover("completed");
  }
  void run()
  {
    build();
    world::spawn("A", [this] { participant(0); });
    world::spawn("B", [this] { participant(1); });
    world::prepare();
    world::run();
  }
};

// fixed, irregular values
inline double table(int seed, int d, int k, int it, int step, int e)
{
  unsigned h = 2166136261u;
  for (int x : {seed, d, k, it, step, e})
    h = (h ^ (unsigned) (x + 17)) * 16777619u;
  h ^= h >> 13;
  h *= 0x5bd1e995u;
  h ^= h >> 15;
  return ((int) (h % 129) - 64) / 16.0;
}
} // namespace qn
