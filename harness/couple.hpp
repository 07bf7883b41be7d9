// A reference model of two-participant coupling, run next to the library: what each participant may read at which
// time, given everything its partner wrote.
#pragma once
#include "common.hpp"
#include <algorithm>

namespace couple {
using namespace h;

struct Knot {
  double              t;
  std::vector<double> v;
};
typedef std::vector<Knot> Knots;

struct Measure {
  int    data;                    // 0: DA, 1: DB
  int    type;                    // 0 absolute, 1 relative, 2 absolute or relative, 3 residual relative
  double limit, absLimit;
  bool   suffices, strict;
};
struct Plan {
  std::string scheme = "serial-explicit"; // <serial|parallel>-<explicit|implicit>
  double      W = 1, T = 2;               // window size, maximum time
  int         iters      = 1;             // maximum number of iterations per window
  bool        unlimited  = false;         // no such limit: only histories converging within iters iterations
  int         minIters   = 0;
  std::vector<Measure> measures;
  std::map<std::string, double> symbols;
  int         steps[2]   = {1, 1};        // steps per window of A, B
  bool        substeps[2] = {true, true}; // exchange of the data sent by A, B
  int         degree[2]  = {1, 1};        // waveform degree of the data of A, B
  bool        init[2]    = {false, false};
  std::string kind       = "scalar";
  int         nv         = 1;             // vertices
  bool        swap       = false;         // B is first
  bool        sends[2]   = {true, true};
  int         symWindow  = 1;             // window in which step sizes / read times are symbolic
  bool        symStep    = false, symRead = true;
  bool        partial    = false;         // one vertex stays unwritten
  bool        own        = false;         // each participant provides the mesh of the data it writes
  bool        initPartial = false;
  int         fixedWindow = -1;           // window with fixed values
  int         symFrom = 0;                // windows before have fixed values
  bool        pinned     = false;         // the first vertex carries fixed values
  std::string extra;
  int         accel = 0;                  // 0 none, 1 constant relaxation, 2 Aitken
  double      omega = 1;                  // (initial) relaxation
  bool        primary[2] = {false, false}; // Aitken: data the factor is computed from
  double      scale[2]   = {0, 0};        // Aitken: constant scaling of the data (0: no preconditioner)
  std::vector<int> readOrder, writeOrder; // vertices in the order of reading and writing (default: all, descending)
  int         poly[2] = {0, 0};           // the data written is a polynomial of this degree in time
  int         mapBy      = -1;            // this participant maps both data between its own mesh and the partner's
  bool        conserve   = false;         // ... with a conservative write mapping
  bool        varySteps  = false;         // steps of the first participant differ between iterations
};

struct Run {
  Plan        p;
  int         comps = 1;
  std::string cfg;
  // last[w]: the value of w at the end of the previous window; cur[w][i]: knots written by w in iteration i of the current window
  std::vector<double>          start[2];
  struct Window {
    std::vector<Knots> iter; // written knots per iteration
  };
  std::vector<Window> win[2];
  int                 done[2] = {0, 0};
  std::vector<int>    iterations[2];
  double              endT[2] = {0, 0};

  bool serial() const { return p.scheme[0] == 's'; }
  bool implicit() const { return p.scheme.find("implicit") != std::string::npos; }
  bool isFirst(int who) const { return (who == 0) != p.swap; }
  double end(int k) const
  {
    double e = (k + 1) * p.W;
    return p.T > 0 && p.T < e ? p.T : e;
  }
  std::vector<double> endValue(int w, int k) const // what w passed on at the end of window k
  {
    if (k < 0)
      return start[w];
    return win[w][k].iter.back().back().v;
  }
  // knots visible to reader r in window k, iteration i
  Knots visible(int r, int k, int i) const
  {
    int   w = 1 - r;
    Knots res;
    res.push_back({k * p.W, endValue(w, k - 1)});
    int from = -1;
    if (serial() && !isFirst(r))
      from = i;
    else if (implicit() && i > 0)
      from = i - 1;
    if (from >= 0) {
      if (from == i - 1) {
        Knots ks = passed(w, k, from);
        res.insert(res.end(), ks.begin(), ks.end());
        return res;
      }
      const Knots &ks = win[w][k].iter[from];
      if (p.substeps[w])
        res.insert(res.end(), ks.begin(), ks.end());
      else
        res.push_back({end(k), ks.back().v});
    }
    return res;
  }
  static bool sampleable(const Knots &ks, int degree, double t)
  {
    int d = std::min<int>(degree, (int) ks.size() - 1);
    if (d <= 1 || (int) ks.size() == d + 1)
      return true;
    for (auto &k : ks)
      if (k.t == t)
        return true;
    return false;
  }
  static std::vector<double> sample(const Knots &ks, int degree, double t)
  {
    int d = std::min<int>(degree, (int) ks.size() - 1);
    if (ks.size() == 1)
      return ks[0].v;
    if (d == 0) {
      for (auto &k : ks)
        if (k.t >= t - 1e-12)
          return k.v;
      return ks.back().v;
    }
    for (auto &k : ks)
      if (k.t == t)
        return k.v;
    if (d > 1) { // as many samples as the polynomial of this degree needs
      std::vector<double> r(ks[0].v.size(), 0.0);
      for (size_t i = 0; i < ks.size(); ++i) {
        double f = 1, g = 1;
        for (size_t j = 0; j < ks.size(); ++j)
          if (j != i) {
            f *= t - ks[j].t;
            g *= ks[i].t - ks[j].t;
          }
        for (size_t c = 0; c < r.size(); ++c)
          r[c] += f / g * ks[i].v[c];
      }
      return r;
    }
    size_t j = 1;
    while (j + 1 < ks.size() && ks[j].t < t)
      ++j;
    double              f = (t - ks[j - 1].t) / (ks[j].t - ks[j - 1].t);
    std::vector<double> r;
    for (size_t c = 0; c < ks[j].v.size(); ++c)
      r.push_back(ks[j - 1].v[c] + f * (ks[j].v[c] - ks[j - 1].v[c]));
    return r;
  }
  void build()
  {
    h::Two c;
    c.scheme   = p.scheme;
    c.kind     = p.kind;
    c.first    = p.swap ? "B" : "A";
    c.second   = p.swap ? "A" : "B";
    c.time     = "<max-time value=\"" + num(p.T) + "\"/><time-window-size value=\"" + num(p.W) + "\"/>";
    c.exA      = std::string("substeps=\"") + (p.substeps[0] ? "true" : "false") + "\"" + (p.init[0] ? " initialize=\"true\"" : "");
    c.exB      = std::string("substeps=\"") + (p.substeps[1] ? "true" : "false") + "\"" + (p.init[1] ? " initialize=\"true\"" : "");
    c.own      = p.own;
    c.sendA    = p.sends[0];
    c.sendB    = p.sends[1];
    if (implicit()) {
      if (p.iters > 0 && !p.unlimited)
        c.extra += "<max-iterations value=\"" + std::to_string(p.iters) + "\"/>";
      if (p.minIters > 0)
        c.extra += "<min-iterations value=\"" + std::to_string(p.minIters) + "\"/>";
      int n = 0;
      for (auto &m : p.measures) {
        static const char *names[] = {"absolute", "relative", "absolute-or-relative", "residual-relative"};
        std::string        l = "limit" + std::to_string(n), a = "abslimit" + std::to_string(n);
        ++n;
        world::setSymbol(l, m.limit);
        world::setSymbol(a, m.absLimit);
        c.extra += std::string("<") + names[m.type] + "-convergence-measure data=\"" + (m.data ? "DB" : "DA") + "\" mesh=\"" + mesh(m.data) + "\" suffices=\"" + (m.suffices ? "1" : "0") + "\" strict=\"" + (m.strict ? "1" : "0") + "\" ";
        if (m.type == 2)
          c.extra += "abs-limit=\"sym:" + a + "\" rel-limit=\"sym:" + l + "\"/>";
        else
          c.extra += "limit=\"sym:" + l + "\"/>";
      }
    }
    if (p.accel) {
      world::setSymbol("omega", p.omega);
      c.extra += p.accel == 1 ? "<acceleration:constant><relaxation value=\"sym:omega\"/></acceleration:constant>" : "<acceleration:aitken><initial-relaxation value=\"sym:omega\"/>";
      if (p.accel == 2) {
        for (int w = 0; w < 2; ++w)
          if (p.primary[w])
            c.extra += std::string("<data name=\"") + (w ? "DB" : "DA") + "\" mesh=\"" + mesh(w) + "\"" + (p.scale[w] > 0 ? " scaling=\"" + num(p.scale[w]) + "\"" : "") + "/>";
        if (p.scale[0] > 0)
          c.extra += "<preconditioner type=\"constant\"/>";
        c.extra += "</acceleration:aitken>";
      }
    }
    c.extra += p.extra;
    if (p.mapBy >= 0) {
      c.mapBy    = p.mapBy;
      c.conserve = p.conserve;
    }
    std::string x = c.xml();
    // waveform degrees per data
    auto put = [&](const std::string &name, int deg) {
      std::string tag = "name=\"" + name + "\" ";
      size_t      at  = x.find(tag);
      if (at != std::string::npos)
        x.insert(at + tag.size(), "waveform-degree=\"" + std::to_string(deg) + "\"");
    };
    put("DA", p.degree[0]);
    put("DB", p.degree[1]);
    cfg   = world::writeConfig(x);
    comps = p.kind == "vector" ? 2 : 1;
  }
  int size() const { return comps * p.nv; }
  // the mesh on which the data of w is exchanged
  const char *mesh(int w) const { return p.mapBy >= 0 ? (p.mapBy == 0 ? "MB" : "MA") : (p.own && w == 1 ? "MB" : "MA"); }
  // the mesh on which participant who accesses the data of w, and its index of a vertex
  const char *api(int who, int w) const { return p.mapBy == who ? (who ? "MB" : "MA") : mesh(w); }
  int         id(int who, int i) const { return p.mapBy == who ? p.nv - 1 - i : i; }
  // what a participant writes: fresh symbolic values
  std::vector<double> fresh(const char *n, bool partial)
  {
    std::vector<double> v(size(), 0.0);
    for (int c = 0; c < size(); ++c)
      if (!partial || c >= comps)
        v[c] = (p.pinned && c < comps) || window == p.fixedWindow || window < p.symFrom ? 0.75 + 0.5 * ((++pins * 7) % 11) : sym::real(n, -10, 10);
    return v;
  }
  void write(Participant &P, int who, const std::vector<double> &v, bool partial)
  {
    std::vector<VertexID> ids;
    std::vector<double>   vals;
    for (int i : order(p.writeOrder)) {
      if (partial && i == 0)
        continue;
      ids.push_back(id(who, i));
      for (int c = 0; c < comps; ++c)
        vals.push_back(v[i * comps + c]);
    }
    P.writeData(api(who, who), who == 0 ? "DA" : "DB", ids, vals);
  }
  std::vector<int> order(const std::vector<int> &given) const
  {
    std::vector<int> r = given;
    for (int i = p.nv - 1; i >= 0 && given.empty(); --i)
      r.push_back(i);
    return r;
  }
  void read(Participant &P, int who, double rel, const Knots &ks, double t, const char *label)
  {
    int w = 1 - who;
    bool poly = p.poly[w] > 0;
    if (!poly && !sampleable(ks, p.degree[w], t))
      return;
    auto                  which = order(p.readOrder);
    std::vector<VertexID> ids;
    for (int i : which)
      ids.push_back(id(who, i));
    std::vector<double>   got(ids.size() * comps, -77.0), want = poly && t <= ks.back().t ? polynomial(w, t) : sample(ks, p.degree[w], t);
    P.readData(api(who, w), w == 0 ? "DA" : "DB", ids, rel, got);
    for (size_t i = 0; i < ids.size(); ++i)
      for (int c = 0; c < comps; ++c)
        sym::close(got[i * comps + c], want[which[i] * comps + c], 1e-9, label);
  }
  bool accelerates(int w) const { return p.accel && (!serial() || !isFirst(w)); }
  Knots previous(int w, int k, int it) const // the iterate before iteration it
  {
    if (it > 0) {
      Knots ks = passed(w, k, it - 1);
      ks.insert(ks.begin(), Knot{k * p.W, endValue(w, k - 1)});
      return ks;
    }
    return {{k * p.W, endValue(w, k - 1)}};
  }
  // the knots the scheme passes on after iteration it that did not converge
  Knots passed(int w, int k, int it) const
  {
    Knots ks = win[w][k].iter[it];
    if (!p.substeps[w])
      ks = {{end(k), ks.back().v}};
    if (!accelerates(w))
      return ks;
    auto key = std::make_pair(w, std::make_pair(k, it));
    auto hit = cache.find(key);
    if (hit != cache.end())
      return hit->second;
    double om  = factor(k, it);
    Knots  old = previous(w, k, it);
    for (auto &q : ks) {
      auto o = sample(old, p.degree[w], q.t);
      for (size_t c = 0; c < q.v.size(); ++c)
        q.v[c] = q.v[c] * om + o[c] * (1.0 - om);
    }
    cache[key] = ks;
    return ks;
  }
  // residual of the primary data at the end of the window
  std::vector<double> residual(int k, int it) const
  {
    std::vector<double> r;
    for (int w = 0; w < 2; ++w) {
      if (!p.primary[w])
        continue;
      auto x = win[w][k].iter[it].back().v, o = sample(previous(w, k, it), p.degree[w], end(k));
      for (size_t c = 0; c < x.size(); ++c)
        r.push_back(x[c] - o[c]);
    }
    return r;
  }
  double factor(int k, int it) const
  {
    if (p.accel == 1)
      return p.omega;
    auto key = std::make_pair(k, it);
    auto hit = factors.find(key);
    if (hit != factors.end())
      return hit->second;
    double f;
    if (it == 0) {
      double last = k == 0 ? p.omega : lastFactor(k - 1);
      double mag  = last < 0 ? -last : last, sign = last < 0 ? -1.0 : (last > 0 ? 1.0 : 0.0);
      f           = sign * std::min(p.omega, mag);
    } else {
      auto   r0 = residual(k, it - 1), r1 = residual(k, it);
      double n = 0, d = 0;
      for (size_t c = 0; c < r0.size(); ++c) {
        double s = 1;
        if (p.primary[0] && p.primary[1]) {
          int w = (int) c < size() ? 0 : 1;
          s     = 1.0 / p.scale[w];
        }
        double delta = r1[c] - r0[c];
        n += (r0[c] * s) * (delta * s);
        d += (delta * s) * (delta * s);
      }
      sym::assume((d == 0) | (d > 1e-2));
      if (d == 0) {
        f = factor(k, it - 1);
        sym::cover("?unchanged residual");
      } else {
        f = -factor(k, it - 1) * (n / d);
        sym::assume((f < 20) & (f > -20));
      }
    }
    factors[key] = f;
    return f;
  }
  // the factor left behind by window k: its accepted iteration is not accelerated
  double lastFactor(int k) const
  {
    int n = win[0][k].iter.size();
    return n > 1 ? factor(k, n - 2) : (k == 0 ? p.omega : lastFactor(k - 1));
  }
  mutable std::map<std::pair<int, std::pair<int, int>>, Knots> cache;
  mutable std::map<std::pair<int, int>, double>                factors;
  static double norm2(const std::vector<double> &a, const std::vector<double> &b)
  {
    double r = 0;
    for (size_t i = 0; i < a.size(); ++i)
      r += (a[i] - b[i]) * (a[i] - b[i]);
    return r;
  }
  // |value of iteration it - value of the iteration before| squared, of the data of w in window k
  double residual2(int w, int k, int it) const
  {
    return norm2(win[w][k].iter[it].back().v, it == 0 ? endValue(w, k - 1) : passed(w, k, it - 1).back().v);
  }
  bool met(const Measure &m, int k, int it) const
  {
    double d2 = residual2(m.data, k, it), n2 = norm2(win[m.data][k].iter[it].back().v, std::vector<double>(size(), 0.0));
    bool   abs = d2 <= (m.type == 0 ? m.limit * m.limit : m.absLimit * m.absLimit), rel = d2 <= n2 * m.limit * m.limit;
    switch (m.type) {
    case 0:
      return abs;
    case 1:
      return rel;
    case 2:
      return abs || rel;
    default:
      return d2 < residual2(m.data, k, 0) * m.limit * m.limit;
    }
  }
  // the criteria of the configuration, it counts from 0
  bool converged(int k, int it) const
  {
    if (p.measures.empty())
      return false;
    bool all = true, suffices = false, strict = false;
    for (auto &m : p.measures) {
      bool c   = met(m, k, it);
      all      = all && c;
      suffices = suffices || (c && m.suffices);
      strict   = strict || (!c && m.strict);
    }
    return it + 1 >= p.minIters && (all || (suffices && !strict));
  }
  bool strictFailure(int k, int it) const
  {
    if (it + 1 < p.iters || p.unlimited)
      return false;
    for (auto &m : p.measures)
      if (m.strict && !met(m, k, it))
        return true;
    return false;
  }
  // a polynomial in time with value zero at time zero
  std::vector<double> polynomial(int w, double t)
  {
    auto &k = coeff[w];
    while ((int) k.size() < size() * p.poly[w])
      k.push_back(sym::real("k", -4, 4));
    std::vector<double> v(size(), 0.0);
    for (int c = 0; c < size(); ++c) {
      double x = t;
      for (int d = 0; d < p.poly[w]; ++d, x *= t)
        v[c] += k[c * p.poly[w] + d] * x;
    }
    return v;
  }
  std::vector<double> coeff[2];
  bool failed = false;
  int  pins   = 0, window = 0;
  void participant(int who)
  {
    const char *name = who == 0 ? "A" : "B";
    Participant P(name, cfg, 0, 1);
    if (who == 0 || p.own || p.mapBy >= 0) {
      for (int i = 0; i < p.nv; ++i) {
        double x[2] = {double(id(who, i)), 0.5 * id(who, i)};
        P.setMeshVertex(api(who, who), x);
      }
    }
    if (p.mapBy < 0 && (who == 1 || p.own)) {
      double bb[4] = {-1, 10, -1, 10};
      P.setMeshAccessRegion(mesh(1 - who), bb);
    }
    world::ready();
    start[who].assign(size(), 0.0);
    sym::check(P.requiresInitialData() == (p.init[who] && p.sends[who]), "initial data requested exactly if configured");
    if (p.init[who] && p.sends[who] && (who == 0 || p.own || p.mapBy >= 0)) {
      auto v = fresh(who == 0 ? "initA" : "initB", p.initPartial);
      write(P, who, v, p.initPartial);
      start[who] = v;
      sym::cover("?initial data written");
    }
    P.initialize();
    int    w = 1 - who, k = 0, it = 0;
    double t = 0;
    while (P.isCouplingOngoing()) {
      if (k > 8) {
        sym::fail("coupling does not end");
        return;
      }
      sym::check(P.requiresWritingCheckpoint() == (implicit() && it == 0), "checkpoint requested exactly at the start of a window of implicit coupling");
      if ((int) win[who].size() <= k)
        win[who].resize(k + 1);
      win[who][k].iter.resize(it + 1);
      double s = k * p.W, e = end(k);
      // a split point of the window
      double split = s + (p.steps[who] > 3 ? 0.125 : 0.5) * (e - s);
      if (p.steps[who] > 1 && p.symStep && k == p.symWindow && it == 0) {
        double f = sym::real("split", 0.05, 0.95);
        // stay clear of the library's time tolerance
        if (otherSplit >= 0)
          sym::assume(f == otherSplit || f >= otherSplit + 1e-6 || f <= otherSplit - 1e-6);
        sym::assume(f == 0.5 || f >= 0.500001 || f <= 0.499999);
        otherSplit = f;
        splitAt[who] = s + f * (e - s);
      }
      if (p.varySteps && p.steps[who] > 1)
        split = s + (it % 2 ? 0.25 : 0.5) * (e - s);
      if (p.steps[who] > 1 && p.symStep && k == p.symWindow)
        split = splitAt[who];
      for (int step = 0; step < p.steps[who]; ++step) {
        double tn = step + 1 == p.steps[who] ? e : (step == 0 ? split : s + (e - s) * (step + 1) / p.steps[who]);
        double dt = tn - t;
        if (p.sends[w]) {
          Knots ks = visible(who, k, it);
          read(P, who, 0.0, ks, t, "value at the beginning of the step");
          read(P, who, dt, ks, tn, "value at the end of the step");
          if (step == 0)
            read(P, who, P.getMaxTimeStepSize(), ks, e, "value at the end of the window");
          if (p.symRead && k == p.symWindow && step == p.steps[who] - 1) {
            double f = sym::real("rel", 0.0, 1.0);
            // stay clear of the library's time tolerance
            bool clear = true;
            for (auto &q : ks)
              clear = clear && (t + f * dt - q.t > 1e-6 || q.t - t - f * dt > 1e-6 || t + f * dt == q.t);
            sym::assume(clear);
            read(P, who, f * dt, ks, t + f * dt, "value at an arbitrary time of the step");
            sym::cover("arbitrary read time");
          }
        }
        bool part = p.partial && p.nv > 1 && (k % 2 == 1);
        window    = k;
        auto v    = p.poly[who] ? polynomial(who, tn) : fresh(who == 0 ? "a" : "b", part);
        win[who][k].iter[it].push_back({tn, v});
        if (p.sends[who])
          write(P, who, v, part);
        if (p.unlimited && !isFirst(who) && step + 1 == p.steps[who] && it + 1 == p.iters)
          sym::assume(converged(k, it));
        if (!isFirst(who) && step + 1 == p.steps[who] && std::any_of(p.measures.begin(), p.measures.end(), [](auto &m) { return m.strict; })) {
          bool err = throws([&] { P.advance(dt); });
          sym::check(err == strictFailure(k, it), "unmet strict measure in the last iteration, and nothing else, is an error");
          if (err) {
            sym::cover("?strict failure");
            failed = true;
            world::abandonOthers();
            return;
          }
        } else {
          P.advance(dt);
        }
        t = tn;
        if (step + 1 < p.steps[who])
          sym::check(!P.requiresReadingCheckpoint() && !P.requiresWritingCheckpoint() && !P.isTimeWindowComplete(), "nothing happens inside a window");
      }
      bool complete = !implicit() || it + 1 == p.iters || converged(k, it);
      sym::check(P.requiresReadingCheckpoint() == !complete, "the window repeats exactly while not converged and below the iteration limit");
      sym::check(P.isTimeWindowComplete() == complete, "the window completes exactly when it does not repeat");
      if (!complete) {
        ++it;
        t = s;
        sym::cover("?window repeats");
        if (it > 5) {
          sym::fail("iterations beyond every limit");
          return;
        }
      } else {
        if (implicit() && it + 1 < p.iters)
          sym::cover("?converged before the limit");
        iterations[who].push_back(it + 1);
        it = 0;
        ++k;
      }
    }
    done[who] = k;
    endT[who] = t;
    P.finalize();
  }
  double splitAt[2] = {0, 0}, otherSplit = -1;
  void spawn()
  {
    build();
    world::spawn("A", [this] { participant(0); });
    world::spawn("B", [this] { participant(1); });
  }
  void prep(const Plan &q)
  {
    p = q;
    spawn();
    world::prepare();
  }
  void finish()
  {
    world::run();
    if (failed)
      return;
    int n = 0;
    while (p.T > n * p.W)
      ++n;
    sym::check(done[0] == n && done[1] == n, "both participants complete all windows");
    sym::check(iterations[0] == iterations[1], "both participants do the same number of iterations in every window");
    sym::check(world::undelivered() == 0, "every message sent is received");
    sym::cover("completed");
  }
};
} // namespace couple
