// Reference model of networks of participants: several explicit schemes, at most one implicit scheme per participant,
// or fully implicit multi coupling.  Every pair of coupled participants shares one mesh of one vertex.
#pragma once
#include "common.hpp"
#include <algorithm>

namespace net {
using namespace h;

struct Knot {
  double t, v;
};
typedef std::vector<Knot> Knots;

struct Link {
  int a, b;                             // the earlier one provides the mesh
  bool ab = true, ba = true;            // directions that carry data
  bool sub = true;                      // substeps
  bool init = false;                    // initial data from a to b
};
struct Scheme {
  std::string       type;               // <serial|parallel>-<explicit|implicit> or multi
  std::vector<int>  parts;              // first, second; or all with the controller first
  std::vector<Link> links;
  double            W     = 1;
  int               iters = 1;
  int               measured = -1;      // from*10+to of the measured data, absolute measure
  double            limit    = 0.5;
};
struct Plan {
  int                 n = 3;
  double              T = 2;
  std::vector<Scheme> schemes;
  std::vector<int>    steps;            // steps per synchronisation interval of each participant
  int                 readWindow = 1;   // participants read at symbolic times when they start here
};

struct Run {
  Plan        p;
  std::string cfg;
  // knots[from*10+to][window of the writer][iteration]
  std::map<int, std::vector<std::vector<Knots>>> knots;
  int                                            ended = 0;

  static std::string name(int i) { return std::string(1, char('A' + i)); }
  static std::string mesh(const Link &l) { return "M" + name(l.a) + name(l.b); }
  static std::string data(int from, int to) { return "D" + name(from) + name(to); }
  bool implicit(const Scheme &s) const { return s.type == "multi" || s.type.find("implicit") != std::string::npos; }
  const Scheme *implicitOf(int who) const
  {
    for (auto &s : p.schemes)
      if (implicit(s) && std::count(s.parts.begin(), s.parts.end(), who))
        return &s;
    return nullptr;
  }
  void build()
  {
    std::string x = "<?xml version=\"1.0\"?>\n<precice-configuration><profiling mode=\"off\"/>", meshes, m2n, cs;
    std::vector<std::string> parts(p.n);
    for (auto &s : p.schemes) {
      std::string ex;
      for (auto &l : s.links) {
        auto dir = [&](int from, int to) {
          x += "<data:scalar name=\"" + data(from, to) + "\"/>";
          ex += "<exchange data=\"" + data(from, to) + "\" mesh=\"" + mesh(l) + "\" from=\"" + name(from) + "\" to=\"" + name(to) + "\" substeps=\"" + (l.sub ? "true" : "false") + "\"" + (l.init && from == l.a ? " initialize=\"true\"" : "") + "/>";
        };
        if (l.ab)
          dir(l.a, l.b);
        if (l.ba)
          dir(l.b, l.a);
        meshes += "<mesh name=\"" + mesh(l) + "\" dimensions=\"2\">";
        if (l.ab)
          meshes += "<use-data name=\"" + data(l.a, l.b) + "\"/>";
        if (l.ba)
          meshes += "<use-data name=\"" + data(l.b, l.a) + "\"/>";
        meshes += "</mesh>";
        parts[l.a] += "<provide-mesh name=\"" + mesh(l) + "\"/>";
        parts[l.b] += "<receive-mesh name=\"" + mesh(l) + "\" from=\"" + name(l.a) + "\" api-access=\"true\"/>";
        m2n += "<m2n:sockets acceptor=\"" + name(l.a) + "\" connector=\"" + name(l.b) + "\"/>";
      }
      cs += "<coupling-scheme:" + s.type + ">";
      if (s.type == "multi") {
        for (size_t i = 0; i < s.parts.size(); ++i)
          cs += "<participant name=\"" + name(s.parts[i]) + "\"" + (i == 0 ? " control=\"yes\"" : "") + "/>";
      } else {
        cs += "<participants first=\"" + name(s.parts[0]) + "\" second=\"" + name(s.parts[1]) + "\"/>";
      }
      cs += "<max-time value=\"" + num(p.T) + "\"/><time-window-size value=\"" + num(s.W) + "\"/>" + ex;
      if (implicit(s)) {
        cs += "<max-iterations value=\"" + std::to_string(s.iters) + "\"/>";
        if (s.measured >= 0)
          for (auto &l : s.links)
            if (l.a * 10 + l.b == s.measured || l.b * 10 + l.a == s.measured)
              cs += "<absolute-convergence-measure limit=\"" + num(s.limit) + "\" data=\"" + data(s.measured / 10, s.measured % 10) + "\" mesh=\"" + mesh(l) + "\"/>";
      }
      cs += "</coupling-scheme:" + s.type + ">";
    }
    for (auto &s : p.schemes)
      for (auto &l : s.links) {
        auto dir = [&](int from, int to) {
          parts[from] += "<write-data name=\"" + data(from, to) + "\" mesh=\"" + mesh(l) + "\"/>";
          parts[to] += "<read-data name=\"" + data(from, to) + "\" mesh=\"" + mesh(l) + "\"/>";
        };
        if (l.ab)
          dir(l.a, l.b);
        if (l.ba)
          dir(l.b, l.a);
      }
    x += meshes;
    for (int i = 0; i < p.n; ++i)
      x += "<participant name=\"" + name(i) + "\">" + parts[i] + "</participant>";
    x += m2n + cs + "</precice-configuration>";
    cfg = world::writeConfig(x);
  }
  std::map<int, double> starts;
  const double *startValue(int key) const { return starts.count(key) ? &starts.at(key) : nullptr; }
  // all values the writer passed on, in time
  Knots passedOn(int key) const
  {
    Knots k;
    if (startValue(key) != nullptr)
      k.push_back({0.0, *startValue(key)});
    auto  it = knots.find(key);
    if (it != knots.end())
      for (auto &w : it->second)
        if (!w.empty())
          k.insert(k.end(), w.back().begin(), w.back().end());
    return k;
  }
  static double valueAt(const Knots &k, double t)
  {
    double v = 0;
    for (auto &q : k)
      if (q.t <= t + 1e-9)
        v = q.v;
    return v;
  }
  // knots reader r sees of data key at (local) window wk and iteration it, in the scheme's window [s,e]
  Knots visible(const Scheme &s, const Link &l, int key, int wk, int it, double ws, double we)
  {
    Knots res;
    int   w = key / 10, r = key % 10;
    bool  second = s.type[0] == 's' && s.parts[1] == r;
    if (implicit(s)) {
      auto  &ks   = knots[key];
      double base = wk == 0 ? (startValue(key) ? *startValue(key) : 0.0) : ks[wk - 1].back().back().v;
      res.push_back({ws, base});
      int from = second ? it : it - 1;
      if (from >= 0) {
        auto &k = ks[wk][from];
        if (l.sub)
          res.insert(res.end(), k.begin(), k.end());
        else
          res.push_back({we, k.back().v});
      }
      return res;
    }
    (void) w;
    Knots all = passedOn(key);
    res.push_back({ws, valueAt(all, ws)});
    if (second) {
      if (l.sub) {
        for (auto &q : all)
          if (q.t > ws + 1e-9 && q.t <= we + 1e-9)
            res.push_back(q);
      } else {
        res.push_back({we, valueAt(all, we)});
      }
    }
    return res;
  }
  static double sample(const Knots &ks, double t)
  {
    if (ks.size() == 1 || t <= ks[0].t)
      return ks[0].v;
    for (auto &k : ks)
      if (k.t == t)
        return k.v;
    size_t j = 1;
    while (j + 1 < ks.size() && ks[j].t < t)
      ++j;
    double f = (t - ks[j - 1].t) / (ks[j].t - ks[j - 1].t);
    return ks[j - 1].v + f * (ks[j].v - ks[j - 1].v);
  }
  bool converged(const Scheme &s, int wk, int it)
  {
    if (it + 1 >= s.iters)
      return true;
    if (s.measured < 0)
      return false;
    auto  &ks  = knots[s.measured];
    double old = it > 0 ? ks[wk][it - 1].back().v : (wk > 0 ? ks[wk - 1].back().back().v : startValue(s.measured) ? *startValue(s.measured) : 0.0);
    double d   = ks[wk][it].back().v - old;
    return d * d <= s.limit * s.limit;
  }
  void participant(int who)
  {
    Participant  P(name(who), cfg, 0, 1);
    const Scheme *imp = implicitOf(who);
    for (auto &s : p.schemes)
      for (auto &l : s.links) {
        if (l.a == who) {
          double x[2] = {0, 0};
          P.setMeshVertex(mesh(l), x);
        }
        if (l.b == who) {
          double bb[4] = {-1, 1, -1, 1};
          P.setMeshAccessRegion(mesh(l), bb);
        }
      }
    world::ready();
    bool init = false;
    for (auto &s : p.schemes)
      for (auto &l : s.links)
        init = init || (l.init && l.a == who);
    sym::check(P.requiresInitialData() == init, "initial data requested exactly if one of the schemes needs it");
    for (auto &s : p.schemes)
      for (auto &l : s.links)
        if (l.init && l.a == who) {
          VertexID id = 0;
          double   v  = starts[l.a * 10 + l.b] = sym::real(("i" + data(l.a, l.b)).c_str(), -10, 10);
          P.writeData(mesh(l), data(l.a, l.b), {&id, 1}, {&v, 1});
          sym::cover("?initial data written");
        }
    P.initialize();
    int    wk = 0, it = 0, n = 0;
    double t = 0, start = 0;
    auto   windowOf = [&](const Scheme &s, double at) {
      int k = 0;
      while ((k + 1) * s.W <= at + 1e-9)
        ++k;
      return k;
    };
    while (P.isCouplingOngoing()) {
      if (++n > 40) {
        sym::fail("coupling does not end");
        return;
      }
      bool wc = P.requiresWritingCheckpoint();
      sym::check(wc == (imp && it == 0 && t == start), "checkpoint requested exactly at the start of a window of the implicit scheme");
      // the next synchronisation
      double e = 1e9;
      for (auto &s : p.schemes) {
        if (!std::count(s.parts.begin(), s.parts.end(), who))
          continue;
        if (imp && !implicit(s) && it > 0)
          continue; // on hold
        double we = std::min(p.T, (windowOf(s, t) + 1) * s.W);
        e         = std::min(e, we);
      }
      sym::close(P.getMaxTimeStepSize(), e - t, 1e-9, "offered step size reaches the next window end of the participant's schemes");
      int    sub = p.steps.size() > (size_t) who ? p.steps[who] : 1;
      double s0  = t;
      for (auto &s : p.schemes)
        for (auto &l : s.links) {
          for (int dir = 0; dir < 2; ++dir) {
            int from = dir ? l.b : l.a, to = dir ? l.a : l.b;
            if (from == who && (dir ? l.ba : l.ab)) {
              auto &k = knots[from * 10 + to];
              if ((int) k.size() <= wk)
                k.resize(wk + 1);
              k[wk].resize(it + 1);
            }
          }
        }
      for (int step = 0; step < sub; ++step) {
        double tn = step + 1 == sub ? e : s0 + (e - s0) * (step + 1) / sub, dt = tn - t;
        for (auto &s : p.schemes)
          for (auto &l : s.links)
            for (int dir = 0; dir < 2; ++dir) {
              int from = dir ? l.b : l.a, to = dir ? l.a : l.b;
              if (!(dir ? l.ba : l.ab))
                continue;
              if (to == who) {
                // windows of the scheme; an implicit scheme counts its own
                double ws = windowOf(s, s0) * s.W, we = std::min(p.T, ws + s.W);
                Knots  ks = visible(s, l, from * 10 + to, wk, it, ws, we);
                VertexID id = 0;
                double   g  = -77;
                auto     rd = [&](double rel, const char *label) {
                  P.readData(mesh(l), data(from, to), {&id, 1}, rel, {&g, 1});
                  sym::close(g, sample(ks, t + rel), 1e-9, label);
                };
                rd(0, "value at the beginning of the step");
                rd(dt, "value at the end of the step");
                if (from * 10 + to == chosen && windowOf(s, t) == p.readWindow && step == sub - 1) {
                    double f     = sym::real("rel", 0, 1);
                    bool   clear = true;
                    for (auto &q : ks)
                      clear = clear & ((t + f * dt - q.t > 1e-6) | (q.t - t - f * dt > 1e-6) | (t + f * dt == q.t));
                    sym::assume(clear);
                    rd(f * dt, "value at an arbitrary time of the step");
                  sym::cover("arbitrary read time");
                }
              }
            }
        for (auto &s : p.schemes)
          for (auto &l : s.links)
            for (int dir = 0; dir < 2; ++dir) {
              int from = dir ? l.b : l.a, to = dir ? l.a : l.b;
              if (from != who || !(dir ? l.ba : l.ab))
                continue;
              double   v  = sym::real(data(from, to).c_str(), -10, 10);
              VertexID id = 0;
              P.writeData(mesh(l), data(from, to), {&id, 1}, {&v, 1});
              knots[from * 10 + to][wk][it].push_back({tn, v});
            }
        P.advance(dt);
        t = tn;
      }
      bool done = !imp || std::abs(t - std::min(p.T, (windowOf(*imp, s0) + 1) * imp->W)) > 1e-9 || converged(*imp, wk, it);
      sym::check(P.requiresReadingCheckpoint() == !done, "the window repeats exactly while not converged");
      if (!done) {
        ++it;
        t = start;
        sym::cover("?window repeats");
      } else {
        start = t;
        it    = 0;
        ++wk;
      }
    }
    sym::close(t, p.T, 1e-9, "every participant reaches the maximum time");
    ++ended;
    P.finalize();
  }
  void prep(const Plan &q)
  {
    p = q;
    build();
    for (int i = 0; i < p.n; ++i)
      world::spawn(name(i), [this, i] { participant(i); });
    world::prepare();
  }
  int  chosen = -1; // the data that is read at a symbolic time
  void finish()
  {
    std::vector<int> keys;
    for (auto &s : p.schemes)
      for (auto &l : s.links) {
        if (l.ab)
          keys.push_back(l.a * 10 + l.b);
        if (l.ba)
          keys.push_back(l.b * 10 + l.a);
      }
    chosen = keys[sym::choice("read", keys.size())];
    world::run();
    sym::check(ended == p.n, "all participants end");
    sym::check(world::undelivered() == 0, "every message sent is received");
    sym::cover("completed");
  }
};
} // namespace net
