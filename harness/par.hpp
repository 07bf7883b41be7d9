// The same coupled run twice: every participant on one rank, and distributed over several ranks.
#pragma once
#include "map.hpp"

namespace par {
using namespace h;
using maps::Mesh;
using maps::Points;

struct Plan {
  std::string type = "nearest-neighbor", attrs, inner, constraint = "consistent";
  bool        write  = false; // mapping of A (else of B)
  bool        both   = false; // a second mapping of the opposite direction and constraint carries data back
  std::string typeBack = "nearest-neighbor", dataBackAttr, accAttr, attrsBack, innerBack, constraintBack = "conservative";
  int         dims   = 2;
  std::string kind   = "scalar", kindBack = "scalar";
  bool        gradient = false, init = false;
  Mesh        in, out;
  int         ranks[2] = {2, 2};
  std::string filter = "no-filter", safety, m2n;
  std::string scheme = "serial-explicit", extra, more, rootAttr;
  int         windows = 1, iters = 1;
  bool        substeps = false;
};

struct Run {
  Plan                          p;
  int                           comps = 1, compsBack = 1;
  std::string                   cfg[2];
  std::vector<std::vector<int>> parts[2];     // parallel world: vertices of every rank of A / B
  std::vector<std::vector<double>> v, w;      // values written by A / B per iteration (all iterations, counted over windows)
  std::vector<double>           v0, w0;       // initial data
  std::vector<std::vector<double>> g;         // gradients
  // [world][participant][iteration] values read; -77 where nobody read; control[world][participant][rank]: what the rank was told
  std::vector<std::vector<double>> got[2][2];
  std::vector<std::string>         control[2][2];

  std::string xml(bool parallel)
  {
    comps     = p.kind == "vector" ? p.dims : 1;
    compsBack = p.kindBack == "vector" ? p.dims : 1;
    const char *A = parallel ? "A" : "SA", *B = parallel ? "B" : "SB";
    std::string d = std::to_string(p.dims);
    std::string s = "<?xml version=\"1.0\"?>\n<precice-configuration " + p.rootAttr + "><profiling mode=\"off\"/>";
    s += "<data:" + p.kind + " name=\"D\"/>";
    if (p.both)
      s += "<data:" + p.kindBack + " name=\"E\" " + p.dataBackAttr + "/>";
    for (const char *m : {"MI", "MO"})
      s += std::string("<mesh name=\"") + m + "\" dimensions=\"" + d + "\"><use-data name=\"D\"/>" + (p.both ? "<use-data name=\"E\"/>" : "") + "</mesh>";
    auto mapping = [&](bool write, const std::string &type, const std::string &from, const std::string &to, const std::string &constraint, const std::string &attrs, const std::string &inner) {
      return "<mapping:" + type + " direction=\"" + (write ? "write" : "read") + "\" from=\"" + from + "\" to=\"" + to + "\" constraint=\"" + constraint + "\" " + attrs + (inner.empty() ? "/>" : ">" + inner + "</mapping:" + type + ">");
    };
    std::string maps = mapping(p.write, p.type, "MI", "MO", p.constraint, p.attrs, p.inner);
    if (p.both)
      maps += mapping(!p.write, p.typeBack, "MO", "MI", p.constraintBack, p.attrsBack, p.innerBack);
    std::string recv = std::string(" geometric-filter=\"") + p.filter + "\"" + (p.safety.empty() ? "" : " safety-factor=\"" + p.safety + "\"") + "/>";
    s += std::string("<participant name=\"") + A + "\"><provide-mesh name=\"MI\"/>" + (p.write ? "<receive-mesh name=\"MO\" from=\"" + std::string(B) + "\"" + recv : "") + "<write-data name=\"D\" mesh=\"MI\"/>" + (p.both ? "<read-data name=\"E\" mesh=\"MI\"/>" : "") + (p.write ? maps + p.more : "") + "</participant>";
    s += std::string("<participant name=\"") + B + "\"><provide-mesh name=\"MO\"/>" + (p.write ? "" : "<receive-mesh name=\"MI\" from=\"" + std::string(A) + "\"" + recv) + "<read-data name=\"D\" mesh=\"MO\"/>" + (p.both ? "<write-data name=\"E\" mesh=\"MO\"/>" : "") + (p.write ? "" : maps + p.more) + "</participant>";
    s += std::string("<m2n:sockets acceptor=\"") + A + "\" connector=\"" + B + "\" " + (parallel ? p.m2n : "") + "/><coupling-scheme:" + p.scheme + "><participants first=\"" + A + "\" second=\"" + B + "\"/><max-time-windows value=\"" + std::to_string(p.windows) + "\"/><time-window-size value=\"1\"/>";
    const char *mesh = p.write ? "MO" : "MI";
    auto        ex   = [&](const char *data, const char *from, const char *to) {
      s += std::string("<exchange data=\"") + data + "\" mesh=\"" + mesh + "\" from=\"" + from + "\" to=\"" + to + "\" substeps=\"" + (p.substeps ? "true" : "false") + "\"" + (p.init ? " initialize=\"true\"" : "") + "/>";
    };
    ex("D", A, B);
    if (p.both)
      ex("E", B, A);
    if (p.iters > 1)
      s += "<max-iterations value=\"" + std::to_string(p.iters) + "\"/>";
    s += p.extra + "</coupling-scheme:" + p.scheme + "></precice-configuration>";
    return s;
  }
  void body(int world, int who, int rank, int size)
  {
    bool        parallel = world == 1;
    std::string name     = std::string(parallel ? "" : "S") + (who ? "B" : "A");
    Participant P(name, cfg[world], rank, size);
    world::ready();
    const Mesh      &m    = who ? p.out : p.in;
    const char      *mesh = who ? "MO" : "MI";
    std::vector<int> mine;
    if (parallel)
      mine = parts[who][rank];
    else
      for (size_t i = 0; i < m.x.size(); ++i)
        mine.push_back(i);
    std::vector<VertexID> ids;
    std::map<int, VertexID> at;
    for (int i : mine)
      at[i] = P.setMeshVertex(mesh, m.x[i]), ids.push_back(at[i]);
    auto have = [&](auto &e) {
      for (int i : e)
        if (!at.count(i))
          return false;
      return true;
    };
    for (auto &e : m.edges)
      if (have(e))
        P.setMeshEdge(mesh, at[e[0]], at[e[1]]);
    for (auto &t : m.triangles)
      if (have(t))
        P.setMeshTriangle(mesh, at[t[0]], at[t[1]], at[t[2]]);
    for (auto &t : m.tets)
      if (have(t))
        P.setMeshTetrahedron(mesh, at[t[0]], at[t[1]], at[t[2]], at[t[3]]);
    bool writes = who == 0 || p.both, reads = who == 1 || p.both;
    int  nw = who ? compsBack : comps, nr = who ? comps : compsBack;
    auto mineOf = [&](const std::vector<double> &all, int c) {
      std::vector<double> r;
      for (int i : mine)
        r.insert(r.end(), all.begin() + i * c, all.begin() + (i + 1) * c);
      return r;
    };
    const char *dw = who ? "E" : "D", *dr = who ? "D" : "E";
    std::string log;
    if (p.init && writes) {
      log += P.requiresInitialData() ? "i" : "-";
      P.writeData(mesh, dw, ids, mineOf(who ? w0 : v0, nw));
    }
    P.initialize();
    auto read = [&](size_t slot, double rel) {
      if (!reads)
        return;
      auto &G = got[world][who];
      if (G.size() <= slot)
        G.resize(slot + 1, std::vector<double>(m.x.size() * nr, -77.0));
      std::vector<double> r(mine.size() * nr, -55.0);
      P.readData(mesh, dr, ids, rel, r);
      for (size_t k = 0; k < mine.size(); ++k)
        for (int c = 0; c < nr; ++c) {
          double &o = G[slot][mine[k] * nr + c];
          if (o != -77.0)
            sym::close(o, r[k * nr + c], 1e-6, "copies of a vertex on two ranks read the same value");
          o = r[k * nr + c];
        }
    };
    read(0, 0);
    int n = 0, slot = 1;
    while (P.isCouplingOngoing()) {
      if (n >= 30) {
        sym::fail("coupling does not end");
        return;
      }
      if (p.iters > 1)
        log += P.requiresWritingCheckpoint() ? "w" : ".";
      double dt = P.getMaxTimeStepSize();
      log += num(dt) + " ";
      int    steps = p.substeps ? 2 : 1;
      for (int st = 0; st < steps; ++st) {
        double rest = P.getMaxTimeStepSize(), h = st + 1 == steps ? rest : rest * 0.5;
        if (p.scheme[0] == 's' && who == 1)
          read(slot++, h);
        if (writes) {
          auto &src = who ? w : v;
          P.writeData(mesh, dw, ids, mineOf(src[std::min<size_t>(n * steps + st, src.size() - 1)], nw));
          if (p.gradient && who == 0)
            P.writeGradientData(mesh, dw, ids, mineOf(g[0], nw * p.dims));
        }
        P.advance(h);
        read(slot++, 0);
        if (p.iters > 1 && P.isCouplingOngoing()) // the current iterate
          read(slot++, P.getMaxTimeStepSize());
      }
      if (p.iters > 1)
        log += P.requiresReadingCheckpoint() ? "r" : ".";
      log += P.isTimeWindowComplete() ? "c" : ".";
      ++n;
    }
    P.finalize();
    control[world][who].push_back(log);
  }
  void prep(const Plan &q)
  {
    p = q;
    for (int world = 0; world < 2; ++world) {
      cfg[world] = world::writeConfig(xml(world == 1));
      for (int who = 0; who < 2; ++who) {
        int n = world ? p.ranks[who] : 1;
        for (int r = 0; r < n; ++r)
          world::spawn(std::string(world ? "" : "S") + (who ? "B" : "A") + std::to_string(r), [=] { body(world, who, r, n); });
      }
    }
    world::prepare();
  }
  // every vertex on an arbitrary rank
  void anyPartition(int who)
  {
    auto &m = who ? p.out : p.in;
    parts[who].assign(p.ranks[who], {});
    for (size_t i = 0; i < m.x.size(); ++i)
      parts[who][p.ranks[who] == 1 ? 0 : sym::choice(who ? "rankB" : "rankA", p.ranks[who])].push_back(i);
  }
  static std::vector<double> values(size_t n, const char *name, double lim = 10)
  {
    std::vector<double> r;
    for (size_t i = 0; i < n; ++i)
      r.push_back(sym::real(name, -lim, lim));
    return r;
  }
  void go(double tol = 1e-6)
  {
    world::run();
    for (int who = 0; who < 2; ++who) {
      if (who == 0 && !p.both)
        continue;
      auto &s = got[0][who], &q = got[1][who];
      sym::check(s.size() == q.size(), "the same number of steps");
      for (size_t k = 0; k < std::min(s.size(), q.size()); ++k)
        for (size_t i = 0; i < s[k].size(); ++i)
          sym::close(q[k][i], s[k][i], tol, "the same value as on one rank");
      sym::check((int) control[1][who].size() == p.ranks[who], "every rank ends");
    }
    for (int who = 0; who < 2; ++who)
      for (auto &l : control[1][who])
        sym::check(l == control[0][who][0], "every rank is told the same as the only rank of the serial run");
    sym::check(world::undelivered() == 0, "every message sent is received");
    sym::cover("compared");
  }
};
} // namespace par
