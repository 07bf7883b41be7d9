// One data mapping between the meshes of two participants, driven through the public API.
#pragma once
#include "common.hpp"
#include <array>

namespace maps {
using namespace h;
typedef std::vector<std::vector<double>> Points;

struct Mesh {
  Points                        x;
  std::vector<std::array<int, 2>> edges;
  std::vector<std::array<int, 3>> triangles;
  std::vector<std::array<int, 4>> quads, tets;
};

struct Plan {
  std::string type = "nearest-neighbor", attrs, inner, constraint = "consistent";
  bool        write = false;  // write mapping of A (else read mapping of B)
  int         dims  = 2;
  std::string kind  = "scalar";
  bool        gradient = false;
  Mesh        in, out;
  std::string more;           // further configuration of the participant that maps
  std::string pre;
  std::string rootAttr;
  std::string scheme = "serial-explicit";
  bool        init = false;   // map initial data
  int         steps = 2;      // of A per window, all exchanged if more than one
};

// A provides the mesh MI and writes D on it, B provides MO and reads D from it
struct Run {
  Plan                p;
  std::string         cfg;
  int                 comps = 1;
  std::vector<double> v, g, r, v0, r0;  // values written, gradients (component after component per vertex), values read
  bool                repeatMapping = false;
  int                 windows = 3;             // the values of interest are those of the last one
  std::vector<bool>   skipGradient;            // vertices without gradient in the last window
  std::function<void(Participant &, int)> extraSetup;
  std::vector<VertexID> idI, idO;
  bool expectError = false;      // initialize() of the mapping participant must raise an error
  bool failed = false;

  void build()
  {
    comps = p.kind == "vector" ? p.dims : 1;
    std::string s = "<?xml version=\"1.0\"?>\n<precice-configuration " + p.rootAttr + "><profiling mode=\"off\"/>" + p.pre;
    std::string d = std::to_string(p.dims);
    s += "<data:" + p.kind + " name=\"D\"/>";
    for (const char *m : {"MI", "MO"})
      s += std::string("<mesh name=\"") + m + "\" dimensions=\"" + d + "\"><use-data name=\"D\"/></mesh>";
    std::string map = "<mapping:" + p.type + " direction=\"" + (p.write ? "write" : "read") + "\" from=\"MI\" to=\"MO\" constraint=\"" + p.constraint + "\" " + p.attrs + (p.inner.empty() ? "/>" : ">" + p.inner + "</mapping:" + p.type + ">") + p.more;
    s += "<participant name=\"A\"><provide-mesh name=\"MI\"/>" + std::string(p.write ? "<receive-mesh name=\"MO\" from=\"B\"/>" : "") + "<write-data name=\"D\" mesh=\"MI\"/>" + (p.write ? map : "") + "</participant>";
    s += "<participant name=\"B\"><provide-mesh name=\"MO\"/>" + std::string(p.write ? "" : "<receive-mesh name=\"MI\" from=\"A\"/>") + "<read-data name=\"D\" mesh=\"MO\"/>" + (p.write ? "" : map) + "</participant>";
    s += "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" + p.scheme + "><participants first=\"A\" second=\"B\"/><max-time-windows value=\"" + std::to_string(windows) + "\"/><time-window-size value=\"1\"/>";
    s += std::string("<exchange data=\"D\" mesh=\"") + (p.write ? "MO" : "MI") + "\" from=\"A\" to=\"B\" substeps=\"" + (p.steps > 1 ? "true" : "false") + "\"" + (p.init ? " initialize=\"true\"" : "") + "/>";
    s += "</coupling-scheme:" + p.scheme + "></precice-configuration>";
    cfg = world::writeConfig(s);
  }
  std::vector<VertexID> setup(Participant &P, const char *name, const Mesh &m)
  {
    std::vector<VertexID> ids;
    for (auto &x : m.x)
      ids.push_back(P.setMeshVertex(name, x));
    for (auto &e : m.edges)
      P.setMeshEdge(name, ids[e[0]], ids[e[1]]);
    for (auto &t : m.triangles)
      P.setMeshTriangle(name, ids[t[0]], ids[t[1]], ids[t[2]]);
    for (auto &q : m.quads)
      P.setMeshQuad(name, ids[q[0]], ids[q[1]], ids[q[2]], ids[q[3]]);
    for (auto &t : m.tets)
      P.setMeshTetrahedron(name, ids[t[0]], ids[t[1]], ids[t[2]], ids[t[3]]);
    return ids;
  }
  void a()
  {
    Participant P("A", cfg, 0, 1);
    world::ready();
    idI = setup(P, "MI", p.in);
    if (extraSetup)
      extraSetup(P, 0);
    if (p.init) {
      sym::check(P.requiresInitialData(), "initial data requested");
      P.writeData("MI", "D", idI, v0);
    }
    P.initialize();
    for (int k = 1; P.isCouplingOngoing(); ++k) {
      auto w = v, gw = g;
      auto ids = idI;
      for (int step = 1; step < p.steps; ++step) {
        for (size_t i = 0; i < w.size(); ++i)
          w[i] = double((2 * i + 3 * k + step) % 5) - 1.5;
        for (size_t i = 0; i < gw.size(); ++i)
          gw[i] = double((3 * i + step) % 5) - 1.5;
        P.writeData("MI", "D", idI, w);
        if (p.gradient)
          P.writeGradientData("MI", "D", idI, gw);
        P.advance(P.getMaxTimeStepSize() / (p.steps - step + 1));
      }
      w = v, gw = g;
      if (k < windows) { // other values before
        for (size_t i = 0; i < w.size(); ++i)
          w[i] = double((3 * i + 2 * k) % 7) - 2.5;
        for (size_t i = 0; i < gw.size(); ++i)
          gw[i] = double((5 * i + k) % 6) - 2.5;
      }
      P.writeData("MI", "D", idI, w);
      if (k == windows && !skipGradient.empty()) {
        size_t n = comps * p.dims;
        ids.clear(), gw.clear();
        for (size_t i = 0; i < idI.size(); ++i)
          if (!skipGradient[i]) {
            ids.push_back(idI[i]);
            gw.insert(gw.end(), g.begin() + i * n, g.begin() + (i + 1) * n);
          }
      }
      if (p.gradient)
        P.writeGradientData("MI", "D", ids, gw);
      P.advance(P.getMaxTimeStepSize());
    }
    P.finalize();
  }
  void b()
  {
    Participant P("B", cfg, 0, 1);
    world::ready();
    idO = setup(P, "MO", p.out);
    if (extraSetup)
      extraSetup(P, 1);
    P.initialize();
    std::vector<double> got(p.out.x.size() * comps, -77.0);
    r0 = got;
    P.readData("MO", "D", idO, 0.0, r0);
    while (P.isCouplingOngoing()) {
      double dt = P.getMaxTimeStepSize();
      if (p.scheme[0] == 's')
        P.readData("MO", "D", idO, dt, got);
      P.advance(dt);
      if (p.scheme[0] != 's')
        P.readData("MO", "D", idO, 0.0, got);
    }
    r = got;
    P.finalize();
  }
  void spawn()
  {
    build();
    world::spawn("A", [this] { a(); });
    world::spawn("B", [this] { b(); });
  }
  // before the exploration forks: configuration only
  void prep(const Plan &q)
  {
    p = q;
    spawn();
    world::prepare();
  }
  void values(double lim = 10)
  {
    v.clear();
    for (size_t i = 0; i < p.in.x.size() * comps; ++i)
      v.push_back(sym::real("v", -lim, lim));
    if (p.gradient) {
      g.clear();
      for (size_t i = 0; i < p.in.x.size() * comps * p.dims; ++i)
        g.push_back(sym::real("g", -lim, lim));
    }
    if (p.init) {
      v0.clear();
      for (size_t i = 0; i < p.in.x.size() * comps; ++i)
        v0.push_back(sym::real("i", -lim, lim));
    }
  }
  void go()
  {
    world::run();
    sym::check(r.size() == p.out.x.size() * comps, "the receiver read all its values");
    sym::check(world::undelivered() == 0, "every message sent is received");
    sym::cover("mapped");
  }
  double in(size_t i, int c) const { return v[i * comps + c]; }
  double out(size_t i, int c) const { return r[i * comps + c]; }
  void   checkSum(const char *label)
  {
    for (int c = 0; c < comps; ++c) {
      double a = 0, b = 0;
      for (size_t i = 0; i < p.in.x.size(); ++i)
        a += in(i, c);
      for (size_t i = 0; i < p.out.x.size(); ++i)
        b += out(i, c);
      sym::close(a, b, 1e-6, label);
    }
  }
};

inline double dist2(const std::vector<double> &a, const std::vector<double> &b)
{
  double d = 0;
  for (size_t i = 0; i < a.size(); ++i)
    d += (a[i] - b[i]) * (a[i] - b[i]);
  return d;
}
// an arbitrary point of one of the segments
inline std::vector<double> onSegments(const char *n, const std::vector<std::pair<std::vector<double>, std::vector<double>>> &segs)
{
  auto               &s = segs[segs.size() > 1 ? sym::choice("segment", segs.size()) : 0];
  double              t = sym::real(n, 0, 1);
  std::vector<double> x;
  for (size_t i = 0; i < s.first.size(); ++i)
    x.push_back(s.first[i] == s.second[i] ? s.first[i] : s.first[i] + t * (s.second[i] - s.first[i]));
  return x;
}
inline std::vector<double> point(const char *n, int dims, double lo, double hi)
{
  std::vector<double> x;
  for (int i = 0; i < dims; ++i)
    x.push_back(sym::real(n, lo, hi));
  return x;
}
} // namespace maps
