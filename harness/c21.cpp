// C21: just-in-time mapping (mapAndReadData, writeAndMapData).
#include "rbf.hpp"
#include <algorithm>
using namespace rbf;
using namespace h;
using maps::Points;
namespace {
struct Step {
  double                           dt;    // size of B's step
  std::vector<std::pair<double, Points>> reads;  // relative time, points
  std::vector<std::pair<Points, std::vector<double>>> writes;
};
struct Jit {
  std::string type = "nearest-neighbor", attrs, inner, kind = "scalar", scheme = "serial-explicit", extra;
  int         dims = 2, comps = 1, windows = 1, iters = 1;
  bool        reads = true, writes = true, wanted = true;
  std::string meshAttr, rest; // more of B
  std::string substeps = "true";
  Points      x;            // vertices of A's mesh
  std::vector<std::vector<double>> F; // per advance of A: values written
  std::vector<Step> steps;            // per advance of B
  std::vector<std::vector<std::vector<double>>> got; // per advance of B, per read
  std::vector<std::vector<double>> G; // per advance of A: values read at the end of the window before advancing, then after the end
  std::vector<double> Gend;
  std::string cfg;
  std::vector<std::vector<double>> region;
  std::function<void(Participant &)> before, inside, after;

  void prep()
  {
    comps = kind == "vector" ? dims : 1;
    std::string d = std::to_string(dims), s = "<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\"><profiling mode=\"off\"/>";
    s += "<data:" + kind + " name=\"F\"/><data:" + kind + " name=\"G\"/>";
    s += "<mesh name=\"M\" dimensions=\"" + d + "\"><use-data name=\"F\"/><use-data name=\"G\"/></mesh>";
    s += "<participant name=\"A\"><provide-mesh name=\"M\"/><write-data name=\"F\" mesh=\"M\"/>" + std::string(writes ? "<read-data name=\"G\" mesh=\"M\"/>" : "") + "</participant>";
    auto map = [&](const char *dir, const char *c) {
      std::string m = "<mapping:" + type + " direction=\"" + dir + "\" " + (dir[0] == 'r' ? "from" : "to") + "=\"M\" constraint=\"" + c + "\" " + attrs;
      return m + (inner.empty() ? "/>" : ">" + inner + "</mapping:" + type + ">");
    };
    s += "<participant name=\"B\"><receive-mesh name=\"M\" from=\"A\" api-access=\"true\"/>";
    if (reads)
      s += "<read-data name=\"F\" mesh=\"M\"/>";
    if (writes)
      s += "<write-data name=\"G\" mesh=\"M\"/>";
    if (reads)
      s += map("read", "consistent");
    if (writes)
      s += map("write", "conservative");
    s += rest + "</participant><m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" + scheme + "><participants first=\"A\" second=\"B\"/><max-time-windows value=\"" + std::to_string(windows) + "\"/><time-window-size value=\"1\"/>";
    s += "<exchange data=\"F\" mesh=\"M\" from=\"A\" to=\"B\" substeps=\"" + substeps + "\"/>";
    if (writes)
      s += "<exchange data=\"G\" mesh=\"M\" from=\"B\" to=\"A\" substeps=\"" + substeps + "\"/>";
    if (iters > 1)
      s += "<max-iterations value=\"" + std::to_string(iters) + "\"/><min-iterations value=\"" + std::to_string(iters) + "\"/>";
    s += extra + "</coupling-scheme:" + scheme + "></precice-configuration>";
    cfg = world::writeConfig(s);
    world::spawn("A", [this] { a(); });
    world::spawn("B", [this] { b(); });
    world::prepare();
  }
  void a()
  {
    Participant P("A", cfg, 0, 1);
    world::ready();
    std::vector<VertexID> ids;
    for (auto &v : x)
      ids.push_back(P.setMeshVertex("M", v));
    P.initialize();
    size_t k = 0;
    std::vector<double> g(x.size() * comps, -7.0);
    while (P.isCouplingOngoing()) {
      if (P.requiresWritingCheckpoint()) {
      }
      double dt = P.getMaxTimeStepSize();
      if (writes) {
        P.readData("M", "G", ids, dt, g);
        G.push_back(g);
      }
      sym::check(k < F.size(), "A is not asked for more iterations than planned");
      P.writeData("M", "F", ids, F[k++]);
      P.advance(dt);
      if (P.requiresReadingCheckpoint()) {
      }
    }
    if (writes) {
      P.readData("M", "G", ids, 0, g);
      Gend = g;
    }
    P.finalize();
  }
  static std::vector<double> flat(const Points &p)
  {
    std::vector<double> c;
    for (auto &q : p)
      c.insert(c.end(), q.begin(), q.end());
    return c;
  }
  void b()
  {
    Participant P("B", cfg, 0, 1);
    world::ready();
    std::vector<double> bb;
    for (int i = 0; i < dims; ++i) {
      bb.push_back(-10);
      bb.push_back(10);
    }
    P.setMeshAccessRegion("M", bb);
    if (before)
      before(P);
    P.initialize();
    size_t k = 0;
    while (P.isCouplingOngoing()) {
      if (P.requiresWritingCheckpoint()) {
      }
      sym::check(k < steps.size(), "B is not asked for more steps than planned");
      auto &s = steps[k++];
      got.emplace_back();
      for (auto &[t, p] : s.reads) {
        std::vector<double> v(p.size() * comps, -7.0);
        P.mapAndReadData("M", "F", flat(p), t, v);
        got.back().push_back(v);
      }
      for (auto &[p, v] : s.writes)
        P.writeAndMapData("M", "G", flat(p), v);
      if (inside)
        inside(P);
      P.advance(s.dt);
      if (P.requiresReadingCheckpoint()) {
      }
    }
    if (after)
      after(P);
    P.finalize();
  }
  std::vector<double> values(size_t n, const char *name = "f") const
  {
    std::vector<double> v;
    for (size_t i = 0; i < n * comps; ++i)
      v.push_back(sym::real(name, -10, 10));
    return v;
  }
  void go()
  {
    world::run();
    sym::check(world::undelivered() == 0, "every message sent is received");
    sym::cover("ran");
  }
  // index of the vertex nearest to q; paths with (nearly) tied distances end
  int nearest(const std::vector<double> &q) const
  {
    for (size_t i = 0; i < x.size(); ++i) {
      bool best = true;
      for (size_t k = 0; k < x.size(); ++k)
        if (k != i)
          best = best & (maps::dist2(x[i], q) + 1e-6 < maps::dist2(x[k], q));
      if (best)
        return i;
    }
    __sym_end_path();
    return -1;
  }
} J;

void nn(const char *scheme, int dims, const char *kind, int windows, int iters)
{
  J.scheme  = scheme;
  J.dims    = dims;
  J.kind    = kind;
  J.windows = windows;
  J.iters   = iters;
  J.prep();
}
const Points TRI{{0, 0}, {2, 0.25}, {0.5, 1.5}}, TET{{0, 0, 0}, {1, 0, 0.25}, {0, 1, 0.5}};

// ---------------------------------------------------------------- nearest neighbor
void checkRead(int k, int r, const std::vector<double> &q, size_t at, const std::vector<double> &F, double scale, const char *label)
{
  int i = J.nearest(q);
  for (int c = 0; c < J.comps; ++c)
    sym::close(J.got[k][r][at * J.comps + c], scale * F[i * J.comps + c], 1e-9, label);
}
void checkWrite(const std::vector<double> &G, const Step &s, const char *label)
{
  std::vector<double> want(J.x.size() * J.comps, 0.0);
  for (auto &[p, v] : s.writes)
    for (size_t j = 0; j < p.size(); ++j) {
      int i = J.nearest(p[j]);
      for (int c = 0; c < J.comps; ++c)
        want[i * J.comps + c] += v[j * J.comps + c];
    }
  for (size_t i = 0; i < want.size(); ++i)
    sym::close(G[i], want[i], 1e-9, label);
}
void s1() { nn("serial-explicit", 2, "scalar", 2, 1); }
} // namespace
SYM_SCENARIO_PREP(nn_serial_scalar_2d, s1)
{
  J.x    = TRI;
  auto q = maps::point("q", 2, -1, 3);
  double t = sym::real("t", 0.01, 1);
  J.F      = {J.values(3), J.values(3)};
  Points a{q, {0.25, 0.125}}, b{{1.75, 0.5}};
  J.steps  = {{1, {{t, a}, {1.0, b}, {t, b}, {1.0, {}}}, {{a, J.values(2, "g")}, {b, J.values(1, "g")}, {a, J.values(2, "g")}, {{}, {}}}}, {1, {{1.0, a}}, {}}};
  J.go();
  // the first window starts from zero
  double f = t >= 1 - 1e-13 ? 1 : t;
  for (size_t j = 0; j < a.size(); ++j) {
    checkRead(0, 0, a[j], j, J.F[0], f, "nearest value interpolated in time");
    checkRead(1, 0, a[j], j, J.F[1], 1, "nearest value of the next window");
  }
  checkRead(0, 1, b[0], 0, J.F[0], 1, "nearest value at the window's end");
  checkRead(0, 2, b[0], 0, J.F[0], f, "second query of the same time");
  checkWrite(J.G[1], J.steps[0], "sum of the loads written nearest to the vertex");
  for (double g : J.Gend)
    sym::close(g, 0, 0, "nothing written in the last window");
}
namespace {
void s2() { nn("parallel-implicit", 2, "vector", 1, 3); }
} // namespace
SYM_SCENARIO_PREP(nn_parallel_implicit_vector, s2)
{
  J.x    = TRI;
  auto q = maps::point("q", 2, -1, 3);
  J.F    = {J.values(3), J.values(3), J.values(3)};
  Points a{{0.25, 0.125}, q};
  for (int i = 0; i < 3; ++i)
    J.steps.push_back({1, {{1.0, a}, {0.5, a}}, {{a, J.values(2, "g")}}});
  J.go();
  for (size_t j = 0; j < 2; ++j) {
    for (int i = 1; i < 3; ++i) {
      checkRead(i, 0, a[j], j, J.F[i - 1], 1, "nearest value of the last iterate");
      checkRead(i, 1, a[j], j, J.F[i - 1], 0.5, "nearest value of the last iterate within the window");
    }
    for (int c = 0; c < J.comps; ++c)
      sym::close(J.got[0][0][j * J.comps + c], 0, 0, "nothing known in the first iteration");
  }
  for (int i = 1; i < 3; ++i)
    checkWrite(J.G[i], J.steps[i - 1], "loads of the last iteration only");
  checkWrite(J.Gend, J.steps[2], "loads of the accepted iteration");
}
namespace {
void s3() { nn("serial-implicit", 3, "vector", 1, 2); }
} // namespace
SYM_SCENARIO_PREP(nn_serial_implicit_3d_substeps, s3)
{
  J.x = TET;
  auto   q = maps::onSegments("q", {{{-1, 0.5, 0.75}, {2, 0.75, -0.5}}});
  double t = sym::real("t", 0.1, 0.9);
  J.F = {J.values(3), J.values(3)};
  Points a{q}, b{{0.125, 0.75, 0.25}};
  J.steps = {{t, {{0.0, a}, {1.0, a}}, {{a, J.values(1, "g")}}}, {1 - t, {{1 - t, b}, {0.0, a}}, {{b, J.values(1, "g")}, {a, J.values(1, "g")}}}, {t, {{0.0, b}, {1.0, a}}, {{b, J.values(1, "g")}}}, {1 - t, {{1 - t, a}, {0.0, a}}, {{a, J.values(1, "g")}}}};
  J.go();
  checkRead(0, 1, q, 0, J.F[0], 1, "end of the window, first iteration");
  checkRead(0, 0, q, 0, J.F[0], 0, "beginning of the window");
  checkRead(1, 0, b[0], 0, J.F[0], 1, "end of the window from the second step");
  checkRead(1, 1, q, 0, J.F[0], t, "between two steps");
  checkRead(2, 0, b[0], 0, J.F[1], 0, "beginning of the window, second iteration");
  checkRead(2, 1, q, 0, J.F[1], 1, "end of the window, second iteration");
  checkRead(3, 0, q, 0, J.F[1], 1, "end of the window from the second step, second iteration");
  checkRead(3, 1, q, 0, J.F[1], t, "between two steps, second iteration");
  checkWrite(J.G[1], J.steps[1], "loads of the last step of the first iteration");
  checkWrite(J.Gend, J.steps[3], "loads of the last step of the accepted iteration");
}
// points outside of the access region, wrong sizes
namespace {
void s8() { nn("serial-explicit", 2, "vector", 1, 1); }
} // namespace
SYM_SCENARIO_PREP(nn_rejected_calls, s8)
{
  J.x = TRI;
  Points a{{0.25, 0.125}};
  J.F      = {J.values(3)};
  J.steps  = {{1, {{1.0, a}}, {{a, J.values(1, "g")}}}};
  auto q   = maps::point("q", 2, -20, 20);
  int  n   = sym::integer("n", 0, 5);
  J.inside = [&](Participant &P) {
    bool in = (q[0] >= -10) & (q[0] <= 10) & (q[1] >= -10) & (q[1] <= 10);
    for (double c : q)
      sym::assume((std::fabs(c - 10) > 1e-6) & (std::fabs(c + 10) > 1e-6));
    std::vector<double> v(n, 1.0);
    bool                ok = in & (n == 2);
    sym::check(throws([&] { P.mapAndReadData("M", "F", q, 1.0, v); }) == !ok, "reading is accepted exactly inside of the access region and with the right size");
    for (double &w : v)
      w = 1;
    sym::check(throws([&] { P.writeAndMapData("M", "G", q, v); }) == !ok, "writing is accepted exactly inside of the access region and with the right size");
    if (ok)
      J.steps[0].writes.push_back({{q}, v});
  };
  J.go();
  checkRead(0, 0, a[0], 0, J.F[0], 1, "nearest value");
  checkWrite(J.Gend, J.steps[0], "accepted loads only");
}
// ---------------------------------------------------------------- partition of unity
namespace {
Basis PHI;
Poly  POLY;
void  pum(Basis phi, Poly poly, const std::string &attrs, const char *scheme, int dims, const char *kind, int windows = 1, int iters = 1)
{
  PHI     = phi;
  POLY    = poly;
  J.type  = "rbf-pum-direct";
  J.inner = phi.xml();
  J.attrs = std::string("polynomial=\"") + polyName(poly) + "\" " + attrs;
  nn(scheme, dims, kind, windows, iters);
}
const Points SIX{{0, 0}, {1, 0.125}, {2, -0.125}, {0.25, 1}, {1.125, 1.25}, {2.125, 0.875}};
Mat operatorAt(const Points &q)
{
  Mat W;
  if (!operatorMatrix(PHI, POLY, J.x, q, std::vector<bool>(J.dims, false), W))
    __sym_end_path();
  return W;
}
void checkOperatorRead(const std::vector<double> &got, const Points &q, const std::vector<double> &F, double scale, const char *label)
{
  Mat W = operatorAt(q);
  for (size_t j = 0; j < q.size(); ++j)
    for (int c = 0; c < J.comps; ++c) {
      double want = 0;
      for (size_t i = 0; i < J.x.size(); ++i)
        want += W[j][i] * F[i * J.comps + c];
      sym::close(got[j * J.comps + c], scale * want, 1e-5, label);
    }
}
void checkOperatorWrite(const std::vector<double> &G, const Step &s, const char *label)
{
  std::vector<double> want(J.x.size() * J.comps, 0.0);
  for (auto &[p, v] : s.writes) {
    Mat W = operatorAt(p);
    for (size_t j = 0; j < p.size(); ++j)
      for (size_t i = 0; i < J.x.size(); ++i)
        for (int c = 0; c < J.comps; ++c)
          want[i * J.comps + c] += W[j][i] * v[j * J.comps + c];
  }
  for (size_t i = 0; i < want.size(); ++i)
    sym::close(G[i], want[i], 1e-5, label);
}
void s4() { pum({C6, 3}, SEPARATE, "", "serial-explicit", 2, "scalar", 2); }
} // namespace
SYM_SCENARIO_PREP(pum_one_cluster, s4)
{
  J.x = SIX;
  Points a{{0.5, 0.5}, {1.5, 0.25}}, b{{1, 0.125}, {0.75, 1}};
  J.F     = {J.values(6), J.values(6)};
  J.steps = {{1, {{1.0, a}, {0.25, b}, {1.0, b}}, {{a, J.values(2, "g")}, {b, J.values(2, "g")}}}, {1, {{1.0, b}}, {{b, J.values(2, "g")}}}};
  J.go();
  checkOperatorRead(J.got[0][0], a, J.F[0], 1, "interpolated value");
  checkOperatorRead(J.got[0][1], b, J.F[0], 0.25, "interpolated value at another time");
  checkOperatorRead(J.got[0][2], b, J.F[0], 1, "interpolated value of the first time again");
  checkOperatorRead(J.got[1][0], b, J.F[1], 1, "interpolated value in the next window");
  checkOperatorWrite(J.G[1], J.steps[0], "loads of both calls");
  checkOperatorWrite(J.Gend, J.steps[1], "loads of the second window only");
}
namespace {
void s5() { pum({C2, 2.5}, OFF, "", "parallel-implicit", 2, "vector", 1, 2); }
} // namespace
SYM_SCENARIO_PREP(pum_implicit_vector_no_polynomial, s5)
{
  J.x = SIX;
  Points a{{0.5, 0.5}, {1.5, 0.25}, {2.125, 0.875}};
  J.F     = {J.values(6), J.values(6)};
  for (int i = 0; i < 2; ++i)
    J.steps.push_back({1, {{1.0, a}}, {{a, J.values(3, "g")}}});
  J.go();
  checkOperatorRead(J.got[1][0], a, J.F[0], 1, "interpolated value of the last iterate");
  checkOperatorWrite(J.G[1], J.steps[0], "loads of the first iteration");
  checkOperatorWrite(J.Gend, J.steps[1], "loads of the accepted iteration");
}
// loads outside the support of every basis function: only the polynomial part distributes them
namespace {
void s6() { pum({C4, 0.25}, SEPARATE, "", "serial-explicit", 2, "scalar"); }
} // namespace
SYM_SCENARIO_PREP(pum_small_support, s6)
{
  J.x = SIX;
  Points a{{0.5, 0.5}}, b{{1.0625, 0.125}};
  J.F     = {J.values(6)};
  J.steps = {{1, {{1.0, a}, {1.0, b}}, {{a, J.values(1, "g")}, {b, J.values(1, "g")}}}};
  if (sym::choice("only outside", 2))
    J.steps[0].writes.pop_back();
  J.go();
  checkOperatorRead(J.got[0][0], a, J.F[0], 1, "polynomial value outside of the supports");
  checkOperatorRead(J.got[0][1], b, J.F[0], 1, "value inside of a support");
  checkOperatorWrite(J.Gend, J.steps[0], "loads outside and inside of the supports");
}
// several clusters: linear fields exactly, loads conserved with their moments, writing is the transpose of reading
namespace {
void s7() { pum({C6, 2.5}, SEPARATE, "vertices-per-cluster=\"5\" project-to-input=\"false\"", "serial-explicit", 2, "scalar"); }
} // namespace
SYM_SCENARIO_PREP(pum_many_clusters, s7)
{
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 4; ++j)
      J.x.push_back({i + 0.0625 * ((i * 3 + j * 5) % 4), j - 0.0625 * ((i + j * 7) % 4)});
  Points a{{0.5, 0.5}, {2.5, 1.25}, {4.75, 2.5}}, b{{3.125, 0.875}};
  bool linear = sym::choice("linear", 2);
  J.F = {{}};
  double k0 = 0, k1 = 0, k2 = 0;
  if (linear) {
    k0 = sym::real("k", -10, 10), k1 = sym::real("k", -10, 10), k2 = sym::real("k", -10, 10);
    for (auto &p : J.x)
      J.F[0].push_back(k0 + k1 * p[0] + k2 * p[1]);
  } else {
    for (size_t i = 0; i < J.x.size(); ++i)
      J.F[0].push_back(i % 3 ? 0.25 * (double) ((i * 7) % 5) - 0.5 : sym::real("f", -10, 10));
  }
  auto ga = J.values(3, "g"), gb = J.values(1, "g");
  if (!linear)
    for (auto *g : {&ga, &gb})
      for (size_t i = 0; i < g->size(); ++i)
        (*g)[i] = i % 2 ? 1.5 : -2.25;
  J.steps = {{1, {{1.0, a}, {1.0, b}}, {{a, ga}, {b, gb}}}};
  J.go();
  double lhs = 0, rhs = 0;
  for (int k = 0; k < 2; ++k) {
    auto &[t, p] = J.steps[0].reads[k];
    for (size_t j = 0; j < p.size(); ++j) {
      if (linear)
        sym::close(J.got[0][k][j], k0 + k1 * p[j][0] + k2 * p[j][1], 1e-5, "linear field reproduced");
      else
        lhs += J.got[0][k][j] * J.steps[0].writes[k].second[j];
    }
  }
  if (!linear) {
    for (size_t i = 0; i < J.x.size(); ++i)
      rhs += J.F[0][i] * J.Gend[i];
    sym::close(lhs, rhs, 1e-4, "writing is the transpose of reading");
  } else {
    double m[3] = {0, 0, 0};
    for (size_t i = 0; i < J.x.size(); ++i) {
      m[0] += J.Gend[i];
      m[1] += J.Gend[i] * J.x[i][0];
      m[2] += J.Gend[i] * J.x[i][1];
    }
    for (auto &[p, v] : J.steps[0].writes)
      for (size_t j = 0; j < p.size(); ++j) {
        m[0] -= v[j];
        m[1] -= v[j] * p[j][0];
        m[2] -= v[j] * p[j][1];
      }
    for (double d : m)
      sym::close(d, 0, 1e-4, "loads and their moments are conserved");
  }
}
// ---------------------------------------------------------------- coarse graining
namespace {
void s9()
{
  J.type  = "coarse-graining";
  J.attrs = "radius=\"1.5\"";
  J.reads = false;
  nn("serial-explicit", 3, "vector", 1, 1);
}
} // namespace
SYM_SCENARIO_PREP(coarse_graining, s9)
{
  J.x      = {{0, 0, 0}, {1, 0, 0}, {2.5, 0, 0}, {0, 1, 0.5}};
  double t = sym::real("t", -2, 4);
  Points a{{t, 0, 0}}, b{{0.25, 0.75, 0.25}, {3.5, 0, 0}};
  if (sym::choice("where", 2))
    a[0] = {1, 0, 0};
  J.F     = {J.values(4)};
  J.steps = {{1, {}, {{a, J.values(1, "g")}, {b, J.values(2, "g")}}}};
  J.go();
  std::vector<double> want(J.x.size() * 3, 0.0);
  for (auto &[p, v] : J.steps[0].writes)
    for (size_t j = 0; j < p.size(); ++j)
      for (size_t i = 0; i < J.x.size(); ++i) {
        double r;
        if (p[j][1] == 0 && J.x[i][1] == 0)
          r = std::fabs(p[j][0] - J.x[i][0]);
        else if (p.size() == 2)
          r = std::sqrt(maps::dist2(p[j], J.x[i]));
        else
          continue; // off the line of the moving point: not compared
        if (r > 1.5)
          continue;
        double q = r / 1.5, k = 105 / (16 * 3.14159265358979323846 * 3.375) * (1 + 3 * q) * (1 - q) * (1 - q) * (1 - q);
        for (int c = 0; c < 3; ++c)
          want[i * 3 + c] += k * v[j * 3 + c];
      }
  for (size_t i = 0; i < 9; ++i)
    sym::close(J.Gend[i], want[i], 1e-6, "loads weighted with the kernel");
}
