// C17: partition-of-unity radial-basis-function mapping.
#include "rbf.hpp"
using namespace rbf;
static maps::Run R;
static Basis     PHI;
static Poly      POLY;
static void prep(Basis phi, Poly poly, bool conservative, bool write, int dims, const char *kind, const std::string &attrs)
{
  PHI  = phi;
  POLY = poly;
  maps::Plan p;
  p.type       = "rbf-pum-direct";
  p.inner      = phi.xml();
  p.constraint = conservative ? "conservative" : "consistent";
  p.write      = write;
  p.dims       = dims;
  p.kind       = kind;
  p.attrs      = std::string("polynomial=\"") + polyName(poly) + "\" " + attrs;
  R.prep(p);
}
// slightly irregular grids: enough vertices for several clusters
static maps::Points grid(int nx, int ny, int nz, double jitter, int variant = 0)
{
  maps::Points x;
  int          k = variant;
  for (int i = 0; i < nx; ++i)
    for (int j = 0; j < ny; ++j)
      for (int l = 0; l < std::max(nz, 1); ++l) {
        k = (k * 7 + 3) % 16;
        std::vector<double> p{i + jitter * (k - 8) / 16, j - jitter * ((k * 5) % 16 - 8) / 16};
        if (nz)
          p.push_back(l + jitter * ((k * 3) % 16 - 8) / 16);
        x.push_back(p);
      }
  return x;
}
static maps::Points probes(int dims, double ex, double ey, double ez)
{
  static const double t[5][3] = {{0.0625, 0.1875, 0.5}, {0.4375, 0.5625, 0.25}, {0.53125, 0.0625, 0.75}, {0.875, 0.90625, 0.125}, {0.3125, 0.6875, 0.9375}};
  maps::Points        x;
  for (auto &p : t)
    x.push_back(dims == 2 ? std::vector<double>{p[0] * ex, p[1] * ey} : std::vector<double>{p[0] * ex, p[1] * ey, p[2] * ez});
  return x;
}
// linear fields are reproduced, whatever the clusters; vertices that coincide with input vertices get their values
static void linear()
{
  auto  &p = R.p;
  double k[4];
  for (double &c : k)
    c = sym::real("k", p.dims == 3 && &c == k ? 1 : -10, 10); // in 3D away from the all-zero field: costly
  auto f = [&](const std::vector<double> &x) {
    double s = k[0];
    for (size_t d = 0; d < x.size(); ++d)
      s += k[1 + d] * x[d];
    return s;
  };
  R.v.clear();
  for (auto &x : p.in.x)
    for (int c = 0; c < R.comps; ++c)
      R.v.push_back(c ? -2 * f(x) : f(x));
  R.go();
  for (size_t j = 0; j < p.out.x.size(); ++j)
    for (int c = 0; c < R.comps; ++c)
      sym::close(R.out(j, c), c ? -2 * f(p.out.x[j]) : f(p.out.x[j]), 1e-4, "linear field reproduced");
  sym::cover("linear");
}
static void interpolates()
{
  auto &p = R.p;
  R.values();
  R.go();
  for (size_t j = 0; j < p.out.x.size(); ++j)
    for (size_t i = 0; i < p.in.x.size(); ++i)
      if (p.out.x[j] == p.in.x[i])
        for (int c = 0; c < R.comps; ++c)
          sym::close(R.out(j, c), R.in(i, c), 1e-4, "interpolation condition");
  sym::cover("interpolated");
}
static void conserves(bool moments = true)
{
  R.values();
  R.go();
  R.checkSum("the sum of the values is conserved");
  if (!moments)
    return;
  // moments: forces at points exert the same moment around the origin
  auto &p = R.p;
  for (int d = 0; d < p.dims; ++d)
    for (int c = 0; c < R.comps; ++c) {
      double a = 0, b = 0;
      for (size_t i = 0; i < p.in.x.size(); ++i)
        a += p.in.x[i][d] * R.in(i, c);
      for (size_t i = 0; i < p.out.x.size(); ++i)
        b += p.out.x[i][d] * R.out(i, c);
      sym::close(a, b, 1e-4, "the first moments of the values are conserved");
    }
  sym::cover("conserved");
}
static void l1() { prep({MQ, 0.5}, SEPARATE, false, false, 2, "scalar", "vertices-per-cluster=\"6\""); }
SYM_SCENARIO_PREP(linear_multiquadrics_2d, l1)
{
  R.p.in.x  = grid(5, 4, 0, 0.25, sym::choice("variant", 3));
  R.p.out.x = probes(2, 4, 3, 0);
  linear();
}
static void l2() { prep({C2, 2.5}, SEPARATE, false, true, 2, "vector", "vertices-per-cluster=\"6\" relative-overlap=\"0.4\" project-to-input=\"false\""); }
SYM_SCENARIO_PREP(linear_compact_2d_vector, l2)
{
  R.p.in.x  = grid(5, 4, 0, 0.25, sym::choice("variant", 3));
  R.p.out.x = probes(2, 4, 3, 0);
  linear();
}
static void l3() { prep({C4, 3}, SEPARATE, false, false, 3, "scalar", "vertices-per-cluster=\"8\" relative-overlap=\"0.3\""); }
SYM_SCENARIO_PREP(linear_3d, l3)
{
  R.p.in.x  = grid(4, 3, 2, 0.25, sym::choice("variant", 2));
  R.p.out.x = probes(3, 3, 2, 1);
  linear();
}
static void l4() { prep({C6, 4}, SEPARATE, false, false, 2, "scalar", "vertices-per-cluster=\"5\" relative-overlap=\"0.2\""); }
SYM_SCENARIO_PREP(linear_line_2d, l4) // all vertices on one line
{
  maps::Points in, out;
  for (int i = 0; i < 13; ++i)
    in.push_back({0.5 * i, 1 + 0.25 * i});
  for (double t : {0.125, 0.8125, 1.5, 2.71875, 3.9375})
    out.push_back({t, 1 + 0.5 * t});
  R.p.in.x  = in;
  R.p.out.x = out;
  linear();
}
static void i1() { prep({C2, 2}, OFF, false, false, 2, "scalar", "vertices-per-cluster=\"5\""); }
SYM_SCENARIO_PREP(interpolation_off_2d, i1)
{
  R.p.in.x  = grid(5, 4, 0, 0.25, sym::choice("variant", 2));
  R.p.out.x = {R.p.in.x[7], R.p.in.x[0], R.p.in.x[19], R.p.in.x[10], R.p.in.x[13]};
  interpolates();
}
static void i2() { prep({TPS}, SEPARATE, false, true, 2, "vector", "vertices-per-cluster=\"5\" project-to-input=\"false\""); }
SYM_SCENARIO_PREP(interpolation_separate_2d, i2)
{
  R.p.in.x  = grid(4, 4, 0, 0.25, sym::choice("variant", 2));
  R.p.out.x = {R.p.in.x[6], R.p.in.x[0], R.p.in.x[15], R.p.in.x[9]};
  interpolates();
}
static void i3() { prep({IMQ, 1}, SEPARATE, false, false, 3, "scalar", "vertices-per-cluster=\"6\""); }
SYM_SCENARIO_PREP(interpolation_3d, i3)
{
  R.p.in.x  = grid(3, 3, 2, 0.25, sym::choice("variant", 2));
  R.p.out.x = {R.p.in.x[6], R.p.in.x[0], R.p.in.x[17], R.p.in.x[9]};
  interpolates();
}
static void c1() { prep({MQ, 0.5}, SEPARATE, true, true, 2, "scalar", "vertices-per-cluster=\"5\""); }
SYM_SCENARIO_PREP(conservative_2d, c1)
{
  R.p.out.x = grid(5, 4, 0, 0.25, sym::choice("variant", 2));
  R.p.in.x  = probes(2, 4, 3, 0);
  conserves(false); // some clusters hold too few vertices for a linear polynomial
}
static void c3() { prep({VOL}, SEPARATE, true, false, 2, "scalar", "vertices-per-cluster=\"7\""); }
SYM_SCENARIO_PREP(conservative_moments_2d, c3)
{
  R.p.out.x = grid(5, 4, 0, 0.25, sym::choice("variant", 2));
  R.p.in.x  = probes(2, 4, 3, 0);
  conserves();
}
static void c2() { prep({C2, 2.5}, SEPARATE, true, false, 3, "vector", "vertices-per-cluster=\"6\" relative-overlap=\"0.3\" project-to-input=\"false\""); }
SYM_SCENARIO_PREP(conservative_3d_vector, c2)
{
  R.p.out.x = grid(3, 3, 2, 0.25, sym::choice("variant", 2));
  R.p.in.x  = probes(3, 2, 2, 1);
  conserves();
}
// fewer vertices than two clusters: the global interpolant
static void single()
{
  auto &p = R.p;
  R.values();
  R.go();
  Mat  W;
  bool cons = p.constraint == "conservative";
  std::vector<bool> dead(p.dims, false);
  if (!operatorMatrix(PHI, POLY, cons ? p.out.x : p.in.x, cons ? p.in.x : p.out.x, dead, W))
    return;
  if (cons)
    W = transpose(W);
  for (size_t j = 0; j < p.out.x.size(); ++j)
    for (int c = 0; c < R.comps; ++c) {
      double want = 0;
      for (size_t i = 0; i < p.in.x.size(); ++i)
        want += W[j][i] * R.in(i, c);
      sym::close(R.out(j, c), want, 1e-5, "a single cluster gives the global interpolant");
    }
  sym::cover("single");
}
static void s1() { prep({C4, 2}, SEPARATE, false, false, 2, "scalar", ""); }
SYM_SCENARIO_PREP(single_cluster_2d, s1)
{
  R.p.in.x  = grid(3, 2, 0, 0.25);
  R.p.out.x = probes(2, 2, 1, 0);
  single();
}
static void s2() { prep({IMQ, 1}, OFF, true, true, 3, "scalar", "vertices-per-cluster=\"7\""); }
SYM_SCENARIO_PREP(single_cluster_conservative_3d, s2)
{
  R.p.out.x = grid(2, 2, 2, 0.25);
  R.p.in.x  = probes(3, 1, 1, 1);
  single();
}

// the conservative mapping is the transpose of the consistent one: <W v, g> = <v, W' g>
namespace adj {
std::string         cfg;
int                 dims;
maps::Points        mi, mo;
std::vector<double> v, g, r, w;
void                prep(const std::string &tag, int d)
{
  dims           = d;
  std::string ds = std::to_string(d);
  std::string s  = "<?xml version=\"1.0\"?>\n<precice-configuration><profiling mode=\"off\"/><data:scalar name=\"D\"/><data:scalar name=\"F\"/>";
  for (const char *m : {"MI", "MO"})
    s += std::string("<mesh name=\"") + m + "\" dimensions=\"" + ds + "\"><use-data name=\"D\"/><use-data name=\"F\"/></mesh>";
  std::string head = tag.substr(0, tag.find(' ')), end = tag.substr(tag.find('>'));
  s += "<participant name=\"A\"><provide-mesh name=\"MI\"/><write-data name=\"D\" mesh=\"MI\"/><read-data name=\"F\" mesh=\"MI\"/></participant>";
  s += "<participant name=\"B\"><provide-mesh name=\"MO\"/><receive-mesh name=\"MI\" from=\"A\"/><read-data name=\"D\" mesh=\"MO\"/><write-data name=\"F\" mesh=\"MO\"/>";
  for (int k = 0; k < 2; ++k) {
    std::string t = tag;
    t.insert(t.find('>') , k ? " direction=\"write\" from=\"MO\" to=\"MI\" constraint=\"conservative\"" : " direction=\"read\" from=\"MI\" to=\"MO\" constraint=\"consistent\"");
    s += t;
  }
  s += "</participant><m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:parallel-explicit><participants first=\"A\" second=\"B\"/><max-time-windows value=\"1\"/><time-window-size value=\"1\"/>";
  s += "<exchange data=\"D\" mesh=\"MI\" from=\"A\" to=\"B\" substeps=\"false\"/><exchange data=\"F\" mesh=\"MI\" from=\"B\" to=\"A\" substeps=\"false\"/></coupling-scheme:parallel-explicit></precice-configuration>";
  cfg = world::writeConfig(s);
  world::spawn("A", [] {
    h::Participant P("A", cfg, 0, 1);
    world::ready();
    std::vector<h::VertexID> ids;
    for (auto &x : mi)
      ids.push_back(P.setMeshVertex("MI", x));
    P.initialize();
    P.writeData("MI", "D", ids, v);
    P.advance(1);
    w.assign(mi.size(), -77.0);
    P.readData("MI", "F", ids, 0, w);
    P.finalize();
  });
  world::spawn("B", [] {
    h::Participant P("B", cfg, 0, 1);
    world::ready();
    std::vector<h::VertexID> ids;
    for (auto &x : mo)
      ids.push_back(P.setMeshVertex("MO", x));
    P.initialize();
    P.writeData("MO", "F", ids, g);
    P.advance(1);
    r.assign(mo.size(), -77.0);
    P.readData("MO", "D", ids, 0, r);
    P.finalize();
  });
  world::prepare();
}
void run()
{
  v.clear();
  for (size_t i = 0; i < mi.size(); ++i)
    v.push_back(sym::real("v", -10, 10));
  int e = sym::choice("unit", mo.size());
  g.assign(mo.size(), 0.0);
  g[e] = 1;
  world::run();
  double s = 0;
  for (size_t i = 0; i < mi.size(); ++i)
    s += w[i] * v[i];
  sym::close(r[e], s, 1e-4, "conservative mapping is the transposed consistent mapping");
  sym::cover("adjoint");
}
} // namespace adj
static void a1() { adj::prep("<mapping:rbf-pum-direct vertices-per-cluster=\"5\"><basis-function:multiquadrics shape-parameter=\"0.5\"/></mapping:rbf-pum-direct>", 2); }
SYM_SCENARIO_PREP(transposed_2d, a1)
{
  adj::mi = grid(4, 4, 0, 0.25);
  adj::mo = probes(2, 3, 3, 0);
  adj::run();
}
static void a2() { adj::prep("<mapping:rbf-pum-direct vertices-per-cluster=\"6\" polynomial=\"off\" relative-overlap=\"0.4\"><basis-function:compact-polynomial-c2 support-radius=\"2\"/></mapping:rbf-pum-direct>", 3); }
SYM_SCENARIO_PREP(transposed_off_3d, a2)
{
  adj::mi = grid(3, 3, 2, 0.25);
  adj::mo = probes(3, 2, 2, 1);
  adj::run();
}
