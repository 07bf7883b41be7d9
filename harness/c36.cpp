// FLAGS: -I$REPO/extras/bindings/c/include -I$REPO/extras/bindings/fortran/include
// C36: the C and Fortran bindings behave like the C++ API.
#include "map.hpp"
extern "C" {
#include "precice/preciceC.h"
}
#include "precice/preciceFortran.hpp"
#include <cstring>
#include <sys/mman.h>
using namespace h;
namespace {
// Fortran passes blank-padded strings and their length
struct FStr {
  std::string s;
  FStr(const char *n, int pad = 3) : s(std::string(n) + std::string(pad, ' ') + "garbage") { len = strlen(n) + pad; }
  int         len;
  const char *p() const { return s.c_str(); }
};
typedef std::vector<int>    I;
typedef std::vector<double> D;
struct Api {
  virtual ~Api() {}
  virtual void   create(const char *name, const std::string &cfg) = 0;
  virtual void   initialize() = 0;
  virtual void   advance(double dt) = 0;
  virtual void   finalize() = 0;
  virtual int    meshDims(const char *m) = 0;
  virtual int    dataDims(const char *m, const char *d) = 0;
  virtual int    ongoing() = 0;
  virtual int    complete() = 0;
  virtual double maxStep() = 0;
  virtual int    needInit() = 0;
  virtual int    needWrite() = 0;
  virtual int    needRead() = 0;
  virtual int    needConn(const char *m) = 0;
  virtual int    needGrad(const char *m, const char *d) = 0;
  virtual void   reset(const char *m) = 0;
  virtual int    vertex(const char *m, const D &x) = 0;
  virtual int    size(const char *m) = 0;
  virtual void   vertices(const char *m, D &x, I &ids) = 0;
  virtual void   edge(const char *m, int a, int b) = 0;
  virtual void   edges(const char *m, const I &v) = 0;
  virtual void   triangle(const char *m, int a, int b, int c) = 0;
  virtual void   triangles(const char *m, const I &v) = 0;
  virtual void   quad(const char *m, int a, int b, int c, int d) = 0;
  virtual void   quads(const char *m, const I &v) = 0;
  virtual void   tet(const char *m, int a, int b, int c, int d) = 0;
  virtual void   tets(const char *m, const I &v) = 0;
  virtual void   write(const char *m, const char *d, I &ids, D &v) = 0;
  virtual void   read(const char *m, const char *d, I &ids, double t, D &v) = 0;
  virtual void   writeMap(const char *m, const char *d, int n, D &x, D &v) = 0;
  virtual void   readMap(const char *m, const char *d, int n, D &x, double t, D &v) = 0;
  virtual void   gradient(const char *m, const char *d, I &ids, D &g) = 0;
  virtual void   region(const char *m, D &b) = 0;
  virtual void   idsAndX(const char *m, I &ids, D &x) = 0;
  virtual void   start(const char *s) = 0;
  virtual void   stop() = 0;
};
struct Cpp : Api {
  std::unique_ptr<Participant> P;
  void   create(const char *n, const std::string &c) override { P = std::make_unique<Participant>(n, c, 0, 1); }
  void   initialize() override { P->initialize(); }
  void   advance(double dt) override { P->advance(dt); }
  void   finalize() override { P->finalize(); }
  int    meshDims(const char *m) override { return P->getMeshDimensions(m); }
  int    dataDims(const char *m, const char *d) override { return P->getDataDimensions(m, d); }
  int    ongoing() override { return P->isCouplingOngoing(); }
  int    complete() override { return P->isTimeWindowComplete(); }
  double maxStep() override { return P->getMaxTimeStepSize(); }
  int    needInit() override { return P->requiresInitialData(); }
  int    needWrite() override { return P->requiresWritingCheckpoint(); }
  int    needRead() override { return P->requiresReadingCheckpoint(); }
  int    needConn(const char *m) override { return P->requiresMeshConnectivityFor(m); }
  int    needGrad(const char *m, const char *d) override { return P->requiresGradientDataFor(m, d); }
  void   reset(const char *m) override { P->resetMesh(m); }
  int    vertex(const char *m, const D &x) override { return P->setMeshVertex(m, x); }
  int    size(const char *m) override { return P->getMeshVertexSize(m); }
  void   vertices(const char *m, D &x, I &ids) override { P->setMeshVertices(m, x, ids); }
  void   edge(const char *m, int a, int b) override { P->setMeshEdge(m, a, b); }
  void   edges(const char *m, const I &v) override { P->setMeshEdges(m, v); }
  void   triangle(const char *m, int a, int b, int c) override { P->setMeshTriangle(m, a, b, c); }
  void   triangles(const char *m, const I &v) override { P->setMeshTriangles(m, v); }
  void   quad(const char *m, int a, int b, int c, int d) override { P->setMeshQuad(m, a, b, c, d); }
  void   quads(const char *m, const I &v) override { P->setMeshQuads(m, v); }
  void   tet(const char *m, int a, int b, int c, int d) override { P->setMeshTetrahedron(m, a, b, c, d); }
  void   tets(const char *m, const I &v) override { P->setMeshTetrahedra(m, v); }
  void   write(const char *m, const char *d, I &ids, D &v) override { P->writeData(m, d, ids, v); }
  void   read(const char *m, const char *d, I &ids, double t, D &v) override { P->readData(m, d, ids, t, v); }
  void   writeMap(const char *m, const char *d, int, D &x, D &v) override { P->writeAndMapData(m, d, x, v); }
  void   readMap(const char *m, const char *d, int, D &x, double t, D &v) override { P->mapAndReadData(m, d, x, t, v); }
  void   gradient(const char *m, const char *d, I &ids, D &g) override { P->writeGradientData(m, d, ids, g); }
  void   region(const char *m, D &b) override { P->setMeshAccessRegion(m, b); }
  void   idsAndX(const char *m, I &ids, D &x) override { P->getMeshVertexIDsAndCoordinates(m, ids, x); }
  void   start(const char *s) override { P->startProfilingSection(s); }
  void   stop() override { P->stopLastProfilingSection(); }
};
struct C : Api {
  void   create(const char *n, const std::string &c) override { precicec_createParticipant(n, c.c_str(), 0, 1); }
  void   initialize() override { precicec_initialize(); }
  void   advance(double dt) override { precicec_advance(dt); }
  void   finalize() override { precicec_finalize(); }
  int    meshDims(const char *m) override { return precicec_getMeshDimensions(m); }
  int    dataDims(const char *m, const char *d) override { return precicec_getDataDimensions(m, d); }
  int    ongoing() override { return precicec_isCouplingOngoing(); }
  int    complete() override { return precicec_isTimeWindowComplete(); }
  double maxStep() override { return precicec_getMaxTimeStepSize(); }
  int    needInit() override { return precicec_requiresInitialData(); }
  int    needWrite() override { return precicec_requiresWritingCheckpoint(); }
  int    needRead() override { return precicec_requiresReadingCheckpoint(); }
  int    needConn(const char *m) override { return precicec_requiresMeshConnectivityFor(m); }
  int    needGrad(const char *m, const char *d) override { return precicec_requiresGradientDataFor(m, d); }
  void   reset(const char *m) override { precicec_resetMesh(m); }
  int    vertex(const char *m, const D &x) override { return precicec_setMeshVertex(m, x.data()); }
  int    size(const char *m) override { return precicec_getMeshVertexSize(m); }
  void   vertices(const char *m, D &x, I &ids) override { precicec_setMeshVertices(m, ids.size(), x.data(), ids.data()); }
  void   edge(const char *m, int a, int b) override { precicec_setMeshEdge(m, a, b); }
  void   edges(const char *m, const I &v) override { precicec_setMeshEdges(m, v.size() / 2, v.data()); }
  void   triangle(const char *m, int a, int b, int c) override { precicec_setMeshTriangle(m, a, b, c); }
  void   triangles(const char *m, const I &v) override { precicec_setMeshTriangles(m, v.size() / 3, v.data()); }
  void   quad(const char *m, int a, int b, int c, int d) override { precicec_setMeshQuad(m, a, b, c, d); }
  void   quads(const char *m, const I &v) override { precicec_setMeshQuads(m, v.size() / 4, v.data()); }
  void   tet(const char *m, int a, int b, int c, int d) override { precicec_setMeshTetrahedron(m, a, b, c, d); }
  void   tets(const char *m, const I &v) override { precicec_setMeshTetrahedra(m, v.size() / 4, v.data()); }
  void   write(const char *m, const char *d, I &ids, D &v) override { precicec_writeData(m, d, ids.size(), ids.data(), v.data()); }
  void   read(const char *m, const char *d, I &ids, double t, D &v) override { precicec_readData(m, d, ids.size(), ids.data(), t, v.data()); }
  void   writeMap(const char *m, const char *d, int n, D &x, D &v) override { precicec_writeAndMapData(m, d, n, x.data(), v.data()); }
  void   readMap(const char *m, const char *d, int n, D &x, double t, D &v) override { precicec_mapAndReadData(m, d, n, x.data(), t, v.data()); }
  void   gradient(const char *m, const char *d, I &ids, D &g) override { precicec_writeGradientData(m, d, ids.size(), ids.data(), g.data()); }
  void   region(const char *m, D &b) override { precicec_setMeshAccessRegion(m, b.data()); }
  void   idsAndX(const char *m, I &ids, D &x) override { precicec_getMeshVertexIDsAndCoordinates(m, ids.size(), ids.data(), x.data()); }
  void   start(const char *s) override { precicec_startProfilingSection(s); }
  void   stop() override { precicec_stopLastProfilingSection(); }
};
#define M_ FStr M(m);
#define MD_ FStr M(m), Dn(d);
#define N_(v) int n = v;
struct F : Api {
  int get(void (*f)(int *)) { int r = -7; f(&r); return r; }
  void   create(const char *n, const std::string &c) override { FStr N(n), X(c.c_str()); int r = 0, s = 1; precicef_create_(N.p(), X.p(), &r, &s, N.len, X.len); }
  void   initialize() override { precicef_initialize_(); }
  void   advance(double dt) override { precicef_advance_(&dt); }
  void   finalize() override { precicef_finalize_(); }
  int    meshDims(const char *m) override { M_ int r = -7; precicef_get_mesh_dimensions_(M.p(), &r, M.len); return r; }
  int    dataDims(const char *m, const char *d) override { MD_ int r = -7; precicef_get_data_dimensions_(M.p(), Dn.p(), &r, M.len, Dn.len); return r; }
  int    ongoing() override { return get(precicef_is_coupling_ongoing_); }
  int    complete() override { return get(precicef_is_time_window_complete_); }
  double maxStep() override { double r = -7; precicef_get_max_time_step_size_(&r); return r; }
  int    needInit() override { return get(precicef_requires_initial_data_); }
  int    needWrite() override { return get(precicef_requires_writing_checkpoint_); }
  int    needRead() override { return get(precicef_requires_reading_checkpoint_); }
  int    needConn(const char *m) override { M_ int r = -7; precicef_requires_mesh_connectivity_for_(M.p(), &r, M.len); return r; }
  int    needGrad(const char *m, const char *d) override { MD_ int r = -7; precicef_requires_gradient_data_for_(M.p(), Dn.p(), &r, M.len, Dn.len); return r; }
  void   reset(const char *m) override { M_ precicef_reset_mesh_(M.p(), M.len); }
  int    vertex(const char *m, const D &x) override { M_ int r = -7; precicef_set_mesh_vertex_(M.p(), x.data(), &r, M.len); return r; }
  int    size(const char *m) override { M_ int r = -7; precicef_get_mesh_vertex_size_(M.p(), &r, M.len); return r; }
  void   vertices(const char *m, D &x, I &ids) override { M_ N_(ids.size()) precicef_set_mesh_vertices_(M.p(), &n, x.data(), ids.data(), M.len); }
  void   edge(const char *m, int a, int b) override { M_ precicef_set_mesh_edge_(M.p(), &a, &b, M.len); }
  void   edges(const char *m, const I &v) override { M_ N_(v.size() / 2) precicef_set_mesh_edges_(M.p(), &n, v.data(), M.len); }
  void   triangle(const char *m, int a, int b, int c) override { M_ precicef_set_mesh_triangle_(M.p(), &a, &b, &c, M.len); }
  void   triangles(const char *m, const I &v) override { M_ N_(v.size() / 3) precicef_set_mesh_triangles_(M.p(), &n, v.data(), M.len); }
  void   quad(const char *m, int a, int b, int c, int d) override { M_ precicef_set_mesh_quad_(M.p(), &a, &b, &c, &d, M.len); }
  void   quads(const char *m, const I &v) override { M_ N_(v.size() / 4) precicef_set_mesh_quads_(M.p(), &n, v.data(), M.len); }
  void   tet(const char *m, int a, int b, int c, int d) override { M_ precicef_set_mesh_tetrahedron_(M.p(), &a, &b, &c, &d, M.len); }
  void   tets(const char *m, const I &v) override { M_ N_(v.size() / 4) precicef_set_mesh_tetrahedra_(M.p(), &n, v.data(), M.len); }
  void   write(const char *m, const char *d, I &ids, D &v) override { MD_ N_(ids.size()) precicef_write_data_(M.p(), Dn.p(), &n, ids.data(), v.data(), M.len, Dn.len); }
  void   read(const char *m, const char *d, I &ids, double t, D &v) override { MD_ N_(ids.size()) precicef_read_data_(M.p(), Dn.p(), &n, ids.data(), &t, v.data(), M.len, Dn.len); }
  void   writeMap(const char *m, const char *d, int n, D &x, D &v) override { MD_ precicef_write_and_map_data_(M.p(), Dn.p(), &n, x.data(), v.data(), M.len, Dn.len); }
  void   readMap(const char *m, const char *d, int n, D &x, double t, D &v) override { MD_ precicef_map_and_read_data_(M.p(), Dn.p(), &n, x.data(), &t, v.data(), M.len, Dn.len); }
  void   gradient(const char *m, const char *d, I &ids, D &g) override { MD_ N_(ids.size()) precicef_write_gradient_data_(M.p(), Dn.p(), &n, ids.data(), g.data(), M.len, Dn.len); }
  void   region(const char *m, D &b) override { M_ precicef_set_mesh_access_region_(M.p(), b.data(), M.len); }
  void   idsAndX(const char *m, I &ids, D &x) override { M_ N_(ids.size()) precicef_get_mesh_vertex_ids_and_coordinates_(M.p(), &n, ids.data(), x.data(), M.len); }
  void   start(const char *s) override { FStr S(s); precicef_start_profiling_section_(S.p(), S.len); }
  void   stop() override { precicef_stop_last_profiling_section_(); }
};

enum Shape { EDGES, TRIANGLES, QUADS, TETS };
struct Plan {
  Shape shape = TRIANGLES;
  int   dims = 3, iters = 2;
  bool  remesh = false, jit = true;
};
Plan           plan;
std::string    cfg[3];
std::vector<D> log_[3][2]; // everything returned, per world and participant
int            at[3];
maps::Points   X, Y;       // vertices of A, B
D              in;         // all values written
size_t         used[3][2];
double         rel, jx;
void note(int w, int who, D v) { log_[w][who].push_back(v); }
D take(int w, int who, size_t n)
{
  // the same values in every world: A and B draw from fixed ranges
  D r;
  for (size_t i = 0; i < n; ++i)
    r.push_back(in.at(((who ? in.size() / 2 : 0) + used[w][who]++) % in.size()));
  return r;
}
D flat(const maps::Points &p)
{
  D r;
  for (auto &x : p)
    r.insert(r.end(), x.begin(), x.end());
  return r;
}
void mesh(Api &P, int w)
{
  size_t n = X.size();
  I      ids;
  ids.push_back(P.vertex("M", X[0]));
  ids.push_back(P.vertex("M", X[1]));
  I rest(n - 2);
  D x = flat(maps::Points(X.begin() + 2, X.end()));
  P.vertices("M", x, rest);
  ids.insert(ids.end(), rest.begin(), rest.end());
  note(w, 0, D(ids.begin(), ids.end()));
  if (plan.shape == EDGES) {
    P.edge("M", ids[0], ids[1]);
    P.edges("M", {ids[1], ids[2], ids[3], ids[2]});
  } else if (plan.shape == TRIANGLES) {
    P.triangle("M", ids[0], ids[1], ids[2]);
    P.triangles("M", {ids[1], ids[2], ids[3], ids[2], ids[3], ids[4]});
  } else if (plan.shape == QUADS) {
    P.quad("M", ids[0], ids[1], ids[3], ids[2]);
    P.quads("M", {ids[2], ids[3], ids[5], ids[4], ids[4], ids[5], ids[7], ids[6]});
  } else {
    P.tet("M", ids[0], ids[1], ids[2], ids[3]);
    P.tets("M", {ids[1], ids[2], ids[3], ids[4], ids[2], ids[3], ids[4], ids[5]});
  }
  note(w, 0, {(double) P.size("M")});
}
I upTo(int n)
{
  I r;
  for (int i = 0; i < n; ++i)
    r.push_back(i);
  return r;
}
void a(int w)
{
  std::unique_ptr<Api> api(w == 0 ? (Api *) new Cpp : w == 1 ? (Api *) new C : (Api *) new F);
  Api                 &P = *api;
  P.create(w == 0 ? "A" : w == 1 ? "CA" : "FA", cfg[w]);
  world::ready();
  int d = plan.dims;
  note(w, 0, {(double) P.meshDims("M"), (double) P.meshDims("N"), (double) P.dataDims("M", "F"), (double) P.dataDims("M2", "G"), (double) P.dataDims("N", plan.remesh ? "K" : "E")});
  note(w, 0, {(double) P.needConn("M"), (double) P.needConn("M2"), (double) P.needGrad("M", "F"), (double) P.needGrad("M2", "G")});
  mesh(P, w);
  D g{0.25, 0.5, -0.25, 1, 0.75, 0.5};
  g.resize(2 * d);
  I two(2), all = upTo(X.size());
  P.vertices("M2", g, two);
  D box;
  for (int i = 0; i < d; ++i)
    box.push_back(i ? -5 : -0.5), box.push_back(5);
  P.region("N", box);
  note(w, 0, {(double) P.needInit()});
  D v = take(w, 0, X.size() * d);
  P.write("M", "F", all, v);
  P.start("section");
  P.stop();
  P.initialize();
  int n = P.size("N");
  note(w, 0, {(double) n});
  I nid(n);
  D nx(n * d);
  P.idsAndX("N", nid, nx);
  note(w, 0, D(nid.begin(), nid.end()));
  note(w, 0, nx);
  int guard = 0;
  while (P.ongoing() == 1) {
    if (++guard > 9) {
      sym::fail("coupling does not end");
      return;
    }
    int cw = plan.iters > 1 ? P.needWrite() : 0;
    double rest = P.maxStep();
    note(w, 0, {(double) cw, rest});
    for (int s = 0; s < 2; ++s) {
      bool   fresh = plan.remesh && guard == 2;
      double dt = s || fresh ? P.maxStep() : 0.5 * rest;
      D      h(X.size(), -77), k(2, -77), e(n * d);
      if (!fresh)
        P.read("M", "H", all, rel * dt, h);
      note(w, 0, h);
      D at{jx, 0.5, 0.25, 1 - jx, 0.25, 0.5};
      if (d == 2)
        at = {jx, 0.5, 1 - jx, 0.25};
      if (plan.jit) {
        P.readMap("N", "K", 2, at, rel * dt, k);
        note(w, 0, k);
      }
      v = take(w, 0, X.size() * d);
      P.write("M", "F", all, v);
      D gv = take(w, 0, 2), gg = take(w, 0, 2 * d);
      P.write("M2", "G", two, gv);
      P.gradient("M2", "G", two, gg);
      if (!plan.remesh) {
        e = take(w, 0, n * d);
        P.write("N", "E", nid, e);
      }
      if (plan.jit) {
        D l = take(w, 0, 2);
        P.writeMap("N", "L", 2, at, l);
      }
      P.advance(dt);
      note(w, 0, {(double) P.complete(), (double) P.ongoing()});
      if (fresh)
        break;
    }
    int cr = plan.iters > 1 ? P.needRead() : 0;
    note(w, 0, {(double) cr});
    if (plan.remesh && guard == 1) {
      P.reset("M");
      std::swap(X[0], X[1]);
      mesh(P, w);
      std::swap(X[0], X[1]);
    }
  }
  P.finalize();
}
void b(int w)
{
  Participant P(w == 0 ? "B" : w == 1 ? "CB" : "FB", cfg[w], 0, 1);
  world::ready();
  int d = plan.dims;
  I   ids(Y.size());
  P.setMeshVertices("N", flat(Y), ids);
  P.initialize();
  while (P.isCouplingOngoing()) {
    if (plan.iters > 1)
      P.requiresWritingCheckpoint();
    double dt = P.getMaxTimeStepSize();
    for (double t : {0.0, 0.5 * dt, dt})
      for (auto n : {"F", "G", "E", "L"}) {
        if ((n[0] == 'L' && !plan.jit) || (n[0] == 'E' && plan.remesh))
          continue;
        D v(Y.size() * (n[0] == 'F' || n[0] == 'E' ? d : 1), -77);
        P.readData("N", n, ids, t, v);
        note(w, 1, v);
      }
    D h = take(w, 1, Y.size()), k = take(w, 1, Y.size());
    P.writeData("N", "H", ids, h);
    P.writeData("N", "K", ids, k);
    P.advance(dt);
    if (plan.iters > 1)
      P.requiresReadingCheckpoint();
  }
  P.finalize();
}
void prep(const Plan &p)
{
  plan = p;
  for (int w = 0; w < 3; ++w) {
    std::string A = std::string(w == 1 ? "C" : w == 2 ? "F" : "") + "A", B = std::string(w == 1 ? "C" : w == 2 ? "F" : "") + "B", d = std::to_string(p.dims);
    std::string s = std::string("<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\"") + (p.remesh ? " allow-remeshing=\"true\"" : "") + "><profiling mode=\"off\"/>";
    s += "<data:vector name=\"F\"/><data:scalar name=\"G\"/><data:scalar name=\"H\"/><data:scalar name=\"K\"/><data:scalar name=\"L\"/><data:vector name=\"E\"/>";
    auto mesh = [&](const char *n, const char *data) {
      s += std::string("<mesh name=\"") + n + "\" dimensions=\"" + d + "\">";
      for (const char *c = data; *c; ++c)
        if ((p.jit || *c != 'L') && (!p.remesh || *c != 'E'))
          s += std::string("<use-data name=\"") + *c + "\"/>";
      s += "</mesh>";
    };
    mesh("M", "FH"), mesh("M2", "G"), mesh("N", "FGHKLE");
    std::string np = p.shape == TETS ? "linear-cell-interpolation" : "nearest-projection";
    s += "<participant name=\"" + A + "\"><provide-mesh name=\"M\"/><provide-mesh name=\"M2\"/><receive-mesh name=\"N\" from=\"" + B + "\" api-access=\"true\"/><write-data name=\"F\" mesh=\"M\"/><write-data name=\"G\" mesh=\"M2\"/><read-data name=\"H\" mesh=\"M\"/><read-data name=\"K\" mesh=\"N\"/>" + (p.jit ? "<write-data name=\"L\" mesh=\"N\"/>" : "") + (p.remesh ? "" : "<write-data name=\"E\" mesh=\"N\"/>");
    s += "<mapping:nearest-neighbor direction=\"read\" from=\"N\" to=\"M\" constraint=\"consistent\"/>";
    if (p.jit)
      s += "<mapping:nearest-neighbor direction=\"read\" from=\"N\" constraint=\"consistent\"/><mapping:nearest-neighbor direction=\"write\" to=\"N\" constraint=\"conservative\"/>";
    s += "</participant><participant name=\"" + B + "\"><provide-mesh name=\"N\"/><receive-mesh name=\"M\" from=\"" + A + "\"/><receive-mesh name=\"M2\" from=\"" + A + "\"/>";
    for (auto n : {"F", "G", "E", "L"})
      if ((p.jit || *n != 'L') && (!p.remesh || *n != 'E'))
        s += std::string("<read-data name=\"") + n + "\" mesh=\"N\"/>";
    s += "<write-data name=\"H\" mesh=\"N\"/><write-data name=\"K\" mesh=\"N\"/><mapping:" + np + " direction=\"read\" from=\"M\" to=\"N\" constraint=\"consistent\"/><mapping:nearest-neighbor-gradient direction=\"read\" from=\"M2\" to=\"N\" constraint=\"consistent\"/></participant>";
    std::string sch = p.remesh ? "parallel-explicit" : p.iters > 1 ? "serial-implicit" : "serial-explicit";
    s += "<m2n:sockets acceptor=\"" + A + "\" connector=\"" + B + "\"/><coupling-scheme:" + sch + "><participants first=\"" + A + "\" second=\"" + B + "\"/><max-time-windows value=\"" + (p.remesh ? "3" : "2") + "\"/><time-window-size value=\"1\"/>" + (p.iters > 1 ? "<max-iterations value=\"2\"/>" : "");
    auto ex = [&](const char *n, const char *m, bool fromA, const char *more = "") {
      s += std::string("<exchange data=\"") + n + "\" mesh=\"" + m + "\" from=\"" + (fromA ? A : B) + "\" to=\"" + (fromA ? B : A) + "\" " + more + "/>";
    };
    ex("F", "M", true, "initialize=\"true\""), ex("G", "M2", true), ex("H", "N", false), ex("K", "N", false);
    if (!p.remesh)
      ex("E", "N", true);
    if (p.jit)
      ex("L", "N", true);
    s += "</coupling-scheme:" + sch + "></precice-configuration>";
    cfg[w] = world::writeConfig(s);
    world::spawn(A, [w] { a(w); });
    world::spawn(B, [w] { b(w); });
  }
  world::prepare();
}
void go()
{
  X = {{0, 0, 0}, {1, 0, 0.125}, {0, 1, 0}, {1, 1, 0}, {0, 2, 0}, {1, 2, 0}, {0, 3, 0}, {1, 3, 0}};
  if (plan.shape == TETS)
    X = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {0, 1, 2}};
  if (plan.shape == EDGES)
    X = {{0, 0}, {1, 0}, {2, 0.5}, {2, 2}};
  if (plan.shape == QUADS)
    X[1][2] = 0;
  Y = {{0.25, 0.25, 0.125}, {0.75, 0.5, 0.25}, {-1, 0.5, 0}, {0.5, 1.5, 0.5}};
  if (plan.shape == EDGES)
    Y[3] = {1.75, 1.25};                      // on the second one of the edges set together
  if (plan.shape == QUADS)
    Y[2] = {0.5, 2.25, 0.125};                // on the last quadrilateral
  for (auto &y : Y)
    y.resize(plan.dims);
  in.clear();
  for (int i = 0; i < 40; ++i)
    in.push_back(sym::real("v", -10, 10));
  sym::assume(in[0] >= 1);
  rel = sym::real("t", 0.001, 0.999);
  jx  = sym::real("x", 0, 1);
  memset(used, 0, sizeof used);
  for (auto &l : log_)
    l[0].clear(), l[1].clear();
  world::run();
  for (int w = 1; w < 3; ++w)
    for (int who = 0; who < 2; ++who) {
      auto &p = log_[0][who], &q = log_[w][who];
      sym::check(p.size() == q.size(), w == 1 ? "C: the same sequence of calls" : "Fortran: the same sequence of calls");
      for (size_t i = 0; i < p.size() && i < q.size(); ++i) {
        sym::check(p[i].size() == q[i].size(), "the same number of values");
        for (size_t k = 0; k < p[i].size() && k < q[i].size(); ++k)
          sym::close(p[i][k], q[i][k], 1e-9, w == 1 ? "C binding returns what the C++ API returns" : "Fortran binding returns what the C++ API returns");
      }
    }
  sym::cover("compared");
}
void s1() { prep({}); }
void s2() { Plan p; p.shape = EDGES; p.dims = 2; prep(p); }
void s3() { Plan p; p.shape = QUADS; p.jit = false; prep(p); }
void s4() { Plan p; p.shape = TETS; p.iters = 1; prep(p); }
void s5() { Plan p; p.shape = EDGES; p.dims = 2; p.iters = 1; p.remesh = true; p.jit = false; prep(p); }
} // namespace
SYM_SCENARIO_PREP(triangles, s1) { go(); }
SYM_SCENARIO_PREP(edges, s2) { go(); }
SYM_SCENARIO_PREP(quads, s3) { go(); }
SYM_SCENARIO_PREP(tetrahedra, s4) { go(); }
SYM_SCENARIO_PREP(remeshing, s5) { go(); }
namespace precice::impl {
std::string_view strippedStringView(const char *string, int length);
}
// every string of up to 5 characters: trailing blanks (and zeros) are removed, nothing outside of the string is touched
SYM_SCENARIO(strings)
{
  int   n    = sym::choice("length", 6);
  char *page = (char *) mmap(nullptr, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(page + 4096, 4096, PROT_READ | PROT_WRITE);
  bool  atEnd = sym::boolean("at the end");
  char *s     = atEnd ? page + 8192 - n : page + 4096;
  int   want  = 0;
  for (int i = 0; i < n; ++i) {
    s[i] = sym::byte("c", 0, 255);
    if ((s[i] != ' ') & (s[i] != 0))
      want = i + 1;
  }
  auto v = precice::impl::strippedStringView(s, n);
  sym::check((int) v.size() == want, "trailing blanks are removed");
  sym::check(v.data() == s, "the string begins where it did");
  if (want == 0)
    sym::cover("?empty");
}
