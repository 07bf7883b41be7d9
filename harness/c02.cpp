// C02: misuse of the API is rejected with an error, correct use is accepted.
#include "common.hpp"
#include <limits>
#include "precice/impl/ParticipantImpl.hpp"
using namespace h;
namespace {
std::string               cfg;
Participant              *A, *B;
bool                      holdB = false;
std::function<void()>     bodyA;
VertexID                  ids[2];
enum State { Constructed,
             Initialized,
             MidWindow,
             Ended,
             Finalized };
// A provides MA (2 vertices), writes DA, reads DB; provides MP (never exchanged); B receives MA with api-access
void makeWorld(const char *kind, const char *scheme, int windows)
{
  Two c;
  c.kind     = kind;
  c.scheme   = scheme;
  c.rootAttr = "experimental=\"1\"";
  c.dataAttr = R"(waveform-degree="1")";
  c.time     = R"(<max-time-windows value=")" + std::to_string(windows) + R"("/><time-window-size value="1"/>)";
  if (std::string(scheme).find("implicit") != std::string::npos)
    c.extra = R"(<max-iterations value="2"/>)";
  cfg = world::writeConfig(c.xml());
  world::spawn("A", [] {
    Participant p("A", cfg, 0, 1);
    A           = &p;
    double c[4] = {0, 0, 1, 0};
    p.setMeshVertices("MA", c, ids);
    world::ready();
    bodyA();
    world::abandonOthers();
    world::waitFor([] { return false; }, "end");
  });
  world::spawn("B", [] {
    Participant p("B", cfg, 0, 1);
    B            = &p;
    double bb[4] = {-1, 2, -1, 1};
    p.setMeshAccessRegion("MA", bb);
    world::ready();
    p.initialize();
    world::waitFor([] { return !holdB; }, "hold");
    while (p.isCouplingOngoing()) {
      p.requiresWritingCheckpoint();
      double dt = p.getMaxTimeStepSize();
      p.advance(dt);
      p.requiresReadingCheckpoint();
    }
    p.finalize();
  });
  world::prepare();
}
void prepExplicit() { makeWorld("scalar", "parallel-explicit", 1); }
void prepVector() { makeWorld("vector", "parallel-explicit", 2); }
void prepImplicit() { makeWorld("scalar", "parallel-implicit", 4); }

void reach(int s)
{
  if (s >= Initialized)
    A->initialize();
  if (s == MidWindow)
    A->advance(0.5);
  if (s == Ended || s == Finalized)
    A->advance(1.0);
  if (s == Finalized)
    A->finalize();
}
} // namespace

// every call in every life-cycle state
SYM_SCENARIO_PREP(lifecycle, prepExplicit)
{
  static int st, call;
  st    = sym::choice("state", 5);
  call  = sym::choice("call", 26);
  bodyA = [] {
    reach(st);
    auto       &p        = *A;
    double      c[2]     = {5, 5}, v[2] = {1, 2}, bb[4] = {0, 1, 0, 1}, co[4];
    VertexID    id2[2];
    bool        pre = st == Constructed, live = st == Initialized || st == MidWindow, init = live || st == Ended;
    bool        ok = false;
    const char *what = "";
    auto        expect = [&](bool allowed, const char *label, std::function<void()> f) {
      bool t = throws(f);
      ok     = (t == !allowed);
      what   = label;
    };
    switch (call) {
    case 0: expect(pre, "initialize() exactly once, before finalize()", [&] { p.initialize(); }); break;
    case 1: expect(live, "advance() only while the coupling is ongoing", [&] { p.advance(0.5); }); break;
    case 2: expect(st != Finalized, "finalize() once", [&] { p.finalize(); }); break;
    case 3: expect(init, "isCouplingOngoing() between initialize() and finalize()", [&] { p.isCouplingOngoing(); }); break;
    case 4: expect(init, "isTimeWindowComplete() between initialize() and finalize()", [&] { p.isTimeWindowComplete(); }); break;
    case 5: expect(init, "getMaxTimeStepSize() between initialize() and finalize()", [&] { p.getMaxTimeStepSize(); }); break;
    case 6: expect(pre, "requiresInitialData() only before initialize()", [&] { p.requiresInitialData(); }); break;
    case 7: expect(init, "requiresWritingCheckpoint() between initialize() and finalize()", [&] { p.requiresWritingCheckpoint(); }); break;
    case 8: expect(init, "requiresReadingCheckpoint() between initialize() and finalize()", [&] { p.requiresReadingCheckpoint(); }); break;
    case 9: expect(pre, "setMeshVertex() only before initialize()", [&] { p.setMeshVertex("MA", c); }); break;
    case 10: expect(pre, "setMeshVertices() only before initialize()", [&] { p.setMeshVertices("MA", co, id2); }); break;
    case 11: expect(pre, "setMeshEdge() only before initialize()", [&] { p.setMeshEdge("MA", ids[0], ids[1]); }); break;
    case 12: expect(pre || live, "writeData() not after the coupling ended", [&] { p.writeData("MA", "DA", ids, v); }); break;
    case 13: expect(init, "readData() between initialize() and finalize()", [&] { p.readData("MA", "DB", ids, 0.0, v); }); break;
    case 14: expect(false, "setMeshAccessRegion() never on a provided mesh", [&] { p.setMeshAccessRegion("MA", bb); }); break;
    case 15: expect(false, "writeData() never for data the participant only reads", [&] { p.writeData("MA", "DB", ids, v); }); break;
    case 16: expect(st != Finalized, "getMeshDimensions() not after finalize()", [&] { p.getMeshDimensions("MA"); }); break;
    case 17: expect(st != Finalized, "getDataDimensions() not after finalize()", [&] { p.getDataDimensions("MA", "DA"); }); break;
    case 18: expect(st != Finalized, "getMeshVertexSize() not after finalize()", [&] { p.getMeshVertexSize("MA"); }); break;
    case 19: expect(st != Finalized, "requiresMeshConnectivityFor() not after finalize()", [&] { p.requiresMeshConnectivityFor("MA"); }); break;
    case 20: expect(st != Finalized, "requiresGradientDataFor() not after finalize()", [&] { p.requiresGradientDataFor("MA", "DA"); }); break;
    case 21: expect(false, "resetMesh() needs the remeshing feature", [&] { p.resetMesh("MA"); }); break;
    case 22: expect(pre, "setMeshTriangle() only before initialize()", [&] { p.setMeshTriangle("MA", ids[0], ids[1], ids[1]); }); break;
    case 23: expect(false, "getMeshVertexIDsAndCoordinates() never on a provided mesh", [&] { p.getMeshVertexIDsAndCoordinates("MA", id2, co); }); break;
    case 24: expect(false, "mapAndReadData() never on a provided mesh", [&] { p.mapAndReadData("MA", "DB", co, 0.0, v); }); break;
    case 25: expect(false, "writeAndMapData() never on a provided mesh", [&] { p.writeAndMapData("MA", "DA", co, v); }); break;
    }
    sym::check(ok, what);
    sym::cover("lifecycle call judged");
  };
  world::run();
}
// the same on the received mesh
SYM_SCENARIO_PREP(received_mesh, prepExplicit)
{
  static int call, when;
  holdB = true;
  when  = sym::choice("initialized", 2);
  call  = sym::choice("call", 9);
  bodyA = [] {
    if (when)
      A->initialize();
    else
      world::yield();
    auto    &p      = *B;
    double   bb[4]  = {-1, 2, -1, 1}, co[4], v[2] = {1, 2};
    VertexID id2[2] = {0, 1};
    if (when)
      world::waitFor([&] { return B->_impl->_state == precice::impl::ParticipantImpl::State::Initialized; }, "B initialised");
    auto expect = [&](bool allowed, const char *label, std::function<void()> f) { sym::check(throws(f) == !allowed, label); };
    bool i = when;
    switch (call) {
    case 0: expect(false, "received mesh cannot be modified", [&] { p.setMeshVertex("MA", {co, 2}); }); break;
    case 1: expect(false, "access region only once and before initialize()", [&] { p.setMeshAccessRegion("MA", bb); }); break;
    case 2: expect(i, "size of a received mesh only after initialize()", [&] { p.getMeshVertexSize("MA"); }); break;
    case 3: expect(i, "coordinates of a received mesh only after initialize()", [&] { p.getMeshVertexIDsAndCoordinates("MA", id2, co); }); break;
    case 4: expect(i, "readData() on a received mesh only after initialize()", [&] { p.readData("MA", "DA", id2, 0.0, v); }); break;
    case 5: expect(i, "writeData() on a received mesh only after initialize()", [&] { p.writeData("MA", "DB", id2, v); }); break;
    case 6: expect(false, "mapAndReadData() needs a just-in-time mapping", [&] { p.mapAndReadData("MA", "DA", co, 0.0, v); }); break;
    case 7: expect(false, "writeAndMapData() needs a just-in-time mapping", [&] { p.writeAndMapData("MA", "DB", co, v); }); break;
    case 8: expect(false, "writeData() never for data the participant only reads", [&] { p.writeData("MA", "DA", id2, v); }); break;
    }
    sym::cover("received mesh call judged");
  };
  // B is allowed to wait for A in its initialize(): only the state of B matters here
  world::run();
}
// names
SYM_SCENARIO_PREP(names, prepExplicit)
{
  static int m, d, call;
  m     = sym::choice("mesh", 4);
  d     = sym::choice("data", 4);
  call  = sym::choice("call", 6);
  bodyA = [] {
    A->initialize();
    const char *mesh[4] = {"MA", "MB", "", "ma"}, *data[4] = {"DA", "DB", "", "DAA"};
    double      v[2] = {1, 2};
    bool        t = false, allowed = false;
    switch (call) {
    case 0: t = throws([&] { A->writeData(mesh[m], data[d], ids, v); }), allowed = m == 0 && d == 0; break;
    case 1: t = throws([&] { A->readData(mesh[m], data[d], ids, 0, v); }), allowed = m == 0 && d == 1; break;
    case 2: t = throws([&] { A->getMeshDimensions(mesh[m]); }), allowed = m == 0; break;
    case 3: t = throws([&] { A->getDataDimensions(mesh[m], data[d]); }), allowed = m == 0 && d < 2; break;
    case 4: t = throws([&] { A->getMeshVertexSize(mesh[m]); }), allowed = m == 0; break;
    case 5: t = throws([&] { A->requiresMeshConnectivityFor(mesh[m]); }), allowed = m == 0; break;
    }
    sym::check(t == !allowed, "unknown mesh or data names are rejected, known ones accepted");
    sym::cover("name judged");
  };
  world::run();
}
// step sizes of advance
SYM_SCENARIO_PREP(step_sizes, prepVector)
{
  bodyA = [] {
    A->initialize();
    double used = 0;
    if (sym::choice("subcycled", 2)) {
      used = 0.25;
      A->advance(used);
    }
    double rest = 1.0 - used;
    int    kind = sym::choice("kind", 3);
    if (kind == 0) {
      double dt = sym::real("dt", -2, 3);
      sym::assume(dt > 1e-9 || dt <= 0);
      sym::assume(dt > rest + 1e-9 || dt <= rest);
      bool t = throws([&] { A->advance(dt); });
      sym::check(t == (dt <= 0 || dt > rest), "advance() accepts exactly the positive step sizes up to the offered one");
      sym::cover(t ? "step rejected" : "step accepted");
    } else {
      double bad = kind == 1 ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
      if (sym::choice("negative", 2))
        bad = -bad;
      sym::check(throws([&] { A->advance(bad); }), "non-finite step size is rejected");
      sym::cover("non-finite");
    }
  };
  world::run();
}
// read times
SYM_SCENARIO_PREP(read_times, prepExplicit)
{
  bodyA = [] {
    A->initialize();
    double rest = 1;
    int    s    = sym::choice("state", 3);
    if (s == 1) {
      A->advance(0.25);
      rest = 0.75;
    } else if (s == 2) {
      A->advance(1.0);
      rest = 0;
    }
    double r = sym::real("r", -1, 2), v[2] = {0, 0};
    sym::assume(r > rest + 1e-9 || r <= rest);
    bool t = throws([&] { A->readData("MA", "DB", ids, r, v); });
    sym::check(t == (r < 0 || r > rest), "readData() accepts exactly the times of the current window that are left");
    sym::cover(t ? "time rejected" : "time accepted");
  };
  world::run();
}
// sizes of buffers and vertex ids
static void sizesBody(int dim)
{
  A->initialize();
  int      nIds = sym::choice("nIds", 4), nVals = sym::choice("nVals", 7);
  VertexID id[4];
  double   v[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  bool     good = nVals == nIds * dim;
  for (int i = 0; i < nIds; ++i) {
    id[i] = sym::integer("id", -2, 4);
    good  = good && id[i] >= 0 && id[i] < 2;
  }
  bool write = sym::choice("write", 2);
  bool t     = write ? throws([&] { A->writeData("MA", "DA", {id, (size_t) nIds}, {v, (size_t) nVals}); })
                     : throws([&] { A->readData("MA", "DB", {id, (size_t) nIds}, 0, {v, (size_t) nVals}); });
  sym::check(t == !good, "exactly matching sizes with valid vertex ids are accepted");
  sym::cover(t ? "buffer rejected" : "buffer accepted");
}
SYM_SCENARIO_PREP(buffers_scalar, prepExplicit)
{
  bodyA = [] { sizesBody(1); };
  world::run();
}
SYM_SCENARIO_PREP(buffers_vector, prepVector)
{
  bodyA = [] { sizesBody(2); };
  world::run();
}
// mesh definition: sizes and access regions
SYM_SCENARIO_PREP(mesh_buffers, prepExplicit)
{
  bodyA = [] {
    int      n = sym::choice("n", 3), m = sym::choice("m", 6);
    double   c[6] = {1, 2, 3, 4, 5, 6};
    VertexID id[3];
    bool     t = throws([&] { A->setMeshVertices("MA", {c, (size_t) m}, {id, (size_t) n}); });
    sym::check(t == (m != 2 * n), "vertices need two coordinates each");
    bool t2 = throws([&] { A->setMeshVertex("MA", {c, (size_t) m}); });
    sym::check(t2 == (m != 2), "a vertex needs two coordinates");
    sym::cover("mesh buffers");
  };
  world::run();
}
// implicit coupling: forgetting a checkpoint request is rejected
SYM_SCENARIO_PREP(checkpoint_obligations, prepImplicit)
{
  bodyA = [] {
    A->initialize();
    int before = sym::choice("windows before", 4);
    for (int i = 0; i < 2 * before; ++i) { // two iterations each
      A->requiresWritingCheckpoint();
      A->advance(1.0);
      A->requiresReadingCheckpoint();
    }
    bool w = sym::choice("asked for write checkpoint", 2);
    if (w)
      sym::check(A->requiresWritingCheckpoint(), "write checkpoint required at the start");
    bool t = throws([&] { A->advance(1.0); });
    sym::check(t == !w, "advance() without having asked for the required write checkpoint is rejected");
    sym::cover("write checkpoint");
    if (t)
      return;
    bool r = sym::choice("asked for read checkpoint", 2);
    if (r)
      sym::check(A->requiresReadingCheckpoint(), "read checkpoint required after an iteration");
    t = throws([&] { A->advance(1.0); });
    sym::check(t == !r, "advance() without having asked for the required read checkpoint is rejected");
    sym::cover("read checkpoint");
  };
  world::run();
}
// non-finite data and constructor arguments
SYM_SCENARIO_PREP(constructor_arguments, prepExplicit)
{
  bodyA = [] {
    int  rank = sym::integer("rank", -2, 3), size = sym::integer("size", -1, 3);
    int  who = sym::choice("who", 3);
    const char *names[3] = {"A", "C", ""};
    sym::assume(!(size > 1 && rank >= 0 && rank < size)); // parallel participants need peers
    bool t = throws([&] { Participant q(names[who], cfg, rank, size); });
    sym::check(t == !(who == 0 && size == 1 && rank == 0), "rank within the communicator size and a configured participant name are required");
    sym::cover("constructor");
  };
  world::run();
}
