// C01: time stepping - offered step sizes, window completion, end of the simulation.
#include "common.hpp"
using namespace h;

namespace {
struct Plan {
  std::string scheme, time, extra;
  double      W = 1, T = 2.5; // T < 0: no max time
  int         maxW   = -1;
  bool        subA = true, subB = true;
  int         iters = 1; // iterations per window (implicit)
  std::string first = "A", second = "B";
};
Plan        plan;
std::string cfg;
int         windowsDone[2];
double      endTime[2];

void participant(int who)
{
  const char *name = who == 0 ? "A" : "B";
  Participant p(name, cfg, 0, 1);
  if (who == 0) {
    double c[2] = {0, 0};
    p.setMeshVertex("MA", c);
  } else {
    double bb[4] = {-1, 1, -1, 1};
    p.setMeshAccessRegion("MA", bb);
  }
  world::ready();
  p.initialize();
  VertexID id      = 0;
  int      windows = 0, iter = 0, stepsInWindow = 0, total = 0;
  double   t = 0, start = 0;
  auto     end = [&] { double e = (windows + 1) * plan.W; return plan.T > 0 && plan.T < e ? plan.T : e; };
  bool     sub = who == 0 ? plan.subA : plan.subB;
  while (p.isCouplingOngoing()) {
    if (++total > 40) {
      sym::fail("coupling does not end");
      return;
    }
    bool wc = p.requiresWritingCheckpoint();
    sym::check(wc == (plan.iters > 1 && iter == 0 && stepsInWindow == 0), "checkpoint requested exactly at the start of a window");
    double max = p.getMaxTimeStepSize();
    sym::close(max, end() - t, 1e-9, "offered step size is the remainder of the window");
    double dt = max;
    if (sub && stepsInWindow == 0) {
      double f = sym::real("dt", 0.05, 1.0);
      sym::assume(f >= max || f <= max - 1e-6);
      if (f < max)
        dt = f;
    }
    double v = t + who;
    p.writeData("MA", who == 0 ? "DA" : "DB", {&id, 1}, {&v, 1});
    bool reaches = (dt == max);
    p.advance(dt);
    ++stepsInWindow;
    double tn = reaches ? end() : t + dt;
    if (!reaches) {
      sym::check(!p.isTimeWindowComplete(), "window not complete before its steps sum up to it");
      sym::check(p.isCouplingOngoing(), "coupling goes on inside a window");
      sym::check(!p.requiresReadingCheckpoint(), "no rollback inside a window");
      t = tn;
      sym::cover("substep");
      continue;
    }
    stepsInWindow = 0;
    ++iter;
    if (iter < plan.iters) {
      sym::check(!p.isTimeWindowComplete(), "window that iterates is not complete");
      sym::check(p.isCouplingOngoing(), "coupling goes on while iterating");
      sym::check(p.requiresReadingCheckpoint(), "rollback requested for the next iteration");
      t = start;
      continue;
    }
    iter = 0;
    sym::check(!p.requiresReadingCheckpoint(), "no rollback after the last iteration");
    sym::check(p.isTimeWindowComplete(), "window complete when its steps sum up to it");
    ++windows;
    t = start = tn;
    bool more = !(plan.T > 0 && t >= plan.T - 1e-9) && !(plan.maxW > 0 && windows >= plan.maxW);
    sym::check(p.isCouplingOngoing() == more, "coupling ends exactly at the maximum time or number of windows");
    if (!p.isCouplingOngoing())
      sym::close(p.getMaxTimeStepSize(), 0, 0, "no step offered after the end");
  }
  windowsDone[who] = windows;
  endTime[who]     = t;
  p.finalize();
}
void spawnBoth()
{
  Two c;
  c.scheme = plan.scheme;
  c.time   = plan.time;
  c.extra  = plan.extra;
  c.first  = plan.first;
  c.second = plan.second;
  cfg      = world::writeConfig(c.xml());
  world::spawn("A", [] { participant(0); });
  world::spawn("B", [] { participant(1); });
}
void finish()
{
  world::run();
  sym::check(windowsDone[0] == windowsDone[1], "participants complete the same number of windows");
  sym::close(endTime[0], endTime[1], 1e-9, "participants end at the same time");
  sym::check(world::undelivered() == 0, "every message sent is received");
  sym::cover("completed");
}
void prep(Plan p)
{
  plan = p;
  spawnBoth();
  world::prepare();
}
const char *T25 = R"(<max-time value="2.5"/><time-window-size value="1"/>)";
const char *N2  = R"(<max-time-windows value="2"/><time-window-size value="0.75"/>)";
const char *TN  = R"(<max-time value="5"/><max-time-windows value="2"/><time-window-size value="1"/>)";
const char *TN2 = R"(<max-time value="1.5"/><max-time-windows value="7"/><time-window-size value="1"/>)";
const char *IT2 = R"(<max-iterations value="2"/>)";
} // namespace

static void p1() { prep({"serial-explicit", T25, "", 1, 2.5, -1, true, false}); }
SYM_SCENARIO_PREP(serial_explicit_maxtime, p1) { finish(); }
static void p1b() { prep({"serial-explicit", T25, "", 1, 2.5, -1, false, true}); }
SYM_SCENARIO_PREP(serial_explicit_maxtime_second, p1b) { finish(); }
static void p2() { prep({"parallel-explicit", TN, "", 1, 5, 2, true, true}); }
SYM_SCENARIO_PREP(parallel_explicit_windows, p2) { finish(); }
static void p3() { prep({"serial-implicit", N2, IT2, 0.75, -1, 2, true, false, 2}); }
SYM_SCENARIO_PREP(serial_implicit_windows, p3) { finish(); }
static void p4() { prep({"serial-implicit", TN2, IT2, 1, 1.5, 7, false, true, 2, "B", "A"}); }
SYM_SCENARIO_PREP(serial_implicit_truncated, p4) { finish(); }
static void p5() { prep({"parallel-implicit", TN2, IT2, 1, 1.5, 7, true, false, 2}); }
SYM_SCENARIO_PREP(parallel_implicit_truncated, p5) { finish(); }
static void p6() { prep({"parallel-implicit", N2, IT2, 0.75, -1, 2, false, true, 2}); }
SYM_SCENARIO_PREP(parallel_implicit_windows, p6) { finish(); }

// symbolic window size and maximum time
SYM_SCENARIO(symbolic_window_and_end)
{
  double W = sym::real("W", 0.1, 2), T = sym::real("T", 0.1, 3);
  sym::assume(T <= 3 * W);
  for (int k = 1; k <= 3; ++k)
    sym::assume(T - k * W > 1e-6 || k * W - T > 1e-6 || T == k * W);
  world::setSymbol("W", W);
  world::setSymbol("T", T);
  plan = {sym::choice("parallel", 2) ? "parallel-explicit" : "serial-explicit", R"(<max-time value="sym:T"/><time-window-size value="sym:W"/>)", "", W, T, -1, false, false};
  spawnBoth();
  world::prepare();
  world::run();
  sym::check(windowsDone[0] == windowsDone[1], "participants complete the same number of windows");
  int need = T <= W ? 1 : (T <= 2 * W ? 2 : 3);
  sym::check(windowsDone[0] == need, "number of windows covers the maximum time");
  sym::close(endTime[0], T, 1e-9, "simulation ends at the maximum time");
  sym::check(world::undelivered() == 0, "every message sent is received");
  sym::cover("symbolic end");
}
// time window counts: three levels of substeps
SYM_SCENARIO(T_three_substeps)
{
  double W = 1;
  plan     = {"serial-explicit", R"(<max-time value="2"/><time-window-size value="1"/>)", "", W, 2, -1, true, true};
  spawnBoth();
  world::prepare();
  finish();
}
