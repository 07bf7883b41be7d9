// C07: the first participant determines the time window size.
#include "common.hpp"
using namespace h;
namespace {
struct Plan {
  std::string scheme = "serial-explicit";
  double      T      = 2;
  int         iters  = 1;
  int         stepsB = 1;
  bool        swap = false, substeps = true;
  int         changeAt = -1; // window in which the second iteration uses another step
  double      unit = 1;      // scale of all times
};
Plan                            plan;
std::string                     cfg;
std::vector<double>             ends;         // window ends chosen by the first participant
struct Knot {
  double t, v;
};
std::vector<std::vector<Knot>>  wa, wb;       // [window][iteration] of the first; knots of the second in its latest iterations
std::vector<std::vector<std::vector<Knot>>> kb;
int                             windows[2];
double                          endT[2];
bool                            failed;

double lin(const std::vector<Knot> &k, double t)
{
  for (auto &q : k)
    if (q.t == t)
      return q.v;
  size_t j = 1;
  if (k.size() == 1)
    return k[0].v;
  while (j + 1 < k.size() && k[j].t < t)
    ++j;
  return k[j - 1].v + (t - k[j - 1].t) / (k[j].t - k[j - 1].t) * (k[j].v - k[j - 1].v);
}
const char *nm(bool isFirst) { return isFirst != plan.swap ? "A" : "B"; }
// data written by the first / second participant; A writes DA
const char *dat(bool byFirst) { return byFirst != plan.swap ? "DA" : "DB"; }

void participant(bool isFirst)
{
  Participant P(nm(isFirst), cfg, 0, 1);
  if (isFirst != plan.swap) {
    double x[2] = {0, 0};
    P.setMeshVertex("MA", x);
  } else {
    double bb[4] = {-1, 1, -1, 1};
    P.setMeshAccessRegion("MA", bb);
  }
  world::ready();
  P.initialize();
  VertexID id    = 0;
  double   t     = 0;
  int      k     = 0, it = 0;
  bool     impl  = plan.iters > 1;
  auto     read  = [&](double rel, double want, const char *l) {
    double g = -77;
    P.readData("MA", dat(!isFirst), {&id, 1}, rel, {&g, 1});
    sym::close(g, want, 1e-9, l);
  };
  auto write = [&](const char *n) {
    double v = sym::real(n, -10, 10);
    P.writeData("MA", dat(isFirst), {&id, 1}, {&v, 1});
    return v;
  };
  while (P.isCouplingOngoing()) {
    sym::check(P.requiresWritingCheckpoint() == (impl && it == 0), "checkpoint requested exactly at the start of a window of implicit coupling");
    double s = k == 0 ? 0.0 : ends[k - 1];
    if (isFirst) {
      double max = P.getMaxTimeStepSize();
      sym::close(max, plan.T - t, 1e-9, "the first participant may step up to the maximum time");
      double e = it == 0 ? 0.0 : ends[k];
      if (it == 0) {
        double f = plan.unit * sym::real("dt", 0.6, 2.5);
        sym::assume(f >= max || f <= max - 1e-3 * plan.unit);
        e = f < max ? t + f : plan.T;
        ends.push_back(e);
        wa.emplace_back();
        kb.emplace_back();
      }
      bool changed = false;
      if (it == 1 && k == plan.changeAt) {
        double f = sym::real("dt2", 0.1, 2.0);
        sym::assume(t + f <= plan.T - 1e-3 && (t + f == e || t + f <= e - 1e-3 || t + f >= e + 1e-3));
        changed = t + f != e;
        e       = t + f;
      }
      // what the second participant wrote: its last accepted window, and the previous iteration of this one
      std::vector<Knot> ks;
      ks.push_back({s, k == 0 ? 0.0 : kb[k - 1].back().back().v});
      if (it > 0 && !changed) {
        auto &q = kb[k][it - 1];
        if (plan.substeps)
          ks.insert(ks.end(), q.begin(), q.end());
        else
          ks.push_back(q.back());
      }
      if (!changed) {
        read(0, lin(ks, s), "first participant's value at the start");
        read(e - t, lin(ks, e), "first participant's value at the end of its step");
      }
      double v = write("a");
      wa[k].push_back({e, v});
      P.advance(e - t);
      if (changed) { // the partner has to reject it
        sym::fail("a changed window size goes unnoticed");
        return;
      }
      t = e;
    } else {
      double e   = ends[k];
      double max = P.getMaxTimeStepSize();
      sym::close(max, e - t, 1e-9, "the second participant is offered the first one's window");
      kb[k].resize(it + 1);
      std::vector<Knot> ks{{s, k == 0 ? 0.0 : wa[k - 1].back().v}, wa[k][it]};
      for (int step = 0; step < plan.stepsB; ++step) {
        double tn = step + 1 == plan.stepsB ? e : s + (e - s) * (step + 1) / plan.stepsB;
        read(0, lin(ks, t), "second participant's value at the start of the step");
        read(tn - t, lin(ks, tn), "second participant's value at the end of the step");
        if (step == 0 && k == 1 && it == 0) {
          double f = sym::real("rel", 0, 1);
          sym::assume(f == 0 || (f >= 1e-3 && f <= 0.99) || f == 1);
          read(f * (e - s), lin(ks, s + f * (e - s)), "second participant's value at an arbitrary time");
          sym::cover("arbitrary read time");
        }
        double v = write("b");
        kb[k][it].push_back({tn, v});
        if (k == plan.changeAt && it == 0 && step + 1 == plan.stepsB) {
          // the first participant may come back with another window size, which is not allowed
          bool err = throws([&] { P.advance(tn - t); });
          bool ch  = wa[k].size() > 1 && wa[k][1].t != e;
          sym::check(err == ch, "a window size that changes between iterations, and nothing else, is an error");
          if (err) {
            failed = true;
            sym::cover("?window size changed");
            world::abandonOthers();
            return;
          }
        } else {
          P.advance(tn - t);
        }
        t = tn;
        if (step + 1 < plan.stepsB)
          sym::check(!P.isTimeWindowComplete(), "window not complete before its end");
      }
    }
    bool done = it + 1 >= plan.iters;
    sym::check(P.isTimeWindowComplete() == done, "window complete after its last iteration");
    sym::check(P.requiresReadingCheckpoint() == !done, "window repeats until its last iteration");
    if (done) {
      ++k;
      it = 0;
      sym::check(P.isCouplingOngoing() == (ends[k - 1] < plan.T), "coupling ends exactly at the maximum time");
    } else {
      ++it;
      t = s;
    }
  }
  windows[isFirst] = k;
  endT[isFirst]    = t;
  P.finalize();
}
void prep(const Plan &p)
{
  plan = p;
  Two c;
  c.scheme = plan.scheme;
  c.first  = plan.swap ? "B" : "A";
  c.second = plan.swap ? "A" : "B";
  c.time   = "<max-time value=\"" + num(plan.T) + "\"/><time-window-size method=\"first-participant\" value=\"-1\"/>";
  if (plan.iters > 1)
    c.extra = "<max-iterations value=\"" + std::to_string(plan.iters) + "\"/>";
  c.exA = c.exB = std::string("substeps=\"") + (plan.substeps ? "true" : "false") + "\"";
  cfg           = world::writeConfig(c.xml());
  world::spawn("A", [] { participant(!plan.swap); });
  world::spawn("B", [] { participant(plan.swap); });
  world::prepare();
}
void finish()
{
  world::run();
  if (failed)
    return;
  sym::check(windows[0] == windows[1], "both participants complete the same windows");
  sym::close(endT[0], plan.T, 1e-9, "the second participant reaches the maximum time");
  sym::close(endT[1], plan.T, 1e-9, "the first participant reaches the maximum time");
  sym::check(world::undelivered() == 0, "every message sent is received");
  sym::cover("completed");
}
} // namespace
static void p1() { prep({"serial-explicit", 2, 1, 1}); }
SYM_SCENARIO_PREP(explicit_one_step, p1) { finish(); }
static void p2() { prep({"serial-explicit", 2.5, 1, 2}); }
SYM_SCENARIO_PREP(explicit_second_substeps, p2) { finish(); }
static void p3() { prep({"serial-explicit", 2, 1, 2, true}); }
SYM_SCENARIO_PREP(explicit_receiver_first, p3) { finish(); }
static void p4() { prep({"serial-implicit", 2, 2, 2}); }
SYM_SCENARIO_PREP(implicit_second_substeps, p4) { finish(); }
static void p5() { prep({"serial-implicit", 2, 2, 2, true, false}); }
SYM_SCENARIO_PREP(implicit_window_end_only, p5) { finish(); }
static void p6() { prep({"serial-implicit", 1.5, 3, 1}); }
SYM_SCENARIO_PREP(implicit_three_iterations, p6) { finish(); }
static void p7() { prep({"serial-implicit", 2, 2, 1, false, true, 0}); }
SYM_SCENARIO_PREP(implicit_changed_window, p7) { finish(); }
static void p8() { Plan p{"serial-explicit", 2e-5, 1, 2}; p.unit = 1e-5; prep(p); }
SYM_SCENARIO_PREP(explicit_short_windows, p8) { finish(); }
static void p9() { Plan p{"serial-explicit", 2.5e5, 1, 1, true}; p.unit = 1e5; prep(p); }
SYM_SCENARIO_PREP(explicit_long_windows, p9) { finish(); }
static void p10() { prep({"serial-explicit", 3.5, 1, 3, false, true}); }
SYM_SCENARIO_PREP(explicit_many_windows, p10) { finish(); }
