// C09: the iteration and convergence logs record what happened.
#include "couple.hpp"
#include "qn.hpp"
static couple::Run R;
typedef world::Table Table;
static double cell(const Table &t, size_t row, const std::string &col)
{
  if (row >= t.rows.size() || !t.rows[row].count(col) || t.rows[row].at(col).size() != 1) {
    sym::fail("the log misses an entry");
    return -1;
  }
  return t.rows[row].at(col)[0];
}
static Table log(const std::string &who, const char *kind, bool there = true)
{
  std::string n = "precice-" + who + "-" + kind + ".log";
  sym::check(world::tables().count(n) == (there ? 1u : 0u), "logs exist exactly where documented");
  return world::tables().count(n) ? world::tables()[n] : Table{};
}
// rows of the iteration log
static void iterationLog(const std::string &who, const std::vector<int> &its, int limit)
{
  Table t = log(who, "iterations");
  sym::check(t.rows.size() == its.size(), "one row per completed time window");
  int total = 0;
  for (size_t k = 0; k < its.size(); ++k) {
    total += its[k];
    sym::check(cell(t, k, "TimeWindow") == k + 1, "the number of the window");
    sym::check(cell(t, k, "TotalIterations") == total, "all iterations so far");
    sym::check(cell(t, k, "Iterations") == its[k], "the iterations of the window");
    sym::check(cell(t, k, "Convergence") == (limit < 0 || its[k] < limit), "whether the window ended below the iteration limit");
  }
}
static double norm2(const std::vector<double> &a) { return couple::Run::norm2(a, std::vector<double>(a.size(), 0.0)); }
static void   finish()
{
  R.finish();
  if (R.failed)
    return;
  auto       &p = R.p;
  std::string second = p.swap ? "A" : "B", first = p.swap ? "B" : "A";
  if (!R.implicit()) {
    for (auto w : {"A", "B"})
      log(w, "iterations", false), log(w, "convergence", false);
    sym::cover("no logs");
    return;
  }
  for (auto w : {"A", "B"})
    iterationLog(w, R.iterations[w[0] == 'B'], p.unlimited ? -1 : p.iters);
  log(first, "convergence", false);
  Table  t = log(second, "convergence");
  size_t row = 0;
  for (size_t k = 0; k < R.iterations[0].size(); ++k)
    for (int it = 0; it < R.iterations[0][k]; ++it, ++row) {
      sym::check(cell(t, row, "TimeWindow") == k + 1 && cell(t, row, "Iteration") == it + 1, "one row per iteration, in order");
      for (auto &m : p.measures) {
        static const char *abbr[] = {"Abs", "Rel", "AbsOrRel", "Drop"};
        double got = cell(t, row, std::string("Res") + abbr[m.type] + "(" + R.mesh(m.data) + ":" + (m.data ? "DB" : "DA") + ")");
        double d2 = R.residual2(m.data, k, it);
        double ref2 = m.type == 1 ? norm2(R.win[m.data][k].iter[it].back().v) : m.type == 3 ? R.residual2(m.data, k, 0) : 1.0;
        if (m.type == 1 || m.type == 3)
          sym::assume(ref2 > 1e-4); // relative to something
        sym::check(got >= 0, "residuals are norms");
        sym::close(got * got * ref2, d2, 1e-6, "the residual of the measure");
        sym::cover("residual logged");
      }
    }
  sym::check(t.rows.size() == row, "one row per iteration, in order");
  sym::cover("logs compared");
}
static void run(const char *scheme, int iters, std::vector<couple::Measure> ms, double T = 2, int nv = 1, int minIters = 0, std::function<void(couple::Plan &)> more = {})
{
  couple::Plan p;
  p.scheme   = scheme;
  p.T        = T;
  p.iters    = iters;
  p.minIters = minIters;
  p.measures = ms;
  p.symRead  = false;
  p.nv       = nv;
  if (more)
    more(p);
  R.p = p;
  R.spawn();
  world::prepare();
  finish();
}
SYM_SCENARIO(absolute) { run("serial-implicit", 3, {{1, 0, 0.5, 0, false, false}}); }
SYM_SCENARIO(absolute_parallel_swapped) { run("parallel-implicit", 2, {{0, 0, 0.5, 0, false, false}}, 2, 1, 0, [](couple::Plan &p) { p.swap = true; }); }
SYM_SCENARIO(relative) { run("serial-implicit", 3, {{1, 1, 0.25, 0, false, false}}, 1); }
SYM_SCENARIO(absolute_or_relative) { run("parallel-implicit", 2, {{1, 2, 0.25, 0.5, false, false}}); }
SYM_SCENARIO(residual_relative) { run("parallel-implicit", 3, {{0, 3, 0.25, 0, false, false}}, 1); }
SYM_SCENARIO(residual_relative_windows) { run("serial-implicit", 2, {{0, 3, 0.25, 0, false, false}}, 2); }
SYM_SCENARIO(two_measures) { run("parallel-implicit", 3, {{0, 0, 0.5, 0, true, false}, {1, 0, 0.25, 0, false, false}}, 1, 1, 2); }
SYM_SCENARIO(mixed_measures) { run("serial-implicit", 2, {{0, 0, 0.5, 0, false, false}, {1, 3, 0.25, 0, true, false}}, 1); }
SYM_SCENARIO(no_measures) { run("serial-implicit", 2, {}, 2.5); }
SYM_SCENARIO(minimum_iterations) { run("serial-implicit", 4, {{1, 0, 0.5, 0, false, false}}, 1, 1, 3); }
SYM_SCENARIO(without_limit) { run("serial-implicit", 3, {{1, 0, 0.5, 0, false, false}}, 2, 1, 0, [](couple::Plan &p) { p.unlimited = true; }); }
SYM_SCENARIO(relaxation) { run("parallel-implicit", 2, {{1, 0, 0.5, 0, false, false}}, 2, 1, 0, [](couple::Plan &p) { p.accel = 1; p.omega = 0.5; }); }
SYM_SCENARIO(explicit_coupling) { run("parallel-explicit", 1, {}); }

// the quasi-Newton columns: kept, deleted by the filter, dropped as the oldest ones
static qn::Run Q;
static void qnLogs(int iters, int windows, std::vector<int> itersOf, std::function<void(qn::Plan &)> more)
{
  qn::Plan p;
  p.data    = {{1, 2}, {1, 1, false}};
  p.nv      = 2;
  p.iters   = iters;
  p.windows = windows;
  p.itersOf = itersOf;
  p.filter  = "QR2";
  p.limit   = sym::real("limit", 0.01, 0.9);
  more(p);
  int seed = sym::choice("seed", 3);
  p.value  = [seed](int d, int k, int it, int s, int e) {
    if (d == 1)
      return 1.0 + e + it;
    return qn::table(seed, d, k, 7, s, e) + qn::table(seed, d, k, it, s, e) / (1 << it);
  };
  Q.p = p;
  Q.run();
  std::vector<int> its;
  for (int k = 0; k < windows; ++k)
    its.push_back(Q.itersIn(k));
  for (auto w : {"A", "B"})
    iterationLog(w, its, iters);
  Table t = log("B", "iterations");
  for (int k = 0; k < windows; ++k) {
    sym::check(cell(t, k, "QNColumns") == Q.log[k].kept, "quasi-Newton columns in use");
    sym::check(cell(t, k, "DeletedQNColumns") == Q.log[k].deleted, "quasi-Newton columns removed by the filter in this window");
    sym::check(cell(t, k, "DroppedQNColumns") == Q.log[k].dropped, "quasi-Newton columns dropped in this window");
  }
  for (auto &r : log("A", "iterations").rows)
    sym::check(r.size() == 4, "only the accelerating participant logs columns");
  sym::cover("quasi-Newton columns logged");
}
SYM_SCENARIO(columns_filtered) { qnLogs(4, 3, {}, [](qn::Plan &) {}); }
SYM_SCENARIO(columns_limit) { qnLogs(4, 3, {}, [](qn::Plan &p) { p.maxUsed = 2; }); }
SYM_SCENARIO(columns_windows_reused) { qnLogs(3, 4, {}, [](qn::Plan &p) { p.reuse = 1; }); }
SYM_SCENARIO(columns_converged_at_once) { qnLogs(4, 4, {3, 1, 2, 4}, [](qn::Plan &p) { p.reuse = 1; }); }

// remeshing keeps the windows logged before
static void remeshing()
{
  std::string s = "<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\" allow-remeshing=\"true\"><profiling mode=\"off\"/><data:scalar name=\"DA\"/><data:scalar name=\"DB\"/>";
  for (auto w : {"A", "B"})
    s += std::string("<mesh name=\"M") + w + "\" dimensions=\"2\"><use-data name=\"DA\"/><use-data name=\"DB\"/></mesh>";
  s += "<participant name=\"A\"><provide-mesh name=\"MA\"/><receive-mesh name=\"MB\" from=\"B\"/><write-data name=\"DA\" mesh=\"MA\"/><read-data name=\"DB\" mesh=\"MA\"/><mapping:nearest-neighbor direction=\"read\" from=\"MB\" to=\"MA\" constraint=\"consistent\"/></participant>";
  s += "<participant name=\"B\"><provide-mesh name=\"MB\"/><receive-mesh name=\"MA\" from=\"A\"/><write-data name=\"DB\" mesh=\"MB\"/><read-data name=\"DA\" mesh=\"MB\"/><mapping:nearest-neighbor direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/></participant>";
  s += "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:parallel-implicit><participants first=\"A\" second=\"B\"/><max-time-windows value=\"3\"/><time-window-size value=\"1\"/><exchange data=\"DA\" mesh=\"MA\" from=\"A\" to=\"B\" substeps=\"false\"/><exchange data=\"DB\" mesh=\"MB\" from=\"B\" to=\"A\" substeps=\"false\"/>";
  s += "<max-iterations value=\"3\"/><absolute-convergence-measure data=\"DB\" mesh=\"MB\" limit=\"0.5\"/><acceleration:constant><relaxation value=\"0.5\"/></acceleration:constant></coupling-scheme:parallel-implicit></precice-configuration>";
  static std::string cfg;
  cfg = world::writeConfig(s);
  static std::vector<int> its[2];
  static int              resetter;
  for (int who = 0; who < 2; ++who)
    world::spawn(who ? "B" : "A", [who] {
      h::Participant P(who ? "B" : "A", cfg, 0, 1);
      world::ready();
      const char  *m = who ? "MB" : "MA", *d = who ? "DB" : "DA";
      double       x[2] = {0, 0};
      auto         id = P.setMeshVertex(m, x);
      P.initialize();
      int it = 0, k = 0;
      while (P.isCouplingOngoing()) {
        P.requiresWritingCheckpoint();
        double v = who ? sym::real("b", -10, 10) : 1.0;
        P.writeData(m, d, {&id, 1}, {&v, 1});
        P.advance(1);
        ++it;
        if (P.requiresReadingCheckpoint())
          continue;
        its[who].push_back(it);
        it = 0;
        ++k;
        if (k == 1 && (resetter & (1 << who))) {
          P.resetMesh(m);
          x[0] += 1;
          id = P.setMeshVertex(m, x);
        }
      }
      P.finalize();
    });
  world::prepare();
  its[0].clear(), its[1].clear();
  resetter = 1 + sym::choice("who resets", 3);
  world::run();
  int total = 0;
  for (int who = 0; who < 2; ++who) {
    iterationLog(who ? "B" : "A", its[who], 3);
    total = 0;
    for (int i : its[who])
      total += i;
  }
  Table t = log("B", "convergence");
  sym::check((int) t.rows.size() == total, "one row per iteration, in order");
  sym::cover("logs after remeshing");
}
SYM_SCENARIO(remeshed) { remeshing(); }

// three participants, the controller on two ranks
static void multi()
{
  static std::string cfg;
  std::string        s = "<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\"><profiling mode=\"off\"/>";
  for (auto d : {"DA", "DB", "CA", "CB"})
    s += std::string("<data:scalar name=\"") + d + "\"/>";
  s += "<mesh name=\"MA\" dimensions=\"2\"><use-data name=\"DA\"/><use-data name=\"CA\"/></mesh><mesh name=\"MB\" dimensions=\"2\"><use-data name=\"DB\"/><use-data name=\"CB\"/></mesh>";
  for (std::string w : {"A", "B"})
    s += "<participant name=\"" + w + "\"><provide-mesh name=\"M" + w + "\"/><write-data name=\"D" + w + "\" mesh=\"M" + w + "\"/><read-data name=\"C" + w + "\" mesh=\"M" + w + "\"/></participant>";
  s += "<participant name=\"C\">";
  for (std::string w : {"A", "B"})
    s += "<receive-mesh name=\"M" + w + "\" from=\"" + w + "\" api-access=\"true\"/><read-data name=\"D" + w + "\" mesh=\"M" + w + "\"/><write-data name=\"C" + w + "\" mesh=\"M" + w + "\"/>";
  s += "</participant><m2n:sockets acceptor=\"A\" connector=\"C\"/><m2n:sockets acceptor=\"B\" connector=\"C\"/>";
  s += "<coupling-scheme:multi><participant name=\"A\"/><participant name=\"B\"/><participant name=\"C\" control=\"true\"/><max-time-windows value=\"2\"/><time-window-size value=\"1\"/>";
  for (std::string w : {"A", "B"})
    s += "<exchange data=\"D" + w + "\" mesh=\"M" + w + "\" from=\"" + w + "\" to=\"C\" substeps=\"false\"/><exchange data=\"C" + w + "\" mesh=\"M" + w + "\" from=\"C\" to=\"" + w + "\" substeps=\"false\"/>";
  s += "<max-iterations value=\"2\"/><absolute-convergence-measure data=\"CA\" mesh=\"MA\" limit=\"1\"/><residual-relative-convergence-measure data=\"DB\" mesh=\"MB\" limit=\"0.5\" suffices=\"true\"/></coupling-scheme:multi></precice-configuration>";
  cfg = world::writeConfig(s);
  typedef std::vector<double> V;
  static std::vector<V> ca; // per iteration: values of both ranks of C on MA
  static std::vector<double> db;
  static std::vector<int> its[4];
  auto loop = [](h::Participant &P, int me, std::function<void(int)> write) {
    int it = 0, n = 0;
    while (P.isCouplingOngoing()) {
      P.requiresWritingCheckpoint();
      write(n++);
      P.advance(1);
      ++it;
      if (P.requiresReadingCheckpoint())
        continue;
      its[me].push_back(it);
      it = 0;
    }
    P.finalize();
  };
  for (int who = 0; who < 2; ++who)
    world::spawn(who ? "B" : "A", [=] {
      h::Participant P(who ? "B" : "A", cfg, 0, 1);
      world::ready();
      std::vector<h::VertexID> ids;
      for (int i = 0; i < 2; ++i) {
        double x[2] = {double(i), 0};
        ids.push_back(P.setMeshVertex(who ? "MB" : "MA", x));
      }
      P.initialize();
      loop(P, who, [&](int n) {
        V v{1.0 + n, 0.0};
        if (who == 1)
          db.push_back(v[0] = n % 2 ? 4.5 : 3.0); // residual of the second iteration: 1.5 of 3, or 4.5 when started from there
        P.writeData(who ? "MB" : "MA", who ? "DB" : "DA", ids, v);
      });
    });
  for (int r = 0; r < 2; ++r)
    world::spawn("C" + std::to_string(r), [=] {
      h::Participant P("C", cfg, r, 2);
      world::ready();
      V box{r - 0.25, r + 0.25, -1, 1};
      P.setMeshAccessRegion("MA", box);
      P.setMeshAccessRegion("MB", box);
      P.initialize();
      h::VertexID id;
      double      x[2];
      P.getMeshVertexIDsAndCoordinates("MA", {&id, 1}, x);
      loop(P, 2 + r, [&](int n) {
        double v = r ? 0.5 * (n % 3) : sym::real("c", -10, 10);
        if ((int) ca.size() <= n)
          ca.resize(n + 1, V(2, 0.0));
        ca[n][r] = v;
        P.writeData("MA", "CA", {&id, 1}, {&v, 1});
      });
    });
  world::prepare();
  ca.clear(), db.clear();
  for (auto &i : its)
    i.clear();
  world::run();
  iterationLog("A", its[0], 2), iterationLog("B", its[1], 2), iterationLog("C", its[2], 2);
  log("A", "convergence", false), log("B", "convergence", false);
  Table  t = log("C", "convergence");
  size_t n = 0;
  V      last(2, 0.0), prev(2, 0.0);
  double lastB = 0, prevB = 0, first = 1;
  for (size_t k = 0; k < its[2].size(); ++k) {
    prev = last, prevB = lastB; // accepted values
    for (int it = 0; it < its[2][k]; ++it, ++n) {
      sym::check(cell(t, n, "TimeWindow") == k + 1 && cell(t, n, "Iteration") == it + 1, "one row per iteration, in order");
      double d = couple::Run::norm2(ca[n], prev), b = (db[n] - prevB) * (db[n] - prevB);
      if (it == 0)
        first = b;
      sym::assume(first > 1e-2);
      double ga = cell(t, n, "ResAbs(MA:CA)"), gb = cell(t, n, "ResDrop(MB:DB)");
      sym::check((ga >= 0) & (gb >= 0), "residuals are norms");
      sym::close(ga * ga, d, 1e-6, "the residual of the measure, over all ranks");
      sym::close(gb * gb * first, b, 1e-6, "the residual of the measure, over all ranks");
      prev = last = ca[n], prevB = lastB = db[n];
    }
  }
  sym::check(t.rows.size() == n, "one row per iteration, in order");
  sym::cover("multi coupling logged");
}
SYM_SCENARIO(multi_coupling) { multi(); }
