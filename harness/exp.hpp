// Exported files read back: the exporters of two participants, driven through the public API.
#pragma once
#include "map.hpp"
#include <filesystem>
#include <fstream>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace h;
using maps::Mesh;
using maps::Points;

// How a floating-point value becomes text is not the library's business: a stream insertion writes a reference to the
// (symbolic) value instead, which the reader of the files below looks up.
namespace tap {
struct Value {
  double value;
  int    digits;
};
static std::vector<Value> values;
std::ostream &insert(std::ostream *out, double v) asm("_ZNSo9_M_insertIdEERSoT_");
std::ostream &insert(std::ostream *out, double v)
{
  values.push_back({v, (out->flags() & std::ios::floatfield) == std::ios::fixed ? 0 : (int) out->precision()});
  return *out << '$' << std::to_string(values.size() - 1);
}
} // namespace tap

namespace {
typedef std::vector<double> Vals;
double value(const std::string &t)
{
  if (t.empty() || t[0] != '$')
    return std::stod(t);
  auto &v = tap::values.at(std::stoi(t.substr(1)));
  sym::check(v.digits >= 6, "at least six significant digits");
  return v.value;
}
std::vector<std::string> words(const std::string &s)
{
  std::istringstream       in(s);
  std::vector<std::string> r;
  for (std::string w; in >> w;)
    r.push_back(w);
  return r;
}
std::vector<std::string> cut(const std::string &s, char c)
{
  std::vector<std::string> r(1);
  for (char x : s)
    if (x == c)
      r.emplace_back();
    else
      r.back() += x;
  return r;
}
Vals numbers(const std::vector<std::string> &w)
{
  Vals r;
  for (auto &t : w)
    r.push_back(value(t));
  return r;
}
std::string attr(const std::string &tag, const std::string &name)
{
  size_t i = tag.find(name + "=\"");
  if (i == std::string::npos)
    return "?";
  i += name.size() + 2;
  return tag.substr(i, tag.find('"', i) - i);
}

// What a file says
struct File {
  Points                         x; // as many coordinates as written
  std::vector<std::vector<int>>  cells[5]; // by number of vertices
  std::vector<int>               rank;
  std::map<std::string, std::pair<int, Vals>> data; // components, values
  bool                           ok = true;
};
void need(bool b, const char *what)
{
  sym::check(b, what);
  if (!b)
    __sym_end_path();
}
std::string slurp(const std::string &path)
{
  std::ifstream in(path);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
Points rows(const Vals &v, int n)
{
  Points r;
  for (size_t i = 0; i + n <= v.size(); i += n)
    r.emplace_back(v.begin() + i, v.begin() + i + n);
  return r;
}
std::vector<int> ints(const std::vector<std::string> &w)
{
  std::vector<int> r;
  for (auto &t : w)
    r.push_back(std::stoi(t));
  return r;
}
File csv(const std::string &path, int dims)
{
  File f;
  auto lines = cut(slurp(path), '\n');
  auto head  = cut(lines[0], ';');
  std::vector<std::string> want = {"PosX", "PosY", "PosZ"};
  need((int) head.size() > dims && std::equal(head.begin(), head.begin() + dims, want.begin()) && head[dims] == "Rank", "CSV: coordinates, then the rank");
  need(lines.back().empty(), "CSV: the last line is complete");
  lines.pop_back();
  std::vector<std::string> names;
  for (size_t c = dims + 1; c < head.size(); ++c) {
    std::string n = head[c], base = n.substr(0, n.size() - 1);
    if (n == base + 'X')
      f.data[base].first = 0;
    names.push_back(f.data.count(base) ? base : n);
    f.data[names.back()].first++;
  }
  for (size_t l = 1; l < lines.size(); ++l) {
    auto w = cut(lines[l], ';');
    need(w.size() == head.size(), "CSV: as many columns as in the header");
    f.x.emplace_back();
    for (int d = 0; d < dims; ++d)
      f.x.back().push_back(value(w[d]));
    f.rank.push_back(std::stoi(w[dims]));
    for (size_t c = dims + 1; c < w.size(); ++c)
      f.data[names[c - dims - 1]].second.push_back(value(w[c]));
  }
  return f;
}
File vtk(const std::string &path)
{
  File   f;
  auto   w = words(slurp(path));
  size_t i = 0;
  std::string magic = "# vtk DataFile Version 2.0 ASCII DATASET UNSTRUCTURED_GRID";
  for (auto &m : words(magic))
    need(i < w.size() && w[i++] == m, "VTK: header");
  auto take = [&](size_t n) {
    need(i + n <= w.size(), "VTK: all announced values are there");
    std::vector<std::string> r(w.begin() + i, w.begin() + i + n);
    i += n;
    return r;
  };
  auto word = [&](const char *s) { need(i < w.size() && w[i++] == s, "VTK: keyword"); };
  word("POINTS");
  size_t n = std::stoi(take(1)[0]);
  word("double");
  f.x = rows(numbers(take(3 * n)), 3);
  word("CELLS");
  size_t cells = std::stoi(take(1)[0]), size = std::stoi(take(1)[0]);
  auto   c     = ints(take(size));
  word("CELL_TYPES");
  need((size_t) std::stoi(take(1)[0]) == cells, "VTK: one type per cell");
  auto   types = ints(take(cells));
  size_t at    = 0;
  for (int t : types) {
    need(at < c.size() && (c[at] == 2 || c[at] == 3 || c[at] == 4) && at + c[at] < c.size(), "VTK: cells fit");
    need(t == (c[at] == 2 ? 3 : c[at] == 3 ? 5 : 10), "VTK: type of the cell");
    f.cells[c[at]].emplace_back(c.begin() + at + 1, c.begin() + at + 1 + c[at]);
    at += c[at] + 1;
  }
  need(at == c.size(), "VTK: no values beyond the cells");
  word("POINT_DATA");
  need((size_t) std::stoi(take(1)[0]) == n, "VTK: data of every point");
  while (i < w.size()) {
    std::string kind = take(1)[0], name = take(1)[0];
    need(kind == "SCALARS" || kind == "VECTORS", "VTK: scalars or vectors");
    take(1);
    if (kind == "SCALARS") {
      word("LOOKUP_TABLE");
      word("default");
    }
    int k = kind == "SCALARS" ? 1 : 3;
    if (name == "Rank")
      f.rank = ints(take(n));
    else {
      need(!f.data.count(name), "VTK: data once");
      auto v       = numbers(take(n * k));
      f.data[name] = {k, v};
    }
  }
  return f;
}
File xml(const std::string &path, bool poly)
{
  File        f;
  std::string s = slurp(path);
  need(s.find(poly ? "<VTKFile type=\"PolyData\"" : "<VTKFile type=\"UnstructuredGrid\"") != std::string::npos && s.find("</VTKFile>") != std::string::npos, "XML: a complete file");
  size_t      p     = s.find("<Piece ");
  std::string piece = s.substr(p, s.find('>', p) - p);
  struct Arr {
    int                      k;
    std::vector<std::string> w;
  };
  std::vector<std::pair<std::string, Arr>> arrays; // section + name
  std::string                              section, scal, vec;
  for (size_t i = s.find('<', p + 1); i != std::string::npos; i = s.find('<', i + 1)) {
    std::string tag = s.substr(i, s.find('>', i) - i);
    for (const char *sec : {"Points", "Cells", "Lines", "Polys", "PointData"})
      if (tag.rfind(std::string("<") + sec, 0) == 0 && (tag.size() == strlen(sec) + 1 || tag[strlen(sec) + 1] == ' '))
        section = sec;
    if (tag.rfind("<PointData", 0) == 0) {
      scal = attr(tag, "Scalars");
      vec  = attr(tag, "Vectors");
    }
    if (tag.rfind("<DataArray", 0) == 0) {
      size_t b = s.find('>', i) + 1;
      arrays.push_back({section + "/" + attr(tag, "Name"), {std::stoi(attr(tag, "NumberOfComponents")), words(s.substr(b, s.find('<', b) - b))}});
    }
  }
  auto get = [&](const std::string &n) -> Arr & {
    for (auto &a : arrays)
      if (a.first == n)
        return a.second;
    need(false, "XML: all arrays");
    return arrays[0].second;
  };
  size_t n = std::stoi(attr(piece, "NumberOfPoints"));
  f.x      = rows(numbers(get("Points/Position").w), 3);
  need(f.x.size() == n && get("Points/Position").w.size() == 3 * n, "XML: as many points as announced");
  auto cells = [&](const char *sec, const char *count, int fixed) {
    auto   c = ints(get(std::string(sec) + "/connectivity").w), o = ints(get(std::string(sec) + "/offsets").w);
    auto   t = fixed ? std::vector<int>() : ints(get(std::string(sec) + "/types").w);
    need((int) o.size() == std::stoi(attr(piece, count)) && (fixed || t.size() == o.size()), "XML: as many cells as announced");
    int at = 0;
    for (size_t k = 0; k < o.size(); ++k) {
      int m = o[k] - at;
      need(m >= 2 && m <= 4 && o[k] <= (int) c.size() && (fixed ? m == fixed : t[k] == (m == 2 ? 3 : m == 3 ? 5 : 10)), "XML: cells fit");
      f.cells[m].emplace_back(c.begin() + at, c.begin() + o[k]);
      at = o[k];
    }
    need(at == (int) c.size(), "XML: no values beyond the cells");
  };
  if (poly) {
    cells("Lines", "NumberOfLines", 2);
    cells("Polys", "NumberOfPolys", 3);
  } else
    cells("Cells", "NumberOfCells", 0);
  std::string s1, s3;
  for (auto &a : arrays)
    if (a.first.rfind("PointData/", 0) == 0) {
      std::string name = a.first.substr(10);
      need(a.second.w.size() == n * a.second.k, "XML: data of every point");
      need(name == "Rank" || !f.data.count(name), "XML: data once");
      (a.second.k == 1 ? s1 : s3) += name + " ";
      if (name == "Rank")
        f.rank = ints(a.second.w);
      else {
        auto v       = numbers(a.second.w);
        f.data[name] = {a.second.k, v};
      }
    }
  sym::check(s1 == scal, "XML: the scalars are announced");
  auto a = words(s3), b = words(vec);
  sym::check(std::multiset<std::string>(a.begin(), a.end()) == std::multiset<std::string>(b.begin(), b.end()), "XML: the vectors are announced");
  return f;
}

// What a participant's rank should have exported on one mesh under one index
struct Want {
  std::string                 name; // init, dt1, it1, ...
  double                      time;
  Points                      x;
  int                         rank;
  std::map<std::string, std::pair<int, Vals>> data; // components, values
  std::map<std::string, Vals> grad;
};
struct Plan {
  int         dims = 2, ranks = 1, windows = 2, iters = 1, every = 1, steps = 1;
  bool        everyIter = false, update = false, init = false, gradient = false, vtk = true;
  Mesh        m;               // A
  Points      y;               // B; y[j] is next to x[near[j]]
  std::vector<int> near;
  std::vector<std::vector<int>> parts; // of A
  std::string mapping = "nearest-neighbor", kindD = "scalar";
  std::vector<std::string> formats = {"vtu", "vtp", "csv", "vtk"};
};
struct Run {
  Plan                     p;
  int                      nd = 1;
  std::string              cfg, dir;
  std::function<bool(Participant &, const std::vector<VertexID> &)> connect; // sets the connectivity instead; false: stop here
  bool                     stopped = false, unconnected = false;             // unconnected: connectivity is not wanted
  std::vector<Vals>        D, E;      // per advance call of A / B
  std::vector<Vals>        V;
  Vals                     D0, V0, E0, G;
  std::vector<std::vector<Want>> wantA; // per rank
  std::vector<Want>        wantB, wantBA; // B on its own and on A's mesh

  std::string xmlText()
  {
    nd = p.kindD == "vector" ? p.dims : 1;
    std::string d = std::to_string(p.dims), s = "<?xml version=\"1.0\"?>\n<precice-configuration experimental=\"true\"><profiling mode=\"off\"/>";
    s += "<data:" + p.kindD + " name=\"D\"/><data:vector name=\"V\"/><data:scalar name=\"E\"/>";
    for (const char *m : {"MA", "MB"})
      s += std::string("<mesh name=\"") + m + "\" dimensions=\"" + d + "\"><use-data name=\"D\"/><use-data name=\"V\"/><use-data name=\"E\"/></mesh>";
    auto exports = [&](const char *who) {
      std::string r;
      for (auto &t : p.formats)
        if (t[2] != 'k' || p.ranks == 1)
          r += "<export:" + t + " directory=\"out/" + who + "\" every-n-time-windows=\"" + std::to_string(p.every) + "\" every-iteration=\"" + (p.everyIter ? "true" : "false") + "\" update-series=\"" + (p.update ? "true" : "false") + "\"/>";
      return r;
    };
    s += "<participant name=\"A\">" + exports("a") + "<provide-mesh name=\"MA\"/><write-data name=\"D\" mesh=\"MA\"/><write-data name=\"V\" mesh=\"MA\"/><read-data name=\"E\" mesh=\"MA\"/></participant>";
    s += "<participant name=\"B\">" + exports("b") + "<provide-mesh name=\"MB\"/><receive-mesh name=\"MA\" from=\"A\"/><read-data name=\"D\" mesh=\"MB\"/><read-data name=\"V\" mesh=\"MB\"/><write-data name=\"E\" mesh=\"MB\"/>";
    s += "<mapping:" + p.mapping + " direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/><mapping:nearest-neighbor direction=\"write\" from=\"MB\" to=\"MA\" constraint=\"conservative\"/></participant>";
    std::string scheme = p.iters > 1 ? "parallel-implicit" : "parallel-explicit";
    s += "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" + scheme + "><participants first=\"A\" second=\"B\"/><max-time-windows value=\"" + std::to_string(p.windows) + "\"/><time-window-size value=\"1\"/>";
    for (const char *x : {"D", "V", "E"})
      s += std::string("<exchange data=\"") + x + "\" mesh=\"MA\" from=\"" + (*x == 'E' ? "B" : "A") + "\" to=\"" + (*x == 'E' ? "A" : "B") + "\" substeps=\"" + (p.steps > 1 ? "true" : "false") + "\"" + (p.init ? " initialize=\"true\"" : "") + "/>";
    if (p.iters > 1)
      s += "<max-iterations value=\"" + std::to_string(p.iters) + "\"/>";
    return s + "</coupling-scheme:" + scheme + "></precice-configuration>";
  }
  Want blank(const std::string &name, double time, const Points &x, int rank)
  {
    Want w;
    w.name = name;
    w.time = time;
    w.x    = x;
    w.rank = rank;
    return w;
  }
  Vals mine(const Vals &all, const std::vector<int> &ids, int c)
  {
    Vals r;
    for (int i : ids)
      r.insert(r.end(), all.begin() + i * c, all.begin() + (i + 1) * c);
    return r;
  }
  // everything after a call to initialize (index 0) or the k-th call of advance
  bool due(int call, int window, bool complete, std::string &name)
  {
    if (p.everyIter) {
      name = call ? "it" + std::to_string(call) : "init";
      return call || p.every >= 1;
    }
    name = window ? "dt" + std::to_string(window) : "init";
    return complete && p.every >= 1 && window % p.every == 0;
  }
  void bodyA(int rank)
  {
    Participant P("A", cfg, rank, p.ranks);
    world::ready();
    auto                   &ids = p.parts[rank];
    std::vector<VertexID>   v;
    std::map<int, VertexID> at;
    Points                  x;
    for (int i : ids) {
      x.push_back(p.m.x[i]);
      v.push_back(at[i] = P.setMeshVertex("MA", p.m.x[i]));
    }
    auto have = [&](auto &e) {
      for (int i : e)
        if (!at.count(i))
          return false;
      return true;
    };
    if (connect) {
      if (!connect(P, v)) {
        world::abandonOthers();
        stopped = true;
        return;
      }
    } else
    for (auto &e : p.m.edges)
      if (have(e))
        P.setMeshEdge("MA", at[e[0]], at[e[1]]);
    if (!connect)
    for (auto &t : p.m.triangles)
      if (have(t))
        P.setMeshTriangle("MA", at[t[0]], at[t[1]], at[t[2]]);
    if (!connect)
    for (auto &t : p.m.tets)
      if (have(t))
        P.setMeshTetrahedron("MA", at[t[0]], at[t[1]], at[t[2]], at[t[3]]);
    Vals d = mine(D0, ids, nd), w = mine(V0, ids, p.dims), e(ids.size()), g(ids.size() * nd * p.dims, 0.0);
    if (p.init) {
      (void) P.requiresInitialData();
      P.writeData("MA", "D", v, d);
      P.writeData("MA", "V", v, w);
      if (p.gradient) {
        g = mine(G, ids, nd * p.dims);
        P.writeGradientData("MA", "D", v, g);
      }
    }
    P.initialize();
    int  call = 0, window = 0;
    auto note = [&](double time, bool complete) {
      P.readData("MA", "E", v, P.getMaxTimeStepSize(), e);
      std::string n;
      if (!due(call, window, complete, n))
        return;
      auto want      = blank(n, time, x, rank);
      want.data["D"] = {nd, d};
      want.data["V"] = {p.dims, w};
      want.data["E"] = {1, e};
      if (p.gradient)
        want.grad["D"] = g, want.grad["V"] = Vals(x.size() * p.dims * p.dims, 0.0);
      wantA[rank].push_back(want);
    };
    note(0, true);
    while (P.isCouplingOngoing()) {
      if (p.iters > 1)
        (void) P.requiresWritingCheckpoint();
      double h = P.getMaxTimeStepSize();
      if (p.steps > 1 && call % p.steps == 0)
        h *= 0.5;
      need(call < (int) D.size(), "no more calls of advance than planned");
      d = mine(D[call], ids, nd);
      w = mine(V[call], ids, p.dims);
      P.writeData("MA", "D", v, d);
      P.writeData("MA", "V", v, w);
      if (p.gradient) {
        g = mine(G, ids, nd * p.dims);
        for (auto &q : g)
          q += call;
        P.writeGradientData("MA", "D", v, g);
      }
      bool half = p.steps > 1 && call % p.steps == 0;
      P.advance(h);
      if (p.iters > 1)
        (void) P.requiresReadingCheckpoint();
      ++call;
      bool c = P.isTimeWindowComplete();
      window += c;
      if (!half) // nothing is exported within a time window
        note(window, c);
    }
    P.finalize();
  }
  void bodyB()
  {
    Participant P("B", cfg, 0, 1);
    world::ready();
    std::vector<VertexID> v;
    for (auto &y : p.y)
      v.push_back(P.setMeshVertex("MB", y));
    Vals d(p.y.size() * nd), w(p.y.size() * p.dims), e = E0;
    // A's mesh as B received it: rank after rank
    std::vector<int> order;
    Points           x;
    for (auto &part : p.parts)
      for (int i : part) {
        order.push_back(i);
        x.push_back(p.m.x[i]);
      }
    if (p.init) {
      (void) P.requiresInitialData();
      P.writeData("MB", "E", v, e);
    }
    P.initialize();
    int  call = 0, window = 0;
    auto note = [&](double time, bool complete) {
      double t = P.getMaxTimeStepSize();
      P.readData("MB", "D", v, t, d);
      P.readData("MB", "V", v, t, w);
      std::string n;
      if (!due(call, window, complete, n))
        return;
      auto want      = blank(n, time, p.y, 0);
      want.data["D"] = {nd, d};
      want.data["V"] = {p.dims, w};
      want.data["E"] = {1, e};
      wantB.push_back(want);
      want.x = x;
      // what A wrote in the same iteration, and what B's write mapping adds up
      Vals ma = call ? D[call - 1] : D0, mv = call ? V[call - 1] : V0, me(x.size(), 0.0);
      for (size_t i = 0; i < order.size(); ++i)
        for (size_t j = 0; j < p.near.size(); ++j)
          if (p.near[j] == order[i])
            me[i] += e[j];
      want.data["D"].second = mine(ma, order, nd);
      want.data["V"].second = mine(mv, order, p.dims);
      want.data["E"].second = me;
      if (p.gradient) {
        auto g = mine(G, order, nd * p.dims);
        for (auto &q : g)
          q = call ? q + (call - 1) : p.init ? q : 0.0;
        want.grad["D"] = g;
        want.grad["V"] = Vals(x.size() * p.dims * p.dims, 0.0);
      }
      wantBA.push_back(want);
    };
    note(0, true);
    while (P.isCouplingOngoing()) {
      if (p.iters > 1)
        (void) P.requiresWritingCheckpoint();
      need(call < (int) E.size(), "no more calls of advance than planned");
      double h    = P.getMaxTimeStepSize();
      bool   half = p.steps > 1 && call % p.steps == 0;
      P.writeData("MB", "E", v, e = E[call]);
      P.advance(half ? h * 0.5 : h);
      if (p.iters > 1)
        (void) P.requiresReadingCheckpoint();
      ++call;
      bool c = P.isTimeWindowComplete();
      window += c;
      if (!half) // nothing is exported within a time window
        note(window, c);
    }
    P.finalize();
  }
  void prep(const Plan &q)
  {
    p   = q;
    nd  = p.kindD == "vector" ? p.dims : 1;
    cfg = world::writeConfig(xmlText());
    wantA.resize(p.ranks);
    for (int r = 0; r < p.ranks; ++r)
      world::spawn("A" + std::to_string(r), [=] { bodyA(r); });
    world::spawn("B", [=] { bodyB(); });
    world::prepare();
  }
  static Vals some(const char *n, size_t k)
  {
    Vals r;
    for (size_t i = 0; i < k; ++i)
      r.push_back(sym::real(n, -100, 100));
    return r;
  }
  void values()
  {
    int calls = p.windows * p.iters * p.steps;
    for (int c = 0; c < calls; ++c) {
      D.push_back(some("D", p.m.x.size() * nd));
      V.push_back(some("V", p.m.x.size() * p.dims));
      E.push_back(some("E", p.y.size()));
    }
    D0 = p.init ? some("D0", p.m.x.size() * nd) : Vals(p.m.x.size() * nd, 0.0);
    V0 = p.init ? some("V0", p.m.x.size() * p.dims) : Vals(p.m.x.size() * p.dims, 0.0);
    E0 = p.init ? some("E0", p.y.size()) : Vals(p.y.size(), 0.0);
    if (p.gradient)
      G = some("G", p.m.x.size() * nd * p.dims);
    if (p.parts.empty()) {
      p.parts.resize(p.ranks);
      for (size_t i = 0; i < p.m.x.size(); ++i)
        p.parts[0].push_back(i);
    }
  }
  // the elements with all vertices among those given, with everything they imply
  std::set<std::vector<int>> elements(const std::vector<std::vector<int>> &groups, int n)
  {
    std::set<std::vector<int>> r;
    int                        base = 0;
    if (unconnected)
      return r;
    for (auto &ids : groups) {
      std::map<int, int> at;
      for (size_t i = 0; i < ids.size(); ++i)
        at[ids[i]] = base + i;
      base += ids.size();
      auto add = [&](std::vector<int> e) {
        for (int &i : e) {
          if (!at.count(i))
            return;
          i = at[i];
        }
        std::sort(e.begin(), e.end());
        int k = e.size();
        for (int bits = 0; bits < (1 << k); ++bits)
          if (__builtin_popcount(bits) == n) {
            std::vector<int> s;
            for (int b = 0; b < k; ++b)
              if (bits >> b & 1)
                s.push_back(e[b]);
            r.insert(s);
          }
      };
      for (auto &e : p.m.edges)
        add({e[0], e[1]});
      for (auto &e : p.m.triangles)
        add({e[0], e[1], e[2]});
      for (auto &e : p.m.tets)
        add({e[0], e[1], e[2], e[3]});
    }
    return r;
  }
  void compare(const std::string &path, const std::string &type, const Want &w, const std::vector<std::vector<int>> &groups)
  {
    File f = type == "csv" ? csv(path, p.dims) : type == "vtk" ? vtk(path)
                                                               : xml(path, type == "vtp");
    int  cd = type == "csv" ? p.dims : 3;
    need(f.x.size() == w.x.size() && f.rank.size() == w.x.size(), "every vertex once");
    for (size_t i = 0; i < w.x.size(); ++i) {
      sym::check(f.rank[i] == w.rank, "the rank of the exporting process");
      for (int d = 0; d < cd; ++d)
        sym::close(f.x[i][d], d < p.dims ? w.x[i][d] : 0.0, 0, "coordinates");
    }
    std::set<std::string> names;
    for (auto &d : w.data) {
      std::string n = d.first;
      int         k = d.second.first, kk = type == "csv" || k == 1 ? k : 3;
      names.insert(n);
      need(f.data.count(n), "all data is exported");
      auto &got = f.data[n];
      need(got.first == kk && got.second.size() == kk * w.x.size(), "the number of components");
      for (size_t i = 0; i < w.x.size(); ++i)
        for (int c = 0; c < kk; ++c)
          sym::close(got.second[i * kk + c], c < k ? d.second.second[i * k + c] : 0.0, 1e-9, "values at the end of the window or iteration");
      if (type == "csv" || !w.grad.count(n))
        continue;
      const Vals &g = w.grad.at(n);
      for (int b = 0; b < k; ++b) { // scalar: the gradient; vector: the components' blocks in the order written
        std::string m = n + (k == 1 ? "_gradient" : b == 0 ? "_dx" : b == 1 ? "_dy" : "_dz");
        names.insert(m);
        need(f.data.count(m) && f.data[m].first == 3 && f.data[m].second.size() == 3 * w.x.size(), "gradients of every vertex");
        for (size_t i = 0; i < w.x.size(); ++i)
          for (int c = 0; c < 3; ++c)
            sym::close(f.data[m].second[i * 3 + c], c < p.dims ? g[(i * k + b) * p.dims + c] : 0.0, 0, "gradients at the end of the window or iteration");
      }
    }
    for (auto &d : f.data)
      sym::check(names.count(d.first), "no other data");
    if (type == "csv")
      return;
    for (int n = 2; n <= 4; ++n) {
      if ((type == "vtp" && n == 4) || (type == "vtk" && p.dims == 2 && n == 3))
        continue; // not representable / not part of the legacy format in 2D
      auto                       want = elements(groups, n);
      std::set<std::vector<int>> got;
      for (auto c : f.cells[n]) {
        std::sort(c.begin(), c.end());
        sym::check(got.insert(c).second, "every element once");
      }
      sym::check(got == want, "exactly the elements of the mesh");
    }
  }
  void series(const std::string &path, const std::string &prefix, const std::string &ext, const std::vector<Want> &want)
  {
    std::string s = slurp(path);
    sym::check(s.rfind("{ \"file-series-version\" : \"1.0\", \"files\" : [", 0) == 0 && s.find("] }") == s.size() - 3, "a complete series file");
    size_t i = 0;
    for (auto &w : want) {
      std::string n = "{ \"name\" : \"" + prefix + w.name + ext + "\", \"time\" : ";
      size_t      j = s.find(n, i);
      need(j != std::string::npos && s.substr(i, j - i).find("name") == std::string::npos, "the series names every file in order");
      sym::close(std::stod(s.substr(j + n.size())), w.time, 1e-12, "the series tells the time of every file");
      i = j + n.size();
    }
    sym::check(s.find("name", i) == std::string::npos, "the series names no other file");
  }
  void go()
  {
    char t[] = "/tmp/verif-export-XXXXXX";
    if (!mkdtemp(t) || chdir(t))
      abort();
    dir = t;
    world::run();
    if (stopped) {
      if (chdir("/") == 0)
        std::filesystem::remove_all(dir);
      return;
    }
    std::set<std::string> want;
    auto                  all = [&](const std::string &who, const std::string &P, const std::string &mesh, const std::vector<std::vector<Want>> &ws, const std::vector<std::vector<std::vector<int>>> &groups) {
      bool par = ws.size() > 1;
      for (auto &type : p.formats) {
        if (type == "vtk" && p.ranks > 1)
          continue;
        std::string base = mesh + "-" + P + ".";
        for (size_t r = 0; r < ws.size(); ++r)
          for (auto &w : ws[r]) {
            if (par && type != "csv" && w.x.empty())
              continue;
            std::string rk = std::to_string(r);
            std::string f  = who + "/" + base + (!par ? w.name : type == "csv" ? rk + "_" + w.name : w.name + "_" + rk) + "." + type;
            want.insert(f);
            need(std::filesystem::exists("out/" + f), "the file exists");
            compare("out/" + f, type, w, groups[r]);
          }
        if (type == "csv" || (p.every < 1 && !p.everyIter))
          continue;
        if (par)
          for (auto &w : ws[0]) {
            std::string f = who + "/" + base + w.name + ".p" + type;
            want.insert(f);
            need(std::filesystem::exists("out/" + f), "the index file exists");
            index("out/" + f, type, base + w.name, ws, w);
          }
        std::string ext = par ? ".p" + type : "." + type, f = who + "/" + mesh + "-" + P + ext + ".series";
        if (p.everyIter) { // series belong to exports of time windows
          if (std::filesystem::exists("out/" + f))
            want.insert(f);
          continue;
        }
        want.insert(f);
        need(std::filesystem::exists("out/" + f), "the series file exists");
        series("out/" + f, base, ext, ws[0]);
      }
    };
    std::vector<std::vector<std::vector<int>>> own, none(1), flat;
    for (auto &part : p.parts)
      own.push_back({part});
    flat.push_back(p.parts);
    all("a", "A", "MA", wantA, own);
    all("b", "B", "MB", {wantB}, none);
    all("b", "B", "MA", {wantBA}, flat);
    std::set<std::string> got;
    if (std::filesystem::exists("out"))
      for (auto &e : std::filesystem::recursive_directory_iterator("out"))
        if (e.is_regular_file())
          got.insert(e.path().string().substr(4));
    sym::check(got == want, "no other files");
    sym::cover("files read");
    if (chdir("/") == 0)
      std::filesystem::remove_all(dir);
  }
  void index(const std::string &path, const std::string &type, const std::string &stem, const std::vector<std::vector<Want>> &ws, const Want &w)
  {
    std::string              s = slurp(path);
    std::vector<std::string> pieces, want, arrays, names = {"Position", "Rank"};
    need(s.find(type == "vtp" ? "<VTKFile type=\"PPolyData\"" : "<VTKFile type=\"PUnstructuredGrid\"") != std::string::npos && s.find("</VTKFile>") != std::string::npos, "a complete index file");
    for (size_t i = s.find('<'); i != std::string::npos; i = s.find('<', i + 1)) {
      std::string tag = s.substr(i, s.find('>', i) - i);
      if (tag.rfind("<Piece ", 0) == 0)
        pieces.push_back(attr(tag, "Source"));
      if (tag.rfind("<PDataArray ", 0) == 0 && tag.find("Int32\" Name=\"c") == std::string::npos && tag.find("Name=\"offsets") == std::string::npos && tag.find("Name=\"types") == std::string::npos) {
        arrays.push_back(attr(tag, "Name"));
        auto d = w.data.find(arrays.back());
        if (d != w.data.end())
          sym::check(attr(tag, "NumberOfComponents") == (d->second.first == 1 ? "1" : "3"), "the index tells the number of components");
      }
    }
    for (size_t r = 0; r < ws.size(); ++r)
      if (!ws[r].empty() && !ws[r][0].x.empty())
        want.push_back(stem + "_" + std::to_string(r) + "." + type);
    sym::check(pieces == want, "the index lists exactly the pieces of the ranks with vertices");
    for (auto &d : w.data)
      names.push_back(d.first);
    sym::check(std::multiset<std::string>(arrays.begin(), arrays.end()) == std::multiset<std::string>(names.begin(), names.end()), "the index lists the data");
  }
};
Run R;
Points square(int dims, int moved = 1);
Plan base(int dims = 2)
{
  Plan p;
  p.dims = dims;
  return p;
}
Points square(int dims, int moved)
{
  Points x;
  double c[4][3] = {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}};
  if (dims == 2)
    c[3][0] = c[3][1] = 4;
  for (int i = 0; i < 4; ++i) {
    std::vector<double> q;
    for (int d = 0; d < dims; ++d)
      q.push_back(c[i][d] + (i == moved && d == 0 ? sym::real("x", -1, 1) * 0.25 : 0.0));
    x.push_back(q);
  }
  return x;
}
void near0_(int count)
{
  R.p.m.x  = square(R.p.dims, -1);
  R.p.near = {3, 1};
  if (count == 3)
    R.p.near.push_back(2);
  for (int i : R.p.near)
    R.p.y.push_back(R.p.m.x[i]);
}
void meshes(std::vector<int> near, bool moved = true)
{
  R.p.m.x = square(R.p.dims);
  R.p.near = near;
  for (int i : near) {
    auto q = square(R.p.dims, 2)[i];
    R.p.y.push_back(q);
  }
}
} // namespace
