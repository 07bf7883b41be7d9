// Reference: closest point of a mesh and the piecewise linear interpolant there.
#pragma once
#include "map.hpp"

namespace geo {
using maps::dist2;
typedef std::vector<double> V;
inline V     sub(const V &a, const V &b) { V r; for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] - b[i]); return r; }
inline double dot(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
struct Hit {
  std::vector<int>    ids;
  std::vector<double> w;
  V                   p;
  double              d2;
};
inline Hit combine(const maps::Mesh &m, std::vector<int> ids, std::vector<double> w, const V &q)
{
  V p(q.size(), 0.0);
  for (size_t i = 0; i < ids.size(); ++i)
    for (size_t k = 0; k < q.size(); ++k)
      p[k] += w[i] * m.x[ids[i]][k];
  return {ids, w, p, dist2(p, q)};
}
// is the orthogonal projection of q inside the edge / triangle?  (edge vectors of the meshes used here are concrete)
inline bool edge(const maps::Mesh &m, int a, int b, const V &q, Hit &h)
{
  V      e = sub(m.x[b], m.x[a]);
  double t = dot(sub(q, m.x[a]), e) / dot(e, e);
  if (!((t >= 0) & (t <= 1)))
    return false;
  h = combine(m, {a, b}, {1 - t, t}, q);
  return true;
}
inline bool triangle(const maps::Mesh &m, int a, int b, int c, const V &q, Hit &h)
{
  V      e = sub(m.x[b], m.x[a]), f = sub(m.x[c], m.x[a]), r = sub(q, m.x[a]);
  double ee = dot(e, e), ff = dot(f, f), ef = dot(e, f), D = ee * ff - ef * ef, re = dot(r, e), rf = dot(r, f);
  double u = (ff * re - ef * rf) / D, v = (ee * rf - ef * re) / D;
  if (!((u >= 0) & (v >= 0) & (u + v <= 1)))
    return false;
  h = combine(m, {a, b, c}, {1 - u - v, u, v}, q);
  return true;
}
inline double det3(const V &a, const V &b, const V &c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
inline bool   tet(const maps::Mesh &m, int a, int b, int c, int d, const V &q, Hit &h)
{
  V      e = sub(m.x[b], m.x[a]), f = sub(m.x[c], m.x[a]), g = sub(m.x[d], m.x[a]), r = sub(q, m.x[a]);
  double D = det3(e, f, g), u = det3(r, f, g) / D, v = det3(e, r, g) / D, w = det3(e, f, r) / D;
  if (!((u >= 0) & (v >= 0) & (w >= 0) & (u + v + w <= 1)))
    return false;
  h = combine(m, {a, b, c, d}, {1 - u - v - w, u, v, w}, q);
  return true;
}
inline std::vector<std::array<int, 2>> allEdges(const maps::Mesh &m)
{
  auto es  = m.edges;
  auto add = [&](int a, int b) {
    for (auto &e : es)
      if ((e[0] == a && e[1] == b) || (e[0] == b && e[1] == a))
        return;
    es.push_back({a, b});
  };
  for (auto &t : m.triangles) {
    add(t[0], t[1]);
    add(t[1], t[2]);
    add(t[2], t[0]);
  }
  for (auto &t : m.tets)
    for (int i = 0; i < 4; ++i)
      for (int j = i + 1; j < 4; ++j)
        add(t[i], t[j]);
  return es;
}
inline std::vector<std::array<int, 3>> allTriangles(const maps::Mesh &m)
{
  auto ts = m.triangles;
  for (auto &t : m.tets)
    for (int i = 0; i < 4; ++i)
      ts.push_back({t[i], t[(i + 1) % 4], t[(i + 2) % 4]});
  return ts;
}
// the point of the mesh closest to q (surface elements only); ends the path near ties between different points
inline Hit closest(const maps::Mesh &m, const V &q, bool surface)
{
  std::vector<Hit> c;
  for (size_t i = 0; i < m.x.size(); ++i)
    c.push_back(combine(m, {(int) i}, {1.0}, q));
  Hit h;
  for (auto &e : allEdges(m))
    if (edge(m, e[0], e[1], q, h))
      c.push_back(h);
  if (surface)
    for (auto &t : allTriangles(m))
      if (triangle(m, t[0], t[1], t[2], q, h))
        c.push_back(h);
  size_t best = 0;
  for (size_t i = 1; i < c.size(); ++i)
    if (c[i].d2 < c[best].d2)
      best = i;
  bool clear = true;
  for (size_t i = 0; i < c.size(); ++i)
    if (i != best)
      clear = clear & ((dist2(c[i].p, c[best].p) < 1e-4) | (c[i].d2 > c[best].d2 + 1e-6));
  sym::assume(clear);
  return c[best];
}
} // namespace geo
