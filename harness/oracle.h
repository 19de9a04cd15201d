// Snapshot of a mesh through its public interface plus the independent
// oracles that judge it.  Nothing in here uses the geometry code of the
// library under test.
#pragma once
#include "TQMesh.h"
#include "spec.h"
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>

namespace vf {

using P2 = std::array<double,2>;

struct Elem {
  std::vector<int> v;        // vertex ids in order
  int color = 0;
  int idx = -1;              // reported index
  std::vector<int> nbr;      // neighbor per side i (v[i],v[i+1]): element id, -1 none, -2 unknown facet
};
struct EdgeR { int a, b, color; int fl, fr; bool twin; };

struct View {
  std::vector<P2> v;
  std::vector<unsigned> vprop;    // bit0 front, 1 quadlayer, 2 fixed, 3 boundary
  std::vector<unsigned> vidx;
  std::vector<Elem> e;            // quads first, then triangles
  size_t nq = 0, nt = 0;
  std::vector<EdgeR> ie, be;
  double area = 0;
  size_t n_front = 0;
  bool bad_ref = false; std::string bad;
  std::vector<std::vector<int>> vfac;                   // elements reported by each vertex
  std::vector<std::vector<std::pair<int,int>>> vedg;    // edges reported by each vertex
};

inline View snap(TQMesh::Mesh& m)
{
  using namespace TQMesh;
  View w;
  std::unordered_map<const Vertex*, int> vid;
  std::unordered_map<const Facet*, int> fid;
  for (auto& p : m.vertices()) {
    vid[p.get()] = (int)w.v.size();
    w.v.push_back({p->xy().x, p->xy().y});
    w.vprop.push_back((p->on_front()?1u:0u)|(p->in_quad_layer()?2u:0u)|(p->is_fixed()?4u:0u)|(p->on_boundary()?8u:0u));
    w.vidx.push_back(p->index());
  }
  auto getv = [&](const Vertex& x) {
    auto it = vid.find(&x);
    if (it == vid.end()) { w.bad_ref = true; w.bad = "reference to a vertex that is not in the mesh"; return -1; }
    return it->second;
  };
  for (auto& q : m.quads()) {
    Elem e; e.color = q->color(); e.idx = q->index();
    for (int i = 0; i < 4; ++i) e.v.push_back(getv(q->vertex(i)));
    fid[q.get()] = (int)w.e.size();
    w.e.push_back(e); ++w.nq;
  }
  for (auto& t : m.triangles()) {
    Elem e; e.color = t->color(); e.idx = t->index();
    for (int i = 0; i < 3; ++i) e.v.push_back(getv(t->vertex(i)));
    fid[t.get()] = (int)w.e.size();
    w.e.push_back(e); ++w.nt;
  }
  auto getf = [&](Facet* f) {
    if (!f || NullFacet::is_null(f)) return -1;
    auto it = fid.find(f);
    return it == fid.end() ? -2 : it->second;
  };
  { // neighbors, stored per side (v[i],v[i+1])
    size_t k = 0;
    auto fill = [&](auto& f, int n) {
      Elem& e = w.e[k++];
      e.nbr.resize(n);
      for (int i = 0; i < n; ++i) {
        int s = f.get_edge_index(f.vertex(i), f.vertex((i+1)%n));
        e.nbr[i] = (s < 0) ? -3 : getf(const_cast<Facet*>(f.neighbor(s)));
      }
    };
    for (auto& q : m.quads()) fill(*q, 4);
    for (auto& t : m.triangles()) fill(*t, 3);
  }
  for (auto& e : m.interior_edges())
    w.ie.push_back({getv(e->v1()), getv(e->v2()), e->color(), getf(e->facet_l()), getf(e->facet_r()), e->twin_edge()!=nullptr});
  for (auto& e : m.boundary_edges())
    w.be.push_back({getv(e->v1()), getv(e->v2()), e->color(), getf(e->facet_l()), getf(e->facet_r()), e->twin_edge()!=nullptr});
  for (auto& p : m.vertices()) {
    std::vector<int> f; std::vector<std::pair<int,int>> g;
    for (auto* x : p->facets()) f.push_back(getf(const_cast<Facet*>(x)));
    for (auto* x : p->edges()) {
      auto a = vid.find(&x->v1()), b = vid.find(&x->v2());
      int i = a == vid.end() ? -1 : a->second, j = b == vid.end() ? -1 : b->second;
      g.push_back({std::min(i,j), std::max(i,j)});
    }
    std::sort(f.begin(), f.end()); std::sort(g.begin(), g.end());
    w.vfac.push_back(f); w.vedg.push_back(g);
  }
  w.area = m.area();
  w.n_front = m.get_front_edges().size();
  return w;
}

// Snapshot of the published state (indices + connectivity brought up to date
// the way every exporter / checker of the library does).
inline View snap_pub(TQMesh::Mesh& m)
{
  TQMesh::MeshCleanup::assign_mesh_indices(m);
  TQMesh::MeshCleanup::setup_facet_connectivity(m);
  return snap(m);
}

inline double elem_area(const View& w, const Elem& e)
{
  double a = 0; size_t n = e.v.size();
  for (size_t i = 0; i < n; ++i) {
    auto& p = w.v[e.v[i]]; auto& q = w.v[e.v[(i+1)%n]];
    a += p[0]*q[1] - q[0]*p[1];
  }
  return 0.5*a;
}
inline double cross3(const P2& a, const P2& b, const P2& c)
{ return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }

inline uint64_t hash_view(const View& w)
{
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](uint64_t x){ h ^= x; h *= 1099511628211ull; h ^= h >> 29; };
  auto d = [&](double x){ long long q = llround(x * 1e7); mix((uint64_t)q); };
  for (auto& p : w.v) { d(p[0]); d(p[1]); }
  for (auto& e : w.e) { mix(e.v.size()); for (int i : e.v) mix(i); mix(e.color); }
  for (auto& e : w.ie) { mix(e.a); mix(e.b); }
  for (auto& e : w.be) { mix(e.a); mix(e.b); mix(e.color); }
  return h;
}

using Err = std::string;   // empty: fine
inline std::string S(double x){ char b[40]; snprintf(b,40,"%.10g",x); return b; }
inline std::string S(const P2& p){ return "("+S(p[0])+","+S(p[1])+")"; }

// --- element shape: counter-clockwise, positive area, simple ---------------
inline Err check_elements(const View& w, double diam)
{
  if (w.bad_ref) return w.bad;
  const double tol = 1e-14 * diam * diam;
  for (auto& e : w.e) {
    std::set<int> s(e.v.begin(), e.v.end());
    if (s.size() != e.v.size() || s.count(-1)) return "element with repeated or unknown vertex";
    double a = elem_area(w, e);
    if (!(a > tol)) {
      std::string t; for (int i : e.v) t += S(w.v[i]);
      return "element without positive counter-clockwise area: " + t;
    }
    if (e.v.size() == 4) {
      // a simple quad has at most one reflex corner
      int neg = 0;
      for (int i = 0; i < 4; ++i)
        if (cross3(w.v[e.v[(i+3)%4]], w.v[e.v[i]], w.v[e.v[(i+1)%4]]) < -tol) ++neg;
      if (neg > 1) {
        std::string t; for (int i : e.v) t += S(w.v[i]);
        return "self-crossing quad " + t;
      }
    }
  }
  return "";
}

inline int reflex_quads(const View& w)
{
  int n = 0;
  for (auto& e : w.e) if (e.v.size()==4) for (int i = 0; i < 4; ++i)
    if (cross3(w.v[e.v[(i+3)%4]], w.v[e.v[i]], w.v[e.v[(i+1)%4]]) <= 0) { ++n; break; }
  return n;
}

inline double total_area(const View& w)
{ double a = 0; for (auto& e : w.e) a += elem_area(w, e); return a; }

// --- conformity: every element side is matched exactly by one edge ----------
// complete=true additionally demands that there are no open sides.
inline Err check_conformity(const View& w, bool complete)
{
  if (w.bad_ref) return w.bad;
  std::map<std::pair<int,int>, int> side;     // directed side -> element
  for (size_t k = 0; k < w.e.size(); ++k) {
    auto& e = w.e[k]; int n = (int)e.v.size();
    for (int i = 0; i < n; ++i) {
      auto r = side.insert({{e.v[i], e.v[(i+1)%n]}, (int)k});
      if (!r.second) return "two elements lie on the same side of an edge (overlap) " + S(w.v[e.v[i]]) + S(w.v[e.v[(i+1)%n]]);
    }
  }
  std::set<std::pair<int,int>> ie, be;
  for (auto& x : w.ie) {
    if (x.a == x.b) return "degenerate interior edge";
    if (!ie.insert({std::min(x.a,x.b), std::max(x.a,x.b)}).second) return "duplicate interior edge " + S(w.v[x.a]) + S(w.v[x.b]);
  }
  for (auto& x : w.be) {
    if (x.a == x.b) return "degenerate boundary edge";
    if (!be.insert({x.a, x.b}).second) return "duplicate boundary edge " + S(w.v[x.a]) + S(w.v[x.b]);
    if (ie.count({std::min(x.a,x.b), std::max(x.a,x.b)})) return "edge is both interior and boundary " + S(w.v[x.a]) + S(w.v[x.b]);
  }
  for (auto& s : side) {
    int a = s.first.first, b = s.first.second;
    bool two = side.count({b,a}) > 0;
    bool in = ie.count({std::min(a,b), std::max(a,b)}) > 0;
    bool bd = be.count({a,b}) > 0;
    if (two && !in) return "side shared by two elements has no interior edge " + S(w.v[a]) + S(w.v[b]);
    if (!two && complete && !bd) return "open element side that is not a boundary edge " + S(w.v[a]) + S(w.v[b]);
    if (!two && !bd && !in) return "element side without any edge " + S(w.v[a]) + S(w.v[b]);
  }
  if (complete) {
    for (auto& x : w.ie)
      if (!side.count({x.a,x.b}) || !side.count({x.b,x.a})) return "interior edge without two elements " + S(w.v[x.a]) + S(w.v[x.b]);
    for (auto& x : w.be)
      if (!side.count({x.a,x.b})) return "boundary edge without element on its left " + S(w.v[x.a]) + S(w.v[x.b]);
  }
  return "";
}

// --- facet / neighbor tables (of a snap_pub view) ----------------------------
inline Err check_tables(const View& w)
{
  if (w.bad_ref) return w.bad;
  std::map<std::pair<int,int>, int> side;
  for (size_t k = 0; k < w.e.size(); ++k) {
    auto& e = w.e[k]; int n = (int)e.v.size();
    for (int i = 0; i < n; ++i) side[{e.v[i], e.v[(i+1)%n]}] = (int)k;
  }
  auto at = [&](int a, int b){ auto it = side.find({a,b}); return it == side.end() ? -1 : it->second; };
  for (size_t i = 0; i < w.v.size(); ++i) if (w.vidx[i] != i) return "vertex index out of step";
  for (size_t k = 0; k < w.e.size(); ++k) {
    auto& e = w.e[k]; int n = (int)e.v.size();
    if (e.idx != (int)k) return "element index out of step";
    for (int i = 0; i < n; ++i) {
      int want = at(e.v[(i+1)%n], e.v[i]);
      if (e.nbr[i] != want) return "neighbor of element side " + S(w.v[e.v[i]]) + S(w.v[e.v[(i+1)%n]]) + " is " + std::to_string(e.nbr[i]) + " instead of " + std::to_string(want);
    }
  }
  for (auto& x : w.ie) {
    if (x.fl != at(x.a,x.b)) return "left element of interior edge wrong " + S(w.v[x.a]) + S(w.v[x.b]);
    if (x.fr != at(x.b,x.a)) return "right element of interior edge wrong " + S(w.v[x.a]) + S(w.v[x.b]);
  }
  for (auto& x : w.be)
    if (x.fl != at(x.a,x.b)) return "left element of boundary edge wrong " + S(w.v[x.a]) + S(w.v[x.b]);
  return "";
}

// --- the lists of adjacent elements / edges every vertex reports ---------------
inline Err check_vertex_lists(const View& w)
{
  if (w.bad_ref) return w.bad;
  std::vector<std::vector<int>> f(w.v.size());
  std::vector<std::vector<std::pair<int,int>>> g(w.v.size());
  for (size_t k = 0; k < w.e.size(); ++k) for (int i : w.e[k].v) f[i].push_back((int)k);
  auto ed = [&](const EdgeR& x) {
    std::pair<int,int> p{std::min(x.a,x.b), std::max(x.a,x.b)};
    g[x.a].push_back(p); g[x.b].push_back(p);
  };
  for (auto& x : w.ie) ed(x);
  for (auto& x : w.be) ed(x);
  for (size_t i = 0; i < w.v.size(); ++i) {
    std::sort(f[i].begin(), f[i].end()); std::sort(g[i].begin(), g[i].end());
    if (f[i] != w.vfac[i]) return "list of elements around vertex " + S(w.v[i]) + " is wrong";
    if (g[i] != w.vedg[i]) return "list of edges around vertex " + S(w.v[i]) + " is wrong";
  }
  return "";
}

// --- cached measures and spatial search ---------------------------------------
inline Err check_metrics(TQMesh::Mesh& m, double diam)
{
  using namespace TQMesh; using CppUtils::Vec2d;
  const double tl = 1e-9*diam, ta = 1e-9*diam*diam;
  auto P = [](const Vec2d& p){ return S(P2{p.x,p.y}); };
  auto near = [&](const Vec2d& a, double x, double y){ return std::fabs(a.x-x) <= tl && std::fabs(a.y-y) <= tl; };
  auto facets = [&](auto& c, int n) -> Err {
    for (auto& f : c) {
      double a = 0, cx = 0, cy = 0, lo = 1e300, hi = 0, amin = 1e300, amax = 0;
      for (int i = 0; i < n; ++i) {
        const Vec2d &o = f->vertex((i+n-1)%n).xy(), &p = f->vertex(i).xy(), &q = f->vertex((i+1)%n).xy();
        a += 0.5*(p.x*q.y-q.x*p.y); cx += p.x/n; cy += p.y/n;
        double l = std::hypot(q.x-p.x,q.y-p.y); lo = std::min(lo,l); hi = std::max(hi,l);
        double g = std::acos(std::max(-1.0,std::min(1.0,((o.x-p.x)*(q.x-p.x)+(o.y-p.y)*(q.y-p.y))/(l*std::hypot(o.x-p.x,o.y-p.y)))));
        amin = std::min(amin,g); amax = std::max(amax,g);
      }
      std::string w = "element at (" + S(cx) + "," + S(cy) + ")";
      if (std::fabs(std::fabs(f->area())-std::fabs(a)) > ta) return "stored area of " + w + " is " + S(f->area()) + " instead of " + S(a);
      if (!near(f->xy(),cx,cy)) return "stored centre of " + w + " is " + P(f->xy());
      if (std::fabs(f->min_edge_length()-lo) > tl || std::fabs(f->max_edge_length()-hi) > tl) return "stored edge lengths of " + w + " are out of date";
      if (std::fabs(f->min_angle()-amin) > 1e-6 || std::fabs(f->max_angle()-amax) > 1e-6) return "stored angles of " + w + " are out of date";
      auto r = c.get_items(Vec2d{cx-tl,cy-tl}, Vec2d{cx+tl,cy+tl});
      if (std::count(r.begin(), r.end(), f.get()) != 1) return w + " is not found at its position";
    }
    return "";
  };
  Err e;
  if (!(e = facets(m.quads(),4)).empty()) return e;
  if (!(e = facets(m.triangles(),3)).empty()) return e;
  for (auto* L : {&m.interior_edges(), &m.boundary_edges()}) for (auto& x : *L) {
    const Vec2d &a = x->v1().xy(), &b = x->v2().xy(); double l = std::hypot(b.x-a.x,b.y-a.y);
    if (std::fabs(x->length()-l) > tl) return "stored length of edge " + P(a) + P(b) + " is " + S(x->length());
    if (!near(x->xy(),0.5*(a.x+b.x),0.5*(a.y+b.y))) return "stored mid point of edge " + P(a) + P(b) + " is " + P(x->xy());
    if (std::fabs(x->tangent().x*l-(b.x-a.x)) > tl || std::fabs(x->tangent().y*l-(b.y-a.y)) > tl ||
        std::fabs(x->normal().x*l+(b.y-a.y)) > tl || std::fabs(x->normal().y*l-(b.x-a.x)) > tl) return "stored direction of edge " + P(a) + P(b) + " is out of date";
    auto r = L->get_edges(x->xy(), tl);
    if (std::count(r.begin(), r.end(), x.get()) != 1) return "edge " + P(a) + P(b) + " is not found at its position";
  }
  for (auto& v : m.vertices()) {
    Vec2d p = v->xy(); auto r = m.vertices().get_items(Vec2d{p.x-tl,p.y-tl}, Vec2d{p.x+tl,p.y+tl});
    if (std::count(r.begin(), r.end(), v.get()) != 1) return "vertex " + P(p) + " is not found at its position";
  }
  return "";
}

// --- vertices: used, distinct ------------------------------------------------
inline Err check_vertices(const View& w, double diam)
{
  std::vector<char> used(w.v.size(), 0);
  for (auto& e : w.e) for (int i : e.v) used[i] = 1;
  for (size_t i = 0; i < used.size(); ++i) if (!used[i]) return "vertex without element " + S(w.v[i]);
  std::vector<int> o(w.v.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = (int)i;
  std::sort(o.begin(), o.end(), [&](int a, int b){ return w.v[a] < w.v[b]; });
  const double tol = 1e-11 * diam;
  for (size_t i = 0; i < o.size(); ++i)
    for (size_t j = i+1; j < o.size() && w.v[o[j]][0]-w.v[o[i]][0] <= tol; ++j)
      if (std::fabs(w.v[o[j]][1]-w.v[o[i]][1]) <= tol) return "two vertices at the same position " + S(w.v[o[i]]);
  return "";
}

inline double seg_dist(const Seg& s, const P2& p, double& t)
{
  double dx = s.bx-s.ax, dy = s.by-s.ay, l = std::hypot(dx,dy);
  t = ((p[0]-s.ax)*dx + (p[1]-s.ay)*dy) / (l*l);
  return std::fabs((p[0]-s.ax)*dy - (p[1]-s.ay)*dx) / l;
}

// --- boundary edges subdivide the domain boundary with its markers -----------
struct BSeg { P2 a, b; int c; };
inline Err check_boundary_segs(const std::vector<BSeg>& be, const std::vector<Seg>& segs, double diam, bool colors = true)
{
  const double tol = 1e-9 * diam;
  std::vector<std::vector<std::pair<double,double>>> cov(segs.size());
  for (auto& x : be) {
    int hit = -1;
    for (size_t k = 0; k < segs.size(); ++k) {
      double ta, tb;
      double l = std::hypot(segs[k].bx-segs[k].ax, segs[k].by-segs[k].ay);
      if (seg_dist(segs[k], x.a, ta) > tol || seg_dist(segs[k], x.b, tb) > tol) continue;
      if (ta < -tol/l || tb > 1+tol/l || tb <= ta) continue;
      if (hit >= 0) continue;
      hit = (int)k;
      if (colors && segs[k].c != x.c)
        return "boundary edge " + S(x.a) + S(x.b) + " has marker " + std::to_string(x.c) + " instead of " + std::to_string(segs[k].c);
      cov[k].push_back({ta, tb});
    }
    if (hit < 0) return "boundary edge " + S(x.a) + S(x.b) + " does not lie on the domain boundary (with the domain on its left)";
  }
  for (size_t k = 0; k < segs.size(); ++k) {
    std::sort(cov[k].begin(), cov[k].end());
    double l = std::hypot(segs[k].bx-segs[k].ax, segs[k].by-segs[k].ay);
    double at = 0;
    for (auto& c : cov[k]) {
      if (std::fabs(c.first - at) * l > tol) return "gap or overlap in the boundary edges along segment (" + S(segs[k].ax) + "," + S(segs[k].ay) + ")-(" + S(segs[k].bx) + "," + S(segs[k].by) + ")";
      at = c.second;
    }
    if (std::fabs(1 - at) * l > tol) return "boundary segment (" + S(segs[k].ax) + "," + S(segs[k].ay) + ")-(" + S(segs[k].bx) + "," + S(segs[k].by) + ") not covered";
  }
  return "";
}

inline std::vector<Seg> dom_segments(const DomSpec& d)
{ std::vector<Seg> s; for (auto& l : d.loops) for (auto& x : loop_segments(l)) s.push_back(x); return s; }

// the same boundary with runs of collinear, equally marked segments joined: a
// quad layer may move a straight corner along its side
inline std::vector<Seg> joined_segments(const DomSpec& d)
{
  std::vector<Seg> out; const double tol = 1e-9 * dom_diam(d);
  for (auto& l : d.loops) {
    auto s = loop_segments(l);
    if (s.size() > 1 && (s[0].bx != s[1].ax || s[0].by != s[1].ay)) std::reverse(s.begin(), s.end());
    auto straight = [&](const Seg& a, const Seg& b) { double t; return a.c == b.c && a.bx == b.ax && a.by == b.ay && seg_dist(a, {b.bx,b.by}, t) <= tol && t > 1; };
    size_t n = s.size(), st = 0; for (size_t i = 0; i < n; ++i) if (!straight(s[(i+n-1)%n], s[i])) { st = i; break; }
    std::vector<Seg> q;
    for (size_t i = 0; i < n; ++i) { const Seg& x = s[(st+i)%n];
      if (!q.empty() && straight(q.back(), x)) { q.back().bx = x.bx; q.back().by = x.by; } else q.push_back(x); }
    for (auto& x : q) out.push_back(x);
  }
  return out;
}

inline Err check_boundary(const View& w, const DomSpec& d, bool colors = true, bool join = false)
{
  if (w.bad_ref) return w.bad;
  std::vector<BSeg> be;
  for (auto& x : w.be) be.push_back({w.v[x.a], w.v[x.b], x.color});
  return check_boundary_segs(be, join ? joined_segments(d) : dom_segments(d), dom_diam(d), colors);
}

// --- fixed vertices / edges --------------------------------------------------
inline int find_vertex(const View& w, double x, double y, double tol)
{ for (size_t i = 0; i < w.v.size(); ++i) if (std::fabs(w.v[i][0]-x) <= tol && std::fabs(w.v[i][1]-y) <= tol) return (int)i; return -1; }

inline P2 fix_point(const DomSpec& d, char k, int i)
{
  if (k == 'f') return {d.fv[i].x, d.fv[i].y};
  for (auto& l : d.loops) { if (i < (int)l.pts.size()) return {l.pts[i].x, l.pts[i].y}; i -= (int)l.pts.size(); }
  throw std::runtime_error("bad fixed edge reference");
}

inline Err check_fixed(const View& w, const DomSpec& d, bool need_elem = true)
{
  const double tol = 1e-9 * dom_diam(d);
  std::vector<char> used(w.v.size(), 0);
  for (auto& e : w.e) for (int i : e.v) used[i] = 1;
  for (auto& f : d.fv) {
    int i = find_vertex(w, f.x, f.y, tol);
    if (i < 0) return "fixed vertex (" + S(f.x) + "," + S(f.y) + ") is not a mesh vertex";
    if (need_elem && !used[i]) return "fixed vertex (" + S(f.x) + "," + S(f.y) + ") is not connected to any element";
  }
  for (auto& f : d.fe) {
    P2 a = fix_point(d, f.ka, f.a), b = fix_point(d, f.kb, f.b);
    Seg s{a[0],a[1],b[0],b[1],0};
    double l = std::hypot(b[0]-a[0], b[1]-a[1]);
    std::set<std::pair<double,double>> iv;
    std::set<std::pair<int,int>> seen;
    auto add = [&](int p, int q) {
      if (p > q) std::swap(p,q);
      if (!seen.insert({p,q}).second) return;
      double t1, t2;
      if (seg_dist(s, w.v[p], t1) > tol || seg_dist(s, w.v[q], t2) > tol) return;
      if (t1 > t2) std::swap(t1,t2);
      if (t1 < -tol/l || t2 > 1+tol/l) return;
      iv.insert({t1,t2});
    };
    for (auto& e : w.e) { int n = (int)e.v.size(); for (int i = 0; i < n; ++i) add(e.v[i], e.v[(i+1)%n]); }
    double at = 0;
    for (auto& x : iv) { if (std::fabs(x.first-at)*l > tol) break; at = x.second; }
    if (std::fabs(1-at)*l > tol) return "fixed edge " + S(a) + S(b) + " is not made of element edges";
  }
  return "";
}

// all of it for a finished mesh
inline Err check_complete(const View& w, const DomSpec& d)
{
  double diam = dom_diam(d);
  Err e;
  if (!(e = check_elements(w, diam)).empty()) return e;
  if (!(e = check_conformity(w, true)).empty()) return e;
  if (!(e = check_vertices(w, diam)).empty()) return e;
  double a = total_area(w), A = dom_area(d);
  if (std::fabs(a-A) > 1e-9*std::max(A, diam*diam)) return "element area " + S(a) + " differs from the domain area " + S(A);
  return "";
}

} // namespace vf
