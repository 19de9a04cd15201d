// Exhaustive exploration of meshing histories on the real implementation.
//
// A case is a tuple of domains plus, for every step of the history, the set of
// alternative operations.  Every path through the resulting tree is executed
// (each branching point is a fork of the live process) and after every single
// transition the property's judge compares the observable mesh with an
// independent oracle.
#include "session.h"
#include "export.h"
#include "explore.h"
#include "families.h"
#include <iostream>
#include <cassert>
using namespace vf;

struct Case {
  std::vector<DomSpec> d;
  std::vector<std::vector<std::string>> lv;   // alternatives per step
  bool must = true;                           // generation has to complete
};
static std::string txt(const std::vector<DomSpec>& d)
{ std::string s; for (auto& x : d) s += (s.empty() ? "" : " | ") + to_text(x); return s; }

struct St {
  Session* s; const Case* c; std::string hist; std::string kase;
  std::vector<char> full;        // mesh k: an unlimited generation succeeded
  std::vector<char> started;     // mesh k exists
  std::vector<char> merged;      // mesh k holds merged parts
  View pre; bool has_pre = false;
};
static void V(const St& t, const std::string& m) { report(t.kase, (t.c->must ? "" : "?") + t.hist, m); }

// a check that brings indices/connectivity up to date runs on a forked copy, so
// that it cannot repair the state the following operations start from
static void aside(const St& t, bool leaf, const std::function<void()>& f)
{
  if (leaf) { f(); return; }
  std::string r = in_child(f);
  if (!r.empty()) V(t, r + " while inspecting the mesh");
}

static std::map<int,double> color_area(const View& w)
{ std::map<int,double> m; for (auto& e : w.e) m[e.color] += elem_area(w,e); return m; }
static Err same_color_area(const View& a, const View& b, double scale)
{
  auto x = color_area(a), y = color_area(b);
  for (auto& p : x) { double q = y.count(p.first) ? y[p.first] : 0;
    if (std::fabs(p.second-q) > 1e-9*scale) return "area of the elements with color " + std::to_string(p.first) + " changed from " + S(p.second) + " to " + S(q); }
  for (auto& p : y) if (!x.count(p.first)) return "elements with the new color " + std::to_string(p.first) + " appeared";
  return "";
}
using BK = std::array<double,5>;
static std::multiset<BK> bkeys(const View& w)
{ std::multiset<BK> s; for (auto& x : w.be) s.insert({w.v[x.a][0],w.v[x.a][1],w.v[x.b][0],w.v[x.b][1],(double)x.color}); return s; }
static double smax(const St& t) { double d = 0; for (auto& x : t.c->d) d = std::max(d, dom_diam(x)); return d; }

static std::set<P2> fixed_positions(const View& w) { std::set<P2> s; for (size_t i=0;i<w.v.size();++i) if (w.vprop[i]&4u) s.insert(w.v[i]); return s; }
static Err check_fixed_points(const View& w, const DomSpec& d, bool need)
{
  DomSpec q = d;
  for (auto& f : d.fe) { if (f.ka=='f'&&f.kb=='f') continue; }
  q.fe.clear();
  Err e = check_fixed(w, q, need); if (!e.empty()) return e;
  const double tol = 1e-9*dom_diam(d);
  for (auto& f : d.fe) for (int k=0;k<2;++k) {
    P2 p = k ? fix_point(d,f.kb,f.b) : fix_point(d,f.ka,f.a);
    if (find_vertex(w,p[0],p[1],tol) < 0) return "end point of fixed edge " + S(p) + " is not a mesh vertex";
  }
  return "";
}

static bool layered(const St& t) { return t.hist.find("L:") != std::string::npos; }
// nothing else of the outline near the middle of side s
static bool clear_side(const DomSpec& d, const Seg& s, double dist)
{
  for (auto& x : dom_segments(d)) for (int i = 0; i <= 16; ++i) {
    double u = i/16.0, t; P2 p{x.ax+u*(x.bx-x.ax), x.ay+u*(x.by-x.ay)};
    double q = seg_dist(s, p, t); if (t > 0.05 && t < 0.95 && q < dist && !(x.ax==s.ax && x.ay==s.ay && x.bx==s.bx && x.by==s.by)) return false;
  }
  return true;
}

static bool is_gen(const std::string& o) { return o[0]=='T' || o[0]=='X'; }

// ---------------------------------------------------------------- the judge
static void judge(St& t, const std::string& op, int k, bool ret, bool leaf)
{
  Session& s = *t.s; const std::string& P = cfg().prop;
  const DomSpec& d = t.c->d[k];
  const double diam = smax(t);
  bool unlimited = (op == "T" || op == "X" || op.rfind("T:0",0) == 0 || op.rfind("X:0",0) == 0);
  View w = snap(*s.mesh[k]);
  seen_state(hash_view(w) * 31 + std::hash<std::string>{}(op) % 1000003);
  if (!w.e.empty()) ++sh()->nontrivial;
  ++sh()->evals;
  Err e;
  bool single = !t.merged[k];
  if (unlimited) t.full[k] = t.full[k] || ret || (single && check_complete(w,d).empty());

  if (P == "C01" || P == "C24") {
    if (unlimited && t.c->must && !ret) V(t, "generation of a valid domain failed");
    if (!single) return;
    if (unlimited && ret && !(e = check_complete(w, d)).empty()) V(t, e);
    else if (t.full[k] && !(e = check_complete(w, d)).empty()) V(t, "after " + op + ": " + e);
    if (!(e = check_elements(w, diam)).empty()) V(t, e);
    if (total_area(w) > dom_area(d)*(1+1e-9)) V(t, "elements cover more than the domain");
    if (!(e = check_conformity(w, false)).empty()) V(t, e);
  }
  if (P == "C02") {
    aside(t, leaf, [&]{
      View q = snap_pub(*s.mesh[k]); Err e;
      if (!(e = check_tables(q)).empty()) V(t, e);
      if (!(e = check_vertex_lists(q)).empty()) V(t, e);
      if (!(e = check_metrics(*s.mesh[k], diam)).empty()) V(t, e);
      if (!(e = check_conformity(q, t.full[k])).empty()) V(t, e);
      if (q.be.size() != s.mesh[k]->n_boundary_edges() || q.ie.size() != s.mesh[k]->n_interior_edges() ||
          q.nq != s.mesh[k]->n_quads() || q.nt != s.mesh[k]->n_triangles() || q.v.size() != s.mesh[k]->n_vertices() ||
          q.nq + q.nt != s.mesh[k]->n_elements()) V(t, "reported entity counts differ from the stored entities");
    });
  }
  if (P == "C03" && single) {
    if (!(e = check_boundary(w, d, true, layered(t))).empty()) V(t, e);
    for (auto& x : w.be) if (x.a >= 0 && !((w.vprop[x.a] & w.vprop[x.b]) & 8u)) { V(t, "boundary vertex is not flagged as such"); break; }
    std::vector<char> ob(w.v.size(),0); for (auto& x : w.be) ob[x.a]=ob[x.b]=1;
    for (size_t i=0;i<w.v.size();++i) if ((w.vprop[i]&8u) && !ob[i]) { V(t, "interior vertex "+S(w.v[i])+" is flagged as boundary vertex"); break; }
  }
  if (P == "C04") {
    if (single && !(e = check_fixed_points(w, d, t.full[k])).empty()) V(t, e);
    if (unlimited && t.c->must && !ret) V(t, "generation with fixed vertices failed");
    if (single && t.full[k] && !(e = check_complete(w, d)).empty()) V(t, e);
    if (!single && t.full[k]) for (auto& x : t.c->d) { if (!(e = check_fixed_points(w, x, true)).empty()) V(t, "merged mesh: " + e); }
    if (t.has_pre && op[0] != 'N') { // everything that was fixed stays
      auto a = fixed_positions(t.pre); std::set<P2> b(w.v.begin(), w.v.end());
      for (auto& p : a) if (!b.count(p)) { V(t, "fixed vertex " + S(p) + " was moved or removed by " + op); break; }
    }
  }
  if (P == "C05" && op[0] == 'S' && t.has_pre) {
    const View& o = t.pre;
    auto sa = split(op.substr(3), ',');
    bool ql = sa.size() > 1 && sa[1] != "0";
    bool zero = sa[0] == "0";
    if (w.v.size() != o.v.size() || w.e.size() != o.e.size() || w.ie.size() != o.ie.size() || w.be.size() != o.be.size()) { V(t, "smoothing changed the number of mesh entities"); return; }
    for (size_t i=0;i<w.e.size();++i) if (w.e[i].v != o.e[i].v || w.e[i].color != o.e[i].color) { V(t, "smoothing changed the connectivity"); break; }
    for (size_t i=0;i<w.be.size();++i) if (w.be[i].a != o.be[i].a || w.be[i].b != o.be[i].b || w.be[i].color != o.be[i].color) { V(t, "smoothing changed the boundary edges"); break; }
    std::vector<char> pin(w.v.size(),0);
    for (auto& x : o.be) pin[x.a]=pin[x.b]=1;
    size_t moved = 0;
    for (size_t i=0;i<w.v.size();++i) {
      bool mv = w.v[i] != o.v[i]; moved += mv;
      if (!mv) continue;
      if (pin[i]) { V(t, "boundary vertex " + S(o.v[i]) + " was moved"); break; }
      if (o.vprop[i] & 4u) { V(t, "fixed vertex " + S(o.v[i]) + " was moved"); break; }
      if ((o.vprop[i] & 2u) && !ql) { V(t, "quad layer vertex " + S(o.v[i]) + " was moved although quad layer smoothing is off"); break; }
      if (zero) { V(t, "vertex moved without any iteration"); break; }
      if ((o.vprop[i] & 2u) && ql) { // displacement must be parallel to the nearest boundary
        double best = 1e300, second = 1e300; P2 bp{0,0};
        for (auto& x : o.be) {
          P2 a=o.v[x.a], b=o.v[x.b]; double dx=b[0]-a[0], dy=b[1]-a[1];
          double u=((o.v[i][0]-a[0])*dx+(o.v[i][1]-a[1])*dy)/(dx*dx+dy*dy); u=std::min(1.0,std::max(0.0,u));
          P2 p{a[0]+u*dx,a[1]+u*dy}; double r=std::hypot(p[0]-o.v[i][0],p[1]-o.v[i][1]);
          if (std::hypot(p[0]-bp[0],p[1]-bp[1]) < 1e-9*diam && best < 1e299) { best=std::min(best,r); continue; }
          if (r < best) { second = best; best = r; bp = p; } else second = std::min(second, r);
        }
        if (second < best*1.05 + 1e-9*diam) continue;      // nearest boundary point is ambiguous
        P2 n{(bp[0]-o.v[i][0])/best,(bp[1]-o.v[i][1])/best};
        // only judge vertices whose nearest boundary edge is the same whether the distance
        // is measured to the edge or to its mid point
        double mmin = 1e300; bool agree = true;
        for (auto& x : o.be) mmin = std::min(mmin, std::hypot(0.5*(o.v[x.a][0]+o.v[x.b][0])-o.v[i][0], 0.5*(o.v[x.a][1]+o.v[x.b][1])-o.v[i][1]));
        for (auto& x : o.be) {
          P2 a=o.v[x.a], b=o.v[x.b];
          if (std::hypot(0.5*(a[0]+b[0])-o.v[i][0], 0.5*(a[1]+b[1])-o.v[i][1]) > mmin*1.05) continue;
          double dx=b[0]-a[0], dy=b[1]-a[1]; double u=((o.v[i][0]-a[0])*dx+(o.v[i][1]-a[1])*dy)/(dx*dx+dy*dy); u=std::min(1.0,std::max(0.0,u));
          if (std::hypot(a[0]+u*dx-bp[0], a[1]+u*dy-bp[1]) > 1e-9*diam) agree = false;
        }
        if (!agree) continue;
        double dn=(w.v[i][0]-o.v[i][0])*n[0]+(w.v[i][1]-o.v[i][1])*n[1];
        if (std::fabs(dn) > 1e-9*diam) { V(t, "quad layer vertex " + S(o.v[i]) + " changed its distance to the boundary by " + S(dn)); break; }
        ++sh()->stat[1];
      }
    }
    sh()->stat[0] += moved;
    if (!(e = check_elements(w, diam)).empty() && check_elements(o, diam).empty()) V(t, "smoothing broke the mesh: " + e);
    if (reflex_quads(w) && !reflex_quads(o)) V(t, "smoothing made a quad concave");
    if (std::fabs(total_area(w)-total_area(o)) > 1e-9*diam*diam && t.full[k]) V(t, "smoothing changed the covered area");
    if (!(e = same_color_area(o, w, t.full[k] && t.merged[k] ? diam*diam : 1e300)).empty()) V(t, e);
  }
  if (P == "C06" && op == "R" && t.has_pre) {
    const View& o = t.pre;
    bool twins = false; for (auto& x : o.be) twins |= x.twin;
    if (twins) {
      if (ret) V(t, "refinement of a mesh with connected neighbor reported success");
      if (hash_view(w) != hash_view(o)) V(t, "refused refinement changed the mesh");
      ++sh()->refused; return;
    }
    if (!ret) { V(t, "refinement failed"); return; }
    if (w.nt != 0 || w.nq != 4*o.nq + 3*o.nt) V(t, "refinement gives " + std::to_string(w.nq) + " quads and " + std::to_string(w.nt) + " triangles from " + std::to_string(o.nq) + " quads and " + std::to_string(o.nt) + " triangles");
    if (w.v.size() != o.v.size() + o.ie.size() + o.be.size() + o.e.size()) V(t, "wrong number of vertices after refinement");
    if (w.be.size() != 2*o.be.size()) V(t, "boundary edges are not doubled");
    if (w.ie.size() != 2*o.ie.size() + 4*o.nq + 3*o.nt) V(t, "wrong number of interior edges after refinement");
    if (!(e = check_elements(w, diam)).empty()) V(t, e);
    if (!(e = check_conformity(w, t.full[k])).empty()) V(t, e);
    if (t.full[k] && !(e = check_vertices(w, diam)).empty()) V(t, e);
    if (!(e = same_color_area(o, w, diam*diam)).empty()) V(t, e);
    if (!reflex_quads(o) && reflex_quads(w)) V(t, "refinement created a concave quad");
    { // children partition their parents: per parent, by colour and centroid location
      std::set<P2> nv(w.v.begin(), w.v.end());
      for (auto& p : o.v) if (!nv.count(p)) { V(t, "refinement moved vertex " + S(p)); break; }
      auto has = [&](P2 p){ auto it = nv.lower_bound({p[0]-1e-9*diam, -1e300});
        for (; it != nv.end() && (*it)[0] <= p[0]+1e-9*diam; ++it) if (std::fabs((*it)[1]-p[1]) <= 1e-9*diam) return true; return false; };
      for (auto* L : {&o.ie, &o.be}) for (auto& x : *L) if (!has({0.5*(o.v[x.a][0]+o.v[x.b][0]),0.5*(o.v[x.a][1]+o.v[x.b][1])})) { V(t, "edge is not split at its mid point"); break; }
      for (auto& x : o.e) { P2 c{0,0}; for (int i : x.v) { c[0] += o.v[i][0]/x.v.size(); c[1] += o.v[i][1]/x.v.size(); }
        if (!has(c)) { V(t, "element is not split at its centre " + S(c)); break; } }
      std::map<int,size_t> want, got;
      for (auto& x : o.e) want[x.color] += x.v.size(); for (auto& x : w.e) got[x.color]++;
      if (want != got) V(t, "elements per color wrong after refinement");
    }
    { // boundary: halves with the same marker
      std::map<std::pair<P2,P2>,int> nb; for (auto& x : w.be) nb[{w.v[x.a],w.v[x.b]}] = x.color;
      std::map<P2,std::vector<std::pair<P2,int>>> from; for (auto& x : w.be) from[w.v[x.a]].push_back({w.v[x.b],x.color});
      for (auto& x : o.be) {
        P2 m{0.5*(o.v[x.a][0]+o.v[x.b][0]),0.5*(o.v[x.a][1]+o.v[x.b][1])}; bool ok=false;
        for (auto& q : from[o.v[x.a]]) if (std::hypot(q.first[0]-m[0],q.first[1]-m[1])<1e-9*diam && q.second==x.color)
          for (auto& r : from[q.first]) if (r.first==o.v[x.b] && r.second==x.color) ok=true;
        if (!ok) { V(t, "boundary edge " + S(o.v[x.a]) + S(o.v[x.b]) + " is not refined into two halves with marker " + std::to_string(x.color)); break; }
      }
      if (single && !(e = check_boundary(w, d, true, layered(t))).empty()) V(t, e);
    }
    if (t.full[k] && single && std::fabs(w.area - dom_area(d)) > 1e-9*diam*diam) V(t, "reported mesh area " + S(w.area) + " differs from " + S(dom_area(d)));
    ++sh()->stat[0];
  }
  if (P == "C07" && (op[0]=='M' || op[0]=='C') && t.has_pre) {
    const View& o = t.pre;
    if (!ret) V(t, op + " reported failure");
    if (!(e = check_elements(w, diam)).empty()) V(t, e);
    if (!(e = check_conformity(w, t.full[k])).empty()) V(t, e);
    if (t.full[k] && !(e = check_vertices(w, diam)).empty()) V(t, e);
    if (!(e = same_color_area(o, w, diam*diam)).empty()) V(t, e);
    if (reflex_quads(w) && !reflex_quads(o)) V(t, "concave quad created");
    if (bkeys(w) != bkeys(o)) V(t, "boundary edges changed");
    if (w.nt > o.nt && op != "Ct") V(t, "number of triangles increased");
    if (w.e.size() > o.e.size()) V(t, "number of elements increased");
    std::set<P2> ov(o.v.begin(), o.v.end()); for (auto& p : w.v) if (!ov.count(p)) { V(t, "vertex moved"); break; }
    auto fo = fixed_positions(o); std::set<P2> nv(w.v.begin(), w.v.end());
    for (auto& p : fo) if (!nv.count(p)) { V(t, "fixed vertex removed"); break; }
    if ((op == "M" || op == "Cm") && w.v.size() == o.v.size() && 2*(w.nq-o.nq) != o.nt - w.nt) V(t, "merging does not replace two triangles by one quad");
    if (op == "M" || op == "Cm") { // no pair of triangles that obviously should be merged is left alone
      std::map<std::pair<int,int>,int> side;
      for (size_t i=w.nq;i<w.e.size();++i) for (int j=0;j<3;++j) side[{w.e[i].v[j],w.e[i].v[(j+1)%3]}]=(int)i;
      for (auto& x : w.ie) { auto l=side.find({x.a,x.b}), r=side.find({x.b,x.a}); if (l==side.end()||r==side.end()) continue;
        if (w.e[l->second].color != w.e[r->second].color) continue;
        auto opp=[&](int el){ for (int v : w.e[el].v) if (v!=x.a&&v!=x.b) return v; return -1; };
        int ql=opp(l->second), qr=opp(r->second);
        double m1=cross3(w.v[ql],w.v[x.a],w.v[qr]), m2=cross3(w.v[qr],w.v[x.b],w.v[ql]);
        if (m1>1e-6*diam*diam && m2>1e-6*diam*diam) { V(t, "two triangles that form a convex quad were not merged: " + S(w.v[x.a]) + S(w.v[x.b])); break; } }
    }
    sh()->stat[0] += o.e.size() - w.e.size();
  }
  if (P == "C08") {
    if (single) {
      if (!(e = check_elements(w, diam)).empty()) V(t, e);
      if (!(e = check_conformity(w, t.full[k])).empty()) V(t, e);
      if (!(e = check_boundary(w, d, true, layered(t))).empty()) V(t, e);
      if (total_area(w) > dom_area(d)*(1+1e-9)) V(t, "elements cover more than the domain");
      if (reflex_quads(w)) V(t, "concave quad");
      if (unlimited && t.c->must && !ret) V(t, "domain with quad layers can not be completed");
      if (t.full[k] && !(e = check_complete(w, d)).empty()) V(t, e);
    }
    if (op[0]=='L' && t.has_pre) {
      const View& o = t.pre;
      auto a = split(op.substr(2), ','); size_t n=atoi(a[0].c_str()); double h=atof(a[1].c_str()), g=atof(a[2].c_str());
      P2 A{atof(a[3].c_str()),atof(a[4].c_str())}, B{atof(a[5].c_str()),atof(a[6].c_str())};
      if (ret && w.nq + w.nt == o.nq + o.nt) V(t, "quad layer generation reports success but created no element");
      if (!ret) ++sh()->refused;
      sh()->stat[0] += w.nq - o.nq;
      auto ek = [](const View& x, const Elem& el) { std::set<P2> q; for (int v : el.v) q.insert(x.v[v]); return q; };
      std::set<std::set<P2>> oq; for (size_t i=0;i<o.nq;++i) oq.insert(ek(o,o.e[i]));
      for (size_t i=0;i<w.nq;++i) if (!oq.count(ek(w,w.e[i]))) for (int v : w.e[i].v) if (!(w.vprop[v] & 10u)) { V(t, "vertex " + S(w.v[v]) + " of a quad layer is not flagged as such"); i = w.nq; break; }
      // straight side A->B: all columns away from the ends have the prescribed heights
      double L=std::hypot(B[0]-A[0],B[1]-A[1]);
      double tot=0, hh=h; for (size_t i=0;i<n;++i,hh*=g) tot+=hh;
      Seg sg{A[0],A[1],B[0],B[1],0}; bool whole=false;
      for (auto& x : dom_segments(d)) if (x.ax==A[0]&&x.ay==A[1]&&x.bx==B[0]&&x.by==B[1]) whole=true;
      if (whole && d.fv.empty() && t.c->must && L > 6*tot && o.e.empty() && clear_side(d, sg, 2.5*tot)) {
        // smallest base edge in the side and smallest size there
        double lmin=1e300; int nb=0; for (auto& x : w.be) { double ta,tb; if (seg_dist(sg,w.v[x.a],ta)<1e-9&&seg_dist(sg,w.v[x.b],tb)<1e-9&&ta>-1e-9&&tb<1+1e-9) { ++nb; lmin=std::min(lmin,(tb-ta)*L); } }
        double hmax=h*std::pow(g,(double)n-1);
        if (lmin >= hmax && nb >= 8) {
          // vertices in the middle half of the side must lie exactly on the layer lines
          double f0=0; 
          for (size_t lay=0; lay<n; ++lay) {
            double lo=f0, hi=f0+h*std::pow(g,(double)lay); f0=hi;
            // every quad of this column row: two vertices at lo and two at hi
            double cover=0;
            for (size_t q=0;q<w.nq;++q) {
              int nl=0,nh=0; double tmin=1e300,tmax=-1e300,tlmin=1e300,tlmax=-1e300;
              for (int v : w.e[q].v) { double tt; double dd=seg_dist(sg,w.v[v],tt); if (std::fabs(dd-lo)<1e-7*diam){++nl;tlmin=std::min(tlmin,tt);tlmax=std::max(tlmax,tt);} if (std::fabs(dd-hi)<1e-7*diam){++nh;tmin=std::min(tmin,tt);tmax=std::max(tmax,tt);} }
              if (nl==2&&nh==2) { double p=std::max(0.25,std::max(tmin,tlmin)), r=std::min(0.75,std::min(tmax,tlmax)); if (r>p) cover+=r-p; }
            }
            if (cover < 0.5-1e-6) { V(t, "layer " + std::to_string(lay+1) + " along " + S(A) + S(B) + " does not have the height " + S(hi-lo) + " prescribed (covered " + S(2*cover) + ")"); break; }
            ++sh()->stat[1];
          }
        }
      }
    }
  }
  if (P == "C18") {
    if (is_gen(op) && t.has_pre) {
      const View& o = t.pre;
      size_t lim = op.find(':') != std::string::npos ? atoi(op.c_str()+2) : 0;
      if (lim && w.e.size() > o.e.size() + lim) V(t, "more elements than requested: " + std::to_string(w.e.size()-o.e.size()) + " > " + std::to_string(lim));
      if (total_area(w) < total_area(o) - 1e-9*diam*diam) V(t, "resumed generation lost elements");
      if (op.find(',') != std::string::npos) { // no new triangle with a larger angle than permitted
        double lim_a = atof(split(op.substr(2), ',')[4].c_str());
        auto key = [](const View& x, const Elem& el) { std::set<P2> q; for (int v : el.v) q.insert(x.v[v]); return q; };
        std::set<std::set<P2>> old; for (auto& x : o.e) old.insert(key(o,x));
        for (auto& x : w.e) if (x.v.size()==3 && !old.count(key(w,x))) for (int i=0;i<3;++i) {
          const P2 &p=w.v[x.v[i]], &q=w.v[x.v[(i+1)%3]], &r=w.v[x.v[(i+2)%3]];
          double an=std::acos(std::max(-1.0,std::min(1.0,((q[0]-p[0])*(r[0]-p[0])+(q[1]-p[1])*(r[1]-p[1]))/std::hypot(q[0]-p[0],q[1]-p[1])/std::hypot(r[0]-p[0],r[1]-p[1]))));
          if (an > lim_a+1e-6) { V(t, "new triangle has the angle " + S(an) + " although at most " + S(lim_a) + " is permitted"); break; } ++sh()->stat[2]; }
      }
      if (unlimited && t.c->must && !ret) V(t, "resumed generation does not complete the mesh");
      if (unlimited && ret && single && !(e = check_complete(w,d)).empty()) V(t, "resumed generation left a broken mesh: " + e);
      if (lim && t.c->must && !t.full[k] && total_area(w) < dom_area(d)*(1-1e-9) && w.e.size() == o.e.size()) V(t, "limited generation made no progress");
    }
    if (single) {
      if (!(e = check_elements(w, diam)).empty()) V(t, e);
      if (!(e = check_conformity(w, t.full[k])).empty()) V(t, e);
      if (!(e = check_boundary(w, d, true, layered(t))).empty()) V(t, e);
      if (total_area(w) > dom_area(d)*(1+1e-9)) V(t, "elements overlap");
    }
  }
  if (P == "C24" && leaf) {   // exports, queries and the end of the session, in both orders of destruction
    aside(t, false, [&]{ for (size_t i=0;i<s.mesh.size();++i) if (s.mesh[i]) { check_exports(s, (int)i, cfg().out, "TV"); s.complete((int)i); } s.dom.clear(); delete t.s; });
    aside(t, false, [&]{ delete t.s; });
  }
  if (P == "C13") for (size_t i=0;i<s.mesh.size();++i) if (s.mesh[i])
    aside(t, false, [&]{ Err e = check_exports(s, (int)i, cfg().out); if (!e.empty()) V(t, "mesh " + std::to_string(i) + ": " + e); ++sh()->stat[1]; });
  if (P == "C19" && single) {
    Err c = check_complete(w, d);
    if (unlimited && ret != c.empty()) V(t, std::string("generation reports ") + (ret?"success":"failure") + " but the mesh is " + (c.empty()?"complete":"not complete: "+c));
    if (is_gen(op) && !unlimited && ret && !c.empty()) { // a limited run may stop early; success means: as many elements as asked for or complete
      size_t lim = atoi(op.c_str()+2); if (t.has_pre && w.e.size() < t.pre.e.size()+lim) ++sh()->stat[1]; }
    aside(t, leaf, [&]{
      bool says = s.complete(k);
      ++sh()->stat[says?2:3];
      if (says != c.empty()) V(t, std::string("mesh checker reports ") + (says?"complete":"incomplete") + " but the mesh is " + (c.empty()?"complete":"not complete: "+c));
    });
  }
}

// ---------------------------------------------------------------- C09: several meshes
static void judge_multi(St& t, const std::string& op, int k, bool ret, const std::vector<View>& pre)
{
  Session& s = *t.s; Err e; double diam = 0;
  for (auto& d : t.c->d) diam = std::max(diam, dom_diam(d));
  ++sh()->evals;
  // every live mesh stays correct
  std::vector<View> now(s.mesh.size());
  for (size_t i = 0; i < s.mesh.size(); ++i) if (s.mesh[i]) {
    now[i] = snap(*s.mesh[i]);
    seen_state(hash_view(now[i]));
    if (!now[i].e.empty()) ++sh()->nontrivial;
    if (!(e = check_elements(now[i], diam)).empty()) V(t, e);
    if (!(e = check_conformity(now[i], t.full[i])).empty()) V(t, "mesh " + std::to_string(i) + ": " + e);
    if (!t.merged[i]) {
      if (t.full[i] && !(e = check_complete(now[i], t.c->d[i])).empty()) V(t, "mesh " + std::to_string(i) + ": " + e);
      if (!(e = check_boundary(now[i], t.c->d[i], false, layered(t))).empty()) V(t, "mesh " + std::to_string(i) + ": " + e);
    }
    if (!t.merged[i]) for (auto& x : now[i].be) if (!x.twin) { // outer boundary edges carry the marker of their own domain
      int hit = 0, good = 0;
      for (auto& g : dom_segments(t.c->d[i])) { double ta, tb, l = std::hypot(g.bx-g.ax,g.by-g.ay);
        if (seg_dist(g,now[i].v[x.a],ta) > 1e-9*diam || seg_dist(g,now[i].v[x.b],tb) > 1e-9*diam || ta < -1e-9*diam/l || tb > 1+1e-9*diam/l || tb <= ta) continue;
        ++hit; good += g.c == x.color; }
      if (hit && !good && !layered(t)) { V(t, "mesh " + std::to_string(i) + ": boundary edge " + S(now[i].v[x.a]) + S(now[i].v[x.b]) + " has the foreign marker " + std::to_string(x.color)); break; }
    }
    { std::vector<char> ob(now[i].v.size(),0); for (auto& x : now[i].be) ob[x.a]=ob[x.b]=1;
      for (size_t j=0;j<now[i].v.size();++j) if (!!(now[i].vprop[j]&8u) != !!ob[j]) { V(t, "mesh " + std::to_string(i) + ": boundary flag of vertex " + S(now[i].v[j]) + " is wrong"); break; } }
    bool touched = (int)i == k;
    if (!touched && i < pre.size() && pre[i].v.size() && hash_view(pre[i]) != hash_view(now[i]))
      V(t, "operation on mesh " + std::to_string(k) + " changed mesh " + std::to_string(i));
  }
  if ((op == "T" || op == "X") && t.c->must && !ret) V(t, "generation failed");
  if (op[0] == 'G') {
    int j = atoi(op.c_str()+2);
    if (t.c->must && !ret) { V(t, "merging neighboring meshes failed"); return; }
    if (!ret) { if (hash_view(now[k]) != hash_view(pre[k])) V(t, "failed merge changed the receiver"); if (!s.mesh[j]) V(t, "failed merge removed the donor"); return; }
    if (s.mesh[j]) V(t, "donor still exists after the merge");
    const View &w = now[k], &a = pre[k], &b = pre[j];
    if (w.e.size() != a.e.size()+b.e.size() || w.nq != a.nq+b.nq) V(t, "merged mesh does not have the elements of both meshes");
    if (std::fabs(total_area(w)-total_area(a)-total_area(b)) > 1e-9*diam*diam) V(t, "area of the merged mesh is not the sum of both");
    auto ca = color_area(a); for (auto& x : color_area(b)) ca[x.first] += x.second;
    for (auto& x : color_area(w)) { if (std::fabs(x.second-ca[x.first]) > 1e-9*diam*diam) V(t, "element colors changed by the merge"); ca.erase(x.first); }
    if (!ca.empty()) V(t, "element color lost in the merge");
    if (t.full[k] && !(e = check_vertices(w, diam)).empty()) V(t, "merged mesh: " + e);
    // no boundary edge is left along the common interface, all others are kept with their marker
    auto A = bkeys(a), B = bkeys(b); std::multiset<BK> want; 
    auto rev = [&](const BK& x, const std::multiset<BK>& o){ for (auto& y : o) if (std::fabs(y[0]-x[2])<1e-9&&std::fabs(y[1]-x[3])<1e-9&&std::fabs(y[2]-x[0])<1e-9&&std::fabs(y[3]-x[1])<1e-9) return true; return false; };
    size_t keep = 0;
    for (auto& x : A) if (!rev(x,B)) { want.insert(x); ++keep; }
    for (auto& x : B) if (!rev(x,A)) { want.insert(x); ++keep; }
    if (A.size()+B.size() == keep) V(t, "interface of the neighboring meshes is not conformal");
    if (bkeys(w) != want) V(t, "outer boundary edges of the merged mesh are wrong");
  }
  aside(t, false, [&]{ for (size_t i=0;i<s.mesh.size();++i) if (s.mesh[i]) { View q = snap_pub(*s.mesh[i]); Err e; if (!(e=check_tables(q)).empty()) V(t,e); } });
  { // interface edges of different meshes refer to each other
    std::map<const TQMesh::Edge*, int> all; std::map<std::array<double,4>, const TQMesh::Edge*> pos;
    for (size_t i=0;i<s.mesh.size();++i) if (s.mesh[i]) for (auto& x : s.mesh[i]->boundary_edges()) { all[x.get()] = (int)i;
      pos[{x->v1().xy().x,x->v1().xy().y,x->v2().xy().x,x->v2().xy().y}] = x.get(); }
    for (auto& a : all) { const TQMesh::Edge* x = a.first; const TQMesh::Edge* y = x->twin_edge();
      std::string w = S(P2{x->v1().xy().x,x->v1().xy().y}) + S(P2{x->v2().xy().x,x->v2().xy().y});
      if (y) {
        if (!all.count(y)) { V(t, "interface edge " + w + " refers to an edge that does not exist"); break; }
        if (y->twin_edge() != x) { V(t, "interface edge " + w + " and its counterpart do not refer to each other"); break; }
        if (std::hypot(x->v1().xy().x-y->v2().xy().x, x->v1().xy().y-y->v2().xy().y) > 1e-9*diam || std::hypot(x->v2().xy().x-y->v1().xy().x, x->v2().xy().y-y->v1().xy().y) > 1e-9*diam) { V(t, "interface edge " + w + " refers to a different edge"); break; }
        ++sh()->stat[2];
      } else { auto it = pos.find({x->v2().xy().x,x->v2().xy().y,x->v1().xy().x,x->v1().xy().y});
        if (it != pos.end() && all[it->second] != a.second) { V(t, "common edge " + w + " of two meshes is not known as interface"); break; } }
    }
  }
  if (op == "N" || op[0]=='T' || op[0]=='X') { // interface conformity: boundary vertices of both meshes on the common line coincide
    for (size_t i=0;i<now.size();++i) for (size_t j=0;j<now.size();++j) if (i!=j && s.mesh[i] && s.mesh[j]) {
      std::vector<Seg> sj = dom_segments(t.c->d[j]);
      for (auto& x : now[i].be) { // directed edge of i; if it lies on a segment of j (reversed) then j must have exactly the reversed edge
        P2 a=now[i].v[x.a], b=now[i].v[x.b]; 
        for (auto& g : sj) { double ta,tb; double l=std::hypot(g.bx-g.ax,g.by-g.ay); if (seg_dist(g,a,ta)>1e-9||seg_dist(g,b,tb)>1e-9||tb>=ta||tb<-1e-9/l||ta>1+1e-9/l) continue;
          bool ok=false; for (auto& y : now[j].be) { P2 c=now[j].v[y.a], f=now[j].v[y.b]; if (std::hypot(c[0]-b[0],c[1]-b[1])<1e-9*diam&&std::hypot(f[0]-a[0],f[1]-a[1])<1e-9*diam) ok=true; }
          if (!ok) { V(t, "meshes " + std::to_string(i) + " and " + std::to_string(j) + " are not conformal at " + S(a) + S(b)); return; }
          ++sh()->stat[0];
        } } }
  }
}

static void step(St& t, const std::string& full_op, bool leaf, char* cur)
{
  std::string op = full_op; int k = 0;
  if (isdigit((unsigned char)op[0])) { k = op[0]-'0'; op = op.substr(1); }
  t.hist += (t.hist.empty() ? "" : " ") + full_op;
  strncpy(cur, t.hist.c_str(), 4000);
  Session& s = *t.s;
  if (op != "N" && !s.mesh[k]) return;
  if (op[0] == 'G' && (!s.mesh[atoi(op.c_str()+2)] || atoi(op.c_str()+2) == k)) return;
  std::vector<View> pre;
  if (cfg().prop == "C09") { pre.resize(s.mesh.size()); for (size_t i=0;i<s.mesh.size();++i) if (s.mesh[i]) pre[i] = snap(*s.mesh[i]); }
  t.has_pre = op != "N"; if (t.has_pre) t.pre = snap(*s.mesh[k]);
  alarm(cfg().op_timeout);
  bool ret = s.apply(full_op);
  ++sh()->transitions;
  if (op[0] == 'G' && ret) { t.merged[k] = 1; t.full[k] = t.full[k] && t.full[atoi(op.c_str()+2)]; }
  if (cfg().prop == "C09") {
    if (op == "T" || op == "X") t.full[k] = t.full[k] || ret;
    judge_multi(t, op, k, ret, pre);
  } else judge(t, op, k, ret, leaf);
  alarm(0);
}

static void explore(St t, size_t lev, char* cur)
{
  const Case& c = *t.c;
  alarm(0);
  while (lev < c.lv.size() && c.lv[lev].size() == 1) {
    if (c.lv[lev][0] == "-") { ++lev; continue; }
    step(t, c.lv[lev][0], lev+1 == c.lv.size(), cur); ++lev;
    if (sh()->stop) return;
  }
  if (lev == c.lv.size()) { ++sh()->stat[8]; return; }
  for (auto& op : c.lv[lev]) {
    if (sh()->stop) return;
    std::string r = in_child([&]{
      St u = t;
      if (op != "-") step(u, op, lev+1 == c.lv.size(), cur);
      explore(u, lev+1, cur);
    });
    if (!r.empty()) report(t.kase, (c.must ? "" : "?") + std::string(cur), r);
  }
}

static void run_case(const Case& c)
{
  char* cur = (char*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  std::string kase = txt(c.d);
  auto r = in_child([&]{
    Session& s = *new Session(c.d);
    St t; t.s=&s; t.c=&c; t.kase=kase; t.full.assign(c.d.size(),0); t.merged.assign(c.d.size(),0);
    explore(t, 0, cur);
    fflush(nullptr); _exit(0);
  });
  if (!r.empty()) report(kase, (c.must ? "" : "?") + std::string(cur), r);
  munmap(cur, 4096);
}

#include "mesh_families.h"

int main(int argc, char** argv)
{
  parse_args(argc, argv);
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  if (!cfg().replay.empty()) {
    FILE* f = fopen(cfg().replay.c_str(), "r"); std::string l; int ch; while (f && (ch=fgetc(f))!=EOF && ch!='\n') l+=(char)ch;
    if (f) fclose(f);
    size_t a=l.find(" ||| "), b=l.find(" ||| ", a+5);
    Case c; c.must=true;
    std::string dt=l.substr(0,a), ops=l.substr(a+5, b==std::string::npos?std::string::npos:b-a-5);
    if (ops.rfind("?",0)==0) { c.must=false; ops=ops.substr(1); }
    for (auto& x : split(dt,'|')) c.d.push_back(dom_from_text(x));
    for (auto& o : words(ops)) c.lv.push_back({o});
    run_case(c); ++sh()->cases;
  } else {
    std::vector<Case> cs = families();
    if (cfg().verbose) fprintf(stderr, "cases %zu\n", cs.size());
    parallel_cases(cs.size(), [&](size_t i){ run_case(cs[i]); }, nullptr);
    FILE* f = fopen((cfg().out + "/samples.txt").c_str(), "w");
    for (int i = 0; f && i < 5 && !cs.empty(); ++i) {
      auto& c = cs[(cs.size()-1)*i/4]; std::string o;
      for (auto& l : c.lv) { o += " {"; for (size_t j=0;j<l.size();++j) o += (j?",":"") + l[j]; o += "}"; }
      fprintf(f, "%s |||%s\n", txt(c.d).c_str(), o.c_str());
    }
    if (f) fclose(f);
  }
  std::map<std::string,std::string> ex; std::string st="[";
  for (int i=0;i<10;++i) st += (i?",":"") + std::to_string(sh()->stat[i].load()); st += "]";
  ex["stat"]=st; ex["histories"]=std::to_string(sh()->stat[8].load());
  write_summary(ex);
  return 0;
}
