// C11 domain validation, C12 geometric predicates and point location,
// C16 outline shapes and CSV import, C17 element size control.
// Every chunk enumerates one slice of a bounded input space completely and
// compares the library with exact integer (or closed form) references.
#include <set>
#include <algorithm>
#include <fstream>
#include "TQMesh.h"
#include "explore.h"
#include "families.h"
#include "session.h"
using namespace CppUtils;
using namespace vf;
using TQMesh::Domain; using TQMesh::Boundary; using TQMesh::Vertex; using TQMesh::Edge;

typedef long long LL;
static std::string g_case;
static long g_reports = 0;
static void bad(const std::string& what) { if (++g_reports <= 3) report(g_case, "-", what); }
static void ok(bool nontrivial = true) { ++sh()->evals; ++sh()->transitions; if (nontrivial) ++sh()->nontrivial; }
static std::string T(const IP& p) { return "("+std::to_string(p[0])+","+std::to_string(p[1])+")"; }
static std::string T(const std::vector<IP>& p) { std::string s; for (auto& q : p) s += T(q); return s; }
static void state(const std::string& s) { uint64_t h=1469598103934665603ull; for (char c : s) h=(h^(unsigned char)c)*1099511628211ull; seen_state(h); }

struct Chunk { std::string name; std::function<void()> f; };
static std::vector<Chunk> chunks;
static bool TH = false, DEEP = false;
static std::vector<IP> grid(int n) { std::vector<IP> g; for (int x=0;x<n;++x) for (int y=0;y<n;++y) g.push_back({x,y}); return g; }

// ---------------------------------------------------------------- C12
struct Tr { double s, ox, oy; };
static Vec2d V(const IP& p, const Tr& t) { return { p[0]*t.s + t.ox, p[1]*t.s + t.oy }; }
static int ORI(Orientation o) { return o==Orientation::CCW?1:o==Orientation::CW?-1:0; }
static bool interior_on(const IP&a,const IP&b,const IP&p){ return on_seg(a,b,p) && p!=a && p!=b; }
static bool ref_cross(const IP&a,const IP&b,const IP&c,const IP&d){ return ori(a,b,c)*ori(a,b,d)<0 && ori(c,d,a)*ori(c,d,b)<0; }
static bool ref_inter(const IP&a,const IP&b,const IP&c,const IP&d)
{ return ref_cross(a,b,c,d)||interior_on(a,b,c)||interior_on(a,b,d)||interior_on(c,d,a)||interior_on(c,d,b); }

static void pred_chunks()
{
  std::vector<Tr> trs = {{1,0,0},{0.125,-0.25,3},{2.5,-7,1.75},{0.01,0.5,0.5},{30,-100,40}};
  if (TH) trs.push_back({1e-3,0,0}), trs.push_back({256,1000,-1000});
  for (size_t k=0;k<trs.size();++k) { Tr t = trs[k];
    int N = DEEP && k<3 ? 5 : 4;
    std::string nm = "pred"+std::to_string(k)+"-";
    auto g = grid(N);
    for (size_t a0=0;a0<g.size();++a0) chunks.push_back({nm+"seg-"+std::to_string(a0), [=]{
      const IP& a=g[a0]; Vec2d A=V(a,t);
      for (auto& b : g) { Vec2d B=V(b,t);
        for (auto& c : g) { Vec2d C=V(c,t);
          int o = ori(a,b,c); ok(o!=0);
          if (ORI(orientation(A,B,C)) != o) bad("orientation of "+T(a)+T(b)+T(c)+" wrong");
          if (is_left(A,B,C) != (o>0)) bad("is_left of "+T(a)+T(b)+T(c)+" wrong");
          if (is_lefton(A,B,C) != (o>=0)) bad("is_lefton of "+T(a)+T(b)+T(c)+" wrong");
          if (a!=b) {
            if (in_segment(A,B,C) != interior_on(a,b,c)) bad("in_segment of "+T(a)+T(b)+T(c)+" wrong");
            if (in_on_segment(A,B,C) != on_seg(a,b,c)) bad("in_on_segment of "+T(a)+T(b)+T(c)+" wrong");
            // exact distance point-segment
            LL dx=b[0]-a[0],dy=b[1]-a[1],px=c[0]-a[0],py=c[1]-a[1],l2=dx*dx+dy*dy,dt=dx*px+dy*py;
            double d2 = dt<=0 ? px*px+py*py : dt>=l2 ? (LL)(c[0]-b[0])*(c[0]-b[0])+(LL)(c[1]-b[1])*(c[1]-b[1]) : double((dx*py-dy*px)*(dx*py-dy*px))/l2;
            double got = distance_point_edge_sqr(C,A,B);
            if (std::fabs(got - d2*t.s*t.s) > 1e-9*(1+t.s*t.s*(1+std::fabs(t.ox)+std::fabs(t.oy)))) bad("distance of "+T(c)+" to segment "+T(a)+T(b)+" is "+S(got)+" instead of "+S(d2*t.s*t.s));
          }
          if (a!=b) for (auto& d : g) { if (c==d) continue; Vec2d D=V(d,t);
            bool x = ref_cross(a,b,c,d), i = ref_inter(a,b,c,d); ok(i);
            if (line_line_crossing(A,B,C,D) != x) bad("crossing test of segments "+T(a)+T(b)+" and "+T(c)+T(d)+" wrong");
            if (line_line_intersection(A,B,C,D) != i) bad("intersection test of segments "+T(a)+T(b)+" and "+T(c)+T(d)+" wrong");
            bool so = (a==c&&b==d)||(a==d&&b==c);
            if (segment_overlap(A,B,C,D) != so) bad("segment_overlap of "+T(a)+T(b)+" and "+T(c)+T(d)+" wrong");
          }
        } }
      state(nm+T(a));
    }});
    // rectangles
    chunks.push_back({nm+"rect", [=]{
      auto h = grid(3);
      for (auto& a : h) for (auto& b : h) if (a[0]<=b[0]&&a[1]<=b[1]) for (auto& c : h) {
        Vec2d A=V(a,t),B=V(b,t),C=V(c,t); ok();
        if (in_on_rect(C,A,B) != (c[0]>=a[0]&&c[0]<=b[0]&&c[1]>=a[1]&&c[1]<=b[1])) bad("in_on_rect "+T(c)+" in "+T(a)+T(b)+" wrong");
        if (in_rect(C,A,B) != (c[0]>a[0]&&c[0]<b[0]&&c[1]>a[1]&&c[1]<b[1])) bad("in_rect "+T(c)+" in "+T(a)+T(b)+" wrong");
        for (auto& d : h) if (c[0]<=d[0]&&c[1]<=d[1]) { Vec2d D=V(d,t); ok();
          bool r = a[0]<=d[0]&&c[0]<=b[0]&&a[1]<=d[1]&&c[1]<=b[1];
          if (rect_overlap(A,B,C,D) != r) bad("rect_overlap "+T(a)+T(b)+T(c)+T(d)+" wrong"); }
      }
      state(nm+"rect");
    }});
    // triangles and quads against points, segments and each other
    std::vector<std::vector<IP>> tris, quads; auto h = grid(3);
    for (auto& a : h) for (auto& b : h) for (auto& c : h) if (ori(a,b,c)>0) tris.push_back({a,b,c});
    for (auto& a : h) for (auto& b : h) for (auto& c : h) for (auto& d : h)
      if (ori(a,b,c)>0&&ori(b,c,d)>0&&ori(c,d,a)>0&&ori(d,a,b)>0) quads.push_back({a,b,c,d});
    auto polyinter = [](const std::vector<IP>&p,const std::vector<IP>&q){ for(size_t i=0;i<p.size();++i)for(size_t j=0;j<q.size();++j) if(ref_inter(p[i],p[(i+1)%p.size()],q[j],q[(j+1)%q.size()])) return true; return false; };
    for (size_t i0=0;i0<tris.size();i0+=8) chunks.push_back({nm+"tri-"+std::to_string(i0), [=]{
      for (size_t i=i0;i<std::min(i0+8,tris.size());++i) { auto& p=tris[i]; Vec2d P=V(p[0],t),Q=V(p[1],t),R=V(p[2],t);
        for (auto& c : h) { int in=point_in(p,c); Vec2d C=V(c,t); ok(in>=0);
          if (in_triangle(C,P,Q,R)!=(in>0)) bad("in_triangle "+T(c)+" in "+T(p)+" wrong");
          if (in_on_triangle(C,P,Q,R)!=(in>=0)) bad("in_on_triangle "+T(c)+" in "+T(p)+" wrong");
          for (auto& d : h) if (c!=d) { Vec2d D=V(d,t); bool x=false,y=false; for(int e=0;e<3;++e){ x|=ref_cross(c,d,p[e],p[(e+1)%3]); y|=ref_inter(c,d,p[e],p[(e+1)%3]); } ok(y);
            if (line_tri_crossing(C,D,P,Q,R)!=x) bad("line_tri_crossing "+T(c)+T(d)+" with "+T(p)+" wrong");
            if (line_tri_intersection(C,D,P,Q,R)!=y) bad("line_tri_intersection "+T(c)+T(d)+" with "+T(p)+" wrong"); } }
        for (auto& q : tris) { ok(); if (tri_tri_intersection(P,Q,R,V(q[0],t),V(q[1],t),V(q[2],t)) != polyinter(p,q)) bad("tri_tri_intersection "+T(p)+" with "+T(q)+" wrong"); }
        for (auto& q : quads) { ok(); if (tri_quad_intersection(P,Q,R,V(q[0],t),V(q[1],t),V(q[2],t),V(q[3],t)) != polyinter(p,q)) bad("tri_quad_intersection "+T(p)+" with "+T(q)+" wrong"); }
        state(nm+T(p));
      } }});
    for (size_t i0=0;i0<quads.size();i0+=8) chunks.push_back({nm+"quad-"+std::to_string(i0), [=]{
      for (size_t i=i0;i<std::min(i0+8,quads.size());++i) { auto& p=quads[i]; Vec2d P=V(p[0],t),Q=V(p[1],t),R=V(p[2],t),W=V(p[3],t);
        for (auto& c : h) { int in=point_in(p,c); Vec2d C=V(c,t); ok(in>=0);
          if (in_quad(C,P,Q,R,W)!=(in>0)) bad("in_quad "+T(c)+" in "+T(p)+" wrong");
          if (in_on_quad(C,P,Q,R,W)!=(in>=0)) bad("in_on_quad "+T(c)+" in "+T(p)+" wrong");
          for (auto& d : h) if (c!=d) { Vec2d D=V(d,t); bool y=false; for(int e=0;e<4;++e) y|=ref_inter(c,d,p[e],p[(e+1)%4]); ok(y);
            if (line_quad_intersection(C,D,P,Q,R,W)!=y) bad("line_quad_intersection "+T(c)+T(d)+" with "+T(p)+" wrong"); } }
        for (auto& q : quads) { ok(); if (quad_quad_intersection(P,Q,R,W,V(q[0],t),V(q[1],t),V(q[2],t),V(q[3],t)) != polyinter(p,q)) bad("quad_quad_intersection "+T(p)+" with "+T(q)+" wrong"); }
        state(nm+T(p));
      } }});
    // element measures: the values every element reports about itself
    chunks.push_back({nm+"measures", [=]{
      Domain dom; auto f=[&](const IP& q)->Vertex&{ Vec2d w=V(q,{t.s,t.ox/50,t.oy/50}); return dom.add_vertex(w.x,w.y); };
      TQMesh::Mesh m(1,1,200.0,100,25);
      auto rel=[](double a,double b){ return std::fabs(a-b) > 1e-6*(std::fabs(a)+std::fabs(b)) + 1e-14; };
      for (auto* set : {&tris,&quads}) for (auto& p : *set) {
        std::vector<Vertex*> v; for (auto& q : p) { Vec2d w=V(q,{t.s,t.ox/50,t.oy/50}); v.push_back(&m.add_vertex(w)); }
        size_t n=p.size(); double ar=area2(p)*0.5*t.s*t.s, lmin=1e300,lmax=0,amin=10,amax=0; std::vector<double> L(n),AN(n);
        for (size_t e=0;e<n;++e) { auto&a=p[e];auto&b=p[(e+1)%n];auto&z=p[(e+n-1)%n]; L[e]=std::hypot(b[0]-a[0],b[1]-a[1])*t.s; lmin=std::min(lmin,L[e]); lmax=std::max(lmax,L[e]);
          AN[e]=std::atan2((double)((b[0]-a[0])*(z[1]-a[1])-(b[1]-a[1])*(z[0]-a[0])),(double)((b[0]-a[0])*(z[0]-a[0])+(b[1]-a[1])*(z[1]-a[1]))); amin=std::min(amin,AN[e]); amax=std::max(amax,AN[e]); }
        TQMesh::Facet* F; if (n==3) F=&m.add_triangle(*v[0],*v[1],*v[2]); else F=&m.add_quad(*v[0],*v[1],*v[2],*v[3]);
        ok();
        double cx=0,cy=0; for (auto* q : v) { cx+=q->xy().x/n; cy+=q->xy().y/n; }
        if (rel(F->area(),ar)) bad("area of element "+T(p)+" is "+S(F->area())+" instead of "+S(ar));
        if (rel(F->min_edge_length(),lmin)||rel(F->max_edge_length(),lmax)) bad("shortest/longest side of element "+T(p)+" wrong");
        if (rel(F->min_angle(),amin)||rel(F->max_angle(),amax)) bad("smallest/largest angle of element "+T(p)+" wrong: "+S(F->min_angle())+" "+S(F->max_angle()));
        if (n==3 && (rel(F->xy().x,cx)||rel(F->xy().y,cy))) bad("centre of element "+T(p)+" wrong");
        state(nm+"m"+T(p));
      }
    }});
  }
}

static std::unique_ptr<Domain> dom_of(const std::vector<IP>& p, const Tr& t, char mode, bool rev)
{
  auto D = std::make_unique<Domain>([](const Vec2d&){return 1.0;}, 5000.0, 100, 25);
  auto& b = D->add_exterior_boundary(); std::vector<Vec2d> c; std::vector<int> col;
  for (auto& q : p) { c.push_back(V(q,t)); col.push_back(1); }
  if (rev) std::reverse(c.begin(),c.end());
  if (mode=='c') b.set_shape_from_coordinates(c,col);
  else { std::vector<Vertex*> v; for (auto& q : c) v.push_back(&D->add_vertex(q.x,q.y)); for (size_t i=0;i<v.size();++i) b.add_edge(*v[i],*v[(i+1)%v.size()],1); }
  return D;
}

static void location_chunks()
{
  // all simple polygons (with straight corners), all half lattice points
  auto P = lattice_polygons(2,2,3,9,true); auto P3 = lattice_polygons(3,3,3,DEEP?7:6,false);
  P.insert(P.end(),P3.begin(),P3.end());
  std::vector<Tr> trs = {{1,0,0},{0.75,-3,11},{20,-500,70}};
  size_t n=P.size(), step=(n+63)/64;
  for (size_t o=0;o<n;o+=step) chunks.push_back({"loc-"+std::to_string(o), [=]{
    for (size_t i=o;i<std::min(n,o+step);++i) for (auto& t : trs) for (int rev=0; rev<2; ++rev) {
      auto& p=P[i]; auto D=dom_of(p,t,'c',rev); double A=area2(p)*0.5*t.s*t.s;
      state("loc"+T(p)+S(t.s));
      if (std::fabs(D->area()-A)>1e-9*A) bad("area of the domain "+T(p)+" is "+S(D->area())+" instead of "+S(A));
      std::vector<Vec2d> c; for (auto& q : p) c.push_back(V(q,t)); if (rev) std::reverse(c.begin(),c.end());
      if (std::fabs(polygon_area(c)-(rev?-A:A))>1e-9*A) bad("polygon_area of "+T(p)+" wrong");
      double x0=1e300,x1=-1e300,y0=1e300,y1=-1e300; for (auto& q : c) { x0=std::min(x0,q.x);x1=std::max(x1,q.x);y0=std::min(y0,q.y);y1=std::max(y1,q.y); }
      auto e=D->extent(); if (e.first[0]!=x0||e.first[1]!=x1||e.second[0]!=y0||e.second[1]!=y1) bad("extent of the domain "+T(p)+" is wrong");
      std::vector<IP> p2; for (auto& q : p) p2.push_back({2*q[0],2*q[1]});
      for (int x=-1;x<=7;++x) for (int y=-1;y<=7;++y) { IP q{x,y}; int in=point_in(p2,q); if (in==0) continue; ok();
        Vec2d w={x*0.5*t.s+t.ox,y*0.5*t.s+t.oy};
        if (D->is_inside(w)!=(in>0)) bad("point ("+S(x*0.5)+","+S(y*0.5)+") is reported "+(in>0?"outside":"inside")+" of the outline "+T(p)); }
    } }});
  // domains with a hole: inside = inside the outline and outside the hole
  auto Q = lattice_polygons(2,2,3,9,false);
  for (int h0=0; h0<3; ++h0) chunks.push_back({"lochole-"+std::to_string(h0), [=]{
    std::vector<IP> H = h0==0?std::vector<IP>{{3,3},{5,3},{5,5},{3,5}}:h0==1?std::vector<IP>{{3,4},{4,3},{5,4},{4,5}}:std::vector<IP>{{3,3},{5,3},{4,5}};
    for (auto& p : Q) for (int rev=0;rev<2;++rev) {
      std::vector<IP> p4; for (auto& q : p) p4.push_back({4*q[0],4*q[1]});
      bool inside=true; for (auto& q : H) inside&=point_in(p4,q)>0;
      for (size_t i=0;i<H.size();++i) for (size_t j=0;j<p4.size();++j) inside&=!seg_touch(H[i],H[(i+1)%H.size()],p4[j],p4[(j+1)%p4.size()]);
      if (!inside) continue;
      Domain D([](const Vec2d&){return 1.0;}); Tr t{0.25,0,0}; std::vector<Vec2d> c,d; for (auto& q : p4) c.push_back(V(q,t)); for (auto& q : H) d.push_back(V(q,t)); if (rev) std::reverse(d.begin(),d.end());
      D.add_interior_boundary().set_shape_from_coordinates(d,std::vector<int>(d.size(),2));
      D.add_exterior_boundary().set_shape_from_coordinates(c,std::vector<int>(c.size(),1));
      double A=(area2(p4)-area2(H))*0.5/16; ok(); state("lh"+T(p)+T(H));
      if (std::fabs(D.area()-A)>1e-9) bad("area of "+T(p4)+" with hole "+T(H)+" is "+S(D.area())+" instead of "+S(A));
      for (int x=-1;x<=9;++x) for (int y=-1;y<=9;++y) { IP q{x,y}; int a=point_in(p4,q), b=point_in(H,q); if (!a||!b) continue; ok();
        if (D.is_inside(V(q,t))!=(a>0&&b<0)) bad("point "+T(q)+"/4 wrongly located in "+T(p4)+" with hole "+T(H)); }
    } }});
}

// ---------------------------------------------------------------- C11
static bool valid(Domain& D) { return TQMesh::EntityChecks::check_domain_validity(D); }
static std::string mesh_refused(Domain& D, bool expect_ok)
{
  TQMesh::MeshGenerator g; auto& m = g.new_mesh(D);
  if (expect_ok) return m.boundary_edges().size()>=3 ? "" : "accepted domain yields a mesh without boundary";
  if (m.boundary_edges().size()||m.n_elements()) return "refused domain yields boundary edges or elements";
  if (g.triangulation(m).generate_elements()) return "meshing of a refused domain reports success";
  if (m.n_elements()) return "meshing of a refused domain generates elements";
  return "";
}
static void validity_chunks()
{
  // closed vertex sequences without repeated points: valid iff simple
  int n3 = 7; auto g = grid(3);
  for (size_t a=0;a<9;++a) for (size_t b=0;b<9;++b) if (a!=b) chunks.push_back({"closed-"+std::to_string(a)+"-"+std::to_string(b), [=]{
    std::vector<IP> cur={g[a],g[b]}; std::vector<char> used(9,0); used[a]=used[b]=1; long cnt=0;
    std::function<void()> rec=[&]{
      size_t n=cur.size();
      if (n>=3 && !(n==3 && ori(cur[0],cur[1],cur[2])==0)) {
        bool s=simple_polygon(cur); ++cnt; ok(s); state("v"+T(cur));
        Tr t = cnt%3==0?Tr{1,0,0}:cnt%3==1?Tr{13,-40,5}:Tr{0.1,2,2};
        auto D=dom_of(cur,t,cnt%2?'e':'c',false);
        bool v=valid(*D);
        if (v!=s) bad(std::string(s?"simple":"self-intersecting")+" outline "+T(cur)+" scaled by "+S(t.s)+" is "+(v?"accepted":"refused"));
        else if (cnt%16==0) { auto e=mesh_refused(*D,s); if (!e.empty()) bad(e+": "+T(cur)); }
        if (cnt%(TH?2:5)==0) { // the same sequence as a hole of a large outline
          Domain H([](const Vec2d&){return 1.0;},5000.0); std::vector<Vec2d> c; for (auto& q : cur) c.push_back(V(q,t)); Vec2d lo=V({-6,-5},t), hi=V({9,7},t);
          auto outer=[&]{ H.add_exterior_boundary().set_shape_from_coordinates({lo,{hi.x,lo.y},hi,{lo.x,hi.y}},{1,1,1,1}); }; auto inner=[&]{ H.add_interior_boundary().set_shape_from_coordinates(c,std::vector<int>(c.size(),2)); };
          if (cnt%4<2) { outer(); inner(); } else { inner(); outer(); }
          ok(s); bool w=valid(H); if (w!=s) bad(std::string(s?"simple":"self-intersecting")+" hole "+T(cur)+" scaled by "+S(t.s)+" is "+(w?"accepted":"refused")); }
      }
      if ((int)n==n3) return;
      for (size_t k=0;k<9;++k) if (!used[k]) { used[k]=1; cur.push_back(g[k]); rec(); cur.pop_back(); used[k]=0; }
    };
    rec();
  }});
  // larger lattice, fewer corners
  auto g4=grid(4);
  for (size_t a=0;a<16;++a) chunks.push_back({"closed4-"+std::to_string(a), [=]{
    std::vector<IP> cur={g4[a]}; std::vector<char> used(16,0); used[a]=1;
    std::function<void()> rec=[&]{ size_t n=cur.size();
      if (n>=4) { bool s=simple_polygon(cur); ok(s); auto D=dom_of(cur,{1,-1.5,-1.5},'e',false); bool v=valid(*D);
        if (v!=s) bad(std::string(s?"simple":"self-intersecting")+" outline "+T(cur)+" is "+(v?"accepted":"refused")); }
      if ((int)n==(TH?5:4)) return;
      for (size_t k=0;k<16;++k) if (!used[k]) { used[k]=1; cur.push_back(g4[k]); rec(); cur.pop_back(); used[k]=0; } };
    rec(); state("closed4"+std::to_string(a));
  }});
  // outline and one hole / two holes: refused iff any two segments cross or touch other than in common vertices
  auto P = lattice_polygons(2,2,3,9,false); std::vector<std::vector<IP>> ex; for (size_t i=0;i<P.size();i+=(TH?3:6)) ex.push_back(P[i]);
  std::vector<std::vector<IP>> tr; { std::vector<IP> q; for (int x=-1;x<=9;x+=(TH?1:2)) for (int y=-1;y<=9;y+=2) q.push_back({x,y});
    for (size_t i=0;i<q.size();++i) for (size_t j=i+1;j<q.size();++j) for (size_t k=j+1;k<q.size();++k) if (ori(q[i],q[j],q[k])) tr.push_back({q[i],q[j],q[k]}); }
  for (size_t i0=0;i0<ex.size();++i0) chunks.push_back({"hole-"+std::to_string(i0), [=]{
    std::vector<IP> p; for (auto& q : ex[i0]) p.push_back({4*q[0],4*q[1]}); long cnt=0;
    for (size_t k=i0%3;k<tr.size();k+=3) { auto& h=tr[k]; bool x=false, share=false;
      for (size_t i=0;i<3;++i) for (size_t j=0;j<p.size();++j) { const IP&a=h[i],&b=h[(i+1)%3],&c=p[j],&d=p[(j+1)%p.size()]; x|=ref_inter(a,b,c,d); share|=(a==c)||((a==c&&b==d)||(a==d&&b==c)); }
      if (share && !x) continue;      // contact in a vertex only: not claimed
      ++cnt; ok(x);
      Domain D([](const Vec2d&){return 1.0;}, 500.0); Tr t= cnt%2?Tr{0.25,0,0}:Tr{2,-5,9};
      double fx = cnt%5==1 ? 8 : cnt%5==3 ? 0.125 : 1;   // also stretched domains
      auto mk=[&](bool e,const std::vector<IP>& v){ std::vector<Vec2d> c; for (auto& q : v) { Vec2d w=V(q,t); w.x*=fx; c.push_back(w); } (e?D.add_exterior_boundary():D.add_interior_boundary()).set_shape_from_coordinates(c,std::vector<int>(c.size(),1)); };
      if (cnt%3) { mk(true,p); mk(false,h); } else { mk(false,h); mk(true,p); }
      bool v=valid(D);
      if (v==x) bad("outline "+T(p)+" with hole "+T(h)+" is "+(v?"accepted although they intersect":"refused although they do not touch")); }
    state("hole"+T(p));
  }});
  // two holes against each other, outline far away
  for (size_t part=0;part<16;++part) chunks.push_back({"twoholes-"+std::to_string(part), [=]{
    std::vector<IP> big={{-9,-9},{19,-9},{19,19},{-9,19}}; std::vector<std::vector<IP>> s; for (size_t k=0;k<tr.size();k+=(TH?7:17)) s.push_back(tr[k]);
    int nth=0; for (size_t ia=part;ia<s.size();ia+=16) for (auto& b : s) { auto& a=s[ia]; bool x=false,share=false; for (int i=0;i<3;++i) for (int j=0;j<3;++j) { x|=ref_inter(a[i],a[(i+1)%3],b[j],b[(j+1)%3]); share|=a[i]==b[j]; }
      if (share) continue; ok(x);
      Domain D([](const Vec2d&){return 1.0;},500.0); Tr t{1,0,0}; auto mk=[&](bool e,const std::vector<IP>& v){ std::vector<Vec2d> c; for (auto& q : v) c.push_back(V(q,t)); (e?D.add_exterior_boundary():D.add_interior_boundary()).set_shape_from_coordinates(c,std::vector<int>(c.size(),1)); };
      int ar=(nth++)%4; if (ar==3) mk(false,b); if (ar!=2) mk(true,big); mk(false,a); if (ar==1) mk(false,{{14,14},{16,14},{16,16}}); if (ar==2) mk(true,big); if (ar!=3) mk(false,b); if (ar==1) mk(false,{{-7,-7},{-6,-7},{-6,-6}}); bool v=valid(D);
      if (v==x) bad("two holes "+T(a)+" and "+T(b)+" are "+(v?"accepted although they intersect":"refused although they do not touch")); }
    state("twoholes"+std::to_string(part));
  }});
  // small holes across, inside and outside of long sides, at every distance from the middle of the side
  for (int k0=0;k0<8;++k0) chunks.push_back({"longside-"+std::to_string(k0), [=]{
    for (int L : {20,60,200}) for (int W : {20,60}) for (int side=0;side<4;++side) { int len=side%2?W:L;
      for (int u=2+k0;u<len-2;u+=TH?8:(len>60?24:8)) for (int off=-4;off<=4;++off) { if (off==-2||off==2) continue;
        // triangle with base 2 and height 2 whose lower corner is off above the side
        std::vector<IP> h={{u-1,off-1},{u+1,off-1},{u,off+1}}; std::vector<IP> o={{0,0},{L,0},{L,W},{0,W}};
        for (auto& q : h) { int x=q[0],y=q[1]; if (side==1) q={L-y,x}; if (side==2) q={L-x,W-y}; if (side==3) q={y,W-x}; }
        bool x=false,share=false; for (int i=0;i<3;++i) for (int j=0;j<4;++j) { const IP&a=h[i],&b=h[(i+1)%3],&c=o[j],&d=o[(j+1)%4]; x|=ref_inter(a,b,c,d); share|=a==c; }
        if (share) continue; ok(x);
        Domain D([](const Vec2d&){return 1.0;},5000.0); Tr t{0.1,-3,1}; auto mk=[&](bool e,const std::vector<IP>& v){ std::vector<Vec2d> c; for (auto& q : v) c.push_back(V(q,t)); (e?D.add_exterior_boundary():D.add_interior_boundary()).set_shape_from_coordinates(c,std::vector<int>(c.size(),1)); };
        if (u%2) { mk(true,o); mk(false,h); } else { mk(false,h); mk(true,o); }
        bool v=valid(D); if (v==x) bad("outline "+T(o)+" with small hole "+T(h)+" is "+(v?"accepted although they intersect":"refused although they do not touch")); } }
    state("longside"+std::to_string(k0)); }});
  // outlines given edge by edge: any order closes, a missing or reversed edge does not
  chunks.push_back({"edges", [=]{
    for (size_t i=0;i<P.size();i+=(TH?1:5)) { auto& p=P[i]; size_t n=p.size(); if (n>6) continue;
      std::vector<int> ord(n); for (size_t k=0;k<n;++k) ord[k]=k; int np=0;
      do { if (++np>24) break;
        for (int fault=0; fault<(int)(2*n+1); ++fault) { // 0 none, 1..n: edge k missing, n+1..2n: edge k reversed
          Domain D; auto& b=D.add_exterior_boundary(); std::vector<Vertex*> v; for (auto& q : p) v.push_back(&D.add_vertex(q[0],q[1]));
          for (int k : ord) { if (fault==k+1) continue; bool r = fault==(int)n+1+k; if (r) b.add_edge(*v[(k+1)%n],*v[k],1); else b.add_edge(*v[k],*v[(k+1)%n],1); }
          ok(fault!=0); bool ac=valid(D);
          if (ac!=(fault==0)) bad(std::string("outline ")+T(p)+(fault==0?"":fault<=(int)n?" with a missing edge":" with a reversed edge")+" is "+(ac?"accepted":"refused"));
          else if (np==1) { auto e=mesh_refused(D,fault==0); if (!e.empty()) bad(e+": "+T(p)+" fault "+std::to_string(fault)); }
        }
      } while (std::next_permutation(ord.begin(),ord.end()));
      state("edges"+T(p)); }
  }});
  chunks.push_back({"degenerate", [=]{
    // number of exterior / interior / empty boundaries in every order
    std::vector<std::string> seqs={""}; for (size_t i=0;i<seqs.size();++i) if (seqs[i].size()<3) for (char c : {'E','I','e','i','C'}) seqs.push_back(seqs[i]+c);
    for (auto& s : seqs) { Domain D([](const Vec2d&){return 1.0;},500.0); int ext=0,emp=0; double off=0; bool clash=false;
      for (char c : s) { auto& b = (c=='E'||c=='e')?D.add_exterior_boundary():D.add_interior_boundary(); if (c=='E'||c=='e') ++ext; if (c=='e'||c=='i') ++emp; else if (c=='C') { b.set_shape_circle(1,Vec2d{off,0.5},0.5,24); off+=2; } else { double w = c=='E'?8:1; b.set_shape_rectangle(1,Vec2d{off,0.0},w,w); off+= c=='E'?20:2; } }
      bool need = ext>=1 && emp==0; bool v=valid(D); ok(need); state("deg"+s);
      if (!need && v) bad("domain with boundaries '"+s+"' (E/I/C: exterior/interior/circular interior, lower case: without edges) is accepted");
      if (need && !v && s=="E") bad("simple domain refused");
      if (!need) { auto e=mesh_refused(D,false); if (!e.empty()) bad(e+" ("+s+")"); } (void)clash;
    } }});
}

// ---------------------------------------------------------------- C16
static std::string outline_err(Domain& D, Boundary& b, bool ext, const std::vector<std::array<double,2>>& pts, const std::vector<int>& cols, double ms, double mr, bool props, double tol)
{ // pts in the given order; expected edges: pts[i]->pts[i+1] colour cols[i], reversed when the direction does not match
  size_t n=pts.size(); double a=0; for (size_t i=0;i<n;++i) a+=pts[i][0]*pts[(i+1)%n][1]-pts[(i+1)%n][0]*pts[i][1];
  bool keep=(a>0)==ext;
  if (b.size()!=n) return "outline has "+std::to_string(b.size())+" edges instead of "+std::to_string(n);
  std::vector<char> hit(n,0);
  const Edge* prev=nullptr; const Edge* first=nullptr;
  for (auto& e : b.edges()) {
    if (!first) first=e.get();
    if (prev && &prev->v2()!=&e->v1()) return "consecutive outline edges are not connected";
    prev=e.get(); bool f=false;
    for (size_t i=0;i<n;++i) { auto p=pts[i],q=pts[(i+1)%n]; if(!keep) std::swap(p,q);
      if (std::hypot(e->v1().xy().x-p[0],e->v1().xy().y-p[1])<=tol&&std::hypot(e->v2().xy().x-q[0],e->v2().xy().y-q[1])<=tol) { f=true; if (hit[i]++) return "outline edge occurs twice"; if (e->color()!=cols[i]) return "outline edge has marker "+std::to_string(e->color())+" instead of "+std::to_string(cols[i]);
        if (!e->on_boundary()) return "outline edge is not flagged as boundary"; } }
    if (!f) return "outline edge "+S(e->v1().xy().x)+","+S(e->v1().xy().y)+" -> "+S(e->v2().xy().x)+","+S(e->v2().xy().y)+" does not belong to the shape";
    if (props && (e->v1().mesh_size()!=ms||e->v1().size_range()!=mr)) return "vertex size properties are not those given";
  }
  if (prev && first && &prev->v2()!=&first->v1()) return "outline is not closed";
  return "";
}
static std::string tmpfile_() { return cfg().out+"/csv-"+std::to_string(getpid())+".csv"; }
static void shape_chunks()
{
  std::vector<Vec2d> ctr={{0.0,0.0},{1.5,-2.0},{-7.0,3.25},{120.0,80.0}};
  chunks.push_back({"shapes", [=]{
    for (int ext=0;ext<2;++ext) for (auto& c : ctr) for (double w : {0.04,0.5,1.0,2.75}) for (double hh : {0.06,0.25,1.0,4.0}) for (double ms : {0.0,0.3}) for (double mr : {0.0,1.2}) for (int col : {0,1,17}) {
      auto run=[&](const std::string& nm, std::vector<std::array<double,2>> pts, std::function<void(Boundary&)> f) {
        Domain D([](const Vec2d&){return 1.0;},1000.0); auto& b=ext?D.add_exterior_boundary():D.add_interior_boundary(); f(b); ok();
        auto e=outline_err(D,b,ext,pts,std::vector<int>(pts.size(),col),ms,mr,true,1e-9); if (!e.empty()) bad(nm+" at ("+S(c.x)+","+S(c.y)+") "+(ext?"exterior":"interior")+": "+e);
        double a=0; size_t n=pts.size(); for (size_t i=0;i<n;++i) a+=0.5*(pts[i][0]*pts[(i+1)%n][1]-pts[(i+1)%n][0]*pts[i][1]);
        if (std::fabs(b.area()-(ext?1:-1)*std::fabs(a))>1e-8*std::fabs(a)+1e-11*(1+c.x*c.x)) bad(nm+": area of the outline is "+S(b.area())+" instead of "+S((ext?1:-1)*std::fabs(a)));
        size_t k=b.size(); b.set_shape_square(3,Vec2d{50.0,50.0},1.0); if (b.size()!=k) bad(nm+": a shape assigned to a defined outline changes it");
        if (D.vertices().size()!=pts.size()) bad(nm+": number of domain vertices is "+std::to_string(D.vertices().size()));
        state(nm+S(c.x)+S(w)+S(hh)+std::to_string(ext));
      };
      run("rectangle",{{c.x-w/2,c.y-hh/2},{c.x+w/2,c.y-hh/2},{c.x+w/2,c.y+hh/2},{c.x-w/2,c.y+hh/2}},[&](Boundary& b){ b.set_shape_rectangle(col,c,w,hh,ms,mr); });
      if (hh==1.0) { run("square",{{c.x-w/2,c.y-w/2},{c.x+w/2,c.y-w/2},{c.x+w/2,c.y+w/2},{c.x-w/2,c.y+w/2}},[&](Boundary& b){ b.set_shape_square(col,c,w,ms,mr); });
        for (int n : {0,3,4,5,8,30}) { double r = n==0? w/std::sqrt(3.0):w; int k=n==0?3:n; std::vector<std::array<double,2>> p; for (int i=0;i<k;++i) p.push_back({c.x+r*std::cos(2*M_PI*i/k),c.y+r*std::sin(2*M_PI*i/k)});
          if (n==0) run("triangle",p,[&](Boundary& b){ b.set_shape_triangle(col,c,w,ms,mr); });
          else run("circle with "+std::to_string(n)+" segments",p,[&](Boundary& b){ b.set_shape_circle(col,c,r,n,ms,mr); }); }
        for (int n : {0,1,2}) { Domain D; auto& b=D.add_exterior_boundary(); b.set_shape_circle(col,c,1.0,n); if (b.size()||D.vertices().size()) bad("circle with less than three segments defines an outline"); } }
    } }});
  auto P = lattice_polygons(2,2,3,9,true); size_t n=P.size(), st=TH?1:2, step=(n+15)/16;
  for (size_t o=0;o<n;o+=step) chunks.push_back({"csv-"+std::to_string(o), [=]{
    for (size_t i=o;i<std::min(n,o+step);i+=st) for (int rev=0;rev<2;++rev) for (int ext=0;ext<2;++ext) {
      auto p=P[i]; if (rev) std::reverse(p.begin(),p.end());
      for (int fmt=0;fmt<4;++fmt) { // 0: x,y,c  1: x,y,c,s,r  2: with blanks and many digits  3: x,y,c,s
        std::string fn=tmpfile_(); std::vector<std::array<double,2>> pts; std::vector<int> cols; std::vector<double> sz,rg;
        { std::ofstream f(fn); f.precision(17); for (size_t k=0;k<p.size();++k) { double x=p[k][0]*(fmt==2?1.0/3:1)+0.1*fmt, y=p[k][1]-0.7*fmt; int c=(int)((k*5+i)%7); double s=0.2+0.1*k, r=1+0.5*k;
            pts.push_back({x,y}); cols.push_back(c); sz.push_back(fmt==1||fmt==2||fmt==3?s:0); rg.push_back(fmt==1||fmt==2?r:0);
            if (fmt==2) f<<"  "<<x<<" ,  "<<y<<" , "<<c<<" , "<<s<<" , "<<r<<" \n"; else { f<<x<<","<<y<<","<<c; if (fmt==1) f<<","<<s<<","<<r; if (fmt==3) f<<","<<s; f<<(k+1==p.size()&&fmt==0?"":"\n"); } } }
        Domain D; auto& b=ext?D.add_exterior_boundary():D.add_interior_boundary(); ok(); std::string e;
        try { b.set_shape_from_csv(fn); e=outline_err(D,b,ext,pts,cols,0,0,false,0); } catch (std::exception& x) { e=std::string("file is refused: ")+x.what(); }
        if (e.empty()) for (auto& v : D.vertices()) { bool f=false; for (size_t k=0;k<pts.size();++k) if (v->xy().x==pts[k][0]&&v->xy().y==pts[k][1]) { f=true; if (v->mesh_size()!=sz[k]||v->size_range()!=rg[k]) e="vertex sizes from the file are not used"; } if (!f) e="vertex not from the file"; }
        if (!e.empty()) bad("CSV outline "+T(p)+" format "+std::to_string(fmt)+": "+e);
        // the same outline given as coordinate list must be identical
        Domain D2; auto& b2=ext?D2.add_exterior_boundary():D2.add_interior_boundary(); std::vector<Vec2d> c,pr; for (size_t k=0;k<pts.size();++k) { c.push_back({pts[k][0],pts[k][1]}); pr.push_back({sz[k],rg[k]}); }
        b2.set_shape_from_coordinates(c,cols,pr); e=outline_err(D2,b2,ext,pts,cols,0,0,false,0); if (!e.empty()) bad("coordinate outline "+T(p)+": "+e);
        unlink(fn.c_str());
        state("csv"+T(p)+std::to_string(fmt));
      } } }});
  // every malformed cell at every position is reported and leaves the outline undefined
  chunks.push_back({"csvbad", [=]{
    std::vector<std::vector<std::string>> base={{"0","0","1","0.5","1"},{"2","0","2","0.5","1"},{"2","2","3","0.5","1"},{"0","2","4","0.5","1"}};
    std::vector<std::string> bads={"abc","","  ","--1","1e999999","x1","nope,"};
    for (int r=0;r<4;++r) for (int c=0;c<5;++c) for (auto& w : bads) { auto t=base; t[r][c]=w; if (w=="nope,") t[r][c]="nope";
      std::string fn=tmpfile_(); { std::ofstream f(fn); for (auto& row : t) { for (size_t k=0;k<row.size();++k) f<<(k?",":"")<<row[k]; f<<"\n"; } }
      if ((w==""&&c==4)||(w=="1e999999"&&c==2)) continue;   // trailing empty cell is a missing optional value
      Domain D; auto& b=D.add_exterior_boundary(); bool th=false; try { b.set_shape_from_csv(fn); } catch (std::exception&) { th=true; } ok(); unlink(fn.c_str());
      if (!th) bad("CSV cell '"+w+"' in row "+std::to_string(r+1)+" column "+std::to_string(c+1)+" is accepted"); else if (b.size()) bad("a refused CSV file defines outline edges"); }
    for (int r=0;r<4;++r) for (int k=0;k<3;++k) { std::string fn=tmpfile_(); { std::ofstream f(fn); for (int q=0;q<4;++q) { int m=q==r?k:5; for (int z=0;z<m;++z) f<<(z?",":"")<<base[q][z]; f<<"\n"; } }
      Domain D; auto& b=D.add_exterior_boundary(); bool th=false; try { b.set_shape_from_csv(fn); } catch (std::exception&) { th=true; } ok(); unlink(fn.c_str());
      if (!th) bad("CSV row with only "+std::to_string(k)+" cells is accepted"); }
    for (int r=0;r<4;++r) { auto t=base; t[r][2]="-3"; std::string fn=tmpfile_(); { std::ofstream f(fn); for (auto& row : t) { for (size_t k=0;k<row.size();++k) f<<(k?",":"")<<row[k]; f<<"\n"; } }
      Domain D; auto& b=D.add_exterior_boundary(); bool th=false; try { b.set_shape_from_csv(fn); } catch (std::exception&) { th=true; } ok(); unlink(fn.c_str()); if (!th) bad("negative marker in a CSV file is accepted"); }
    Domain D; auto& b=D.add_exterior_boundary(); bool th=false; try { b.set_shape_from_csv(cfg().out+"/does-not-exist.csv"); } catch (std::exception&) { th=true; } ok(); if (!th||b.size()) bad("missing CSV file is not reported"); state("csvbad");
  }});
  // outlines sharing corners use common vertices
  chunks.push_back({"shared", [=]{
    for (int dx=-2;dx<=2;++dx) for (int dy=-2;dy<=2;++dy) { if (!dx&&!dy) continue;
      Domain D; auto& a=D.add_exterior_boundary(); auto& b=D.add_exterior_boundary(); a.set_shape_from_coordinates({{0.0,0.0},{2.0,0.0},{2.0,2.0},{0.0,2.0}},{1,1,1,1}); b.set_shape_from_coordinates({{0.0+dx,0.0+dy},{2.0+dx,0.0+dy},{2.0+dx,2.0+dy},{0.0+dx,2.0+dy}},{2,2,2,2});
      std::set<std::pair<double,double>> s; for (auto& v : D.vertices()) s.insert({v->xy().x,v->xy().y}); int common=(std::abs(dx)%2==0&&std::abs(dy)%2==0)?((dx?1:2)*(dy?1:2)):0; ok();
      if (s.size()!=D.vertices().size()||(int)D.vertices().size()!=8-common) bad("two squares with offset "+std::to_string(dx)+","+std::to_string(dy)+" have "+std::to_string(D.vertices().size())+" vertices"); state("shared"+std::to_string(dx)+std::to_string(dy)); }
  }});
}

// ---------------------------------------------------------------- C17
static void size_chunks()
{
  auto P = lattice_polygons(2,2,3,9,false); std::vector<std::string> sfs={"c:0.3","c:1","c:5","l:0.4,0.2,0","l:0.5,0,0.3","p:0.2,0.4,1,1","p:0.1,1,0,0"};
  std::vector<std::array<double,2>> props={{0,0},{0.1,0},{0.1,0.5},{0.4,2},{3,1},{0,0.7}};
  size_t n=P.size(), st=TH?1:4, step=(n+31)/32;
  for (size_t o=0;o<n;o+=step) chunks.push_back({"size-"+std::to_string(o), [=]{
    for (size_t i=o;i<std::min(n,o+step);i+=st) for (auto& sf : sfs) for (size_t pr=0;pr<props.size();++pr) for (int hole=0;hole<2;++hole) {
      auto f=size_fun(sf); Loop l=poly_loop(P[i],'E','e',2.0); for (size_t k=0;k<l.pts.size();++k) { auto& q=props[(pr+(pr?k:0))%props.size()]; l.pts[k].s=q[0]; l.pts[k].r=q[1]; }
      DomSpec d=dom1(l,sf); if (hole) { d.fv.push_back({1.5,1.25,pr%2?0.05:0,pr%3==0?0:pr%3==1?2.0:0.3}); d.fv.push_back({1.0,2.5,0.6,0}); }
      auto D=Session::build(d); std::string who=to_text(d); state(who);
      auto at=[&](double x,double y){ return D->size_function(Vec2d{x,y}); };
      for (int x=-1;x<=9;++x) for (int y=-1;y<=9;++y) { double X=x*0.5,Y=y*0.5, u=f(X,Y); if (u<=0) continue; double h=at(X,Y); ok(h<u*0.999);
        if (!(h>0)||!std::isfinite(h)) bad("size at ("+S(X)+","+S(Y)+") is "+S(h)+": "+who);
        if (h>u*(1+1e-12)) bad("size at ("+S(X)+","+S(Y)+") is "+S(h)+", larger than the user's "+S(u)+": "+who);
        double lo=u; for (size_t k=0;k<l.pts.size();++k) { auto&a=l.pts[k];auto&b=l.pts[(k+1)%l.pts.size()]; double el=std::hypot(a.x-b.x,a.y-b.y); lo=std::min(lo,el); if (a.s>0) lo=std::min(lo,a.s); } for (auto& v : d.fv) if (v.s>0) lo=std::min(lo,v.s);
        if (h<lo*(1-1e-12)) bad("size at ("+S(X)+","+S(Y)+") is "+S(h)+", smaller than every prescribed size: "+who);
        // influence of the prescribed sizes within their range
        bool any=false; auto within=[&](double px,double py,double sz,double rg,const std::string& w){ double dd=std::hypot(X-px,Y-py); if (dd<=rg && h>(0.3678*std::min(sz,u)+0.6322*u)*(1+1e-6)) bad("size at ("+S(X)+","+S(Y)+") is "+S(h)+", not affected by "+w+" of size "+S(sz)+" and range "+S(rg)+": "+who); };
        bool longs=true; for (size_t k=0;k<l.pts.size();++k) { auto&a=l.pts[k];auto&b=l.pts[(k+1)%l.pts.size()]; if (std::hypot(a.x-b.x,a.y-b.y)<u) longs=false; if (a.s>0) { any=true; if (a.r>0) within(a.x,a.y,a.s,a.r,"the corner"); } }
        for (auto& v : d.fv) if (v.s>0) { any=true; if (v.r>0) within(v.x,v.y,v.s,v.r,"the fixed vertex"); }
        if (!any && longs && std::fabs(h-u)>1e-12*u) bad("size at ("+S(X)+","+S(Y)+") is "+S(h)+" instead of the user's "+S(u)+" without any reason: "+who);
      }
      for (size_t k=0;k<l.pts.size();++k) { auto&a=l.pts[k]; auto&b=l.pts[(k+1)%l.pts.size()]; auto&z=l.pts[(k+l.pts.size()-1)%l.pts.size()]; double lim=std::min(std::hypot(a.x-b.x,a.y-b.y),std::hypot(a.x-z.x,a.y-z.y)); if (a.s>0) lim=std::min(lim,a.s); double h=at(a.x,a.y); ok();
        if (h>lim*(1+1e-12)) bad("size at the corner ("+S(a.x)+","+S(a.y)+") is "+S(h)+", larger than prescribed by the corner and its edges ("+S(lim)+"): "+who); }
      for (auto& v : d.fv) if (v.s>0) { ok(); double h=at(v.x,v.y), u=f(v.x,v.y); if (h>std::min(v.s,u)*(1+1e-12)) bad("size at the fixed vertex ("+S(v.x)+","+S(v.y)+") is "+S(h)+" instead of at most "+S(std::min(v.s,u))+": "+who); }
      // the influence of a corner decays: far away the user's function is returned
      double h=at(1000.0,1000.0), u=f(1000,1000); if (sf[0]=='c' && std::fabs(h-u)>1e-6*u) bad("size far away from the domain is "+S(h)+" instead of "+S(u)+": "+who);
      // export on a grid
      if (pr==1) for (int nx : {1,3,5}) for (int ny : {1,2,7}) { std::ostringstream os; Vec2d lo{0.0,0.5},hi{4.0,3.0}; D->export_size_function(os,lo,hi,nx,ny); ok();
        std::istringstream is(os.str()); std::string tag,line; double a,b,c,e2; int gx,gy; is>>tag>>a>>b>>c>>e2>>gx>>gy; std::string rest((std::istreambuf_iterator<char>(is)),{}); for (auto& ch : rest) if (ch==',') ch=' ';
        std::istringstream rs(rest); std::vector<double> vals; double v; while (rs>>v) vals.push_back(v);
        if (tag!="SIZE-FUNCTION"||gx!=nx||gy!=ny||a!=lo.x||b!=lo.y||c!=hi.x||e2!=hi.y) bad("header of the exported size function is wrong");
        std::vector<double> want; for (int y=0;y<ny;++y) for (int x=0;x<nx;++x) want.push_back(at(lo.x+x*(hi.x-lo.x)/nx,lo.y+y*(hi.y-lo.y)/ny));
        if (vals.size()!=want.size()) bad("exported size function has "+std::to_string(vals.size())+" instead of "+std::to_string(want.size())+" values ("+std::to_string(nx)+"x"+std::to_string(ny)+")"); else for (size_t k=0;k<vals.size();++k) if (std::fabs(vals[k]-want[k])>1.01e-5) { bad("exported size function value "+std::to_string(k)+" is wrong"); break; } }
    } }});
  // boundary subdivision: straight sides are divided according to the size
  for (int k0=0;k0<8;++k0) chunks.push_back({"subdiv-"+std::to_string(k0), [=]{
    for (double L=0.5+0.37*k0; L<(DEEP?30:14); L+=8*0.37) for (double H : {1.0,2.5,4.0}) for (double h=0.2; h<3; h*=(DEEP?1.07:1.23)) for (int rot=0;rot<4;++rot) for (char mode : {'e','c'}) {
      double a=0.6*rot; Loop l; l.mode=mode; double c[4][2]={{0,0},{L,0},{L,H},{0,H}}; for (int k=0;k<4;++k) l.pts.push_back({c[k][0]*cos(a)-c[k][1]*sin(a),c[k][0]*sin(a)+c[k][1]*cos(a),k+1,0,0});
      DomSpec d=dom1(l,"c:"+num(h)); Session s({d}); s.apply("N"); auto& m=*s.mesh[0]; double mx=0,mn=1e300; int cnt=0; double side[4]={0,0,0,0}; int ns[4]={0,0,0,0}; double smx[4]={0,0,0,0},smn[4]={1e9,1e9,1e9,1e9};
      for (auto& e : m.boundary_edges()) { double q=e->length(); mx=std::max(mx,q); mn=std::min(mn,q); ++cnt; int k=e->color()-1; if (k>=0&&k<4) { side[k]+=q; ++ns[k]; smx[k]=std::max(smx[k],q); smn[k]=std::min(smn[k],q); } }
      state("sub"+S(L)+S(H)+S(h)); 
      for (int k=0;k<4;++k) { double len=k%2?H:L; ok(ns[k]>1); double hh=std::min(h,len);
        std::string w="side of length "+S(len)+" with element size "+S(h)+" (rectangle "+S(L)+"x"+S(H)+")";
        if (std::fabs(side[k]-len)>1e-9) bad(w+" has sub-edges of total length "+S(side[k]));
        if (smx[k]>1.5*h*(1+1e-6) && ns[k]>1) bad(w+" has a sub-edge of length "+S(smx[k]));
        if (len>2*h && ns[k]<len/h*0.66) bad(w+" is divided into only "+std::to_string(ns[k])+" parts");
        if (L>=h&&H>=h && ns[k]>len/hh*1.5+1.01) bad(w+" is divided into "+std::to_string(ns[k])+" parts");
        if (L>=h&&H>=h && ns[k]>1 && smn[k]<0.5*h*(1-1e-6)) bad(w+" has a sub-edge of length only "+S(smn[k])); }
    } }});
  // element sizes of finished meshes follow a uniform size
  for (int k0=0;k0<8;++k0) chunks.push_back({"elems-"+std::to_string(k0), [=]{
    for (size_t i=k0;i<P.size();i+=8*(DEEP?1:3)) for (double h : {0.5,0.35}) {
      DomSpec d=dom1(poly_loop(P[i],'E','e',3.0),"c:"+num(h)); Session s({d}); s.apply("N"); if (!s.apply("T")) { bad("meshing fails: "+to_text(d)); continue; }
      auto& m=*s.mesh[0]; double A=dom_area(d), mean=A/m.n_elements(), eq=std::sqrt(3.0)/4*h*h; ok(); state("el"+T(P[i])+S(h)); double mx=0; for (auto& t : m.triangles()) mx=std::max(mx,t->max_edge_length());
      if (mx>3*h) bad("longest element side is "+S(mx)+" for element size "+S(h)+": "+to_text(d));
      if (mean>3*eq||mean<eq/4) bad("mean element area is "+S(mean)+" for element size "+S(h)+" ("+S(mean/eq)+" times the ideal): "+to_text(d)); }
  }});
  // graded meshes: fine where small sizes are prescribed
  chunks.push_back({"graded", [=]{
    for (int corner=0;corner<4;++corner) for (double ms : {0.1,0.2}) for (double mr : {0.0,1.0}) for (char mode : {'e','c'}) {
      Loop l=rect_loop(0,0,6,4,'E',mode); l.pts[corner].s=ms; l.pts[corner].r=mr>0?mr:1.5; DomSpec d=dom1(l,"c:1"); Session s({d}); s.apply("N"); ok(); state("gr"+std::to_string(corner)+S(ms));
      if (!s.apply("T")) { bad("graded meshing fails: "+to_text(d)); continue; }
      double px=l.pts[corner].x,py=l.pts[corner].y; auto& m=*s.mesh[0]; double far=0,near=0; int nf=0,nn=0; for (auto& t : m.triangles()) { double dd=std::hypot(t->xy().x-px,t->xy().y-py); if (dd<0.6) { near+=t->max_edge_length(); ++nn; } if (dd>4) { far+=t->max_edge_length(); ++nf; } }
      if (!nn||!nf||near/nn>4*ms||far/nf<1.25*near/nn) bad("mesh is not refined towards the corner with size "+S(ms)+" ("+S(near/nn)+" near, "+S(far/nf)+" far): "+to_text(d)); }
  }});
}

int main(int argc, char** argv)
{
  parse_args(argc, argv); DEEP = cfg().tier=="thorough"; TH = DEEP || cfg().prop!="C11";
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  { int nul=open("/dev/null",O_WRONLY); dup2(nul,1); }
  auto& pr=cfg().prop;
  if (pr=="C11") validity_chunks(); else if (pr=="C12") { pred_chunks(); location_chunks(); } else if (pr=="C16") shape_chunks(); else if (pr=="C17") size_chunks();
  cfg().op_timeout = TH?3000:600;
  auto go=[&](size_t i){ g_case=chunks[i].name; auto r=in_child([&]{ chunks[i].f(); }); if (!r.empty()) report(chunks[i].name,"-",r); };
  if (!cfg().replay.empty()) {
    FILE* f=fopen(cfg().replay.c_str(),"r"); std::string l; int ch; while(f&&(ch=fgetc(f))!=EOF&&ch!='\n') l+=(char)ch; if (f) fclose(f);
    std::string nm=l.substr(0,l.find(" ||| ")); for (size_t i=0;i<chunks.size();++i) if (chunks[i].name==nm) go(i);
    write_summary(); return 0;
  }
  parallel_cases(chunks.size(), go, nullptr);
  { FILE* f=fopen((cfg().out+"/samples.txt").c_str(),"w"); for (size_t i : {(size_t)0,chunks.size()/3,chunks.size()-1}) fprintf(f,"input slice %s\n",chunks[i].name.c_str()); fclose(f); }
  write_summary({{"histories", std::to_string(sh()->evals.load())}});
}
