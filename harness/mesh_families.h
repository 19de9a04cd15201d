// The bounded families explored per property and tier.
#pragma once

using Ops = std::vector<std::vector<std::string>>;
static std::vector<Case> g_cases;
static void add(const std::vector<DomSpec>& d, const Ops& o, bool must = true) { g_cases.push_back({d, o, must}); }
static void add1(const DomSpec& d, const Ops& o, bool must = true) { g_cases.push_back({{d}, o, must}); }
static Ops chain(const std::vector<std::string>& l) { Ops o; for (auto& x : l) o.push_back({x}); return o; }
static Ops then(Ops a, const Ops& b) { for (auto& x : b) a.push_back(x); return a; }
static Ops deep(const std::vector<std::string>& alpha, int n) { Ops o; for (int i=0;i<n;++i) o.push_back(alpha); return o; }

static DomSpec moved(DomSpec d, double ang, double sc, double ox, double oy)
{
  double c = std::cos(ang), s = std::sin(ang);
  auto f = [&](double& x, double& y){ double a = sc*(c*x-s*y)+ox, b = sc*(s*x+c*y)+oy; x=a; y=b; };
  for (auto& l : d.loops) for (auto& p : l.pts) { f(p.x,p.y); p.s*=sc; p.r*=sc; }
  for (auto& p : d.fv) { f(p.x,p.y); p.s*=sc; p.r*=sc; }
  if (d.sf[0]=='c') d.sf = "c:" + num(sc*atof(d.sf.c_str()+2));
  return d;
}
static std::string Lop(int n, double h, double g, const Pt& a, const Pt& b)
{ return "L:"+std::to_string(n)+","+num(h)+","+num(g)+","+num(a.x)+","+num(a.y)+","+num(b.x)+","+num(b.y); }

static const std::vector<std::vector<IP>>& polys22() { static auto p = lattice_polygons(2,2,3,9); return p; }
// one representative per symmetry-free step: every k-th polygon of the list (deterministic, documented)
static std::vector<std::vector<IP>> every(const std::vector<std::vector<IP>>& p, size_t k, size_t o=0)
{ std::vector<std::vector<IP>> r; for (size_t i=o;i<p.size();i+=k) r.push_back(p[i]); return r; }

static DomSpec with_hole(const std::vector<IP>& P, const std::string& sf, int m, double step=1)
{
  DomSpec d = dom1(rect_loop(0,0,4,4,'E','e'), sf);
  Loop l = poly_loop(P,'I', m==0?'e':'c', step, 1, 1, 11);
  if (m != 1) l = reversed_loop(l);
  d.loops.push_back(l);
  return d;
}
static DomSpec variant(const std::vector<IP>& P, const std::string& sf, int m)
{ // m 0: edges, 1: coordinates, 2: coordinates in clockwise order
  Loop l = poly_loop(P,'E', m==0?'e':'c');
  if (m == 2) l = reversed_loop(l);
  return dom1(l, sf);
}

// Adjacent domains: B left of x=2 ... A right; whole sides match
static std::vector<std::pair<int,int>> vsides(const std::vector<IP>& p, int x)
{ std::vector<std::pair<int,int>> r; size_t n=p.size(); for (size_t i=0;i<n;++i){ auto&a=p[i];auto&b=p[(i+1)%n]; if(a[0]==x&&b[0]==x) r.push_back({std::min(a[1],b[1]),std::max(a[1],b[1])}); } return r; }
static int side_match(const std::vector<IP>& A, const std::vector<IP>& B)
{
  auto ra=vsides(A,2), rb=vsides(B,0); int r=0;
  for (auto& b : rb) { int cov=0; bool cont=true;
    for (auto& a : ra) { int lo=std::max(a.first,b.first), hi=std::min(a.second,b.second); if (hi>lo) { cov+=hi-lo; if (a.first<b.first||a.second>b.second) cont=false; } }
    if (cov) { if (cov==b.second-b.first && cont) r=std::max(r,1); else r=2; } }
  // a point contact without a common side is not a neighborhood the library supports
  return r;
}
static std::vector<std::vector<DomSpec>> neighbor_pairs(size_t nmax, const std::string& s1, const std::string& s2, size_t stride)
{
  std::vector<std::vector<DomSpec>> out; auto P = lattice_polygons(2,2,3,(int)nmax,true); size_t i=0;
  for (auto& A : P) { if (vsides(A,2).empty()) continue;
    for (auto& B : P) if (side_match(A,B)==1 && i++%stride==0)
      out.push_back({dom1(poly_loop(A,'E','e'),s1,1,3), dom1(poly_loop(B,'E','e',1,2,0,21),s2,2,4)}); }
  return out;
}

// pairs of polygons in the same square which share a bent chain of whole sides and nothing else
static std::vector<std::vector<DomSpec>> bent_pairs(const std::string& s1, const std::string& s2, size_t stride, double step=1.5)
{
  std::vector<std::vector<DomSpec>> out; auto P = lattice_polygons(2,2,3,6,false); size_t cnt=0;
  auto fine = [](const std::vector<IP>& p){ std::vector<IP> q; for (auto& x : p) q.push_back({8*x[0],8*x[1]}); return q; };
  for (auto& A : P) for (auto& B : P) {
    size_t n=A.size(), m=B.size(), common=0; bool ok=true; std::set<IP> on;
    for (size_t i=0;i<n&&ok;++i) for (size_t j=0;j<m&&ok;++j) {
      const IP&a=A[i],&b=A[(i+1)%n],&c=B[j],&d=B[(j+1)%m];
      if (a==d && b==c) { ++common; on.insert(a); on.insert(b); continue; }
      if (!seg_touch(a,b,c,d)) continue;
      if ((a==c||a==d||b==c||b==d) && ori(a,b,c)*ori(a,b,d)==0 && ori(c,d,a)*ori(c,d,b)==0 && !(ori(a,b,c)==0&&ori(a,b,d)==0)) continue;   // common corner
      if (ori(a,b,c)==0 && ori(a,b,d)==0 && (a==c||b==d||a==d||b==c) && !(on_seg(a,b,c)&&on_seg(a,b,d)) && !(on_seg(c,d,a)&&on_seg(c,d,b))) { // collinear, end to end
        if ((a==d&&!on_seg(a,b,c)&&!on_seg(c,d,b))||(b==c&&!on_seg(a,b,d)&&!on_seg(c,d,a))||(a==c&&!on_seg(a,b,d)&&!on_seg(c,d,b))||(b==d&&!on_seg(a,b,c)&&!on_seg(c,d,a))) continue; }
      ok=false;
    }
    if (!ok || common<2) continue;
    size_t contact=0; for (auto& p : A) for (auto& q : B) contact += p==q;
    if (contact!=common+1) continue;                      // one chain, no further contact
    auto fa=fine(A), fb=fine(B);
    for (int x=1;x<16&&ok;x+=2) for (int y=1;y<16&&ok;y+=2) if (point_in(fa,{x,y})>0 && point_in(fb,{x,y})>0) ok=false;
    if (!ok || cnt++%stride) continue;
    out.push_back({dom1(poly_loop(A,'E','e',step),s1,1,3), dom1(poly_loop(B,'E','e',step,0,0,21),s2,2,4)});
  }
  return out;
}

static void fam_poly(const std::vector<std::vector<IP>>& P, const std::vector<std::string>& sfs, const Ops& o)
{ for (auto& p : P) for (auto& s : sfs) add1(dom1(poly_loop(p,'E','e'),s), o); }
static void fam_moved(const std::vector<std::vector<IP>>& P, const std::vector<std::string>& sfs, const Ops& o)
{
  for (auto& p : P) for (auto& s : sfs) {
    add1(moved(dom1(poly_loop(p,'E','e'),s), 0.5235987755982988, 1, -3.25, 7.5), o);
    add1(moved(dom1(poly_loop(p,'E','e'),s), 2.1, 2.5, 40, -31), o);
    add1(moved(dom1(poly_loop(p,'E','e'),s), -1.0, 0.2, -0.3, -0.1), o);
  }
}
static void fam_holes(const std::vector<std::vector<IP>>& P, const std::vector<std::string>& sfs, const Ops& o, int modes=1)
{ for (auto& p : P) for (auto& s : sfs) for (int m=0;m<modes;++m) add1(with_hole(p,s,m), o); }
static void fam_two_holes(size_t stride, const std::vector<std::string>& sfs, const Ops& o)
{
  auto T = lattice_polygons(1,1,3,4); size_t i=0;
  for (auto& a : T) for (auto& b : T) for (int ox=0;ox<=2;ox+=2) for (int oy=0;oy<=2;++oy) { if (ox==0&&oy<2) continue; if (i++%stride) continue;
    for (auto& s : sfs) { DomSpec d=dom1(rect_loop(0,0,5,5,'E','e'),s);
      d.loops.push_back(reversed_loop(poly_loop(a,'I','e',1,1,1,11))); d.loops.push_back(reversed_loop(poly_loop(b,'I','e',1,1+ox,1+oy,21)));
      add1(d,o); } }
}
static void fam_rectlayer(const std::vector<double>& Ws, const std::vector<double>& hs, const std::vector<double>& gs, const std::vector<std::string>& sfs, const Ops& after, int nmax=3)
{
  for (double W : Ws) for (double H : {1.0,1.5,2.0}) for (auto& sf : sfs) {
    DomSpec d = dom1(rect_loop(0,0,W,H,'E','e'), sf); auto& p = d.loops[0].pts;
    for (int a=0;a<4;++a) for (int b=0;b<4;++b) for (int n=1;n<=nmax;++n) for (double h : hs) for (double g : gs)
      add1(d, then(chain({"N",Lop(n,h,g,p[a],p[b])}), after));
  }
}
static void fam_polylayer(const std::vector<std::vector<IP>>& P, const std::vector<std::string>& sfs, const std::vector<double>& hs, const Ops& after, int nmax=2, bool closed_only=false)
{
  for (auto& q : P) for (auto& sf : sfs) {
    DomSpec d = dom1(poly_loop(q,'E','e'), sf); auto& p = d.loops[0].pts; int k=(int)p.size();
    for (int a=0;a<k;++a) for (int b=0;b<k;++b) { if (closed_only && a!=b) continue;
      for (int n=1;n<=nmax;++n) for (double h : hs) add1(d, then(chain({"N",Lop(n,h,1.2,p[a],p[b])}), after)); }
  }
}
static void fam_holelayer(const std::vector<std::vector<IP>>& P, const std::vector<std::string>& sfs, const std::vector<double>& hs, const Ops& after, bool must)
{
  for (auto& q : P) for (auto& sf : sfs) {
    DomSpec d = with_hole(q, sf, 0); auto& p = d.loops[1].pts; int k=(int)p.size();
    for (int a=0;a<k;++a) for (int b=0;b<k;++b) for (int n=1;n<=3;n+=2) for (double h : hs) { if (a!=b && n==3) continue;
      add1(d, then(chain({"N",Lop(n,h,1.2,p[a],p[b])}), after), must); }
  }
}
static std::vector<std::array<double,2>> half_grid() { std::vector<std::array<double,2>> q; for(int i=1;i<8;++i) for(int j=1;j<8;++j) q.push_back({i*0.5,j*0.5}); return q; }
static void fam_fixv(const std::vector<std::string>& sfs, size_t stride, const Ops& o)
{
  auto q = half_grid(); size_t c=0;
  for (auto& sf : sfs) for (size_t i=0;i<q.size();++i) for (size_t j=i+1;j<=q.size();++j) { if (j<q.size() && c++%stride) continue;
    DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),sf);
    d.fv.push_back({q[i][0],q[i][1],0,0}); if (j<q.size()) d.fv.push_back({q[j][0],q[j][1],0,0});
    add1(d,o); }
}
static void fam_fixe(const std::vector<std::string>& sfs, size_t stride, const Ops& o)
{
  auto q = half_grid(); size_t c=0;
  for (auto& sf : sfs) {
    for (size_t i=0;i<q.size();++i) for (size_t j=i+1;j<q.size();++j) { if (c++%stride) continue;
      DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),sf);
      d.fv.push_back({q[i][0],q[i][1],0,0}); d.fv.push_back({q[j][0],q[j][1],0,0}); d.fe.push_back({'f','f',0,1}); add1(d,o,false); }
    for (size_t i=0;i<q.size();++i) for (int b=0;b<4;++b) { if (c++%stride) continue;
      DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),sf);
      d.fv.push_back({q[i][0],q[i][1],0,0}); d.fe.push_back({'b','f',b,0}); add1(d,o,false); }
    for (int b=0;b<2;++b) { DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),sf); d.fe.push_back({'b','b',b,b+2}); add1(d,o,false); }
  }
}

// ---- unusual but valid domains: every base outline combined with every feature
static std::vector<IP> ip(std::initializer_list<IP> l) { return l; }
static Loop ring(double cx, double cy, double r, int n, char type, int c0, int cstep)
{ Loop l; l.type=type; l.mode='c'; for (int i=0;i<n;++i) { double a=2*M_PI*i/n; l.pts.push_back({cx+r*std::cos(a),cy+r*std::sin(a),c0+cstep*i,0,0}); } return l; }
static std::vector<DomSpec> wild_bases()
{
  std::vector<DomSpec> b; auto P=[&](std::vector<IP> v, const char* sf, double st=1, char mode='e'){ b.push_back(dom1(poly_loop(v,'E',mode,st),sf)); };
  P({{0,0},{5,0},{5,3},{0,3}},"c:0.6");
  P({{0,0},{10,0},{10,1},{0,1}},"c:0.5");                                             // long and thin
  P({{0,0},{4,0},{4,1},{1,1},{1,3},{4,3},{4,4},{0,4}},"c:0.55");                      // C
  P({{0,0},{6,0},{6,3},{5,3},{5,1},{4,1},{4,3},{3,3},{3,1},{2,1},{2,3},{0,3}},"c:0.7"); // comb
  P({{0,0},{5,0},{5,5},{1,5},{1,2},{3,2},{3,3},{2,3},{2,4},{4,4},{4,1},{0,1}},"c:0.6"); // spiral
  P({{2,0},{4,1},{6,0},{5,2},{6,4},{4,3},{2,4},{0,5},{2,2},{0,1}},"c:0.8",1,'c');     // star-like
  P({{0,0},{1,0},{2,0},{3,0},{4,0},{4,1},{4,2},{3,2},{2,2},{1,2},{0,2},{0,1}},"c:0.7"); // 180 degree corners
  b.push_back(dom1(ring(0,0,2,12,'E',1,1),"c:0.6")); b.push_back(dom1(ring(0.5,-0.25,1.5,40,'E',1,0),"c:0.5"));
  { DomSpec d=dom1(rect_loop(0,0,6,6,'E','e'),"c:0.9"); int c=11; for (double x : {1.5,4.5}) for (double y : {1.5,4.5}) { d.loops.push_back(ring(x,y,0.6,6,'I',c,1)); c+=10; } b.push_back(d); }
  { DomSpec d=dom1(ring(0,0,3,16,'E',1,1),"c:0.8"); d.loops.push_back(ring(0,0,1,10,'I',21,1)); b.push_back(d); }
  { DomSpec d=dom1(rect_loop(0,0,5,4,'E','c'),"c:0.7"); d.loops.push_back(rect_loop(1,1,2,3,'I','c',11)); d.loops.push_back(ring(3.5,2,0.7,8,'I',31,1)); d.loops.push_back(reversed_loop(poly_loop(ip({{0,0},{1,0},{0,1}}),'I','e',0.5,2.4,0.4,41))); b.push_back(d); }
  return b;
}
static int n_features() { return 12; }
static DomSpec feature(DomSpec d, int f)
{
  auto all=[&](const std::function<void(Pt&,int)>& g){ int i=0; for (auto& l : d.loops) for (auto& p : l.pts) g(p,i++); };
  double c = d.sf[0]=='c' ? atof(d.sf.c_str()+2) : 1;
  switch (f) {
    case 0: break;
    case 1: d.qscale=60; d.qitems=3; d.qdepth=8; break;
    case 2: d.qscale=40; d.qitems=1; d.qdepth=5; d.sf="c:"+num(0.7*c); break;
    case 3: all([](Pt& p,int){ p.c=1; }); d.color=0; break;
    case 4: all([](Pt& p,int i){ p.c=i%2 ? 100000+i : 0; }); d.color=70000; d.id=1000; break;
    case 5: all([](Pt& p,int i){ p.c=300-7*i; }); d=moved(d,0.3,1,511.5,-803.25); break;
    case 6: all([&](Pt& p,int i){ if (i%3==0) { p.s=0.4*c; p.r=c; } }); break;
    case 7: all([&](Pt& p,int i){ if (i%2==0) { p.s=0.5*c; p.r=0.5*c; } }); d.qscale=50; d.qitems=5; d.qdepth=10; break;
    case 8: d=moved(d,1.2,0.1,-0.4,0.7); break;
    case 9: d.sf="w:"+num(c)+",0.3"; break;
    case 10: d.sf="c:"+num(0.4*c); d.id=7; d.color=-5; break;
    case 11: d=moved(d,-0.8,7,100,60); all([](Pt& p,int i){ p.c=-3+i; }); break;
  }
  return d;
}
// inside test and distance to the outline of a described domain
static bool spec_inside(const DomSpec& d, double x, double y, double margin)
{
  int w=0; for (auto& l : d.loops) for (auto& s : loop_segments(l)) {
    double dx=s.bx-s.ax, dy=s.by-s.ay, u=((x-s.ax)*dx+(y-s.ay)*dy)/(dx*dx+dy*dy); u=std::min(1.0,std::max(0.0,u));
    if (std::hypot(s.ax+u*dx-x,s.ay+u*dy-y) < margin) return false;
    double c=dx*(y-s.ay)-dy*(x-s.ax);
    if (s.ay<=y && s.by>y && c>0) ++w; if (s.ay>y && s.by<=y && c<0) --w; }
  return w==1;
}
static std::vector<P2> spec_points(const DomSpec& d, double margin, int n)
{
  double x0=1e300,x1=-1e300,y0=1e300,y1=-1e300; for (auto& l : d.loops) for (auto& p : l.pts) { x0=std::min(x0,p.x);x1=std::max(x1,p.x);y0=std::min(y0,p.y);y1=std::max(y1,p.y); }
  std::vector<P2> r; for (int i=1;i<n;++i) for (int j=1;j<n;++j) { double x=x0+(x1-x0)*i/n+0.013*(x1-x0), y=y0+(y1-y0)*j/n; if (spec_inside(d,x,y,margin)) r.push_back({x,y}); }
  return r;
}
static double spec_c(const DomSpec& d) { double h=1e300; auto f=size_fun(d.sf); for (auto& l : d.loops) for (auto& p : l.pts) h=std::min(h,f(p.x,p.y)); return h; }
// fixed vertices (k of them, spread over the candidates, all rotations) in every unusual domain
static void fam_wildfix(size_t stride, const Ops& o)
{
  auto B=wild_bases(); size_t i=0;
  for (auto& b : B) for (int f=0;f<n_features();++f) { DomSpec d=feature(b,f); double c=spec_c(d); auto q=spec_points(d,0.45*c,9);
    for (size_t k=1;k<=4;++k) for (size_t rot=0;rot<3;++rot) { if (q.size()<3*k || i++%stride) continue;
      DomSpec e=d; bool ok=true;
      for (size_t m=0;m<k;++m) { P2 p=q[(rot*q.size()/3+m*q.size()/k)%q.size()]; for (auto& x : e.fv) if (std::hypot(x.x-p[0],x.y-p[1])<0.9*c) ok=false;
        e.fv.push_back({p[0],p[1], rot==1?0.5*c:0, rot==1?c:0}); }
      if (ok) add1(e,o); } }
}
// quad layers between corners of the first (and of every other) loop of the unusual domains
static void fam_wildlayer(size_t stride, const std::vector<double>& hs, const Ops& after, bool holes)
{
  auto B=wild_bases(); size_t i=0;
  for (auto& b : B) for (int f=0;f<n_features();++f) { DomSpec d=feature(b,f); double c=spec_c(d);
    for (size_t li=0;li<d.loops.size();++li) { if (holes != (li>0)) continue; auto& p=d.loops[li].pts; size_t k=p.size();
      for (size_t a=0;a<k;a+=1+k/5) for (size_t len : {(size_t)1,(size_t)2,k/2,k}) for (int n : {1,2,4}) for (double h : hs) { if (i++%stride) continue;
        add1(d, then(chain({"N",Lop(n,h*c,n==4?0.9:1.25,p[a],p[(a+len)%k])}), after), !holes); } } }
}
static std::vector<std::vector<DomSpec>> wild_pairs(size_t stride)
{
  std::vector<std::vector<DomSpec>> out; size_t i=0;
  for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",1)) for (int f=0;f<n_features();++f) if (i++%stride==0) { auto q=pr; for (auto& d : q) { int id=d.id, col=d.color; d=feature(d,f); d.id=id; if (f!=3) d.color=col+(f==4?5000:0); } out.push_back(q); }
  return out;
}
static void fam_wild(size_t stride, const Ops& o, bool must=true)
{ auto B=wild_bases(); size_t i=0; for (auto& b : B) for (int f=0;f<n_features();++f) if (i++%stride==0) add1(feature(b,f),o,must); }

// quad layers in a mesh with a neighbour
static void fam_neighborlayer(size_t stride)
{
  for (auto& pr : neighbor_pairs(4,"c:0.5","c:0.4",stride)) for (int c=0;c<2;++c) { auto& p=pr[1].loops[0].pts; size_t k=p.size();
    for (size_t a=0;a<k;++a) for (size_t b=0;b<k;++b) add(pr, {{"0N"},{"0T"},{"1N"},{"1"+Lop(2,c?0.3:0.1,1.2,p[a],p[b])},{"1T"},{"0G:1","1G:0"}}, false); }
}
// all settings of the triangulation
static void fam_param(size_t stride)
{
  size_t n0=g_cases.size();
  for (double r : {0.5,2.0}) for (double w : {1.0,10.0}) for (double q : {0.1,0.5}) for (double a : {110.0,179.0}) for (double b : {1.0,3.0}) {
    std::string x=num(r)+","+num(w)+","+num(q)+","+num(a*M_PI/180)+","+num(b);
    fam_poly(every(polys22(),stride), {"c:0.5","c:1"}, {{"N"},{"T:0,"+x,"T:4,"+x,"X:0,"+x},{"T","T:0,"+x},{"M"}}); }
  for (size_t i=n0;i<g_cases.size();++i) g_cases[i].must=false;
}
// a fixed vertex next to a quad layer
static void fam_fixlayer(size_t stride)
{
  size_t i=0;
  for (double x=0.5;x<4;x+=0.5) for (double y=0.5;y<4;y+=0.5) for (double h : {0.2,0.45}) for (auto sf : {"c:0.5","c:1"}) for (int a=0;a<4;++a) for (int len : {1,4}) { if (i++%stride) continue;
    DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),sf); d.fv.push_back({x,y,0,0}); auto& p=d.loops[0].pts;
    add1(d, {{"N"},{Lop(2,h,1.2,p[a],p[(a+len)%4])},{"T"},{"M"},{"Sl:2,1","Sm:3"}}); }
}

// several quad layers in succession, also after a part of the domain was triangulated
static void fam_multilayer(const std::vector<std::vector<IP>>& P, const std::vector<std::string>& sfs, size_t stride, bool must, bool first)
{
  size_t i=0;
  for (auto& q : P) for (auto& sf : sfs) { DomSpec d=dom1(poly_loop(q,'E','e'),sf); auto& p=d.loops[0].pts; int k=(int)p.size();
    for (int a=0;a<k;++a) for (int b=0;b<k;++b) for (int a2=0;a2<k;++a2) for (int len=1;len<=k;++len) for (double h : {0.1,0.3}) { if (i++%stride) continue;
      std::string l1=Lop(1+(int)(i%2),h,1.2,p[a],p[b]), l2=Lop(1,h*0.8,1,p[a2],p[(a2+len)%k]);
      if (first) add1(d, {{"N"},{"T:1","T:4","X:2"},{l1},{"-",l2},{"T"}}, must);
      else add1(d, {{"N"},{l1},{l2},{"-","T:2"},{"T"},{"M"}}, must); } }
}

// a row of three meshes, merged before, while or after the third is generated
static void fam_row3(bool th)
{
  for (double w : {1.0,1.5}) for (auto& s : std::vector<std::string>{"c:0.4","c:0.9"}) for (int col=0;col<3;++col) {
    std::vector<DomSpec> d{dom1(rect_loop(0,0,w,2,'E','e',1),s,1,col==1?0:3), dom1(rect_loop(w,0,2*w,2,'E','e',11),"c:0.8",2,col==2?0:4), dom1(rect_loop(2*w,0,3*w,2,'E','e',21),s,3,col?7:0)};
    for (auto& o : std::vector<std::vector<int>>{{0,1,2},{1,2,0},{2,1,0},{1,0,2}}) {
      std::string a=std::to_string(o[0]), b=std::to_string(o[1]), c=std::to_string(o[2]);
      add(d, {{a+"N"},{a+"T"},{b+"N"},{b+"T"},{c+"N"},{"-",c+"T:3"},{a+"G:"+b,b+"G:"+a},{c+"T"},{"-",c+"M",c+"Sm:2"},{a+"M",b+"M",a+"Sl:2",b+"Sl:2"},{a+"G:"+c,b+"G:"+c,c+"G:"+a,c+"G:"+b}}, false);
      add(d, {{a+"N"},{b+"N"},{c+"N"},{a+"T:2",a+"T"},{a+"G:"+b,b+"G:"+a},{c+"T"},{a+"G:"+c,b+"G:"+c,c+"G:"+a,c+"G:"+b},{a+"M",b+"M",c+"M"}}, false);
    } }
}
// meshes without a common side can not be merged
static void fam_apart(size_t stride)
{
  auto P=lattice_polygons(2,1,3,5); size_t i=0;
  for (auto& p : P) for (auto& q : P) for (double dx : {2.0,2.5,4.0}) for (double dy : {1.0,2.5,0.0}) { if (dx==2.0 && dy!=1.0) continue; if (i++%stride) continue;
    add({dom1(poly_loop(p,'E','e'),"c:0.8",1,3), dom1(poly_loop(q,'E','e',1,dx,dy,21),"c:0.6",2,4)}, {{"0N"},{"0T:2","0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0M","1R"}}, false); }
}

// fixed vertices in meshes that are merged, then smoothed and modified
static void fam_fixmerge(size_t stride)
{
  size_t i=0;
  for (double x=0.5;x<2;x+=0.25) for (double y=0.5;y<2;y+=0.25) for (int both=0;both<3;++both) for (auto sf : {"c:0.5","c:0.9"}) { if (i++%stride) continue;
    DomSpec a=dom1(rect_loop(0,0,2,2,'E','e'),sf,1,3), b=dom1(rect_loop(2,0,4,2.5,'E','e',21),"c:0.7",2,4);
    b.loops[0]=poly_loop({{2,0},{4,0},{4,2},{2,2}},'E','e',1,0,0,21);
    if (both!=1) a.fv.push_back({x,y,0,0}); if (both!=0) b.fv.push_back({2+y,x,0,0});
    add({a,b}, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0Sl:2","1Sl:2","0Sm:3","1Sm:3","0M","1M"},{"0Sm:2","1Sm:2","0Cd","1Cd"},{"0R","1R"}}); }
}
// a fixed edge and a further isolated fixed vertex
static void fam_fixev(size_t stride)
{
  auto q=half_grid(); size_t i=0;
  for (size_t k=0;k<q.size();++k) for (int o=0;o<4;++o) for (auto sf : {"c:0.6","c:1"}) { if (i++%stride) continue;
    P2 A{o<2?1.0:2.0, o<2?2.0:1.0}, B{o<2?3.0:2.0, o<2?2.0:3.0}; if (o==1) A={0,0};
    Seg s{A[0],A[1],B[0],B[1],0}; double t; P2 p{q[k][0],q[k][1]}; double dx=B[0]-A[0],dy=B[1]-A[1]; t=((p[0]-A[0])*dx+(p[1]-A[1])*dy)/(dx*dx+dy*dy); t=std::min(1.0,std::max(0.0,t));
    if (std::hypot(A[0]+t*dx-p[0],A[1]+t*dy-p[1])<0.5) continue; (void)s;
    DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),sf);
    if (o==1) { d.fv.push_back({B[0],B[1],0,0}); d.fv.push_back({p[0],p[1],0,0}); d.fe.push_back({'b','f',0,0}); }
    else { d.fv.push_back({A[0],A[1],0,0}); d.fv.push_back({p[0],p[1],0,0}); d.fv.push_back({B[0],B[1],0,0}); d.fe.push_back({'f','f',0,2}); }
    add1(d, {{"N"},{"T"},{"Sl:2","M"},{"Cd","Sm:2"},{"R"}}); }
}

static std::vector<Case> families()
{
  const std::string& P = cfg().prop; bool th = cfg().tier == "thorough";
  const auto& p22 = polys22();
  const std::string fam = cfg().family;
  auto p3 = [&]{ return lattice_polygons(3,2,3,7); };
  auto p4 = [&]{ return lattice_polygons(3,3,3,6); };
  std::vector<std::string> S5{"c:0.5","c:1","c:3","l:0.3,0.2,0.1","p:0.2,0.3,1,1"};
  std::vector<std::string> post{"M","R","Sl:2","St:2","Sm:2","Cm","Cd"};
  if (fam == "wfix") { fam_wildfix(1, {{"N"},{"T"},{"M"},{"Sm:2"},{"Cd"},{"R"}}); return g_cases; }
  if (fam == "wlay") { fam_wildlayer(1, {0.15,0.5}, {{"T"},{"M"}}, false); return g_cases; }
  if (fam == "wlayh") { fam_wildlayer(1, {0.15,0.5}, {{"T"},{"M"}}, true); return g_cases; }
  if (fam == "wpair") { for (auto& pr : wild_pairs(12)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0M","1M"}}); return g_cases; }
  if (fam == "bent") { for (auto& pr : bent_pairs("c:0.7","c:0.9",1)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"-","0M","1M"},{"0G:1","1G:0"},{"0M","1M","0Cd","1Cd"}}); return g_cases; }
  if (fam == "nlay") { fam_neighborlayer(40); return g_cases; }
  if (fam == "par") { fam_param(120); return g_cases; }
  if (fam == "fixlay") { fam_fixlayer(1); return g_cases; }
  if (fam == "ml0") { fam_multilayer(every(p22,6), {"c:0.5","c:3"}, 11, true, false); return g_cases; }
  if (fam == "ml1") { fam_multilayer(every(p22,6), {"c:0.5","c:3"}, 11, true, true); return g_cases; }
  if (fam == "msm") {
    for (auto& pr : neighbor_pairs(4,"c:0.5","c:0.7",2)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"-","0M"},{"0G:1","1G:0"},{"0Sl:2","1Sl:2","0St:2","1St:2","0Sm:2","1Sm:2"}});
    for (auto& pr : bent_pairs("c:0.6","c:0.8",2)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0Sl:3","1Sl:3","0Sm:3","1Sm:3"}}); return g_cases; }
  if (fam == "row3") { fam_row3(true); return g_cases; }
  if (fam == "apart") { fam_apart(1); return g_cases; }
  if (fam == "fixm") { fam_fixmerge(1); return g_cases; }
  if (fam == "fixev") { fam_fixev(1); return g_cases; }
  if (fam == "wild") { fam_wild(1, {{"N"},{"T"},{"M"},{"Sm:2"},{"R"}}); return g_cases; }
  if (P == "C01") {
    fam_wild(1, {{"N"},{"T"},{"-","M"},{"-","Sm:3"},{"-","R"}});
    fam_wild(1, {{"N"},{"X","X:3","X:12"},{"X","M"},{"X:6","-"}}, false);
    fam_wildfix(th?1:6, chain({"N","T","M","Sm:2","R"}));
    fam_wildlayer(th?3:24, {0.15,0.5}, chain({"T","M"}), false);
    fam_param(th?30:240);
    Ops tx{{"N"},{"T","X"}};
    fam_poly(p22, th ? std::vector<std::string>{"c:0.3","c:0.5","c:0.7","c:1","c:3","l:0.3,0.2,0.1","p:0.2,0.3,1,1"} : S5, tx);
    fam_moved(th ? p22 : every(p22,3), {"c:0.7","c:2"}, tx);
    fam_holes(p22, {"c:0.6","c:1","c:3","l:0.5,0.1,0.2"}, chain({"N","T"}), th?3:1);
    fam_two_holes(th?1:4, {"c:0.8","c:3"}, chain({"N","T","M"}));
    fam_poly(th ? p3() : every(p3(),6), {"c:0.5","c:1"}, chain({"N","T"}));
    fam_poly(every(p22, th?2:12), {"c:1"}, then(chain({"N","T"}), deep(post, th?3:2)));
    fam_polylayer(every(p22,th?4:24), {"c:0.5","c:3"}, {0.1,0.4}, chain({"T","M"}));
    if (th) fam_poly(p4(), S5, chain({"N","T","M","Sm:2"}));
  } else if (P == "C02") {
    fam_wild(1, {{"N"},{"T:7","T"},{"T"},{"M","Cd","Sl:1"},{"R"}});
    for (auto& pr : wild_pairs(th?12:120)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"-","0M"},{"0G:1","1G:0"},{"0M","1R"}});
    std::vector<std::string> al{"T:2","X:3","T","M","R","Sl:1","Cm","Cd","Cq","Ct"};
    fam_poly(every(p22, th?12:60), {"c:1"}, then(chain({"N"}), deep(al, th?4:3)));
    fam_poly(p22, {"c:0.6","c:3"}, {{"N"},{"T","T:4"},{"M","Sl:2"},{"R","T"}});
    fam_holes(every(p22, th?1:2), {"c:1"}, chain({"N","T:5","T","M","R"}), 1);
    fam_polylayer(every(p22, th?2:8), {"c:0.5"}, {0.1,0.4}, {{"T:3","T"},{"M","R"}});
    fam_fixv({"c:1"}, th?1:8, chain({"N","T","M","Cd","R"}));
    for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",th?2:12)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0M","1M","-"},{"0G:1","1G:0"},{"0M","1M","0R","1R"}});
  } else if (P == "C03") {
    fam_wild(1, {{"N"},{"T:9","T"},{"M","Sm:2","-"},{"R"}});
    fam_wildlayer(th?2:16, {0.15,0.5}, chain({"T","M","R"}), false);
    fam_wildlayer(th?2:16, {0.15,0.5}, chain({"T","M"}), true);
    for (auto& p : p22) for (int m=0;m<3;++m) for (auto& s : std::vector<std::string>{"c:0.6","c:3"}) add1(variant(p,s,m), {{"N"},{"T:3","T"},{"M","R"},{"R","Sl:1"}});
    for (auto& p : th ? p22 : every(p22,2)) for (int m=0;m<3;++m) for (auto& s : std::vector<std::string>{"c:0.6","c:3"}) add1(with_hole(p,s,m), chain({"N","T","M","R"}));
    for (auto& p : p22) add1(moved(variant(p,"c:0.7",1),0.7,1.5,-8,3), chain({"N","T","M","Sm:2","R"}));
    fam_polylayer(every(p22,th?1:6), {"c:0.5","c:3"}, {0.1,0.4}, {{"T"},{"M"},{"R"}});
    fam_rectlayer({1.0,3.0}, th?std::vector<double>{0.05,0.2,0.5,0.9,1.2}:std::vector<double>{0.2,0.9}, {1.0,1.5}, {"c:0.5","c:5"}, chain({"T","R"}));
    fam_poly(every(p22,th?6:40), {"c:1"}, then(chain({"N"}), deep({"T:2","T","M","R","Sl:1","Cm"}, th?4:3)));
    // many edges per side
    fam_poly(every(p22,th?4:60), {"c:0.11","c:0.05"}, {{"N"},{"T"},{"R"}});
    for (auto& p : every(p22,th?20:200)) add1(dom1(poly_loop(p,'E','e',4),"c:0.2"), chain({"N","T","M"}));
    if (th) for (auto& p : p3()) add1(variant(p,"c:0.8",1), chain({"N","T","M","R"}));
  } else if (P == "C04") {
    fam_wildfix(th?1:2, {{"N"},{"T"},{"M","Sm:2"},{"Sm:2","Cd"},{"R"}});
    fam_fixlayer(th?1:4);
    fam_fixmerge(th?1:3);
    fam_fixev(th?1:3);
    Ops o{{"N"},{"T","T:6"},{"Sl:2","M","Cd"},{"T"},{"Sm:2","Cm"},{"R"}};
    fam_fixv({"c:0.5","c:1","c:5"}, th?1:6, o);
    fam_fixe({"c:0.5","c:1"}, th?1:9, chain({"N","T","Sl:2","M","Cd","R"}));
    // one fixed vertex at every interior half lattice point of every polygon
    for (auto& p : th ? p22 : every(p22,4)) { std::vector<IP> q; for (auto& x : p) q.push_back({4*x[0],4*x[1]});
      for (int x=1;x<8;++x) for (int y=1;y<8;++y) { IP z{x,y}; if (point_in(q,z)!=1) continue;
        bool nb=false; for (int a=-1;a<=1;++a) for (int b=-1;b<=1;++b) if (point_in(q,{x+a,y+b})!=1) nb=true; if (nb) continue;
        DomSpec d=dom1(poly_loop(p,'E','e'),"c:1"); d.fv.push_back({x*0.25,y*0.25,0,0}); add1(d, chain({"N","T","Sl:3","M","R"})); } }
    { auto q=half_grid(); size_t c=0; for (size_t i=0;i<q.size();++i) for (size_t j=i+1;j<q.size();++j) for (size_t k=j+1;k<q.size();++k) { if (c++%(th?8:150)) continue;
        DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),"c:1.2"); for (size_t z : {i,j,k}) d.fv.push_back({q[z][0],q[z][1],0,0}); add1(d, chain({"N","T","St:2","M","Cd"})); } }
  } else if (P == "C05") {
    fam_wild(1, {{"N"},{"T"},{"-","M"},{"Sl:2","St:2","Sm:2","Sl:8","Sm:5"}});
    fam_wild(th?1:4, {{"N"},{"T"},{"M"},{"Sl:3,0,1,0.8","St:3,0,0.2,0.9,0.3","Sm:3,0,0.9,0.7,0.8","Sl:2,1,0.3,1.5","Sm:20"}});
    fam_poly(every(p22,th?2:8), {"c:0.5"}, {{"N"},{"T"},{"-","M"},{"Sl:3,0,1,0.8","St:3,0,0.2,0.9,0.3","Sm:3,0,0.9,0.7,0.8","Sl:2,1,0.3,1.5"}});
    fam_wildlayer(th?6:60, {0.15,0.5}, {{"T"},{"M"},{"Sl:2,1","Sm:2,1","Sl:2","Sm:2"}}, false);
    fam_fixlayer(th?1:5);
    std::vector<std::string> sm{"Sl:1","St:1","Sm:1","Sl:3","St:4","Sm:3","Sl:0","Sm:0"};
    fam_poly(th ? p22 : every(p22,2), {"c:0.4","c:1"}, {{"N"},{"T"},{"-","M"},sm});
    fam_poly(every(p22,th?4:24), {"c:0.5"}, {{"N"},{"T","T:5"},{"-","M","R"},sm,sm});
    fam_holes(every(p22,th?1:4), {"c:0.6"}, {{"N"},{"T"},{"-","M"},{"Sl:2","St:2","Sm:2"}});
    fam_fixv({"c:0.6"}, th?2:20, {{"N"},{"T"},{"-","M"},{"Sl:2","St:2","Sm:2"},{"R"},{"Sl:2","Sm:1"}});
    fam_polylayer(every(p22,th?3:16), {"c:0.4"}, {0.1,0.25}, {{"T"},{"-","M"},{"Sl:2,1","St:2,1","Sm:2,1","Sl:2","Sm:2"},{"Sm:1","Sl:1,1"}});
    fam_rectlayer({3.0}, {0.1,0.2}, {1.0,1.3}, {"c:0.4"}, {{"T"},{"Sl:2,1","St:2,1","Sm:3,1","Sl:2"}}, 2);
    fam_moved(every(p22,th?2:12), {"c:0.5"}, {{"N"},{"T"},{"Sl:2","St:2","Sm:2"}});
    for (auto& pr : neighbor_pairs(4,"c:0.5","c:0.7",th?2:10)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"-","0M"},{"0G:1","1G:0"},{"0Sl:2","1Sl:2","0St:2","1St:2","0Sm:2","1Sm:2"}});
    for (auto& pr : bent_pairs("c:0.6","c:0.8",th?2:20)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0Sl:3","1Sl:3","0Sm:3","1Sm:3"}});
    if (th) fam_poly(p3(), {"c:0.6"}, {{"N"},{"T"},{"Sl:2","St:2","Sm:2"}});
  } else if (P == "C06") {
    fam_wild(1, {{"N"},{"T"},{"-","M"},{"R"},{"R","Sl:1"}});
    fam_wildlayer(th?6:60, {0.15,0.5}, {{"T"},{"R"}}, false);
    fam_poly(p22, {"c:0.7","c:3","l:0.3,0.2,0.1"}, {{"N"},{"T"},{"-","M"},{"R"},{"R"}});
    fam_poly(every(p22,th?2:6), {"c:1"}, {{"N"},{"T:1","T:2","T:4"},{"R"}});
    fam_poly(every(p22,th?6:30), {"c:1.2"}, then(chain({"N"}), then(deep({"T","T:3","M","Sl:1","Sm:2"}, th?4:3), chain({"R","R"}))));
    fam_holes(every(p22,th?1:3), {"c:1"}, {{"N"},{"T"},{"-","M"},{"R"}}, th?3:2);
    fam_polylayer(every(p22,th?2:10), {"c:0.5"}, {0.1,0.4}, {{"T"},{"R"}});
    fam_fixv({"c:1"}, th?2:10, chain({"N","T","R","Sl:1","R"}));
    for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",th?2:10)) add(pr, {{"0N"},{"0T"},{"1N"},{"0R","1T"},{"0R","1R","0G:1","1G:0"},{"0R","1R"}});
    for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",th?2:24)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0M","1M"},{"0G:1","1G:0"},{"-","0M","1M"},{"0R","1R"}});
    for (auto& pr : bent_pairs("c:0.7","c:0.9",th?2:60)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0M","1M"},{"0G:1","1G:0"},{"0R","1R"}});
  } else if (P == "C07") {
    fam_wild(1, {{"N"},{"T","X","T:20"},{"M","Cm","Cd"},{"M","Cd"}});
    fam_wildfix(th?2:12, {{"N"},{"T"},{"M","Cd"}});
    std::vector<std::string> m{"M","Cm","Cd","Cq","Ct"};
    fam_poly(p22, {"c:0.4","c:1","l:0.3,0.2,0.1"}, {{"N"},{"T","T:5","X"},{"M","Cm","Cd"},{"M","Cd"}});
    fam_poly(every(p22,th?4:30), {"c:0.6"}, then({{"N"},{"T"},{"-","Sl:2"}}, deep(m, th?4:3)));
    fam_holes(every(p22,th?1:2), {"c:0.7"}, {{"N"},{"T"},{"M","Cm"}}, 1);
    fam_fixv({"c:0.8","c:3"}, th?1:5, {{"N"},{"T"},{"M","Cd"},{"Cm","Cd"}});
    fam_polylayer(every(p22,th?2:8), {"c:0.5"}, {0.1,0.4}, {{"T"},{"M","Cm"}});
    for (auto& pr : neighbor_pairs(th?5:4,"c:0.7","c:0.9",th?4:6)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"-","1M"},{"0G:1","1G:0"},{"0M","1M","0Cm","1Cm","0Cd","1Cd"},{"0M","1Cm"}});
    fam_moved(every(p22,th?1:6), {"c:0.5"}, {{"N"},{"T"},{"M","Cm"}});
    for (auto& pr : bent_pairs("c:1.4","c:1.8",th?1:12)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0M","1M","0Cd","1Cd","0Cm"},{"0Cd","1Cm"}});
    for (auto& pr : bent_pairs("c:0.7","c:2",th?2:40)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0Cd","1Cd"},{"0M","1M"}});
    if (th) fam_poly(p3(), {"c:0.6"}, {{"N"},{"T"},{"M"}});
  } else if (P == "C08") {
    fam_multilayer(every(p22,6), {"c:0.5","c:3"}, th?5:61, true, false);
    fam_multilayer(every(p22,6), {"c:0.5","c:3"}, th?17:211, true, true);
    fam_wildlayer(th?1:8, {0.15,0.5}, {{"T"},{"M"}}, false);
    fam_wildlayer(th?1:10, {0.15,0.5}, {{"T"},{"M"}}, true);
    fam_rectlayer({1.0,2.0,3.0}, th?std::vector<double>{0.05,0.2,0.5,0.9,1.2}:std::vector<double>{0.05,0.2,0.9}, {1.0,1.3,2.0}, th?std::vector<std::string>{"c:0.5","c:1","c:5","l:0.3,0.1,0.2"}:std::vector<std::string>{"c:0.5","c:5"}, chain({"T"}));
    fam_polylayer(th?p22:every(p22,4), {"c:0.5","c:3"}, {0.1,0.4}, chain({"T","M"}));
    fam_polylayer(every(p22,th?3:12), {"c:0.5"}, {0.15}, {{"T:2","T"},{"T"},{"Sl:1","R"}});
    fam_holelayer(th?p22:every(p22,8), {"c:0.6","c:3"}, {0.1,0.4}, chain({"T"}), false);
    // heights along long sides
    for (double h : {0.02,0.05,0.1}) for (double g : {1.0,1.2,1.5}) for (int n=1;n<=4;++n) for (double c : {0.25,0.5}) for (double ang : {0.0,0.6,2.5}) for (int a=0;a<4;++a) {
      DomSpec d = moved(dom1(rect_loop(0,0,4,3,'E','e'),"c:"+num(c)), ang, 1, ang, -ang); auto& p=d.loops[0].pts;
      add1(d, {{"N"},{Lop(n,h,g,p[a],p[(a+1)%4])},{"T"}}); }
  } else if (P == "C09") {
    for (auto& pr : wild_pairs(th?6:60)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0M","1M"}});
    // 2 x 2 block of four meshes: different merge orders
    for (int c : {0,1}) { std::vector<DomSpec> d; for (int k=0;k<4;++k) d.push_back(dom1(rect_loop(1.5*(k%2),1.5*(k/2),1.5*(k%2)+1.5,1.5*(k/2)+1.5,'E','e',10*k+1), c ? (k%2?"c:0.5":"c:0.8") : "c:0.7", k+1, k+3));
      add(d, {{"0N"},{"0T"},{"1N"},{"1T"},{"2N"},{"2T"},{"3N"},{"3T"},{"-","0M","3M"},{"0G:1","1G:0","3G:1","2G:0"},{"0G:2","2G:3","3G:2","1G:3"},{"0G:3","3G:0","2G:0","1G:2"},{"-","0M","3M"}}, false);
      add(d, {{"3N"},{"1N"},{"0N"},{"2N"},{"1T"},{"3T"},{"2T"},{"0T"},{"0G:1","1G:0"},{"2G:3","3G:2"},{"0G:2","0G:3","1G:2","1G:3"}}, false); }
    auto add_pairs = [&](size_t nmax, const char* a, const char* b, size_t stride) {
      for (auto& pr : neighbor_pairs(nmax,a,b,stride))
        add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"-","0M","1M"},{"0G:1","1G:0"},{"0M","1R"}}); };
    add_pairs(th?5:4, "c:0.7","c:0.9", th?1:2);
    add_pairs(4, "c:3","c:0.6", th?1:6);
    add_pairs(4, "c:0.5","c:3", th?1:6);
    for (auto& pr : bent_pairs("c:0.7","c:0.9",th?1:10)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"-","0M","1M"},{"0G:1","1G:0"},{"0M","1R"}});
    for (auto& pr : bent_pairs("c:1","c:0.5",th?2:40)) add(pr, {{"0N"},{"1N"},{"0T"},{"1T"},{"0G:1","1G:0"},{"0M","1Cd"}});
    fam_neighborlayer(th?4:160);
    fam_row3(th);
    fam_apart(th?2:30);
    for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",th?1:8)) add(pr, {{"0N"},{"1N"},{"0T"},{"1T"},{"-","0Sl:2","1Sm:2"},{"0G:1"}});
    // unfinished meshes
    for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",th?1:8)) { add(pr, {{"0N"},{"0T:2","0T:7","0T"},{"1N"},{"-","1T:1","1T:4"},{"0G:1","1G:0"},{"0M","1M","0Cd","1Cd"}});
      add(pr, {{"0N"},{"1N"},{"-","0T:2"},{"-","1T:3"},{"0G:1","1G:0"}}); }
    // rows / blocks of rectangles: every meshing and merging order of three meshes
    for (double w : {1.0,1.5}) for (auto& s : std::vector<std::string>{"c:0.6","c:0.9"}) {
      std::vector<DomSpec> d{dom1(rect_loop(0,0,w,2,'E','e',1),s,1,3), dom1(rect_loop(w,0,2*w,2,'E','e',11),"c:0.8",2,4), dom1(rect_loop(2*w,0,3*w,2,'E','e',21),s,3,5)};
      for (auto& ord : std::vector<std::vector<int>>{{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}) {
        Ops o; for (int k : ord) { o.push_back({std::to_string(k)+"N"}); o.push_back({std::to_string(k)+"T"}); }
        o.push_back({"-","0M","1M","2M"});
        o.push_back({"0G:1","1G:0","1G:2","2G:1"}); 
        o.push_back({"0G:2","1G:0","1G:2","2G:0"});
        o.push_back({"-","0M","1M","2M"});
        add(d,o,false); } }
    // an island inside a hole
    for (auto& p : every(p22, th?2:10)) { DomSpec a=with_hole(p,"c:0.8",0); DomSpec b=dom1(poly_loop(p,'E','e',1,1,1,31),"c:0.6",2,4);
      add({a,b}, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0M","1M"}});
      add({b,a}, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"}}); }
  } else if (P == "C18") {
    fam_wild(1, {{"N"},{"T:1","T:5","X:4"},{"T:11","X:3"},{"T"}});
    fam_wildfix(th?2:20, {{"N"},{"T:3","X:2"},{"T:4"},{"T"}});
    fam_param(th?20:160);
    std::vector<std::string> g{"T:1","T:3","X:1","X:2"};
    fam_poly(th?p22:every(p22,2), {"c:0.7","c:3"}, then(chain({"N"}), then(deep(g, th?3:2), {{"T"}})));
    fam_poly(every(p22,th?2:12), {"c:0.6"}, then(chain({"N"}), then(deep({"T:1","T:2","T:5"}, 3), {{"T","X"}})));
    fam_holes(every(p22,th?1:4), {"c:0.8"}, {{"N"},{"T:2","T:7","X:3"},{"T:3"},{"T"}}, 1);
    fam_fixv({"c:1"}, th?2:12, {{"N"},{"T:2","T:9"},{"T"}});
    fam_polylayer(every(p22,th?3:12), {"c:0.5"}, {0.15}, {{"T:2","T:5","X:2"},{"T"}});
    // single element steps until the mesh is complete
    for (auto& p : every(p22,th?2:8)) for (const char* s : {"c:0.6","c:1","c:3"}) { std::vector<std::string> l{"N"}; for (int i=0;i<40;++i) l.push_back("T:1"); l.push_back("T"); add1(dom1(poly_loop(p,'E','e'),s), chain(l)); }
  } else if (P == "C19") {
    fam_wild(1, {{"N"},{"T:4","T"},{"M","-"},{"T"}}, false);
    fam_wildlayer(th?2:20, {0.3,1.0}, {{"T"},{"M"}}, false);
    fam_param(th?30:240);
    fam_poly(th?p22:every(p22,2), {"c:0.5","c:1","c:3"}, {{"N"},{"T:2","T","X"},{"M","T","R"}});
    fam_holes(every(p22,th?1:3), {"c:0.8","c:3"}, {{"N"},{"T:5","T"},{"T"}}, 1);
    fam_polylayer(every(p22,th?2:14), {"c:0.5","c:3"}, {0.1,0.4}, {{"T:2","T"},{"M","T"}});
    fam_holelayer(every(p22,th?2:30), {"c:0.6","c:3"}, {0.1,0.4,1.0}, chain({"T","M"}), false);
    fam_fixe({"c:0.5","c:5"}, th?2:12, chain({"N","T"}));
    // steep and tiny size functions where generation may legitimately fail
    fam_poly(every(p22,th?2:20), {"p:0.02,1.5,1,1","p:0.05,3,0,0","l:0.05,0.6,0.6"}, chain({"N","T"}));
    for (auto& c : g_cases) c.must = false;
  } else if (P == "C13") {
    fam_wild(1, {{"N"},{"T:9","T"},{"M","R","-"}});
    for (auto& pr : wild_pairs(th?12:120)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"-","0M"},{"0G:1","1G:0"}}, false);
    fam_poly(th?p22:every(p22,2), {"c:0.6","c:3","l:0.3,0.2,0.1"}, {{"N"},{"T:3","T"},{"M","R"}});
    fam_poly(every(p22,th?6:40), {"c:0.8"}, then(chain({"N"}), deep({"T:2","T","M","R","Sm:1","Cd"}, 3)));
    fam_moved(every(p22,th?2:10), {"c:0.5"}, {{"N"},{"T"},{"-","M"}});
    fam_holes(every(p22,th?1:4), {"c:0.7"}, {{"N"},{"T:9","T"},{"M","R"}}, 1);
    fam_polylayer(every(p22,th?3:16), {"c:0.5"}, {0.1,0.4}, {{"T"},{"M","Sl:1,1"}});
    fam_fixv({"c:1"}, th?2:12, {{"N"},{"T"},{"M","R"}});
    for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",th?2:12)) {
      add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0M","1M","0Sl:1","0Cd"},{"0M","1M","0G:1","1G:0"},{"0M","1R"}}, false);
      add(pr, {{"0N"},{"0T"},{"1N"},{"1T:3"},{"0G:1","1G:0"},{"0M","1M"}}, false); }
    for (auto& c : g_cases) c.must = false;
  } else if (P == "C24") {
    fam_wild(th?1:7, {{"N"},{"T:4","T"},{"M","Sm:2","R"}}, false);
    fam_wildlayer(th?20:300, {0.15,0.5}, {{"T"},{"M"}}, false);
    Ops o{{"N"},{"T:3","T"},{"T"},{"M","Sm:1"},{"R","Cd"}};
    fam_poly(every(p22,th?2:12), {"c:0.7","c:3"}, o);
    fam_holes(every(p22,th?4:24), {"c:0.8"}, {{"N"},{"T"},{"M","Cm"},{"R","Sl:1"}}, 1);
    fam_polylayer(every(p22,th?6:40), {"c:0.5"}, {0.1,0.4}, {{"T"},{"M","Sl:1,1"}});
    fam_rectlayer({1.0,3.0}, {0.2,0.9}, {1.3}, {"c:1"}, chain({"T"}), 2);
    fam_fixv({"c:1"}, th?6:60, chain({"N","T","M","Cd","R"}));
    fam_fixe({"c:1"}, th?20:120, chain({"N","T","M"}));
    fam_poly(every(p22,th?20:120), {"c:1"}, then(chain({"N"}), deep({"T:2","T","M","R","Sl:1","Cd"}, 3)));
    for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",th?10:60)) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0G:1","1G:0"},{"0M","1M","0R","1R"},{"0R","1Sl:1"}}, false);
    for (auto& pr : neighbor_pairs(4,"c:0.7","c:0.9",th?10:60)) add(pr, {{"0N"},{"0T:2","0T"},{"1N"},{"-","1T:4"},{"0G:1","1G:0"},{"0M","1Cd"},{"0Sl:1","1R"}}, false);
    for (auto& c : g_cases) c.must = false;
  }
  return g_cases;
}
