// C23: edge lists and the advancing front against a plain list of edges, over
// all operation sequences of a bounded alphabet (stateless exploration).
#include <set>
#include <algorithm>
#include <cmath>
#include <memory>
#include <array>
#include "TQMesh.h"
#include "explore.h"
#include "spec.h"
using namespace TQMesh;
using namespace vf;
using CppUtils::Vec2d;

struct ME { Edge* p; Vertex *a, *b; int c; uint8_t prop; };
struct MV { Vertex* p; double x, y, s, r; uint8_t prop; };
static std::string S2(double x, double y) { return "("+num(x)+","+num(y)+")"; }
static const int NV = 4;

struct World {
  Vertices V{50.0}; Front L; EdgeList K{Orientation::NONE};
  std::vector<MV> mv; std::vector<ME> ml, mk; Edge* base = nullptr; int nc = 1;
  World(int conf) {
    static const double P[3][NV][2] = {{{0,0},{2,0},{2,1},{0,2}}, {{0,0},{1,0},{2,0},{1,1}}, {{-1.5,-1},{3,-1},{-1.5,2},{0.25,0.5}}};
    for (int i=0;i<NV;++i) { Vertex& v=V.push_back(Vec2d{P[conf][i][0],P[conf][i][1]},0.5+i,1.0+2*i); if (i==1) v.add_property(VertexProperty::is_fixed); if (i!=3) v.add_property(VertexProperty::on_boundary);
      mv.push_back({&v,v.xy().x,v.xy().y,0.5+i,1.0+2*i,(uint8_t)v.properties()}); }
  }
  ~World() { K.clear_edges(); L.clear_edges(); }
  MV* find(Vertex* v) { for (auto& m : mv) if (m.p==v) return &m; return nullptr; }

  std::string step(const std::string& o) {
    auto arg=[&](size_t i){ return o[i]-'0'; };
    switch (o[0]) {
      case 'a': case 'k': { Vertex &u=*mv[arg(1)].p, &w=*mv[arg(2)].p; int c=nc++; Edge& e = o[0]=='a' ? L.add_edge(u,w,c) : K.add_edge(u,w,c);
        if (o[0]=='a' && c%2) e.add_property(EdgeProperty::on_boundary);
        (o[0]=='a'?ml:mk).push_back({&e,&u,&w,c,(uint8_t)e.properties()}); break; }
      case 'i': { Vertex &u=*mv[arg(1)].p, &w=*mv[arg(2)].p; int c=nc++; size_t at=ml.empty()?0:ml.size()/2;
        Edge& e = ml.empty() ? L.insert_edge(L.end(),u,w,c) : L.insert_edge(ml[at].p->pos(),u,w,c); ml.insert(ml.begin()+at,{&e,&u,&w,c,(uint8_t)e.properties()}); break; }
      case 'r': { size_t i=arg(1); if (base==ml[i].p) base=nullptr; if (!L.remove(*ml[i].p)) return "removal refused"; ml.erase(ml.begin()+i); break; }
      case 's': { size_t i=arg(1); double s=o[2]=='l'?0.25:o[2]=='h'?0.5:0.75; ME m=ml[i]; size_t nvb=V.size();
        auto pr=L.split_edge(*m.p,V,s); if (!pr.first||!pr.second) return "split refused"; if (base==m.p) base=nullptr;
        if (V.size()!=nvb+1) return "a split adds not exactly one vertex";
        Vertex* n=&pr.first->v2(); MV *A=find(m.a), *B=find(m.b); bool ok=false; MV q{};
        for (double t : {s,1-s}) { double x=t*A->x+(1-t)*B->x, y=t*A->y+(1-t)*B->y; if (std::fabs(n->xy().x-x)<1e-12&&std::fabs(n->xy().y-y)<1e-12) { ok=true; q={n,n->xy().x,n->xy().y,t*A->s+(1-t)*B->s,t*A->r+(1-t)*B->r,0}; break; } }
        if (!ok) return "split vertex "+S2(n->xy().x,n->xy().y)+" does not divide the edge as requested";
        q.prop=A->prop|B->prop; if (!(m.prop & (uint8_t)EdgeProperty::on_boundary)) q.prop &= ~(uint8_t)VertexProperty::on_boundary;
        mv.push_back(q);
        ml[i]={pr.first,m.a,n,m.c,m.prop}; ml.insert(ml.begin()+i+1,{pr.second,n,m.b,m.c,m.prop}); break; }
      case 'x': { size_t n=V.size(); // splits that have to be refused
        if (!ml.empty()) for (double s : {0.0,1.0,-0.5,1.5}) { auto pr=L.split_edge(*ml.back().p,V,s); if (pr.first||pr.second) return "split at "+num(s)+" accepted"; }
        if (!mk.empty()) { auto pr=L.split_edge(*mk[0].p,V,0.5); if (pr.first||pr.second) return "split of an edge of another list accepted"; }
        if (V.size()!=n) return "refused split adds a vertex"; break; }
      case 'K': K.clear_edges(); mk.clear(); break;
      case 'c': L.clear_edges(); ml.clear(); base=nullptr; break;
      case 'w': L.clear_waste(); K.clear_waste(); V.clear_waste(); break;
      case 'f': { Edge* e=L.set_base_first(); if (ml.empty()) { if (e) return "base edge of an empty front"; } else { if (e!=ml[0].p||&L.base()!=e) return "base is not the first edge"; base=e; } break; }
      case 'n': { Edge* e=L.set_base_next(); size_t i=0; while (ml[i].p!=base) ++i; if (e!=ml[(i+1)%ml.size()].p||&L.base()!=e) return "next base is not the following edge"; base=e; break; }
      case 'z': case 'y': case 'p': case 'q': { Vec2d ref{0.3,-0.4};
        auto len=[&](const ME& m){ MV*A=find(m.a),*B=find(m.b); return std::hypot(A->x-B->x,A->y-B->y); };
        auto dis=[&](const ME& m){ MV*A=find(m.a); return std::hypot(A->x-ref.x,A->y-ref.y); };
        if (o[0]=='z') L.sort_edges(true); if (o[0]=='y') L.sort_edges(false); if (o[0]=='p') L.sort_edges(ref,true); if (o[0]=='q') L.sort_edges(ref,false);
        std::vector<ME> n; for (auto& e : L) for (auto& m : ml) if (m.p==e.get()) { n.push_back(m); break; }
        if (n.size()!=ml.size()) return "sorting changes the set of edges"; ml=n;
        for (size_t i=0;i+1<n.size();++i) { double a=(o[0]=='z'||o[0]=='y')?len(n[i]):dis(n[i]), b=(o[0]=='z'||o[0]=='y')?len(n[i+1]):dis(n[i+1]);
          if ((o[0]=='z'||o[0]=='p') ? a>b+1e-12 : a<b-1e-12) return "edges are not sorted"; }
        if (!ml.empty()) { base=ml[0].p; if (&L.base()!=base) return "sorting does not reset the base edge"; } break; }
      case 'v': { size_t i=arg(1); // move a vertex and update the edges around it
        Vertex& v=*mv[i].p; Vec2d to{mv[i].x+0.125, mv[i].y+(i%2?0.25:-0.375)};
        if (!V.update(v,to)) return "move refused"; for (auto* e : v.edges()) e->update_metrics(); mv[i].x=to.x; mv[i].y=to.y; break; }
    }
    return "";
  }

  std::string check() {
    auto list=[&](EdgeList& E, std::vector<ME>& m) -> std::string {
      if (E.size()!=m.size()) return "size "+std::to_string(E.size())+" instead of "+std::to_string(m.size());
      size_t i=0; for (auto& e : E) { if (i>=m.size()||e.get()!=m[i].p) return "order of the edges differs"; ++i; }
      for (i=0;i<m.size();++i) { auto& q=m[i]; Edge& e=*q.p; if (&E[(int)i]!=q.p) return "access by index differs";
        if (&e.v1()!=q.a||&e.v2()!=q.b) return "end points differ"; if (e.color()!=q.c) return "marker differs"; if ((uint8_t)e.properties()!=q.prop) return "properties differ"; if (&e.edgelist()!=&E) return "edge belongs to another list";
        MV *A=find(q.a), *B=find(q.b); double dx=B->x-A->x, dy=B->y-A->y, l=std::hypot(dx,dy);
        if (std::fabs(e.length()-l)>1e-12||std::fabs(e.tangent().x-dx/l)>1e-12||std::fabs(e.tangent().y-dy/l)>1e-12||std::fabs(e.normal().x+dy/l)>1e-12||std::fabs(e.normal().y-dx/l)>1e-12) return "length, tangent or normal differ";
        if (std::fabs(e.xy().x-A->x-0.5*dx)>1e-12||std::fabs(e.xy().y-A->y-0.5*dy)>1e-12) return "mid point differs";
        bool nx=false,pv=false; for (auto& z : m) { if (z.p!=q.p&&z.a==q.b) nx=true; if (z.p!=q.p&&z.b==q.a) pv=true; }
        Edge* n=e.get_next_edge(); Edge* p=e.get_prev_edge();
        if (nx!=(n!=nullptr)||(n&&(&n->v1()!=q.b||&n->edgelist()!=&E||n==&e))) return "next edge is wrong";
        if (pv!=(p!=nullptr)||(p&&(&p->v2()!=q.a||&p->edgelist()!=&E||p==&e))) return "previous edge is wrong"; }
      for (auto& a : mv) { int o=0,in=0; for (auto& z : m) { o+=z.a==a.p; in+=z.b==a.p; }
        Edge *e0=E.get_edge(*a.p,0), *e1=E.get_edge(*a.p,1), *e2=E.get_edge(*a.p,2);
        if ((o+in>0)!=(e0!=nullptr)||(e0&&(&e0->edgelist()!=&E||(&e0->v1()!=a.p&&&e0->v2()!=a.p)))) return "edge at a vertex is wrong";
        if ((o>0)!=(e1!=nullptr)||(e1&&(&e1->edgelist()!=&E||&e1->v1()!=a.p))) return "outgoing edge of a vertex is wrong";
        if ((in>0)!=(e2!=nullptr)||(e2&&(&e2->edgelist()!=&E||&e2->v2()!=a.p))) return "incoming edge of a vertex is wrong";
        for (auto& b : mv) if (a.p!=b.p) { bool d=false,u=false; for (auto& z : m) { if (z.a==a.p&&z.b==b.p) d=u=true; if (z.b==a.p&&z.a==b.p) u=true; }
          Edge *x=E.get_edge(*a.p,*b.p,true), *y=E.get_edge(*a.p,*b.p);
          if (d!=(x!=nullptr)||(x&&(&x->v1()!=a.p||&x->v2()!=b.p||&x->edgelist()!=&E))) return "directed edge between two vertices is wrong";
          if (u!=(y!=nullptr)||(y&&(&y->edgelist()!=&E||!((&y->v1()==a.p&&&y->v2()==b.p)||(&y->v1()==b.p&&&y->v2()==a.p))))) return "edge between two vertices is wrong"; } }
      for (double X : {-0.4,1.1}) for (double Y : {0.2,0.9}) { 
        for (double R : {0.7,1.7}) { std::multiset<const Edge*> g,w; for (auto* e : E.get_edges({X,Y},R)) g.insert(e); for (auto& z : m) { MV*A=find(z.a),*B=find(z.b); if (std::hypot(0.5*(A->x+B->x)-X,0.5*(A->y+B->y)-Y)<R) w.insert(z.p); } if (g!=w) return "edges within a radius are wrong"; }
        Edge* e=E.get_nearest_edge({X,Y}); if (m.empty()!=(e==nullptr)) return "nearest edge is wrong";
        if (e) { double d=1e300; for (auto& z : m) { MV*A=find(z.a),*B=find(z.b); d=std::min(d,std::hypot(0.5*(A->x+B->x)-X,0.5*(A->y+B->y)-Y)); } if (std::hypot(e->xy().x-X,e->xy().y-Y)>d+1e-12) return "nearest edge is not the nearest"; }
        if (!m.empty()) { Vertex& v=E.get_closest_vertex({X,Y}); double d=1e300; bool st=false; for (auto& z : m) { MV*A=find(z.a); d=std::min(d,std::hypot(A->x-X,A->y-Y)); if (z.a==&v) st=true; } if (!st||std::hypot(v.xy().x-X,v.xy().y-Y)>d+1e-12) return "closest vertex is wrong"; } }
      // connection between two edges of a chain without branches
      bool branch=false; for (auto& a : mv) { int o=0; for (auto& z : m) o+=z.a==a.p; if (o>1) branch=true; }
      if (!branch) for (auto& s : m) for (auto& t : m) { bool r=false; const ME* q=&s; for (size_t k=0;k<m.size()&&q;++k) { const ME* nx=nullptr; for (auto& z : m) if (z.p!=q->p&&z.a==q->b) nx=&z; q=nx; if (q&&q->p==t.p) { r=true; break; } }
        if (E.is_traversable(*s.p,*t.p)!=r) return "traversability between two edges is wrong"; }
      return ""; };
    std::string e=list(L,ml); if (!e.empty()) return "front: "+e; e=list(K,mk); if (!e.empty()) return "second list: "+e;
    if (V.size()!=mv.size()) return "number of vertices differs";
    for (auto& v : mv) { std::multiset<const Edge*> g,w; for (auto* x : v.p->edges()) g.insert(x); for (auto& z : ml) { if (z.a==v.p) w.insert(z.p); if (z.b==v.p) w.insert(z.p); } for (auto& z : mk) { if (z.a==v.p) w.insert(z.p); if (z.b==v.p) w.insert(z.p); }
      if (g!=w) return "edges known to vertex "+S2(v.x,v.y)+" differ from the edges it belongs to";
      if (v.p->xy().x!=v.x||v.p->xy().y!=v.y) return "vertex moved"; if (std::fabs(v.p->mesh_size()-v.s)>1e-12||std::fabs(v.p->size_range()-v.r)>1e-12) return "size of a vertex is wrong"; if ((uint8_t)v.p->properties()!=v.prop) return "properties of a vertex are wrong"; }
    return "";
  }
  uint64_t hash() { uint64_t h=1469598103934665603ull; auto id=[&](Vertex* v){ for (size_t i=0;i<mv.size();++i) if (mv[i].p==v) return (uint64_t)i; return (uint64_t)99; };
    for (auto& m : ml) h=(h^(id(m.a)*31+id(m.b)*7+m.prop+1))*1099511628211ull; h=(h^0x77)*1099511628211ull; for (auto& m : mk) h=(h^(id(m.a)*31+id(m.b)*7+5))*1099511628211ull;
    for (auto& v : mv) { h=(h^(uint64_t)llround(v.x*4096))*1099511628211ull; h=(h^(uint64_t)llround(v.y*4096))*1099511628211ull; } h^=h>>29; return h; }
};

static bool run_seq(int conf, const std::vector<std::string>& ops, World& w)
{
  std::string h;
  for (size_t i=0;i<ops.size();++i) { h += (i?" ":"")+ops[i]; std::string e=w.step(ops[i]); ++sh()->transitions;
    if (e.empty() && i+1==ops.size()) { e=w.check(); ++sh()->evals; if (!w.ml.empty()) ++sh()->nontrivial; seen_state(w.hash()*3+conf); }
    if (!e.empty()) { report("conf="+std::to_string(conf),h,e); return false; } }
  ++sh()->stat[8]; return true;
}
static void explore_seq(int conf, std::vector<std::string>& ops, int depth)
{
  if (sh()->stop) return;
  std::vector<std::string> alt;
  { World w(conf); if (!run_seq(conf,ops,w)) return; if (depth==0) return;
    auto has=[&](int i,int j){ for (auto& m : w.ml) if (m.a==w.mv[i].p&&m.b==w.mv[j].p) return true; return false; };
    for (int i=0;i<NV;++i) for (int j=0;j<NV;++j) if (i!=j && !has(i,j)) alt.push_back("a"+std::to_string(i)+std::to_string(j));
    if (w.mv.size()>NV) { alt.push_back("a4"+std::to_string(3)); alt.push_back("a24"); }
    alt.push_back("i20"); if (w.mk.size()<2) { alt.push_back("k01"); alt.push_back("k12"); } else alt.push_back("K");
    for (size_t i=0;i<w.ml.size();++i) { alt.push_back("r"+std::to_string(i)); for (const char* s : {"l","h","u"}) if (w.mv.size()<9) alt.push_back("s"+std::to_string(i)+s); }
    for (size_t i=0;i<w.mv.size();i+=3) alt.push_back("v"+std::to_string(i));
    if (!w.ml.empty()) { for (const char* s : {"z","y","p","q"}) if (w.ml.size()>1) alt.push_back(s); alt.push_back("c"); alt.push_back("x"); if (w.base) alt.push_back("n"); }
    alt.push_back("f"); alt.push_back("w"); }
  for (auto& a : alt) { if (!ops.empty() && ops.back()==a && (a=="w"||a=="x"||a=="f"||a=="c"||a=="z"||a=="y"||a=="p"||a=="q")) continue; ops.push_back(a); explore_seq(conf,ops,depth-1); ops.pop_back(); }
}

int main(int argc, char** argv)
{
  parse_args(argc, argv);
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  if (!cfg().replay.empty()) {
    FILE* f=fopen(cfg().replay.c_str(),"r"); std::string l; int ch; while (f&&(ch=fgetc(f))!=EOF&&ch!='\n') l+=(char)ch; if (f) fclose(f);
    size_t a=l.find(" ||| "), b=l.find(" ||| ",a+5); int conf=atoi(l.c_str()+5); auto ops=words(l.substr(a+5,b-a-5));
    auto r=in_child([&]{ World w(conf); run_seq(conf,ops,w); }); if (!r.empty()) report(l.substr(0,a),l.substr(a+5,b-a-5),r);
    write_summary(); return 0;
  }
  bool th=cfg().tier=="thorough"; cfg().op_timeout=1200;
  struct C { int conf; std::vector<std::string> pre; int depth; }; std::vector<C> cs;
  std::vector<std::string> first; for (int i=0;i<NV;++i) for (int j=0;j<NV;++j) if (i!=j) first.push_back("a"+std::to_string(i)+std::to_string(j));
  for (int conf=0;conf<3;++conf) { 
    for (auto& a : first) for (auto& b : first) if (a!=b) cs.push_back({conf,{a,b},th||conf==2?3:2});
    // closed chains of three and four edges, then everything
    for (auto& p : std::vector<std::vector<std::string>>{{"a01","a12","a20"},{"a01","a12","a23","a30"},{"a03","a32","a21","a10"},{"a01","a10","a12","a21"},{"k01","k12","a01","a12","a23"}}) { cs.push_back({conf,p,th?4:3}); } }
  parallel_cases(cs.size(), [&](size_t i){ auto ops=cs[i].pre;
    auto r=in_child([&]{ explore_seq(cs[i].conf,ops,cs[i].depth); }); if (!r.empty()) { std::string h; for (auto& o : cs[i].pre) h+=" "+o; report("conf="+std::to_string(cs[i].conf),"sequence starting with"+h,r); } }, nullptr);
  { FILE* f=fopen((cfg().out+"/samples.txt").c_str(),"w"); if (f) { for (size_t i : {(size_t)0,cs.size()/2,cs.size()-1}) { fprintf(f,"conf=%d |||",cs[i].conf); for (auto& o : cs[i].pre) fprintf(f," %s",o.c_str()); fprintf(f," then all sequences of %d further operations\n",cs[i].depth); } fclose(f); } }
  write_summary({{"histories", std::to_string(sh()->stat[8].load())}});
}
