// History independence: what a session produces depends on nothing but its own
// description.  Every enumerated session is executed alone (reference) and then
// again under every enumerated foreign history; after each of its operations
// the complete mesh (bit for bit, in order) has to equal the reference.
#include "session.h"
#include "export.h"
#include "explore.h"
#include "families.h"
#include <iostream>
#include <sstream>
#include <cstring>
using namespace vf;
struct Case { std::vector<DomSpec> d; std::vector<std::vector<std::string>> lv; bool must = true; };
#include "mesh_families.h"

using Hist = std::vector<std::string>;
struct Sess { std::vector<DomSpec> d; Hist ops; };

static void putd(std::string& s, double x) { uint64_t u; memcpy(&u,&x,8); if (x==0) u=0; s.append((char*)&u,8); }
static void puti(std::string& s, int x) { s.append((char*)&x,4); }
static std::string digest(TQMesh::Mesh& m)
{
  View w = snap(m); std::string s;
  for (size_t i=0;i<w.v.size();++i) { putd(s,w.v[i][0]); putd(s,w.v[i][1]); puti(s,(int)w.vprop[i]); }
  for (auto& e : w.e) { puti(s,e.color); for (int v : e.v) puti(s,v); }
  puti(s,-7); for (auto& e : w.ie) { puti(s,e.a); puti(s,e.b); }
  puti(s,-8); for (auto& e : w.be) { puti(s,e.a); puti(s,e.b); puti(s,e.color); }
  return s;
}
// all meshes of a session after each operation
struct Trace { std::vector<std::string> after; std::vector<char> ret; };
static void record(Session& s, bool ret, Trace& t)
{ std::string q; for (auto* m : s.mesh) q += m ? digest(*m) : std::string("-"); t.after.push_back(q); t.ret.push_back(ret); ++sh()->transitions; }
static int mesh_of(const std::string& op) { return isdigit((unsigned char)op[0]) ? op[0]-'0' : 0; }
static bool feasible(Session& s, const std::string& op)
{
  int k = mesh_of(op); std::string o = isdigit((unsigned char)op[0]) ? op.substr(1) : op;
  if (o == "N") return !s.mesh[k];
  if (!s.mesh[k]) return false;
  if (o[0]=='G') { int j = atoi(o.c_str()+2); return j != k && s.mesh[j]; }
  return true;
}
static bool one(Session& s, const std::string& op) { alarm(cfg().op_timeout); bool r = feasible(s,op) ? s.apply(op) : false; alarm(0); return r; }

static Trace alone(const Sess& a)
{ Trace t; Session s(a.d); for (auto& o : a.ops) { bool r = one(s,o); record(s,r,t); } return t; }

// detours while the domain is described
static void detour_domain(Session& s, int kind)
{
  using namespace TQMesh;
  for (size_t k=0;k<s.dom.size();++k) { Domain& D=*s.dom[k]; auto& p=s.spec[k].loops[0].pts[0];
    auto& q=s.spec[k].loops[0].pts[s.spec[k].loops[0].pts.size()/2];
    double mx=0.5*(p.x+q.x), my=0.5*(p.y+q.y);
    if (kind==0) { Vertex& v=D.add_fixed_vertex(mx,my,0.01,0.5); D.remove_fixed_vertex(v); }
    if (kind==1) { Vertex& v=D.add_fixed_vertex(mx,my); Vertex& u=D.add_fixed_vertex(mx+1e-2,my); Edge& e=D.add_fixed_edge(v,u); D.remove_fixed_edge(e); D.remove_fixed_vertex(u); D.remove_fixed_vertex(v); }
    if (kind==2) { Vertex& v=D.add_vertex(mx,my,0.01,1.0); D.remove_vertex(v); }
    if (kind==3) { Vertex* v[3]; for (int i=0;i<3;++i) v[i]=&D.add_vertex(mx+0.01*(i==1),my+0.01*(i==2)); 
      Boundary& b=D.add_interior_boundary(); b.add_edge(*v[0],*v[2],9); b.add_edge(*v[2],*v[1],9); b.add_edge(*v[1],*v[0],9);
      D.remove_boundary(D.size()-1); for (auto* x : v) D.remove_vertex(*x); }
    if (kind==4) { volatile double sum=0; for (int i=0;i<9;++i) for (int j=0;j<9;++j) { CppUtils::Vec2d x{p.x+(q.x-p.x)*i/8,p.y+(q.y-p.y)*j/8}; sum=sum+D.size_function(x); Vertex* n=nullptr; (void)n; sum=sum+(D.is_inside(D.vertices().front())?1:0); }
      std::ostringstream os; D.export_size_function(os,{p.x,p.y},{q.x+0.1,q.y+0.1},7,6); D.area(); }
  }
}
// inspections between operations
static void inspect(Session& s, int kind)
{
  using namespace TQMesh;
  for (size_t k=0;k<s.mesh.size();++k) if (s.mesh[k]) { Mesh& m=*s.mesh[k];
    if (kind==0) { std::ostringstream os; os << m; }
    if (kind==1) { MeshChecker(m,*s.dom[k]).check_completeness(); EntityChecks::check_mesh_validity(m); }
    if (kind==2) { m.get_front_edges(); MeshCleanup::assign_mesh_indices(m); MeshCleanup::assign_size_function_to_vertices(m,*s.dom[k]); MeshCleanup::assign_mesh_indices(m); }
    if (kind==3) { s.gen.quad_layer_generation(m); s.gen.triangulation(m); s.gen.torsion_smoothing(m); s.gen.laplace_smoothing(m); s.gen.mixed_smoothing(m); s.gen.tri2quad_modification(m); s.gen.quad_refinement(m); }
    if (kind==4) { // settings that are set back
      s.gen.triangulation(m).n_elements(1); s.gen.triangulation(m).n_elements(0);
      s.gen.laplace_smoothing(m).smooth(0); s.gen.mixed_smoothing(m).smooth(0); s.gen.torsion_smoothing(m).smooth(0);
      // another kind of algorithm object in between, so that persistent settings start from their defaults
      s.gen.laplace_smoothing(m); s.gen.quad_layer_generation(m); }
  }
}

static std::string cmp(const Trace& r, const Trace& t, size_t& at)
{
  for (size_t i=0;i<r.after.size();++i) { at=i;
    if (i >= t.after.size()) return "history stopped early";
    if (r.ret[i] != t.ret[i]) return std::string("operation ") + (r.ret[i] ? "succeeds" : "fails") + " alone but " + (t.ret[i] ? "succeeds" : "fails") + " here";
    if (r.after[i] != t.after[i]) return "mesh differs from the one the same session creates alone"; }
  return "";
}

static std::string text(const Sess& a) { std::string s; for (auto& d : a.d) s += (s.empty()?"":" | ") + to_text(d); s += " :"; for (auto& o : a.ops) s += " "+o; return s; }
static Sess parse(const std::string& l)
{ Sess a; size_t c=l.rfind(" :"); for (auto& x : split(l.substr(0,c),'|')) a.d.push_back(dom_from_text(x)); for (auto& o : words(l.substr(c+2))) a.ops.push_back(o); return a; }

// foreign histories: "again", "after", "alive", "mixed", "same-generator", "settings", "D<k>", "I<k>"
static std::string run_variant(const Sess& a, const Trace& ref, const std::string& v, const Sess& b, const Trace& refb, size_t& at)
{
  Trace t; at=0;
  if (v=="again") { { Session s(a.d); for (auto& o : a.ops) one(s,o); } t=alone(a); return cmp(ref,t,at); }
  if (v=="after") { { Session s(b.d); for (auto& o : b.ops) one(s,o); } t=alone(a); return cmp(ref,t,at); }
  if (v=="alive") { Session s(b.d); for (size_t i=0;i<(b.ops.size()+1)/2;++i) one(s,b.ops[i]); t=alone(a); std::string e=cmp(ref,t,at); if (!e.empty()) return e;
    Trace tb; { Session z(b.d); (void)z; } return ""; }
  if (v=="mixed") { Session s(a.d), z(b.d); Trace tb;
    for (size_t i=0;i<std::max(a.ops.size(),b.ops.size());++i) {
      if (i<a.ops.size()) { bool r=one(s,a.ops[i]); record(s,r,t); }
      if (i<b.ops.size()) { bool r=one(z,b.ops[i]); record(z,r,tb); } }
    std::string e=cmp(ref,t,at); if (!e.empty()) return e;
    e=cmp(refb,tb,at); return e.empty() ? "" : "second session: "+e; }
  if (v=="same-generator" || v=="settings") { // b, moved far away, lives in the same generator
    std::vector<DomSpec> d=a.d; size_t n=d.size(); for (auto x : b.d) d.push_back(moved(x,0,1,3000,2000));
    Session s(d); size_t j=0; Hist bo; for (auto& o : b.ops) { int k=mesh_of(o); std::string r=isdigit((unsigned char)o[0])?o.substr(1):o; if (r[0]=='L') continue; if (r[0]=='G') r="G:"+std::to_string(atoi(r.c_str()+2)+(int)n); bo.push_back(std::to_string(k+n)+r); }
    auto spoil=[&]{ // unusual settings for the other mesh must not reach this one
      for (size_t k=n;k<d.size();++k) if (s.mesh[k]) { auto& m=*s.mesh[k];
        s.gen.triangulation(m).n_elements(3).min_cell_quality(0.99).max_cell_angle(1.0).mesh_range_factor(0.01).wide_search_factor(0.01).base_vertex_factor(0.3);
        s.gen.laplace_smoothing(m).epsilon(0).decay(3); s.gen.torsion_smoothing(m).epsilon(0).decay(3).angle_factor(9); s.gen.mixed_smoothing(m).epsilon(0).decay(3).angle_factor(9);
        s.gen.quad_layer_generation(m).n_layers(7).first_height(3).growth_rate(9).starting_position(1.0,1.0).ending_position(2.0,2.0); s.gen.laplace_smoothing(m).epsilon(0); s.gen.triangulation(m).n_elements(1).min_cell_quality(0.99); } };
    for (auto& o : a.ops) { if (j<bo.size()) one(s,bo[j++]); if (v=="settings") spoil(); bool r=one(s,o); std::string q; for (size_t k=0;k<n;++k) q += s.mesh[k]?digest(*s.mesh[k]):std::string("-"); t.after.push_back(q); t.ret.push_back(r); ++sh()->transitions; }
    return cmp(ref,t,at); }
  if (v[0]=='D') { Session s(a.d); detour_domain(s, v[1]-'0'); for (auto& o : a.ops) { bool r=one(s,o); record(s,r,t); } return cmp(ref,t,at); }
  if (v[0]=='I') { Session s(a.d); for (auto& o : a.ops) { bool r=one(s,o); record(s,r,t); inspect(s, v[1]-'0'); } return cmp(ref,t,at); }
  return "unknown variant";
}

static std::vector<Sess> sessions()
{
  bool th = cfg().tier=="thorough"; std::vector<Sess> out;
  auto take=[&](const Ops& lv){ std::vector<Hist> h{{}}; for (auto& l : lv) { std::vector<Hist> n; for (auto& x : h) for (auto& o : l) { auto y=x; if (o!="-") y.push_back(o); n.push_back(y); } h=n; } return h; };
  auto add=[&](const std::vector<DomSpec>& d, const Ops& lv){ for (auto& h : take(lv)) out.push_back({d,h}); };
  for (auto& p : every(polys22(), th?2:9)) add({dom1(poly_loop(p,'E','e'),"c:0.6")}, {{"N"},{"T:4","T"},{"M","R"},{"T"},{"Sm:2","Sl:3"}});
  for (auto& p : every(polys22(), th?6:40)) add({with_hole(p,"c:0.8",0)}, {{"N"},{"T"},{"M","Cd"},{"St:2","R"}});
  { auto B=wild_bases(); for (auto& b : B) for (int f=0;f<n_features();f+=th?1:3) add({feature(b,f)}, {{"N"},{"T"},{"M"},{"Sm:2","Sl:2"},{"R"}}); }
  for (auto& p : every(polys22(), th?6:40)) { DomSpec d=dom1(poly_loop(p,'E','e'),"c:0.5"); auto& q=d.loops[0].pts; for (size_t a=0;a<q.size();a+=2) add({d}, {{"N"},{Lop(2,0.12,1.2,q[a],q[(a+1)%q.size()])},{"T"},{"M"},{"Sm:2,1","R"}}); }
  { auto P=neighbor_pairs(4,"c:0.7","c:0.9",th?12:90); for (auto& pr : P) add(pr, {{"0N"},{"0T"},{"1N"},{"1T"},{"0M","1Sl:2"},{"0G:1","1G:0"},{"0M","0Sm:1"}}); }
  { auto q=half_grid(); for (size_t i=0;i<q.size();i+=th?2:8) { DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),"c:0.8"); d.fv.push_back({q[i][0],q[i][1],0,0}); add({d}, {{"N"},{"T","X:6"},{"T"},{"M"},{"Sm:2"}}); } }
  return out;
}

int main(int argc, char** argv)
{
  parse_args(argc, argv);
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  auto judge=[&](const Sess& a, const Trace& ref, const std::string& v, const Sess& b, const Trace& refb) {
    std::string kase = text(a) + (v=="after"||v=="alive"||v=="mixed"||v=="same-generator"||v=="settings" ? " & " + text(b) : "");
    auto r=in_child([&]{ alarm(120); size_t at; std::string e=run_variant(a,ref,v,b,refb,at); ++sh()->evals; ++sh()->nontrivial; ++sh()->stat[8];
      if (!e.empty()) report(kase, v, e + " (operation " + std::to_string(at+1) + ")"); });
    if (!r.empty()) report(kase, v, r); };
  std::vector<std::string> self{"again","D0","D1","D2","D3","D4","I0","I1","I2","I3","I4"}, two{"after","alive","mixed","same-generator","settings"};
  if (!cfg().replay.empty()) {
    FILE* f=fopen(cfg().replay.c_str(),"r"); std::string l; int ch; while (f && (ch=fgetc(f))!=EOF && ch!='\n') l+=(char)ch; if (f) fclose(f);
    size_t x=l.find(" ||| "), y=l.find(" ||| ",x+5); std::string k=l.substr(0,x), v=l.substr(x+5,y-x-5); size_t c=k.find(" & ");
    Sess a=parse(k.substr(0,c)), b=c==std::string::npos?a:parse(k.substr(c+3));
    judge(a,alone(a),v,b,alone(b)); write_summary(); return 0;
  }
  auto S=sessions(); size_t n=S.size(); int partners = cfg().tier=="thorough" ? 6 : 2;
  parallel_cases(n, [&](size_t i){
    auto r=in_child([&]{ alarm(600);
      Trace ref; // reference in a process of its own would be the same code; the trace is taken first thing in this process
      ref=alone(S[i]); for (auto& x : ref.after) seen_state(std::hash<std::string>{}(x));
      alarm(0);
      for (auto& v : self) judge(S[i],ref,v,S[i],ref);
      for (int k=1;k<=partners;++k) { const Sess& b=S[(i*7+k*(n/3)+k)%n]; Trace rb; auto q=in_child([&]{ alone(b); }); if (!q.empty()) continue; 
        rb=alone(b); for (auto& v : two) judge(S[i],ref,v,b,rb); }
    });
    if (!r.empty()) report(text(S[i]), "alone", r);
  }, nullptr);
  { FILE* f=fopen((cfg().out+"/samples.txt").c_str(),"w"); if (f) { for (size_t i : {(size_t)0,n/3,2*n/3,n-1}) fprintf(f,"%s ||| again, after, alive, mixed, same-generator, settings, domain detours, inspections\n", text(S[i]).c_str()); fclose(f); } }
  write_summary({{"histories", std::to_string(sh()->stat[8].load())}});
}
