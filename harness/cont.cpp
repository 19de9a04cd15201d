// C10: the spatial container against a plain list, over all operation
// sequences of a bounded alphabet (stateless exploration on the real code).
#include <set>
#include <algorithm>
#include "TQMesh.h"
#include "explore.h"
#include "spec.h"
using namespace CppUtils;
using namespace vf;

struct Node : public ContainerEntry<Node> {
  int id; Node(double x, double y, int i) : ContainerEntry<Node>(x,y), id(i) { ++alive(); }
  ~Node() { --alive(); }
  void container_destructor() override { ++destroyed(); }
  static int& alive() { static int n = 0; return n; }
  static int& destroyed() { static int n = 0; return n; }
};
struct Conf { double scale; size_t items, depth; };
struct MI { int id; double x, y; Node* p; };
struct Model { std::vector<MI> v; };

static std::vector<std::array<double,2>> QP;                    // query points
static std::vector<std::array<double,4>> QR;                    // query rectangles

static std::string check_all(Container<Node>& c, const Model& m, bool queries)
{
  if (c.size() != m.v.size()) return "size is " + std::to_string(c.size()) + " instead of " + std::to_string(m.v.size());
  if (c.quad_tree().size() != m.v.size()) return "spatial index holds " + std::to_string(c.quad_tree().size()) + " items instead of " + std::to_string(m.v.size());
  { size_t i = 0; for (auto& p : c) { if (p->id != m.v[i].id) return "iteration order differs";
      if (p->xy().x != m.v[i].x || p->xy().y != m.v[i].y) return "item position differs";
      if (!p->in_container()) return "stored item claims not to be in the container"; ++i; }
    if (i != m.v.size()) return "iteration length differs"; }
  if (!m.v.empty() && (c.front().id != m.v.front().id || c.back().id != m.v.back().id)) return "front/back differ";
  for (size_t i=0;i<m.v.size();++i) if (c[i].id != m.v[i].id) return "access by index differs";
  if (!queries) return "";
  for (auto& r : QR) {
    std::multiset<int> a, b; for (auto* p : c.get_items(Vec2d{r[0],r[1]}, Vec2d{r[2],r[3]})) a.insert(p->id);
    for (auto& i : m.v) if (i.x>=r[0]&&i.x<=r[2]&&i.y>=r[1]&&i.y<=r[3]) b.insert(i.id);
    if (a != b) return "rectangle query (" + num(r[0])+","+num(r[1])+")-("+num(r[2])+","+num(r[3])+") returns "+std::to_string(a.size())+" items instead of "+std::to_string(b.size());
  }
  for (auto& q : QP) {
    for (double rad : {0.3, 1.1, 2.3, 9.7}) {
      std::multiset<int> a, b; for (auto* p : c.get_items(Vec2d{q[0],q[1]}, rad)) a.insert(p->id);
      for (auto& i : m.v) if (std::hypot(i.x-q[0],i.y-q[1]) < rad) b.insert(i.id);
      if (a != b) return "circle query at ("+num(q[0])+","+num(q[1])+") radius "+num(rad)+" returns "+std::to_string(a.size())+" items instead of "+std::to_string(b.size());
    }
    Node* n = c.get_nearest(Vec2d{q[0],q[1]});
    if (m.v.empty() != (n == nullptr)) return m.v.empty() ? "nearest item of an empty container" : "no nearest item found";
    if (n) { double d = 1e300; for (auto& i : m.v) d = std::min(d, std::hypot(i.x-q[0],i.y-q[1]));
      if (std::hypot(n->xy().x-q[0],n->xy().y-q[1]) > d + 1e-12) return "nearest item at ("+num(q[0])+","+num(q[1])+") is not the nearest"; }
  }
  return "";
}

// op encoding: A<k> add at position k; I<k> insert in front; R<i> remove i-th; M<i>.<k> move i-th to k; W clear waste; Z sort
static std::vector<std::array<double,2>> POS;
struct Run {
  Container<Node> c; Model m; int next = 0; int removed = 0, wiped = 0;
  Run(const Conf& k) : c(k.scale, k.items, k.depth) { Node::alive() = 0; Node::destroyed() = 0; }
  std::string step(const std::string& o) {
    auto num2 = [&](size_t p){ return atoi(o.c_str()+p); };
    if (o[0]=='A') { auto& p = POS[num2(1)]; Node& n = c.push_back(p[0],p[1],next); m.v.push_back({next++,p[0],p[1],&n}); }
    else if (o[0]=='I') { auto& p = POS[num2(1)]; Node& n = c.insert(c.begin(),p[0],p[1],next); m.v.insert(m.v.begin(),{next++,p[0],p[1],&n}); }
    else if (o[0]=='R') { size_t i=num2(1); Node* p=m.v[i].p; if (!c.remove(*p)) return "removal of a stored item refused"; m.v.erase(m.v.begin()+i); ++removed;
      if (p->in_container()) return "removed item claims to be in the container"; }
    else if (o[0]=='M') { size_t i=num2(1), d=o.find('.'); auto& p=POS[atoi(o.c_str()+d+1)];
      if (!c.update(*m.v[i].p, Vec2d{p[0],p[1]})) return "move inside the region refused"; m.v[i].x=p[0]; m.v[i].y=p[1]; }
    else if (o[0]=='O') { size_t i=num2(1); if (c.update(*m.v[i].p, Vec2d{1e3,-1e3})) return "move out of the region accepted"; }
    else if (o[0]=='W') { c.clear_waste(); wiped = removed; }
    else if (o[0]=='Z') { auto f=[](const std::unique_ptr<Node>& a,const std::unique_ptr<Node>& b){ return std::make_pair(a->xy().x,a->id) < std::make_pair(b->xy().x,b->id); };
      c.sort(f); std::sort(m.v.begin(),m.v.end(),[](const MI&a,const MI&b){ return std::make_pair(a.x,a.id)<std::make_pair(b.x,b.id); }); }
    if (Node::alive() != (int)m.v.size() + removed - wiped) return "number of live objects is wrong";
    if (Node::destroyed() != removed) return "removed items are not finalised exactly once";
    return "";
  }
};
static uint64_t hashm(const Model& m, size_t conf)
{ uint64_t h=1469598103934665603ull^conf; for (auto& i : m.v) { long long a=llround(i.x*64), b=llround(i.y*64); h=(h^a)*1099511628211ull; h=(h^b)*1099511628211ull; h^=h>>31; } return h; }

struct Case { Conf k; std::vector<std::string> prefix; int depth; std::vector<std::string> fixed; int np; };
static std::string ctext(const Case& c) { return "scale="+num(c.k.scale)+" items="+std::to_string(c.k.items)+" depth="+std::to_string(c.k.depth)+" np="+std::to_string(c.np); }

static void run_seq(const Case& c, const std::vector<std::string>& ops, size_t from)
{
  Run r(c.k); std::string h;
  for (size_t i=0;i<ops.size();++i) {
    h += (i?" ":"") + ops[i];
    std::string e = r.step(ops[i]); ++sh()->transitions;
    if (e.empty() && i+1 > from) { e = check_all(r.c, r.m, true); ++sh()->evals; if (!r.m.v.empty()) ++sh()->nontrivial; seen_state(hashm(r.m, c.k.items*100+c.k.depth)); }
    if (!e.empty()) { report(ctext(c), h, e); return; }
  }
  ++sh()->stat[8];
}
static void positions(int np)
{ // np 0: lattice incl. borders and centre lines; 1: fine points in one corner (deep splits); 3: pairs next to the dividing lines
  POS.clear();
  if (np==0) for (double x : {-2.0,0.0,1.0}) for (double y : {-2.0,0.0,2.0}) POS.push_back({x,y});
  else if (np==1) { POS = {{0,0},{0.5,0.5},{0.25,0.25},{0.3,0.3},{-1,-1},{2,2},{-2,2}}; }
  else if (np==3) { POS = {{0,0},{0.02,-0.02},{-0.03,0.03},{1,1},{0.97,1.02},{1.01,0.98},{-0.02,1.01},{-2,-1.99}}; }   // both sides of the dividing lines, tiny moves
  else { for (int i=0;i<7;++i) for (int j=0;j<7;++j) POS.push_back({-2+i*4.0/6,-2+j*4.0/6}); for (int i=0;i<8;++i) POS.push_back({-2+i*0.5,0.5*i-2}); }
}
static void queries(bool small)
{
  QP.clear(); QR.clear();
  std::vector<double> g = small ? std::vector<double>{-2,-0.6,0,0.5,1.7,2} : std::vector<double>{-3,-2,-1.1,-0.6,0,0.27,0.5,1,1.7,2,5};
  for (double x : g) for (double y : g) QP.push_back({x,y});
  if (small) { QP.push_back({7,-8}); QP.push_back({-3,0.1}); }
  for (double x : {-0.04,-0.01,0.99}) for (double y : {-0.04,0.99}) QR.push_back({x,y,x+0.035,y+0.035});
  for (double x : g) for (double y : g) for (double s : {0.0,0.5,1.5,6.0}) QR.push_back({x,y,x+s,y+(s==1.5?0.5:s)});
}
static void explore_seq(const Case& c, std::vector<std::string>& ops, size_t n, int depth)
{
  if (sh()->stop) return;
  run_seq(c, ops, ops.size()-1);
  if (depth == 0) return;
  std::vector<std::string> alt;
  for (size_t k=0;k<POS.size();++k) alt.push_back("A"+std::to_string(k));
  alt.push_back("I0"); alt.push_back("I4");
  for (size_t i=0;i<n;++i) { alt.push_back("R"+std::to_string(i)); if (i==0||i+1==n) for (size_t k=0;k<POS.size();k+= (n>3?2:1)) alt.push_back("M"+std::to_string(i)+"."+std::to_string(k)); }
  if (n) alt.push_back("O0");
  if (n>1) alt.push_back("Z");
  alt.push_back("W");
  for (auto& a : alt) {
    if (a == "W" && !ops.empty() && ops.back() == "W") continue;
    ops.push_back(a);
    explore_seq(c, ops, n + (a[0]=='A'||a[0]=='I') - (a[0]=='R'), depth-1);
    ops.pop_back();
  }
}

int main(int argc, char** argv)
{
  parse_args(argc, argv);
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  if (!cfg().replay.empty()) {
    FILE* f=fopen(cfg().replay.c_str(),"r"); std::string l; int ch; while(f&&(ch=fgetc(f))!=EOF&&ch!='\n') l+=(char)ch; if (f) fclose(f);
    size_t a=l.find(" ||| "), b=l.find(" ||| ",a+5); Case c; 
    for (auto& w : words(l.substr(0,a))) { auto kv=split(w,'='); double v=atof(kv[1].c_str()); if(kv[0]=="scale")c.k.scale=v; if(kv[0]=="items")c.k.items=v; if(kv[0]=="depth")c.k.depth=v; if(kv[0]=="np")c.np=v; }
    positions(c.np); queries(false);
    auto r=in_child([&]{ run_seq(c, words(l.substr(a+5,b-a-5)), 0); });
    if (!r.empty()) report(l.substr(0,a), l.substr(a+5,b-a-5), r);
    write_summary(); return 0;
  }
  bool th = cfg().tier == "thorough";
  std::vector<Case> cs;
  std::vector<Conf> ks; for (size_t it : {1,2,3}) for (size_t d : {1,2,4}) ks.push_back({4,it,d});
  // all sequences: two chosen first operations, then exhaustive to the bound
  for (auto& k : ks) for (int np=0; np<2; ++np) { int n = np==0?9:7;
    for (int a=0;a<n;++a) for (int b=0;b<n;++b) cs.push_back({k,{"A"+std::to_string(a),"A"+std::to_string(b)}, th?3:2, {}, np}); }
  for (auto& k : ks) if (k.items<3 && k.depth>1) for (int a=0;a<8;++a) for (int b=0;b<8;++b) cs.push_back({k,{"A"+std::to_string(a),"A"+std::to_string(b)}, th?3:2, {}, 3});
  // long systematic histories: fill the lattice in several orders, move, remove
  for (size_t it : {1,2,3,5,100}) for (size_t d : {1,3,6,25}) for (int ord=0; ord<6; ++ord) for (int rm=0; rm<6; ++rm) {
    Case c; c.k={4,it,d}; c.np=2; c.depth=0; positions(2); int n=(int)POS.size(); std::vector<int> o;
    for (int i=0;i<n;++i) o.push_back(ord==0?i:ord==1?n-1-i:(i*(ord==2?5:ord==3?8:ord==4?13:23))%n);
    for (int i : o) c.fixed.push_back("A"+std::to_string(i));
    int left=n;
    if (rm>=3) for (int i=0;i<n;i+=1) c.fixed.push_back("M"+std::to_string((i*7)%n)+"."+std::to_string((i*(rm+8)+3)%n));
    for (int i=0;i<n && left>0;++i) { int idx = rm%3==0?0:rm%3==1?left-1:(i*11)%left; c.fixed.push_back("R"+std::to_string(idx)); --left;
      if (i%9==4) c.fixed.push_back("W"); if (i%13==6) { c.fixed.push_back("A"+std::to_string((i*3)%n)); ++left; } }
    cs.push_back(c);
  }
  cfg().op_timeout = 300;
  parallel_cases(cs.size(), [&](size_t i){
    auto& c = cs[i];
    auto r = in_child([&]{
      alarm(600);
      positions(c.np);
      if (!c.fixed.empty()) { queries(false); 
        // check the queries at every 4th step and at the end
        Run r(c.k); std::string h; 
        for (size_t j=0;j<c.fixed.size();++j) { h += (j?" ":"")+c.fixed[j]; std::string e=r.step(c.fixed[j]); ++sh()->transitions;
          if (e.empty()) { e=check_all(r.c,r.m,j%4==3||j+1==c.fixed.size()); ++sh()->evals; ++sh()->nontrivial; seen_state(hashm(r.m,c.k.items*100+c.k.depth)); }
          if (!e.empty()) { report(ctext(c),h,e); return; } }
        ++sh()->stat[8];
      } else { queries(true); auto ops=c.prefix; explore_seq(c, ops, 2, c.depth); }
    });
    if (!r.empty()) report(ctext(c), "sequence starting with " + (c.fixed.empty()?c.prefix[0]+" "+c.prefix[1]:c.fixed[0]), r);
  }, nullptr);
  { FILE* f=fopen((cfg().out+"/samples.txt").c_str(),"w"); for (size_t i : {(size_t)0, cs.size()/3, cs.size()-1}) { fprintf(f,"%s |||", ctext(cs[i]).c_str()); for (auto& o : cs[i].prefix) fprintf(f," %s",o.c_str()); if (cs[i].fixed.empty()) fprintf(f," then all sequences of %d further operations", cs[i].depth); for (size_t j=0;j<cs[i].fixed.size()&&j<40;++j) fprintf(f," %s",cs[i].fixed[j].c_str()); fprintf(f,"\n"); } fclose(f); }
  write_summary({{"histories", std::to_string(sh()->stat[8].load())}});
}
