// Helper of C21: creates the meshes of the bounded families with the library and
// exports every final mesh as text file.   <n>.txt plus a line "<case> ||| <ops>" in index.txt
#include "session.h"
#include "export.h"
#include "explore.h"
#include "families.h"
using namespace vf;

struct C { std::vector<DomSpec> d; std::vector<std::string> ops; };
static std::vector<C> cases(bool th)
{
  std::vector<C> r; auto P=lattice_polygons(2,2,3,9);
  std::vector<std::vector<std::string>> H={{"T"},{"T","M"},{"T","R"},{"T","M","Sm:2"},{"T","M","R"},{"T","R","Sl:1"}};
  for (size_t i=0;i<P.size();i+=th?1:2) for (auto* s : {"c:2.5","c:0.7"}) for (size_t h=0;h<H.size();++h) { auto o=H[h]; o.insert(o.begin(),"N");
    Loop l=poly_loop(P[i],'E','e'); // markers: all different / few / descending / all equal
    for (size_t k=0;k<l.pts.size();++k) l.pts[k].c = (i+h)%4==0 ? (int)k+1 : (i+h)%4==1 ? (int)(k%2)*30 : (i+h)%4==2 ? 100-(int)k*7 : 5;
    r.push_back({{dom1(l,s)},o}); }
  for (size_t i=0;i<P.size();i+=th?1:4) for (auto& h : H) { auto o=h; o.insert(o.begin(),"N"); DomSpec d=dom1(rect_loop(0,0,4,4,'E','e'),"c:0.9"); d.loops.push_back(reversed_loop(poly_loop(P[i],'I','e',1,1,1,11))); r.push_back({{d},o}); }
  for (int k=1;k<=3;++k) for (int sd=0;sd<4;++sd) for (auto& h : H) { DomSpec d=dom1(rect_loop(-2,-1,3,2,'E','e'),"c:0.5"); auto& a=d.loops[0].pts[sd]; auto& b=d.loops[0].pts[(sd+1)%4]; auto o=h; o.insert(o.begin(),"L:"+std::to_string(k)+",0.08,1.3,"+num(a.x)+","+num(a.y)+","+num(b.x)+","+num(b.y)); o.insert(o.begin(),"N"); r.push_back({{d},o}); }
  // merged meshes: two rectangles, both directions
  for (auto& h : H) for (int dir=0;dir<2;++dir) { DomSpec a=dom1(rect_loop(0,0,2,2,'E','e'),"c:0.6",1,3), b=dom1(rect_loop(2,0,4,2,'E','e',21),"c:0.8",2,4); std::vector<std::string> o={"0N","0T","1N","1T",dir?"0G:1":"1G:0"}; for (size_t k=1;k<h.size();++k) o.push_back((dir?"0":"1")+h[k]); r.push_back({{a,b},o}); }
  // positions with many digits, far from the origin
  for (size_t i=0;i<P.size();i+=th?3:20) for (double q : {0.0371,123.4567}) { r.push_back({{dom1(poly_loop(P[i],'E','e',q,-3.3*q,11.7*q),"c:"+num(q*0.8))},{"N","T","M"}}); }
  return r;
}
static std::string text(const C& c) { std::string s; for (auto& d : c.d) s += (s.empty()?"":" && ") + to_text(d); s += " ||| "; for (size_t i=0;i<c.ops.size();++i) s += (i?" ":"") + c.ops[i]; return s; }

int main(int argc, char** argv)
{
  parse_args(argc, argv);
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  std::vector<C> cs;
  if (!cfg().replay.empty()) { std::ifstream i(cfg().replay); std::string l; std::getline(i,l); size_t a=l.find(" ||| "), b=l.find(" ||| ",a+5); C c; std::string d=l.substr(0,a); size_t p; while ((p=d.find(" && "))!=std::string::npos) { c.d.push_back(dom_from_text(d.substr(0,p))); d=d.substr(p+4); } c.d.push_back(dom_from_text(d)); for (auto& w : words(l.substr(a+5,b==std::string::npos?b:b-a-5))) if (w.rfind("mode=",0)!=0) c.ops.push_back(w); cs.push_back(c); }
  else cs=cases(cfg().tier=="thorough");
  parallel_cases(cs.size(), [&](size_t i){ std::string out=in_child([&]{ Session s(cs[i].d); for (auto& o : cs[i].ops) s.apply(o); int k = s.mesh[0]?0:1; bool done = s.mesh[k]->get_front_edges().size()==0 && s.mesh[k]->n_elements()>0; if (done) s.gen.write_mesh(*s.mesh[k], cfg().out+"/"+std::to_string(i)+".txt", TQMesh::MeshExportType::TXT); }); }, nullptr);
  std::ofstream o(cfg().out+"/index.txt"); for (size_t i=0;i<cs.size();++i) o << text(cs[i]) << "\n";
}
