// C20: the command line application.  Every enumerated parameter file is run by
// the real executable in a scratch directory; the files it writes are compared
// with the mesh that the library creates for the described configuration.
#include <sys/stat.h>
#include <dirent.h>
#include <errno.h>
#include "session.h"
#include "export.h"
#include "explore.h"
#include <iostream>
using namespace vf;
using namespace TQMesh;

typedef std::map<std::string,std::string> Opt;      // option -> alternative, absent: default
typedef std::vector<Opt> Conf;                      // one per mesh block
static std::string get(const Opt& o, const std::string& k, const std::string& d) { auto i=o.find(k); return i==o.end()?d:i->second; }
static std::string enc(const Conf& c) { std::string s; for (size_t i=0;i<c.size();++i) { s += i?" / ":""; for (auto& x : c[i]) s += (x.first==c[i].begin()->first?"":" ") + x.first + "=" + x.second; if (c[i].empty()) s += "default"; } return s; }
static Conf dec(const std::string& s) { Conf c(1); for (auto& w : words(s)) { if (w=="/") { c.emplace_back(); continue; } size_t p=w.find('='); if (p!=std::string::npos) c.back()[w.substr(0,p)]=w.substr(p+1); } return c; }

// ------------------------------------------------------------------ alternatives
// positions of the mesh blocks in histories with several meshes
static double ox(const Opt& o) { return atof(get(o,"ox","0").c_str()); }
static double oy(const Opt& o) { return atof(get(o,"oy","0").c_str()); }
static std::string N(double v) { return num(v); }

struct Text { std::vector<std::string> l; std::map<std::string,std::string> files; };
static std::string csv_ext = "0,0,1,-1,-1\n3,0,2,-1,-1\n3,2,3,0.3,0.4\n0,2.5,4,-1,-1\n";
static std::string csv_int = "1,1,7,-1,-1\n1.5,1,8,-1,-1\n1.2,1.5,9,-1,-1\n";

static Text block_text(const Opt& o)
{
  Text t; auto& l = t.l; double x=ox(o), y=oy(o); auto P=[&](double a, double b){ return N(a+x)+", "+N(b+y); };
  std::string e=get(o,"ext","coords"), in=get(o,"int","none"), fx=get(o,"fix","none");
  std::string fm=get(o,"fmt","TXT"), pre=get(o,"pre","mesh");
  if (pre!="-") l.push_back("Output file prefix: " + pre);
  if (fm!="-") l.push_back("Output file format: " + fm);
  std::string sz=get(o,"size","const"); if (sz!="-") l.push_back("Element size: " + std::string(sz=="const"?"1.0":sz=="lin"?"0.5 + 0.1 * x":sz=="bad1"?"0.3 +* x":sz=="bad2"?"foo":sz=="bad3"?"1/0":sz=="bad4"?"0":sz=="pow"?"0.4 + 0.1 * ( pow(x-1.5, 2) + pow(y-1, 2) )":"0.7 # 0.2"));
  if (o.count("color")) l.push_back("Element color: " + o.at("color"));
  if (o.count("alg")) l.push_back("Meshing algorithm: " + o.at("alg"));
  if (o.count("ref")) l.push_back("Number of quad refinements: " + o.at("ref"));
  if (o.count("smo")) l.push_back("Number of smoothing iterations: " + o.at("smo"));
  if (o.count("sql")) l.push_back("Smooth quad layers: " + o.at("sql"));
  bool verts = e=="edges" || e=="badedge" || e=="openedge" || in=="edges" || in=="badedge" || fx=="edges" || fx=="vedges" || fx=="badedge";
  if (verts) { l.push_back("Define boundary vertices:");
    for (auto& p : {P(0,0), P(3,0)+", 0.4, 0.5", P(3,2), P(0,2.5), P(1,1), P(1,1.5), P(1.5,1.5)+",0.3", P(1.5,1)}) l.push_back(p);
    l.push_back("End boundary vertices"); }
  if (fx=="verts" || fx=="two" || fx=="vedges") { l.push_back("Define fixed vertices:"); l.push_back(P(2.2,1.1)+", 0.2, 0.3"); if (fx!="verts") l.push_back(P(2.1,0.6)); l.push_back("End fixed vertices"); }
  // exterior boundary
  if (e=="edges" || e=="badedge" || e=="openedge") { l.push_back("Define exterior boundary edges:"); l.push_back("0, 1, 1"); l.push_back("1, 2, 2"); l.push_back(e=="badedge"?"2, 99, 3":"2, 3, 3"); if (e!="openedge") l.push_back("3, 0, 4"); l.push_back("End exterior boundary edges"); }
  if (e=="coords" || e=="cw" || e=="sized" || e=="bow" || e=="neg") { l.push_back("Define exterior boundary:");
    if (e=="cw") { l.push_back(P(0,0)+", 1"); l.push_back(P(0,2)+", 2"); l.push_back(P(3,2)+", 3"); l.push_back(P(3,0)+", 4"); }
    else if (e=="bow") { l.push_back(P(0,0)+", 1"); l.push_back(P(3,2)+", 2"); l.push_back(P(3,0)+", 3"); l.push_back(P(0,2)+", 4"); }
    else { l.push_back(P(0,0)+", 1" + (e=="sized"?", 0.3, 0.5":"")); l.push_back(P(3,0)+(e=="neg"?", -2":", 2")); l.push_back(P(3,2)+", 3" + (e=="sized"?", 0.2":"")); l.push_back(P(0,2)+", 4"); }
    l.push_back("End exterior boundary"); }
  if (e=="rect") l.push_back("Define exterior rectangular boundary: 3, "+P(1.5,1)+", 3, 2");
  if (e=="rects") l.push_back("Define exterior rectangular boundary: 3, "+P(1.5,1)+", 3, 2, 0.4, 0.3");
  if (e=="circ") l.push_back("Define exterior circular boundary: 4, "+P(1.2,1.2)+", 1.7, 12");
  if (e=="circs") l.push_back("Define exterior circular boundary: 4, "+P(1.2,1.2)+", 1.7, 9, 0.6, 0.4");
  if (e=="square") l.push_back("Define exterior squared boundary: 5, "+P(1.3,1.3)+", 2.8");
  if (e=="squares") l.push_back("Define exterior squared boundary: 5, "+P(1.3,1.3)+", 2.8, 0.5, 0.2");
  if (e=="tri") l.push_back("Define exterior triangular boundary: 6, "+P(1.2,1.2)+", 5");
  if (e=="csv" || e=="nocsv") { l.push_back("Define exterior boundary from CSV file: ext.csv"); if (e=="csv") t.files["ext.csv"]=csv_ext; }
  // interior boundaries
  if (in=="edges" || in=="badedge") { l.push_back("Define interior boundary edges:"); l.push_back("4, 5, 7"); l.push_back(in=="badedge"?"5, 8, 8":"5, 6, 8"); l.push_back("6, 7, 9"); l.push_back("7, 4, 10"); l.push_back("End interior boundary edges"); }
  if (in=="coords" || in=="ccw" || in=="neg") { l.push_back("Define interior boundary:"); if (in=="ccw") { l.push_back(P(1,1)+", 7"); l.push_back(P(1.5,1)+", 8"); l.push_back(P(1.2,1.5)+", 9"); } else { l.push_back(P(1,1)+", 7"); l.push_back(P(1,1.5)+(in=="neg"?", -1":", 8")); l.push_back(P(1.5,1.2)+", 9, 0.2, 0.3"); } l.push_back("End interior boundary"); }
  if (in=="rect" || in=="mixed") l.push_back("Define interior rectangular boundary: 11, "+P(1,1)+", 0.5, 0.4");
  if (in=="rects") l.push_back("Define interior rectangular boundary: 11, "+P(1,1)+", 0.5, 0.4, 0.15, 0.2");
  if (in=="tworect") { l.push_back("Define interior rectangular boundary: 11, "+P(0.8,1)+", 0.5, 0.4"); l.push_back("Define interior rectangular boundary: 21, "+P(1.7,1)+", 0.4, 0.5"); }
  if (in=="circ") l.push_back("Define interior circular boundary: 12, "+P(1.2,1)+", 0.4, 7");
  if (in=="circs") l.push_back("Define interior circular boundary: 12, "+P(1.2,1)+", 0.4, 5, 0.2, 0.1");
  if (in=="mixed") l.push_back("Define interior circular boundary: 12, "+P(1.8,1)+", 0.3, 6");
  if (in=="square") l.push_back("Define interior squared boundary: 13, "+P(1.2,1)+", 0.5");
  if (in=="tri") l.push_back("Define interior triangular boundary: 14, "+P(1.2,1)+", 0.7");
  if (in=="csv" || in=="nocsv") { l.push_back("Define interior boundary from CSV file: int.csv"); if (in=="csv") t.files["int.csv"]=csv_int; }
  if (in=="cross") l.push_back("Define interior rectangular boundary: 11, "+P(0,1)+", 9, 0.2");
  if (fx=="edges" || fx=="vedges" || fx=="badedge") { l.push_back("Define fixed edges:"); l.push_back(fx=="vedges"?"8, 9":fx=="badedge"?"1, 99":"4, 7"); l.push_back("End fixed edges"); }
  std::string la=get(o,"lay","none");
  if (la=="one" || la=="two") l.push_back("Add quad layers: "+P(0,0)+", "+P(3,0)+", 2, 0.1, 1.5");
  if (la=="alt") l.push_back("Add quad layers: "+P(3,2)+", "+P(0,2)+", 3, 0.06, 1.2");
  if (la=="two") l.push_back("Add quad layers: "+P(3,2)+", "+P(0,2)+", 1, 0.15, 1.0");
  // presentation
  std::string pr=get(o,"form","plain");
  if (pr=="rev") { // blocks stay together
    std::vector<std::vector<std::string>> g; for (size_t i=0;i<l.size();++i) { std::vector<std::string> b{l[i]}; bool m = l[i].back()==':'; while (m && ++i<l.size()) { b.push_back(l[i]); if (l[i].rfind("End ",0)==0) break; } g.push_back(b); }
    std::vector<std::string> r; for (size_t i=g.size(); i-->0; ) { // repeated keys keep their order
      r.insert(r.end(), g[i].begin(), g[i].end()); }
    if (la!="two" && in!="tworect") l = r; }
  if (pr=="comment") { std::vector<std::string> r; for (auto& s : l) { r.push_back("# Element size: 9"); r.push_back("   " + s + "  # Element color: 77"); r.push_back(""); } l = r; }
  if (pr=="crlf") for (auto& s : l) s += "\r";
  return t;
}
static Text file_text(const Conf& c)
{
  Text t; for (auto& o : c) { Text b=block_text(o); t.l.push_back("# mesh"); t.l.push_back("Define mesh:"); t.l.insert(t.l.end(), b.l.begin(), b.l.end()); t.l.push_back("End mesh"); for (auto& f : b.files) t.files[f.first]=f.second; }
  return t;
}

// ------------------------------------------------------------------ the described meshes, made with the library
struct Expect { bool ok = true; std::map<std::string,std::string> files; std::string out; std::string why; };

static std::unique_ptr<Domain> lib_domain(const Opt& o)
{
  double x=ox(o), y=oy(o); std::string e=get(o,"ext","coords"), in=get(o,"int","none"), fx=get(o,"fix","none"), sz=get(o,"size","const");
  UserSizeFunction f; if (sz=="const") f=[](const CppUtils::Vec2d&){ return 1.0; }; else if (sz=="lin") f=[](const CppUtils::Vec2d& p){ return 0.5+0.1*p.x; };
  else if (sz=="pow") f=[](const CppUtils::Vec2d& p){ return 0.4+0.1*(std::pow(p.x-1.5,2)+std::pow(p.y-1,2)); }; else f=[](const CppUtils::Vec2d&){ return 0.7; };
  auto D = std::make_unique<Domain>(f);
  typedef std::vector<std::array<double,5>> Rows;   // x y marker size range
  auto shape = [&](Boundary& b, const Rows& r){ std::vector<CppUtils::Vec2d> c, p; std::vector<int> m; for (auto& q : r) { c.push_back({q[0]+x,q[1]+y}); m.push_back((int)q[2]); p.push_back({q[3],q[4]}); } b.set_shape_from_coordinates(c, m, p); };
  std::vector<Vertex*> v;
  bool verts = e=="edges" || in=="edges" || fx=="edges" || fx=="vedges";
  if (verts) for (auto& p : Rows{{0,0,0,-1,-1},{3,0,0,.4,.5},{3,2,0,-1,-1},{0,2.5,0,-1,-1},{1,1,0,-1,-1},{1,1.5,0,-1,-1},{1.5,1.5,0,.3,-1},{1.5,1,0,-1,-1}}) v.push_back(&D->add_vertex(p[0]+x,p[1]+y,p[3],p[4]));
  if (fx=="verts" || fx=="two" || fx=="vedges") { v.push_back(&D->add_fixed_vertex(2.2+x,1.1+y,.2,.3)); if (fx!="verts") v.push_back(&D->add_fixed_vertex(2.1+x,.6+y,-1,-1)); }
  Boundary& b = D->add_exterior_boundary(); CppUtils::Vec2d O{x,y};
  auto at=[&](double a, double c){ return CppUtils::Vec2d{a+x,c+y}; };
  if (e=="edges") for (int i=0;i<4;++i) b.add_edge(*v[i], *v[(i+1)%4], i+1);
  if (e=="coords") shape(b, {{0,0,1,-1,-1},{3,0,2,-1,-1},{3,2,3,-1,-1},{0,2,4,-1,-1}});
  if (e=="sized") shape(b, {{0,0,1,.3,.5},{3,0,2,-1,-1},{3,2,3,.2,-1},{0,2,4,-1,-1}});
  if (e=="cw") shape(b, {{0,0,1,-1,-1},{0,2,2,-1,-1},{3,2,3,-1,-1},{3,0,4,-1,-1}});
  if (e=="rect") b.set_shape_rectangle(3, at(1.5,1), 3, 2, -1, -1);
  if (e=="rects") b.set_shape_rectangle(3, at(1.5,1), 3, 2, .4, .3);
  if (e=="circ") b.set_shape_circle(4, at(1.2,1.2), 1.7, 12, -1, -1);
  if (e=="circs") b.set_shape_circle(4, at(1.2,1.2), 1.7, 9, .6, .4);
  if (e=="square") b.set_shape_square(5, at(1.3,1.3), 2.8, -1, -1);
  if (e=="squares") b.set_shape_square(5, at(1.3,1.3), 2.8, .5, .2);
  if (e=="tri") b.set_shape_triangle(6, at(1.2,1.2), 5, -1, -1);
  if (e=="csv") shape(b, {{0,0,1,-1,-1},{3,0,2,-1,-1},{3,2,3,.3,.4},{0,2.5,4,-1,-1}});
  auto hole = [&]() -> Boundary& { return D->add_interior_boundary(); };
  if (in=="edges") { auto& h=hole(); int q[5]={4,5,6,7,4}; for (int i=0;i<4;++i) h.add_edge(*v[q[i]], *v[q[i+1]], 7+i); }
  if (in=="coords") shape(hole(), {{1,1,7,-1,-1},{1,1.5,8,-1,-1},{1.5,1.2,9,.2,.3}});
  if (in=="ccw" || in=="csv") shape(hole(), {{1,1,7,-1,-1},{1.5,1,8,-1,-1},{1.2,1.5,9,-1,-1}});
  if (in=="rect" || in=="mixed") hole().set_shape_rectangle(11, at(1,1), .5, .4, -1, -1);
  if (in=="rects") hole().set_shape_rectangle(11, at(1,1), .5, .4, .15, .2);
  if (in=="tworect") { hole().set_shape_rectangle(11, at(.8,1), .5, .4, -1, -1); hole().set_shape_rectangle(21, at(1.7,1), .4, .5, -1, -1); }
  if (in=="circ") hole().set_shape_circle(12, at(1.2,1), .4, 7, -1, -1);
  if (in=="circs") hole().set_shape_circle(12, at(1.2,1), .4, 5, .2, .1);
  if (in=="mixed") hole().set_shape_circle(12, at(1.8,1), .3, 6, -1, -1);
  if (in=="square") hole().set_shape_square(13, at(1.2,1), .5, -1, -1);
  if (in=="tri") hole().set_shape_triangle(14, at(1.2,1), .7, -1, -1);
  if (fx=="edges") D->add_fixed_edge(*v[4], *v[7]);
  if (fx=="vedges") D->add_fixed_edge(*v[8], *v[9]);
  return D;
}
static bool invalid(const Opt& o)
{
  auto is=[&](const char* k, std::initializer_list<const char*> l){ auto i=o.find(k); if (i==o.end()) return false; for (auto* s : l) if (i->second==s) return true; return false; };
  return is("ext",{"badedge","openedge","bow","neg","nocsv","none"}) || is("int",{"badedge","neg","nocsv","cross"}) || is("fix",{"badedge"}) || is("pre",{"-"}) || is("fmt",{"-"}) || is("size",{"-","bad1","bad2","bad3","bad4"}) || is("alg",{"Paving"});
}
static Expect expect(const Conf& c, const std::string& dir)
{
  Expect E; MeshGenerator gen; std::vector<std::unique_ptr<Domain>> D; Mesh* prev = nullptr;
  for (size_t i=0;i<c.size();++i) {
    auto& o=c[i];
    if (invalid(o)) { E.ok=false; E.why="block " + std::to_string(i) + " is invalid"; std::string pre=get(o,"pre","mesh"); if (pre.rfind("./",0)==0) pre=pre.substr(2); E.files.erase(pre+".txt"); E.files.erase(pre+".vtu"); return E; }
    D.push_back(lib_domain(o)); Domain& d=*D.back();
    Mesh& m = gen.new_mesh(d, (int)i, atoi(get(o,"color","0").c_str()));
    double x=ox(o), y=oy(o); std::string la=get(o,"lay","none");
    auto layer=[&](double a,double b,double p,double q,int n,double h,double g){ gen.quad_layer_generation(m).n_layers(n).first_height(h).growth_rate(g).starting_position({a+x,b+y}).ending_position({p+x,q+y}).generate_elements(); };
    if (la=="one" || la=="two") layer(0,0,3,0,2,.1,1.5);
    if (la=="alt") layer(3,2,0,2,3,.06,1.2);
    if (la=="two") layer(3,2,0,2,1,.15,1.0);
    bool t = gen.triangulation(m).generate_elements(); if (!t) { E.ok=false; E.why="triangulation"; }
    if (get(o,"alg","")=="Tri-to-Quad") gen.tri2quad_modification(m).modify();
    if (prev) gen.merge_meshes(m, *prev);
    for (int k=atoi(get(o,"ref","0").c_str()); k>0; --k) gen.quad_refinement(m).refine();
    gen.mixed_smoothing(m).quad_layer_smoothing(get(o,"sql","0")=="1").smooth(atoi(get(o,"smo","2").c_str()));
    std::string fm=get(o,"fmt","TXT"), pre=get(o,"pre","mesh");
    if (pre.rfind("none/",0)==0 && fm!="COUT") { E.ok=false; E.why="no directory"; prev=&m; continue; }
    if (fm=="TXT" || fm=="txt" || fm=="VTU" || fm=="vtu") {
      bool txt = fm[0]=='T'||fm[0]=='t'; std::string suf = txt?".txt":".vtu", tmp = dir+"/lib"+std::to_string(getpid())+suf;
      gen.write_mesh(m, tmp, txt?MeshExportType::TXT:MeshExportType::VTU); E.files[(pre.rfind("./",0)==0?pre.substr(2):pre)+suf]=slurp(tmp); unlink(tmp.c_str());
    } else { std::ostringstream s; auto* old=std::cout.rdbuf(s.rdbuf()); gen.write_mesh(m, "", MeshExportType::COUT); std::cout.rdbuf(old); E.out += s.str(); }
    if (m.get_front_edges().size()) { E.ok=false; E.why="incomplete"; }
    prev=&m;
  }
  return E;
}

// ------------------------------------------------------------------ running the application
static std::string g_app;
static std::string check_files(const std::string& dir, std::map<std::string,std::string>& got)
{
  std::function<void(const std::string&)> rec=[&](const std::string& sub){ DIR* d=opendir((dir+"/"+sub).c_str()); if (!d) return; while (auto* e=readdir(d)) { std::string n=e->d_name; if (n=="."||n=="..") continue; std::string p=sub.empty()?n:sub+"/"+n; struct stat st; if (stat((dir+"/"+p).c_str(),&st)==0 && S_ISDIR(st.st_mode)) rec(p); else got[p]=slurp(dir+"/"+p); } closedir(d); };
  rec(""); return "";
}
static void wipe(const std::string& dir, const std::map<std::string,std::string>& f) { for (auto& x : f) unlink((dir+"/"+x.first).c_str()); rmdir((dir+"/out").c_str()); rmdir(dir.c_str()); }

static Err diff(const std::string& a, const std::string& b)
{ if (a==b) return ""; size_t i=0; while (i<a.size()&&i<b.size()&&a[i]==b[i]) ++i; auto cut=[&](const std::string& s){ size_t p=s.rfind('\n', i?i-1:0); p=p==std::string::npos?0:p+1; return s.substr(p, s.find('\n',p)-p); }; return "'" + cut(a) + "' instead of '" + cut(b) + "'"; }

static Err run_conf(const Conf& c, const std::string& argmode = "")
{
  std::string dir = cfg().out + "/w" + std::to_string(getpid()); mkdir(dir.c_str(),0755); mkdir((dir+"/out").c_str(),0755);
  Text t=file_text(c); std::string body; for (auto& l : t.l) body += l + "\n";
  std::map<std::string,std::string> in=t.files; in["in.para"]=body;
  for (auto& f : in) { std::ofstream o(dir+"/"+f.first, std::ios::binary); o << f.second; }
  std::string so=dir+".stdout";
  fflush(nullptr); pid_t p=fork();
  if (p==0) { if (chdir(dir.c_str())!=0) _exit(77); int fd=open(so.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(fd,1); int nu=open("/dev/null",O_WRONLY); dup2(nu,2); alarm(cfg().op_timeout);
    if (argmode=="missing") execl(g_app.c_str(), g_app.c_str(), "nofile.para", (char*)0); else if (argmode=="usage") execl(g_app.c_str(), g_app.c_str(), (char*)0); else execl(g_app.c_str(), g_app.c_str(), "in.para", (char*)0); _exit(78); }
  int st=0; while (waitpid(p,&st,0)<0) {}
  std::string out=slurp(so); unlink(so.c_str());
  std::map<std::string,std::string> got; check_files(dir, got); auto all=got;
  Expect E; if (argmode=="missing") { E.ok=false; E.why="missing file"; } else if (argmode=="usage") E.ok=true; else E=expect(c, cfg().out);
  Err e;
  if (!WIFEXITED(st)) e = "the application dies: " + sig_text(st);
  else if (WEXITSTATUS(st)>=77) e = "abnormal exit status " + std::to_string(WEXITSTATUS(st));
  else if ((WEXITSTATUS(st)==0) != E.ok) e = std::string("the application reports ") + (WEXITSTATUS(st)==0 ? "success" : "failure") + " although " + (E.ok ? "the described mesh can be created" : "the input can not be meshed (" + E.why + ")");
  if (e.empty()) for (auto& f : in) { if (!got.count(f.first) || got[f.first]!=f.second) { e="input file " + f.first + " was changed"; break; } got.erase(f.first); }
  if (e.empty()) for (auto& f : E.files) { if (!got.count(f.first)) { e = "output file " + f.first + " is missing"; break; } Err d=diff(got[f.first], f.second); if (!d.empty()) { e = f.first + " differs from the described mesh: " + d; break; } got.erase(f.first); }
  if (e.empty() && E.ok && !got.empty()) e = "unexpected file " + got.begin()->first;
  if (e.empty() && E.ok) { size_t at=0; (void)at; // everything that the library prints appears in the output of the application
    if (!E.out.empty()) { std::string need=E.out; size_t p=out.find("MESH "); std::string have; size_t q=0;
      for (size_t s=0; (s=need.find("MESH ",q))!=std::string::npos; ) { size_t n=need.find("MESH ",s+5); std::string part=need.substr(s, n==std::string::npos?n:n-s); size_t w=out.find(part, p==std::string::npos?0:p); if (w==std::string::npos) { e="the mesh is not printed on the standard output"; break; } p=w+part.size(); q=s+5; } } }
  wipe(dir, all);
  ++sh()->transitions; ++sh()->evals; ++sh()->stat[8]; if (E.ok) ++sh()->nontrivial; else ++sh()->refused;
  uint64_t h=std::hash<std::string>{}(E.out); for (auto& f : E.files) h = h*1099511628211ull ^ std::hash<std::string>{}(f.second); seen_state(h);
  return e;
}

// ------------------------------------------------------------------ enumeration
typedef std::vector<std::pair<std::string,std::vector<std::string>>> Dims;
static Dims dims()
{
  return {
    {"ext",{"edges","sized","cw","rect","rects","circ","circs","square","squares","tri","csv","badedge","openedge","bow","neg","nocsv","none"}},
    {"int",{"edges","coords","ccw","rect","rects","tworect","circ","circs","mixed","square","tri","csv","badedge","neg","nocsv","cross"}},
    {"fix",{"verts","two","edges","vedges","badedge"}},
    {"size",{"lin","pow","note","-","bad1","bad2","bad3","bad4"}}, {"color",{"0","5","77"}}, {"alg",{"Triangulation","Tri-to-Quad","Paving"}}, {"ref",{"0","1","2"}}, {"smo",{"0","1","3"}}, {"sql",{"0","1"}},
    {"lay",{"one","two","alt"}}, {"fmt",{"txt","VTU","vtu","COUT","-"}}, {"pre",{"./out/m.1","none/m","-"}}, {"form",{"rev","comment","crlf"}} };
}
// combinations the described library calls do not define
static bool sensible(const Opt& o)
{
  std::string e=get(o,"ext","coords"), la=get(o,"lay","none"), f=get(o,"form","plain");
  if (la!="none" && (e!="coords" && e!="sized" && e!="cw" && e!="rect" && e!="rects" && e!="none")) return false;   // layer end points are the corners of the rectangle
  if (la!="none" && get(o,"int","none")!="none") return false;
  return true;
}
static void deviations(size_t n, std::vector<Opt>& out)
{
  Dims d=dims();
  std::function<void(size_t,Opt&,size_t)> rec=[&](size_t i, Opt& o, size_t left){ if (sensible(o)) out.push_back(o); if (!left) return; for (size_t k=i;k<d.size();++k) for (auto& a : d[k].second) { o[d[k].first]=a; rec(k+1,o,left-1); o.erase(d[k].first); } };
  Opt o; rec(0,o,n);
}
int main(int argc, char** argv)
{
  std::vector<char*> av; for (int i=0;i<argc;++i) { if (i+1<argc && std::string(argv[i])=="--app") { g_app=argv[++i]; continue; } av.push_back(argv[i]); }
  parse_args((int)av.size(), av.data());
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  auto one=[&](const Conf& c, const std::string& mode){
    auto r=in_child([&]{ Err e; try { e=run_conf(c, mode); } catch (std::exception& x) { e=std::string("library: ")+x.what(); } if (!e.empty()) report(enc(c), mode.empty()?"run":mode, e); });
    if (!r.empty()) report(enc(c), mode.empty()?"run":mode, r); };
  if (!cfg().replay.empty()) { std::ifstream i(cfg().replay); std::string l; std::getline(i,l); size_t a=l.find(" ||| "), b=l.find(" ||| ",a+5); std::string m=l.substr(a+5,b-a-5); one(dec(l.substr(0,a)), m=="run"?"":m); write_summary(); return 0; }
  bool th=cfg().tier=="thorough";
  std::vector<Conf> cs;
  bool small = cfg().family == "small";     // sanitizer build of the application
  { std::vector<Opt> v; deviations(small ? (th?2:1) : th?4:3, v); for (auto& o : v) cs.push_back({o}); }
  // several meshes: a row of rectangles with common sides, in every order
  { std::vector<Opt> var = { {}, {{"alg","Tri-to-Quad"}}, {{"ref","1"}}, {{"smo","0"}}, {{"fmt","VTU"}}, {{"fmt","COUT"}}, {{"pre","out/b"}}, {{"size","lin"}}, {{"size","pow"}}, {{"lay","one"}}, {{"lay","two"}}, {{"lay","alt"}}, {{"ext","sized"}}, {{"ext","cw"}}, {{"int","coords"}}, {{"int","circ"}}, {{"fix","verts"}}, {{"ext","bow"}}, {{"pre","none/m"}}, {{"int","edges"}}, {{"size","bad1"}} };
    const char* pos[4][2]={{"0","0"},{"3","0"},{"0","2"},{"-3","0"}};
    auto put=[&](Opt o, int p, int k){ o["ox"]=pos[p][0]; o["oy"]=pos[p][1]; o["color"]=std::to_string(k+1); return o; };
    for (auto& a : var) for (auto& b : var) for (int p=1;p<4;++p) if (small ? (p==1 && (a.empty() || b.empty())) : (th || p==1 || a.empty() || b.empty())) cs.push_back({put(a,0,0), put(b,p,1)});
    for (auto& a : var) for (auto& b : var) for (int k=0;k<3;++k) for (int p=0;p<6;++p) { if ((!th || small) && (p>1 || (small && k) || (!a.empty() && !b.empty()))) continue; const int perm[6][3]={{0,1,2},{1,0,3},{2,0,1},{3,0,1},{1,0,2},{0,3,1}}; Opt z; Opt q[3]; q[k]=a; q[(k+1)%3]=b; cs.push_back({put(q[0],perm[p][0],0), put(q[1],perm[p][1],1), put(q[2],perm[p][2],2)}); } }
  parallel_cases(cs.size()+2, [&](size_t i){ if (i<2) one({{}}, i?"usage":"missing"); else one(cs[i-2], ""); }, nullptr);
  { std::ofstream o(cfg().out + "/samples.txt"); for (size_t i=1;i<cs.size();i+=cs.size()/6) o << enc(cs[i]) << "\n"; }
  write_summary({{"histories", std::to_string(sh()->stat[8].load())}});
}
