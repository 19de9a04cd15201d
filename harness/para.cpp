// C15: the parameter file reader against a reference reader, over all files of
// a bounded number of lines from an alphabet of line kinds.
#include <sys/stat.h>
#include <fstream>
#include <sstream>
#include <map>
#include <memory>
#include <algorithm>
#include "STLHeaders.h"
#include "CppUtils.h"
#include "ParaReader.h"
#include "spec.h"
#include "explore.h"
using namespace vf;
using CppUtils::ParaReader;

static const std::vector<std::string> A = {
  "Size: 2.5", "  # Size: 7", "Size: abc", "Pos: 1.5, (2.5)", "Pos: 3", "Pos:-1,2e1,9 # c, 4",
  "Start points", "End points", "1.0, 2.0, 3.0", "4,5", "   ", "6,7,8,9 # note", "Begin block", "End block",
  "Name: ab/c.d # Size: 9", "\tSize:\t-4 # Pos: 1, 2", "x Size: 1 Size: 8", "([1],(2),3)", "Count: 12", "Start points # End points", "6, , 8", "Begin block Size: 3" };

// ---------------------------------------------------------------- reference
struct Ref {
  std::vector<std::string> l;
  explicit Ref(const std::vector<std::string>& raw) { for (auto& x : raw) { size_t f = x.find_first_not_of(" \t"); if (f != std::string::npos && x[f]=='#') continue; l.push_back(x.substr(0, x.find('#'))); } }
};
static bool to_num(std::string s, double& v)
{ std::string t; for (char c : s) if (!strchr("()[] \t\r", c)) t += c; if (t.empty()) return false; char* e; v = strtod(t.c_str(), &e); return *e == 0; }
struct Cursor { size_t lo = 0, hi = 0, at = 0; };        // range of lines, next line to look at
static long find_key(const Ref& r, Cursor& c, const std::string& k, std::string* rest = nullptr)
{
  for (size_t i=c.at; i<c.hi; ++i) { size_t p = r.l[i].rfind(k); if (p == std::string::npos) continue; c.at = i+1; if (rest) *rest = r.l[i].substr(p+k.size()); return (long)i; }
  return -1;
}
static std::vector<std::string> cells(const std::string& s)
{ std::vector<std::string> o; if (s.empty()) return o; for (auto& x : split(s, ',')) o.push_back(x); if (s.back()==',') o.pop_back(); return o; }
// values of one row: false when there are too few
static bool row(const std::string& s, size_t n, bool def, double dv, std::vector<double>& out)
{
  std::vector<double> v; for (auto& c : cells(s)) { double x; if (to_num(c, x)) v.push_back(x); else if (def) v.push_back(dv); }
  while (def && v.size() < n) v.push_back(dv);
  if (v.size() < n) return false;
  v.resize(n); out.insert(out.end(), v.begin(), v.end()); return true;
}
struct RefP { Cursor c; std::vector<double> v; std::string s; bool found = false; };
static bool q_scalar(const Ref& r, RefP& p, const std::string& k) { std::string t; if (find_key(r,p.c,k,&t)<0) return false; double x; if (!to_num(t,x)) return false; p.v={x}; p.found=true; return true; }
static bool q_string(const Ref& r, RefP& p, const std::string& k) { std::string t; if (find_key(r,p.c,k,&t)<0) return false; auto w=words(t); if (w.empty()) return false; p.s=w[0]; p.found=true; return true; }
static bool q_vector(const Ref& r, RefP& p, const std::string& k, size_t n, bool def, double dv) { std::string t; if (find_key(r,p.c,k,&t)<0) return false; std::vector<double> o; if (!row(t,n,def,dv,o)) return false; p.v=o; p.found=true; return true; }
static bool q_matrix(const Ref& r, RefP& p, const std::string& a, const std::string& b, size_t n, bool def, double dv)
{
  long i = find_key(r,p.c,a); if (i<0) return false; long j = find_key(r,p.c,b); if (j<0) return false;
  std::vector<double> o; for (long k=i+1;k<j;++k) { if (r.l[k].find_first_not_of(" \t\r")==std::string::npos) continue; if (!row(r.l[k],n,def,dv,o)) return false; }
  if (o.empty()) return false; p.v=o; p.found=true; return true;
}

// ---------------------------------------------------------------- comparison
static std::string where;
static std::string cmp_found(ParaReader& r, const char* n, const RefP& p)
{ if (r.found(n) != p.found) return where + n + (p.found ? " is not reported as found" : " is reported as found"); return ""; }
template <class T> static std::string cmp_vals(ParaReader& r, const char* n, const RefP& p, size_t cols)
{
  std::string e = cmp_found(r,n,p); if (!e.empty() || !p.found) return e;
  auto& q = r.get_parameter<T>(n);
  if (q.columns() != cols || q.rows() != p.v.size()/cols) return where + n + " has " + std::to_string(q.rows()) + " rows instead of " + std::to_string(p.v.size()/cols);
  for (size_t i=0;i<p.v.size();++i) { double a = (double)r.get_value<T>(i, n), b = (double)r.get_value<T>(i%cols, i/cols, n); if (a != p.v[i] || b != p.v[i]) return where + n + " value " + std::to_string(i) + " is " + num(a) + " instead of " + num(p.v[i]); }
  if ((double)r.get_value<T>(n) != p.v[0]) return where + n + " first value differs";
  return "";
}
static std::string R(bool a, bool b, const char* n, int k) { return a == b ? "" : where + n + " query " + std::to_string(k) + " returns " + (a?"true":"false") + " instead of " + (b?"true":"false"); }

static void define(ParaReader& p)
{
  p.new_scalar_parameter<double>("size","Size:"); p.new_scalar_parameter<int>("count","Count:"); p.new_scalar_parameter<std::string>("name","Name:");
  p.new_vector_parameter<double>("pos","Pos:",2); p.new_vector_parameter<double>("posd","Pos:",3);
  p.new_matrix_parameter<double>("pts","Start points","End points",3); p.new_matrix_parameter<double>("ptsd","Start points","End points",5);
}
struct RefBlock { RefP size, count, name, pos, posd, pts, ptsd; void range(size_t a, size_t b) { for (auto* p : {&size,&count,&name,&pos,&posd,&pts,&ptsd}) { p->c.lo=a; p->c.hi=b; p->c.at=a; } } };
static std::string script(ParaReader& p, const Ref& r, RefBlock& b, int rounds)
{
  std::string e;
  for (int k=0;k<rounds;++k) {
    // two parameters are queried alternately, the others one after the other
    #define DO(x,y,n) { bool aa = x, bb = y; if (!(e = R(aa,bb,n,k)).empty()) return e; }
    DO(p.query<double>("size"), q_scalar(r,b.size,"Size:"), "size") if (!(e = cmp_vals<double>(p,"size",b.size,1)).empty()) return e;
    DO(p.query<double>("pos"), q_vector(r,b.pos,"Pos:",2,false,0), "pos") if (!(e = cmp_vals<double>(p,"pos",b.pos,2)).empty()) return e;
    DO(p.query<double>("pts"), q_matrix(r,b.pts,"Start points","End points",3,false,0), "pts") if (!(e = cmp_vals<double>(p,"pts",b.pts,3)).empty()) return e;
    DO(p.query<int>("count"), q_scalar(r,b.count,"Count:"), "count") if (!(e = cmp_vals<int>(p,"count",b.count,1)).empty()) return e;
    DO(p.query<std::string>("name"), q_string(r,b.name,"Name:"), "name") if (!(e = cmp_found(p,"name",b.name)).empty()) return e; if (b.name.found && p.get_value<std::string>("name") != b.name.s) return where + "name is " + p.get_value<std::string>("name");
    DO(p.query<double>("posd",true,-9.5), q_vector(r,b.posd,"Pos:",3,true,-9.5), "posd") if (!(e = cmp_vals<double>(p,"posd",b.posd,3)).empty()) return e;
    DO(p.query<double>("ptsd",true,0.5), q_matrix(r,b.ptsd,"Start points","End points",5,true,0.5), "ptsd") if (!(e = cmp_vals<double>(p,"ptsd",b.ptsd,5)).empty()) return e;
  }
  return "";
}
static std::string check_file(const std::vector<std::string>& lines, int eol, const std::string& path)
{
  { std::ofstream o(path, std::ios::binary); for (size_t i=0;i<lines.size();++i) { o << lines[i]; if (eol==1) o << "\r\n"; else if (eol==0 || i+1<lines.size()) o << "\n"; } }
  Ref r(lines);
  try {
    ParaReader top(path); define(top); top.new_block_parameter("blk","Begin block","End block"); define(top.get_block("blk"));
    RefBlock t; t.range(0, r.l.size()); where = "";
    std::string e = script(top, r, t, 3); if (!e.empty()) return e;
    Cursor bc; bc.hi = r.l.size(); RefBlock b;
    for (int k=0;k<3;++k) {
      Cursor c = bc; long i = find_key(r,c,"Begin block"), j = i<0 ? -1 : find_key(r,c,"End block");
      bool want = j >= 0, got = top.query("blk"); where = ""; if (!(e = R(got,want,"block",k)).empty()) return e;
      if (!want) break;
      bc.at = j; b.range(i, j); where = "in block " + std::to_string(k) + ": ";
      if (!(e = script(top.get_block("blk"), r, b, 2)).empty()) return e;
    }
    seen_state(std::hash<std::string>{}([&]{ std::string s; for (auto* p : {&t.size,&t.pos,&t.pts,&t.ptsd,&b.size,&b.pos,&b.pts}) for (double v : p->v) s += num(v)+";"; return s; }()));
    if (t.size.found || t.pos.found || t.pts.found || t.name.found) ++sh()->nontrivial;
  } catch (std::exception& x) { return std::string("exception: ") + x.what(); }
  return "";
}
static std::string enc(const std::vector<int>& v) { std::string s; for (int i : v) s += (s.empty()?"":",") + std::to_string(i); return s.empty() ? "-" : s; }
static void one(const std::vector<int>& v, int eol, const std::string& path)
{
  std::vector<std::string> l; for (int i : v) l.push_back(A[i]);
  std::string e = check_file(l, eol, path); ++sh()->transitions; ++sh()->evals; ++sh()->stat[8];
  if (!e.empty()) { std::string t; for (auto& x : l) t += "|" + x; report("lines=" + enc(v), "eol=" + std::to_string(eol), e + " for the file " + t); }
}
static void enumerate(std::vector<int>& v, int n, int alpha, const std::vector<int>& pre, const std::vector<int>& post, const std::string& path)
{
  if (sh()->stop) return;
  std::vector<int> f = pre; f.insert(f.end(), v.begin(), v.end()); f.insert(f.end(), post.begin(), post.end());
  if ((int)v.size() == n) { size_t h = 0; for (int i : v) h = h*31+i; one(f, (int)(h%5==0 ? 1 : h%5==1 ? 2 : 0), path); return; }
  for (int a=0;a<alpha;++a) { v.push_back(a); enumerate(v,n,alpha,pre,post,path); v.pop_back(); }
}
int main(int argc, char** argv)
{
  parse_args(argc, argv);
  auto path = [&]{ return cfg().out + "/p" + std::to_string(getpid()); };
  if (!cfg().replay.empty()) {
    std::ifstream i(cfg().replay); std::string l; std::getline(i, l); size_t a=l.find(" ||| "); std::vector<int> v; std::string c=l.substr(6,a-6); if (c!="-") for (auto& x : split(c,',')) v.push_back(atoi(x.c_str()));
    auto r=in_child([&]{ one(v, atoi(l.c_str()+a+9), path()); }); if (!r.empty()) report(l.substr(0,a),"eol=0",r); write_summary(); return 0;
  }
  bool th = cfg().tier == "thorough"; int N=(int)A.size();
  struct Case { std::vector<int> pre, post; int n, alpha; };
  std::vector<Case> cs;
  for (int n=0;n<=1;++n) cs.push_back({{},{},n,N});
  for (int a=0;a<N;++a) { cs.push_back({{a},{},1,N}); cs.push_back({{a},{},2,N}); }
  for (int a=0;a<N;++a) for (int b=0;b<N;++b) { cs.push_back({{a,b},{},2,N}); if (th) cs.push_back({{a,b},{},3,N}); }
  // longer files: everything inside a matrix, inside a block, between two blocks
  for (int a=0;a<N;++a) { int n = th?3:2;
    cs.push_back({{6,a},{7},n,N}); cs.push_back({{8,6,a},{7,0},n,N}); cs.push_back({{12,a},{13},n,N}); cs.push_back({{12,0,13,12,a},{3,13},n,N}); cs.push_back({{0,12,6,8,a},{7,13,3},n,N});
    cs.push_back({{21,a},{13,12},n,N}); cs.push_back({{12,13,a},{12,6,8,7,13},n,N}); cs.push_back({{6,8,8,7,a},{6,11,7},n,N}); }
  parallel_cases(cs.size(), [&](size_t i){
    auto r = in_child([&]{ alarm(600); std::vector<int> v; std::string p=path(); enumerate(v, cs[i].n, cs[i].alpha, cs[i].pre, cs[i].post, p); unlink(p.c_str()); });
    if (!r.empty()) report("lines=" + enc(cs[i].pre), "eol=0", r); }, nullptr);
  // files that can not be read
  for (auto* f : {"/none", "/none/x.para"}) { bool thrown=false; try { ParaReader p(cfg().out + f); } catch (std::exception&) { thrown=true; } ++sh()->transitions; ++sh()->evals; if (!thrown) report("lines=-","eol=0","reading a missing file raises no error"); }
  { ParaReader* p=nullptr; std::string f=path(); { std::ofstream o(f); o << "Size: 1\n"; } p=new ParaReader(f); p->new_scalar_parameter<double>("a","Size:"); int t=0;
    try { p->get_value<double>("a"); } catch (std::exception&) { ++t; } try { p->query<double>("b"); } catch (std::exception&) { ++t; } try { p->new_scalar_parameter<double>("a","X"); } catch (std::exception&) { ++t; } try { p->new_scalar_parameter<double>("c",""); } catch (std::exception&) { ++t; }
    if (t != 4) report("lines=0","eol=0","wrong use of parameters raises no error"); unlink(f.c_str()); }
  { std::ofstream o(cfg().out + "/samples.txt"); for (auto& x : A) o << "line kind: " << x << "\n"; }
  write_summary({{"histories", std::to_string(sh()->stat[8].load())}});
}
