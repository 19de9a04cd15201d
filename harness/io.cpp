// C14: every fault position of an export, on the real writers.
//   lim:L      the file system accepts L bytes only (RLIMIT_FSIZE)
//   err:k:E    the k-th write system call fails with errno E, later ones work
//   stuck:k:E  all write calls from the k-th on fail
//   part:k:n   the k-th write call accepts only n bytes (must not matter)
//   nodir / isdir / full / old   target directory missing, target is a directory,
//              full device, an older longer file exists
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <errno.h>
#include "session.h"
#include "export.h"
#include "explore.h"
#include "families.h"
#include <iostream>
using namespace vf;

// ---- interposed write calls (only active while an export is running)
static bool g_on = false; static long g_n = 0, g_k = -1, g_e = 0, g_part = -1; static bool g_stuck = false;
static bool fault(ssize_t& r, size_t len)
{
  long i = g_n++;
  if (g_e && (i == g_k || (g_stuck && i >= g_k && g_k >= 0))) { errno = (int)g_e; r = -1; return true; }
  (void)len; return false;
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
  if (g_on) { ssize_t r; if (fault(r, n)) return r; if (g_part >= 0 && g_n-1 == g_k && (size_t)g_part < n) n = (size_t)g_part; }
  return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
  if (g_on) { size_t n = 0; for (int i=0;i<c;++i) n += v[i].iov_len; ssize_t r; if (fault(r, n)) return r;
    if (g_part >= 0 && g_n-1 == g_k && (size_t)g_part < n) return syscall(SYS_write, fd, v[0].iov_base, std::min((size_t)g_part, v[0].iov_len)); }
  return syscall(SYS_writev, fd, v, c);
}

struct MeshCase { DomSpec d; std::vector<std::string> ops; };
static std::vector<MeshCase> meshes()
{
  std::vector<MeshCase> m; auto P = lattice_polygons(2,2,3,5);
  m.push_back({dom1(poly_loop(P[0],'E','e'),"c:3"), {"N","T"}});
  m.push_back({dom1(rect_loop(0,0,1,1,'E','e'),"c:1"), {"N","T","R"}});
  m.push_back({dom1(rect_loop(0,0,2,2,'E','e'),"c:0.8"), {"N","T","M"}});
  m.push_back({dom1(rect_loop(0,0,3,3,'E','e'),"c:0.5"), {"N","T:9"}});
  { DomSpec d=dom1(rect_loop(0,0,3,3,'E','e'),"c:0.9"); d.fv.push_back({1.4,1.3,0,0}); m.push_back({d, {"N","T","Sl:1"}}); }
  { DomSpec d=dom1(rect_loop(-1,-1,3,3,'E','e'),"c:0.7"); d.loops.push_back(rect_loop(0,0,1,1,'I','e',9)); m.push_back({d, {"N","T"}}); }
  m.push_back({dom1(rect_loop(0,0,5,5,'E','e'),"c:0.3"), {"N","T","M"}});     // larger than one stream buffer
  m.push_back({dom1(poly_loop(P[3],'E','e'),"c:1"), {"N"}});                   // no element yet
  return m;
}

static TQMesh::MeshExportType fmt(char c) { return c=='T' ? TQMesh::MeshExportType::TXT : TQMesh::MeshExportType::VTU; }

// one export under one fault; returns an error text
static Err attempt(Session& s, char f, const std::string& dir, const std::string& fl, const std::string& good)
{
  auto a = split(fl, ':'); std::string suf = f=='T' ? ".txt" : ".vtu"; std::string base = dir + "/m"; std::string target = base + suf;
  View before = snap_pub(*s.mesh[0]);
  bool expect_any = false, expect_fail = false;
  if (a[0] == "nodir") { target = dir + "/none/m" + suf; base = dir + "/none/m"; expect_fail = true; }
  if (a[0] == "isdir") { mkdir(target.c_str(), 0755); expect_fail = true; }
  if (a[0] == "full") { if (symlink("/dev/full", target.c_str()) != 0) return ""; expect_fail = !good.empty(); }
  if (a[0] == "old") { FILE* o = fopen(target.c_str(), "w"); for (size_t i=0;i<good.size()+5000;++i) fputc('x', o); fclose(o); }
  if (a[0] == "lim") { struct rlimit r; r.rlim_cur = strtoul(a[1].c_str(),0,10); r.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &r); expect_any = true; }
  g_n = 0; g_k = -1; g_e = 0; g_part = -1; g_stuck = false;
  if (a[0] == "err" || a[0] == "stuck") { g_k = atol(a[1].c_str()); g_e = atol(a[2].c_str()); g_stuck = a[0] == "stuck"; expect_any = true; }
  if (a[0] == "part") { g_k = atol(a[1].c_str()); g_part = atol(a[2].c_str()); }
  g_on = true;
  bool ok = s.gen.write_mesh(*s.mesh[0], base, fmt(f));
  g_on = false;
  if (a[0] == "lim") { struct rlimit r; r.rlim_cur = r.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &r); }
  std::string got; struct stat st; bool reg = stat(target.c_str(), &st) == 0 && S_ISREG(st.st_mode); if (reg) got = slurp(target);
  Err e;
  if (ok && a[0] != "full" && (!reg || got != good)) e = "export reports success but the file is " + (reg ? std::string("incomplete (") + std::to_string(got.size()) + " of " + std::to_string(good.size()) + " bytes)" : std::string("missing"));
  else if (ok && expect_fail) e = "export reports success although nothing could be written";
  else if (!ok && !expect_any && !expect_fail) e = "export reports failure although nothing went wrong";
  else if (!ok && a[0] == "lim" && strtoul(a[1].c_str(),0,10) >= good.size()) e = "export reports failure although the file fits";
  if (!ok) ++sh()->refused;
  if (a[0] == "isdir") rmdir(target.c_str()); else unlink(target.c_str());
  if (!e.empty()) return e;
  View after = snap(*s.mesh[0]); if (hash_view(after) != hash_view(before) || after.v != before.v) return "failed export changed the mesh";
  // the next export works as if nothing had happened
  base = dir + "/n"; target = base + suf;
  if (!s.gen.write_mesh(*s.mesh[0], base, fmt(f))) e = "export after a failed export fails";
  else if (slurp(target) != good) e = "export after a failed export differs";
  unlink(target.c_str());
  return e;
}

static std::string fresh_dir() { std::string d = cfg().out + "/w" + std::to_string(getpid()); mkdir(d.c_str(), 0755); return d; }

static void run(size_t mi, char f, const std::vector<std::string>& faults)
{
  auto M = meshes()[mi];
  std::string cur;
  Session s({M.d}); for (auto& o : M.ops) s.apply(o);
  std::string dir = fresh_dir();
  signal(SIGXFSZ, SIG_IGN);
  g_on = true; g_n = 0; s.gen.write_mesh(*s.mesh[0], dir + "/g", fmt(f)); g_on = false; long calls = g_n;
  std::string gp = dir + "/g" + (f=='T' ? ".txt" : ".vtu"), good = slurp(gp); unlink(gp.c_str());
  std::vector<std::string> fl = faults;
  if (fl.empty()) {
    fl = {"none","nodir","isdir","full","old"};
    bool th = cfg().tier == "thorough"; size_t n = good.size(), step = th || n < 6000 ? 1 : n < 20000 ? 7 : 41;
    for (size_t L=0; L<n+3; L+=step) fl.push_back("lim:" + std::to_string(L));
    for (size_t L : {n-2,n-1,n,n+1}) fl.push_back("lim:" + std::to_string(L));
    for (long k=0;k<calls;++k) { for (int e : {ENOSPC,EIO}) { fl.push_back("err:"+std::to_string(k)+":"+std::to_string(e)); fl.push_back("stuck:"+std::to_string(k)+":"+std::to_string(e)); }
      for (int n : {1,7}) fl.push_back("part:"+std::to_string(k)+":"+std::to_string(n)); fl.push_back("err:"+std::to_string(k)+":"+std::to_string(EINTR)); }
  }
  for (auto& x : fl) {
    Err e = attempt(s, f, dir, x, good);
    ++sh()->transitions; ++sh()->evals; if (x != "none") ++sh()->nontrivial; seen_state(std::hash<std::string>{}(x) * 31 + mi*2 + f); ++sh()->stat[8];
    if (!e.empty()) { report("mesh=" + std::to_string(mi) + " format=" + f, x, e); if (sh()->stop) break; }
  }
  rmdir(dir.c_str());
}
// standard output: a stream that stops accepting characters
struct LimBuf : std::streambuf { long left; std::string got; explicit LimBuf(long n) : left(n) {}
  int overflow(int c) override { if (left-- <= 0) return EOF; got += (char)c; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { std::streamsize k = std::min<std::streamsize>(n, std::max(0L,left)); got.append(p,k); left -= k; return k; } };
static void run_cout(size_t mi, const std::vector<std::string>& faults)
{
  auto M = meshes()[mi]; Session s({M.d}); for (auto& o : M.ops) s.apply(o);
  auto go = [&](long n, std::string& out) { LimBuf b(n); auto* old = std::cout.rdbuf(&b); std::cout.clear(); bool r = s.gen.write_mesh(*s.mesh[0], "", TQMesh::MeshExportType::COUT); std::cout.rdbuf(old); std::cout.clear(); out = b.got; return r; };
  std::string good, x; if (!go(1L<<40, good)) { report("mesh=" + std::to_string(mi) + " format=C", "none", "export to standard output fails"); return; }
  std::vector<std::string> fl = faults; size_t n = good.size(), step = n < 6000 ? 1 : n < 20000 ? 7 : 41;
  if (fl.empty()) for (size_t L=0; L<n+3; L+=step) fl.push_back("lim:" + std::to_string(L));
  for (auto& l : fl) { long L = l == "none" ? 1L<<40 : atol(l.c_str()+4); bool r = go(L, x); ++sh()->transitions; ++sh()->evals; ++sh()->nontrivial; ++sh()->stat[8]; seen_state(std::hash<std::string>{}("c"+l)*31+mi);
    if (r && x != good) report("mesh=" + std::to_string(mi) + " format=C", l, "export to standard output reports success but only " + std::to_string(x.size()) + " of " + std::to_string(n) + " characters were accepted");
    if (!r && L >= (long)n) report("mesh=" + std::to_string(mi) + " format=C", l, "export to standard output reports failure although everything was accepted"); }
}

int main(int argc, char** argv)
{
  parse_args(argc, argv);
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  auto one = [&](size_t mi, char f, const std::vector<std::string>& fl){
    auto r = in_child([&]{ alarm(600); if (f=='C') run_cout(mi, fl); else run(mi, f, fl); });
    if (!r.empty()) report("mesh=" + std::to_string(mi) + " format=" + f, fl.empty() ? "none" : fl[0], r); };
  if (!cfg().replay.empty()) {
    std::ifstream i(cfg().replay); std::string l; std::getline(i, l); size_t a=l.find(" ||| "), b=l.find(" ||| ",a+5);
    auto w = words(l.substr(0,a)); one(atoi(w[0].c_str()+5), w[1][7], {l.substr(a+5,b-a-5)}); write_summary(); return 0;
  }
  size_t n = meshes().size(); const char* F = "TVC";
  parallel_cases(3*n, [&](size_t i){ one(n-1-i/3, F[i%3], {}); }, nullptr);
  { std::ofstream o(cfg().out + "/samples.txt"); o << "mesh=1 format=V ||| lim:0 .. lim:size+2, err:k:28, err:k:5, stuck:k:28, part:k:1 for every write call k\nmesh=6 format=T ||| nodir, isdir, full, old, lim:*\n"; }
  write_summary({{"histories", std::to_string(sh()->stat[8].load())}});
}
