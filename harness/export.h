// Readers of the exported formats and the comparison of an export with the
// mesh it was written from (nothing in here uses the writers of the library).
#pragma once
#include "session.h"
#include <fstream>
#include <iterator>
#include <unistd.h>
#include <sys/stat.h>

namespace vf {

inline std::string slurp(const std::string& p)
{ std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
inline bool exists(const std::string& p) { return access(p.c_str(), F_OK) == 0; }

struct TxtFile { long id = 0; std::map<std::string, std::vector<std::vector<double>>> sec; std::vector<std::string> order; };

// "NAME count" followed by exactly count comma separated rows
inline Err parse_txt(const std::string& t, TxtFile& f)
{
  std::istringstream in(t); std::string l; bool first = true;
  while (std::getline(in, l)) {
    auto w = words(l); if (w.size() != 2 || !isalpha((unsigned char)w[0][0])) return "unexpected line '" + l.substr(0,60) + "'";
    char* e; long n = strtol(w[1].c_str(), &e, 10); if (*e) return "bad count in '" + l + "'";
    if (first) { if (w[0] != "MESH") return "file does not start with MESH"; f.id = n; first = false; continue; }
    if (n < 0) return "negative count in '" + l + "'";
    if (f.sec.count(w[0])) return "section " + w[0] + " occurs twice";
    auto& s = f.sec[w[0]]; f.order.push_back(w[0]);
    for (long i = 0; i < n; ++i) {
      if (!std::getline(in, l)) return "section " + w[0] + " is truncated";
      std::vector<double> r;
      for (auto& c : split(l, ',')) { double v = strtod(c.c_str(), &e); while (*e==' ') ++e; if (c.empty() || e == c.c_str() || *e) return "bad number '" + c + "' in section " + w[0]; r.push_back(v); }
      s.push_back(r);
    }
  }
  return first ? "file is empty" : "";
}

// other: neighbouring meshes that share boundary edges with w
inline Err compare_txt(const TxtFile& f, const View& w, long id, const std::vector<double>& size, const std::vector<View>& other)
{
  auto S = [&](const char* n) -> const std::vector<std::vector<double>>& { static const std::vector<std::vector<double>> none; auto i=f.sec.find(n); return i==f.sec.end()?none:i->second; };
  for (auto* n : {"VERTICES","INTERIOREDGES","BOUNDARYEDGES","INTERFACEEDGES","FRONT","QUADS","TRIANGLES","QUADNEIGHBORS","TRIANGLENEIGHBORS","SIZEFUNCTION"})
    if (!f.sec.count(n)) return std::string("section ") + n + " is missing";
  if (f.id != id) return "mesh id is " + std::to_string(f.id) + " instead of " + std::to_string(id);
  const double tol = 5.0001e-6;
  auto& vv = S("VERTICES"); if (vv.size() != w.v.size()) return "number of exported vertices is wrong";
  for (size_t i=0;i<vv.size();++i) { if (vv[i].size()!=2) return "vertex row with wrong number of columns";
    for (int k=0;k<2;++k) if (std::fabs(vv[i][k]-w.v[i][k]) > tol + 1e-12*std::fabs(w.v[i][k])) return "vertex " + std::to_string(i) + " is exported at a wrong position"; }
  std::map<std::pair<int,int>,int> side;
  for (size_t i=0;i<w.e.size();++i) for (size_t j=0;j<w.e[i].v.size();++j) side[{w.e[i].v[j],w.e[i].v[(j+1)%w.e[i].v.size()]}]=(int)i;
  auto el = [&](int a, int b){ auto i=side.find({a,b}); return i==side.end()?-1:i->second; };
  for (int k=0;k<2;++k) { // elements and neighbours
    auto& q = S(k?"TRIANGLES":"QUADS"); auto& nb = S(k?"TRIANGLENEIGHBORS":"QUADNEIGHBORS"); size_t n = k?3:4, o = k?w.nq:0;
    if (q.size() != (k?w.nt:w.nq)) return std::string("number of exported ") + (k?"triangles":"quads") + " is wrong";
    if (nb.size() != q.size()) return "number of neighbour rows is wrong";
    for (size_t i=0;i<q.size();++i) { auto& e = w.e[o+i];
      if (q[i].size() != n+1) return "element row with wrong number of columns";
      for (size_t j=0;j<n;++j) if (q[i][j] != e.v[j]) return "element " + std::to_string(o+i) + " is exported with wrong vertices";
      if (q[i][n] != e.color) return "element " + std::to_string(o+i) + " is exported with color " + num(q[i][n]) + " instead of " + std::to_string(e.color);
      if (nb[i].size() != n) return "neighbour row with wrong number of columns";
      for (size_t j=0;j<n;++j) if (nb[i][j] != el(e.v[(j+2)%n], e.v[(j+1)%n])) return "neighbour " + std::to_string(j+1) + " of element " + std::to_string(o+i) + " is exported as " + num(nb[i][j]) + " instead of " + std::to_string(el(e.v[(j+2)%n], e.v[(j+1)%n])); } }
  { std::set<std::pair<int,int>> got; auto& q = S("INTERIOREDGES"); size_t want=0;
    for (auto& s : side) if (s.first.first < s.first.second && side.count({s.first.second,s.first.first})) ++want;
    for (auto& r : q) { if (r.size()!=4) return "interior edge row with wrong number of columns"; int a=r[0], b=r[1];
      if (!got.insert({std::min(a,b),std::max(a,b)}).second) return "interior edge exported twice";
      if (el(a,b) < 0 || el(b,a) < 0) return "exported interior edge is not between two elements";
      if (r[2] != el(a,b) || r[3] != el(b,a)) return "interior edge " + num(a) + "-" + num(b) + " is exported with wrong elements"; }
    if (q.size() != want) return "number of exported interior edges is " + std::to_string(q.size()) + " instead of " + std::to_string(want); }
  { std::multiset<std::array<int,4>> a, b; for (auto& r : S("BOUNDARYEDGES")) { if (r.size()!=4) return "boundary edge row with wrong number of columns"; a.insert({(int)r[0],(int)r[1],(int)r[2],(int)r[3]}); }
    for (auto& x : w.be) if (el(x.a,x.b) >= 0) b.insert({x.a,x.b,el(x.a,x.b),x.color});
    if (a != b) return "exported boundary edges differ from those of the mesh"; }
  { std::multiset<std::array<int,2>> a, b; for (auto& r : S("FRONT")) { if (r.size()!=3) return "front row with wrong number of columns"; if (r[2] != -1) return "front edge with marker"; a.insert({std::min((int)r[0],(int)r[1]),std::max((int)r[0],(int)r[1])}); }
    for (auto& x : w.be) if (el(x.a,x.b) < 0) b.insert({std::min(x.a,x.b),std::max(x.a,x.b)});
    for (auto& x : w.ie) if (el(x.a,x.b) < 0 || el(x.b,x.a) < 0) b.insert({std::min(x.a,x.b),std::max(x.a,x.b)});
    if (a != b) return "exported advancing front differs from that of the mesh"; }
  { std::map<std::array<int,2>,std::array<int,3>> want; // interface
    // the element of a neighbour that is still being generated is not judged
    std::set<std::array<int,2>> loose; auto done = [](const View& o){ return o.n_front == 0; };
    for (auto& x : w.be) { P2 p=w.v[x.a], q=w.v[x.b];
      for (auto& o : other) for (auto& y : o.be) { P2 c=o.v[y.a], d=o.v[y.b]; if (std::hypot(c[0]-q[0],c[1]-q[1])>1e-9||std::hypot(d[0]-p[0],d[1]-p[1])>1e-9) continue;
        int n=-1, col=-1; for (size_t i=0;i<o.e.size();++i) for (size_t j=0;j<o.e[i].v.size();++j) if (o.e[i].v[j]==y.a && o.e[i].v[(j+1)%o.e[i].v.size()]==y.b) { n=(int)i; col=o.e[i].color; }
        want[{x.a,x.b}] = {el(x.a,x.b), n, col}; if (!done(o)) loose.insert({x.a,x.b}); } }
    auto& q = S("INTERFACEEDGES"); if (q.size() != want.size()) return "number of exported interface edges is " + std::to_string(q.size()) + " instead of " + std::to_string(want.size());
    for (auto& r : q) { if (r.size()!=5) return "interface row with wrong number of columns"; auto i=want.find({(int)r[0],(int)r[1]}); if (i==want.end()) return "exported interface edge is not on an interface";
      if (r[2]!=i->second[0]) return "interface edge with wrong element"; if (loose.count(i->first)) continue; if (r[3]!=i->second[1]) return "interface edge with wrong element " + num(r[3]) + " of the neighbouring mesh instead of " + std::to_string(i->second[1]); if (r[4]!=i->second[2]) return "interface edge with wrong color of the neighbouring mesh"; } }
  { auto& q = S("SIZEFUNCTION"); if (q.size() != w.v.size()) return "number of exported sizes is wrong";
    for (size_t i=0;i<q.size();++i) if (q[i].size()!=1 || std::fabs(q[i][0]-size[i]) > tol + 1e-9*std::fabs(size[i])) return "size at vertex " + std::to_string(i) + " is exported as " + num(q[i][0]) + " instead of " + num(size[i]); }
  return "";
}

struct VtuFile { long np=-1, nc=-1; std::map<std::string,std::vector<double>> arr; std::map<std::string,std::string> type, parent; };
inline Err parse_vtu(const std::string& t, VtuFile& f)
{
  std::vector<std::string> stack; size_t i = 0; std::string curarr;
  while (i < t.size()) {
    if (isspace((unsigned char)t[i])) { ++i; continue; }
    if (t[i] == '<') {
      size_t e = t.find('>', i); if (e == std::string::npos) return "unterminated tag";
      std::string tag = t.substr(i+1, e-i-1); i = e+1;
      if (tag[0] == '/') { if (stack.empty() || stack.back() != tag.substr(1)) return "tag </" + tag.substr(1) + "> does not match"; stack.pop_back(); continue; }
      std::string name = tag.substr(0, tag.find(' ')); std::map<std::string,std::string> at;
      size_t p = name.size();
      while ((p = tag.find('"', p)) != std::string::npos) { size_t q = tag.find('"', p+1); if (q == std::string::npos) return "bad attribute"; size_t b = tag.rfind(' ', p); std::string k = tag.substr(b+1, p-b-2); at[k] = tag.substr(p+1, q-p-1); p = q+1; }
      if (name == "Piece") { f.np = atol(at["NumberOfPoints"].c_str()); f.nc = atol(at["NumberOfCells"].c_str()); }
      if (name == "DataArray") { curarr = at.count("Name") ? at["Name"] : (stack.empty() ? "" : stack.back()); if (f.arr.count(curarr)) return "array " + curarr + " occurs twice";
        f.arr[curarr]; f.type[curarr] = at["type"]; f.parent[curarr] = stack.empty() ? "" : stack.back();
        if (at["Format"] != "ascii" && at["format"] != "ascii") return "array is not ascii"; }
      stack.push_back(name);
      continue;
    }
    size_t e = i; while (e < t.size() && !isspace((unsigned char)t[e]) && t[e] != '<') ++e;
    if (stack.empty() || stack.back() != "DataArray") return "text outside of a data array";
    std::string w = t.substr(i, e-i); char* q; double v = strtod(w.c_str(), &q); if (*q) return "bad number '" + w + "'";
    f.arr[curarr].push_back(v); i = e;
  }
  if (!stack.empty()) return "tag <" + stack.back() + "> is not closed";
  return f.nc < 0 ? "no piece" : "";
}
inline Err compare_vtu(VtuFile& f, const View& w, const std::vector<double>& size, const std::vector<double>& quality)
{
  if (f.np != (long)w.v.size() || f.nc != (long)w.e.size()) return "number of points or cells is wrong";
  for (auto* n : {"Points","connectivity","offsets","types","size_function","in_quad_layer","fixed_vertices","element_color","edge_length","max_angle","cell_quality"}) if (!f.arr.count(n)) return std::string("array ") + n + " is missing";
  for (auto* n : {"size_function","in_quad_layer","fixed_vertices"}) { if (f.arr[n].size() != w.v.size()) return std::string("array ") + n + " has a wrong length"; if (f.parent[n] != "PointData") return std::string("array ") + n + " is not point data"; }
  for (auto* n : {"element_color","edge_length","max_angle","cell_quality"}) { if (f.arr[n].size() != w.e.size()) return std::string("array ") + n + " has a wrong length"; if (f.parent[n] != "CellData") return std::string("array ") + n + " is not cell data"; }
  for (auto* n : {"in_quad_layer","fixed_vertices","element_color","connectivity","offsets","types"}) if (f.type[n].rfind("Int",0) != 0) return std::string("array ") + n + " is not declared as integer";
  for (auto* n : {"size_function","edge_length","max_angle","cell_quality","Points"}) if (f.type[n].rfind("Float",0) != 0) return std::string("array ") + n + " is not declared as float";
  if (f.arr["Points"].size() != 3*w.v.size()) return "number of point coordinates is wrong";
  auto near = [](double a, double b, double t){ return std::fabs(a-b) <= t; };
  auto sig = [](double v){ return 5.1e-6*std::fabs(v) + 1e-12; };  // six significant digits
  for (size_t i=0;i<w.v.size();++i) {
    for (int k=0;k<2;++k) if (!near(f.arr["Points"][3*i+k], w.v[i][k], 5.0001e-6)) return "point " + std::to_string(i) + " is exported at a wrong position";
    if (f.arr["Points"][3*i+2] != 0) return "point outside of the plane";
    if (!near(f.arr["size_function"][i], size[i], sig(size[i]) + 5e-6)) return "size at point " + std::to_string(i) + " is wrong";
    if (f.arr["in_quad_layer"][i] != ((w.vprop[i]&2u)?1:0)) return "quad layer flag of point " + std::to_string(i) + " is wrong";
    if (f.arr["fixed_vertices"][i] != ((w.vprop[i]&4u)?1:0)) return "fixed flag of point " + std::to_string(i) + " is wrong"; }
  size_t off = 0; auto& c = f.arr["connectivity"]; auto& o = f.arr["offsets"]; auto& ty = f.arr["types"];
  if (o.size() != w.e.size() || ty.size() != w.e.size()) return "offsets or types have a wrong length";
  for (size_t i=0;i<w.e.size();++i) { auto& e = w.e[i]; size_t n = e.v.size();
    if (off + n > c.size()) return "connectivity is too short";
    for (size_t j=0;j<n;++j) if (c[off+j] != e.v[j]) return "cell " + std::to_string(i) + " has wrong points";
    off += n; if (o[i] != off) return "offset of cell " + std::to_string(i) + " is wrong";
    if (ty[i] != (n==4?9:5)) return "type of cell " + std::to_string(i) + " is wrong";
    if (f.arr["element_color"][i] != e.color) return "color of cell " + std::to_string(i) + " is wrong";
    double L=0, A=0; for (size_t j=0;j<n;++j) { P2 a=w.v[e.v[j]], b=w.v[e.v[(j+1)%n]], p=w.v[e.v[(j+n-1)%n]]; L=std::max(L,std::hypot(b[0]-a[0],b[1]-a[1]));
      double d=((b[0]-a[0])*(p[0]-a[0])+(b[1]-a[1])*(p[1]-a[1]))/(std::hypot(b[0]-a[0],b[1]-a[1])*std::hypot(p[0]-a[0],p[1]-a[1])); A=std::max(A, std::acos(std::max(-1.0,std::min(1.0,d)))*180/M_PI); }
    if (!near(f.arr["edge_length"][i], L, sig(L))) return "edge length of cell " + std::to_string(i) + " is " + num(f.arr["edge_length"][i]) + " instead of " + num(L);
    if (!near(f.arr["max_angle"][i], A, sig(A)+1e-5)) return "maximum angle of cell " + std::to_string(i) + " is " + num(f.arr["max_angle"][i]) + " instead of " + num(A);
    if (!near(f.arr["cell_quality"][i], quality[i], sig(quality[i]))) return "quality of cell " + std::to_string(i) + " is " + num(f.arr["cell_quality"][i]) + " instead of " + num(quality[i]); }
  if (off != c.size()) return "connectivity is too long";
  return "";
}

// Write mesh k of the session in every format and compare.  Runs in a forked copy.
inline Err check_exports(Session& s, int k, const std::string& dir, const std::string& what = "CTV")
{
  using namespace TQMesh; Err e;
  Mesh& m = *s.mesh[k];
  View before = snap(m);
  std::string base = dir + "/x" + std::to_string(getpid());
  std::vector<double> size, qual;
  auto put = [&](MeshExportType ty, const std::string& name){ return s.gen.write_mesh(m, name, ty); };
  std::string txt, cout_, vtu;
  if (what.find('T') != std::string::npos) {
    if (!put(MeshExportType::TXT, base)) return "text export failed";
    if (!exists(base + ".txt")) return "text export did not create the file with suffix .txt";
    txt = slurp(base + ".txt"); unlink((base + ".txt").c_str());
    if (exists(base)) return "text export created a file without suffix";
    if (!put(MeshExportType::TXT, base + "b.txt")) return "text export failed";
    if (slurp(base + "b.txt") != txt) return "text export to a name with suffix differs";
    unlink((base + "b.txt").c_str());
  }
  if (what.find('C') != std::string::npos) {
    std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); bool r = put(MeshExportType::COUT, ""); std::cout.rdbuf(old);
    if (!r) return "export to standard output failed"; cout_ = o.str();
    if (!txt.empty() && cout_ != txt) return "export to standard output differs from the text file";
    if (txt.empty()) txt = cout_;
  }
  if (what.find('V') != std::string::npos) {
    if (!put(MeshExportType::VTU, base)) return "vtu export failed";
    if (!exists(base + ".vtu")) return "vtu export did not create the file with suffix .vtu";
    vtu = slurp(base + ".vtu"); unlink((base + ".vtu").c_str());
    if (!put(MeshExportType::VTU, base + "b.vtu")) return "vtu export failed";
    if (slurp(base + "b.vtu") != vtu) return "vtu export to a name with suffix differs";
    unlink((base + "b.vtu").c_str());
  }
  if (what == "CTV" && before.v.size() % 8 == 0) { // names with further dots
    struct Sub { std::string d; Sub(const std::string& x) : d(x) { mkdir(d.c_str(), 0755); } ~Sub() { rmdir(d.c_str()); } } sub(base + ".v2");
    for (std::string n : { base + ".v2/mesh", base + "a.v2", base + "a.dat", base + "a.vtu.old", base + "1.5" }) for (int k = 0; k < 2; ++k) {
      std::string suf = k ? ".vtu" : ".txt", other = k ? n + "x.txt" : n + "x.vtu";
      for (auto& nm : { n, other }) {
        bool r = put(k ? MeshExportType::VTU : MeshExportType::TXT, nm); std::string got = slurp(nm + suf); bool there = exists(nm + suf); unlink((nm + suf).c_str()); bool raw = exists(nm); if (raw) unlink(nm.c_str());
        if (!r) return "export to the name " + nm.substr(base.size()) + " failed";
        if (!there || raw) return "export to the name " + nm.substr(base.size()) + " does not create the file with suffix " + suf;
        if (got != (k ? vtu : txt)) return "export to the name " + nm.substr(base.size()) + " differs"; } }
  }
  View w = snap(m);
  if (hash_view(w) != hash_view(before)) return "export changed the mesh";
  if (w.v != before.v) return "export moved vertices";
  for (auto& v : m.vertices()) size.push_back(s.dom[k]->size_function(v->xy()));
  for (auto& q : m.quads()) qual.push_back(q->quality(s.dom[k]->size_function(q->xy())));
  for (auto& q : m.triangles()) qual.push_back(q->quality(s.dom[k]->size_function(q->xy())));
  std::vector<View> other; for (size_t i=0;i<s.mesh.size();++i) if ((int)i!=k && s.mesh[i]) other.push_back(snap(*s.mesh[i]));
  TxtFile f; if (!(e = parse_txt(txt, f)).empty()) return "text export: " + e;
  if (!(e = compare_txt(f, w, m.id(), size, other)).empty()) return "text export: " + e;
  if (!vtu.empty()) { VtuFile g; if (!(e = parse_vtu(vtu, g)).empty()) return "vtu export: " + e; if (!(e = compare_vtu(g, w, size, qual)).empty()) return "vtu export: " + e; }
  return "";
}

} // namespace vf
