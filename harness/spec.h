// Text-encodable description of a bounded verification case: one or more
// domains (boundary loops, fixed vertices / edges, size function) plus the
// operations applied to them.  The same text is used for replay files.
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <array>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <stdexcept>
#include <functional>

namespace vf {

struct Pt { double x, y; int c; double s, r; };

struct Loop {
  char type = 'E';              // E exterior, I interior
  char mode = 'e';              // e: add_vertex+add_edge, c: set_shape_from_coordinates
  std::vector<Pt> pts;
};

struct FixV { double x, y, s, r; };
struct FixE { char ka, kb; int a, b; };   // kind 'b' boundary point / 'f' fixed vertex

struct DomSpec {
  int id = 0, color = 0;
  std::string sf = "c:1";
  double qscale = 0;            // 0: library default
  int qitems = 0, qdepth = 0;
  std::vector<Loop> loops;
  std::vector<FixV> fv;
  std::vector<FixE> fe;
};

inline std::string num(double v)
{ char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }

inline std::string to_text(const DomSpec& d)
{
  std::ostringstream o;
  o << "D id=" << d.id << " col=" << d.color << " sf=" << d.sf;
  if (d.qscale > 0) o << " q=" << num(d.qscale) << ":" << d.qitems << ":" << d.qdepth;
  for (auto& l : d.loops) {
    o << " ; " << l.type << l.mode;
    for (auto& p : l.pts) {
      o << " " << num(p.x) << "," << num(p.y) << "," << p.c;
      if (p.s != 0 || p.r != 0) o << "," << num(p.s) << "," << num(p.r);
    }
  }
  if (!d.fv.empty()) {
    o << " ; FV";
    for (auto& f : d.fv) o << " " << num(f.x) << "," << num(f.y) << "," << num(f.s) << "," << num(f.r);
  }
  if (!d.fe.empty()) {
    o << " ; FE";
    for (auto& f : d.fe) o << " " << f.ka << f.a << "-" << f.kb << f.b;
  }
  return o.str();
}

inline std::vector<std::string> split(const std::string& s, char c)
{
  std::vector<std::string> out; std::string cur;
  for (char ch : s) { if (ch == c) { out.push_back(cur); cur.clear(); } else cur += ch; }
  out.push_back(cur);
  return out;
}

inline std::vector<std::string> words(const std::string& s)
{ std::istringstream i(s); std::vector<std::string> o; std::string w; while (i >> w) o.push_back(w); return o; }

inline DomSpec dom_from_text(const std::string& t)
{
  DomSpec d; d.loops.clear();
  for (auto& sec : split(t, ';')) {
    auto w = words(sec);
    if (w.empty()) continue;
    if (w[0] == "D") {
      for (auto& x : w) {
        if (x.rfind("id=", 0) == 0) d.id = atoi(x.c_str() + 3);
        if (x.rfind("col=", 0) == 0) d.color = atoi(x.c_str() + 4);
        if (x.rfind("sf=", 0) == 0) d.sf = x.substr(3);
        if (x.rfind("q=", 0) == 0) {
          auto q = split(x.substr(2), ':');
          d.qscale = atof(q[0].c_str()); d.qitems = atoi(q[1].c_str()); d.qdepth = atoi(q[2].c_str());
        }
      }
    } else if (w[0] == "FV") {
      for (size_t i = 1; i < w.size(); ++i) {
        auto c = split(w[i], ',');
        d.fv.push_back({atof(c[0].c_str()), atof(c[1].c_str()),
          c.size() > 2 ? atof(c[2].c_str()) : 0, c.size() > 3 ? atof(c[3].c_str()) : 0});
      }
    } else if (w[0] == "FE") {
      for (size_t i = 1; i < w.size(); ++i) {
        auto c = split(w[i], '-');
        d.fe.push_back({c[0][0], c[1][0], atoi(c[0].c_str() + 1), atoi(c[1].c_str() + 1)});
      }
    } else {
      Loop l; l.type = w[0][0]; l.mode = w[0].size() > 1 ? w[0][1] : 'e';
      for (size_t i = 1; i < w.size(); ++i) {
        auto c = split(w[i], ',');
        l.pts.push_back({atof(c[0].c_str()), atof(c[1].c_str()), atoi(c[2].c_str()),
          c.size() > 3 ? atof(c[3].c_str()) : 0, c.size() > 4 ? atof(c[4].c_str()) : 0});
      }
      d.loops.push_back(l);
    }
  }
  return d;
}

// Size functions used by the cases (strictly positive on the domains they
// are combined with).
//   c:h           constant
//   l:a,bx,by     a + bx*x + by*y
//   p:h0,k,x,y    h0 + k*dist((x,y))
//   w:h,a         h*(1+a*sin(x)*cos(y))
inline std::function<double(double,double)> size_fun(const std::string& s)
{
  auto c = split(s.substr(2), ',');
  std::vector<double> v; for (auto& x : c) v.push_back(atof(x.c_str()));
  if (s[0] == 'c') { double h = v[0]; return [h](double, double){ return h; }; }
  if (s[0] == 'l') { return [v](double x, double y){ return v[0] + v[1]*x + v[2]*y; }; }
  if (s[0] == 'p') { return [v](double x, double y){ return v[0] + v[1]*std::hypot(x-v[2], y-v[3]); }; }
  if (s[0] == 'w') { return [v](double x, double y){ return v[0]*(1 + v[1]*std::sin(x)*std::cos(y)); }; }
  throw std::runtime_error("bad size function " + s);
}

inline double loop_area(const Loop& l)
{
  double a = 0; size_t n = l.pts.size();
  for (size_t i = 0; i < n; ++i) {
    auto& p = l.pts[i]; auto& q = l.pts[(i+1)%n];
    a += p.x*q.y - q.x*p.y;
  }
  return 0.5*a;
}

// The loop's segments oriented such that the domain lies on their left,
// each with its own colour (colour i belongs to the segment pts[i]->pts[i+1]).
struct Seg { double ax, ay, bx, by; int c; };
inline std::vector<Seg> loop_segments(const Loop& l)
{
  std::vector<Seg> out; size_t n = l.pts.size();
  bool ccw = loop_area(l) > 0;
  bool keep = (l.type == 'E') == ccw;
  for (size_t i = 0; i < n; ++i) {
    auto& p = l.pts[i]; auto& q = l.pts[(i+1)%n];
    if (keep) out.push_back({p.x,p.y,q.x,q.y,p.c});
    else      out.push_back({q.x,q.y,p.x,p.y,p.c});
  }
  return out;
}

inline double dom_area(const DomSpec& d)
{
  double a = 0;
  for (auto& l : d.loops) a += (l.type == 'E' ? 1 : -1) * std::fabs(loop_area(l));
  return a;
}

inline double dom_diam(const DomSpec& d)
{
  double x0=1e300,x1=-1e300,y0=1e300,y1=-1e300;
  for (auto& l : d.loops) for (auto& p : l.pts) {
    x0=std::min(x0,p.x);x1=std::max(x1,p.x);y0=std::min(y0,p.y);y1=std::max(y1,p.y); }
  return std::hypot(x1-x0,y1-y0);
}

} // namespace vf
