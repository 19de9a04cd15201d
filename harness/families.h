// Bounded-exhaustive families of domains on a small integer lattice.
#pragma once
#include "spec.h"
#include <set>
#include <algorithm>

namespace vf {

using IP = std::array<int,2>;

inline int ori(const IP& a, const IP& b, const IP& c)
{ long v = (long)(b[0]-a[0])*(c[1]-a[1]) - (long)(b[1]-a[1])*(c[0]-a[0]); return v>0?1:v<0?-1:0; }
inline bool on_seg(const IP& a, const IP& b, const IP& p)
{ return ori(a,b,p)==0 && std::min(a[0],b[0])<=p[0] && p[0]<=std::max(a[0],b[0]) && std::min(a[1],b[1])<=p[1] && p[1]<=std::max(a[1],b[1]); }
// closed segments share at least one point
inline bool seg_touch(const IP& a, const IP& b, const IP& c, const IP& d)
{
  int o1=ori(a,b,c),o2=ori(a,b,d),o3=ori(c,d,a),o4=ori(c,d,b);
  if (o1*o2<0 && o3*o4<0) return true;
  return on_seg(a,b,c)||on_seg(a,b,d)||on_seg(c,d,a)||on_seg(c,d,b);
}
inline bool simple_polygon(const std::vector<IP>& p)
{
  size_t n = p.size(); if (n<3) return false;
  for (size_t i=0;i<n;++i) for (size_t j=i+1;j<n;++j) {
    const IP&a=p[i],&b=p[(i+1)%n],&c=p[j],&d=p[(j+1)%n];
    if (j==i+1) { if (on_seg(a,b,d) || on_seg(c,d,a)) return false; }
    else if (i==0 && j==n-1) { if (on_seg(a,b,c) || on_seg(c,d,b)) return false; }
    else if (seg_touch(a,b,c,d)) return false;
  }
  return true;
}
inline long area2(const std::vector<IP>& p)
{ long s=0; size_t n=p.size(); for(size_t i=0;i<n;++i){auto&a=p[i];auto&b=p[(i+1)%n]; s+=(long)a[0]*b[1]-(long)b[0]*a[1];} return s; }
// >0 strictly inside, 0 on boundary, <0 outside
inline int point_in(const std::vector<IP>& poly, const IP& p)
{
  size_t n=poly.size(); bool in=false;
  for(size_t i=0;i<n;++i){
    const IP&a=poly[i],&b=poly[(i+1)%n];
    if(on_seg(a,b,p)) return 0;
    if((a[1]>p[1])!=(b[1]>p[1])){
      // x of the crossing compared with p.x, exactly
      long num=(long)(b[0]-a[0])*(p[1]-a[1]), den=b[1]-a[1];
      long lhs=(long)(p[0]-a[0])*den; // p.x-a.x < num/den
      if(den>0? lhs<num : lhs>num) in=!in;
    }
  }
  return in?1:-1;
}

// All simple polygons (as cyclic vertex sequences, counter-clockwise, starting
// at their lexicographically smallest vertex) with nmin..nmax corners on the
// lattice {0..W}x{0..H}.  straight=false leaves out 180 degree corners.
inline std::vector<std::vector<IP>> lattice_polygons(int W, int H, int nmin, int nmax, bool straight=false)
{
  std::vector<IP> pts; for(int x=0;x<=W;++x) for(int y=0;y<=H;++y) pts.push_back({x,y});
  std::vector<std::vector<IP>> out; std::vector<IP> cur; std::vector<char> used(pts.size(),0);
  std::function<void()> rec=[&]{
    size_t n=cur.size();
    if((int)n>=nmin && n>=3 && simple_polygon(cur) && area2(cur)>0){
      bool ok=true;
      if(!straight) for(size_t i=0;i<n;++i) if(ori(cur[i],cur[(i+1)%n],cur[(i+2)%n])==0) ok=false;
      if(ok) out.push_back(cur);
    }
    if((int)n==nmax) return;
    for(size_t k=0;k<pts.size();++k){
      if(used[k]|| !(cur[0]<pts[k])) continue;
      // prune: the new edge must not touch the chain
      bool bad=false;
      for(size_t i=0;i+1<n && !bad;++i){
        if(i+2==n){ if(on_seg(cur[i],cur[i+1],pts[k])||on_seg(cur[n-1],pts[k],cur[i])) bad=true; }
        else if(seg_touch(cur[i],cur[i+1],cur[n-1],pts[k])) bad=true;
      }
      if(bad) continue;
      used[k]=1; cur.push_back(pts[k]); rec(); cur.pop_back(); used[k]=0;
    }
  };
  for(size_t s=0;s<pts.size();++s){ used.assign(pts.size(),0); used[s]=1; cur={pts[s]}; rec(); }
  return out;
}

inline Loop poly_loop(const std::vector<IP>& p, char type, char mode, double step=1, double ox=0, double oy=0, int c0=1)
{
  Loop l; l.type=type; l.mode=mode; int c=c0;
  for(auto&q:p) l.pts.push_back({ox+step*q[0], oy+step*q[1], c++, 0, 0});
  return l;
}
inline Loop reversed_loop(Loop l)      // same segments and colours, opposite listing order
{
  size_t n=l.pts.size(); Loop r=l;
  for(size_t i=0;i<n;++i){ r.pts[i]=l.pts[n-1-i]; r.pts[i].c=l.pts[(2*n-2-i)%n].c; }
  return r;
}
inline Loop rect_loop(double x0,double y0,double x1,double y1,char type,char mode,int c0=1)
{
  Loop l; l.type=type; l.mode=mode;
  l.pts={{x0,y0,c0,0,0},{x1,y0,c0+1,0,0},{x1,y1,c0+2,0,0},{x0,y1,c0+3,0,0}};
  if(type=='I'){ // clockwise listing for edge mode
    l.pts={{x0,y0,c0,0,0},{x0,y1,c0+1,0,0},{x1,y1,c0+2,0,0},{x1,y0,c0+3,0,0}};
  }
  return l;
}
inline DomSpec dom1(const Loop& l, const std::string& sf, int id=1, int col=3)
{ DomSpec d; d.id=id; d.color=col; d.sf=sf; d.loops.push_back(l); return d; }

} // namespace vf
