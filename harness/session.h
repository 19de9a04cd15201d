// A live TQMesh session (generator, domains, meshes) driven by text operations.
#pragma once
#include "oracle.h"
#include <memory>

namespace vf {

struct Session {
  std::vector<DomSpec> spec;
  std::vector<std::unique_ptr<TQMesh::Domain>> dom;
  TQMesh::MeshGenerator gen;
  std::vector<TQMesh::Mesh*> mesh;       // per domain, nullptr when absent
  bool last_ret = true;
  std::vector<std::unique_ptr<TQMesh::Domain>> junk;

  explicit Session(const std::vector<DomSpec>& s) : spec(s)
  {
    for (auto& d : spec) { dom.push_back(build(d)); mesh.push_back(nullptr); }
  }

  static std::unique_ptr<TQMesh::Domain> build(const DomSpec& d)
  {
    using namespace TQMesh;
    auto f = size_fun(d.sf);
    UserSizeFunction uf = [f](const CppUtils::Vec2d& p){ return f(p.x, p.y); };
    std::unique_ptr<Domain> D = d.qscale > 0
      ? std::make_unique<Domain>(uf, d.qscale, (size_t)d.qitems, (size_t)d.qdepth)
      : std::make_unique<Domain>(uf);
    std::vector<Vertex*> bp;
    for (auto& l : d.loops) {
      Boundary& b = l.type == 'E' ? D->add_exterior_boundary() : D->add_interior_boundary();
      if (l.mode == 'e') {
        size_t o = bp.size(), n = l.pts.size();
        for (auto& p : l.pts) {
          Vertex* v = nullptr;   // reuse vertices given twice (touching loops)
          for (auto* q : bp) if (q->xy().x == p.x && q->xy().y == p.y) v = q;
          bp.push_back(v ? v : &D->add_vertex(p.x, p.y, p.s, p.r));
        }
        for (size_t i = 0; i < n; ++i) b.add_edge(*bp[o+i], *bp[o+(i+1)%n], l.pts[i].c);
      } else {
        std::vector<CppUtils::Vec2d> c, pr; std::vector<int> col;
        for (auto& p : l.pts) { c.push_back({p.x,p.y}); pr.push_back({p.s,p.r}); col.push_back(p.c); }
        b.set_shape_from_coordinates(c, col, pr);
        for (auto& p : l.pts) {
          Vertex* v = nullptr;
          for (auto& q : D->vertices()) if (q->xy().x == p.x && q->xy().y == p.y) v = q.get();
          bp.push_back(v);
        }
      }
    }
    std::vector<Vertex*> fv;
    for (auto& f : d.fv) fv.push_back(&D->add_fixed_vertex(f.x, f.y, f.s, f.r));
    for (auto& e : d.fe)
      D->add_fixed_edge(e.ka == 'f' ? *fv[e.a] : *bp[e.a], e.kb == 'f' ? *fv[e.b] : *bp[e.b]);
    return D;
  }

  // op syntax: <mesh digit>? NAME[:args]
  bool apply(const std::string& op_)
  {
    using namespace TQMesh;
    std::string op = op_; int k = 0;
    if (isdigit((unsigned char)op[0])) { k = op[0]-'0'; op = op.substr(1); }
    std::string a; size_t c = op.find(':');
    if (c != std::string::npos) { a = op.substr(c+1); op = op.substr(0,c); }
    std::vector<double> v; if (!a.empty()) for (auto& x : split(a, ',')) v.push_back(atof(x.c_str()));
    last_ret = true;
    if (op == "N") { mesh[k] = &gen.new_mesh(*dom[k], spec[k].id, spec[k].color); return true; }
    if (op == "G") { // merge mesh v[0] into k
      int j = (int)v[0];
      size_t before = gen.size();
      last_ret = gen.merge_meshes(*mesh[k], *mesh[j]);
      if (gen.size() < before) mesh[j] = nullptr;
      return last_ret;
    }
    Mesh& m = *mesh[k];
    if ((op == "T" || op == "X") && v.size() > 1) { // n, range, wide search, quality, angle, base vertex factor
      Triangulation tri { m, *dom[k] };
      tri.n_elements((size_t)v[0]).mesh_range_factor(v[1]).wide_search_factor(v[2]).min_cell_quality(v[3]).max_cell_angle(v[4]).base_vertex_factor(v[5]);
      last_ret = op == "T" ? tri.generate_elements() : tri.generate_elements_exhaustive();
    }
    else if (op == "T") { last_ret = gen.triangulation(m).n_elements(v.empty() ? 0 : (size_t)v[0]).generate_elements(); }
    else if (op == "X") { last_ret = gen.triangulation(m).n_elements(v.empty() ? 0 : (size_t)v[0]).generate_elements_exhaustive(); }
    else if (op == "L") { // n,h,g,x1,y1,x2,y2
      last_ret = gen.quad_layer_generation(m).n_layers((size_t)v[0]).first_height(v[1]).growth_rate(v[2])
        .starting_position({v[3],v[4]}).ending_position({v[5],v[6]}).generate_elements();
    }
    else if (op == "M") { last_ret = gen.tri2quad_modification(m).modify(); }
    else if (op == "R") { last_ret = gen.quad_refinement(m).refine(); }
    else if (op == "Sl" || op == "St" || op == "Sm") { // iterations,quad layers,epsilon,decay,angle factor
      auto run = [&](auto& x) { if (v.size()>1) x.quad_layer_smoothing(v[1]!=0); else x.quad_layer_smoothing(false);
        if (v.size()>2) x.epsilon(v[2]); if (v.size()>3) x.decay(v[3]); last_ret = x.smooth((int)v[0]); };
      if (op == "Sl") { auto& x = gen.laplace_smoothing(m); run(x); }
      else if (op == "St") { auto& x = gen.torsion_smoothing(m); if (v.size()>4) x.angle_factor(v[4]); run(x); }
      else { auto& x = gen.mixed_smoothing(m); if (v.size()>4) x.angle_factor(v[4]); run(x); }
    }
    else if (op == "Cq") { MeshCleanup::clear_double_quad_edges(m); }
    else if (op == "Ct") { MeshCleanup::clear_double_triangle_edges(m); }
    else if (op == "Cd") { MeshCleanup::merge_degenerate_triangles(m); }
    else if (op == "Cm") { MeshCleanup::merge_triangles_to_quads(m); }
    else throw std::runtime_error("unknown op " + op_);
    return last_ret;
  }

  bool complete(int k = 0)
  { return TQMesh::MeshChecker(*mesh[k], *dom[k]).check_completeness(); }
};

} // namespace vf
