#ifndef VERIF_MESHMON_HPP_
#define VERIF_MESHMON_HPP_
// monitors of mesh invariants, written against the public interface only
#include "scene.hpp"
#include <set>
#include <map>
#include <tuple>

namespace scene
{

using mon::Monitor;

inline int face_of(Connection_direction dir, int side) {return 2*dir.i_dim[side] + dir.face_sign[side];}

inline std::vector<Vertex*> face_verts(Element& e, int nd, int i_face)
{
  std::vector<Vertex*> v;
  int i_dim = i_face/2, sign = i_face%2;
  for (int i = 0; i < (1 << nd); ++i) if (((i >> (nd - 1 - i_dim)) & 1) == sign) v.push_back(&e.vertex(i));
  return v;
}

//! nominal box of a tree element's face, or of the element
struct Box {Mat<> lo, hi;};
inline Box face_box(Element& e, int nd, int i_face)
{
  Box b{elem_corner(e, nd), elem_corner(e, nd) + Mat<>::Constant(nd, e.nominal_size())};
  if (i_face%2) b.lo(i_face/2) = b.hi(i_face/2);
  else b.hi(i_face/2) = b.lo(i_face/2);
  return b;
}
inline std::string name(Element& e, int nd)
{
  std::string s = fmt("%s%s level %d at (", e.tree ? "" : "extruded ", e.get_is_deformed() ? "deformed" : "cartesian", e.refinement_level());
  for (int i = 0; i < nd; ++i) s += fmt("%d%s", e.nominal_position()[i], i < nd - 1 ? "," : ")");
  return s;
}

template <typename F> void for_refined(Accessible_mesh& m, F f)
{
  auto& c = m.cartesian().refined_connections();
  for (int i = 0; i < c.size(); ++i) {
    auto& r = c[i];
    std::vector<Element*> fine;
    for (int j = 0; j < r.n_fine_elements(); ++j) fine.push_back(&r.connection(j).element(!r.order_reversed()));
    f(static_cast<Element&>(r.coarse_element()), fine, Connection_direction(Con_dir<Deformed_element>(r.direction())), r.order_reversed(), false);
  }
  auto& d = m.deformed().refined_connections();
  for (int i = 0; i < d.size(); ++i) {
    auto& r = d[i];
    std::vector<Element*> fine;
    for (int j = 0; j < r.n_fine_elements(); ++j) fine.push_back(&r.connection(j).element(!r.order_reversed()));
    f(static_cast<Element&>(r.coarse_element()), fine, Connection_direction(r.direction()), r.order_reversed(), true);
  }
}

//! connectivity invariants (any mesh; more for tree meshes)
inline void check_topology(Monitor& mon, Accessible_mesh& m, int nd, const Tree_scene* ts, const std::string& ctx)
{
  auto& elems = m.elements();
  mon.checkf(bool(m.valid()), "valid", [&]{auto v = m.valid(); return fmt("valid() reports %d redundant and %d missing connections ", v.n_redundant, v.n_missing) + ctx;});
  // which faces are claimed by what
  std::map<std::pair<Element*, int>, int> bound, conf, coarse_use, fine_use;
  std::set<Element*> all;
  for (int i = 0; i < elems.size(); ++i) mon.checkf(all.insert(&elems[i]).second, "element-once", [&]{return "element listed twice " + ctx;});
  std::set<Element_connection*> hanging;
  long n_hang = 0;
  for_refined(m, [&](Element& coarse, std::vector<Element*> fine, Connection_direction dir, bool rev, bool is_def) {
    ++coarse_use[{&coarse, face_of(dir, rev)}];
    mon.checkf(all.count(&coarse), "hanging-coarse-in-mesh", [&]{return ctx;});
    bool ok = true;
    for (Element* f : fine) {
      ++fine_use[{f, face_of(dir, !rev)}];
      ok = ok && all.count(f);
      mon.checkf(f->refinement_level() == coarse.refinement_level() + 1, "hanging-level-difference-is-1", [&]{return name(coarse, nd) + " / " + name(*f, nd) + " " + ctx;});
    }
    mon.checkf(ok, "hanging-fine-in-mesh", [&]{return ctx;});
    bool any_car = !coarse.get_is_deformed();
    for (Element* f : fine) any_car = any_car || !f->get_is_deformed();
    mon.checkf(any_car != is_def, "hanging-connection-kind", [&]{return "wrong kind of hanging connection at " + name(coarse, nd) + " " + ctx;});
    // every corner of the coarse face is a corner of exactly the right fine faces
    auto cv = face_verts(coarse, nd, face_of(dir, rev));
    std::set<Vertex*> fv;
    for (Element* f : fine) for (Vertex* v : face_verts(*f, nd, face_of(dir, !rev))) fv.insert(v);
    bool covered = true;
    for (Vertex* v : cv) covered = covered && fv.count(v);
    mon.checkf(covered, "hanging-corners-shared", [&]{return "coarse corner not shared with a fine face, " + name(coarse, nd) + " " + ctx;});
    if (coarse.tree) {
      Box cb = face_box(coarse, nd, face_of(dir, rev));
      double area = 0, tol = 1e-9*coarse.nominal_size();
      bool inside = true;
      for (Element* f : fine) if (f->tree) {
        Box fb = face_box(*f, nd, face_of(dir, !rev));
        inside = inside && ((fb.lo - cb.lo).array() >= -tol).all() && ((cb.hi - fb.hi).array() >= -tol).all();
        area += std::pow(f->nominal_size(), nd - 1);
      } else inside = false;
      double full = std::pow(coarse.nominal_size(), nd - 1);
      mon.checkf(inside && std::abs(area - full) < 1e-9*full, "hanging-face-tiled", [&]{return fmt("fine faces cover %g of %g ", area, full) + name(coarse, nd) + " " + ctx;});
      std::set<Element*> uniq(fine.begin(), fine.end());
      mon.checkf(uniq.size() == fine.size(), "hanging-fine-distinct", [&]{return ctx;});
    }
    ++n_hang;
  });
  auto& ec = m.element_connections();
  for (int i = 0; i < ec.size(); ++i) {
    auto& c = ec[i];
    auto dir = c.get_direction();
    Element& a = c.element(0);
    Element& b = c.element(1);
    if (!mon.checkf(all.count(&a) && all.count(&b), "connected-elements-in-mesh", [&]{return "connection refers to an element that is not in the mesh " + ctx;})) return;
    bool is_hang = fine_use.count({&a, face_of(dir, 0)}) || fine_use.count({&b, face_of(dir, 1)});
    if (!is_hang) {
      ++conf[{&a, face_of(dir, 0)}];
      ++conf[{&b, face_of(dir, 1)}];
      mon.checkf(a.refinement_level() == b.refinement_level(), "conformal-levels-equal", [&]{return name(a, nd) + " / " + name(b, nd) + " " + ctx;});
      auto va = face_verts(a, nd, face_of(dir, 0)), vb = face_verts(b, nd, face_of(dir, 1));
      mon.checkf(std::set<Vertex*>(va.begin(), va.end()) == std::set<Vertex*>(vb.begin(), vb.end()), "conformal-vertices-shared",
                 [&]{return "connected faces do not share their vertices: " + name(a, nd) + " / " + name(b, nd) + " " + ctx;});
      if (a.tree && b.tree) {
        Box fa = face_box(a, nd, face_of(dir, 0)), fb = face_box(b, nd, face_of(dir, 1));
        double tol = 1e-9*a.nominal_size();
        mon.checkf((fa.lo - fb.lo).norm() < tol && (fa.hi - fb.hi).norm() < tol, "connected-faces-coincide",
                   [&]{return name(a, nd) + fmt(" face %d / ", face_of(dir, 0)) + name(b, nd) + fmt(" face %d ", face_of(dir, 1)) + ctx;});
      }
    }
  }
  auto& bc = m.boundary_connections();
  long n_surf = 0;
  for (int i = 0; i < bc.size(); ++i) {
    auto& c = bc[i];
    int i_face = 2*c.i_dim() + c.inside_face_sign();
    ++bound[{&c.element(), i_face}];
    mon.checkf(all.count(&c.element()), "boundary-element-in-mesh", [&]{return ctx;});
    if (ts) {
      Element& e = c.element();
      int sn = c.bound_cond_serial_n();
      if (e.tree) {
        Box fb = face_box(e, nd, i_face);
        double plane = ts->origin(i_face/2) + (i_face%2)*ts->root;
        bool on_plane = std::abs(fb.lo(i_face/2) - plane) < 1e-9*e.nominal_size();
        mon.checkf(on_plane && sn == ts->tree_bc[i_face], "extremal-boundary-condition",
                   [&]{return name(e, nd) + fmt(" face %d has condition %d, distance to extremal plane %g ", i_face, sn, fb.lo(i_face/2) - plane) + ctx;});
      } else if (sn == ts->surf_bc) ++n_surf;
    }
  }
  // every face of every element has exactly one partner
  bool all_ok = true;
  std::string bad;
  for (Element* e : all) for (int f = 0; f < 2*nd; ++f) {
    auto get = [&](std::map<std::pair<Element*, int>, int>& mp) {auto it = mp.find({e, f}); return it == mp.end() ? 0 : it->second;};
    int n = get(bound) + get(conf) + get(coarse_use) + get(fine_use);
    if (n != 1) {all_ok = false; bad = name(*e, nd) + fmt(" face %d: %d boundary, %d conformal, %d coarse, %d fine", f, get(bound), get(conf), get(coarse_use), get(fine_use));}
  }
  mon.checkf(all_ok, "face-has-exactly-one-partner", [&]{return bad + " " + ctx;});
  mon.count("faces-checked", long(all.size())*2*nd);
  mon.count("hanging-connections", n_hang);
  mon.count("boundary-connections", bc.size());
  if (!ts) return;
  // tree elements: unique, disjoint, covering
  std::set<std::vector<int>> cells;
  int max_level = 0;
  double vol = 0;
  long n_tree = 0;
  for (Element* e : all) if (e->tree) {
    ++n_tree;
    auto p = e->nominal_position();
    p.resize(nd);
    p.insert(p.begin(), e->refinement_level());
    mon.checkf(cells.insert(p).second, "tree-cell-unique", [&]{return name(*e, nd) + " " + ctx;});
    vol += std::pow(e->nominal_size()/ts->root, nd);
    max_level = std::max(max_level, e->refinement_level());
    Tree* t = e->tree;
    mon.checkf(t->is_leaf() && t->elem.get() == e && t->refinement_level() == e->refinement_level(), "element-belongs-to-its-leaf", [&]{return name(*e, nd) + " " + ctx;});
    mon.checkf(std::abs(e->nominal_size() - ts->root/std::pow(2., e->refinement_level())) < 1e-12*ts->root, "nominal-size", [&]{return name(*e, nd) + " " + ctx;});
  }
  bool disjoint = true;
  for (auto c : cells) {
    while (c[0] > 0) {
      --c[0];
      for (int i = 0; i < nd; ++i) c[1 + i] = c[1 + i] >= 0 ? c[1 + i]/2 : -1;
      if (cells.count(c)) disjoint = false;
    }
  }
  mon.checkf(disjoint, "tree-cells-disjoint", [&]{return ctx;});
  bool in_root = true;
  for (auto& c : cells) for (int i = 0; i < nd; ++i) in_root = in_root && c[1 + i] >= 0 && c[1 + i] < (1 << c[0]);
  mon.checkf(in_root, "tree-cells-inside-root", [&]{return ctx;});
  if (ts->surf_bc < 0) {
    mon.checkf(std::abs(vol - 1) < 1e-12, "tree-cells-cover-root", [&]{return fmt("volume fraction %.15g ", vol) + ctx;});
    mon.checkf(n_tree == long(all.size()), "no-extruded-without-surface", [&]{return ctx;});
  } else {
    mon.count("surface-faces", n_surf);
    mon.count("extruded-elements", long(all.size()) - n_tree);
    // every element is separated from the surface by the documented buffer
    for (Element* e : all) if (e->tree) {
      double d = ts->surf.dist(elem_center(*e, nd)), need = m.buffer_dist*e->nominal_size();
      mon.checkf(d >= need*(1 - 1e-6), "buffer-from-surface", [&]{return name(*e, nd) + fmt(" is at distance %g of the surface, less than %g ", d, need) + ctx;});
    }
  }
}

//! where vertices have to be
inline void check_vertices(Monitor& mon, Accessible_mesh& m, int nd, const Tree_scene* ts, const std::string& ctx, bool positions = true)
{
  auto verts = m.vertices();
  std::map<Vertex*, int> uses;
  auto& elems = m.elements();
  for (int i = 0; i < elems.size(); ++i) for (int j = 0; j < (1 << nd); ++j) ++uses[&elems[i].vertex(j)];
  std::set<Vertex*> seen;
  bool once = true, used = true, mass = true;
  for (int i = 0; i < verts.size(); ++i) {
    Vertex* v = &verts[i];
    once = once && seen.insert(v).second;
    auto it = uses.find(v);
    used = used && it != uses.end();
    if (it != uses.end()) mass = mass && v->mass() == it->second;
  }
  mon.checkf(once, "vertex-listed-once", [&]{return ctx;});
  mon.checkf(used, "vertex-in-use", [&]{return "listed vertex belongs to no element " + ctx;});
  mon.checkf(seen.size() == uses.size(), "vertex-list-complete", [&]{return fmt("%zu listed, %zu in use ", seen.size(), uses.size()) + ctx;});
  mon.checkf(mass, "vertex-mass", [&]{return "mass of a vertex is not the number of element corners that share it " + ctx;});
  mon.count("vertices-checked", verts.size());
  if (!positions) return;
  // cartesian elements sit at their nominal position
  std::set<Vertex*> fixed;
  for (int i = 0; i < elems.size(); ++i) if (!elems[i].get_is_deformed()) {
    Element& e = elems[i];
    Mat<> c = elem_corner(e, nd);
    for (int j = 0; j < (1 << nd); ++j) {
      fixed.insert(&e.vertex(j));
      double err = 0;
      for (int d = 0; d < nd; ++d) err = std::max(err, std::abs(e.vertex(j).pos(d) - c(d) - e.nominal_size()*((j >> (nd - 1 - d)) & 1)));
      mon.close(err, 1e-11*(c.norm() + e.nominal_size()), "cartesian-vertex-nominal", name(e, nd) + " " + ctx);
    }
  }
  // hanging vertices lie on the coarse face
  std::map<Vertex*, std::set<Vertex*>> hang;
  std::map<Vertex*, std::pair<Element*, std::vector<Vertex*>>> center;
  double scale = 0;
  for_refined(m, [&](Element& coarse, std::vector<Element*> fine, Connection_direction dir, bool rev, bool) {
    auto cv = face_verts(coarse, nd, face_of(dir, rev));
    std::set<Vertex*> corners(cv.begin(), cv.end());
    std::map<Vertex*, std::set<Vertex*>> adj;
    for (Element* f : fine) {
      auto fv = face_verts(*f, nd, face_of(dir, !rev));
      for (int a = 0; a < int(fv.size()); ++a) if (!corners.count(fv[a])) {
        adj[fv[a]];
        for (int b = 1; b < int(fv.size()); b *= 2) if (corners.count(fv[a ^ b])) adj[fv[a]].insert(fv[a ^ b]);
      }
    }
    for (auto& p : adj) {
      Mat<3> expect = Mat<3>::Zero();
      int n = 0;
      if (p.second.empty()) {for (Vertex* v : cv) {expect += v->pos; ++n;}}
      else for (Vertex* v : p.second) {expect += v->pos; ++n;}
      expect /= n;
      mon.count(p.second.empty() ? "hanging-face-centers" : "hanging-edge-midpoints");
      mon.close((expect - p.first->pos).norm(), 1e-10*(coarse.nominal_size() + expect.norm()), "hanging-vertex-on-coarse-face",
                fmt("vertex (%g %g %g) of a fine face is not at the midpoint (%g %g %g) of the coarse face's corners, coarse ", p.first->pos(0), p.first->pos(1), p.first->pos(2), expect(0), expect(1), expect(2)) + name(coarse, nd) + " " + ctx);
      hang[p.first];
    }
  });
  if (!ts) return;
  // boundary vertices lie on their boundaries
  std::set<Vertex*> on_ext;
  auto& bc = m.boundary_connections();
  for (int i = 0; i < bc.size(); ++i) {
    auto& c = bc[i];
    int f = 2*c.i_dim() + c.inside_face_sign();
    for (int k = 0; k < 2*nd; ++k) if (c.bound_cond_serial_n() == ts->tree_bc[k]) for (Vertex* v : face_verts(c.element(), nd, f)) {
      on_ext.insert(v);
      double plane = ts->origin(k/2) + (k%2)*ts->root;
      if (!hang.count(v)) mon.close(v->pos(k/2) - plane, 1e-11*(ts->root + std::abs(plane)), "vertex-on-extremal-plane", name(c.element(), nd) + " " + ctx);
    }
  }
  if (ts->surf_bc >= 0) for (int i = 0; i < bc.size(); ++i) {
    auto& c = bc[i];
    int f = 2*c.i_dim() + c.inside_face_sign();
    if (c.bound_cond_serial_n() == ts->surf_bc) for (Vertex* v : face_verts(c.element(), nd, f)) if (!hang.count(v) && !on_ext.count(v)) {
      Mat<> p = v->pos.head(nd);
      mon.close(ts->surf.dist(p), 1e-7*ts->root, "vertex-on-surface", name(c.element(), nd) + " " + ctx);
      mon.count("surface-vertices");
    }
  }
  (void)scale;
}

}
#endif
