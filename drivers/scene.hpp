#ifndef VERIF_SCENE_HPP_
#define VERIF_SCENE_HPP_
// random meshes: trees with refinement histories, body-fitted tree meshes, and small manual meshes
#include "mon.hpp"
#include <Accessible_mesh.hpp>
#include <Simplex_geom.hpp>
#include <Surface_geom.hpp>
#include <Boundary_condition.hpp>
#include <Layer_sequence.hpp>
#include <criteria.hpp>
#include <memory>

namespace scene
{

using namespace hexed;
using mon::Rng;
using mon::fmt;

inline Mat<> vec(std::vector<double> v) {Mat<> m(int(v.size())); for (int i = 0; i < int(v.size()); ++i) m(i) = v[i]; return m;}

//! a surface that knows its own exact distance, independently of `Surface_geom`
struct Surf
{
  enum Kind {none, sphere, spheres, simplices} kind = none;
  int nd = 2;
  bool exterior = true; // is the fluid outside of the body?
  Mat<> center; double radius = 0;
  Mat<> center1; double radius1 = 0;
  std::vector<Mat<2, 2>> segs;
  std::vector<Mat<3, 3>> tris;
  std::string desc;

  static double seg_dist(const Mat<>& p, const Mat<>& a, const Mat<>& b)
  {
    Mat<> d = b - a;
    double l = d.squaredNorm();
    double t = l > 0 ? std::min(1., std::max(0., (p - a).dot(d)/l)) : 0;
    return (a + t*d - p).norm();
  }
  static double tri_dist(const Mat<>& p, const Mat<3, 3>& t)
  {
    double best = 1e300;
    for (int i = 0; i < 3; ++i) best = std::min(best, seg_dist(p, t.col(i), t.col((i + 1)%3)));
    Mat<3> e0 = t.col(1) - t.col(0), e1 = t.col(2) - t.col(0), n = e0.cross(e1);
    double a = n.norm();
    if (a > 1e-14*(e0.norm()*e1.norm() + 1e-300)) {
      Mat<3> q = p.head(3) - t.col(0);
      double h = q.dot(n)/a;
      Mat<3> f = q - h*n/a;
      // barycentric coordinates
      double u = f.cross(e1).dot(n)/a/a, v = e0.cross(f).dot(n)/a/a;
      if (u >= 0 && v >= 0 && u + v <= 1) best = std::min(best, std::abs(h));
    }
    return best;
  }
  //! unsigned distance to the surface
  double dist(Mat<> p) const
  {
    Mat<> q = p.head(nd);
    switch (kind) {
      case none: return 1e300;
      case sphere: return std::abs((q - center).norm() - radius);
      case spheres: return std::min(std::abs((q - center).norm() - radius), std::abs((q - center1).norm() - radius1));
      case simplices: {
        double d = 1e300;
        for (auto& s : segs) d = std::min(d, seg_dist(q, s.col(0), s.col(1)));
        for (auto& t : tris) d = std::min(d, tri_dist(q, t));
        return d;
      }
    }
    return 1e300;
  }
  //! a new geometry object for the library to own
  Surface_geom* make() const
  {
    switch (kind) {
      case sphere: return new Hypersphere(center, radius);
      case spheres: return new Compound_geom({new Hypersphere(center, radius), new Hypersphere(center1, radius1)});
      case simplices: if (nd == 2) return new Simplex_geom<2>(segs); else return new Simplex_geom<3>(tris);
      default: return nullptr;
    }
  }
};

//! closed polygon in `nd == 2`, closed triangulation in `nd == 3`, star-shaped around the center
inline Surf random_surface(Rng& rng, int nd, Mat<> origin, double size, int kind_limit = 4)
{
  Surf s;
  s.nd = nd;
  s.center = Mat<>(nd);
  s.exterior = rng.chance(.6);
  for (int i = 0; i < nd; ++i) s.center(i) = origin(i) + size*(.5 + rng.uniform(-.07, .07));
  s.radius = size*(s.exterior ? rng.uniform(.12, .24) : rng.uniform(.3, .42));
  int k = rng.below(kind_limit);
  if (k <= 1) {s.kind = Surf::sphere; s.desc = "sphere";}
  else if (k == 2 && s.exterior) {
    s.kind = Surf::spheres; s.desc = "two spheres";
    s.center1 = s.center;
    s.center(0) -= .2*size; s.center1(0) += .2*size;
    s.radius = size*rng.uniform(.08, .14); s.radius1 = size*rng.uniform(.08, .14);
  } else {
    s.kind = Surf::simplices;
    if (nd == 2) {
      int n = rng.range(3, 14);
      s.desc = fmt("polygon with %d sides", n);
      double phase = rng.uniform(0, 6.28);
      std::vector<Mat<2>> pts;
      double wob = rng.chance(.5) ? 0 : .15;
      for (int i = 0; i < n; ++i) {
        double a = phase + 2*M_PI*i/n, r = s.radius*(1 + rng.uniform(-wob, wob));
        pts.push_back(Mat<2>{s.center(0) + r*std::cos(a), s.center(1) + r*std::sin(a)});
      }
      for (int i = 0; i < n; ++i) {Mat<2, 2> sim; sim.col(0) = pts[i]; sim.col(1) = pts[(i + 1)%n]; s.segs.push_back(sim);}
    } else if (nd == 3) {
      // triangulated latitude/longitude surface of a sphere or ellipsoid
      int nlon = rng.range(4, 9), nlat = rng.range(3, 6);
      s.desc = fmt("triangulated ellipsoid %dx%d", nlon, nlat);
      Mat<3> ax {s.radius*rng.uniform(.85, 1.15), s.radius*rng.uniform(.85, 1.15), s.radius*rng.uniform(.85, 1.15)};
      double ph = rng.uniform(0, 6.28);
      auto pt = [&](int i, int j) {
        double th = M_PI*j/nlat, a = ph + 2*M_PI*(i%nlon)/nlon;
        return Mat<3>{s.center(0) + ax(0)*std::sin(th)*std::cos(a), s.center(1) + ax(1)*std::sin(th)*std::sin(a), s.center(2) + ax(2)*std::cos(th)};
      };
      for (int j = 0; j < nlat; ++j) for (int i = 0; i < nlon; ++i) {
        Mat<3, 3> t;
        if (j > 0) {t.col(0) = pt(i, j); t.col(1) = pt(i + 1, j); t.col(2) = pt(i, j + 1); s.tris.push_back(t);}
        else {t.col(0) = pt(0, 0); t.col(1) = pt(i, 1); t.col(2) = pt(i + 1, 1); s.tris.push_back(t); continue;}
        if (j < nlat - 1) {t.col(0) = pt(i + 1, j); t.col(1) = pt(i + 1, j + 1); t.col(2) = pt(i, j + 1); s.tris.push_back(t);}
      }
    }
  }
  s.desc += s.exterior ? ", flow outside" : ", flow inside";
  return s;
}

//! what `nominal position` means physically
inline Mat<> elem_corner(Element& e, int nd)
{
  Mat<> c(nd);
  auto np = e.nominal_position();
  for (int i = 0; i < nd; ++i) c(i) = e.origin(i) + np[i]*e.nominal_size();
  return c;
}
inline Mat<> elem_center(Element& e, int nd) {return elem_corner(e, nd) + Mat<>::Constant(nd, e.nominal_size()/2);}

inline uint64_t elem_hash(Element& e, int nd)
{
  uint64_t h = e.refinement_level() + 100;
  auto np = e.nominal_position();
  for (int i = 0; i < nd; ++i) h = mon::mix(h, uint64_t(np[i]) + 77);
  return h;
}

//! order-independent hash of the set of elements
inline uint64_t mesh_hash(Accessible_mesh& m, int nd)
{
  uint64_t h = 0;
  for (int i = 0; i < m.elements().size(); ++i) h += mon::mix(elem_hash(m.elements()[i], nd), m.elements()[i].get_is_deformed());
  return h;
}

typedef std::function<bool(Element&)> crit;

//! a random thread-safe, order-independent criterion
struct Criterion {crit f; std::string desc;};
inline Criterion random_criterion(Rng& rng, int nd, Mat<> origin, double size, int max_level)
{
  int k = rng.below(6);
  uint64_t salt = rng.next();
  Mat<> p(nd), n(nd);
  for (int i = 0; i < nd; ++i) {p(i) = origin(i) + size*rng.uniform(); n(i) = rng.uniform(-1, 1);}
  double r = size*rng.uniform(.05, .3);
  double frac = rng.uniform(.05, .5);
  auto cap = [max_level](Element& e) {return e.refinement_level() < max_level;};
  switch (k) {
    case 0: return {cap, "all"};
    case 1: case 2: return {[=](Element& e) {return cap(e) && mon::mix(elem_hash(e, nd), salt)%1000 < 1000*frac;}, fmt("random fraction %.2f", frac)};
    case 3: return {[=](Element& e) {return cap(e) && (elem_center(e, nd) - p).norm() < r;}, "near a point"};
    case 4: return {[=](Element& e) {return cap(e) && (elem_center(e, nd) - p).dot(n) > 0;}, "half space"};
    default: return {[=](Element& e) {return cap(e) && std::abs((elem_center(e, nd) - p).dot(n)) < e.nominal_size()*.6;}, "along a plane"};
  }
}

struct Tree_scene
{
  int nd, rs;
  double root;
  Mat<> origin;
  Surf surf;
  bool has_surf = false;
  Mat<> flood;
  std::vector<int> tree_bc;
  int surf_bc = -1;
  std::string log;
  int max_elems;
};

//! parameters of a random tree scene
inline Tree_scene tree_params(Rng& rng, int nd, bool want_surf)
{
  Tree_scene s;
  s.nd = nd;
  s.root = rng.pick(std::vector<double>{1., .3, 2.5, 100., .01});
  s.origin = Mat<>::Zero(3);
  if (rng.chance(.7)) for (int i = 0; i < nd; ++i) s.origin(i) = s.root*rng.uniform(-2, 2);
  s.has_surf = want_surf && nd > 1;
  s.max_elems = nd == 1 ? 60 : nd == 2 ? 500 : 700;
  if (s.has_surf) {
    s.surf = random_surface(rng, nd, s.origin, s.root);
    s.flood = Mat<>(nd);
    for (int i = 0; i < nd; ++i) s.flood(i) = s.surf.exterior ? s.origin(i) + s.root*.01 : s.surf.center(i) + .001*s.root;
  }
  s.log = fmt("nd=%d root=%g origin=(%g,%g,%g)%s%s", nd, s.root, s.origin(0), s.origin(1), s.origin(2), s.has_surf ? " surface: " : "", s.surf.desc.c_str());
  return s;
}

typedef std::function<Flow_bc*(int)> bc_maker;
inline Flow_bc* copy_bc(int) {return new Copy;}

//! initial tree, uniform levels and surface
inline void start_tree(Rng& rng, Accessible_mesh& m, Tree_scene& s, bc_maker make_bc = copy_bc)
{
  std::vector<Flow_bc*> bcs;
  for (int i = 0; i < 2*s.nd; ++i) bcs.push_back(make_bc(i));
  m.add_tree(bcs, s.origin);
  for (int i = 0; i < 2*s.nd; ++i) s.tree_bc.push_back(i);
  int levels = s.has_surf ? (s.nd == 2 ? rng.range(3, 4) : 3) : rng.range(0, s.nd == 3 ? 1 : 2);
  for (int i = 0; i < levels; ++i) m.update();
  s.log += fmt("; %d uniform levels", levels);
  if (s.has_surf) {
    m.set_surface(s.surf.make(), make_bc(2*s.nd), s.flood);
    s.surf_bc = m.surface_bc_sn();
    s.log += "; set_surface";
  }
}

//! one random adaptation; returns what `update` returned
struct Adapt {crit ref, unref; std::string desc;};
inline Adapt random_adapt(Rng& rng, Accessible_mesh& m, Tree_scene& s)
{
  int n = m.n_elements();
  int max_level = s.has_surf ? (s.nd == 2 ? 6 : 4) : (s.nd == 3 ? 4 : 7);
  auto r = random_criterion(rng, s.nd, s.origin, s.root, max_level);
  auto u = random_criterion(rng, s.nd, s.origin, s.root, 100);
  Adapt a;
  bool only_ref = rng.chance(.4), only_unref = !only_ref && rng.chance(.25);
  if (n > s.max_elems) {only_unref = true; only_ref = false; u = {criteria::always, "all"};}
  else if (n > s.max_elems/3 && r.desc == "all") r = {[p = elem_center(m.elements()[rng.below(n)], s.nd), nd = s.nd, max_level](Element& e) {return e.refinement_level() < max_level && (elem_center(e, nd) - p).norm() < 1e-6*e.nominal_size();}, "one element"};
  a.ref = only_unref ? crit(criteria::never) : r.f;
  a.unref = only_ref ? crit(criteria::never) : u.f;
  a.desc = std::string("update(") + (only_unref ? "never" : r.desc) + ", " + (only_ref ? "never" : u.desc) + ")";
  s.log += "; " + a.desc;
  return a;
}

}
#endif
