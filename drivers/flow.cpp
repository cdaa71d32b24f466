// monitors of the flow solver: discrete metrics, conservation, free stream
#include "flow.hpp"
#include "meshmon.hpp"
#include <Gauss_legendre.hpp>
#include <limits>
#include <config.hpp>

using namespace scene;
using mon::Monitor;

static int max_rs = config::max_row_size;
static uint64_t scene_hash(Flow_scene& s) {return mon::mix(mon::hash_str(s.desc), s.mesh->n_elements());}

static double h_of(Element& e) {return e.nominal_size();}

//! integral over the domain of R (a quantity stored like the state)
static Mat<> total(Flow_scene& s, double* (Element::*what)(), Mat<>* abs = nullptr)
{
  Gauss_legendre basis(s.rs);
  Mat<> w = math::pow_outer(basis.node_weights(), s.nd);
  int nq = s.nq(), nv = s.nd + 2;
  Mat<> sum = Mat<>::Zero(nv);
  if (abs) abs->setZero(nv);
  for (int i = 0; i < s.elems().size(); ++i) {
    auto& e = s.elems()[i];
    double hd = math::pow(h_of(e), s.nd);
    double* d = (e.*what)();
    for (int v = 0; v < nv; ++v) for (int q = 0; q < nq; ++q) {
      double x = w(q)*hd*e.jacobian_determinant(q)*d[v*nq + q];
      sum(v) += x;
      if (abs) (*abs)(v) += std::abs(x);
    }
  }
  return sum;
}

//! Mat (nv) of analytic inviscid flux of conserved state u through normal n (not unit)
static Mat<> euler_flux(Mat<> u, Mat<> n)
{
  int nd = n.size();
  double p = .4*(u(nd + 1) - .5*u.head(nd).squaredNorm()/u(nd));
  double vn = u.head(nd).dot(n)/u(nd);
  Mat<> f(nd + 2);
  f.head(nd) = u.head(nd)*vn + p*n;
  f(nd) = u(nd)*vn;
  f(nd + 1) = (u(nd + 1) + p)*vn;
  return f;
}
static double char_speed(Mat<> u)
{
  int nd = u.size() - 2;
  return u.head(nd).norm()/u(nd) + std::sqrt(1.4*.4*u(nd + 1)/u(nd));
}
static Mat<> llf(Mat<> in, Mat<> gh, Mat<> n)
{
  return .5*(euler_flux(in, n) + euler_flux(gh, n)) + .5*n.norm()*std::max(char_speed(in), char_speed(gh))*(in - gh);
}

//! integral over the boundary of the outward numerical flux
static Mat<> boundary_flux(Flow_scene& s, bool viscous, Mat<>* abs)
{
  Gauss_legendre basis(s.rs);
  Mat<> w = math::pow_outer(basis.node_weights(), s.nd - 1);
  int nfq = s.nq()/s.rs, nv = s.nd + 2;
  Mat<> sum = Mat<>::Zero(nv);
  abs->setZero(nv);
  auto& bc = s.mesh->boundary_connections();
  for (int i = 0; i < bc.size(); ++i) {
    auto it = s.log.find(&bc[i]);
    if (it == s.log.end()) throw std::runtime_error("boundary face without a recorded boundary condition");
    auto& r = it->second;
    double a = math::pow(h_of(bc[i].element()), s.nd - 1);
    double sg = r.sign ? 1 : -1;
    for (int q = 0; q < nfq; ++q) {
      Mat<> in(nv), gh(nv), n(s.nd);
      for (int v = 0; v < nv; ++v) {in(v) = r.in[v*nfq + q]; gh(v) = r.gh[v*nfq + q];}
      for (int d = 0; d < s.nd; ++d) n(d) = sg*r.nrml[d*nfq + q];
      Mat<> f = llf(in, gh, n);
      if (viscous) for (int v = 0; v < nv; ++v) f(v) += .5*sg*(r.fin[v*nfq + q] + r.fgh[v*nfq + q]);
      for (int v = 0; v < nv; ++v) {
        sum(v) += w(q)*a*f(v);
        (*abs)(v) += w(q)*a*(std::abs(f(v)) + n.norm()*char_speed(in)*(std::abs(in(v)) + std::abs(gh(v))));
      }
    }
  }
  return sum;
}

static Scene_opts random_opts(Rng& rng, Flow_field*& field, bool allow_ldg = true)
{
  Scene_opts o;
  o.nd = rng.chance(.15) ? 1 : rng.chance(.5) ? 2 : 3;
  o.rs = rng.range(2, max_rs);
  if (o.nd == 1) o.kind = rng.chance(.3) ? "periodic" : "tree";
  else o.kind = rng.pick(std::vector<std::string>{"block", "block", "tree", "surf", "surf", "periodic"});
  o.size = o.nd == 3 ? 2 : rng.range(2, 4);
  if (o.size == 2 && o.kind == "periodic") o.size = 3;
  return o;
}

// ---------------------------------------------------------------- discrete metrics
static void run_metric(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Flow_field* ff = nullptr;
    Scene_opts o = random_opts(rng, ff);
    if (o.nd > 1 && o.kind == "periodic") o.kind = "surf";
    o.bc = [](int, std::string& n) {n = "copy"; return new Copy;};
    m.phase("make scene");
    auto sp = make_scene(rng, o);
    auto& s = *sp;
    int nd = s.nd, rs = s.rs, nq = s.nq(), nfq = nq/rs;
    Gauss_legendre basis(rs);
    Mat<> w = math::pow_outer(basis.node_weights(), nd), wf = math::pow_outer(basis.node_weights(), nd - 1);
    Mat<dyn, dyn> diff = basis.diff_mat();
    double vol = 0;
    long bad = 0;
    std::set<std::pair<Element*, int>> fine_face;
    for_refined(*s.mesh, [&](Element&, std::vector<Element*> fine, Connection_direction dir, bool rev, bool) {
      for (auto* fe : fine) fine_face.insert({fe, face_of(dir, !rev)});
    });
    for (int i = 0; i < s.elems().size(); ++i) {
      auto& e = s.elems()[i];
      double h = h_of(e);
      Mat<dyn, dyn> pos(nq, nd);
      for (int q = 0; q < nq; ++q) {auto p = e.position(basis, q); for (int d = 0; d < nd; ++d) pos(q, d) = p[d];}
      std::vector<Mat<dyn, dyn>> jac(nq, Mat<dyn, dyn>(nd, nd));
      for (int d = 0; d < nd; ++d) for (int k = 0; k < nd; ++k) {
        Mat<> c = math::dimension_matvec(diff, Mat<>(pos.col(d)), k)/h;
        for (int q = 0; q < nq; ++q) jac[q](d, k) = c(q);
      }
      double magn = pos.rowwise().norm().maxCoeff()/h;
      for (int q = 0; q < nq; ++q) {
        double det = jac[q].determinant();
        vol += w(q)*math::pow(h, nd)*e.jacobian_determinant(q);
        bad += !(e.jacobian_determinant(q) > 0);
        m.worst(e.jacobian_determinant(q) - det, 1e-11*(1 + magn)*(1 + std::pow(jac[q].norm(), nd)), "determinant", [&]() {return s.desc;});
        for (int d = 0; d < nd; ++d) for (int k = 0; k < nd; ++k)
          m.worst(e.jacobian(d, k, q) - jac[q](d, k), 1e-10*(1 + magn)*(1 + std::pow(jac[q].norm(), 2*nd - 1)/std::abs(det)), "jacobian", [&]() {return s.desc;});
        if (e.get_is_deformed()) for (int d = 0; d < nd; ++d) for (int k = 0; k < nd; ++k) {
          Mat<dyn, dyn> c = jac[q];
          c.col(d).setUnit(k);
          m.worst(e.reference_level_normals()[(d*nd + k)*nq + q] - c.determinant(), 1e-11*(1 + magn)*(1 + std::pow(jac[q].norm(), nd - 1)), "level-normal", [&]() {return s.desc;});
        }
      }
      // the closed surface of an element has no net area vector
      Mat<> area = Mat<>::Zero(nd);
      double tot = 0;
      // area vectors of the faces of the element itself
      std::vector<Mat<dyn, dyn>> own(2*nd, Mat<dyn, dyn>(nfq, nd));
      for (int f = 0; f < 2*nd; ++f) {
        Mat<dyn, dyn> bm = basis.boundary().row(f%2);
        std::vector<Mat<>> col;
        for (int d = 0; d < nd; ++d) for (int k = 0; k < nd; ++k) {
          Mat<> c = math::dimension_matvec(diff, Mat<>(pos.col(d)), k)/h;
          col.push_back(math::dimension_matvec(bm, c, f/2));
        }
        for (int q = 0; q < nfq; ++q) {
          Mat<dyn, dyn> jc(nd, nd);
          for (int d = 0; d < nd; ++d) for (int k = 0; k < nd; ++k) jc(d, k) = col[d*nd + k](q);
          for (int k = 0; k < nd; ++k) {Mat<dyn, dyn> c = jc; c.col(f/2).setUnit(k); own[f](q, k) = c.determinant();}
        }
      }
      for (int f = 0; f < 2*nd; ++f) {
        double* fn = e.get_is_deformed() ? static_cast<Deformed_element&>(e).face_normal(f) : nullptr;
        double err = 0;
        for (int q = 0; q < nfq; ++q) for (int d = 0; d < nd; ++d) err = std::max(err, std::abs((fn ? fn[d*nfq + q] : d == f/2) - own[f](q, d)));
        // the product of the tangents of a curved 3D face can exceed the polynomial degree of the normal, which the fine side of a hanging face takes from the coarse side
        if (s.warped && nd == 3 && rs > 3 && fine_face.count({&e, f})) {m.count("fine-curved-faces"); continue;}
        m.worst(err, 1e-10*(1 + magn), "own-normal" + std::string(s.warped ? "-warped" : "") + fmt("-%dd", nd), [&]() {return s.desc + fmt(" %s face %d fn %d", name(e, nd).c_str(), f, bool(fn));});
      }
      for (int f = 0; f < 2*nd; ++f) for (int q = 0; q < nfq; ++q) {
        Mat<> n(nd);
        double* fn = e.get_is_deformed() ? static_cast<Deformed_element&>(e).face_normal(f) : nullptr;
        for (int d = 0; d < nd; ++d) n(d) = (fn ? fn[d*nfq + q] : d == f/2)*(f%2 ? 1 : -1);
        area += wf(q)*n; tot += wf(q)*n.norm();
      }
      m.worst(area.norm(), 1e-11*(1 + magn)*tot, (s.kind == "surf" ? "closed-element-surf" : "closed-element") + std::string(s.warped ? "-warped" : "") + fmt("-%dd", nd) + (rs == 2 ? "-rs2" : ""), [&]() {return s.desc;});
    }
    m.count("nonpositive-determinants", bad);
    // both sides of every connection agree on where the face is
    auto con = [&](Element& a, int fa, Element& b, int fb, Connection_direction dir, std::string kind) {
      std::vector<double> pb(nd*nfq), pa(nd*nfq);
      for (int q = 0; q < nfq; ++q) {
        auto x = a.face_position(basis, fa, q), y = b.face_position(basis, fb, q);
        for (int d = 0; d < nd; ++d) {pa[d*nfq + q] = x[d]; pb[d*nfq + q] = y[d];}
      }
      double worst = 0;
      // match as sets: every point of one side is one of the other
      for (int q = 0; q < nfq; ++q) {
        double best = 1e300;
        for (int r = 0; r < nfq; ++r) {double d2 = 0; for (int d = 0; d < nd; ++d) d2 += std::pow(pa[d*nfq + q] - pb[d*nfq + r], 2); best = std::min(best, d2);}
        worst = std::max(worst, std::sqrt(best));
      }
      m.worst(worst, 1e-10*s.root*20, "watertight-" + kind + (s.warped ? "-warped" : ""), [&]() {return s.desc;});
    };
    std::set<std::pair<Element*, Element*>> hang;
    for_refined(*s.mesh, [&](Element& coarse, std::vector<Element*> fine, Connection_direction dir, bool rev, bool def) {
      int fc = face_of(dir, rev), ff = face_of(dir, !rev);
      for (auto* fe : fine) {
        hang.insert({&coarse, fe}); hang.insert({fe, &coarse});
        if (!def) continue;
        Mat<dyn, dyn> pc(nfq, nd), pf(nfq, nd);
        for (int q = 0; q < nfq; ++q) {
          auto x = coarse.face_position(basis, fc, q), y = fe->face_position(basis, ff, q);
          for (int d = 0; d < nd; ++d) {pc(q, d) = x[d]; pf(q, d) = y[d];}
        }
        // the fine face must be some axis-aligned part of the coarse face, in some orientation
        double best = 1e300;
        int no = nd == 2 ? 6 : 72;
        for (int c = 0; c < no && best > 1e-9*s.root; ++c) {
          int perm = nd == 2 ? 0 : c/36, cc = c%36;
          int part[2] {cc%3, nd == 2 ? 0 : (cc/6)%3}, flip[2] {(cc/3)%2, nd == 2 ? 0 : cc/18};
          std::vector<Mat<dyn, dyn>> ip;
          for (int t = 0; t < nd - 1; ++t) {
            Mat<> x = basis.nodes();
            if (flip[t]) x = Mat<>(Mat<>::Ones(rs) - x);
            if (part[t] < 2) x = .5*x + Mat<>::Constant(rs, .5*part[t]);
            ip.push_back(basis.interpolate(x));
          }
          Mat<dyn, dyn> got(nfq, nd);
          for (int d = 0; d < nd; ++d) {
            Mat<> v = pc.col(d);
            for (int t = 0; t < nd - 1; ++t) v = math::dimension_matvec(ip[t], v, t);
            if (perm) {Mat<> z = v; for (int a = 0; a < rs; ++a) for (int b = 0; b < rs; ++b) z(a*rs + b) = v(b*rs + a); v = z;}
            got.col(d) = v;
          }
          best = std::min(best, (got - pf).rowwise().norm().maxCoeff());
        }
        m.worst(best, 1e-10*s.root*20, fmt("watertight-hanging-%dd%s", nd, s.warped ? fmt("-warped-n%d-rev%d", int(fine.size()), int(rev)).c_str() : ""), [&]() {return s.desc;});
      }
    });
    auto& dc = s.mesh->deformed().element_connections();
    for (int i = 0; i < dc.size(); ++i) {
      if (hang.count({&dc[i].element(0), &dc[i].element(1)})) continue;
      auto dir = dc[i].get_direction();
      con(dc[i].element(0), face_of(dir, 0), dc[i].element(1), face_of(dir, 1), dir, fmt("conformal-%dd", nd));
    }
    // volume of the cells against the volume enclosed by the boundary (exact quadrature for straight edges)
    if (!s.warped && s.kind != "periodic") {
      double sum = 0, encl = 0, mag = 0;
      Mat<> c = mesh_origin(s);
      for (int i = 0; i < s.elems().size(); ++i) {
        auto& e = s.elems()[i];
        for (int q = 0; q < nq; ++q) sum += w(q)*e.jacobian_determinant(q)*std::pow(h_of(e), nd);
      }
      auto& bc = s.mesh->boundary_connections();
      for (int i = 0; i < bc.size(); ++i) {
        auto& e = bc[i].element();
        int f = 2*bc[i].i_dim() + bc[i].inside_face_sign();
        double* fn = e.get_is_deformed() ? static_cast<Deformed_element&>(e).face_normal(f) : nullptr;
        for (int q = 0; q < nfq; ++q) {
          auto x = e.face_position(basis, f, q);
          for (int d = 0; d < nd; ++d) {
            double t = (x[d] - c(d))*(fn ? fn[d*nfq + q] : d == f/2)*(f%2 ? 1 : -1)*wf(q)*std::pow(h_of(e), nd - 1)/nd;
            encl += t; mag += std::abs(t);
          }
        }
      }
      m.close(sum - encl, 1e-11*(std::abs(sum) + mag), "volume", s.desc);
    }
    m.flush_worst();
    m.evaluated(scene_hash(s));
    m.count(s.warped ? "warped-meshes" : "straight-meshes");
    m.sample(s.desc);
  });
}

// ---------------------------------------------------------------- conservation
static void run_cons(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Flow_field* ff = nullptr;
    Scene_opts o = random_opts(rng, ff);
    Flow_field f = random_field(rng, o.nd, 1, Mat<>::Zero(3));
    bool closed = o.kind == "periodic" || rng.chance(.3);
    bool visc = rng.chance(.5);
    o.bc = [&](int, std::string& name) -> Flow_bc* {
      if (closed) {name = "nonpenetration"; return new Nonpenetration;}
      return random_bc(rng, f, name);
    };
    f.len = o.kind == "block" ? .3 : .3;
    if (visc) o.transport = [&](double root, bool cond) {return random_transport(rng, f, root, cond);};
    m.phase("make scene");
    auto sp = make_scene(rng, o);
    auto& s = *sp;
    f.len = s.root*.4;
    // make the transport coefficients fit the scale
    f.org = Mat<3>::Zero();
    if (rng.chance(.4)) f.rough = rng.uniform(.02, .2);
    s.sol->nspace().assign("use_filter", int(rng.chance(.25)));
    s.sol->initialize(f);
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    m.phase("residual");
    s.record(true);
    s.sol->compute_residual();
    s.record(false);
    Mat<> ares, aflux;
    Mat<> res = total(s, &Element::residual_cache, &ares);
    Mat<> flux = boundary_flux(s, s.has_ldg, &aflux);
    std::string ctx = s.desc + fmt(", rough %.2f mach %g filter %d", f.rough, f.mach, s.sol->nspace().lookup<int>("use_filter").value());
    Mat<> sc = state_scale(f);
    double speed = f.sound()*(1 + f.mach);
    for (int v = 0; v < s.nd + 2; ++v) {
      double tol = 1e-11*(ares(v) + aflux(v) + 1e-3*sc(v)*speed*math::pow(s.root, s.nd - 1));
      m.close(res(v) + flux(v), tol, s.has_ldg ? "residual-total-viscous" : "residual-total-inviscid", ctx + fmt(" var %d total %g flux %g", v, res(v), flux(v)));
    }
    m.count("boundary-faces", s.mesh->boundary_connections().size());
    if (closed) {
      for (int v = s.nd; v < s.nd + 2; ++v) m.close(flux(v), 1e-11*aflux(v) + 1e-300, "wall-flux", ctx);
      m.phase("updates");
      Mat<> at;
      Mat<> t0 = total(s, &Element::state, &at);
      int n = rng.range(1, 4);
      for (int i = 0; i < n; ++i) {
        s.sol->update();
        if (!healthy(s)) {m.count("stopped-unphysical"); m.evaluated(scene_hash(s)); return;}
      }
      Mat<> t1 = total(s, &Element::state);
      double dt = s.sol->nspace().lookup<double>("time_step").value();
      for (int v = s.kind == "periodic" ? 0 : s.nd; v < s.nd + 2; ++v) m.close(t1(v) - t0(v), 1e-11*at(v) + 1e-12*sc(v)*math::pow(s.root, s.nd), "closed-total", ctx + fmt(" var %d dt %g", v, dt));
      m.count("updates-closed", n);
    }
    m.count(s.has_ldg ? "viscous" : "inviscid");
    m.count("scene-" + s.kind);
    m.evaluated(scene_hash(s));
    m.sample(ctx);
  });
}

// ---------------------------------------------------------------- uniform flow
static void run_free(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Flow_field* ff = nullptr;
    Scene_opts o = random_opts(rng, ff);
    Flow_field f = random_field(rng, o.nd, 1, Mat<>::Zero(3));
    f.amp = 0;
    o.bc = [&](int, std::string& name) -> Flow_bc* {
      switch (rng.below(f.mach == 0 ? 6 : 4)) {
        case 0: name = "freestream"; return new Freestream(f.mean());
        case 1: name = "characteristic"; return new Riemann_invariants(f.mean());
        case 2: name = "pressure_outflow"; return new Pressure_outflow(f.p);
        case 3: name = "copy"; return new Copy;
        case 4: name = "nonpenetration"; return new Nonpenetration;
        default: name = "no_slip"; return new No_slip(std::make_shared<Prescribed_heat_flux>(0));
      }
    };
    if (rng.chance(.5)) o.transport = [&](double root, bool cond) {return random_transport(rng, f, root, cond);};
    o.global_dt = rng.chance(.5);
    m.phase("make scene");
    auto sp = make_scene(rng, o);
    auto& s = *sp;
    s.sol->initialize(f);
    if (!healthy(s)) {m.count("skipped-inverted-cells"); return;}
    Mat<> sc = state_scale(f);
    double speed = f.sound()*(1 + f.mach);
    std::string cls = fmt("%dd", s.nd) + (s.warped ? "-warped" : "") + (s.rs == 2 ? "-rs2" : "") + (s.has_ldg ? "-visc" : "");
    m.phase("residual");
    s.sol->compute_residual();
    int nq = s.nq();
    // The metric terms of curved 3D cells are products that exceed the polynomial degree of the basis once the faces are more than linear,
    // so there the scheme only keeps a uniform flow up to its truncation error.
    bool trunc = s.warped && s.nd == 3 && s.rs > 3;
    m.count(trunc ? "truncation-limited" : "exact");
    if (trunc) {for (int i = 0; i < s.elems().size(); ++i) for (int k = 0; k < s.nq()*(s.nd + 2); ++k) m.check(std::isfinite(s.elems()[i].residual_cache()[k]), "finite", s.desc); return;}
    Mat<> ref = f.mean();
    for (int i = 0; i < s.elems().size(); ++i) for (int v = 0; v < s.nd + 2; ++v) for (int q = 0; q < nq; ++q) {
      auto& e = s.elems()[i];
      m.close(e.residual_cache()[v*nq + q]*h_of(e)*e.jacobian_determinant(q)/(sc(v)*speed), 1e-10, "residual-" + cls, s.desc);
      if (m.viols.size() > 3) return;
    }
    int n = rng.range(1, 3);
    for (int i = 0; i < n; ++i) s.sol->update();
    for (int i = 0; i < s.elems().size(); ++i) for (int v = 0; v < s.nd + 2; ++v) for (int q = 0; q < nq; ++q) {
      auto& e = s.elems()[i];
      m.close((e.state()[v*nq + q] - ref(v))/sc(v), 1e-7, "state-" + cls, s.desc);
    }
    m.evaluated(scene_hash(s));
    m.sample(s.desc);
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "metric") run_metric(m);
  else if (m.mode == "cons") run_cons(m);
  else if (m.mode == "free") run_free(m);
  else return 2;
  return m.finish();
}
