// monitors of symmetry: the same physical problem described in different ways must have the same solution
#include "flow.hpp"
#include "meshmon.hpp"
#include <Qpoint_func.hpp>
#include <Domain_func.hpp>

using namespace scene;
using mon::Monitor;

static int max_rs = config::max_row_size;

//! a map of space y = L Q (x - c) + c + t, and units of density and velocity
struct Xform
{
  int nd;
  Mat<dyn, dyn> Q; Mat<> c, t;
  double L = 1, R = 1, V = 1;
  std::string desc;
  Mat<> fwd(const Mat<>& x) const {return L*(Q*(x.head(nd) - c)) + c + t;}
  Mat<> inv(const Mat<>& y) const {return Q.transpose()*(y.head(nd) - c - t)/L + c;}
  //! conserved variables or their residuals (per unit of time `T`)
  Mat<> state(const Mat<>& u, double per_time = 0) const
  {
    Mat<> w(nd + 2);
    w.head(nd) = R*V*(Q*u.head(nd)); w(nd) = R*u(nd); w(nd + 1) = R*V*V*u(nd + 1);
    if (per_time) w *= V/L;
    return w;
  }
};

//! the transformed flow; `mean` and friends of the base class use the transformed parameters
struct Xflow : public Flow_field
{
  const Flow_field* orig; const Xform* x;
  std::vector<double> operator()(std::vector<double> pos, double t) const override
  {
    Mat<> p = x->inv(Eigen::Map<Mat<>>(pos.data(), nd));
    auto u = (*orig)(std::vector<double>(p.data(), p.data() + nd), t);
    Mat<> w = x->state(Eigen::Map<Mat<>>(u.data(), nd + 2));
    return std::vector<double>(w.data(), w.data() + nd + 2);
  }
};
static Xflow transformed(const Flow_field& f, const Xform& x)
{
  Xflow g; static_cast<Flow_field&>(g) = f;
  g.orig = &f; g.x = &x;
  Mat<> d = x.Q*f.dir.head(x.nd); g.dir.setZero(); g.dir.head(x.nd) = d;
  g.rho = f.rho*x.R; g.p = f.p*x.R*x.V*x.V;
  return g;
}

static Flow_bc* any_bc(uint64_t seed, const Flow_field& f, std::string& name, bool units)
{
  Rng r(seed);
  double c = f.sound();
  switch (r.below(8)) {
    case 0: name = "freestream"; return new Freestream(f.mean());
    case 1: name = "characteristic"; return new Riemann_invariants(f.mean());
    case 2: name = "pressure_outflow"; return new Pressure_outflow(f.p*r.uniform(.6, 1.5));
    case 3: name = "nonpenetration"; return new Nonpenetration;
    case 4: {
      std::shared_ptr<Thermal_bc> t;
      switch (r.below(3)) {
        case 0: t = std::make_shared<Prescribed_heat_flux>(f.p*c*r.uniform(-.1, .1)); name = "no_slip heat flux"; break;
        case 1: t = std::make_shared<Prescribed_energy>(f.p/f.rho/.4*r.uniform(.7, 1.5)); name = "no_slip isothermal"; break;
        default: {auto e = std::make_shared<Thermal_equilibrium>(); e->emissivity = units ? 0 : r.uniform(0, 1); e->heat_transfer_coef = r.uniform(0, f.rho*c); e->temperature = f.p/f.rho/constants::specific_gas_air; name = "no_slip equilibrium"; t = e;}
      }
      return new No_slip(t, 2.);
    }
    case 5: name = "copy"; return new Copy;
    case 6: name = "outflow"; return new Outflow;
    default: {name = "freestream2"; Flow_field g = f; g.mach = r.uniform(0, 2); return new Freestream(g.mean());}
  }
}

static double min_size(Flow_scene& s)
{
  double h = 1e300;
  for (int i = 0; i < s.elems().size(); ++i) {
    auto& e = s.elems()[i];
    for (int q = 0; q < s.nq(); ++q) {
      // smallest length scale: determinant over the largest face area
      double det = e.jacobian_determinant(q), big = 0;
      Mat<dyn, dyn> J(s.nd, s.nd); for (int a = 0; a < s.nd; ++a) for (int b = 0; b < s.nd; ++b) J(a, b) = e.jacobian(a, b, q);
      Mat<dyn, dyn> A = J.inverse()*det;
      for (int a = 0; a < s.nd; ++a) big = std::max(big, A.row(a).norm());
      h = std::min(h, e.nominal_size()*det/big);
    }
  }
  return h;
}

struct Match {std::vector<int> elem; std::vector<std::vector<int>> qp; bool ok = true; std::string why; double dist = 0;};
//! which element and point of `b` is the image of each element and point of `a`
static Match match(Flow_scene& a, Flow_scene& b, const Xform& x)
{
  Match mt;
  Gauss_legendre basis(a.rs);
  int n = a.elems().size(), nq = a.nq(), nd = a.nd;
  if (b.elems().size() != n) {mt.ok = false; mt.why = fmt("%d elements against %d", n, int(b.elems().size())); return mt;}
  auto pts = [&](Element& e, auto f) {std::vector<Mat<>> p; for (int q = 0; q < nq; ++q) {auto v = e.position(basis, q); p.push_back(f(Mat<>(Eigen::Map<Mat<>>(v.data(), nd))));} return p;};
  std::vector<std::vector<Mat<>>> pb;
  std::vector<Mat<>> cb;
  for (int i = 0; i < n; ++i) {pb.push_back(pts(b.elems()[i], [](Mat<> p) {return p;})); Mat<> c = Mat<>::Zero(nd); for (auto& p : pb.back()) c += p/nq; cb.push_back(c);}
  std::set<int> used;
  for (int i = 0; i < n; ++i) {
    auto& e = a.elems()[i];
    auto pa = pts(e, [&](Mat<> p) {return x.fwd(p);});
    Mat<> c = Mat<>::Zero(nd); for (auto& p : pa) c += p/nq;
    double tol = 1e-7*e.nominal_size()*x.L, best = 1e300; int bi = -1;
    for (int j = 0; j < n; ++j) {double d = (cb[j] - c).norm(); if (d < best) {best = d; bi = j;}}
    if (best > tol || !used.insert(bi).second) {mt.ok = false; mt.why = fmt("element %d: nearest image %g away", i, best/e.nominal_size()/x.L); return mt;}
    std::vector<int> qs; std::set<int> uq;
    for (int q = 0; q < nq; ++q) {
      int k = -1; double bd = 1e300;
      for (int r = 0; r < nq; ++r) {double d = (pb[bi][r] - pa[q]).norm(); if (d < bd) {bd = d; k = r;}}
      if (bd > tol || !uq.insert(k).second) {mt.ok = false; mt.why = fmt("element %d point %d: %g away", i, q, bd/e.nominal_size()/x.L); return mt;}
      qs.push_back(k); mt.dist = std::max(mt.dist, bd/(e.nominal_size()*x.L));
    }
    mt.elem.push_back(bi); mt.qp.push_back(qs);
  }
  return mt;
}

static void compare_solutions(Monitor& m, Rng& rng, Flow_scene& a, Flow_scene& b, const Flow_field& f, const Xflow& g, const Xform& x, const std::string& kind, double cond)
{
  std::string ctx = kind + ": " + x.desc + "; " + a.desc;
  int nd = a.nd, nv = nd + 2, nq = a.nq();
  m.phase("initialize");
  a.sol->initialize(f); b.sol->initialize(g);
  if (!healthy(a)) {m.count("skipped-unphysical"); return;}
  if (!m.check(healthy(b), "health", ctx + ": only one description of the problem is healthy")) return;
  Match mt = match(a, b, x);
  if (!m.checkf(mt.ok, "mesh-" + kind, [&]{return ctx + ": the meshes do not correspond: " + mt.why;})) return;
  double h = min_size(a), c = f.sound()*(1 + f.mach + f.amp*3);
  Mat<> sc = x.state(Mat<>::Ones(nv));
  {Mat<> s0 = state_scale(f); for (int v = 0; v < nv; ++v) sc(v) = s0(v)*(v < nd ? x.R*x.V : v == nd ? x.R : x.R*x.V*x.V);}
  // rates: fluxes over the smallest length, and diffusion
  double rate = 3*c/h;
  if (a.has_ldg) rate += f.sound()*a.root/20/(h*h)*3;
  rate *= a.rs*a.rs;
  auto compare = [&](const char* what, bool residual, double tol) {
    double worst = 0; std::string msg;
    for (int i = 0; i < a.elems().size(); ++i) {
      auto& ea = a.elems()[i]; auto& eb = b.elems()[mt.elem[i]];
      for (int q = 0; q < nq; ++q) {
        Mat<> ua(nv), ub(nv);
        int r = mt.qp[i][q];
        for (int v = 0; v < nv; ++v) {
          ua(v) = residual ? ea.residual_cache()[v*nq + q]/ea.time_step_scale()[q] : ea.state()[v*nq + q];
          ub(v) = residual ? eb.residual_cache()[v*nq + r]/eb.time_step_scale()[r] : eb.state()[v*nq + r];
        }
        Mat<> w = x.state(ua, residual);
        for (int v = 0; v < nv; ++v) {
          double e = std::abs(ub(v) - w(v))/(sc(v)*(residual ? rate*x.V/x.L : 1));
          if (!(e <= worst)) {worst = e; msg = fmt(" element %d point %d variable %d: %.12g, image of the other %.12g, relative to scale %g", i, q, v, ub(v), w(v), e);}
        }
      }
    }
    if (std::isnan(worst)) {m.count("skipped-nan"); return false;}
    m.close(worst, tol, std::string(what) + "-" + kind, ctx + msg);
    return true;
  };
  if (!compare("state", false, 1e-10*cond)) return;
  m.phase("residual");
  a.sol->compute_residual(); b.sol->compute_residual();
  if (!compare("residual", true, 1e-10*cond)) return;
  m.phase("update");
  int n = rng.range(1, 3);
  bool fixed = false;
  for (int i = 0; i < n; ++i) {
    int excs = 0;
    for (auto* s : {&a, &b}) {
      s->out->lines_left = 40;
      try {s->sol->update();} catch (const Quiet::Enough&) {++excs;} catch (const std::exception&) {++excs;}
    }
    if (excs) {m.count("skipped-failed-update"); return;}
    auto sa = a.sol->iteration_status(), sb = b.sol->iteration_status();
    if (a.space->lookup<int>("fix_iters").value_or(0) || b.space->lookup<int>("fix_iters").value_or(0)) fixed = true;
    if (fixed || !healthy(a)) {m.count("skipped-repaired"); return;}
    double da = sa.time_step*(a.local ? 1 : x.L/x.V);
    if (!(da > 0)) {m.count("skipped-inverted-corner"); return;}
    m.checkf(std::abs(sb.time_step - da) <= 1e-8*cond*std::abs(da), "time-step-" + kind, [&]{return ctx + fmt(" step %d: %.14g, expected %.14g", i, sb.time_step, da);});
    if (!compare("update", false, 1e-9*cond)) return;
  }
  m.count("kind-" + kind);
  m.count(a.has_ldg ? "viscous" : "inviscid");
  if (rng.chance(.4)) {
    m.phase("artificial viscosity");
    double width = a.root*rng.uniform(.02, .2);
    bool elwise = rng.chance(.4);
    int it [3] {rng.range(1, 4), rng.range(1, 3), rng.range(1, 3)}, n_av = rng.range(1, 4);
    for (auto* s : {&a, &b}) {
      bool im = s == &b;
      const Flow_field& ff = im ? static_cast<const Flow_field&>(g) : f;
      Mat<> u = ff.mean();
      for (int v = 0; v < nv; ++v) s->space->assign<double>("freestream" + std::to_string(v), u(v));
      s->space->assign<double>("freestream_speed", ff.sound()*ff.mach); s->space->assign<double>("freestream_sound_speed", ff.sound());
      if (elwise) s->sol->update_art_visc_elwise(width*(im ? x.L : 1), false);
      else {
        s->space->assign("av_advect_iters", it[0]); s->space->assign("av_diff_iters", it[1]); s->space->assign("n_cheby_av", it[2]);
        for (int i = 0; i < n_av; ++i) s->sol->update_art_visc_smoothness(width*(im ? x.L : 1));
      }
    }
    double worst = 0, big = 0; std::string msg;
    auto coef = [&](Element& e) {return elwise ? e.laplacian_av_coef() : e.bulk_av_coef();};
    for (int i = 0; i < a.elems().size(); ++i) for (int q = 0; q < nq; ++q) big = std::max(big, std::abs(coef(a.elems()[i])[q]));
    for (int i = 0; i < a.elems().size(); ++i) for (int q = 0; q < nq; ++q) {
      double w = coef(a.elems()[i])[q]*x.L*x.V, v = coef(b.elems()[mt.elem[i]])[mt.qp[i][q]];
      double e = std::abs(w - v)/(big*x.L*x.V + 1e-3*c*width*x.L*x.V);
      if (!(e <= worst)) {worst = e; msg = fmt(" element %d point %d: %.12g, image of the other %.12g", i, q, v, w);}
    }
    m.close(worst, 1e-6*cond, std::string(elwise ? "art-visc-elwise-" : "art-visc-") + kind, ctx + msg);
    if (big > 0) m.count(elwise ? "active-elwise" : "active-smoothness");
  }
  m.evaluated(mon::mix(mon::hash_str(ctx), a.elems().size()));
  m.sample(ctx);
}

static Mat<dyn, dyn> signed_permutation(Rng& rng, int nd, bool proper_only)
{
  Mat<dyn, dyn> Q(nd, nd);
  do {
    std::vector<int> p; for (int d = 0; d < nd; ++d) p.push_back(d);
    for (int d = nd - 1; d > 0; --d) std::swap(p[d], p[rng.below(d + 1)]);
    Q.setZero();
    for (int d = 0; d < nd; ++d) Q(p[d], d) = rng.below(2) ? 1 : -1;
  } while (proper_only && Q.determinant() < 0);
  return Q;
}

static void random_units(Rng& rng, Xform& x, double root)
{
  if (rng.chance(.35)) {x.L = rng.pick(std::vector<double>{2., .5, 3.7, 1e-3, 250.}); x.desc += fmt(" lengths*%g", x.L);}
  if (rng.chance(.35)) {x.R = rng.pick(std::vector<double>{4., .3, 1e-3, 50.}); x.V = rng.pick(std::vector<double>{2., 1., .1, 30.}); x.desc += fmt(" densities*%g velocities*%g", x.R, x.V);}
  if (rng.chance(.35)) {for (int d = 0; d < x.nd; ++d) x.t(d) = root*rng.uniform(-3, 3); x.desc += " shifted";}
}

// --- boxes of rotated, hanging and deformed cells: any rotation, any cell orientation
static void run_block(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(2, 3);
    Xform x; x.nd = nd;
    x.Q = Mat<dyn, dyn>::Identity(nd, nd); x.c = Mat<>::Zero(nd); x.t = Mat<>::Zero(nd);
    bool rot = rng.chance(.5), reorient = rng.chance(.6);
    if (rot) {
      Mat<dyn, dyn> A(nd, nd); for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) A(i, j) = rng.normal();
      x.Q = Eigen::HouseholderQR<Mat<dyn, dyn>>(A).householderQ();
      if (x.Q.determinant() < 0) x.Q.col(0) *= -1;
      if (rng.chance(.3)) x.Q = signed_permutation(rng, nd, true);
      x.desc += "rotated";
    }
    if (reorient) x.desc += " reoriented cells";
    double rs = rng.range(2, max_rs);
    random_units(rng, x, 1);
    Flow_field f = random_field(rng, nd, 1, Mat<>::Zero(3));
    Xflow g = transformed(f, x);
    uint64_t bs = rng.next(), ts = rng.next(), ms = rng.next(), os = rng.next();
    bool visc = rng.chance(.6), local = rng.chance(.3), units = x.R != 1 || x.V != 1 || x.L != 1;
    std::unique_ptr<Flow_scene> sc [2];
    for (int w = 0; w < 2; ++w) {
      const Flow_field& ff = w ? static_cast<const Flow_field&>(g) : f;
      Scene_opts o;
      o.nd = nd; o.rs = rs; o.kind = "block"; o.global_dt = !local;
      o.bc = [&, side = 0](int s, std::string& name) mutable {return any_bc(mon::mix(bs, s), ff, name, units);};
      if (visc) o.transport = [&, w](double root, bool cond) {Rng r(ts + cond); return random_transport(r, ff, root, cond);};
      o.tweak_block = [&, w](Block& b) {
        if (!w) return;
        b.root *= x.L;
        b.map = [old = b.map, &x, nd](Mat<> p) {Mat<> q = old(p), r = q; r.head(nd) = x.fwd(q); return r;};
        if (reorient) {
          Rng r(os);
          b.orient.clear();
          for (int i = 0; i < b.nc[0]; ++i) for (int j = 0; j < b.nc[1]; ++j) {
            std::vector<int> ok;
            for (int k = 0; k < 4; ++k) {
              bool good = true;
              if (i) good = good && (b.orient[(i - 1)*b.nc[1] + j] - k + 4)%4 != 2;
              if (j) good = good && (b.orient.back() - k + 4)%4 != 2;
              if (good) ok.push_back(k);
            }
            b.orient.push_back(r.pick(ok));
          }
        }
      };
      m.phase("make scene");
      Rng mr(ms);
      sc[w] = make_scene(mr, o);
    }
    f.len = sc[0]->root*.6; Mat<> og = mesh_origin(*sc[0]); for (int d = 0; d < nd; ++d) f.org(d) = og(d);
    double far = 1; for (int d = 0; d < nd; ++d) far += (std::abs(x.t(d)) + std::abs(og(d))*(x.L > 1 ? x.L : 1))/(sc[0]->root*x.L);
    compare_solutions(m, rng, *sc[0], *sc[1], f, g, x, reorient ? "reoriented" : rot ? "rotated" : "units", 1 + 1e-2*far);
  });
}

// --- adapted trees, with and without bodies: permutations and reflections of the axes
struct Xgeom : public Surface_geom
{
  std::unique_ptr<Surface_geom> inner; Xform x;
  Xgeom(Surface_geom* g, const Xform& xf) : inner{g}, x{xf} {}
  Nearest_point<dyn> nearest_point(Mat<> point, double max_distance = huge, double distance_guess = huge) override
  {
    auto n = inner->nearest_point(x.inv(point), max_distance == huge ? huge : max_distance/x.L, distance_guess == huge ? huge : distance_guess/x.L);
    Nearest_point<dyn> r(point, max_distance);
    if (!n.empty()) r.merge(x.fwd(n.point()));
    return r;
  }
  std::vector<double> intersections(Mat<> p0, Mat<> p1) override {return inner->intersections(x.inv(p0), x.inv(p1));}
};

static void run_axes(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(1, 3);
    bool surf = nd > 1 && rng.chance(.5);
    Tree_scene ts = tree_params(rng, nd, surf);
    Xform x; x.nd = nd;
    x.c = (ts.origin.head(nd).array() + .5*ts.root).matrix();
    x.t = Mat<>::Zero(nd);
    x.Q = rng.chance(.8) ? signed_permutation(rng, nd, false) : Mat<dyn, dyn>(Mat<dyn, dyn>::Identity(nd, nd));
    x.desc = "axes";
    for (int d = 0; d < nd; ++d) for (int e = 0; e < nd; ++e) if (x.Q(e, d)) x.desc += fmt(" %s%d", x.Q(e, d) > 0 ? "+" : "-", e);
    random_units(rng, x, ts.root);
    Flow_field f = random_field(rng, nd, ts.root*.6, x.c);
    Xflow g = transformed(f, x);
    uint64_t bs = rng.next(), tr = rng.next();
    int rs = rng.range(2, max_rs), levels = surf ? (nd == 2 ? rng.range(3, 4) : 3) : rng.range(0, nd == 3 ? 1 : 2), n_ad = rng.range(0, 3), n_relax = surf ? rng.range(0, 4) : 0;
    bool visc = rng.chance(.6), local = rng.chance(.3), units = x.R != 1 || x.V != 1 || x.L != 1;
    struct Ball {Mat<> p; double r; int lev; bool un;}; std::vector<Ball> balls;
    for (int i = 0; i < n_ad; ++i) {Ball b; b.p = x.c; for (int d = 0; d < nd; ++d) b.p(d) += ts.root*rng.uniform(-.5, .5); b.r = ts.root*rng.uniform(.05, .35); b.lev = rng.range(1, surf ? (nd == 2 ? 5 : 4) : (nd == 3 ? 3 : 5)); b.un = rng.chance(.3); balls.push_back(b);}
    std::unique_ptr<Flow_scene> sc [2];
    bool same_hist = true; std::vector<int> counts [2];
    for (int w = 0; w < 2; ++w) {
      const Flow_field& ff = w ? static_cast<const Flow_field&>(g) : f;
      sc[w] = std::make_unique<Flow_scene>();
      Flow_scene& s = *sc[w];
      s.nd = nd; s.rs = rs; s.kind = surf ? "surf" : "tree"; s.local = local; s.root = ts.root*(w ? x.L : 1);
      Rng r0(tr), r1(tr + 1);
      Transport_model mv = visc ? random_transport(r0, ff, s.root, false) : inviscid, mc = visc ? random_transport(r1, ff, s.root, true) : inviscid;
      s.has_ldg = mv.is_viscous || mc.is_viscous;
      s.sol.reset(new Solver(nd, rs, s.root, local, mv, mc, s.space, s.out));
      s.mesh = dynamic_cast<Accessible_mesh*>(&s.sol->mesh());
      // a side in the transformed problem is the image of a side of the original
      std::vector<Flow_bc*> bcs(2*nd);
      for (int i = 0; i < 2*nd; ++i) {
        int j = i;
        if (w) for (int e = 0; e < nd; ++e) if (x.Q(e, i/2)) j = 2*e + (x.Q(e, i/2) > 0 ? i%2 : 1 - i%2);
        std::string nm; bcs[j] = any_bc(mon::mix(bs, i), ff, nm, units); if (!w) s.bc_names.push_back(nm);
      }
      Mat<> org = Mat<>::Zero(3);
      org.head(nd) = w ? Mat<>((x.fwd(x.c).array() - .5*s.root).matrix()) : Mat<>(ts.origin.head(nd));
      s.mesh->add_tree(bcs, org);
      m.phase("mesh");
      for (int i = 0; i < levels; ++i) s.mesh->update();
      if (surf) {
        Mat<> fl = w ? x.fwd(ts.flood) : Mat<>(ts.flood.head(nd));
        std::string nm;
        s.mesh->set_surface(w ? static_cast<Surface_geom*>(new Xgeom(ts.surf.make(), x)) : ts.surf.make(), any_bc(mon::mix(bs, 99), ff, nm, units), fl);
        if (!w) s.bc_names.push_back(nm);
      }
      counts[w].push_back(s.elems().size());
      for (auto& b : balls) {
        if (counts[w].back() > (nd == 3 ? 120 : 200)) break;
        auto near = [&, w](Element& e) {Mat<> c = elem_center(e, nd); if (w) c = x.inv(c); return (c - b.p).norm() < b.r;};
        if (b.un) s.mesh->update(criteria::never, [near](Element& e) {return near(e);});
        else s.mesh->update([near, &b](Element& e) {return e.refinement_level() < b.lev && near(e);}, criteria::never);
        counts[w].push_back(s.elems().size());
      }
      for (int i = 0; i < n_relax; ++i) s.mesh->relax(.5);
      s.sol->calc_jacobian();
      s.desc = ts.log + fmt("; %d uniform levels, %d adaptations, %d relaxations, row size %d%s%s, %d elements, bcs", levels, n_ad, n_relax, rs, local ? ", local dt" : "", visc ? ", viscous" : "", int(s.elems().size()));
      for (auto& n : s.bc_names) s.desc += " " + n;
    }
    if (counts[0] != counts[1]) {
      // bodies may decide ties differently; without one there are none
      if (surf) {m.count("surf-differs"); return;}
    }
    if (!sc[0]->elems().size()) {m.count("empty"); return;}
    double far = 1 + (x.t.norm() + x.c.norm())/(ts.root*std::min(1., x.L))*std::max(1., x.L);
    if (surf) {
      sc[0]->sol->initialize(f); sc[1]->sol->initialize(g);
      if (!healthy(*sc[0]) || !healthy(*sc[1])) {m.count("skipped-unphysical"); return;}
      Match mt = match(*sc[0], *sc[1], x);
      // iterated projections onto curved bodies need not converge to the last digit
      if (!mt.ok || mt.dist > 1e-9) {m.count("surf-differs"); return;}
      far *= 1 + mt.dist*1e12;
      m.count("surf-same");
    }
    compare_solutions(m, rng, *sc[0], *sc[1], f, g, x, surf ? "surf" : "tree", surf ? far : 1 + 1e-2*far);
  });
}

// --- the same grid made of regular cells and of deformed cells
static void run_kind(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(1, 3);
    Tree_scene ts = tree_params(rng, nd, false);
    Xform x; x.nd = nd; x.Q = Mat<dyn, dyn>::Identity(nd, nd); x.c = Mat<>::Zero(nd); x.t = Mat<>::Zero(nd); x.desc = "deformed cells";
    Flow_field f = random_field(rng, nd, ts.root*.6, ts.origin);
    Xflow g = transformed(f, x);
    uint64_t bs = rng.next(), tr = rng.next();
    int rs = rng.range(2, max_rs);
    bool visc = rng.chance(.6), local = rng.chance(.3);
    std::unique_ptr<Flow_scene> sc [2];
    for (int w = 0; w < 2; ++w) {
      sc[w] = std::make_unique<Flow_scene>();
      Flow_scene& s = *sc[w];
      s.nd = nd; s.rs = rs; s.kind = "tree"; s.local = local; s.root = ts.root;
      Rng r0(tr), r1(tr + 1);
      Transport_model mv = visc ? random_transport(r0, f, s.root, false) : inviscid, mc = visc ? random_transport(r1, f, s.root, true) : inviscid;
      s.has_ldg = mv.is_viscous || mc.is_viscous;
      s.sol.reset(new Solver(nd, rs, s.root, local, mv, mc, s.space, s.out));
      s.mesh = dynamic_cast<Accessible_mesh*>(&s.sol->mesh());
    }
    Flow_scene& a = *sc[0]; Flow_scene& b = *sc[1];
    m.phase("mesh");
    ts.max_elems = nd == 1 ? 30 : 90;
    start_tree(rng, *a.mesh, ts, [&](int i) {std::string n; auto c = any_bc(mon::mix(bs, i), f, n, false); a.bc_names.push_back(n); return c;});
    int n_ad = rng.range(0, 3);
    for (int i = 0; i < n_ad; ++i) {auto ad = random_adapt(rng, *a.mesh, ts); a.mesh->update(ad.ref, ad.unref);}
    if (a.elems().size() > 400) {m.count("skipped-large"); return;}
    std::vector<int> sns;
    for (int i = 0; i < 2*nd; ++i) {std::string n; sns.push_back(b.mesh->add_boundary_condition(any_bc(mon::mix(bs, i), f, n, false), new Null_mbc));}
    std::map<Element*, std::pair<int, int>> id;
    for (int i = 0; i < a.elems().size(); ++i) {
      auto& e = a.elems()[i];
      int sn = b.mesh->add_element(e.refinement_level(), true, std::vector<int>{2*i, 0, 0});
      auto& c = b.mesh->element(e.refinement_level(), true, sn);
      for (int v = 0; v < (1 << nd); ++v) c.vertex(v).pos = e.vertex(v).pos;
      id[&e] = {e.refinement_level(), sn};
    }
    std::set<std::pair<Element*, int>> hang;
    long n_hang = 0;
    for_refined(*a.mesh, [&](Element& coarse, std::vector<Element*> fine, Connection_direction dir, bool rev, bool) {
      int c = rev, fi = !rev;
      std::vector<int> fs; for (auto* e : fine) {fs.push_back(id[e].second); hang.insert({e, face_of(dir, fi)});}
      b.mesh->connect_hanging(id[&coarse].first, id[&coarse].second, fs, {{dir.i_dim[c], dir.i_dim[fi]}, {dir.face_sign[c], dir.face_sign[fi]}}, true, std::vector<bool>(fs.size(), true), {false, false});
      ++n_hang;
    });
    auto& ec = a.mesh->element_connections();
    for (int i = 0; i < ec.size(); ++i) {
      auto dir = ec[i].get_direction();
      Element& p = ec[i].element(0); Element& q = ec[i].element(1);
      if (hang.count({&p, face_of(dir, 0)}) || hang.count({&q, face_of(dir, 1)})) continue;
      b.mesh->connect_deformed(id[&p].first, {id[&p].second, id[&q].second}, {{dir.i_dim[0], dir.i_dim[1]}, {dir.face_sign[0], dir.face_sign[1]}});
    }
    auto& bc = a.mesh->boundary_connections();
    for (int i = 0; i < bc.size(); ++i) {
      int side = -1; for (int k = 0; k < 2*nd; ++k) if (ts.tree_bc[k] == bc[i].bound_cond_serial_n()) side = k;
      auto& e = id[&bc[i].element()];
      b.mesh->connect_boundary(e.first, true, e.second, bc[i].i_dim(), bc[i].inside_face_sign(), sns[side]);
    }
    b.mesh->cleanup();
    a.sol->calc_jacobian(); b.sol->calc_jacobian();
    a.desc = ts.log + fmt(", row size %d%s%s, %d elements, bcs", rs, local ? ", local dt" : "", visc ? ", viscous" : "", int(a.elems().size()));
    for (auto& n : a.bc_names) a.desc += " " + n;
    if (n_hang) m.count("kind-hanging");
    double far = 1 + ts.origin.norm()/ts.root;
    compare_solutions(m, rng, a, b, f, g, x, "deformed", 1 + 1e-2*far);
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "block") run_block(m);
  else if (m.mode == "axes") run_axes(m);
  else if (m.mode == "kind") run_kind(m);
  else {fprintf(stderr, "unknown mode\n"); return 2;}
  return m.finish();
}
