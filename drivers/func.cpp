// monitors of the field functions: each compared with its definition at random points, states and times, and on the points, faces and cells of random meshes
#include "flow.hpp"
#include "meshmon.hpp"
#include <Spacetime_func.hpp>
#include <Domain_func.hpp>
#include <Element_func.hpp>
#include <Surface_func.hpp>
#include <Boundary_func.hpp>
#include <Interpreter.hpp>
#include <Struct_expr.hpp>
#include <hil_properties.hpp>

using namespace scene;
using mon::Monitor;

static int max_rs = config::max_row_size;

static bool nearly(double a, double b, double tol, double scale = 0) {return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= tol*(std::max(std::abs(a), std::abs(b)) + scale);}
typedef std::vector<double> dvec;

// steady Ringleb flow in terms of speed and stream function (units of stagnation sound speed), written independently: Chiocchia, AGARD AR-211
static void ringleb_point(double V, double psi, double& x, double& y, double& rho, double& p, double& u, double& v)
{
  double g = 1.4, a2 = 1 - (g - 1)/2*V*V, a = std::sqrt(a2);
  rho = std::pow(a2, 1/(g - 1)); p = std::pow(a2, g/(g - 1))/g;
  double J = 1/a + 1/(3*a*a*a) + 1/(5*std::pow(a, 5)) - .5*std::log((1 + a)/(1 - a));
  x = (1/(2*rho))*(1/(V*V) - 2*psi*psi) + J/2;
  double s = std::sqrt(std::max(1 - V*V*psi*psi, 0.));
  y = psi/(rho*V)*s;
  u = V*s; v = V*V*psi;
}

static void run_point(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(1, 3), nv = nd + 2;
    double rho = std::exp(rng.uniform(-6, 5)), p = std::exp(rng.uniform(-5, 14)), g = rng.pick(dvec{1.4, 1.4, 1.3, 1.667, 1.05});
    double c = std::sqrt(g*p/rho), t = rng.uniform(-3, 10);
    dvec pos(nd), st(nv), v(nd);
    double v2 = 0, len = std::exp(rng.uniform(-4, 3));
    for (auto& x : pos) x = len*rng.normal();
    for (auto& x : v) {x = rng.chance(.1) ? 0 : c*rng.normal()*rng.pick(dvec{.1, 1., 4.}); v2 += x*x;}
    for (int d = 0; d < nd; ++d) st[d] = rho*v[d];
    st[nd] = rho; st[nd + 1] = p/(g - 1) + .5*rho*v2;
    double cond = 1 + .5*rho*v2*(g - 1)/p; // amplification of rounding in the pressure
    std::string ctx = fmt("nd=%d density %g pressure %g mach %g gamma %g", nd, rho, p, std::sqrt(v2)/c, g);
    auto eq = [&](const dvec& a, const dvec& want, const char* key, double tol = 1e-12) {
      if (!m.checkf(a.size() == want.size(), "size", [&]{return std::string(key) + " " + ctx;})) return;
      for (size_t i = 0; i < a.size(); ++i) m.checkf(nearly(a[i], want[i], tol), key, [&]{return ctx + fmt(" component %d: %.14g, definition %.14g", int(i), a[i], want[i]);});
    };
    // functions of the state
    Domain_func* f; 
    auto dom = [&](Domain_func&& h, const dvec& want, const char* key, double tol = 1e-12) {f = &h; eq((*f)(pos, t, st), want, key, tol); m.check(h.n_var(nd) == int(want.size()), "n-var", std::string(key) + " " + ctx); for (int i = 0; i < h.n_var(nd); ++i) m.check(static_cast<Output_data&>(h).variable_name(nd, i).size() > 0, "name", key);};
    dom(State_variables(), st, "state", 0);
    dom(Pressure(g), {p}, "pressure", 1e-13*cond);
    dom(Velocity(), v, "velocity");
    dom(Mach(g), {std::sqrt(v2)/c}, "mach", 1e-12*cond);
    dom(Stag_pres(g), {p*std::pow(1 + (g - 1)/2*v2/(c*c), g/(g - 1))}, "stagnation-pressure", 1e-12*cond*g/(g - 1));
    dom(Mass(), {rho}, "mass", 0);
    {
      dvec mn(nd); double nn = 0; for (auto& x : mn) {x = rng.normal(); nn += x*x;} nn = std::sqrt(nn);
      double mag = rng.pick(dvec{1., 1e-3, 50.});
      dvec nrm(nd), want(nd);
      for (int d = 0; d < nd; ++d) {nrm[d] = mn[d]/nn*mag; want[d] = -p*mn[d]/nn;}
      Pressure_stress ps(g); Surface_func& sf = ps;
      eq(sf(pos, t, st, nrm), want, "pressure-stress", 1e-12*cond);
      Outward_normal on; Surface_func& of = on;
      eq(of(pos, t, st, nrm), nrm, "normal", 0);
    }
    // functions of position
    dvec cv(rng.range(0, 5)); for (auto& x : cv) x = rng.normal();
    dom(Constant_func(cv), cv, "constant", 0);
    dom(Position_func(), pos, "position", 0);
    dom(Empty_func(), {}, "empty", 0);
    {
      int n = rng.range(1, 4);
      Mat<> co(n); for (int i = 0; i < n; ++i) co(i) = rng.normal();
      double w = 0, sc = 0; for (int i = 0; i < std::min(n, nd); ++i) {w += co(i)*pos[i]; sc += std::abs(co(i)*pos[i]);}
      Linear l(co);
      m.checkf(nearly(static_cast<Spacetime_func&>(l)(pos, t)[0], w, 1e-13, sc), "linear", [&]{return ctx;});
    }
    {
      dvec dev(rng.range(1, 3)); for (auto& x : dev) x = len*std::exp(rng.uniform(-1, 1));
      double r2 = 0; for (int d = 0; d < nd; ++d) r2 += std::pow(pos[d]/dev[std::min<int>(d, dev.size() - 1)], 2);
      dom(Spatial_gaussian(dev), {std::exp(-.5*r2)}, "gaussian", 1e-12*(1 + r2));
    }
    {
      Sod s; dvec q(nd); for (auto& x : q) x = rng.uniform(-1, 2);
      dvec w(nv, 0.); w[nd] = q[0] < .5 ? 1 : .125; w[nd + 1] = (q[0] < .5 ? 1 : .1)/.4;
      eq(static_cast<Spacetime_func&>(s)(q, t), w, "sod");
    }
    {
      double a = rng.normal(), r0 = len*rng.uniform(.3, 3), e = p;
      Annular_diffusion_test an(a, r0, e);
      double r2 = 0; for (double x : pos) r2 += x*x;
      dvec w(nv, 0.); w[nd] = a*std::log(std::sqrt(r2)/r0); w[nd + 1] = e;
      auto r = static_cast<Spacetime_func&>(an)(pos, t);
      for (int i = 0; i < nv; ++i) m.checkf(nearly(r[i], w[i], 1e-12, std::abs(a)), "annular", [&]{return ctx;});
    }
    {
      int n = rng.range(1, 4); dvec mean(n), var(n);
      for (int i = 0; i < n; ++i) {mean[i] = 10*rng.normal(); var[i] = rng.uniform(.1, 4);}
      Random_func rf(mean, var); Spacetime_func& r = rf;
      m.check(rf.n_var(nd) == n, "n-var", "random");
      const int N = 400;
      dvec sum(n, 0.);
      for (int k = 0; k < N; ++k) {
        auto x = r(pos, t);
        if (!m.check(int(x.size()) == n, "size", "random")) break;
        for (int i = 0; i < n; ++i) {sum[i] += x[i]; m.checkf(std::abs(x[i] - mean[i]) <= var[i]/2*(1 + 1e-9) + 1e-12, "random-range", [&]{return fmt("%g for mean %g and variation %g", x[i], mean[i], var[i]);});}
      }
      // standard error of a uniform variable: variation/sqrt(12 N)
      for (int i = 0; i < n; ++i) m.checkf(std::abs(sum[i]/N - mean[i]) <= 8*var[i]/std::sqrt(12.*N), "random-mean", [&]{return fmt("average %g of %d values, mean %g, variation %g", sum[i]/N, N, mean[i], var[i]);});
    }
    // combinations
    {
      State_variables a; Constant_func b(dvec(nv, 2.)); 
      dvec w(nv); for (int i = 0; i < nv; ++i) w[i] = (st[i] - 2)*(st[i] - 2);
      Diff_sq d(a, b);
      dom(Diff_sq(a, b), w, "diff-sq", 1e-13);
      dvec val(nv); for (auto& x : val) x = rng.normal();
      Constant_func e(val);
      for (int i = 0; i < nv; ++i) w[i] = (st[i] - val[i])*(st[i] - val[i]);
      dom(Error_func(e), w, "error", 1e-13);
    }
    // irrotational incompressible doublet
    if (nd > 1) {
      dvec fs = st;
      double axial = 0;
      for (int d = 0; d < nd; ++d) {fs[d] = rho*c*rng.uniform(-.15, .15);}
      if (nd == 3) {if (rng.chance(.5)) fs[2] = 0; axial = fs[2]/rho;}
      double ke = 0; for (int d = 0; d < nd; ++d) ke += .5*fs[d]*fs[d]/rho;
      fs[nd + 1] = p/(g - 1) + ke;
      Doublet db(fs); db.heat_rat = g; db.radius = len*rng.uniform(.2, 2); db.location = {len*rng.normal(), len*rng.normal()};
      Spacetime_func& s = db;
      double r = db.radius*rng.pick(dvec{1., rng.uniform(.8, 5), 1.5}), th = rng.uniform(0, 2*M_PI);
      dvec q(nd, 0.); q[0] = db.location[0] + r*std::cos(th); q[1] = db.location[1] + r*std::sin(th); if (nd == 3) q[2] = len*rng.normal();
      auto u = s(q, t);
      // complex velocity of a cylinder of that radius in the stream
      double ux = fs[0]/rho, uy = fs[1]/rho, k = db.radius*db.radius/(r*r);
      double vx = ux - k*(ux*std::cos(2*th) + uy*std::sin(2*th)), vy = uy - k*(ux*std::sin(2*th) - uy*std::cos(2*th));
      double sp = std::hypot(ux, uy);
      m.checkf(nearly(u[0]/u[nd], vx, 1e-10, sp) && nearly(u[1]/u[nd], vy, 1e-10, sp), "doublet-velocity", [&]{return ctx + fmt(" (%g %g), potential flow (%g %g)", u[0]/u[nd], u[1]/u[nd], vx, vy);});
      if (r == db.radius) m.checkf(std::abs(u[0]*std::cos(th) + u[1]*std::sin(th)) <= 1e-10*rho*sp, "doublet-streamline", [&]{return ctx;});
      double kin = 0; for (int d = 0; d < nd; ++d) kin += .5*u[d]*u[d]/u[nd];
      double pr = (g - 1)*(u[nd + 1] - kin);
      m.checkf(nearly(pr/std::pow(u[nd], g), p/std::pow(rho, g), 1e-9), "doublet-entropy", [&]{return ctx + fmt(" axial velocity %g: %g, freestream %g", axial, pr/std::pow(u[nd], g), p/std::pow(rho, g));});
      double h = (u[nd + 1] + pr)/u[nd], h0 = (fs[nd + 1] + p)/rho;
      m.checkf(nearly(h, h0, 1e-9), "doublet-enthalpy", [&]{return ctx + fmt(" axial velocity %g: %g, freestream %g", axial, h, h0);});
      m.count(axial != 0 ? "doublet-axial" : "doublet-planar");
    }
    m.evaluated(mon::mix(mon::hash_str(ctx), rng.next()));
    m.sample(ctx);
  });
}

#if HEXED_USE_NLOPT
static void run_ringleb(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    // a point of the exact solution, in the usual range of streamlines
    double psi = rng.uniform(.67, 1.6), V = rng.uniform(.3, std::min(1/psi, 1.5)*.995);
    double x, y, rho, p, u, v;
    ringleb_point(V, psi, x, y, rho, p, u, v);
    double side = rng.below(2) ? 1 : -1;
    int nd = rng.range(2, 3);
    dvec pos {x, side*y}; if (nd == 3) pos.push_back(rng.normal());
    // the solution satisfies the governing equations: derivatives along speed and stream function
    {
      double e = 1e-5;
      auto flux = [&](double VV, double ss, Mat<6>& F) {double X, Y, r, pp, a, b; ringleb_point(VV, ss, X, Y, r, pp, a, b); F << X, Y, r*a, r*b, r*a*a + pp, r*a*b;};
      Mat<6> a, b, c, d;
      flux(V + e, psi, a); flux(V - e, psi, b); flux(V, psi + e*.3, c); flux(V, psi - e*.3, d);
      Mat<6> fv = (a - b)/(2*e), fs = (c - d)/(2*e*.3);
      double det = fv(0)*fs(1) - fs(0)*fv(1);
      if (std::abs(det) > 1e-2 && V*psi < .98) {
        auto dx = [&](int i) {return (fv(i)*fs(1) - fs(i)*fv(1))/det;};
        auto dy = [&](int i) {return (fs(i)*fv(0) - fv(i)*fs(0))/det;};
        double div = dx(2) + dy(3), sc = std::abs(dx(2)) + std::abs(dy(3)) + 1e-3;
        if (!(std::abs(div) < 1e-4*sc/std::min(1., std::abs(det)))) {m.count("reference-imprecise"); return;}
        m.count("reference-satisfies-continuity");
      }
    }
    // the root finder either recovers the state or warns
    std::stringstream cap; auto* old = std::cerr.rdbuf(cap.rdbuf());
    Ringleb rl; auto s = static_cast<Spacetime_func&>(rl)(pos, rng.uniform(0, 5));
    std::cerr.rdbuf(old);
    bool warned = cap.str().find("WARNING") != std::string::npos;
    m.count(warned ? "ringleb-warned" : "ringleb-found");
    if (warned) return;
    double r2 = s[nd], u2 = s[0]/r2, v2 = s[1]/r2, V2 = std::hypot(u2, v2), psi2 = v2/V2/V2, p2 = .4*(s[nd + 1] - .5*r2*V2*V2);
    double X, Y, rr, pp, uu, vv;
    ringleb_point(V2, psi2, X, Y, rr, pp, uu, vv);
    m.checkf(nearly(rr, r2, 1e-9) && nearly(pp, p2, 1e-9), "ringleb-thermo", [&]{return fmt("V=%g psi=%g at (%g %g)", V, psi, pos[0], pos[1]);});
    m.checkf(std::hypot(X - pos[0], Y - std::abs(pos[1])) < .033, "ringleb-position", [&]{return fmt("asked for (%g %g), the state returned belongs at (%g %g)", pos[0], pos[1], X, Y);});
    m.checkf(u2*side >= 0, "ringleb-direction", [&]{return fmt("u=%g at y=%g", u2, pos[1]);});
    m.evaluated(mon::mix(rng.next(), mon::hash_str(fmt("%g %g", V, psi))));
    m.sample(fmt("V=%g psi=%g", V, psi));
  });
}
#endif

// arbitrary function of position and time for the element functions
struct Poly : public Spacetime_func
{
  int nv; std::array<double, 12> c;
  int n_var(int) const override {return nv;}
  dvec operator()(dvec p, double t) const override
  {
    dvec r(nv);
    for (int v = 0; v < nv; ++v) {r[v] = c[v] + c[11]*t; for (size_t d = 0; d < p.size(); ++d) r[v] += c[3 + d + v]*p[d] + c[8]*p[d]*p[d]*p[(d + 1)%p.size()];}
    return r;
  }
};

static void run_mesh(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Scene_opts o;
    o.nd = rng.range(1, 3); o.rs = rng.range(2, max_rs);
    o.kind = o.nd == 1 ? rng.pick(std::vector<std::string>{"tree", "periodic"}) : rng.pick(std::vector<std::string>{"block", "tree", "surf", "surf"});
    Flow_field f = random_field(rng, o.nd, 1, Mat<>::Zero(3));
    o.bc = [&](int, std::string& n) {return random_bc(rng, f, n);};
    bool viscous = rng.chance(.6);
    if (viscous) o.transport = [&](double root, bool) {double mu = f.rho*f.sound()*root*.01; return Transport_model::constant(mu);};
    m.phase("make scene");
    auto sp = make_scene(rng, o);
    auto& s = *sp;
    if (!s.elems().size()) return;
    f.len = s.root*.6; Mat<> og = mesh_origin(s); for (int d = 0; d < s.nd; ++d) f.org(d) = og(d);
    s.sol->initialize(f);
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    int n_up = rng.below(2);
    for (int i = 0; i < n_up; ++i) try {s.sol->update();} catch (const std::exception&) {m.count("skipped-update"); return;}
    if (n_up && !healthy(s)) {m.count("skipped-unphysical"); return;}
    s.sol->compute_residual();
    int nd = s.nd, nv = nd + 2, nq = s.nq(), rs = s.rs, nfq = nq/rs;
    double time = s.sol->iteration_status().flow_time;
    Gauss_legendre basis(rs);
    Mat<> w = math::pow_outer(basis.node_weights(), nd), wf = math::pow_outer(basis.node_weights(), nd - 1);
    auto& els = s.elems();
    Poly po; po.nv = 2; for (auto& x : po.c) x = rng.normal();
    State_variables sv; Pressure pf; Is_deformed idf; Has_tree htf; Record rcf; Uncertainty unf;
    Jacobian_det_func jd; Jac_inv_det_func jid; Time_step_scale_func tsf; Physical_residual prf; Art_visc_coef avf; Fix_admis_coef faf;
    Advection_state asf(rs); Art_visc_forcing fof; Equiangle_skewness eqs;
    Component comp(sv, nd); Scaled scl(pf, {1., 5.}); Pow pw(pf, 3);
    Elem_average ea(po); Elem_l2 el2(po); Elem_nonsmooth ens(po); Normalized_nonsmooth nns(po);
    auto call = [&](const Qpoint_func& q, Element& e, int i) {return q(e, basis, i, time);};
    Interpreter inter; 
    inter.variables->assign<std::string>("viscosity_model", viscous ? "constant" : ""); inter.variables->assign<std::string>("conductivity_model", "");
    Struct_expr se("a = momentum0 + density*2. + energy; b = pos0 - 3.*pos1 + pos2 + time; c = tss + bulk_art_visc + laplacian_art_visc; d = 0. + ref_level + 10*is_extruded; e = nom_sz + uncertainty; f = center0 + momentum1 + momentum2");
    Qpoint_expr qe(se, inter);
    m.phase("qpoint functions");
    Rng sub(rng.next());
    std::vector<dvec> sums(1); dvec tot(3, 0.), tot_abs(3, 0.);
    double vol = 0;
    dvec lo(3, 1e300), hi(3, -1e300);
    for (int i = 0; i < els.size(); ++i) {
      auto& e = els[i];
      bool def = e.get_is_deformed();
      e.record = sub.range(-3, 7); e.uncertainty = sub.uniform();
      auto at = [&](const char* key, const dvec& got, const dvec& want, double tol, double scale = 0) {
        if (!m.check(got.size() == want.size(), "size", key)) return;
        for (size_t k = 0; k < got.size(); ++k) m.checkf(nearly(got[k], want[k], tol, scale), key, [&]{return s.desc + fmt(" element %d component %d: %.14g, definition %.14g", i, int(k), got[k], want[k]);});
      };
      dvec avg(2, 0.), l2(2, 0.); double ev = 0;
      Mat<dyn, dyn> vals(nq, 2);
      double h = math::pow(e.nominal_size(), nd);
      for (int q = 0; q < nq; ++q) {
        auto pos = e.position(basis, q);
        dvec st(nv); for (int v = 0; v < nv; ++v) st[v] = e.state()[v*nq + q];
        double ke = 0; for (int d = 0; d < nd; ++d) ke += .5*st[d]*st[d]/st[nd];
        double pr = .4*(st[nd + 1] - ke);
        auto pv = po(pos, time);
        double jac = e.jacobian_determinant(q), wt = w(q)*jac;
        for (int k = 0; k < 2; ++k) {avg[k] += wt*pv[k]; l2[k] += wt*pv[k]*pv[k]; vals(q, k) = pv[k]; tot[k] += wt*h*pv[k]; tot_abs[k] += std::abs(wt*h*pv[k]);}
        tot[2] += wt*h*st[nd]; tot_abs[2] += wt*h*st[nd];
        ev += wt; vol += wt*h;
        if (q%3 == i%3) {
          at("state-at-point", call(sv, e, q), st, 0);
          at("pressure-at-point", call(pf, e, q), {pr}, 1e-13*(1 + ke/(st[nd + 1] - ke))*10);
          at("spacetime-at-point", call(po, e, q), pv, 0);
          at("component", call(comp, e, q), {st[nd]}, 0);
          at("scaled", call(scl, e, q), {(pr - 1)/4}, 1e-11*(1 + ke/(st[nd + 1] - ke)), pr);
          at("power", call(pw, e, q), {pr*pr*pr}, 1e-11*(1 + ke/(st[nd + 1] - ke)));
          // the determinant from the element's own jacobian matrix
          Mat<dyn, dyn> J(nd, nd); for (int a = 0; a < nd; ++a) for (int b = 0; b < nd; ++b) J(a, b) = e.jacobian(a, b, q);
          at("jacobian-det", call(jd, e, q), {J.determinant()}, 1e-11, std::pow(J.norm(), nd));
          at("jacobian-inverse-det", call(jid, e, q), {1/jac}, 1e-14);
          at("time-step-scale", call(tsf, e, q), {e.time_step_scale()[q]}, 0);
          dvec r(nv); for (int v = 0; v < nv; ++v) r[v] = e.residual_cache()[v*nq + q]/e.time_step_scale()[q];
          at("physical-residual", call(prf, e, q), r, 1e-14);
          at("bulk-av", call(avf, e, q), {e.bulk_av_coef()[q]}, 0);
          at("laplacian-av", call(faf, e, q), {e.laplacian_av_coef()[q]}, 0);
          dvec ad(rs), fo(4); for (int k = 0; k < rs; ++k) ad[k] = e.advection_state()[k*nq + q]; for (int k = 0; k < 4; ++k) fo[k] = e.art_visc_forcing()[k*nq + q];
          at("advection-state", call(asf, e, q), ad, 0);
          at("forcing", call(fof, e, q), fo, 0);
          at("is-deformed", call(idf, e, q), {double(def)}, 0);
          at("has-tree", call(htf, e, q), {double(bool(e.tree))}, 0);
          at("record", call(rcf, e, q), {double(e.record)}, 0);
          at("uncertainty", call(unf, e, q), {e.uncertainty}, 0);
          if (q%7 == 0) {
            double cx = 0; for (int v = 0; v < (1 << nd); ++v) cx += e.vertex(v).pos(0)/(1 << nd);
            auto p3 = pos; p3.resize(3, 0.);
            double m1 = nd > 1 ? st[1] : 0, m2 = nd > 2 ? st[2] : 0;
            at("qpoint-expression", call(qe, e, q), {st[0] + 2*st[nd] + st[nd + 1], p3[0] - 3*p3[1] + p3[2] + time, e.time_step_scale()[q] + e.bulk_av_coef()[q] + e.laplacian_av_coef()[q], double(e.refinement_level() + 10*!e.tree), e.nominal_size() + e.uncertainty, cx + m1 + m2}, 1e-12, std::abs(p3[0]) + std::abs(3*p3[1]) + std::abs(p3[2]) + std::abs(time) + std::abs(cx) + std::abs(st[0]) + std::abs(m1) + std::abs(m2));
          }
        }
        // bounds of the field over these points cannot be outside the reported bounds by more than the interpolation allows: record only
        for (int k = 0; k < 1; ++k) {lo[k] = std::min(lo[k], st[nd]); hi[k] = std::max(hi[k], st[nd]);}
      }
      for (int k = 0; k < 2; ++k) {avg[k] /= ev; l2[k] = std::sqrt(l2[k]/ev);}
      double as = l2[0] + l2[1];
      at("element-average", call(ea, e, 0), avg, 1e-11, as);
      at("element-l2", call(el2, e, nq - 1), l2, 1e-11);
      // highest Legendre mode of every line of points along each dimension
      dvec ns(2, 0.);
      auto leg = [&](double x) {double a = 1, b = x; if (rs - 1 == 0) return 1.; for (int k = 2; k <= rs - 1; ++k) {double c = ((2*k - 1)*x*b - (k - 1)*a)/k; a = b; b = c;} return b;};
      for (int k = 0; k < 2; ++k) {
        for (int d = 0; d < nd; ++d) {
          int stride = math::pow(rs, nd - 1 - d);
          for (int q = 0; q < nq; ++q) if ((q/stride)%rs == 0) {
            double pr = 0, wo = 1;
            for (int j = 0; j < rs; ++j) pr += basis.node_weights()(j)*std::sqrt(2*(rs - 1) + 1)*leg(2*basis.node(j) - 1)*vals(q + j*stride, k);
            for (int d2 = 0; d2 < nd; ++d2) if (d2 != d) wo *= basis.node_weights()((q/int(math::pow(rs, nd - 1 - d2)))%rs);
            ns[k] += wo*pr*pr/nd;
          }
        }
        ns[k] = std::sqrt(ns[k]);
      }
      at("element-nonsmoothness", call(ens, e, 0), ns, 1e-9, as*1e-3);
      at("normalized-nonsmoothness", call(nns, e, 0), {ns[0]/l2[0], ns[1]/l2[1]}, 1e-9, 1e-3);
      // angles between the edges that meet at each corner
      bool adjusted = false;
      if (double* a = e.node_adjustments()) for (int j = 0; j < 2*nd*nfq; ++j) if (a[j] != 0) adjusted = true;
      double sk = 0, shortest = 1e300;
      for (int v = 0; v < (1 << nd); ++v) for (int a = 0; a < nd; ++a) for (int b = a + 1; b < nd; ++b) {
        auto edge = [&](int d) {int bit = 1 << (nd - 1 - d); Mat<3> x = e.vertex(v | bit).pos - e.vertex(v & ~bit).pos; return Mat<>(x.head(nd));};
        Mat<> x = edge(a), y = edge(b);
        shortest = std::min({shortest, x.norm(), y.norm()});
        sk = std::max(sk, std::abs(2*std::acos(std::min(1., std::max(-1., x.dot(y)/x.norm()/y.norm())))/M_PI - 1));
      }
      if (!adjusted && (nd == 1 || shortest > 1e-4*e.nominal_size())) {
        if (def) {at("skewness", call(eqs, e, 0), {sk}, 1e-6, 1e-6/(1.0001 - sk)); m.count("skewness-deformed");}
        else at("skewness", call(eqs, e, 0), {0}, 0, 1e-9);
      }
    }
    m.phase("integrals");
    Constant_func one(dvec{1.}); Qf_concat cat({&po, &comp, &one});
    auto in = s.sol->integral_field(cat);
    if (m.check(in.size() == 4, "size", "integral")) {
      dvec want {tot[0], tot[1], tot[2], vol}, sc {tot_abs[0], tot_abs[1], tot_abs[2], vol};
      for (int k = 0; k < 4; ++k) m.checkf(std::abs(in[k] - want[k]) <= 1e-11*sc[k], "field-integral", [&]{return s.desc + fmt(" %d: %.14g, sum over points %.14g", k, in[k], want[k]);});
    }
    // bounds: the sampled interpolant lies between the extremes found by an independent interpolation
    {
      int ns = rng.range(2, 6);
      auto bd = s.sol->bounds_field(comp, ns);
      double a = 1e300, b = -1e300;
      Mat<dyn, dyn> itp(ns, rs);
      for (int i = 0; i < ns; ++i) {double x = double(i)/(ns - 1); for (int j = 0; j < rs; ++j) {double l = 1; for (int k = 0; k < rs; ++k) if (k != j) l *= (x - basis.node(k))/(basis.node(j) - basis.node(k)); itp(i, j) = l;}}
      for (int i = 0; i < els.size(); ++i) {
        Mat<> x = math::hypercube_matvec(itp, Eigen::Map<Mat<>>(els[i].state() + nd*nq, nq));
        a = std::min(a, x.minCoeff()); b = std::max(b, x.maxCoeff());
      }
      m.checkf(bd.size() == 1 && nearly(bd[0][0], a, 1e-9, f.rho) && nearly(bd[0][1], b, 1e-9, f.rho), "field-bounds", [&]{return s.desc + fmt(" [%g %g], sampled [%g %g]", bd[0][0], bd[0][1], a, b);});
    }
    m.phase("surface functions");
    auto& bc = s.mesh->boundary_connections();
    std::map<int, dvec> bsum, babs;
    Outward_normal onf; Pressure_stress psf; Struct_expr bse("a = normal0 + 10.*normal1 + 100.*normal2; b = momentum0 + density + energy; c = visc_stress0 + mass_flux; d = heat_flux; e = time + pos0 - pos1 + 2.*pos2");
    Boundary_expr bef(bse, inter);
    Bf_concat bcat({&onf, &psf});
    s.sol->integral_surface(static_cast<const Boundary_func&>(onf), 0); // (writes the state to the faces)
    for (int i = 0; i < bc.size(); ++i) {
      auto& c = bc[i]; auto& e = c.element();
      int d = c.i_dim(); bool sg = c.inside_face_sign();
      auto& sum = bsum[c.bound_cond_serial_n()]; auto& ab = babs[c.bound_cond_serial_n()];
      sum.resize(2*nd, 0.); ab.resize(2*nd, 0.);
      // the state and the position on this face, interpolated independently
      Mat<dyn, dyn> bm(1, rs);
      for (int j = 0; j < rs; ++j) {double l = 1; for (int k = 0; k < rs; ++k) if (k != j) l *= (double(sg) - basis.node(k))/(basis.node(j) - basis.node(k)); bm(0, j) = l;}
      std::vector<Mat<>> fst; for (int v = 0; v < nv; ++v) fst.push_back(math::dimension_matvec(bm, Mat<>(Eigen::Map<Mat<>>(e.state() + v*nq, nq)), d));
      Mat<> ctr = Mat<>::Zero(nd), fctr = Mat<>::Zero(nd);
      for (int v = 0; v < (1 << nd); ++v) {ctr += e.vertex(v).pos.head(nd)/(1 << nd); if (((v >> (nd - 1 - d)) & 1) == sg) fctr += e.vertex(v).pos.head(nd)/(1 << (nd - 1));}
      for (int q = 0; q < nfq; ++q) {
        auto on = static_cast<const Boundary_func&>(onf)(c, q, time);
        auto ps = static_cast<const Boundary_func&>(psf)(c, q, time);
        Mat<> nr(nd); for (int k = 0; k < nd; ++k) nr(k) = c.surface_normal()[k*nfq + q];
        double mag = nr.norm();
        if (!(mag > 1e-8)) continue;
        Mat<> want = nr/mag*(sg ? -1 : 1), got = Eigen::Map<Mat<>>(on.data(), nd);
        m.checkf((got - want).norm() < 1e-12, "surface-normal", [&]{return s.desc;});
        double ke = 0; for (int k = 0; k < nd; ++k) ke += .5*fst[k](q)*fst[k](q)/fst[nd](q);
        double pr = .4*(fst[nd + 1](q) - ke);
        for (int k = 0; k < nd; ++k) m.checkf(nearly(ps[k], -pr*want(k), 1e-9, 1e-3*std::abs(pr) + 1e-6*fst[nd + 1](q)), "surface-pressure-stress", [&]{return s.desc + fmt(" %g, -p n = %g", ps[k], -pr*want(k));});
        double a = wf(q)*mag*math::pow(e.nominal_size(), nd - 1);
        for (int k = 0; k < nd; ++k) {sum[k] += a*on[k]; ab[k] += a; sum[nd + k] += a*ps[k]; ab[nd + k] += a*std::abs(pr);}
        if (q == 0) {
          auto ex = bef(c, q, time);
          Mat<> n3 = Mat<>::Zero(3), x3 = Mat<>::Zero(3); n3.head(nd) = want; for (int k = 0; k < nd; ++k) x3(k) = c.surface_position()[k*nfq + q];
          double fl = (mag > 1e-3 && viscous) ? (sg ? 1 : -1)/mag : 0;
          dvec ew {n3(0) + 10*n3(1) + 100*n3(2), fst[0](q) + fst[nd](q) + fst[nd + 1](q), fl*(c.flux_cache()[q] + c.flux_cache()[nd*nfq + q]), fl*c.flux_cache()[(nd + 1)*nfq + q], time + x3(0) - x3(1) + 2*x3(2)};
          if (m.check(ex.size() == ew.size(), "size", "boundary expression")) for (size_t k = 0; k < ew.size(); ++k) m.checkf(nearly(ex[k], ew[k], 1e-9, k == 0 ? 1 : k == 1 ? fst[nd + 1](q) : k == 4 ? std::abs(time) + x3.cwiseAbs().sum()*2 : 1e-3*std::abs(ew[k])), "boundary-expression", [&]{return s.desc + fmt(" expression %d: %g, definition %g", int(k), ex[k], ew[k]);});
        }
      }
      m.count("boundary-faces");
    }
    for (auto& b : bsum) {
      auto in = s.sol->integral_surface(bcat, b.first);
      if (m.check(int(in.size()) == 2*nd, "size", "surface integral")) for (int k = 0; k < 2*nd; ++k) m.checkf(std::abs(in[k] - b.second[k]) <= 1e-10*babs[b.first][k], "surface-integral", [&]{return s.desc + fmt(" bc %d component %d: %.14g, sum over points %.14g", b.first, k, in[k], b.second[k]);});
    }
    m.count("meshes-" + s.kind);
    m.evaluated(mon::mix(mon::hash_str(s.desc), els.size()));
    m.sample(s.desc);
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "point") run_point(m);
  #if HEXED_USE_NLOPT
  else if (m.mode == "ringleb") run_ringleb(m);
  #endif
  else if (m.mode == "mesh") run_mesh(m);
  else {fprintf(stderr, "unknown mode\n"); return 2;}
  return m.finish();
}
