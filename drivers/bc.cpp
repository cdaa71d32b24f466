// monitors of flow boundary conditions: every ghost state and flux observed on single faces, and heat and mass ledgers of walled domains
#include "flow.hpp"
#include "meshmon.hpp"
#include <Surface_func.hpp>
#include <Boundary_func.hpp>
#include <pde.hpp>

using namespace scene;
using mon::Monitor;

static int max_rs = config::max_row_size;

// a boundary face with separately allocated, exactly sized storage so that the sanitizer sees every stray access
struct Face : public Boundary_face
{
  Storage_params par; int d; bool s;
  int nfq, nv;
  std::vector<double> st[2][2], nrml, pos, sc, fc; // st[inside/ghost][state/ldg]
  Face(int nd, int rs, int i_dim, bool sign) : par{2, nd + 2, nd, rs}, d{i_dim}, s{sign}, nfq{int(math::pow(rs, nd - 1))}, nv{nd + 2}
  {
    // advection states are stored in the same place and may need more room than the flow state
    size_t n = std::max(nv, nd + par.n_advection(rs))*nfq;
    for (auto& a : st) for (auto& b : a) b.assign(n, 0.);
    nrml.assign(nd*nfq, 0.); pos.assign(nd*nfq, 0.); sc.assign(nv*nfq, 0.); fc.assign(nv*nfq, 0.);
  }
  Storage_params storage_params() override {return par;}
  double* ghost_face(bool l) override {return st[1][l].data();}
  double* inside_face(bool l) override {return st[0][l].data();}
  int i_dim() override {return d;}
  bool inside_face_sign() override {return s;}
  double* surface_normal() override {return nrml.data();}
  double* surface_position() override {return pos.data();}
  double* state_cache() override {return sc.data();}
  double* flux_cache() override {return fc.data();}
  double get(bool gh, bool ldg, int v, int q) const {return st[gh][ldg][v*nfq + q];}
  Mat<> vec(bool gh, bool ldg, int q) const {Mat<> r(nv); for (int v = 0; v < nv; ++v) r(v) = get(gh, ldg, v, q); return r;}
  Mat<> normal(int q) const {Mat<> n(par.n_dim); for (int i = 0; i < par.n_dim; ++i) n(i) = nrml[i*nfq + q]; return n;}
};

static double pres(const Mat<>& u) {int nd = u.size() - 2; return .4*(u(nd + 1) - .5*u.head(nd).squaredNorm()/u(nd));}
static double p_scale(const Mat<>& u) {return u(u.size() - 1);}
static double sound(const Mat<>& u) {int nd = u.size() - 2; return std::sqrt(1.4*std::max(pres(u), 0.)/u(nd));}

// amplitudes of the characteristic waves of the perturbation du about the state u: {speed, amplitude}; acoustic -, acoustic +, then entropy and shear
struct Waves {double lo, hi, mid; double a_lo, a_hi, ent; Mat<> shear;};
static Waves waves(const Mat<>& u, const Mat<>& n, const Mat<>& du)
{
  int nd = n.size();
  Mat<> nh = n/n.norm(), vel = u.head(nd)/u(nd);
  double c = sound(u), un = vel.dot(nh);
  Mat<> dvel = (du.head(nd) - vel*du(nd))/u(nd);
  double dp = .4*(du(nd + 1) - vel.dot(du.head(nd)) + .5*vel.squaredNorm()*du(nd));
  Waves w;
  w.lo = un - c; w.hi = un + c; w.mid = un;
  w.a_lo = dp - u(nd)*c*dvel.dot(nh);
  w.a_hi = dp + u(nd)*c*dvel.dot(nh);
  w.ent = dp - c*c*du(nd);
  w.shear = (dvel - nh*dvel.dot(nh))*u(nd)*c;
  return w;
}

struct Func : public Surface_func
{
  int nd; double a, b; mutable long calls = 0; mutable bool poisoned = false;
  int n_var(int) const override {return nd + 2;}
  std::string variable_name(int, int) const override {return "x";}
  std::vector<double> operator()(std::vector<double> p, double t, std::vector<double> s, std::vector<double> n) const override
  {
    ++calls;
    std::vector<double> r(nd + 2);
    for (int v = 0; v < nd + 2; ++v) r[v] = poisoned ? -7e7 : a*p[v%nd] + b*(v + 1)*n[v%nd] + .25*s[v] + 3*v;
    return r;
  }
};

static void run_unit(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(1, 3), rs = rng.range(2, max_rs);
    bool sign = rng.below(2);
    Face f(nd, rs, rng.below(nd), sign);
    int nfq = f.nfq, nv = nd + 2;
    auto pr = rng.pick(std::vector<std::pair<double, double>>{{1.2, 1e5}, {1., 1.}, {1e-3, 1e-2}, {900., 3e7}, {1e-4, 20.}, {1., 30.}});
    double rho0 = pr.first, p0 = pr.second;
    double c0 = std::sqrt(1.4*p0/rho0);
    int regime = rng.below(4); // any, subsonic, supersonic outflow, supersonic inflow
    double sg = sign ? 1 : -1;
    auto rand_state = [&](Mat<> n, double spread) {
      Mat<> u(nv);
      double rho = rho0*std::exp(spread*rng.normal()*.5), p = p0*std::exp(spread*rng.normal()*.5), c = std::sqrt(1.4*p/rho);
      Mat<> vel(nd);
      for (int i = 0; i < nd; ++i) vel(i) = c*rng.normal()*(rng.chance(.1) ? 0. : 1.);
      Mat<> nh = n/n.norm();
      double un = regime == 0 ? c*rng.normal()*2 : regime == 1 ? c*rng.uniform(-.95, .95) : regime == 2 ? sg*c*rng.uniform(1.05, 6) : -sg*c*rng.uniform(1.05, 6);
      vel += (un - vel.dot(nh))*nh;
      u.head(nd) = rho*vel; u(nd) = rho; u(nd + 1) = p/.4 + .5*rho*vel.squaredNorm();
      return u;
    };
    double area = rng.pick(std::vector<double>{1., 1e-3, 50.});
    for (int q = 0; q < nfq; ++q) {
      Mat<> n(nd);
      if (rng.chance(.3)) {n.setZero(); n(f.d) = area;}
      else {for (int i = 0; i < nd; ++i) n(i) = rng.normal(); n *= area*rng.uniform(.1, 2)/n.norm();}
      for (int i = 0; i < nd; ++i) {f.nrml[i*nfq + q] = n(i); f.pos[i*nfq + q] = rng.normal();}
      Mat<> u = rand_state(n, .6);
      for (int v = 0; v < nv; ++v) {
        f.st[0][0][v*nfq + q] = u(v);
        f.st[0][1][v*nfq + q] = rng.normal()*p0*c0*n.norm();
        f.st[1][0][v*nfq + q] = NAN; f.st[1][1][v*nfq + q] = NAN;
      }
    }
    Mat<> fs = rand_state(f.normal(0), .6);
    double scale_flux = p0*c0*area;
    int kind = rng.below(9);
    std::string name;
    std::unique_ptr<Flow_bc> bc;
    Func fun; fun.nd = nd; fun.a = rng.normal(); fun.b = rng.normal();
    double ps = p0*rng.uniform(.3, 3), coef = 2, en = p0/rho0/.4*rng.uniform(.3, 3), hf = rng.chance(.2) ? 0. : p0*c0*rng.normal();
    std::shared_ptr<Thermal_bc> th;
    Thermal_equilibrium* eq = nullptr;
    int th_kind = 0;
    switch (kind) {
      case 0: name = "freestream"; bc.reset(new Freestream(fs)); break;
      case 1: case 2: name = "characteristic"; bc.reset(new Riemann_invariants(fs)); kind = 1; break;
      case 3: name = "pressure_outflow"; bc.reset(new Pressure_outflow(ps)); break;
      case 4: name = rng.chance(.5) ? "function" : "cache"; if (name == "function") bc.reset(new Function_bc(fun)); else {auto* g = new Func; g->nd = nd; g->a = fun.a; g->b = fun.b; bc.reset(new Cache_bc(g));} break;
      case 5: name = "nonpenetration"; bc.reset(new Nonpenetration); break;
      case 6: case 7: {
        kind = 6; th_kind = rng.below(3);
        if (th_kind == 0) th = std::make_shared<Prescribed_energy>(en);
        else if (th_kind == 1) th = std::make_shared<Prescribed_heat_flux>(hf);
        else {auto e = std::make_shared<Thermal_equilibrium>(); e->emissivity = rng.chance(.3) ? 0 : rng.uniform(0, 1); e->heat_transfer_coef = rng.chance(.3) ? 0 : rho0*c0*rng.uniform(0, 1); e->temperature = p0/rho0/287.05287*rng.uniform(.3, 2); th = e; eq = e.get();}
        coef = rng.pick(std::vector<double>{2., 2., 1., 5.});
        name = std::vector<std::string>{"no_slip energy", "no_slip heat flux", "no_slip equilibrium"}[th_kind];
        bc.reset(new No_slip(th, coef));
        break;
      }
      default: name = rng.chance(.5) ? "copy" : "outflow"; if (name == "copy") bc.reset(new Copy); else bc.reset(new Outflow); kind = 8;
    }
    std::string ctx = fmt("nd=%d rs=%d sign %d regime %d ", nd, rs, int(sign), regime) + name;
    bool th_is_energy = kind == 6 && th_kind == 0; // the energy is extrapolated without regard to the kinetic energy
    m.phase(name);
    auto in0 = f.st[0][0], inl0 = f.st[0][1], nr0 = f.nrml, po0 = f.pos;
    if (name == "cache") {
      bc->init_cache(f);
      // the cache must be independent of what happens to the inside later
      for (int q = 0; q < nfq; ++q) {Mat<> u = rand_state(f.normal(q), .6); for (int v = 0; v < nv; ++v) f.st[0][0][v*nfq + q] = u(v);}
    }
    auto in1 = f.st[0][0];
    bc->apply_state(f);
    auto gh = f.st[1][0];
    if (kind != 4 || name == "function") for (double& x : f.st[1][1]) x = NAN;
    bc->apply_flux(f);
    m.check(f.st[0][0] == in1 && f.st[0][1] == inl0, "inside-changed", ctx);
    m.check(f.nrml == nr0 && f.pos == po0, "geometry-changed", ctx);
    f.st[1][0] = gh; // (applying the flux may also overwrite the ghost state, which has been used by then)
    for (int q = 0; q < nfq; ++q) {
      Mat<> in = f.vec(0, 0, q), g = f.vec(1, 0, q), fi = f.vec(0, 1, q), fg = f.vec(1, 1, q), n = f.normal(q), nh = n/n.norm();
      double c = sound(in), un = in.head(nd).dot(nh)/in(nd)*sg; // positive out of the domain
      Mat<> scl(nv); for (int i = 0; i < nd; ++i) scl(i) = in(nd)*(c + in.head(nd).norm()/in(nd)); scl(nd) = in(nd); scl(nd + 1) = in(nd + 1);
      auto same = [&](const Mat<>& a, const Mat<>& b, const char* key, double tol = 1e-12) {for (int v = 0; v < nv; ++v) m.checkf(std::abs(a(v) - b(v)) <= tol*(std::abs(scl(v)) + std::abs(b(v))), key, [&]{return ctx + fmt(" var %d: %.12g, expected %.12g", v, a(v), b(v));});};
      auto fsame = [&](const Mat<>& a, const Mat<>& b, const char* key, double tol = 1e-12) {for (int v = 0; v < nv; ++v) m.checkf(std::abs(a(v) - b(v)) <= tol*(scale_flux + std::abs(fi.norm())), key, [&]{return ctx + fmt(" var %d: flux %.12g, expected %.12g", v, a(v), b(v));});};
      if (name != "function" && name != "cache") {
        bool fin = g.allFinite();
        m.checkf(fin && g(nd) > 0 && g(nd + 1) >= 0 && (pres(g) >= -1e-9*g(nd + 1) || th_is_energy), "ghost-inadmissible", [&]{return ctx + fmt(" density %g energy %g pressure %g", g(nd), g(nd + 1), pres(g));});
        m.checkf(fg.allFinite(), "ghost-flux-not-finite", [&]{return ctx;});
      }
      if (kind == 0) {same(g, fs, "freestream-state", 0); fsame(fg, fi, "freestream-flux", 0);}
      else if (kind == 1) {
        // limits of the ghost state that keep it admissible
        double ke_in = in(nd + 1) - pres(in)/.4;
        Waves w = waves(in, n, g - in), wf = waves(in, n, g - fs), base = waves(in, n, in), fl = waves(in, n, fs);
        bool limited = g(nd) <= in(nd)*.5*(1 + 1e-9) || pres(g)/.4 <= (in(nd + 1) - ke_in)*.5*(1 + 1e-9);
        double amp = p_scale(in) + p_scale(fs) + in(nd)*c*c + std::abs(base.a_lo) + std::abs(base.a_hi) + std::abs(fl.a_lo) + std::abs(fl.a_hi) + std::abs(fl.ent) + fl.shear.norm() + base.shear.norm();
        double tol = 1e-9*amp*(1 + math::pow(in.head(nd).norm()/in(nd)/c, 2));
        auto incoming = [&](double sp) {return sp*sg < 0;};
        if (!limited) {
          m.checkf(std::abs(incoming(w.lo) ? wf.a_lo : w.a_lo) <= tol, incoming(w.lo) ? "char-incoming" : "char-outgoing", [&]{return ctx + fmt(" wave at %g: %g (scale %g)", w.lo, incoming(w.lo) ? wf.a_lo : w.a_lo, amp);});
          m.checkf(std::abs(incoming(w.hi) ? wf.a_hi : w.a_hi) <= tol, incoming(w.hi) ? "char-incoming" : "char-outgoing", [&]{return ctx + fmt(" wave at %g: %g (scale %g)", w.hi, incoming(w.hi) ? wf.a_hi : w.a_hi, amp);});
          m.checkf(std::abs(incoming(w.mid) ? wf.ent : w.ent) <= tol, incoming(w.mid) ? "char-incoming" : "char-outgoing", [&]{return ctx + fmt(" entropy wave at %g: %g (scale %g)", w.mid, incoming(w.mid) ? wf.ent : w.ent, amp);});
          m.checkf((incoming(w.mid) ? wf.shear : w.shear).norm() <= tol, incoming(w.mid) ? "char-incoming" : "char-outgoing", [&]{return ctx + fmt(" shear wave at %g", w.mid);});
          m.count("characteristics-unlimited");
        } else m.count("characteristics-limited");
        if (un > c*1.0001) {same(g, in, "char-supersonic-outflow", 1e-9); m.count("char-supersonic-outflow");}
        if (un < -c*1.0001 && !limited) {same(g, fs, "char-supersonic-inflow", 1e-9*(1 + in.head(nd).squaredNorm()/math::pow(in(nd)*c, 2))); m.count("char-supersonic-inflow");}
        // the viscous flux: incoming waves carry the flux from the inside, outgoing waves none
        Waves fw = waves(in, n, fg), fd = waves(in, n, fg - fi), fb = waves(in, n, fi);
        double fa = std::abs(fb.a_lo) + std::abs(fb.a_hi) + std::abs(fb.ent) + fb.shear.norm();
        double ft = 1e-9*fa*(1 + math::pow(in.head(nd).norm()/in(nd)/c, 2));
        m.checkf(std::abs(incoming(w.lo) ? fd.a_lo : fw.a_lo) <= ft && std::abs(incoming(w.hi) ? fd.a_hi : fw.a_hi) <= ft && std::abs(incoming(w.mid) ? fd.ent : fw.ent) <= ft && (incoming(w.mid) ? fd.shear : fw.shear).norm() <= ft, "char-flux", [&]{return ctx;});
      } else if (kind == 3) {
        if (un < c*(1 - 1e-9)) {
          m.checkf(std::abs(pres(g) - ps) <= 1e-9*(ps + g(nd + 1)), "outflow-pressure", [&]{return ctx + fmt(" pressure %g, specified %g", pres(g), ps);});
          for (int v = 0; v <= nd; ++v) m.check(g(v) == in(v), "outflow-other", ctx);
          m.count("pressure-imposed");
        } else if (un > c*(1 + 1e-9)) {same(g, in, "outflow-supersonic", 0); m.count("pressure-free");}
        fsame(fg + fi, Mat<>::Zero(nv), "outflow-flux", 0);
      } else if (name == "function" || name == "cache") {
        std::vector<double> p(nd), nn(nd), s(nv);
        for (int i = 0; i < nd; ++i) {p[i] = f.pos[i*nfq + q]; nn[i] = f.nrml[i*nfq + q];}
        for (int v = 0; v < nv; ++v) s[v] = in0[v*nfq + q];
        auto want = fun(p, 0, s, nn);
        for (int v = 0; v < nv; ++v) m.checkf(g(v) == want[v], "function-state", [&]{return ctx + fmt(" var %d: %g, function %g", v, g(v), want[v]);});
        fsame(fg, fi, "function-flux", 0);
      } else if (kind == 5) {
        Mat<> avg = .5*(g + in), fav = .5*(fg + fi);
        m.checkf(std::abs(avg.head(nd).dot(nh)) <= 1e-12*scl(0), "wall-normal-velocity", [&]{return ctx + fmt(" normal momentum %g", avg.head(nd).dot(nh));});
        Mat<> tang = avg.head(nd) - nh*avg.head(nd).dot(nh), tin = in.head(nd) - nh*in.head(nd).dot(nh);
        m.checkf((tang - tin).norm() <= 1e-12*scl(0), "wall-tangential-velocity", [&]{return ctx;});
        m.check(g(nd) == in(nd) && g(nd + 1) == in(nd + 1), "wall-density-energy", ctx);
        m.checkf(std::abs(g.head(nd).norm() - in.head(nd).norm()) <= 1e-12*scl(0), "wall-speed", [&]{return ctx;});
        m.checkf(std::abs(fav(nd)) <= 0 && std::abs(fav(nd + 1)) <= 0, "wall-heat-mass-flux", [&]{return ctx;});
        Mat<> ft = fav.head(nd) - nh*fav.head(nd).dot(nh);
        m.checkf(ft.norm() <= 1e-12*fi.norm(), "wall-shear-flux", [&]{return ctx;});
        m.checkf(std::abs((fav - fi).head(nd).dot(nh)) <= 1e-12*fi.norm(), "wall-normal-stress", [&]{return ctx;});
      } else if (kind == 6) {
        Mat<> avg = .5*(g + in), fav = .5*(fg + fi);
        m.check(avg.head(nd).norm() == 0, "no-slip-velocity", ctx);
        m.check(g(nd) == in(nd), "no-slip-density", ctx);
        for (int i = 0; i < nd; ++i) m.check(fg(i) == fi(i), "no-slip-stress", ctx);
        m.check(fav(nd) == 0, "no-slip-mass-flux", ctx);
        double target = th_kind == 0 ? fi(nd + 1) : 0;
        if (th_kind == 0) {
          // the prescribed energy lies between the inside and the ghost, at their geometric mean
          double e = en*in(nd);
          m.checkf(std::abs(std::sqrt(g(nd + 1)/e*in(nd + 1)/e) - 1) < 1e-12, "no-slip-energy", [&]{return ctx + fmt(" inside %g ghost %g prescribed %g", in(nd + 1), g(nd + 1), e);});
        } else {
          m.checkf(g(nd + 1) == in(nd + 1) || std::abs(g(nd + 1)/in(nd + 1) - 1) < 1e-14, "no-slip-energy-free", [&]{return ctx;});
          double q_out;
          if (th_kind == 1) q_out = hf;
          else {
            double temp = avg(nd + 1)*.4/avg(nd)/287.05287;
            q_out = eq->emissivity*5.670374419e-8*temp*temp*temp*temp + eq->heat_transfer_coef*(temp - eq->temperature);
          }
          target = q_out*sg*n.norm();
        }
        // coercion 2 makes the average of both sides equal to the prescribed flux, other values move it that way
        double want = fi(nd + 1) + .5*coef*(target - fi(nd + 1));
        m.checkf(std::abs(fav(nd + 1) - want) <= 1e-9*(std::abs(target) + std::abs(fi(nd + 1)))*coef, "no-slip-heat-flux", [&]{return ctx + fmt(" coercion %g: average flux %g inside %g prescribed %g", coef, fav(nd + 1), fi(nd + 1), target);});
        m.count(name);
      } else {
        same(g, in, "copy-state", 0);
        if (name == "copy") fsame(fg, fi, "copy-flux", 0);
        else fsame(fg + fi, Mat<>::Zero(nv), "outflow-flux", 0);
      }
    }
    // a boundary condition is transparent to its own state, and a uniform state at rest passes through walls
    if (kind <= 1) {
      for (int q = 0; q < nfq; ++q) for (int v = 0; v < nv; ++v) f.st[0][0][v*nfq + q] = fs(v);
      bc->apply_state(f);
      for (int q = 0; q < nfq; ++q) {
        Mat<> g = f.vec(1, 0, q);
        double M = fs.head(nd).norm()/fs(nd)/sound(fs);
        for (int v = 0; v < nv; ++v) m.checkf(std::abs(g(v) - fs(v)) <= 1e-11*(1 + M*M)*(fs(nd + 1) + std::abs(fs(v))*0 + (v < nd ? fs(nd)*sound(fs)*(1 + M) : v == nd ? fs(nd) : fs(nd + 1)) - fs(nd + 1)), "transparent", [&]{return ctx + fmt(" var %d: %.12g freestream %.12g", v, g(v), fs(v));});
      }
      m.count("transparent");
    }
    // the answer does not depend on the orientation of the face's axis or on the size of the face
    if (name != "function" && name != "cache") {
      Face h(nd, rs, rng.below(nd), !sign);
      double k = rng.pick(std::vector<double>{1., 1e-3, 40.});
      h.st[0][0] = in0;
      for (size_t i = 0; i < inl0.size(); ++i) h.st[0][1][i] = -inl0[i]*k; // fluxes refer to the axis of the face
      for (size_t i = 0; i < nr0.size(); ++i) h.nrml[i] = -nr0[i]*k;
      h.pos = po0;
      f.st[0][0] = in0;
      bc->apply_state(f); bc->apply_flux(f);
      bc->apply_state(h); bc->apply_flux(h);
      for (int q = 0; q < nfq; ++q) {
        Mat<> in = f.vec(0, 0, q), a = f.vec(1, 0, q), b = h.vec(1, 0, q), fa = f.vec(1, 1, q), fb = h.vec(1, 1, q);
        double c = sound(in), M = in.head(nd).norm()/in(nd)/c, un = std::abs(in.head(nd).dot(f.normal(q)))/f.normal(q).norm()/in(nd);
        if (std::abs(un - c) < 1e-9*c || un < 1e-9*c) continue; // on the verge of a change of regime
        for (int v = 0; v < nv; ++v) {
          double s = (v < nd ? in(nd)*c*(1 + M) : in(v)) + std::abs(a(v));
          m.checkf(std::abs(a(v) - b(v)) <= 1e-9*(1 + M*M)*s, "orientation-state", [&]{return ctx + fmt(" var %d: %g vs %g", v, a(v), b(v));});
          m.checkf(std::abs(fa(v)*k + fb(v)) <= 1e-9*(1 + M*M*M)*(fa.norm() + scale_flux)*k, "orientation-flux", [&]{return ctx + fmt(" var %d: %g vs %g (area ratio %g)", v, fa(v), fb(v), k);});
        }
      }
      m.count("orientations");
    }
    // conditions of the auxiliary equations
    {
      int na = f.par.n_advection(rs);
      for (auto& x : f.st[0][0]) x = rng.normal();
      for (auto& x : f.st[0][1]) x = rng.normal();
      for (auto& x : f.st[1][0]) x = NAN;
      f.nrml = nr0;
      auto keep = f.st[0][0];
      bc->apply_advection(f);
      m.check(f.st[0][0] == keep, "inside-changed", ctx + " advection");
      for (int q = 0; q < nfq; ++q) {
        Mat<> vi(nd), vg(nd), nh = f.normal(q)/f.normal(q).norm();
        for (int i = 0; i < nd; ++i) {vi(i) = f.get(0, 0, i, q); vg(i) = f.get(1, 0, i, q);}
        double err = kind == 5 ? std::abs((vi + vg).dot(nh)) + ((vg - vi) - nh*(vg - vi).dot(nh)).norm() : kind == 6 ? (vi + vg).norm() : (vi - vg).norm();
        m.checkf(err <= 1e-13*(vi.norm() + 1), "advection-velocity", [&]{return ctx;});
        int n_check = kind == 8 && name == "copy" ? 2 : na; // (copy copies as many variables as the flow state has)
        for (int i = 0; i < n_check; ++i) {
          double a = f.get(0, 0, nd + i, q), b = f.get(1, 0, nd + i, q);
          double want = kind == 5 || kind == 6 || name == "copy" ? a : 2 - a;
          m.checkf(std::abs(b - want) <= 1e-13*(1 + std::abs(a)), "advection-scalar", [&]{return ctx + fmt(" %g -> %g", a, b);});
        }
      }
      for (auto& x : f.st[1][0]) x = NAN;
      for (auto& x : f.st[1][1]) x = NAN;
      bc->apply_diffusion(f);
      bc->flux_diffusion(f);
      for (int q = 0; q < nfq; ++q) {
        m.check(f.vec(1, 0, q) == f.vec(0, 0, q), "diffusion-state", ctx);
        m.check(f.vec(1, 1, q) == -f.vec(0, 1, q), "diffusion-flux", ctx);
      }
    }
    m.count("bc:" + name);
    m.evaluated(mon::mix(mon::hash_str(ctx), rng.next()));
    m.sample(ctx);
  });
}

// ---------------------------------------------------------------- walled domains
static void run_walls(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Scene_opts o;
    o.nd = rng.chance(.5) ? 2 : 3;
    o.rs = rng.range(2, max_rs);
    o.kind = rng.pick(std::vector<std::string>{"block", "tree", "surf", "surf"});
    o.size = 3;
    Flow_field f = random_field(rng, o.nd, 1, Mat<>::Zero(3));
    std::map<int, double> heat;
    std::vector<std::pair<No_slip*, double>> walls;
    o.bc = [&](int, std::string& name) -> Flow_bc* {
      if (rng.chance(.3)) {name = "nonpenetration"; walls.push_back({nullptr, 0.}); return new Nonpenetration;}
      double h = rng.chance(.3) ? 0 : f.p*f.sound()*rng.uniform(-.2, .2);
      name = fmt("no_slip %g", h);
      auto* w = new No_slip(std::make_shared<Prescribed_heat_flux>(h));
      walls.push_back({w, h});
      return w;
    };
    uint64_t tr = rng.next();
    o.transport = [&](double root, bool cond) {Rng r(tr + cond); return random_transport(r, f, root, cond);};
    m.phase("make scene");
    auto sp = make_scene(rng, o);
    auto& s = *sp;
    if (!s.elems().size()) return;
    f.len = s.root*.4;
    s.sol->initialize(f);
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    m.phase("residual");
    s.record(true);
    s.sol->compute_residual();
    s.record(false);
    int nd = s.nd, nq = s.nq(), nfq = nq/s.rs;
    Gauss_legendre basis(s.rs);
    Mat<> wf = math::pow_outer(basis.node_weights(), nd - 1), w = math::pow_outer(basis.node_weights(), nd);
    auto& bc = s.mesh->boundary_connections();
    double out = 0, out_abs = 0, area = 0;
    bool all_walls = true;
    Heat_flux hf; Viscous_stress vs;
    for (int i = 0; i < bc.size(); ++i) {
      auto* fb = s.mesh->boundary_condition(bc[i].bound_cond_serial_n()).flow_bc.get();
      auto* rec = dynamic_cast<Rec_bc*>(fb);
      Flow_bc* inner = rec ? rec->inner.get() : fb;
      auto* ns = dynamic_cast<No_slip*>(inner);
      double h = 0;
      bool found = dynamic_cast<Nonpenetration*>(inner);
      for (auto& p : walls) if (p.first && p.first == ns) {h = p.second; found = true;}
      if (!found) {all_walls = false; continue;}
      for (int q = 0; q < nfq; ++q) {
        double n2 = 0;
        for (int d = 0; d < nd; ++d) n2 += math::pow(bc[i].surface_normal()[d*nfq + q], 2);
        double a = wf(q)*std::sqrt(n2)*math::pow(bc[i].element().nominal_size(), nd - 1);
        out += h*a; out_abs += std::abs(h)*a; area += a;
        if (std::sqrt(n2) > 2e-3) {
          // what the surface functions report must be the flux on that face, in the documented direction
          double sg = bc[i].inside_face_sign() ? 1 : -1;
          double raw = bc[i].flux_cache()[(nd + 1)*nfq + q]*sg/std::sqrt(n2);
          m.checkf(std::abs(hf(bc[i], q, 0.)[0] - raw) <= 1e-12*std::abs(raw), "reported-heat-flux", [&]{return s.desc + fmt(": heat flux into the surface %g, Heat_flux gives %g", raw, hf(bc[i], q, 0.)[0]);});
          auto t = vs(bc[i], q, 0.);
          for (int d = 0; d < nd; ++d) {
            double st = bc[i].flux_cache()[d*nfq + q]*sg/std::sqrt(n2); // momentum leaving the domain = force of the flow on the surface
            m.checkf(std::abs(t[d] - st) <= 1e-12*std::abs(st), "reported-stress", [&]{return s.desc + fmt(": force on the surface %g, Viscous_stress gives %g", st, t[d]);});
          }
        }
      }
    }
    if (!s.has_ldg) {m.count("skipped-inviscid"); return;}
    if (!all_walls) {m.count("skipped-open"); return;}
    double mass = 0, mass_abs = 0, en = 0, en_abs = 0;
    for (int i = 0; i < s.elems().size(); ++i) {
      auto& e = s.elems()[i];
      for (int q = 0; q < nq; ++q) {
        double k = w(q)*math::pow(e.nominal_size(), nd)*e.jacobian_determinant(q);
        double a = k*e.residual_cache()[nd*nq + q], b = k*e.residual_cache()[(nd + 1)*nq + q];
        mass += a; mass_abs += std::abs(a); en += b; en_abs += std::abs(b);
      }
    }
    Mat<> sc = state_scale(f);
    double sp2 = f.sound()*(1 + f.mach)*area;
    m.close(mass, 1e-11*(mass_abs + sc(nd)*sp2), "wall-mass", s.desc);
    m.close(en + out, 1e-10*(en_abs + out_abs + sc(nd + 1)*sp2), "wall-heat", s.desc + fmt(": rate of energy %g, heat flux through walls %g of %g", en, out, out_abs));
    if (out_abs) m.count("heated-walls"); else m.count("adiabatic");
    m.evaluated(mon::mix(mon::hash_str(s.desc), s.mesh->n_elements()));
    m.sample(s.desc);
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "unit") run_unit(m);
  else if (m.mode == "walls") run_walls(m);
  else {fprintf(stderr, "unknown mode\n"); return 2;}
  return m.finish();
}
