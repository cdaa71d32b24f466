// monitors of consistency and order of accuracy: the right-hand side observed at the points of real solvers against
// the exact divergence of the fluxes of analytically known flows
#include "flow.hpp"
#include "meshmon.hpp"

using namespace scene;
using mon::Monitor;
typedef long double real;

static int max_rs = config::max_row_size;
static const double gas = constants::specific_gas_air;

//! analytically known primitive variables (velocity, density, pressure), and the physics they obey
struct Exact
{
  int nd;
  std::function<void(const real* x, real* prim)> prim;
  real mu = 0, k = 0, bulk = 0, lap = 0;      // constant transport coefficients...
  bool suth_mu = false, suth_k = false;       // ...or scaled by Sutherland's law
  real t_ref = 1, t_off = 1;
  real len = 1;                               // length scale of variation
  real coef(real c, bool suth, real t) const {return suth ? c*std::pow(t/t_ref, 1.5L)*(t_ref + t_off)/(t + t_off) : c;}
  void cons(const real* x, real* u) const
  {
    real q[5]; prim(x, q);
    real ke = 0;
    for (int d = 0; d < nd; ++d) {u[d] = q[d]*q[nd]; ke += q[d]*q[d];}
    u[nd] = q[nd]; u[nd + 1] = q[nd + 1]/.4L + .5L*q[nd]*ke;
  }
  // eighth-order central differences: exact for the polynomials used, negligible error for the rest
  template <typename F> void diff(const real* x, int d, int n, real h, F f, real* out) const
  {
    static const real c[4] {4.L/5, -1.L/5, 4.L/105, -1.L/280};
    for (int i = 0; i < n; ++i) out[i] = 0;
    for (int s = 1; s <= 4; ++s) for (int sg : {-1, 1}) {
      real y[3] {x[0], nd > 1 ? x[1] : 0, nd > 2 ? x[2] : 0}; y[d] += sg*s*h;
      real v[5]; f(y, v);
      for (int i = 0; i < n; ++i) out[i] += sg*c[s - 1]*v[i]/h;
    }
  }
  //! flux of every variable in direction `d`
  void flux(const real* x, int d, real* f) const
  {
    real q[5], u[5]; prim(x, q); cons(x, u);
    for (int i = 0; i < nd + 2; ++i) f[i] = u[i]*q[d];
    f[d] += q[nd + 1]; f[nd + 1] += q[nd + 1]*q[d];
    if (mu != 0 || k != 0 || bulk != 0 || lap != 0) {
      real h = len/50, g[3][5], gc[3][5];
      auto pr = [&](const real* y, real* v) {prim(y, v); v[nd + 1] = v[nd + 1]/v[nd]/gas;}; // velocity, density, temperature
      auto cn = [&](const real* y, real* v) {cons(y, v);};
      for (int e = 0; e < nd; ++e) {diff(x, e, nd + 2, h, pr, g[e]); if (lap != 0) diff(x, e, nd + 2, h, cn, gc[e]);}
      real t = q[nd + 1]/q[nd]/gas, m = coef(mu, suth_mu, t), kk = coef(k, suth_k, t), dv = 0, work = 0;
      for (int e = 0; e < nd; ++e) dv += g[e][e];
      for (int e = 0; e < nd; ++e) {
        real tau = m*(g[e][d] + g[d][e]) + (e == d ? (bulk*q[nd] - 2*m/3)*dv : 0);
        f[e] -= tau; work += tau*q[e];
      }
      f[nd + 1] -= work + kk*g[d][nd + 1];
      if (lap != 0) for (int i = 0; i < nd + 2; ++i) f[i] -= lap*gc[d][i];
    }
  }
  //! time derivative of the conserved variables, and the size of its largest constituents
  void rhs(const real* x, real* r, real* size) const
  {
    for (int i = 0; i < nd + 2; ++i) r[i] = 0;
    for (int d = 0; d < nd; ++d) {
      real g[5];
      diff(x, d, nd + 2, len/50, [&](const real* y, real* v) {flux(y, d, v);}, g);
      for (int i = 0; i < nd + 2; ++i) {r[i] -= g[i]; size[i] = std::max(size[i], std::abs(g[i]));}
    }
  }
};

struct Exact_func : public Spacetime_func
{
  const Exact* ex;
  int n_var(int nd) const override {return nd + 2;}
  std::vector<double> operator()(std::vector<double> p, double) const override
  {
    real x[3] {0, 0, 0}, u[5];
    for (int d = 0; d < ex->nd; ++d) x[d] = p[d];
    ex->cons(x, u);
    std::vector<double> v; for (int i = 0; i < ex->nd + 2; ++i) v.push_back(u[i]);
    return v;
  }
};

//! exact state in the ghost face; viscous flux continues
struct Exact_bc : public Copy
{
  const Exact* ex;
  Exact_bc(const Exact* e) : ex{e} {}
  void apply_state(Boundary_face& bf) override
  {
    auto pr = bf.storage_params();
    int nfq = pr.n_qpoint()/pr.row_size;
    for (int q = 0; q < nfq; ++q) {
      real x[3] {0, 0, 0}, u[5];
      for (int d = 0; d < pr.n_dim; ++d) x[d] = bf.surface_position()[d*nfq + q];
      ex->cons(x, u);
      for (int i = 0; i < pr.n_dim + 2; ++i) bf.ghost_face(false)[i*nfq + q] = u[i];
    }
  }
  void apply_flux(Boundary_face& bf) override
  {
    auto pr = bf.storage_params();
    int n = (pr.n_dim + 2)*pr.n_qpoint()/pr.row_size;
    std::copy_n(bf.inside_face(true), n, bf.ghost_face(true));
  }
};

//! random polynomial of total degree `deg` in (x - c)/len, of unit magnitude
struct Poly
{
  int nd; std::vector<std::array<int, 3>> e; std::vector<real> a; std::array<real, 3> c; real len;
  Poly() = default;
  Poly(Rng& rng, int n_dim, int deg, Mat<> ctr, real l) : nd{n_dim}, len{l}
  {
    for (int d = 0; d < 3; ++d) c[d] = d < nd ? ctr(d) : 0;
    real s = 0;
    for (int i = 0; i <= deg; ++i) for (int j = 0; j <= (nd > 1 ? deg - i : 0); ++j) for (int k = 0; k <= (nd > 2 ? deg - i - j : 0); ++k) {
      if (!(i + j + k)) continue;
      e.push_back({i, j, k}); a.push_back(rng.uniform(-1, 1)); s += std::abs(a.back());
    }
    for (auto& x : a) x /= s;
  }
  real operator()(const real* x) const
  {
    real r = 0;
    for (size_t i = 0; i < e.size(); ++i) {real t = a[i]; for (int d = 0; d < nd; ++d) for (int k = 0; k < e[i][d]; ++k) t *= (x[d] - c[d])/len; r += t;}
    return r;
  }
};

static void extent(Flow_scene& s, Mat<>& ctr, double& len)
{
  Mat<> lo = Mat<>::Constant(s.nd, 1e300), hi = -lo;
  for (int i = 0; i < s.elems().size(); ++i) for (int v = 0; v < (1 << s.nd); ++v) {
    Mat<> p = s.elems()[i].vertex(v).pos.head(s.nd);
    lo = lo.cwiseMin(p); hi = hi.cwiseMax(p);
  }
  ctr = (lo + hi)/2; len = (hi - lo).maxCoeff()*.5;
}

static Exact physics(Rng& rng, const Flow_field& f, double len, bool linear, bool inviscid_only, std::string& desc)
{
  Exact ex; ex.nd = f.nd; ex.len = len;
  real t = f.p/f.rho/gas;
  ex.t_ref = t*rng.uniform(.5, 2); ex.t_off = t*rng.uniform(.2, 1);
  if (!inviscid_only) {
    real m = f.rho*f.sound()*len/rng.uniform(5, 100);
    if (rng.chance(.7)) {ex.mu = m; ex.suth_mu = !linear && rng.chance(.5); desc += ex.suth_mu ? " sutherland viscosity" : " viscosity";}
    if (rng.chance(.7)) {ex.k = m*1.4*gas/.4/.7; ex.suth_k = !linear && rng.chance(.5); desc += ex.suth_k ? " sutherland conductivity" : " conductivity";}
    if (rng.chance(.3)) {ex.bulk = m/f.rho*rng.uniform(.1, 1); desc += " bulk av";}
    if (rng.chance(.3)) {ex.lap = m/f.rho*rng.uniform(.1, 1); desc += " laplacian av";}
  }
  return ex;
}
static Transport_model model(const Exact& e, bool cond)
{
  real c = cond ? e.k : e.mu;
  if (c == 0) return Transport_model::inviscid();
  if (cond ? e.suth_k : e.suth_mu) return Transport_model::sutherland(c, e.t_ref, e.t_off);
  return Transport_model::constant(c);
}
static void set_av(Flow_scene& s, const Exact& ex)
{
  if (ex.bulk == 0 && ex.lap == 0) return;
  s.sol->set_art_visc_constant(ex.bulk);
  for (int i = 0; i < s.elems().size(); ++i) std::fill_n(s.elems()[i].laplacian_av_coef(), s.nq(), double(ex.lap));
}

// --- flows that the approximation space contains, on grids of parallelepipeds: the right-hand side is exact
static void run_exact(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(1, 3), rs = rng.range(2, max_rs);
    std::string kind = nd == 1 || rng.chance(.35) ? "tree" : "block";
    Flow_field f = random_field(rng, nd, 1, Mat<>::Zero(3));
    bool density = rng.chance(.4);
    std::string phys;
    bool inv = rng.chance(.3);
    Exact ex;
    Mat<> ctr; double len = 1;
    Scene_opts o;
    o.nd = nd; o.rs = rs; o.kind = kind; o.global_dt = rng.chance(.6);
    bool copies = rng.chance(.4);
    o.bc = [&](int side, std::string& name) -> Flow_bc* {if (copies && side%2) {name = "copy"; return new Copy;} name = "exact"; return new Exact_bc(&ex);};
    Rng pr = rng; rng.next();
    double pseudo = rng.pick(std::vector<double>{1., .05, 40.});
    o.transport = [&](double root, bool cond) {
      if (!cond) {phys = ""; ex = physics(pr, f, root, true, inv, phys);}
      if (density && cond) ex.k = 0; // temperature would not be polynomial
      return model(ex, cond);
    };
    o.tweak_block = [&](Block& b) {
      Mat<dyn, dyn> A(3, 3); A.setIdentity();
      do {
        A.setIdentity();
        for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) A(i, j) += rng.uniform(-.4, .4);
      } while (A.determinant() < .3);
      int shift = nd == 3 ? b.shift : 0;
      double root = b.root;
      Mat<> off(3); for (int d = 0; d < 3; ++d) off(d) = root*rng.uniform(-1, 1);
      b.map = [=](Mat<> x) {
        Mat<> z(3), y = A*x; if (nd == 2) y(2) = 0;
        for (int d = 0; d < 3; ++d) z((d + shift)%3) = root*y(d) + off((d + shift)%3);
        return z;
      };
      b.desc += " sheared instead";
    };
    m.phase("make scene");
    auto sp = make_scene(rng, o);
    auto& s = *sp;
    (void)pseudo;
    if (!s.elems().size()) {m.count("empty"); return;}
    extent(s, ctr, len);
    ex.len = len;
    int a = 0, b = 0, c = 0;
    if (density) c = rs - 1;
    else {a = (rs - 1)/3; b = rs - 1 - a; if (rng.chance(.2)) {a = 0; b = rs - 1;}}
    std::vector<Poly> ps; for (int i = 0; i < nd + 2; ++i) ps.push_back(Poly(rng, nd, i < nd ? a : i == nd ? c : b, ctr, len));
    real snd = f.sound(), amp = rng.uniform(.05, .4);
    ex.prim = [&](const real* x, real* q) {
      for (int d = 0; d < nd; ++d) q[d] = snd*(f.mach*f.dir(d) + amp*ps[d](x));
      q[nd] = f.rho*(1 + amp*ps[nd](x)); q[nd + 1] = f.p*(1 + amp*ps[nd + 1](x));
    };
    Exact_func fn; fn.ex = &ex;
    s.sol->initialize(fn);
    set_av(s, ex);
    std::string ctx = s.desc + phys + fmt(" degrees velocity %d pressure %d density %d mach %g", a, b, c, f.mach);
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    auto compare = [&](const char* what) {
      Gauss_legendre basis(rs);
      real scale[5] {};
      double worst = 0; std::string msg;
      double h_min = 1e300;
      std::vector<real> want;
      for (int i = 0; i < s.elems().size(); ++i) {
        auto& e = s.elems()[i];
        h_min = std::min(h_min, double(e.nominal_size()));
        for (int q = 0; q < s.nq(); ++q) {
          auto p = e.position(basis, q);
          real x[3] {0, 0, 0}, r[5]; for (int d = 0; d < nd; ++d) x[d] = p[d];
          ex.rhs(x, r, scale);
          for (int v = 0; v < nd + 2; ++v) want.push_back(r[v]);
        }
      }
      // rounding: fluxes over the smallest size, diffusion over its square
      Mat<> ss = state_scale(f);
      double cs = snd*(1 + f.mach), nu = std::max({double(ex.mu/f.rho), double(ex.k*.4/gas/f.rho), double(ex.bulk), double(ex.lap)});
      double rate = (cs/h_min + nu/h_min/h_min)*rs*rs*10;
      double off = 1 + ctr.norm()/len*1e-1;
      size_t k = 0;
      for (int i = 0; i < s.elems().size(); ++i) for (int q = 0; q < s.nq(); ++q) for (int v = 0; v < nd + 2; ++v) {
        auto& e = s.elems()[i];
        double got = e.residual_cache()[v*s.nq() + q]/e.time_step_scale()[q];
        double err = std::abs(got - double(want[k]))/(ss(v)*rate*1e-1*off + 1e-9*scale[v]);
        if (!(err <= worst)) {worst = err; msg = fmt(" element %d point %d variable %d: %.12g, exact %.12g", i, q, v, got, double(want[k]));}
        ++k;
      }
      m.close(worst, 1e-12, what, ctx + msg);
    };
    m.phase("residual");
    s.sol->compute_residual();
    compare(fmt("exact-%s-%dd%s", kind.c_str(), nd, s.has_ldg || ex.bulk != 0 || ex.lap != 0 ? "-visc" : "").c_str());
    long hang = 0, str = 0;
    for_refined(*s.mesh, [&](Element&, std::vector<Element*> fine, Connection_direction, bool, bool) {++hang; if (int(fine.size()) < (1 << (nd - 1))) ++str;});
    m.count("hanging-faces", hang); m.count("stretched-faces", str);
    if (a) m.count("velocity-gradients"); if (density) m.count("density-gradients"); if (b) m.count("pressure-gradients");
    m.evaluated(mon::mix(mon::hash_str(ctx), s.elems().size()));
    m.sample(ctx);
  });
}

// --- smooth flows on two grids of a self-similar sequence: weighted integrals of the right-hand side converge
static void run_weak(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(1, 3), rs = rng.range(2, max_rs);
    std::string kind = nd == 1 || rng.chance(.4) ? "tree" : "block";
    Flow_field f = random_field(rng, nd, 1, Mat<>::Zero(3));
    f.mach = rng.uniform(0, 2);
    f.amp = rng.uniform(.05, .2);
    for (auto& v : f.w) for (int d = 0; d < 3; ++d) v[d] = rng.uniform(-1.5, 1.5);
    bool inv = rng.chance(.4);
    uint64_t ps = rng.next(), ms = rng.next();
    Exact ex; std::string phys;
    std::vector<std::array<real, 4>> psi(6); for (auto& p : psi) for (auto& x : p) x = rng.uniform(-1.5, 1.5);
    int base = nd == 1 ? 3 : nd == 2 ? 2 : 1;
    Rng tr(rng.next());
    double amp_map = rng.uniform(.02, .1);
    std::array<std::array<double, 4>, 3> wm; for (auto& w : wm) for (auto& x : w) x = rng.uniform(-1, 1);
    struct Ball {Mat<> p; double r;}; std::vector<Ball> balls;
    int n_ball = rng.below(3);
    for (int i = 0; i < n_ball; ++i) {Ball b; b.p = Mat<>(nd); for (int d = 0; d < nd; ++d) b.p(d) = rng.uniform(0, 1); b.r = rng.uniform(.2, .5); balls.push_back(b);}
    double err [2] {}, h_rel = 0; std::string desc; long hang = 0, n_el [2];
    double root = rng.pick(std::vector<double>{1., .05, 40.});
    for (int w = 0; w < 2; ++w) {
      auto sp = std::make_unique<Flow_scene>(); auto& s = *sp;
      s.nd = nd; s.rs = rs; s.kind = kind; s.root = root;
      Rng pr(ps);
      phys = ""; ex = physics(pr, f, root, false, inv, phys);
      f.len = root;
      real snd = f.sound();
      ex.prim = [&](const real* x, real* q) {
        for (int i = 0; i < nd + 2; ++i) {
          real arg = f.w[i][3]; for (int d = 0; d < nd; ++d) arg += f.w[i][d]*x[d]/f.len;
          real sn = f.amp*sinl(arg);
          q[i] = i < nd ? snd*(f.mach*f.dir(i) + sn) : i == nd ? f.rho*(1 + .8L*sn) : f.p*(1 + .8L*sn);
        }
      };
      Block blk;
      int nu = base << w;
      Transport_model mv = model(ex, false), mc = model(ex, true);
      s.has_ldg = mv.is_viscous || mc.is_viscous;
      m.phase("mesh");
      if (kind == "block") {
        Rng br(ms);
        blk = random_block(br, nd, root);
        Block one = blk;
        // same shape, orientations and refined columns with `nu` times as many cells
        blk.nc = {one.nc[0]*nu, one.nc[1]*nu, nd == 3 ? one.nc[2]*nu : 1};
        blk.orient.clear(); blk.fine.clear();
        for (int i = 0; i < blk.nc[0]; ++i) for (int j = 0; j < blk.nc[1]; ++j) {blk.orient.push_back(one.orient[(i/nu)*one.nc[1] + j/nu]); blk.fine.push_back(one.fine[(i/nu)*one.nc[1] + j/nu]);}
        int shift = nd == 3 ? blk.shift : 0;
        double mx = std::max({one.nc[0], one.nc[1], one.nc[2]});
        blk.map = [=](Mat<> x) {
          Mat<> y = x/nu/mx, q = y, z(3);
          for (int d = 0; d < nd; ++d) q(d) += amp_map*std::sin(wm[d][0] + 2*wm[d][1]*y(0) + 2*wm[d][2]*y(1) + 2*wm[d][3]*y(2));
          for (int d = 0; d < 3; ++d) z((d + shift)%3) = root*q(d);
          return z;
        };
        blk.root = root;
        s.sol.reset(new Solver(nd, rs, root/nu, true, mv, mc, s.space, s.out));
        s.mesh = dynamic_cast<Accessible_mesh*>(&s.sol->mesh());
        int sn = s.mesh->add_boundary_condition(new Exact_bc(&ex), new Null_mbc);
        blk.build(*s.mesh, sn);
        desc = one.desc;
      } else {
        s.sol.reset(new Solver(nd, rs, root, true, mv, mc, s.space, s.out));
        s.mesh = dynamic_cast<Accessible_mesh*>(&s.sol->mesh());
        std::vector<Flow_bc*> bcs; for (int i = 0; i < 2*nd; ++i) bcs.push_back(new Exact_bc(&ex));
        s.mesh->add_tree(bcs);
        for (int i = 0; i < base; ++i) s.mesh->update();
        for (auto& b : balls) s.mesh->update([&](Element& e) {return e.refinement_level() == base && (elem_center(e, nd)/root - b.p).norm() < b.r;}, criteria::never);
        for (int i = 0; i < w; ++i) s.mesh->update(); // everything once more
        desc = fmt("tree of level %d with %d balls", base, n_ball);
      }
      s.sol->calc_jacobian();
      n_el[w] = s.elems().size();
      Exact_func fn; fn.ex = &ex;
      s.sol->initialize(fn);
      set_av(s, ex);
      if (!healthy(s)) {m.count("skipped-unphysical"); return;}
      m.phase("residual");
      s.sol->compute_residual();
      m.phase("compare");
      for_refined(*s.mesh, [&](Element&, std::vector<Element*>, Connection_direction, bool, bool) {++hang;});
      Gauss_legendre basis(rs);
      Mat<> wt = math::pow_outer(basis.node_weights(), nd);
      Mat<> ss = state_scale(f);
      Mat<dyn, dyn> tot = Mat<dyn, dyn>::Zero(nd + 2, psi.size());
      real scale[5] {}; double vol = 0;
      for (int i = 0; i < s.elems().size(); ++i) {
        auto& e = s.elems()[i];
        for (int q = 0; q < s.nq(); ++q) {
          auto p = e.position(basis, q);
          real x[3] {0, 0, 0}, r[5]; for (int d = 0; d < nd; ++d) x[d] = p[d];
          ex.rhs(x, r, scale);
          double dv = wt(q)*e.jacobian_determinant(q)*std::pow(e.nominal_size(), nd);
          vol += dv;
          for (int v = 0; v < nd + 2; ++v) {
            double d = e.residual_cache()[v*s.nq() + q]/e.time_step_scale()[q] - double(r[v]);
            for (size_t k = 0; k < psi.size(); ++k) {
              real arg = psi[k][3]; for (int j = 0; j < nd; ++j) arg += psi[k][j]*x[j]/root;
              tot(v, k) += dv*d*double(sinl(arg));
            }
          }
        }
      }
      double worst = 0;
      for (int v = 0; v < nd + 2; ++v) worst = std::max(worst, double(tot.row(v).cwiseAbs().maxCoeff()/vol/(ss(v)*snd*(1 + f.mach)/root)));
      err[w] = worst;
      h_rel = std::pow(vol/n_el[w], 1./nd)/root*(kind == "block" ? 1.5 : 1);
    }
    double rate = std::log2(err[0]/err[1]);
    std::string ctx = desc + fmt(" nd=%d row size %d", nd, rs) + phys + fmt(" mach %g amp %g map %g, %ld and %ld elements, %ld hanging faces: errors %g and %g, rate %g", f.mach, f.amp, amp_map, n_el[0], n_el[1], hang, err[0], err[1], rate);
    bool visc = ex.mu != 0 || ex.k != 0 || ex.bulk != 0 || ex.lap != 0;
    double small = f.amp*std::pow(h_rel, rs);
    // (the leading error can vanish by coincidence on the coarse grid; what is left then is small)
    m.checkf(rate > rs - (visc ? rs == 2 ? 1.7 : 1.5 : .8) || err[1] < (visc ? .5 : .05)*small || err[1] < 1e-11, "rate-" + kind, [&]{return ctx;});
    m.close(err[1], (visc && rs == 2 ? 20 : 5)*small + 1e-11, "error-" + kind, ctx);
    if (err[1] > 1e-11) m.count(std::string("converging-") + kind + (visc ? "-visc" : ""));
    if (hang) m.count("hanging-" + kind);
    m.evaluated(mon::mix(mon::hash_str(ctx), n_el[1]));
    m.sample(ctx);
  });
}

// --- density waves carried by a uniform flow (and diffused by artificial viscosity): polynomials move exactly, smooth waves converge
static void run_evolve(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(1, 3), rs = rng.range(2, max_rs);
    bool poly = rng.chance(.6);
    Flow_field f = random_field(rng, nd, 1, Mat<>::Zero(3));
    real snd = f.sound(), amp = rng.uniform(.05, .3);
    if (poly) {
      Exact ex; ex.nd = nd;
      Scene_opts o;
      o.nd = nd; o.rs = rs; o.kind = nd == 1 || rng.chance(.35) ? "tree" : "block";
      o.bc = [&](int side, std::string& name) -> Flow_bc* {name = "copy"; return new Copy;};
      o.tweak_block = [&](Block& b) {
        Mat<dyn, dyn> A(3, 3);
        do {
          A.setIdentity();
          for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) A(i, j) += rng.uniform(-.4, .4);
        } while (A.determinant() < .3);
        int shift = nd == 3 ? b.shift : 0;
        double root = b.root;
        b.map = [=](Mat<> x) {
          Mat<> z(3), y = A*x; if (nd == 2) y(2) = 0;
          for (int d = 0; d < 3; ++d) z((d + shift)%3) = root*y(d);
          return z;
        };
        b.desc += " sheared instead";
      };
      m.phase("make scene");
      auto sp = make_scene(rng, o);
      auto& s = *sp;
      if (!s.elems().size()) {m.count("empty"); return;}
      Mat<> ctr; double len;
      extent(s, ctr, len);
      int deg = 1;
      Poly p(rng, nd, deg, ctr, len*2);
      ex.prim = [&](const real* x, real* q) {
        for (int d = 0; d < nd; ++d) q[d] = snd*f.mach*f.dir(d);
        q[nd] = f.rho*(1 + amp*p(x)); q[nd + 1] = f.p;
      };
      Exact_func fn; fn.ex = &ex;
      s.sol->initialize(fn);
      std::string ctx = s.desc + fmt(" degree %d mach %g", deg, f.mach);
      if (!healthy(s)) {m.count("skipped-unphysical"); return;}
      int n = rng.range(1, 5);
      auto& ns = s.sol->nspace();
      ns.assign("max_safety", rng.uniform(.1, .7));
      ns.assign("n_cheby_flow", 1);
      m.phase("update");
      for (int i = 0; i < n; ++i) s.sol->update();
      double t = ns.lookup<double>("flow_time").value();
      if (!(t > 0)) {m.count("skipped-inverted-corner"); return;}
      Gauss_legendre basis(rs);
      Mat<> ss = state_scale(f);
      double worst = 0; std::string msg;
      for (int i = 0; i < s.elems().size(); ++i) for (int q = 0; q < s.nq(); ++q) {
        auto& e = s.elems()[i];
        auto pos = e.position(basis, q);
        real x[3] {0, 0, 0}, u[5]; for (int d = 0; d < nd; ++d) x[d] = pos[d] - snd*f.mach*f.dir(d)*t;
        ex.cons(x, u);
        for (int v = 0; v < nd + 2; ++v) {
          double err = std::abs(e.state()[v*s.nq() + q] - double(u[v]))/ss(v);
          if (!(err <= worst)) {worst = err; msg = fmt(" element %d point %d variable %d: %.12g, exact %.12g", i, q, v, e.state()[v*s.nq() + q], double(u[v]));}
        }
      }
      m.close(worst, 1e-11*(1 + ctr.norm()/len*1e-1), fmt("moved-%s-%dd", s.kind.c_str(), nd), ctx + fmt(" time %g", t) + msg);
      m.count("polynomials-moved");
      if (f.mach > 0) m.count("moving");
      m.evaluated(mon::mix(mon::hash_str(ctx), s.elems().size()));
      return;
    }
    nd = rng.range(1, 2);
    f = random_field(rng, nd, 1, Mat<>::Zero(3));
    f.mach = rng.uniform(.3, 2);
    snd = f.sound();
    std::array<int, 2> wave {rng.range(-1, 1), rng.range(-1, 1)}; if (!wave[0] && !(nd > 1 && wave[1])) wave[0] = 1;
    double root = rng.pick(std::vector<double>{1., .05, 40.}), ph = rng.uniform(0, 6);
    int n0 = nd == 1 ? 8 : 6;
    double err [2], tf = .15*root/double(snd*(1 + f.mach));
    bool deformed = rng.chance(.5);
    // the scheme is of first order in time, so extrapolate to zero step
    std::vector<double> half [2];
    for (int w = 0; w < 2; ++w) for (int sub = 0; sub < 2; ++sub) {
      Flow_scene s; s.nd = nd; s.rs = rs;
      int n = n0 << w;
      s.sol.reset(new Solver(nd, rs, root/n, false, inviscid, inviscid, s.space, s.out));
      s.mesh = dynamic_cast<Accessible_mesh*>(&s.sol->mesh());
      std::map<std::array<int, 2>, int> at;
      for (int i = 0; i < n; ++i) for (int j = 0; j < (nd > 1 ? n : 1); ++j) at[{i, j}] = s.mesh->add_element(0, deformed, {i, j, 0});
      for (auto& p : at) for (int d = 0; d < nd; ++d) {
        auto q = p.first; q[d] = (q[d] + 1)%n;
        // (connecting deformed cells merges their corners, so these grids only connect within)
        if (!deformed) s.mesh->connect_cartesian(0, {p.second, at[q]}, {d});
        else if (q[d]) s.mesh->connect_deformed(0, {p.second, at[q]}, {{d, d}, {1, 0}});
      }
      Exact ex; ex.nd = nd;
      double t_now = 0;
      ex.prim = [&](const real* x, real* q) {
        real arg = ph;
        for (int d = 0; d < nd; ++d) {q[d] = snd*f.mach*f.dir(d); arg += 2*constants::pi*wave[d]*(x[d] - q[d]*t_now)/root*(deformed ? .5L : 1);}
        q[nd] = f.rho*(1 + amp*sinl(arg)); q[nd + 1] = f.p;
      };
      if (deformed) {int sn = s.mesh->add_boundary_condition(new Exact_bc(&ex), new Null_mbc); s.mesh->connect_rest(sn);}
      s.mesh->cleanup();
      s.sol->calc_jacobian();
      Exact_func fn; fn.ex = &ex;
      s.sol->initialize(fn);
      auto& ns = s.sol->nspace();
      ns.assign("n_cheby_flow", 1);
      m.phase("update");
      // a whole number of equal steps
      s.sol->update();
      double dt0 = ns.lookup<double>("time_step").value();
      int steps = std::ceil(tf/dt0*2*std::pow(2., w*(rs/2. - 1)))*(1 + sub);
      s.sol->initialize(fn);
      ns.assign("flow_time", 0.);
      ns.assign("max_time_step", tf/steps);
      if (steps > 8000) {m.count("skipped-slow"); return;}
      for (int i = 0; i < steps; ++i) {t_now = ns.lookup<double>("flow_time").value(); s.sol->update();}
      t_now = ns.lookup<double>("flow_time").value();
      if (!m.checkf(std::abs(t_now - tf) < 1e-9*tf, "time", [&]{return fmt("%d steps of %g sum to %g instead of %g", steps, tf/steps, t_now, tf);})) return;
      Gauss_legendre basis(rs);
      Mat<> wt = math::pow_outer(basis.node_weights(), nd);
      double sum = 0, vol = 0;
      for (int i = 0; i < s.elems().size(); ++i) for (int q = 0; q < s.nq(); ++q) {
        auto& e = s.elems()[i];
        auto pos = e.position(basis, q);
        real x[3] {0, 0, 0}, u[5]; for (int d = 0; d < nd; ++d) x[d] = pos[d];
        ex.cons(x, u);
        if (!sub) {half[w].push_back(e.state()[nd*s.nq() + q]); continue;}
        double d = (2*e.state()[nd*s.nq() + q] - half[w][i*s.nq() + q] - double(u[nd]))/f.rho;
        sum += d*d*wt(q); vol += wt(q);
      }
      if (sub) err[w] = std::sqrt(sum/vol)/amp;
    }
    double rate = std::log2(err[0]/err[1]);
    std::string ctx = fmt("density wave (%d,%d) nd=%d row size %d mach %g %s cells: errors %g %g rate %g", wave[0], wave[1], nd, rs, f.mach, deformed ? "deformed" : "periodic regular", err[0], err[1], rate);
    m.checkf(rate > rs - 1.2, "rate-evolve", [&]{return ctx;});
    m.count(deformed ? "waves-deformed" : "waves-periodic");
    m.evaluated(mon::hash_str(ctx));
    m.sample(ctx);
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "exact") run_exact(m);
  else if (m.mode == "weak") run_weak(m);
  else if (m.mode == "evolve") run_evolve(m);
  else {fprintf(stderr, "unknown mode\n"); return 2;}
  return m.finish();
}
