// monitors of the time-marching solver: time step and bookkeeping, admissibility repair, artificial viscosity,
// side effects of diagnostics, work counters
#include "flow.hpp"
#include "meshmon.hpp"
#include <Qpoint_func.hpp>
#include <Element_func.hpp>
#include <Boundary_func.hpp>
#include <Stopwatch_tree.hpp>
#include <config.hpp>
#include <filesystem>
#include <unistd.h>
#include <chrono>
#include <set>

using namespace scene;
using mon::Monitor;

static int max_rs = config::max_row_size;
static uint64_t scene_hash(Flow_scene& s) {return mon::mix(mon::hash_str(s.desc), s.mesh->n_elements());}

static double now_s() {return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();}

static std::string scratch()
{
  static struct Dir {
    std::string d;
    Dir() {std::string t = (std::filesystem::temp_directory_path()/"hexed_solver_XXXXXX").string(); d = mkdtemp(t.data());}
    ~Dir() {std::filesystem::remove_all(d);}
  } dir;
  return dir.d + "/";
}

struct Setup
{
  Scene_opts o;
  Flow_field f;
  bool visc, far_only = false; // far_only: only boundary conditions that a uniform flow satisfies
  uint64_t bc_seed, tr_seed;
};

// a random problem; `build` can be called several times to obtain identical solvers
static Setup random_setup(Rng& rng, bool allow_1d = true)
{
  Setup u;
  auto& o = u.o;
  o.nd = allow_1d && rng.chance(.15) ? 1 : rng.chance(.55) ? 2 : 3;
  o.rs = rng.range(2, max_rs);
  if (o.nd == 1) o.kind = rng.chance(.3) ? "periodic" : "tree";
  else o.kind = rng.pick(std::vector<std::string>{"block", "block", "tree", "surf", "surf", "periodic"});
  o.size = 3;
  o.global_dt = rng.chance(.5);
  u.f = random_field(rng, o.nd, 1, Mat<>::Zero(3));
  u.visc = rng.chance(.5);
  u.bc_seed = rng.next();
  u.tr_seed = rng.next();
  if (rng.chance(.4)) u.f.rough = rng.uniform(.02, .15);
  return u;
}
static std::unique_ptr<Flow_scene> build(Setup& u, Rng rng)
{
  Scene_opts o = u.o;
  Rng br(u.bc_seed);
  Flow_field f = u.f;
  o.bc = [&](int, std::string& name) -> Flow_bc* {
    if (!u.far_only) return random_bc(br, f, name);
    switch (br.below(3)) {
      case 0: name = "freestream"; return new Freestream(f.mean());
      case 1: name = "characteristic"; return new Riemann_invariants(f.mean());
      default: name = "copy"; return new Copy;
    }
  };
  if (u.visc) o.transport = [&](double root, bool cond) {Rng r(u.tr_seed + cond); return random_transport(r, f, root, cond);};
  auto sp = make_scene(rng, o);
  auto& s = *sp;
  u.f.len = s.root*.4;
  auto& ns = s.sol->nspace();
  Mat<> mean = u.f.mean();
  for (int i = 0; i < s.nd + 2; ++i) ns.assign("freestream" + std::to_string(i), mean(i));
  ns.assign("freestream_speed", u.f.sound()*u.f.mach);
  ns.assign("freestream_sound_speed", u.f.sound());
  return sp;
}

// whether no cell is inverted at a corner
static bool corners_ok(Flow_scene& s)
{
  for (int i = 0; i < s.elems().size(); ++i) for (int v = 0; v < math::pow(2, s.nd); ++v) if (!(s.elems()[i].vertex_time_step_scale(v) > 0)) return false;
  return true;
}

static std::vector<double> all_state(Flow_scene& s)
{
  std::vector<double> v;
  for (int i = 0; i < s.elems().size(); ++i) v.insert(v.end(), s.elems()[i].state(), s.elems()[i].state() + (s.nd + 2)*s.nq());
  return v;
}
static bool same_bits(const std::vector<double>& a, const std::vector<double>& b)
{
  return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size()*8));
}
static double max_diff(const std::vector<double>& a, const std::vector<double>& b)
{
  double d = a.size() == b.size() ? 0 : 1e300;
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) d = std::max(d, std::abs(a[i] - b[i])/(std::abs(a[i]) + std::abs(b[i]) + 1e-300));
  return d;
}

// positions of all corners: meshes that were built the same way may still differ by rounding (order of summation when relaxing)
static std::vector<double> corners(Flow_scene& s)
{
  std::vector<double> v;
  for (int i = 0; i < s.elems().size(); ++i) for (int k = 0; k < math::pow(2, s.nd); ++k) for (int j = 0; j < s.nd; ++j) v.push_back(s.elems()[i].vertex(k).pos(j));
  return v;
}

static double step(Flow_scene& s) {auto o = s.sol->nspace().lookup<double>("time_step"); return o ? o.value() : 0;} // not defined until the first step without repair
template <typename T> T look(Flow_scene& s, std::string name) {return s.sol->nspace().lookup<T>(name).value();}

// ---------------------------------------------------------------- time step
struct Limits {std::vector<double> conv, diff; double min_total(double sc, double sd) const {double m = 1e300; for (size_t i = 0; i < conv.size(); ++i) m = std::min(m, total(i, sc, sd)); return m;}
  double total(size_t i, double sc, double sd) const {return 1/(1/(conv[i]*sc) + (diff[i] > 0 ? 1/(diff[i]*sd) : 0));}};

// stable steps of every quadrature point according to their definition
static Limits limits(Flow_scene& s, bool diffusion, const Transport_model& visc, const Transport_model& cond)
{
  Gauss_legendre basis(s.rs);
  int nd = s.nd, nq = s.nq(), rs = s.rs, nv = math::pow(2, nd);
  Limits l;
  for (int i = 0; i < s.elems().size(); ++i) {
    auto& e = s.elems()[i];
    double* u = e.state();
    for (int q = 0; q < nq; ++q) {
      double sp = 0;
      for (int v = 0; v < nv; ++v) {
        double w = 1;
        for (int d = 0; d < nd; ++d) {
          double x = basis.node((q/math::pow(rs, nd - 1 - d))%rs);
          w *= (v >> (nd - 1 - d)) & 1 ? x : 1 - x;
        }
        sp += w*e.vertex_time_step_scale(v);
      }
      double rho = u[nd*nq + q], en = u[(nd + 1)*nq + q], mm = 0;
      for (int d = 0; d < nd; ++d) mm += u[d*nq + q]*u[d*nq + q];
      double cs = std::sqrt(mm)/rho + std::sqrt(1.4*.4*en/rho);
      l.conv.push_back(basis.max_cfl()*sp/cs);
      double dif = 0;
      if (diffusion) {
        double t = .4*(en - .5*mm/rho)/rho/constants::specific_gas_air;
        double st = std::sqrt(std::max(t, 0.));
        double nu = visc.coefficient(st)/rho, al = cond.coefficient(st)*.4/constants::specific_gas_air/rho;
        dif = std::abs(e.laplacian_av_coef()[q]) + std::max(std::abs(e.bulk_av_coef()[q]) + nu, al);
      }
      l.diff.push_back(dif > 0 ? -2/basis.min_eig_diffusion()*sp*sp/dif : 0);
    }
  }
  return l;
}

// the spacing that the corners of cells report: the smallest of the cells that meet there
static void check_spacing(Monitor& m, Flow_scene& s)
{
  Gauss_legendre basis(s.rs);
  int nd = s.nd, nq = s.nq(), nv = math::pow(2, nd);
  std::map<Vertex*, double> small;
  std::set<Vertex*> hang;
  auto raw = [&](Element& e) {
    std::vector<double> r(nv, e.nominal_size()/nd);
    if (e.get_is_deformed()) {
      Mat<dyn, dyn> b = basis.boundary();
      Mat<> det(nq);
      for (int q = 0; q < nq; ++q) det(q) = e.jacobian_determinant(q);
      Mat<> vd = math::hypercube_matvec(b, det);
      std::vector<double> sum(nv, 0.);
      for (int d = 0; d < nd; ++d) {
        std::vector<double> sq(nv, 0.);
        for (int k = 0; k < nd; ++k) {
          Mat<> n(nq);
          for (int q = 0; q < nq; ++q) n(q) = static_cast<Deformed_element&>(e).reference_level_normals()[(d*nd + k)*nq + q];
          Mat<> vn = math::hypercube_matvec(b, n);
          for (int v = 0; v < nv; ++v) sq[v] += vn(v)*vn(v);
        }
        for (int v = 0; v < nv; ++v) sum[v] += std::sqrt(sq[v]);
      }
      for (int v = 0; v < nv; ++v) r[v] = e.nominal_size()*vd(v)/sum[v];
    }
    return r;
  };
  for (int i = 0; i < s.elems().size(); ++i) {
    auto& e = s.elems()[i];
    auto r = raw(e);
    for (int v = 0; v < nv; ++v) {
      auto it = small.insert({&e.vertex(v), r[v]}).first;
      it->second = std::min(it->second, r[v]);
    }
  }
  for_refined(*s.mesh, [&](Element& c, std::vector<Element*> fine, Connection_direction, bool, bool) {
    for (auto* f : fine) for (int v = 0; v < nv; ++v) hang.insert(&f->vertex(v));
    for (int v = 0; v < nv; ++v) hang.insert(&c.vertex(v));
  });
  for (int i = 0; i < s.elems().size(); ++i) {
    auto& e = s.elems()[i];
    for (int v = 0; v < nv; ++v) {
      double x = e.vertex_time_step_scale(v);
      if (!hang.count(&e.vertex(v))) m.worst((x - small[&e.vertex(v)])/std::abs(small[&e.vertex(v)]), 1e-9, "spacing", [&]() {return s.desc + " " + name(e, nd);});
    }
  }
}

static void run_step(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Setup u = random_setup(rng);
    Rng seed = rng; rng.next();
    m.phase("make scene");
    auto sp = build(u, seed);
    auto& s = *sp;
    if (!s.elems().size()) return;
    Transport_model vt = inviscid, ct = inviscid;
    if (u.visc) {
      Rng a(u.tr_seed), b(u.tr_seed + 1);
      new (&vt) Transport_model(random_transport(a, u.f, s.root, false));
      new (&ct) Transport_model(random_transport(b, u.f, s.root, true));
    }
    s.sol->initialize(u.f);
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    check_spacing(m, s);
    m.flush_worst();
    if (!corners_ok(s)) {m.count("skipped-inverted-corner"); return;}
    auto& ns = s.sol->nspace();
    int nd = s.nd, nq = s.nq();
    bool av = rng.chance(.3);
    if (av) {s.sol->set_art_visc_constant(u.f.sound()*s.root*rng.uniform(0, .05)); m.count("art-visc");}
    bool diffusion = s.has_ldg || av;
    int n = rng.range(2, 5);
    double prev_time = look<double>(s, "flow_time");
    m.checkf(prev_time == 0 && s.sol->iteration_status().flow_time == 0, "initial-time", []{return std::string();});
    int it = 0;
    std::string ctx = s.desc + fmt(" mach %g diffusion %d", u.f.mach, int(diffusion));
    for (int i = 0; i < n; ++i) {
      double safety = rng.pick(std::vector<double>{.7, .3, 1e-4});
      int cheby = rng.chance(.7) ? 1 : rng.range(2, 5), iters = rng.chance(.7) ? 1 : rng.range(2, 3);
      ns.assign("max_safety", safety);
      ns.assign("n_cheby_flow", cheby);
      ns.assign("flow_iters", iters);
      Limits l = limits(s, diffusion, vt, ct);
      double cf = math::chebyshev_step(cheby, cheby - 1); // largest factor of the cycle
      double lim = l.min_total(safety, safety);
      double cap = !s.local && rng.chance(.4) ? lim*rng.pick(std::vector<double>{1e-3, .3, .9, 1.5}) : huge;
      ns.assign("max_time_step", cap);
      bool small = cheby == 1 && iters == 1 && (safety < 1e-3 || cap < .01*lim);
      std::vector<double> before, resid, tss0;
      if (small) {
        s.sol->compute_residual();
        before = all_state(s);
        for (int e = 0; e < s.elems().size(); ++e) {
          resid.insert(resid.end(), s.elems()[e].residual_cache(), s.elems()[e].residual_cache() + (nd + 2)*nq);
          tss0.insert(tss0.end(), s.elems()[e].time_step_scale(), s.elems()[e].time_step_scale() + nq);
        }
      }
      m.phase("update");
      s.sol->update();
      m.phase("check");
      ++it;
      double dt = look<double>(s, "time_step"), t = look<double>(s, "flow_time");
      auto st = s.sol->iteration_status();
      m.checkf(look<int>(s, "iteration") == it && st.iteration == it, "iteration-count", [&]{return fmt("%d updates: iteration %d, status %d", it, look<int>(s, "iteration"), st.iteration);});
      m.checkf(st.flow_time == t && st.time_step == dt, "status-mirror", [&]{return fmt("time %.17g %.17g step %.17g %.17g", t, st.flow_time, dt, st.time_step);});
      m.checkf(dt > 0 && std::isfinite(dt), "step-positive", [&]{return ctx + fmt(" step %g", dt);});
      m.checkf(t > prev_time || dt < 1e-15*t, "time-increases", [&]{return ctx;});
      if (!s.local) {
        m.checkf(dt <= cap*(1 + 1e-12), "step-cap", [&]{return ctx + fmt(" step %g exceeds max_time_step %g (n_cheby_flow %d)", dt, cap, cheby);});
        if (cheby == 1 && iters == 1) {
          double want = std::min(lim, cap);
          m.close((dt - want)/want, 1e-10, diffusion ? "step-global-diffusion" : "step-global", ctx + fmt(" step %.12g limit %.12g cap %g safety %g", dt, lim, cap, safety));
          m.close((t - prev_time - dt)/t, 1e-14, "time-sum", ctx);
          m.count(want < lim ? "capped-steps" : "cfl-steps");
        } else {
          m.checkf(t - prev_time <= iters*cheby*cap*(1 + 1e-12) + 1e-14*t, "time-sum", [&]{return ctx;});
          m.count("multi-steps");
          if (cheby > 1 && iters == 1 && !diffusion && cap == huge) {
            // no step of the cycle exceeds the convective limit (the state changes little within a cycle)
            m.checkf(dt <= l.min_total(safety, safety)*1.5, "cheby-convective", [&]{return ctx + fmt(" step %g limit %g", dt, lim);});
            m.checkf(dt >= l.min_total(safety, safety)*.5, "cheby-convective", [&]{return ctx + fmt(" step %g limit %g", dt, lim);});
          }
        }
      } else if (cheby == 1 && iters == 1) {
        size_t k = 0;
        for (int e = 0; e < s.elems().size(); ++e) for (int q = 0; q < nq; ++q, ++k) {
          double want = l.total(k, safety/cf, safety);
          m.worst((s.elems()[e].time_step_scale()[q]*dt - want)/want, 1e-10, diffusion ? "step-local-diffusion" : "step-local", [&]() {return ctx;});
        }
        m.flush_worst();
        m.count("local-steps");
      }
      if (small && healthy(s)) {
        auto after = all_state(s);
        Mat<> sc = state_scale(u.f);
        // largest rate of change of each variable, and the largest that is possible
        size_t k = 0;
        double worst = 0;
        std::string where;
        for (int e = 0; e < s.elems().size(); ++e) for (int v = 0; v < nd + 2; ++v) for (int q = 0; q < nq; ++q, ++k) {
          size_t p = size_t(e)*nq + q;
          double tss = s.elems()[e].time_step_scale()[q];
          double got = after[k] - before[k];
          double want = resid[k]/tss0[p]*tss*dt;
          double frac = tss*dt/l.total(p, 1, 1); // fraction of the stable step
          double err = std::abs(got - want)/(frac*(frac*40 + 1e-9)*sc(v) + 1e-13*std::abs(before[k]) + 1e-13*sc(v));
          if (err > worst) {worst = err; where = fmt(" var %d change %g expected %g fraction %g scale %g", v, got, want, frac, sc(v));}
        }
        m.close(worst, 1., s.local ? "rate-local" : "rate-global", ctx + where);
        m.count("rate-checked");
      }
      prev_time = t;
      if (!healthy(s)) {m.count("stopped-unphysical"); break;}
    }
    m.count(s.local ? "local" : "global");
    m.count(diffusion ? "diffusive" : "inviscid");
    m.evaluated(scene_hash(s));
    m.sample(s.desc);
  });
}

// perturbations of a uniform flow do not grow when time steps are within the stability limit
static void run_stable(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Setup u = random_setup(rng);
    Flow_field f = u.f;
    if (f.mach == 0) f.mach = .1;
    f.amp = 0; f.rough = 1e-5;
    u.f = f;
    Scene_opts o = u.o;
    o.kind = o.nd == 1 ? "periodic" : rng.pick(std::vector<std::string>{"periodic", "periodic", "block", "tree"});
    o.bc = [&](int, std::string& name) {name = "freestream"; return new Freestream(f.mean());};
    if (u.visc) o.transport = [&](double root, bool cond) {Rng r(u.tr_seed + cond); return random_transport(r, f, root, cond);};
    m.phase("make scene");
    auto sp = make_scene(rng, o);
    auto& s = *sp;
    if (!s.elems().size() || s.elems().size() > 120) return;
    f.len = s.root;
    s.sol->initialize(f);
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    s.sol->nspace().assign("max_safety", .7);
    int cheby = rng.chance(.7) ? 1 : rng.range(2, 4);
    s.sol->nspace().assign("n_cheby_flow", cheby);
    Mat<> mean = f.mean(), sc = state_scale(f);
    int nq = s.nq(), nd = s.nd;
    auto amp = [&]() {
      double a = 0; long n = 0;
      for (int e = 0; e < s.elems().size(); ++e) for (int v = 0; v < nd + 2; ++v) for (int q = 0; q < nq; ++q) {
        double d = (s.elems()[e].state()[v*nq + q] - mean(v))/sc(v);
        a += d*d; ++n;
      }
      return std::sqrt(a/n);
    };
    double a0 = amp();
    m.phase("updates");
    int steps = 60;
    double a1 = 0;
    for (int i = 0; i < steps; ++i) {s.sol->update(); a1 = amp(); if (!(a1 < 1e3*a0)) break;}
    m.close(a1/a0, 10., s.has_ldg ? "growth-viscous" : "growth-inviscid", s.desc + fmt(" mach %g cheby %d: perturbation grew from %g to %g", f.mach, cheby, a0, a1));
    m.count("stability-runs");
    m.evaluated(scene_hash(s));
  });
}

// ---------------------------------------------------------------- admissibility repair
static long bad_points(Flow_scene& s)
{
  // density or energy not positive at quadrature points, faces or the parts of hanging faces
  Gauss_legendre basis(s.rs);
  int nd = s.nd, nv = nd + 2, nq = s.nq(), nfq = nq/s.rs;
  long bad = 0;
  auto count = [&](const Mat<dyn, dyn>& u) {for (int q = 0; q < u.rows(); ++q) bad += !(u(q, nd) > 0 && u(q, nd + 1) > 0 && u.row(q).allFinite());};
  std::map<std::pair<Element*, int>, Mat<dyn, dyn>> face;
  for (int i = 0; i < s.elems().size(); ++i) {
    auto& e = s.elems()[i];
    Mat<dyn, dyn> u = Eigen::Map<Mat<dyn, dyn>>(e.state(), nq, nv);
    count(u);
    for (int f = 0; f < 2*nd; ++f) {
      Mat<dyn, dyn> bm = basis.boundary().row(f%2), uf(nfq, nv);
      for (int v = 0; v < nv; ++v) uf.col(v) = math::dimension_matvec(bm, Mat<>(u.col(v)), f/2);
      count(uf);
      face[{&e, f}] = uf;
    }
  }
  for_refined(*s.mesh, [&](Element& c, std::vector<Element*> fine, Connection_direction dir, bool rev, bool) {
    if (nd == 1) return;
    auto& uf = face[{&c, face_of(dir, rev)}];
    // if the face is split into all its halves, all of them are used; if it is split in one direction only, judging both would be too strict
    if (int(fine.size()) != math::pow(2, nd - 1)) return;
    for (int h = 0; h < math::pow(2, nd - 1); ++h) {
      Mat<dyn, dyn> w = uf;
      for (int v = 0; v < nv; ++v) {
        Mat<> x = uf.col(v);
        for (int t = 0; t < nd - 1; ++t) x = math::dimension_matvec(Mat<dyn, dyn>(basis.prolong((h >> (nd - 2 - t)) & 1)), x, t);
        w.col(v) = x;
      }
      count(w);
    }
  });
  return bad;
}

static void run_admis(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Setup u = random_setup(rng);
    u.f.amp = rng.uniform(.1, .4);
    u.f.rough = rng.chance(.7) ? rng.uniform(.1, .5) : 0;
    Rng seed = rng; rng.next();
    m.phase("make scene");
    auto ap = build(u, seed), bp = build(u, seed); // b never repairs
    auto &a = *ap, &b = *bp;
    if (!a.elems().size() || a.elems().size() > 150) return;
    int nd = a.nd, nq = a.nq();
    for (auto* s : {&a, &b}) {
      s->sol->nspace().assign<std::string>("working_dir", scratch());
      s->sol->initialize(u.f);
      if (rng.below(1) == 1) return;
    }
    if (bad_points(a) || !healthy(a) || !corners_ok(a)) {m.count("skipped-unphysical"); return;}
    bool twins = same_bits(corners(a), corners(b));
    if (!twins) m.count("twins-differ");
    a.sol->set_fix_admissibility(true);
    double avc = 0;
    bool av = rng.chance(.3);
    if (av) {avc = u.f.sound()*a.root*rng.uniform(0, .01); for (auto* s : {&a, &b}) s->sol->set_art_visc_constant(avc);}
    // Laplacian viscosity that somebody else has set
    std::vector<double> lap;
    bool lav = rng.chance(.3);
    if (lav) for (auto* s : {&a, &b}) s->sol->set_art_visc_admis();
    auto coefs = [&](Flow_scene& s) {std::vector<double> v; for (int e = 0; e < s.elems().size(); ++e) v.insert(v.end(), s.elems()[e].bulk_av_coef(), s.elems()[e].bulk_av_coef() + 2*nq); return v;};
    double safety = rng.pick(std::vector<double>{.5, 1.5, 2.5, 4., 8., 16.});
    std::string ctx = a.desc + fmt(" safety %g av %d %d", safety, int(av), int(lav));
    m.checkf(a.sol->is_admissible(), "rejects-admissible", [&]{return ctx;});
    m.count("states");
    for (auto* s : {&a, &b}) s->sol->nspace().assign("max_safety", safety);
    for (int step = 0; step < 3; ++step) {
      auto co = coefs(a);
      double t0 = look<double>(a, "flow_time");
      int fix0 = look<int>(a, "fix_iters");
      size_t pr0 = a.out->text.size();
      m.phase("update with repair");
      bool threw = false, finite = true;
      a.out->lines_left = 300; // give up on repairs that take too long for a monitor
      std::string what;
      try {a.sol->update();} catch (Quiet::Enough&) {m.count("repair-not-awaited"); break;} catch (std::exception& e) {threw = true; what = e.what();}
      if (threw) {
        // reporting failure is allowed, e.g. if the state overflowed
        m.count("reported-failure");
        m.checkf(nd == 1 || what.find("not finite") != std::string::npos || what.find("failed to fix") != std::string::npos || what.find("nonpositive") != std::string::npos || what.find("negative energy") != std::string::npos, "odd-failure", [&]{return ctx + ": " + what;});
        break;
      }
      int fixes = look<int>(a, "fix_iters") - fix0;
      bool spoke = a.out->text.substr(pr0).find("nadmissible") != std::string::npos;
      for (double x : all_state(a)) finite = finite && std::isfinite(x);
      m.checkf(finite, "not-finite", [&]{return ctx;});
      m.checkf(bad_points(a) == 0, "left-inadmissible", [&]{return ctx + fmt(": %ld bad points after %d repair iterations", bad_points(a), fixes);});
      m.checkf((fixes > 0) == spoke, "unreported-repair", [&]{return ctx + fmt(": %d iterations, printed %d", fixes, int(spoke));});
      m.checkf(a.sol->iteration_status().fix_admis_iters == look<int>(a, "fix_iters"), "status-fix-iters", [&]{return ctx;});
      m.checkf(same_bits(co, coefs(a)), "repair-changed-viscosity", [&]{
        auto c1 = coefs(a); double d = 0; for (size_t i = 0; i < c1.size(); ++i) d = std::max(d, std::abs(c1[i] - co[i]));
        return ctx + fmt(": %d repair iterations changed the artificial viscosity coefficients by up to %g (sound speed*root size %g)", fixes, d, u.f.sound()*a.root);
      });
      m.phase("update without repair");
      try {b.sol->update();} catch (std::exception& e) {m.count("twin-threw"); m.check(fixes > 0, "twin-threw-first", ctx); break;}
      if (fixes == 0) {
        if (twins) m.checkf(same_bits(all_state(a), all_state(b)) && look<double>(a, "flow_time") == look<double>(b, "flow_time"), "admissible-touched", [&]{return ctx + fmt(": states differ by %g", max_diff(all_state(a), all_state(b)));});
        m.checkf(look<double>(a, "flow_time") > t0, "time-not-counted", [&]{return ctx;});
        m.count("untouched-steps");
      } else {
        m.count("repairs");
        m.count(fixes > 10 ? "long-repairs" : "short-repairs");
        break;
      }
      if (!healthy(a)) {m.count("stopped-low-pressure"); break;}
    }
    m.evaluated(scene_hash(a));
    m.sample(a.desc);
  });
}

// ---------------------------------------------------------------- artificial viscosity
static void run_av(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Setup u = random_setup(rng);
    bool uniform = rng.chance(.25);
    if (uniform) {u.f.amp = 0; u.f.rough = 0; u.far_only = true;}
    else if (rng.chance(.3)) {u.f.rough = rng.uniform(.1, .4);}
    std::string kind = rng.pick(std::vector<std::string>{"constant", "smoothness", "smoothness", "elementwise", "elementwise-pde", "admissibility", "admissibility"});
    if (uniform && kind == "constant") kind = "smoothness";
    if (kind == "admissibility") u.o.rs = max_rs; // its indicator is hardly ever nonzero at low order
    Rng seed = rng; rng.next();
    m.phase("make scene");
    auto ap = build(u, seed);
    auto& s = *ap;
    if (!s.elems().size()) return;
    int nd = s.nd, nq = s.nq(), nv = math::pow(2, nd);
    // a discontinuity across the domain
    if (!uniform && rng.chance(kind == "admissibility" ? .8 : .4)) {
      struct Jump : public Spacetime_func {
        Flow_field f; double x0, jump; int d;
        int n_var(int nd) const override {return nd + 2;}
        std::vector<double> operator()(std::vector<double> p, double t) const override {auto v = f(p, t); if (p[d] > x0) for (double& x : v) x *= jump; return v;}
      } j;
      j.f = u.f; j.d = rng.below(nd); j.jump = rng.uniform(2, 30);
      auto& e = s.elems()[rng.below(s.elems().size())];
      j.x0 = e.position(Gauss_legendre(s.rs), rng.below(nq))[j.d] + 1e-9*s.root;
      s.sol->initialize(j);
      m.count("discontinuous");
    } else s.sol->initialize(u.f);
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    if (!corners_ok(s)) {m.count("skipped-inverted-corner"); return;}
    double c = u.f.sound(), v0 = c*u.f.mach;
    double width = s.root*rng.uniform(.02, .5);
    auto& ns = s.sol->nspace();
    if (s.rs > 2 && rng.chance(.3)) s.sol->set_art_visc_row_size(rng.range(2, s.rs));
    int n_it = rng.range(1, 3);
    ns.assign("av_advect_iters", rng.range(1, 3));
    ns.assign("av_diff_iters", rng.range(1, 3));
    ns.assign("n_cheby_av", rng.range(1, 3));
    std::string ctx = s.desc + " " + kind + fmt(" mach %g rough %g width/root %g", u.f.mach, u.f.rough, width/s.root);
    std::set<Vertex*> hang;
    for_refined(*s.mesh, [&](Element& co, std::vector<Element*> fine, Connection_direction, bool, bool) {
      for (auto* f : fine) for (int v = 0; v < nv; ++v) hang.insert(&f->vertex(v));
      for (int v = 0; v < nv; ++v) hang.insert(&co.vertex(v));
    });
    auto grab = [&](bool lap) {
      std::vector<double> r;
      for (int e = 0; e < s.elems().size(); ++e) {double* p = lap ? s.elems()[e].laplacian_av_coef() : s.elems()[e].bulk_av_coef(); r.insert(r.end(), p, p + nq);}
      return r;
    };
    for (int i = 0; i < n_it; ++i) {
      auto before = all_state(s);
      double t0 = look<double>(s, "flow_time"); int it0 = look<int>(s, "iteration");
      m.phase("set " + kind);
      double want = 0;
      auto bulk0 = grab(false), lap0 = grab(true);
      if (kind == "constant") {want = c*width*rng.uniform(0, 1); s.sol->set_art_visc_constant(want);}
      else if (kind == "smoothness") s.sol->update_art_visc_smoothness(width);
      else if (kind == "admissibility") s.sol->set_art_visc_admis();
      else s.sol->update_art_visc_elwise(width, kind == "elementwise-pde");
      m.phase("check");
      auto after = all_state(s);
      if (kind == "smoothness") m.close(max_diff(before, after), 1e-13, "state-rounding", ctx);
      else m.checkf(same_bits(before, after), "state-changed", [&]{return ctx;});
      m.checkf(look<double>(s, "flow_time") == t0 && look<int>(s, "iteration") == it0, "time-changed", [&]{return ctx;});
      bool is_lap = kind != "constant" && kind != "smoothness";
      auto av = grab(is_lap);
      m.checkf(same_bits(is_lap ? bulk0 : lap0, grab(!is_lap)), "other-coefficient-changed", [&]{return ctx;});
      double lo = 1e300, hi = -1e300;
      bool fin = true;
      for (double x : av) {fin = fin && std::isfinite(x); lo = std::min(lo, x); hi = std::max(hi, x);}
      m.checkf(fin, "not-finite", [&]{return ctx;});
      Mat<> mean = u.f.mean();
      double vmax = std::sqrt(2*mean(nd + 1)/mean(nd));
      double h_max = 0;
      for (int e = 0; e < s.elems().size(); ++e) h_max = std::max(h_max, s.elems()[e].nominal_size());
      double bound = kind == "constant" ? want : kind == "smoothness" ? width*look<double>(s, "av_unscaled_max")*vmax
                   : kind == "admissibility" ? (s.rs - 1)*(c + v0)*h_max : width/(s.rs - 1)*(c + v0);
      if (kind == "smoothness" || kind == "elementwise-pde") {
        // solutions of implicit-in-source diffusion equations: positive up to the overshoot of the polynomials
        m.checkf(lo >= (kind == "smoothness" ? -bound*1e-12 : -.5*bound), "negative-" + kind, [&]{return ctx + fmt(" min %g max %g bound %g", lo, hi, bound);});
      } else m.checkf(lo >= 0, "negative", [&]{return ctx + fmt(" min %g max %g bound %g", lo, hi, bound);});
      // (in badly shaped cells the explicit diffusion solver may overshoot by any amount)
      if (kind != "elementwise-pde" || s.kind != "surf") m.checkf(hi <= bound*(kind == "elementwise-pde" ? 1.5 : 1 + 1e-12), "bound-" + kind, [&]{return ctx + fmt(" max %g bound %g", hi, bound);});
      // the metric terms of curved 3D cells are not exactly represented at high order, so the flow is not exactly uniform for the solver
      double utol = s.nd == 3 && s.rs >= 4 && s.mesh->deformed().elements().size() ? 1e-5 : 1e-10;
      if (uniform) m.checkf(hi <= utol*bound && lo >= -utol*bound, "uniform-" + kind, [&]{return ctx + fmt(" iteration %d: max %g bound %g", i, hi, bound);});
      if (hi > 1e-6*bound && !uniform) m.count("active-" + kind);
      if (kind == "constant") m.checkf(lo == want && hi == want, "constant-value", [&]{return ctx;});
      if (kind == "elementwise") {
        // proportional to the width
        s.sol->update_art_visc_elwise(2*width, false);
        auto av2 = grab(true);
        double worst = 0; for (size_t k = 0; k < av.size(); ++k) worst = std::max(worst, std::abs(av2[k] - 2*av[k]));
        m.close(worst, 1e-12*bound, "elementwise-width", ctx);
        s.sol->update_art_visc_elwise(width, false);
      }
      if (kind == "admissibility") {
        ns.assign("freestream_speed", 3*v0); ns.assign("freestream_sound_speed", 3*c);
        s.sol->set_art_visc_admis();
        auto av2 = grab(true);
        double worst = 0; for (size_t k = 0; k < av.size(); ++k) worst = std::max(worst, std::abs(av2[k] - 3*av[k]));
        m.close(worst, 1e-12*bound, "admissibility-speed", ctx);
        ns.assign("freestream_speed", v0); ns.assign("freestream_sound_speed", c);
        s.sol->set_art_visc_admis();
      }
      if (kind == "elementwise" || kind == "admissibility") {
        // continuous: each corner takes the largest value of the cells that meet there, and cells interpolate their corners
        std::map<Vertex*, double> big;
        for (int e = 0; e < s.elems().size(); ++e) for (int v = 0; v < nv; ++v) {auto it = big.insert({&s.elems()[e].vertex(v), -1}).first; it->second = std::max(it->second, s.elems()[e].uncertainty);}
        Gauss_legendre basis(s.rs);
        for (int e = 0; e < s.elems().size(); ++e) {
          bool h = false;
          for (int v = 0; v < nv; ++v) h = h || hang.count(&s.elems()[e].vertex(v));
          if (h) continue;
          for (int q = 0; q < nq; ++q) {
            double x = 0;
            for (int v = 0; v < nv; ++v) {
              double w = 1;
              for (int d = 0; d < nd; ++d) {double n = basis.node((q/math::pow(s.rs, nd - 1 - d))%s.rs); w *= (v >> (nd - 1 - d)) & 1 ? n : 1 - n;}
              x += w*big[&s.elems()[e].vertex(v)];
            }
            m.worst(s.elems()[e].laplacian_av_coef()[q] - x, 1e-12*bound, "corner-interpolation", [&]() {return ctx;});
          }
        }
        m.flush_worst();
      }
      if (rng.chance(.5)) {
        s.sol->update();
        if (!healthy(s)) {m.count("stopped-unphysical"); break;}
        if (uniform) { // still uniform up to boundary conditions: reinitialise
          s.sol->initialize(u.f);
        }
      }
    }
    // off means off: the evolution is that of a solver that never had artificial viscosity
    if (rng.chance(.4)) {
      auto bp = build(u, seed);
      auto& b = *bp;
      s.sol->initialize(u.f); b.sol->initialize(u.f);
      s.sol->set_art_visc_off();
      bool twins = same_bits(corners(s), corners(b));
      if (!twins) m.count("twins-differ");
      for (int k = 0; k < 2 && twins; ++k) {
        m.phase("update without");
        try {s.sol->update(); b.sol->update();} catch (std::exception&) {m.count("off-threw"); break;}
        m.checkf(same_bits(all_state(s), all_state(b)), "off-still-acts", [&]{return ctx + fmt(": solutions differ by %g after turning artificial viscosity off", max_diff(all_state(s), all_state(b)));});
      }
      m.count(s.has_ldg ? "off-viscous" : "off-inviscid");
    }
    m.count(kind);
    if (uniform) m.count("uniform");
    m.evaluated(mon::mix(scene_hash(s), mon::hash_str(kind)));
    m.sample(ctx);
  });
}

// ---------------------------------------------------------------- side effects of diagnostics
static void run_pure(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Setup u = random_setup(rng);
    Rng seed = rng; rng.next();
    m.phase("make scene");
    auto ap = build(u, seed), bp = build(u, seed);
    auto &a = *ap, &b = *bp; // diagnostics are called on a
    if (!a.elems().size()) return;
    if (!same_bits(corners(a), corners(b))) {m.count("twins-differ"); return;}
    for (auto* s : {&a, &b}) {s->sol->nspace().assign<std::string>("working_dir", scratch()); s->sol->initialize(u.f);}
    if (!healthy(a)) {m.count("skipped-unphysical"); return;}
    int av = rng.below(5);
    bool fix = rng.chance(.3), filter = rng.chance(.2);
    double width = a.root*.1;
    for (auto* s : {&a, &b}) {s->sol->set_fix_admissibility(fix); s->sol->nspace().assign("use_filter", int(filter));}
    int n = rng.range(2, 5);
    std::string file = scratch() + "vis";
    std::vector<int> sns;
    for (auto& p : a.rec_of_sn) sns.push_back(p.first);
    std::string log;
    for (int i = 0; i < n; ++i) {
      auto before = all_state(a);
      auto lap = [&](Flow_scene& s) {std::vector<double> v; for (int e = 0; e < s.elems().size(); ++e) v.insert(v.end(), s.elems()[e].bulk_av_coef(), s.elems()[e].bulk_av_coef() + 2*s.nq()); return v;};
      auto co = lap(a);
      double t0 = look<double>(a, "flow_time"), dt0 = step(a); int it0 = look<int>(a, "iteration");
      int k = rng.range(1, 4);
      for (int j = 0; j < k; ++j) {
        State_variables sv; Pressure pr; Mass mass; Velocity vel; Physical_residual res; Time_step_scale_func ts; Art_visc_coef avc; Jacobian_det_func jd;
        std::vector<const Qpoint_func*> qfs {&sv, &pr, &mass, &vel, &res, &ts, &avc, &jd};
        auto* qf = qfs[rng.below(qfs.size())];
        int sn = sns.empty() ? -1 : sns[rng.below(sns.size())];
        std::string what;
        int kind = rng.below(18);
        if (sn < 0 && (kind == 1 || kind == 7 || kind == 8 || kind == 13)) kind = 0;
        switch (kind) {
          case 0: what = "integral_field"; m.phase(what); a.sol->integral_field(*qf); break;
          case 1: {
            what = "integral_surface"; m.phase(what);
            Pressure_stress ps; Viscous_stress vs; Heat_flux hf; Outward_normal on;
            const Boundary_func* bf = rng.pick(std::vector<const Boundary_func*>{&ps, &vs, &hf, &on});
            a.sol->integral_surface(*bf, sn); break;
          }
          case 2: what = "bounds_field"; m.phase(what); a.sol->bounds_field(*qf, rng.range(2, 5)); break;
          case 3: {
            what = "sample"; m.phase(what);
            auto& e = a.elems()[rng.below(a.elems().size())];
            (*qf)(e, Gauss_legendre(a.rs), rng.below(a.nq()), 0.); Elem_average avg(*qf); avg(e, Gauss_legendre(a.rs), 0.);
            break;
          }
          case 4: what = "iteration_status"; m.phase(what); a.sol->iteration_status().report(); a.sol->iteration_status().header(); break;
          case 5: what = "stopwatch report"; m.phase(what); a.sol->stopwatch_tree().report(); break;
          case 6: {
            what = "set_uncertainty"; m.phase(what);
            Normalized_nonsmooth nn(mass); Elem_nonsmooth en(*qf); Equiangle_skewness sk;
            if (rng.chance(.5)) a.sol->set_uncertainty(nn); else a.sol->set_uncertainty(sk);
            if (rng.chance(.5)) {what += "+synch_extruded_uncert"; a.sol->synch_extruded_uncert();}
            break;
          }
          case 7: what = "set_uncert_surface_rep"; m.phase(what); a.sol->set_uncert_surface_rep(sn); break;
          case 8: if (a.nd > 1) {
            what = "visualize_surface"; m.phase(what);
            Pressure_stress ps; Viscous_stress vs;
            if (rng.chance(.5)) a.sol->visualize_surface("xdmf", file, sn, ps, 3, a.nd == 3 && rng.chance(.5));
            else a.sol->visualize_surface("xdmf", file, sn, vs, 2);
            break;
          } // fall through
          case 9: if (a.nd > 1) {what = "visualize_field"; m.phase(what); a.sol->visualize_field("xdmf", file, *qf, rng.range(2, 3), rng.chance(.4)); break;} // fall through
          case 10: what = "write_state"; m.phase(what); a.sol->write_state(file); break;
          case 11: what = "mesh write"; m.phase(what); a.mesh->write(file); break;
          case 12: what = "compute_residual"; m.phase(what); a.sol->compute_residual(); break;
          case 13: if (a.nd > 1 && a.kind == "surf") {what = "vis_cart_surf"; m.phase(what); a.sol->vis_cart_surf("xdmf", file, sn); break;} // fall through
          case 14: if (a.nd > 1) {what = "vis_lts_constraints"; m.phase(what); a.sol->vis_lts_constraints("xdmf", file, 2); break;} // fall through
          case 15: what = "is_admissible"; m.phase(what); a.sol->is_admissible(); break;
          case 16: what = "valid"; m.phase(what); a.mesh->valid(); a.mesh->n_elements(); break;
          default:
            if (a.nd == 3) {what = "export_polymesh"; m.phase(what); a.mesh->export_polymesh(scratch());}
            else {what = "reset_counters"; m.phase(what); a.sol->reset_counters();}
        }
        log += " " + what;
        m.count("diag:" + what);
        if (!m.checkf(same_bits(before, all_state(a)), "state-" + what, [&]{return a.desc + " " + what + fmt(" changed the state by %g", max_diff(before, all_state(a)));})) return;
        m.checkf(same_bits(co, lap(a)), "viscosity-" + what, [&]{return a.desc + " " + what;});
        m.checkf(look<double>(a, "flow_time") == t0 && step(a) == dt0 && look<int>(a, "iteration") == it0, "time-" + what, [&]{return a.desc + " " + what;});
      }
      m.phase("update");
      bool threw[2] {false, false};
      Flow_scene* ss[2] {&a, &b};
      for (int w = 0; w < 2; ++w) try {
        auto& sol = *ss[w]->sol;
        if (av == 1) sol.set_art_visc_constant(u.f.sound()*width);
        if (av == 2) sol.update_art_visc_smoothness(width);
        if (av == 3) sol.update_art_visc_elwise(width, i%2);
        if (av == 4) sol.set_art_visc_admis();
        sol.update();
      } catch (std::exception&) {threw[w] = true;}
      if (threw[0] || threw[1]) {m.checkf(threw[0] == threw[1], "threw", [&]{return a.desc + log;}); m.count("both-threw"); break;}
      if (!m.checkf(same_bits(all_state(a), all_state(b)) && look<double>(a, "flow_time") == look<double>(b, "flow_time") && step(a) == step(b), "later-steps",
                    [&]{return a.desc + fmt(" av %d:", av) + log + fmt(": states differ by %g, times %g %g", max_diff(all_state(a), all_state(b)), look<double>(a, "flow_time"), look<double>(b, "flow_time"));})) return;
      if (!healthy(a)) {m.count("stopped-unphysical"); break;}
    }
    // error estimates with the same inputs give the same answer in both
    m.count("runs");
    m.evaluated(scene_hash(a));
    m.sample(a.desc + log);
  });
}

// ---------------------------------------------------------------- work counters
static void run_work(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Setup u = random_setup(rng);
    u.o.size = 3;
    m.phase("make scene");
    Rng seed = rng; rng.next();
    auto sp = build(u, seed);
    auto& s = *sp;
    if (!s.elems().size()) return;
    s.sol->initialize(u.f);
    if (!healthy(s)) return;
    long n_car = s.mesh->cartesian().elements().size(), n_def = s.mesh->deformed().elements().size(), n_bc = s.mesh->boundary_connections().size();
    long n_all = s.elems().size();
    m.check(n_car + n_def == n_all, "element-count", s.desc);
    auto& sw = s.sol->stopwatch_tree();
    struct Want {long root = 0, car = 0, def = 0, bc = 0, step = 0, local = 0, resid = 0, calls = 0, check = 0;} w;
    bool fix = s.nd > 1 && rng.chance(.3);
    s.sol->set_fix_admissibility(fix);
    s.sol->nspace().assign<std::string>("working_dir", scratch());
    int n = rng.range(1, 4);
    for (int i = 0; i < n; ++i) {
      if (rng.chance(.3)) {s.sol->compute_residual(); ++w.resid;}
      int cheby = rng.range(1, 2), iters = rng.range(1, 2);
      s.sol->nspace().assign("n_cheby_flow", cheby);
      s.sol->nspace().assign("flow_iters", iters);
      double t0 = now_s();
      double before = sw.stopwatch.time();
      int f0 = look<int>(s, "fix_iters");
      s.sol->update();
      double t1 = now_s();
      if (look<int>(s, "fix_iters") != f0 || !healthy(s)) {m.count("stopped"); return;}
      m.checkf(sw.stopwatch.time() - before <= t1 - t0 + 1e-6, "work-time", [&]{return s.desc;});
      ++w.root; w.step += cheby*iters; w.calls++;
      if (fix) w.check += 2*cheby*iters;
    }
    std::string ctx = s.desc;
    auto is = [&](const Stopwatch_tree& t, double want, std::string what) {m.checkf(t.work_units_completed == want, "work-" + what, [&]{return ctx + " " + what + fmt(": %g work units counted, %g performed", double(t.work_units_completed), want);});};
    is(sw, w.root*n_all, "total");
    is(sw.children.at("cartesian"), w.root*n_car, "cartesian");
    is(sw.children.at("deformed"), w.root*n_def, "deformed");
    is(sw.children.at("boundary conditions"), (2*w.step + w.resid)*n_bc, "boundary conditions");
    is(sw.children.at("check admis."), w.check*n_all, "check admis.");
    is(sw.children.at("cartesian").children.at("compute time step"), w.step*n_car, "cartesian time step");
    is(sw.children.at("deformed").children.at("compute time step"), w.step*n_def, "deformed time step");
    is(sw.children.at("cartesian").children.at("local"), (2*w.step + w.resid)*n_car, "cartesian local");
    is(sw.children.at("deformed").children.at("local"), (2*w.step + w.resid)*n_def, "deformed local");
    m.checkf(sw.stopwatch.n_calls() == w.calls && !sw.stopwatch.running(), "work-calls", [&]{return ctx;});
    // a parent's time covers that of its children
    std::function<void(const Stopwatch_tree&, std::string)> walk = [&](const Stopwatch_tree& t, std::string name) {
      m.checkf(!t.stopwatch.running(), "work-running", [&]{return ctx + name;});
      double sum = 0;
      for (auto& c : t.children) {walk(c.second, name + "/" + c.first); sum += c.second.stopwatch.time();}
      if (name != "" && t.stopwatch.n_calls()) m.checkf(sum <= t.stopwatch.time() + 1e-5, "work-nesting", [&]{return ctx + name + fmt(": children %g parent %g", sum, t.stopwatch.time());});
    };
    walk(sw, "");
    m.count(s.has_ldg ? "work-viscous" : "work-inviscid");
    m.evaluated(scene_hash(s));
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "step") run_step(m);
  else if (m.mode == "stable") run_stable(m);
  else if (m.mode == "admis") run_admis(m);
  else if (m.mode == "av") run_av(m);
  else if (m.mode == "pure") run_pure(m);
  else if (m.mode == "work") run_work(m);
  else {fprintf(stderr, "unknown mode\n"); return 2;}
  return m.finish();
}
