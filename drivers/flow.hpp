#ifndef VERIF_FLOW_HPP_
#define VERIF_FLOW_HPP_
// random flow problems: a Solver on a random mesh with random boundary conditions, transport models and options
#include "block.hpp"
#include <Solver.hpp>
#include <Printer.hpp>
#include <constants.hpp>
#include <Gauss_legendre.hpp>

namespace scene
{

struct Quiet : public Printer
{
  struct Enough {};
  std::string text;
  int lines_left = -1; //!< if nonnegative, number of messages to accept before throwing `Enough`
  void print(std::string s) override
  {
    if (lines_left == 0) throw Enough();
    if (lines_left > 0) --lines_left;
    if (text.size() < 100000) text += s;
  }
};

//! a smooth admissible flow, analytically known
struct Flow_field : public Spacetime_func
{
  int nd;
  double rho = 1, p = 1, mach = .3, amp = .2, len = 1;
  Mat<3> dir = Mat<3>::Zero(), org = Mat<3>::Zero();
  std::array<std::array<double, 4>, 5> w {};
  double rough = 0; //!< position-hashed relative noise
  uint64_t salt = 0;
  double sound() const {return std::sqrt(1.4*p/rho);}
  int n_var(int) const override {return nd + 2;}
  //! primitive variables: velocity, mass, pressure
  Mat<> prim(std::vector<double> pos) const
  {
    Mat<> q(nd + 2);
    uint64_t h = salt;
    if (rough > 0) for (double x : pos) h = mon::mix(h, uint64_t(std::llround(x/len*1e7)));
    for (int i = 0; i < nd + 2; ++i) {
      double arg = w[i][3];
      for (int d = 0; d < nd; ++d) arg += w[i][d]*(pos[d] - org(d))/len;
      double s = amp*std::sin(arg);
      if (rough > 0) {h = mon::mix(h, i); s += rough*(double(h%20001)/1e4 - 1);}
      if (i < nd) q(i) = sound()*(mach*dir(i) + s);
      else q(i) = (i == nd ? rho : p)*(1 + .8*s);
    }
    return q;
  }
  static Mat<> cons(Mat<> q)
  {
    int nd = q.size() - 2;
    Mat<> u(nd + 2);
    u.head(nd) = q.head(nd)*q(nd);
    u(nd) = q(nd);
    u(nd + 1) = q(nd + 1)/.4 + .5*q(nd)*q.head(nd).squaredNorm();
    return u;
  }
  Mat<> mean() const
  {
    Mat<> q(nd + 2);
    for (int i = 0; i < nd; ++i) q(i) = sound()*mach*dir(i);
    q(nd) = rho; q(nd + 1) = p;
    return cons(q);
  }
  std::vector<double> operator()(std::vector<double> pos, double) const override
  {
    Mat<> u = cons(prim(pos));
    return std::vector<double>(u.data(), u.data() + nd + 2);
  }
};

inline Flow_field random_field(Rng& rng, int nd, double len, Mat<> org)
{
  Flow_field f;
  f.nd = nd;
  f.len = len;
  for (int d = 0; d < nd; ++d) f.org(d) = org(d);
  f.rho = rng.pick(std::vector<double>{1., 1.2, .02, 30.});
  f.p = rng.pick(std::vector<double>{1., 1e5, 300.});
  f.mach = rng.pick(std::vector<double>{0., .3, .8, 2.5});
  for (int d = 0; d < nd; ++d) f.dir(d) = rng.normal();
  f.dir /= f.dir.norm();
  f.amp = rng.uniform(.02, .25);
  for (auto& v : f.w) {for (auto& x : v) x = rng.uniform(-3, 3);}
  f.salt = rng.next();
  return f;
}

//! scales by which to normalise each conserved variable of a flow
inline Mat<> state_scale(const Flow_field& f)
{
  Mat<> s(f.nd + 2);
  double c = f.sound()*(1 + f.mach);
  for (int i = 0; i < f.nd; ++i) s(i) = f.rho*c;
  s(f.nd) = f.rho;
  s(f.nd + 1) = f.p/.4 + f.rho*c*c;
  return s;
}

//! a boundary condition that records what it exchanged with the solver
struct Rec_bc : public Flow_bc
{
  std::unique_ptr<Flow_bc> inner;
  std::string name;
  struct Rec {std::vector<double> in, gh, nrml, fin, fgh, pos; int sign, i_dim;};
  std::map<Boundary_face*, Rec>* log = nullptr; // only usable with one thread
  Rec_bc(Flow_bc* b, std::string n) : inner{b}, name{n} {}
  static std::vector<double> grab(double* p, int n) {return std::vector<double>(p, p + n);}
  void apply_state(Boundary_face& bf) override
  {
    inner->apply_state(bf);
    if (log) {
      auto pr = bf.storage_params();
      int nfq = pr.n_qpoint()/pr.row_size;
      Rec& r = (*log)[&bf];
      r.in = grab(bf.inside_face(false), pr.n_var*nfq);
      r.gh = grab(bf.ghost_face(false), pr.n_var*nfq);
      r.nrml = grab(bf.surface_normal(), pr.n_dim*nfq);
      r.pos = grab(bf.surface_position(), pr.n_dim*nfq);
      r.sign = bf.inside_face_sign(); r.i_dim = bf.i_dim();
      r.fin.clear(); r.fgh.clear();
    }
  }
  void apply_flux(Boundary_face& bf) override
  {
    inner->apply_flux(bf);
    if (log) {
      auto pr = bf.storage_params();
      int nfq = pr.n_qpoint()/pr.row_size;
      Rec& r = (*log)[&bf];
      r.fin = grab(bf.inside_face(true), pr.n_var*nfq);
      r.fgh = grab(bf.ghost_face(true), pr.n_var*nfq);
    }
  }
  void apply_advection(Boundary_face& bf) override {inner->apply_advection(bf);}
  void apply_diffusion(Boundary_face& bf) override {inner->apply_diffusion(bf);}
  void flux_diffusion(Boundary_face& bf) override {inner->flux_diffusion(bf);}
  void init_cache(Boundary_face& bf) override {inner->init_cache(bf);}
};

struct Flow_scene
{
  int nd, rs;
  std::string kind, desc;
  double root = 1;
  std::shared_ptr<Quiet> out = std::make_shared<Quiet>();
  std::shared_ptr<Namespace> space = std::make_shared<Namespace>();
  std::unique_ptr<Solver> sol;
  Accessible_mesh* mesh = nullptr;
  Block block;
  Tree_scene tree;
  bool warped = false;   // face warping present
  bool has_ldg = false;
  bool local = false;
  std::vector<std::string> bc_names;
  std::map<Boundary_face*, Rec_bc::Rec> log;
  std::vector<Rec_bc*> recs;
  std::map<int, Rec_bc*> rec_of_sn;
  void record(bool on) {if (on) log.clear(); for (auto r : recs) r->log = on ? &log : nullptr;}
  int nq() const {return math::pow(rs, nd);}
  auto& elems() {return mesh->elements();}
};

struct Scene_opts
{
  int nd = 2, rs = 3;
  std::string kind = "block"; // block, tree, surf, periodic
  std::function<Flow_bc*(int side, std::string& name)> bc; // required unless periodic
  bool global_dt = true;
  std::function<Transport_model(double root, bool conductivity)> transport; // inviscid if empty
  bool implicit = false;
  int size = 3; // periodic: cells per dimension
  std::function<void(Block&)> tweak_block;
  std::shared_ptr<Namespace> space;
};

//! which outer side (2*axis + positive) of the block a local face of a cell is on
inline int block_side(const Block& b, const Block::Cell& c, int i_face)
{
  auto a = b.axis(b.orient[c.column], i_face/2);
  bool pos = bool(i_face%2) == a.second;
  return 2*a.first + pos;
}

inline std::unique_ptr<Flow_scene> make_scene(Rng& rng, Scene_opts o)
{
  auto sp = std::make_unique<Flow_scene>();
  Flow_scene& s = *sp;
  s.nd = o.nd; s.rs = o.rs; s.kind = o.kind;
  s.local = !o.global_dt;
  if (o.space) s.space = o.space;
  auto wrap = [&](int side) {
    std::string name;
    Flow_bc* b = o.bc(side, name);
    auto r = new Rec_bc(b, name);
    s.recs.push_back(r);
    s.bc_names.push_back(name);
    return r;
  };
  auto mk = [&](double root) {
    s.root = root;
    Transport_model visc = o.transport ? o.transport(root, false) : inviscid;
    Transport_model cond = o.transport ? o.transport(root, true) : inviscid;
    s.has_ldg = visc.is_viscous || cond.is_viscous;
    s.sol.reset(new Solver(o.nd, o.rs, root, !o.global_dt, visc, cond, s.space, s.out, o.implicit));
    s.mesh = dynamic_cast<Accessible_mesh*>(&s.sol->mesh());
  };
  if (o.kind == "block") {
    s.block = random_block(rng, o.nd, rng.pick(std::vector<double>{1., .05, 40.}));
    if (o.tweak_block) o.tweak_block(s.block);
    mk(s.block.root);
    std::vector<int> sns;
    for (int i = 0; i < 2*o.nd; ++i) {
      auto r = wrap(i);
      sns.push_back(s.mesh->add_boundary_condition(r, new Null_mbc));
      s.rec_of_sn[sns.back()] = r;
    }
    s.block.build(*s.mesh, -1);
    for (auto& c : s.block.cells) for (int f = 0; f < 2*o.nd; ++f) {
      if (!s.mesh->element(c.level, true, c.sn).is_connected(f)) s.mesh->connect_boundary(c.level, true, c.sn, f/2, f%2, sns[block_side(s.block, c, f)]);
    }
    s.desc = s.block.desc;
    s.sol->calc_jacobian();
  } else if (o.kind == "periodic") {
    mk(rng.pick(std::vector<double>{1., .05, 40.}));
    int n = o.size, lev = 0;
    std::map<std::array<int, 3>, int> at;
    std::array<int, 3> lim {n, o.nd > 1 ? n : 1, o.nd > 2 ? n : 1};
    for (int i = 0; i < lim[0]; ++i) for (int j = 0; j < lim[1]; ++j) for (int k = 0; k < lim[2]; ++k) at[{i, j, k}] = s.mesh->add_element(lev, false, {i, j, k});
    for (auto& p : at) for (int d = 0; d < o.nd; ++d) {
      auto q = p.first;
      q[d] = (q[d] + 1)%n;
      s.mesh->connect_cartesian(lev, {p.second, at[q]}, {d});
    }
    s.desc = fmt("periodic nd=%d n=%d root=%g", o.nd, n, s.root);
    s.sol->calc_jacobian();
  } else {
    s.tree = tree_params(rng, o.nd, o.kind == "surf");
    s.tree.max_elems = o.nd == 1 ? 40 : o.nd == 2 ? 150 : 150;
    mk(s.tree.root);
    start_tree(rng, *s.mesh, s.tree, wrap);
    for (int i = 0; i < int(s.tree.tree_bc.size()); ++i) s.rec_of_sn[s.tree.tree_bc[i]] = s.recs[i];
    if (s.tree.surf_bc >= 0) s.rec_of_sn[s.tree.surf_bc] = s.recs.back();
    int n_ad = o.kind == "surf" ? rng.below(2) : rng.range(0, 2);
    for (int i = 0; i < n_ad; ++i) {
      auto a = random_adapt(rng, *s.mesh, s.tree);
      s.mesh->update(a.ref, a.unref);
    }
    if (o.kind == "surf") {
      int n = rng.range(0, 5);
      for (int i = 0; i < n; ++i) s.mesh->relax(.5);
      s.tree.log += fmt("; %d relaxations", n);
    }
    s.desc = s.tree.log;
    s.sol->calc_jacobian();
    auto& el = s.mesh->elements();
    for (int i = 0; i < el.size(); ++i) if (double* a = el[i].node_adjustments()) for (int j = 0; j < 2*o.nd*s.nq()/o.rs; ++j) if (a[j] != 0) s.warped = true;
  }
  s.desc += fmt(", row size %d, %s%s, %d elements, bcs", o.rs, o.global_dt ? "global dt" : "local dt", s.has_ldg ? ", viscous" : "", s.mesh->n_elements());
  for (auto& n : s.bc_names) s.desc += " " + n;
  return sp;
}

//! \brief is the flow physical at all quadrature points and everywhere the solver extrapolates it to (computed independently of the solver)?
inline bool healthy(Flow_scene& s)
{
  Gauss_legendre basis(s.rs);
  int nd = s.nd, nv = nd + 2, nq = s.nq(), nfq = nq/s.rs;
  auto ok = [&](const Mat<dyn, dyn>& u) { // points x variables
    for (int q = 0; q < u.rows(); ++q) {
      double ke = .5*u.row(q).head(nd).squaredNorm()/u(q, nd);
      if (!(u(q, nd) > 0 && u(q, nd + 1) - ke > 1e-9*u(q, nd + 1))) return false;
    }
    return true;
  };
  for (int i = 0; i < s.elems().size(); ++i) {
    auto& e = s.elems()[i];
    Mat<dyn, dyn> u = Eigen::Map<Mat<dyn, dyn>>(e.state(), nq, nv);
    if (!ok(u)) return false;
    for (int q = 0; q < nq; ++q) if (!(e.jacobian_determinant(q) > 0)) return false;
    for (int f = 0; f < 2*nd; ++f) {
      if (e.get_is_deformed()) if (double* fn = static_cast<Deformed_element&>(e).face_normal(f)) {
        // faces that have no area have no normal direction
        for (int q = 0; q < nfq; ++q) {double a = 0; for (int d = 0; d < nd; ++d) a += fn[d*nfq + q]*fn[d*nfq + q]; if (!(a > 1e-16)) return false;}
      }
      Mat<dyn, dyn> bm = basis.boundary().row(f%2), uf(nfq, nv);
      for (int v = 0; v < nv; ++v) uf.col(v) = math::dimension_matvec(bm, Mat<>(u.col(v)), f/2);
      if (!ok(uf)) return false;
      for (int m = 0; m < 9; ++m) {
        if (nd < 3 && m > 2) break;
        if (nd == 1 || m == 8) break;
        Mat<dyn, dyn> w = uf;
        for (int v = 0; v < nv; ++v) {
          Mat<> x = uf.col(v);
          int part[2] {m%3, m/3};
          for (int t = 0; t < nd - 1; ++t) if (part[t] < 2) x = math::dimension_matvec(Mat<dyn, dyn>(basis.prolong(part[t])), x, t);
          w.col(v) = x;
        }
        if (!ok(w)) return false;
      }
    }
  }
  return true;
}

//! characteristic mesh length
inline double mesh_len(Flow_scene& s) {return s.root;}
//! some point of the mesh
inline Mat<> mesh_origin(Flow_scene& s)
{
  auto& e = s.mesh->elements()[0];
  return e.vertex(0).pos.head(s.nd);
}

//! random transport model of a given kinematic magnitude (viscosity: rho*c*len/re)
inline Transport_model random_transport(Rng& rng, const Flow_field& f, double len, bool conductivity)
{
  double re = rng.uniform(20, 500);
  double mu = f.rho*f.sound()*len/re;
  double k = conductivity ? mu*1.4*constants::specific_gas_air/.4/.7 : mu;
  double t = f.p/f.rho/constants::specific_gas_air;
  switch (rng.below(3)) {
    case 0: return Transport_model::inviscid();
    case 1: return Transport_model::constant(k);
    default: return Transport_model::sutherland(k, t*rng.uniform(.5, 2), t*rng.uniform(.2, 1));
  }
}

//! a random boundary condition that is sensible for a given flow
inline Flow_bc* random_bc(Rng& rng, const Flow_field& f, std::string& name)
{
  double c = f.sound();
  switch (rng.below(8)) {
    case 0: name = "freestream"; return new Freestream(f.mean());
    case 1: name = "characteristic"; return new Riemann_invariants(f.mean());
    case 2: name = "pressure_outflow"; return new Pressure_outflow(f.p*rng.uniform(.6, 1.5));
    case 3: name = "nonpenetration"; return new Nonpenetration;
    case 4: {
      std::shared_ptr<Thermal_bc> t;
      switch (rng.below(3)) {
        case 0: t = std::make_shared<Prescribed_heat_flux>(rng.chance(.5) ? 0. : f.p*c*rng.uniform(-.1, .1)); name = "no_slip heat flux"; break;
        case 1: t = std::make_shared<Prescribed_energy>(f.p/f.rho/.4*rng.uniform(.7, 1.5)); name = "no_slip isothermal"; break;
        default: {
          auto e = std::make_shared<Thermal_equilibrium>();
          e->emissivity = rng.uniform(0, 1); e->heat_transfer_coef = rng.uniform(0, f.rho*c); e->temperature = f.p/f.rho/constants::specific_gas_air;
          name = "no_slip equilibrium"; t = e;
        }
      }
      return new No_slip(t, rng.pick(std::vector<double>{1., 2., 2., 5.}));
    }
    case 5: name = "copy"; return new Copy;
    case 6: name = "outflow"; return new Outflow;
    default: {
      name = "freestream2";
      Flow_field g = f; g.mach = rng.uniform(0, 2);
      return new Freestream(g.mean());
    }
  }
}

}
#endif
