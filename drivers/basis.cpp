// monitors of the polynomial bases (B01): every member judged against quadrature/interpolation theory on random polynomials
#include "mon.hpp"
#include <Gauss_legendre.hpp>
#include <Gauss_lobatto.hpp>
#include <Equidistant.hpp>
#include <Physical_basis.hpp>
#include <Derivative.hpp>
#include <filter_limit.hpp>
#include <config.hpp>
#include <memory>
#include <complex>
#include <math.hpp>
#include <Eigen/Eigenvalues>

using namespace hexed;
using mon::Monitor;
using mon::Rng;
using mon::fmt;

//! a random polynomial in the shifted Legendre basis, evaluated by recurrence
struct Poly
{
  std::vector<double> c;
  double operator()(double x) const {double v, d; eval(x, v, d); return v;}
  double der(double x) const {double v, d; eval(x, v, d); return d;}
  void eval(double x, double& v, double& d) const
  {
    double t = 2*x - 1, p0 = 1, p1 = t, d0 = 0, d1 = 2;
    v = c[0]; d = 0;
    for (size_t n = 1; n < c.size(); ++n) {
      v += c[n]*p1; d += c[n]*d1;
      double p2 = ((2*n + 1)*t*p1 - n*p0)/(n + 1), d2 = ((2*n + 1)*(2*p1 + t*d1) - n*d0)/(n + 1);
      p0 = p1; p1 = p2; d0 = d1; d1 = d2;
    }
  }
  double integral() const {return c[0];}
};
static Poly random_poly(Rng& rng, int degree)
{
  Poly p;
  for (int i = 0; i <= degree; ++i) p.c.push_back(rng.uniform(-1, 1));
  if (rng.chance(.2)) for (int i = 0; i < degree; ++i) p.c[i] = 0; // just the top mode
  return p;
}
static Mat<> at(const Poly& p, const Mat<>& x) {Mat<> v(x.size()); for (int i = 0; i < x.size(); ++i) v(i) = p(x(i)); return v;}
static Mat<> der_at(const Poly& p, const Mat<>& x) {Mat<> v(x.size()); for (int i = 0; i < x.size(); ++i) v(i) = p.der(x(i)); return v;}

template <int rs> void derivative(Monitor& m, Rng& rng, const Basis& b, bool leg)
{
  if (rs != b.row_size) {if constexpr (rs > 2) derivative<rs - 1>(m, rng, b, leg); return;}
  Derivative<rs> d(b);
  Mat<rs> w = b.node_weights();
  Poly p = random_poly(rng, rs - 1);
  Mat<rs, 1> v = at(p, b.nodes());
  Mat<2, 1> bv {p(0), p(1)};
  m.close((d(v, bv) - der_at(p, b.nodes())).cwiseAbs().maxCoeff(), 1e-11*rs*rs, "derivative-exact", fmt("rs %d", rs));
  Mat<2, 1> any {rng.uniform(-3, 3), rng.uniform(-3, 3)};
  Mat<rs, 1> r = d(v, any);
  m.close(w.dot(r) - (any(1) - any(0)), 1e-11*rs*rs, "derivative-conservative", fmt("rs %d legendre %d", rs, leg));
  Mat<2, 1> got;
  Mat<rs, 1> inner = d.template interior_term<1>(v, got);
  m.close((inner + d.template boundary_term<1>(any) - r).cwiseAbs().maxCoeff(), 1e-11*rs*rs, "derivative-split", fmt("rs %d", rs));
  m.close((got - bv).cwiseAbs().maxCoeff(), 1e-12*rs, "derivative-extrapolates", fmt("rs %d", rs));
}

static void run_basis(Monitor& m)
{
  m.run([&](Rng& rng, int i_case) {
    int span = config::max_row_size - 1;
    int rs = 2 + i_case%span;
    int kind = (i_case/span)%3; // legendre, lobatto, equidistant
    std::unique_ptr<Basis> bp;
    if (kind == 0) bp.reset(new Gauss_legendre(rs)); else if (kind == 1) bp.reset(new Gauss_lobatto(rs)); else bp.reset(new Equidistant(rs));
    Basis& b = *bp;
    std::string ctx = fmt("%s rs %d", kind == 0 ? "legendre" : kind == 1 ? "lobatto" : "equidistant", rs);
    m.phase(ctx);
    m.count(ctx.substr(0, ctx.find(' ')));
    Mat<> x = b.nodes();
    for (int i = 0; i < rs; ++i) {
      m.check(x(i) == b.node(i), "nodes", ctx);
      m.check(x(i) >= 0 && x(i) <= 1 && (i == 0 || x(i) > x(i - 1)), "nodes-ordered", ctx);
      m.close(x(i) + x(rs - 1 - i) - 1, 1e-15, "nodes-symmetric", ctx);
    }
    if (kind == 1) m.check(x(0) == 0 && x(rs - 1) == 1, "lobatto-ends", ctx);
    auto deg = [&](int top) {return rng.chance(.4) ? top : rng.range(0, top);};
    for (int rep = 0; rep < 6; ++rep) {
      Poly p = random_poly(rng, deg(rs - 1));
      Mat<> v = at(p, x);
      m.close((b.diff_mat()*v - der_at(p, x)).cwiseAbs().maxCoeff(), 1e-11*rs*rs, "differentiation", ctx);
      Mat<> smp(rng.range(1, 9));
      for (int i = 0; i < smp.size(); ++i) smp(i) = rng.chance(.1) ? x(rng.below(rs)) : rng.uniform(0, 1);
      Mat<dyn, dyn> ip = b.interpolate(smp);
      m.check(ip.rows() == smp.size() && ip.cols() == rs, "interpolation-shape", ctx);
      m.close((ip*v - at(p, smp)).cwiseAbs().maxCoeff(), 1e-11*rs, "interpolation", ctx);
      Mat<> ends = b.boundary()*v;
      m.close(std::max(std::abs(ends(0) - p(0)), std::abs(ends(1) - p(1))), 1e-11*rs, "boundary", ctx);
    }
    if (kind == 2) {m.evaluated(rng.next()); return;}
    Mat<> w = b.node_weights();
    m.check(w.minCoeff() > 0, "weights-positive", ctx);
    for (int rep = 0; rep < 6; ++rep) {
      Poly p = random_poly(rng, deg(kind == 0 ? 2*rs - 1 : 2*rs - 3));
      m.close(w.dot(at(p, x)) - p.integral(), 1e-13*rs, "quadrature", ctx);
    }
    // Legendre modes
    Mat<dyn, dyn> orth(rs, rs);
    for (int d = 0; d < rs; ++d) {
      orth.row(d) = b.orthogonal(d);
      Poly p; p.c.assign(d + 1, 0.); p.c[d] = 1;
      Mat<> v = at(p, x);
      v /= std::sqrt((v.array().square()*w.array()).sum());
      m.close((v - b.orthogonal(d)).cwiseAbs().maxCoeff(), 1e-12*rs, "legendre-mode", ctx);
    }
    Mat<dyn, dyn> gram = orth*w.asDiagonal()*orth.transpose();
    m.close((gram - Mat<dyn, dyn>::Identity(rs, rs)).cwiseAbs().maxCoeff(), 1e-12*rs, "orthonormal", ctx);
    {
      Mat<> v(rs), amp(rs);
      for (int i = 0; i < rs; ++i) {v(i) = rng.uniform(-1, 1);}
      Mat<> modes = orth*w.asDiagonal()*v;
      Mat<> f = b.filter()*v;
      m.close(w.dot(f) - w.dot(v), 1e-12*rs, "filter-mean", ctx);
      Mat<> fm = orth*w.asDiagonal()*f;
      for (int i = 0; i < rs; ++i) m.close(fm(i) - modes(i)*std::pow(.5, i), 1e-12*rs, "filter-modes", ctx);
    }
    // spectra of the model problems on a periodic grid
    {
      int n = 16, N = n*rs;
      Mat<dyn, dyn> adv = Mat<dyn, dyn>::Zero(N, N), grad = adv, D = b.diff_mat(), B = b.boundary();
      for (int e = 0; e < n; ++e) {
        int l = (e + n - 1)%n, r = (e + 1)%n;
        adv.block(e*rs, e*rs, rs, rs) -= D;
        grad.block(e*rs, e*rs, rs, rs) += D;
        for (int i = 0; i < rs; ++i) for (int j = 0; j < rs; ++j) {
          // upwind value at the left face is the left neighbor's
          adv(e*rs + i, l*rs + j) += B(0, i)/w(i)*B(1, j);
          adv(e*rs + i, e*rs + j) -= B(0, i)/w(i)*B(0, j);
          // central gradient
          grad(e*rs + i, e*rs + j) += .5*B(0, i)/w(i)*B(0, j) - .5*B(1, i)/w(i)*B(1, j);
          grad(e*rs + i, l*rs + j) -= .5*B(0, i)/w(i)*B(1, j);
          grad(e*rs + i, r*rs + j) += .5*B(1, i)/w(i)*B(0, j);
        }
      }
      double ec = adv.eigenvalues().real().minCoeff(), ed = Mat<dyn, dyn>(grad*grad).eigenvalues().real().minCoeff();
      // defective eigenvalues are only determined to a root of the rounding error
      if (kind == 0) {
        m.close(b.min_eig_diffusion()/ed - 1, 1e-6, "diffusion-spectrum", ctx + fmt(" %g %g", b.min_eig_diffusion(), ed));
        double safety = .9;
        m.close(b.max_cfl()*-ec/(2*safety) - 1, 1e-4, "convection-spectrum", ctx + fmt(" %g %g", b.max_cfl(), ec));
        m.close(b.step_ratio()*safety*2 - 1, 1e-12, "step-ratio", ctx);
        // the two-stage scheme with the largest step is stable for linear convection
        double dt = b.max_cfl();
        Mat<dyn, dyn> I = Mat<dyn, dyn>::Identity(N, N);
        (void)I;
        auto eig = adv.eigenvalues();
        double worst = 0;
        for (int i = 0; i < N; ++i) {
          std::complex<double> z = eig(i)*dt;
          // stage 1: u1 = u + z u; stage 2: u2 = u1 + r z (u1 - u)  i.e. 1 + z + r z^2
          worst = std::max(worst, std::abs(1. + z + b.step_ratio()*z*z));
        }
        m.check(worst < 1 + 1e-6, "stable-step", ctx + fmt(" spectral radius %.8f", worst));
      }
    }
    // half-cell transfer
    if (kind == 0) {
      Mat<dyn, dyn> P[2] {b.prolong(0), b.prolong(1)}, R[2] {b.restrict(0), b.restrict(1)};
      m.close((R[0]*P[0] + R[1]*P[1] - Mat<dyn, dyn>::Identity(rs, rs)).cwiseAbs().maxCoeff(), 1e-12*rs, "restrict-prolong", ctx);
      Poly p = random_poly(rng, deg(rs - 1));
      for (int h = 0; h < 2; ++h) {
        Mat<> y = .5*x + Mat<>::Constant(rs, .5*h);
        m.close((P[h]*at(p, x) - at(p, y)).cwiseAbs().maxCoeff(), 1e-12*rs, "prolong", ctx);
      }
      // orthogonal projection of arbitrary fine data
      Mat<> f[2] {Mat<>(rs), Mat<>(rs)};
      for (auto& v : f) for (int i = 0; i < rs; ++i) v(i) = rng.uniform(-1, 1);
      Mat<> c = R[0]*f[0] + R[1]*f[1];
      m.close(w.dot(c) - .5*(w.dot(f[0]) + w.dot(f[1])), 1e-12*rs, "restrict-conserves", ctx);
      for (int d = 0; d < rs; ++d) {
        Poly q; q.c.assign(d + 1, 0.); q.c[d] = 1;
        double in = 0;
        for (int h = 0; h < 2; ++h) {
          Mat<> y = .5*x + Mat<>::Constant(rs, .5*h);
          Mat<> diff = P[h]*c - f[h];
          in += .5*(w.array()*at(q, y).array()*diff.array()).sum();
        }
        m.close(in, 1e-12*rs, "restrict-orthogonal", ctx);
      }
    }
    derivative<config::max_row_size>(m, rng, b, kind == 0);
    // mode limiter
    {
      int nd = rs > 5 ? rng.range(1, 2) : rng.range(1, 3), nq = math::pow(rs, nd);
      Mat<> v(nq), old;
      for (int i = 0; i < nq; ++i) v(i) = rng.uniform(-1, 1) + (rng.chance(.3) ? 2 : 0);
      double decay = rng.pick(std::vector<double>{0., .1, .5, .9, 1.});
      old = v;
      filter_limit(nd, v.data(), b, decay);
      // explicit modal sums
      auto mode = [&](const Mat<>& u, int k) {
        double s = 0;
        for (int q = 0; q < nq; ++q) {
          double t = u(q);
          int kk = k, qq = q;
          for (int d = 0; d < nd; ++d) {t *= orth(kk%rs, qq%rs)*w(qq%rs); kk /= rs; qq /= rs;}
          s += t;
        }
        return s;
      };
      double norm = 0;
      std::vector<double> mo(nq), mn(nq);
      for (int k = 0; k < nq; ++k) {mo[k] = mode(old, k); mn[k] = mode(v, k); norm += mo[k]*mo[k];}
      norm = std::sqrt(norm);
      for (int k = 0; k < nq; ++k) {
        int tot = 0, kk = k;
        for (int d = 0; d < nd; ++d) {tot += kk%rs; kk /= rs;}
        double thr = norm*std::pow(decay, tot), want = std::abs(mo[k]) > thr ? std::copysign(thr, mo[k]) : mo[k];
        m.close(mn[k] - want, 1e-11*norm*rs, "filter-limit", ctx + fmt(" nd %d decay %g mode %d", nd, decay, k));
      }
    }
    // physical-space basis
    if (rs <= 6) {
      int nd = rs > 4 ? rng.range(1, 2) : rng.range(1, 3), nq = math::pow(rs, nd);
      std::vector<double> pos(nd*nq);
      std::vector<double> shift(nd), scale(nd);
      double skew = rng.uniform(-.4, .4);
      for (int d = 0; d < nd; ++d) {shift[d] = rng.uniform(-3, 3); scale[d] = rng.pick(std::vector<double>{.01, 1., 30.});}
      auto ref = [&](int q, int d) {int k = q; for (int i = nd - 1; i > d; --i) k /= rs; return x(k%rs);};
      for (int q = 0; q < nq; ++q) for (int d = 0; d < nd; ++d) pos[d*nq + q] = shift[d] + scale[d]*(ref(q, d) + (d ? skew*ref(q, 0)*(rng.chance(0) ? 1 : 1) : 0));
      Physical_basis pb(nd, rs, pos);
      Mat<> wq(nq); for (int q = 0; q < nq; ++q) {wq(q) = 1; for (int d = 0; d < nd; ++d) {int k = q; for (int i = nd - 1; i > d; --i) k /= rs; wq(q) *= w(k%rs);}}
      int want = 1; for (int d = 0; d < nd; ++d) want = want*(rs + d)/(d + 1);
      m.check(pb.size() == want, "physical-size", ctx);
      // complete polynomials of total degree < rs are reproduced
      Mat<dyn, dyn> polys(nq, 2);
      std::vector<double> dir(nd); for (auto& d : dir) d = rng.uniform(-1, 1);
      int dg = rng.range(0, rs - 1);
      for (int q = 0; q < nq; ++q) {
        double s = rng.uniform(0, 0); for (int d = 0; d < nd; ++d) s += dir[d]*(pos[d*nq + q] - shift[d])/scale[d];
        polys(q, 0) = math::pow(s, dg); polys(q, 1) = rng.uniform(-1, 1);
      }
      Mat<dyn, dyn> pr = pb.projection(polys, wq);
      m.close((pr.col(0) - polys.col(0)).cwiseAbs().maxCoeff(), 1e-9, "physical-exact", ctx + fmt(" nd %d degree %d", nd, dg));
      Mat<dyn, dyn> again = pb.projection(pr, wq);
      m.close((again - pr).cwiseAbs().maxCoeff(), 1e-9, "physical-idempotent", ctx);
      if (rng.chance(1)) for (int k = 0; k < pb.size(); ++k) {
        double in = 0, mg = 0;
        for (int q = 0; q < nq; ++q) {double t = wq(q)*pb.evaluate(q, k); in += t*(pr(q, 1) - polys(q, 1)); mg += std::abs(t);}
        m.close(in, 1e-9*(mg + 1), "physical-orthogonal", ctx + fmt(" nd %d", nd));
      }
    }
    m.evaluated(rng.next());
    if (i_case < 30) m.sample(ctx);
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  run_basis(m);
  return m.finish();
}
