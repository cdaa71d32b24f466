// monitors of the tensor/matrix helpers (B02): brute-force definitions
#include "mon.hpp"
#include <math.hpp>
#include <array>
#include <Row_rw.hpp>
#include <Row_index.hpp>
#include <Face_permutation.hpp>
#include <connection.hpp>
#include <kernels.hpp>
#include <Sequences.hpp>
#include <erase_if.hpp>
#include <Gauss_legendre.hpp>
#include <config.hpp>
#include <memory>

using namespace hexed;
using mon::Monitor;
using mon::Rng;
using mon::fmt;

static Mat<dyn, dyn> rmat(Rng& rng, int r, int c) {Mat<dyn, dyn> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = rng.uniform(-1, 1); return m;}
static Mat<> rvec(Rng& rng, int n) {return rmat(rng, n, 1);}
static int ipow(int b, int e) {int r = 1; while (e-- > 0) r *= b; return r;}
static std::vector<int> digits(int k, int base, int n) {std::vector<int> d(n); for (int i = n - 1; i >= 0; --i) {d[i] = k%base; k /= base;} return d;}
static int undigits(const std::vector<int>& d, int base) {int k = 0; for (int x : d) k = k*base + x; return k;}

static void tensor(Monitor& m, Rng& rng)
{
  int nd = rng.range(1, 4), nc = rng.range(2, nd > 3 ? 4 : 6), nr = rng.range(1, nd > 3 ? 4 : 6);
  std::string ctx = fmt("nd %d, %dx%d", nd, nr, nc);
  Mat<dyn, dyn> a = rmat(rng, nr, nc);
  Mat<> v = rvec(rng, ipow(nc, nd));
  Mat<> got = math::hypercube_matvec(a, v);
  if (m.check(got.size() == ipow(nr, nd), "hypercube-size", ctx)) {
    double worst = 0;
    for (int i = 0; i < got.size(); ++i) {
      auto di = digits(i, nr, nd);
      double s = 0;
      for (int j = 0; j < v.size(); ++j) {auto dj = digits(j, nc, nd); double t = v(j); for (int d = 0; d < nd; ++d) t *= a(di[d], dj[d]); s += t;}
      worst = std::max(worst, std::abs(s - got(i)));
    }
    m.close(worst, 1e-11, "hypercube-matvec", ctx);
  }
  int dim = rng.below(nd);
  got = math::dimension_matvec(a, v, dim);
  if (m.check(got.size() == v.size()/nc*nr, "dimension-size", ctx)) {
    int outer = ipow(nc, dim), inner = ipow(nc, nd - 1 - dim);
    double worst = 0;
    for (int o = 0; o < outer; ++o) for (int r = 0; r < nr; ++r) for (int i = 0; i < inner; ++i) {
      double s = 0;
      for (int c = 0; c < nc; ++c) s += a(r, c)*v((o*nc + c)*inner + i);
      worst = std::max(worst, std::abs(s - got((o*nr + r)*inner + i)));
    }
    m.close(worst, 1e-12, "dimension-matvec", ctx + fmt(" dim %d", dim));
  }
  int n = rng.range(1, 6), pd = rng.range(0, 4);
  Mat<> w = rvec(rng, n);
  got = math::pow_outer(w, pd);
  if (m.check(got.size() == ipow(n, pd), "pow-outer-size", fmt("n %d nd %d", n, pd))) {
    double worst = 0;
    for (int i = 0; i < got.size(); ++i) {double t = 1; for (int x : digits(i, n, pd)) t *= w(x); worst = std::max(worst, std::abs(t - got(i)));}
    m.close(worst, 1e-13, "pow-outer", fmt("n %d nd %d", n, pd));
  }
}

template <int n> static void ortho(Monitor& m, Rng& rng)
{
  Mat<dyn, dyn> b = rmat(rng, n, n);
  double scale = rng.pick(std::vector<double>{1., 1e-6, 1e6});
  if (std::abs(b.determinant()) < .02) return;
  b *= scale;
  for (int d = 0; d < n; ++d) {
    Mat<dyn, dyn> o = math::orthonormal(b, d);
    m.close((o.transpose()*o - Mat<dyn, dyn>::Identity(n, n)).cwiseAbs().maxCoeff(), 1e-10, "orthonormal-unitary", fmt("n %d dim %d", n, d));
    m.check(o.col(d).dot(b.col(d)) > 0, "orthonormal-side", fmt("n %d dim %d", n, d));
    // the other columns span the same space
    for (int k = 0; k < n; ++k) if (k != d) m.close(o.col(d).dot(b.col(k))/b.col(k).norm(), 1e-10, "orthonormal-span", fmt("n %d dim %d", n, d));
    // and are as close as possible to the normalised originals: the correlation matrix is symmetric
    if (n == 3) {
      int i = (d + 1)%3, j = (d + 2)%3;
      m.close((o.col(i).dot(b.col(j))/b.col(j).norm() - o.col(j).dot(b.col(i))/b.col(i).norm()), 1e-9, "orthonormal-closest", fmt("n %d dim %d", n, d));
      m.check(o.col(i).dot(b.col(i)) > 0 && o.col(j).dot(b.col(j)) > 0, "orthonormal-orientation");
    } else if (n == 2) m.close(o.col(1 - d).dot(b.col(1 - d))/b.col(1 - d).norm() - 1, 1e-10, "orthonormal-closest");
  }
}

template <int n> static void interp(Monitor& m, Rng& rng)
{
  Mat<math::pow(2, n)> v = rvec(rng, math::pow(2, n));
  Mat<n> c;
  for (int i = 0; i < n; ++i) c(i) = rng.chance(.2) ? rng.below(2) : rng.uniform(-.5, 1.5);
  double s = 0;
  for (int i = 0; i < v.size(); ++i) {auto d = digits(i, 2, n); double t = v(i); for (int k = 0; k < n; ++k) t *= d[k] ? c(k) : 1 - c(k); s += t;}
  m.close(s - math::interp<n>(v, c), 1e-12, "n-linear-interpolation", fmt("n %d", n));
}

template <int n> static void geometry(Monitor& m, Rng& rng)
{
  double sc = rng.pick(std::vector<double>{1., 1e-4, 1e3});
  Mat<n> off = rvec(rng, n)*rng.pick(std::vector<double>{0., 1.})*sc;
  std::array<Mat<n>, 2> e {Mat<n>(rvec(rng, n)*sc + off), Mat<n>(rvec(rng, n)*sc + off)};
  if (rng.chance(.1)) e[1] = e[0];
  Mat<n> t = rvec(rng, n)*sc*2 + off;
  Mat<n> p = math::proj_to_segment(e, t);
  // on the segment
  double len = (e[1] - e[0]).norm();
  m.close((p - e[0]).norm() + (p - e[1]).norm() - len, 1e-7*sc, "projection-on-segment");
  double best = 1e300;
  for (int i = 0; i <= 60; ++i) best = std::min(best, (e[0] + (e[1] - e[0])*(i/60.) - t).norm());
  m.check((p - t).norm() <= best + 1e-12*sc, "projection-nearest", fmt("n %d", n));
  // bounding balls
  Mat<n, n> pts;
  for (int i = 0; i < n; ++i) pts.col(i) = rvec(rng, n)*sc + off;
  auto b = math::bounding_ball<n, n>(pts);
  for (int k = 0; k < 6; ++k) {
    Mat<n> bary; for (int i = 0; i < n; ++i) bary(i) = k < n ? (i == k) : rng.uniform(0, 1);
    bary /= bary.sum();
    m.check((pts*bary - b.center).squaredNorm() <= b.radius_sq*(1 + 1e-9) + 1e-20*sc*sc, "bounding-ball", fmt("n %d", n));
  }
  Mat<n> l0 = rvec(rng, n)*sc*3 + off, l1 = l0 + rvec(rng, n)*sc*rng.pick(std::vector<double>{1e-5, 1., 100.});
  Mat<n> dir = (l1 - l0).normalized(), rel = b.center - l0;
  double dist = (rel - rel.dot(dir)*dir).norm(), r = std::sqrt(b.radius_sq);
  if (std::abs(dist - r) > 1e-6*sc) m.check(math::intersects<n>(b, l0, l1) == (dist < r), "ball-line", fmt("n %d dist %g radius %g", n, dist, r));
}

static void roots(Monitor& m, Rng& rng)
{
  double root = rng.uniform(-5, 5), k = rng.uniform(.1, 3), sg = rng.chance(.5) ? 1 : -1, sc = rng.pick(std::vector<double>{1e-8, 1., 1e8}), width = rng.uniform(.2, 4);
  int kind = rng.below(3);
  int calls = 0;
  auto f = [&](double x) {++calls; double y = x - root; return sg*sc*(kind == 0 ? k*y : kind == 1 ? k*y + .1*y*y*y : std::atan(y*k));};
  double atol = rng.pick(std::vector<double>{1e-10, 1e-5});
  double a = root - width*rng.uniform(.01, 1), b = root + width*rng.uniform(.01, 1);
  if (rng.chance(.1)) a = root;
  if (rng.chance(.1)) b = root;
  double x = math::bisection(f, {a, b}, atol);
  m.close(x - root, 2*atol, "bisection", fmt("kind %d", kind));
  bool threw = false;
  try {math::bisection(f, {root + .1, root + 2}, atol);} catch (const std::exception&) {threw = true;}
  m.check(threw, "bisection-unbracketed");
  double start = root + (kind == 2 ? .3/k : 1.)*rng.uniform(-1, 1);
  x = math::broyden(f, start, 1e-10, 1e-3);
  m.close(x - root, 1e-8, "broyden", fmt("kind %d start %g", kind, start - root));
}

static void integers(Monitor& m, Rng& rng)
{
  int b = rng.range(-3, 9), e = rng.range(0, 6);
  long want = 1; for (int i = 0; i < e; ++i) want *= b;
  m.check(math::pow(b, e) == want, "pow", fmt("%d^%d", b, e));
  double x = rng.uniform(.1, 9);
  int ne = rng.range(-8, 8);
  m.close(math::pow(x, ne)/std::pow(x, ne) - 1, 1e-13, "pow-real");
  int arg = rng.chance(.5) ? ipow(rng.range(2, 6), rng.range(0, 6)) + rng.range(-1, 1) : rng.range(-3, 100000), base = rng.range(-1, 12);
  int lg = math::log(base, arg);
  if (base < 2) m.check(lg == -1, "log-bad-base");
  else if (arg < 1) m.check(lg == 0, "log-bad-arg");
  else {long hi = 1; for (int i = 0; i < lg; ++i) hi *= base; m.check(hi >= arg && (lg == 0 || hi/base < arg), "log", fmt("log_%d(%d) = %d", base, arg, lg));}
  int nd = rng.range(1, 3), face = rng.below(2*nd);
  auto d0 = math::direction(nd, face), d1 = math::direction(nd, face/2, face%2);
  bool ok = d0.size() == nd && d0 == d1;
  for (int i = 0; ok && i < nd; ++i) ok = d0(i) == (i == face/2 ? (face%2 ? 1 : -1) : 0);
  m.check(ok, "direction", fmt("nd %d face %d", nd, face));
  int steps = rng.range(1, 20);
  for (int i = 0; i < steps; ++i) {
    double s = math::chebyshev_step(steps, i);
    m.check(s > .49 && std::isfinite(s), "chebyshev-positive");
  }
  // the product of all stages is a shifted Chebyshev polynomial: |prod(1 - x s_i/1)| <= 1 for x in [0, 2]
  for (int k = 0; k < 8; ++k) {
    double z = rng.uniform(0, 2), pr = 1;
    for (int i = 0; i < steps; ++i) pr *= 1 - z*math::chebyshev_step(steps, i);
    double t = 1 - z, num = std::cos(steps*std::acos(std::max(-1., std::min(1., t)))), den = std::cos(steps*std::acos(1.));
    m.close(std::abs(pr) - std::abs(num/den), 1e-6, "chebyshev-product", fmt("%d steps z %g", steps, z));
  }
  // sequences and erasing
  std::vector<int> v0, v1; int n0 = rng.below(6), n1 = rng.below(6);
  for (int i = 0; i < n0; ++i) v0.push_back(rng.below(50));
  for (int i = 0; i < n1; ++i) v1.push_back(rng.below(50));
  Vector_view<int&, int> w0(v0), w1(v1);
  Concatenation<int&> cat(w0, w1);
  m.check(cat.size() == n0 + n1, "concatenation-size");
  for (int i = 0; i < n0 + n1; ++i) m.check(&cat[i] == (i < n0 ? &v0[i] : &v1[i - n0]), "concatenation");
  if (n0 + n1) {
    std::vector<int> inds; for (int i = 0; i < 5; ++i) inds.push_back(rng.below(n0 + n1));
    Index<int&> ix(cat, inds);
    m.check(ix.size() == 5, "index-size");
    for (int i = 0; i < 5; ++i) m.check(&ix[i] == &cat[inds[i]], "index");
  }
  auto odd = [](int k) {return k%3 == 0;};
  std::vector<int> keep; for (int k : v0) if (!odd(k)) keep.push_back(k);
  erase_if(v0, odd);
  m.check(v0 == keep, "erase-if");
}

template <int nv, int rs> static void rows(Monitor& m, Rng& rng)
{
  for (int nd = 1; nd <= 3; ++nd) for (int dim = 0; dim < nd; ++dim) {
    int nq = ipow(rs, nd), nf = nq/rs;
    std::vector<double> data(nv*nq), orig;
    for (auto& x : data) x = rng.uniform(-1, 1);
    orig = data;
    std::vector<std::vector<double>> face(6, std::vector<double>(nv*nf));
    std::array<double*, 6> fp;
    for (int f = 0; f < 6; ++f) {fp[f] = face[f].data(); for (auto& x : face[f]) x = rng.uniform(-1, 1);}
    auto face0 = face;
    std::vector<int> hit(nq, 0);
    int count = 0;
    double coef = rng.pick(std::vector<double>{0., 1., -.5});
    bool ok = true, okb = true, oki = true;
    std::vector<double> want = data;
    for (Row_index ind(nd, rs, dim); ind; ++ind, ++count) {
      // the other coordinates of the row number, in order
      auto od = digits(count, rs, nd - 1);
      auto r = Row_rw<nv, rs>::read_row(data.data(), ind);
      Mat<rs, nv> w;
      for (int i = 0; i < rs; ++i) {
        auto d = od; d.insert(d.begin() + dim, i);
        int q = undigits(d, rs);
        ++hit[q];
        oki = oki && ind.i_qpoint(i) == q && ind.i_node(q) == i;
        for (int v = 0; v < nv; ++v) {ok = ok && r(i, v) == orig[v*nq + q]; w(i, v) = rng.uniform(-1, 1); want[v*nq + q] = coef*orig[v*nq + q] + w(i, v);}
      }
      oki = oki && ind.i_face_qpoint() == count;
      Row_rw<nv, rs>::write_row(w, data.data(), ind, coef);
      auto b = Row_rw<nv, rs>::read_bound(fp, ind);
      for (int v = 0; v < nv; ++v) for (int s = 0; s < 2; ++s) okb = okb && b(s, v) == face[2*dim + s][v*nf + count];
      Mat<2, nv> nb; for (int v = 0; v < nv; ++v) for (int s = 0; s < 2; ++s) face0[2*dim + s][v*nf + count] = nb(s, v) = rng.uniform(-1, 1);
      Row_rw<nv, rs>::write_bound(nb, fp, ind);
    }
    std::string ctx = fmt("nd %d dim %d row size %d", nd, dim, rs);
    m.check(count == nf && std::all_of(hit.begin(), hit.end(), [](int h) {return h == 1;}), "rows-cover", ctx);
    m.check(ok, "read-row", ctx); m.check(okb, "read-bound", ctx); m.check(oki, "row-index", ctx);
    double err = 0; for (size_t i = 0; i < data.size(); ++i) err = std::max(err, std::abs(data[i] - want[i]));
    m.close(err, 1e-15, "write-row", ctx);
    m.check(face == face0, "write-bound", ctx);
  }
}

//! face permutations against the geometry that the vertex pairing of the same connection implies
static void permutation(Monitor& m, Rng& rng)
{
  int nd = rng.range(2, 3), rs = rng.range(2, config::max_row_size);
  int nv = nd + 2, nf = ipow(rs, nd - 1), nvf = ipow(2, nd - 1);
  Gauss_legendre basis(rs);
  for (int d0 = 0; d0 < nd; ++d0) for (int d1 = 0; d1 < nd; ++d1) for (int s = 0; s < 4; ++s) {
    if (d0 == d1 && s/2 == s%2) continue; // a face can only meet the opposite kind of face of the same dimension
    Con_dir<Deformed_element> dir {{d0, d1}, {bool(s/2), bool(s%2)}};
    std::string ctx = fmt("nd %d rs %d dims %d %d signs %d %d", nd, rs, d0, d1, s/2, s%2);
    auto inds = vertex_inds(nd, dir);
    // the vertices of each face, in face order
    bool on = true;
    for (int side = 0; side < 2; ++side) for (int i : inds[side]) on = on && ((i>>(nd - 1 - dir.i_dim[side]))&1) == dir.face_sign[side];
    m.check(on && int(inds[0].size()) == nvf, "vertices-on-face", ctx);
    // random positions for face 0's corners; face 1's corners are the same points
    std::vector<double> val(nvf); for (auto& v : val) v = rng.uniform(-1, 1);
    auto face_vals = [&](int side, std::vector<double>& out) {
      // value at each qpoint of this side's face by multilinear interpolation of its own corners
      for (int q = 0; q < nf; ++q) {
        auto dq = digits(q, rs, nd - 1);
        double x = 0;
        for (int k = 0; k < nvf; ++k) {
          auto bits = digits(inds[side][k], 2, nd);
          bits.erase(bits.begin() + dir.i_dim[side]);
          double t = val[k];
          for (int a = 0; a < nd - 1; ++a) t *= bits[a] ? basis.node(dq[a]) : 1 - basis.node(dq[a]);
          x += t;
        }
        out[q] = x;
      }
    };
    std::vector<double> f0(nf), f1(nf), data(nv*nf), orig;
    face_vals(0, f0); face_vals(1, f1);
    std::vector<double> mult(nv); for (auto& x : mult) x = rng.uniform(-2, 2);
    for (int v = 0; v < nv; ++v) for (int q = 0; q < nf; ++q) data[v*nf + q] = f1[q]*mult[v] + v;
    orig = data;
    auto fp = face_permutation(nd, rs, dir, data.data());
    fp->match_faces();
    double err = 0;
    for (int v = 0; v < nv; ++v) for (int q = 0; q < nf; ++q) err = std::max(err, std::abs(data[v*nf + q] - f0[q]*mult[v] - v));
    m.close(err, 1e-12, "permutation-matches", ctx);
    fp->restore();
    m.check(data == orig, "permutation-inverse", ctx);
    m.count("permutations");
  }
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  m.run([&](Rng& rng, int i) {
    int k = i%8;
    std::string name = std::vector<std::string>{"tensor", "orthonormal", "interp", "geometry", "roots", "integers", "rows", "permutation"}[k];
    m.phase(name); m.count("case-" + name);
    switch (k) {
      case 0: tensor(m, rng); break;
      case 1: for (int r = 0; r < 20; ++r) {ortho<1>(m, rng); ortho<2>(m, rng); ortho<3>(m, rng);} break;
      case 2: for (int r = 0; r < 20; ++r) {interp<1>(m, rng); interp<2>(m, rng); interp<3>(m, rng);} break;
      case 3: for (int r = 0; r < 20; ++r) {geometry<2>(m, rng); geometry<3>(m, rng);} break;
      case 4: for (int r = 0; r < 20; ++r) roots(m, rng); break;
      case 5: for (int r = 0; r < 20; ++r) integers(m, rng); break;
      case 6: rows<1, 2>(m, rng); rows<3, 3>(m, rng); rows<5, 4>(m, rng); rows<2, 6>(m, rng); break;
      case 7: permutation(m, rng); break;
    }
    m.evaluated(mon::mix(rng.next(), k));
  });
  return m.finish();
}
