// Monitors for surfaces: nearest points (G01) and line crossings (G02) against brute force in extended precision.
#include "mon.hpp"
#include <Simplex_geom.hpp>
#include <Surface_geom.hpp>
using namespace hexed;
using mon::Rng;
typedef long double ld;
typedef Eigen::Matrix<ld, dyn, 1> V;
typedef Eigen::Matrix<ld, dyn, dyn> M;

struct Shape_ref
{ // independent model of one surface
  int nd = 0;
  bool ball = false;
  V c; ld r = 0;
  std::vector<M> facets; // columns are vertices
  ld extent = 0; // largest coordinate
  ld longest = 0, thinnest = 1; // edge length, smallest sine of a corner angle among the non-degenerate facets
};

static ld seg(const V& p, const V& a, const V& b)
{
  V d = b - a; ld l = d.squaredNorm();
  ld t = l > 0 ? std::min<ld>(1, std::max<ld>(0, (p - a).dot(d)/l)) : 0;
  return (a + t*d - p).norm();
}
static V cross(const V& a, const V& b) {V c(3); c << a(1)*b(2) - a(2)*b(1), a(2)*b(0) - a(0)*b(2), a(0)*b(1) - a(1)*b(0); return c;}
static ld facet_dist(const V& p, const M& f)
{
  if (f.rows() == 2) return seg(p, f.col(0), f.col(1));
  ld best = std::min({seg(p, f.col(0), f.col(1)), seg(p, f.col(1), f.col(2)), seg(p, f.col(2), f.col(0))});
  V e0 = f.col(1) - f.col(0), e1 = f.col(2) - f.col(0), n = cross(e0, e1);
  ld a = n.norm();
  if (a > 1e-16L*e0.norm()*e1.norm()) {
    V q = p - f.col(0); ld h = q.dot(n)/a; V g = q - h/a*n;
    ld u = cross(g, e1).dot(n)/a/a, v = cross(e0, g).dot(n)/a/a;
    if (u >= 0 && v >= 0 && u + v <= 1) best = std::min(best, std::abs(h));
  }
  return best;
}
static ld surf_dist(const Shape_ref& s, const V& p)
{
  if (s.ball) return std::abs((p - s.c).norm() - s.r);
  ld d = 1e4000L;
  for (auto& f : s.facets) d = std::min(d, facet_dist(p, f));
  return d;
}

static V rand_dir(Rng& rng, int n) {V v(n); ld s; do {for (int i = 0; i < n; ++i) v(i) = rng.normal(); s = v.norm();} while (s < 1e-3L); return v/s;}

static Shape_ref random_shape(Rng& rng, int nd, bool allow_degenerate, std::string& desc)
{
  Shape_ref s; s.nd = nd;
  double scale = std::pow(10., rng.uniform(-3, 3));
  double off = rng.chance(.5) ? 0 : scale*std::pow(10., rng.uniform(-1, 2));
  V o = off*rand_dir(rng, nd);
  if (nd == 1 || rng.chance(.15)) {
    s.ball = true; s.c = o; s.r = scale*rng.uniform(.1, 2);
    s.extent = o.norm() + s.r; s.longest = s.r;
    desc = mon::fmt("%dD sphere radius %g at offset %g", nd, double(s.r), off);
  } else {
    int kind = rng.below(5);
    int n = std::vector<int>{1, 2, 7, 40, 150, 400, 900}[rng.below(7)];
    if (kind == 0) { // soup of facets of every size
      for (int i = 0; i < n; ++i) {
        double sz = scale*std::pow(10., rng.uniform(-4, 0));
        M f(nd, nd); V x = o + scale*rng.uniform(0, 1)*rand_dir(rng, nd);
        for (int k = 0; k < nd; ++k) f.col(k) = x + sz*rng.uniform(.1, 1)*rand_dir(rng, nd);
        s.facets.push_back(f);
      }
    } else if (kind == 1) { // smooth closed curve or parametric sphere
      if (nd == 2) {
        double a = rng.uniform(0, 7), b = rng.uniform(.2, 1);
        auto at = [&](int i){V p(2); double t = a + 2*M_PI*(i%n)/n; p << std::cos(t), b*std::sin(t); return V(o + scale*p);};
        for (int i = 0; i < n; ++i) {M f(2, 2); f.col(0) = at(i); f.col(1) = at(i + 1); s.facets.push_back(f);}
      } else {
        int m = std::max(2, int(std::sqrt(n/4.)));
        auto at = [&](int i, int j){V p(3); double th = M_PI*i/m, ph = 2*M_PI*(j%(2*m))/(2*m); p << std::sin(th)*std::cos(ph), std::sin(th)*std::sin(ph), std::cos(th); return V(o + scale*p);};
        for (int i = 0; i < m; ++i) for (int j = 0; j < 2*m; ++j) {
          M f(3, 3); f.col(0) = at(i, j); f.col(1) = at(i + 1, j); f.col(2) = at(i + 1, j + 1);
          if (i < m - 1) s.facets.push_back(f);
          f.col(1) = at(i + 1, j + 1); f.col(2) = at(i, j + 1);
          if (i > 0) s.facets.push_back(f);
        }
      }
    } else if (kind == 2) { // facets on a lattice: exact ties, coplanar and axis-aligned facets
      for (int i = 0; i < n; ++i) {
        M f(nd, nd); V x(nd); for (int k = 0; k < nd; ++k) x(k) = rng.below(6);
        for (int k = 0; k < nd; ++k) {f.col(k) = x; f(rng.below(nd), k) += rng.range(k ? 1 : 0, 2);}
        s.facets.push_back(M((scale*f).colwise() + o));
      }
    } else if (kind == 3) { // straight wall cut into pieces (2D), flat plate (3D)
      V d0 = rng.chance(.5) ? V(V::Unit(nd, 0)) : rand_dir(rng, nd);
      V d1 = rand_dir(rng, nd); d1 -= d1.dot(d0)*d0; if (d1.norm() < 1e-3) d1 = V::Unit(nd, 1) - d0(1)*d0; d1.normalize();
      if (rng.chance(.5)) {d0 = V::Unit(nd, 0); d1 = V::Unit(nd, 1);}
      int m = nd == 2 ? n : std::max(1, int(std::sqrt(n/2.)));
      double stretch = std::pow(10., rng.uniform(-2, 0));
      auto at = [&](int i, int j){return V(o + scale*(d0*ld(i)/m + stretch*d1*ld(j)/m));};
      if (nd == 2) for (int i = 0; i < m; ++i) {M f(2, 2); f.col(0) = at(i, 0); f.col(1) = at(i + 1, 0); s.facets.push_back(f);}
      else for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) {
        M f(3, 3); f.col(0) = at(i, j); f.col(1) = at(i + 1, j); f.col(2) = at(i + 1, j + 1); s.facets.push_back(f);
        f.col(1) = at(i + 1, j + 1); f.col(2) = at(i, j + 1); s.facets.push_back(f);
      }
    } else { // clusters of tiny facets
      int nc = rng.range(1, 3);
      for (int c = 0; c < nc; ++c) {
        V x = o + scale*rand_dir(rng, nd); double sz = scale*std::pow(10., rng.uniform(-6, -2));
        for (int i = 0; i < n/nc + 1; ++i) {
          M f(nd, nd); V y = x + sz*rand_dir(rng, nd);
          for (int k = 0; k < nd; ++k) f.col(k) = y + sz*rng.uniform(.1, 1)*rand_dir(rng, nd);
          s.facets.push_back(f);
        }
      }
    }
    int n_deg = 0;
    if (allow_degenerate && rng.chance(.35)) { // slivers, collinear and zero-size facets, repeated facets
      int k = rng.chance(.2) ? 130 : rng.range(1, 5);
      auto base = s.facets[rng.below(s.facets.size())];
      bool same = rng.chance(.5); int which = rng.chance(.5) ? rng.below(nd == 3 ? 5 : 3) : -1;
      for (int i = 0; i < k; ++i) {
        M f = same ? base : s.facets[rng.below(s.facets.size())];
        switch (which >= 0 ? which : rng.below(nd == 3 ? 5 : 3)) {
          case 0: for (int j = 1; j < nd; ++j) f.col(j) = f.col(0); break;
          case 1: break; // repeated
          case 2: for (int j = 1; j < nd; ++j) f.col(j) = f.col(0) + 1e-9L*(f.col(j) - f.col(0)); break;
          case 3: f.col(2) = f.col(0) + ld(rng.uniform(-.5, 1.5))*(f.col(1) - f.col(0)); break; // collinear up to rounding
          case 4: f.col(2) = f.col(0) + ld(rng.uniform(0, 1))*(f.col(1) - f.col(0)) + 1e-6L*(f.col(2) - f.col(0)); break; // sliver
        }
        s.facets.push_back(f); ++n_deg;
      }
      for (size_t i = s.facets.size(); i > 1; --i) std::swap(s.facets[i - 1], s.facets[rng.below(i)]);
    }
    // the library works with doubles
    for (auto& f : s.facets) for (int i = 0; i < f.size(); ++i) f(i) = double(f(i));
    for (auto& f : s.facets) {
      s.extent = std::max(s.extent, f.cwiseAbs().maxCoeff());
      for (int k = 0; k < nd; ++k) s.longest = std::max(s.longest, (f.col((k + 1)%nd) - f.col(k)).norm());
    }
    desc = mon::fmt("%dD facets kind %d n %zu degenerate %d scale %g offset %g", nd, kind, s.facets.size(), n_deg, scale, off);
  }
  for (int i = 0; i < s.c.size(); ++i) s.c(i) = double(s.c(i));
  s.r = double(s.r);
  return s;
}

static Surface_geom* make(const Shape_ref& s)
{
  if (s.ball) return new Hypersphere(s.c.cast<double>(), double(s.r));
  if (s.nd == 2) {std::vector<Mat<2, 2>> f; for (auto& x : s.facets) f.push_back(x.cast<double>()); return new Simplex_geom<2>(f);}
  std::vector<Mat<3, 3>> f; for (auto& x : s.facets) f.push_back(x.cast<double>()); return new Simplex_geom<3>(f);
}

static V random_point(Rng& rng, const std::vector<Shape_ref>& ss)
{
  auto& s = ss[rng.below(ss.size())];
  V p;
  if (s.ball) {
    switch (rng.below(4)) {
      case 0: p = s.c; break;
      case 1: p = s.c + s.r*rand_dir(rng, s.nd); break;
      case 2: p = s.c + s.r*ld(std::pow(10., rng.uniform(-8, 2)))*rand_dir(rng, s.nd); break;
      default: p = s.c + s.r*ld(rng.uniform(.5, 2))*rand_dir(rng, s.nd);
    }
  } else {
    auto& f = s.facets[rng.below(s.facets.size())];
    V w(s.nd); ld sum = 0; for (int i = 0; i < s.nd; ++i) sum += w(i) = rng.uniform(0, 1); w /= sum;
    ld sz = 0; for (int i = 0; i < s.nd; ++i) sz = std::max(sz, (f.col(i) - f.col(0)).norm());
    switch (rng.below(7)) {
      case 0: p = f.col(rng.below(s.nd)); break;
      case 1: p = f*w; break;
      case 2: p = f*w + sz*ld(std::pow(10., rng.uniform(-6, 1)))*rand_dir(rng, s.nd); break;
      case 3: p = f.col(0) + s.longest*rand_dir(rng, s.nd); break;
      case 4: p = f.col(0) + ld(std::pow(10., rng.uniform(0, 2)))*(s.longest + s.extent)*rand_dir(rng, s.nd); break;
      case 5: p = (f.col(0) + f.col(s.nd - 1))/2; break;
      default: {auto& g = s.facets[rng.below(s.facets.size())]; p = (f.col(0) + g.col(0))/2 + ld(rng.uniform(0, .3))*(f.col(0) - g.col(0)).norm()*rand_dir(rng, s.nd);}
    }
  }
  for (int i = 0; i < p.size(); ++i) p(i) = double(p(i));
  return p;
}

static void near_case(mon::Monitor& m, Rng& rng)
{
  int nd = rng.range(1, 3);
  int nc = rng.chance(.3) ? rng.range(1, 3) : 0; // 0: single surface
  std::vector<Shape_ref> ss; std::string desc; uint64_t h = nd;
  std::vector<Surface_geom*> parts;
  for (int i = 0; i < std::max(nc, 1); ++i) {
    std::string d; ss.push_back(random_shape(rng, nd, true, d)); desc += (i ? " + " : "") + d;
  }
  m.phase(desc);
  for (auto& s : ss) parts.push_back(make(s));
  std::unique_ptr<Surface_geom> g(nc ? new Compound_geom(parts) : parts[0]);
  m.count(nc ? "compound" : ss[0].ball ? "sphere" : ss[0].facets.size() > 100 ? "many-facets" : "few-facets");
  for (int iq = 0; iq < 12; ++iq) {
    V p = random_point(rng, ss);
    ld d = 1e4000L, tol = 0, ext = 0;
    for (auto& s : ss) {d = std::min(d, surf_dist(s, p)); ext = std::max(ext, s.extent);}
    tol = 1e-12L*(ext + p.norm() + d);
    for (auto& s : ss) tol = std::max(tol, 1e-12L*s.longest);
    Mat<> pd = p.cast<double>();
    auto judge = [&](Nearest_point<dyn>& np, const char* how, double arg0, double arg1) {
      if (!m.checkf(!np.empty(), std::string("found-") + how, [&]{return mon::fmt("no nearest point although the surface is at distance %.17g (max_distance %.17g guess %.17g) %s", double(d), arg0, arg1, desc.c_str());})) return;
      V q = np.point().template cast<ld>();
      bool fin = np.point().allFinite();
      ld dq = (q - p).norm(), on = 1e4000L;
      for (auto& s : ss) on = std::min(on, surf_dist(s, q));
      m.checkf(fin && on <= tol*10, std::string("on-surface-") + how, [&]{return mon::fmt("returned point is %.6g off the surface (tolerance %.3g, distance %.6g, max_distance %g guess %g) %s", double(on), double(tol*10), double(d), arg0, arg1, desc.c_str());});
      m.checkf(fin && dq <= d + tol*10 , std::string("nearest-") + how, [&]{return mon::fmt("returned point at distance %.17g, nearest is %.17g (tolerance %.3g, max_distance %g guess %g) %s", double(dq), double(d), double(tol*10), arg0, arg1, desc.c_str());});
      m.checkf(std::abs(std::sqrt(np.dist_squared()) - (q - np.reference().template cast<ld>()).norm()) <= tol && np.reference() == pd, "consistent", [&]{return mon::fmt("dist_squared %.17g for a point at distance %.17g %s", np.dist_squared(), double(dq), desc.c_str());});
    };
    {
      auto np = g->nearest_point(pd);
      judge(np, "default", huge, huge);
    }
    for (int k = 0; k < 3; ++k) {
      double guess = (double(d) + double(ss[0].longest)*1e-3)*std::pow(10., rng.uniform(-4, 3));
      double mx = rng.chance(.3) ? huge : (double(d) + double(tol))*std::pow(10., rng.chance(.5) ? rng.uniform(-.01, .01) : rng.uniform(-2, 2));
      if (!(guess > 0)) continue;
      auto np = g->nearest_point(pd, mx, guess);
      if (d + 20*tol < mx) {judge(np, "limited", mx, guess); m.count("within-limit");}
      else if (d - 20*tol > mx) {
        m.checkf(np.empty(), "beyond-limit", [&]{return mon::fmt("a point at distance %.17g was returned for max_distance %.17g (guess %g), surface at %.17g %s", double((np.point().template cast<ld>() - p).norm()), mx, guess, double(d), desc.c_str());});
      }
    }
    h = mon::mix(h, iq*7919 + uint64_t(double(d)*1e6));
  }
  m.evaluated(h, true);
}

static void cross_case(mon::Monitor& m, Rng& rng)
{
  int nd = rng.chance(.1) ? 1 : rng.range(2, 3);
  int nc = rng.chance(.25) ? rng.range(1, 3) : 0;
  std::vector<Shape_ref> ss; std::string desc; uint64_t h = nd;
  std::vector<Surface_geom*> parts;
  for (int i = 0; i < std::max(nc, 1); ++i) {
    std::string d; ss.push_back(random_shape(rng, nd, rng.chance(.5), d)); desc += (i ? " + " : "") + d;
  }
  m.phase(desc);
  for (auto& s : ss) parts.push_back(make(s));
  std::unique_ptr<Surface_geom> g(nc ? new Compound_geom(parts) : parts[0]);
  m.count(nc ? "compound" : ss[0].ball ? "sphere" : ss[0].facets.size() > 100 ? "many-facets" : "few-facets");
  for (int iq = 0; iq < 16; ++iq) {
    // a line through (or near) some point of the surface, given by a segment of very different length
    V p = random_point(rng, ss);
    V dir = rng.chance(.3) ? V(V::Unit(nd, rng.below(nd))) : rand_dir(rng, nd);
    auto& s0 = ss[rng.below(ss.size())];
    if (!s0.ball && rng.chance(.35)) { // perpendicular to a facet, through a vertex, an edge or the inside
      auto& f = s0.facets[rng.below(s0.facets.size())];
      V n(nd); if (nd == 2) {n << -(f(1, 1) - f(1, 0)), f(0, 1) - f(0, 0);} else n = cross(f.col(1) - f.col(0), f.col(2) - f.col(0));
      if (n.norm() > 0) {dir = n/n.norm(); p = rng.chance(.6) ? V(f.col(rng.below(nd))) : V((f.col(0) + f.col(nd - 1))/2); m.count("perpendicular");}
    }
    ld local = s0.ball ? s0.r : s0.longest;
    ld len = local*ld(std::pow(10., rng.uniform(-4, 4)));
    V a = p - len*ld(rng.uniform(-.5, 1.5))*dir, b = a + len*dir;
    for (int i = 0; i < nd; ++i) {a(i) = double(a(i)); b(i) = double(b(i));}
    V df = b - a; len = df.norm();
    ld ext = std::max(a.norm(), b.norm()); for (auto& s : ss) ext = std::max(ext, s.extent);
    if (!(len > 1e-9L*ext)) continue; // direction not representable
    dir = df/len;
    struct Hit {ld t; ld tol; bool sure;};
    std::vector<Hit> hits; bool skip = false;
    int sure = 0;
    for (auto& s : ss) {
      if (s.ball) {
        V st = a - s.c; ld tm = -st.dot(dir); ld h2 = (st + tm*dir).squaredNorm();
        ld reach = std::max(st.norm(), ld(1e-300)); ld far = std::max(reach, len);
        if (far > 1e4L*s.r) {skip = true; break;}
        ld disc = s.r*s.r - h2, err = 64*2.3e-16L*(far*far + ext*s.r);
        if (std::abs(disc) < 10*err) {skip = true; break;} // tangent: either answer
        if (disc > 0) {ld rt = std::sqrt(disc), e = err/rt + 1e-13L*ext; for (int sg : {-1, 1}) {hits.push_back({(tm + sg*rt)/len, 10*e/len, true}); ++sure;}}
        continue;
      }
      for (auto& f : s.facets) {
        V n(nd); ld sz = 0; for (int k = 0; k < nd; ++k) sz = std::max(sz, (f.col(k) - f.col((k + 1)%nd)).norm());
        if (nd == 2) {n << -(f(1, 1) - f(1, 0)), f(0, 1) - f(0, 0);} else n = cross(f.col(1) - f.col(0), f.col(2) - f.col(0));
        ld area = n.norm();
        ld thin = nd == 2 ? (sz > 0 ? 1 : 0) : (sz > 0 ? area/sz/sz : 0); // height over length
        bool degenerate = !(thin > 1e-3L) || sz < 1e-7L*ext;
        ld sine = area > 0 ? std::abs(n.dot(dir))/area : 0;
        if (degenerate || sine*thin < 1e-4L) {
          // ambiguous: may or may not be reported; position anywhere the line comes close to the facet
          V cen = f.rowwise().mean(); ld tc = (cen - a).dot(dir);
          ld off = (a + tc*dir - cen).norm();
          if (off < 2*sz + 1e-9L*ext) hits.push_back({tc/len, (2*sz + 1e-9L*ext)/len, false});
          continue;
        }
        ld td = (f.col(0) - a).dot(n)/dir.dot(n); // distance along the line
        V x = a + td*dir;
        ld margin; // barycentric
        if (nd == 2) {ld u = (x - f.col(0)).dot(f.col(1) - f.col(0))/area/area; margin = std::min(u, 1 - u);}
        else {
          V q = x - f.col(0), e0 = f.col(1) - f.col(0), e1 = f.col(2) - f.col(0);
          ld u = cross(q, e1).dot(n)/area/area, v = cross(e0, q).dot(n)/area/area;
          margin = std::min({u, v, 1 - u - v});
        }
        ld noise = 1e-14L*ext/sz/thin/sine/sine; // effect of rounding the input on the barycentric coordinates
        ld tol = (1e-12L*ext/sine/sine + 1e-10L*sz)/len;
        if (margin > -1e-8L && noise < 1e-8L) {hits.push_back({td/len, tol, true}); ++sure;}
        else if (margin > -1e-5L - noise) hits.push_back({td/len, tol + 1e-5L*sz/len, false});
      }
    }
    if (skip) {m.count("tangent-skipped"); continue;}
    auto got = g->intersections(a.cast<double>(), b.cast<double>());
    std::sort(got.begin(), got.end());
    std::vector<bool> used(got.size(), false);
    // certain crossings first, tightest tolerance first
    std::sort(hits.begin(), hits.end(), [](const Hit& x, const Hit& y){return x.sure != y.sure ? x.sure : x.t < y.t;});
    auto take = [&](const Hit& hit) {
      for (size_t i = 0; i < got.size(); ++i) if (!used[i] && std::abs(got[i] - hit.t) <= hit.tol + 1e-14L*std::abs(hit.t)) {used[i] = true; return true;}
      return false;
    };
    std::string where = mon::fmt("segment of length %g (%g of the largest facet), %s", double(len), double(len/local), desc.c_str());
    for (auto& hit : hits) if (hit.sure) {
      ld tt = hit.t;
      m.checkf(take(hit), "crossing-found", [&]{return mon::fmt("the crossing at %.17g (tolerance %g) was not reported among %zu: %s", double(tt), double(hit.tol), got.size(), where.c_str());});
    }
    // the rest must be explained by uncertain crossings; a reported value may be shared by several ambiguous facets
    for (size_t i = 0; i < got.size(); ++i) if (!used[i]) {
      bool ok = false;
      for (auto& hit : hits) if (!hit.sure && std::abs(got[i] - hit.t) <= hit.tol + 1e-14L*std::abs(hit.t)) ok = true;
      m.checkf(ok, "crossing-real", [&]{return mon::fmt("reported crossing %.17g does not exist (%zu reported, %d certain): %s", got[i], got.size(), sure, where.c_str());});
    }
    m.count(sure ? "lines-crossing" : "lines-missing");
    if (sure > 1) m.count("lines-crossing-several");
    h = mon::mix(h, got.size()*31 + iq);
  }
  m.evaluated(h, true);
}

int main(int argc, char** argv)
{
  mon::Monitor m(argc, argv);
  
  m.run([&](Rng& rng, int) {
    if (m.mode == "near") near_case(m, rng);
    else cross_case(m, rng);
  });
  return m.finish();
}
