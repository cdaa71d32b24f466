// G03: CAD geometry. Shapes with a known exact surface are built with OCCT, optionally moved, assembled and sent
// through a STEP/IGES/STL file, and the library's discretisations are judged against the exact surface.
#include "mon.hpp"
#include <Occt.hpp>
#include <Simplex_geom.hpp>
#include <BRepPrimAPI_MakeSphere.hxx>
#include <BRepPrimAPI_MakeBox.hxx>
#include <BRepPrimAPI_MakeCylinder.hxx>
#include <BRepPrimAPI_MakeCone.hxx>
#include <BRepPrimAPI_MakeTorus.hxx>
#include <BRepBuilderAPI_MakeEdge.hxx>
#include <BRepBuilderAPI_MakeWire.hxx>
#include <BRepBuilderAPI_Transform.hxx>
#include <BRep_Builder.hxx>
#include <TopoDS_Compound.hxx>
#include <TopoDS.hxx>
#include <STEPControl_Writer.hxx>
#include <IGESControl_Writer.hxx>
#include <IGESControl_Controller.hxx>
#include <GC_MakeArcOfCircle.hxx>
#include <Geom_BezierCurve.hxx>
#include <TColgp_Array1OfPnt.hxx>
#include <gp_Elips.hxx>
#include <gp_Circ.hxx>
#include <Message.hxx>
#include <Message_Messenger.hxx>
#include <filesystem>
#include <fstream>
using namespace hexed;
using mon::Rng;
namespace fs = std::filesystem;

struct Prim
{ // exact model in its own coordinates (mm), plus the rigid motion applied to it
  int kind; double a, b, c; gp_Trsf t;
  double size() const {return kind == 4 ? a + b : kind == 1 ? std::sqrt(a*a + b*b + c*c) : std::max({a, b, c});}
  //! distance from the exact surface, mm; `p` in world coordinates, mm
  double dist(gp_Pnt w) const
  {
    gp_Pnt q = w.Transformed(t.Inverted());
    double x = q.X(), y = q.Y(), z = q.Z(), rho = std::hypot(x, y);
    auto seg = [&](double r0, double z0, double r1, double z1){ // distance to a segment in the (rho, z) half plane
      double dr = r1 - r0, dz = z1 - z0, s = ((rho - r0)*dr + (z - z0)*dz)/(dr*dr + dz*dz); s = std::min(1., std::max(0., s));
      return std::hypot(rho - r0 - s*dr, z - z0 - s*dz);};
    switch (kind) {
      case 0: return std::abs(std::sqrt(x*x + y*y + z*z) - a);
      case 1: { // box [0, a]x[0, b]x[0, c]
        double v[3] {x, y, z}, s[3] {a, b, c}, out = 0, in = 1e300;
        for (int i = 0; i < 3; ++i) {double o = std::max({-v[i], v[i] - s[i], 0.}); out += o*o; in = std::min({in, std::abs(v[i]), std::abs(s[i] - v[i])});}
        return out > 0 ? std::sqrt(out) : in;
      }
      case 2: return std::min({seg(0, 0, a, 0), seg(a, 0, a, c), seg(a, c, 0, c)});
      case 3: return std::min({seg(0, 0, a, 0), seg(a, 0, b, c), seg(b, c, 0, c)});
      default: return std::abs(std::hypot(rho - a, z) - b);
    }
  }
  gp_Pnt random_on(Rng& rng) const
  {
    double u = rng.uniform(0, 2*M_PI), x = 0, y = 0, z = 0, r = 0;
    switch (kind) {
      case 0: {z = rng.uniform(-1, 1); r = a*std::sqrt(1 - z*z); z *= a; break;}
      case 1: {
        double v[3] {rng.uniform(0, a), rng.uniform(0, b), rng.uniform(0, c)}, s[3] {a, b, c}; int k = rng.below(3); v[k] = rng.chance(.5) ? 0 : s[k];
        return gp_Pnt(v[0], v[1], v[2]).Transformed(t);
      }
      case 2: {int k = rng.below(3); r = k == 1 ? a : a*rng.uniform(0, 1); z = k == 0 ? 0 : k == 2 ? c : rng.uniform(0, c); break;}
      case 3: {int k = rng.below(3); double s = rng.uniform(0, 1); r = k == 0 ? a*s : k == 2 ? b*s : a + s*(b - a); z = k == 0 ? 0 : k == 2 ? c : s*c; break;}
      default: {double v = rng.uniform(0, 2*M_PI); r = a + b*std::cos(v); z = b*std::sin(v);}
    }
    x = r*std::cos(u); y = r*std::sin(u);
    return gp_Pnt(x, y, z).Transformed(t);
  }
  double area() const
  {
    switch (kind) {
      case 0: return 4*M_PI*a*a;
      case 1: return 2*(a*b + b*c + a*c);
      case 2: return 2*M_PI*a*a + 2*M_PI*a*c;
      case 3: return M_PI*(a*a + b*b) + M_PI*(a + b)*std::hypot(a - b, c);
      default: return 4*M_PI*M_PI*a*b;
    }
  }
  TopoDS_Shape make() const
  {
    switch (kind) {
      case 0: return BRepPrimAPI_MakeSphere(a).Shape();
      case 1: return BRepPrimAPI_MakeBox(a, b, c).Shape();
      case 2: return BRepPrimAPI_MakeCylinder(a, c).Shape();
      case 3: return BRepPrimAPI_MakeCone(a, b, c).Shape();
      default: return BRepPrimAPI_MakeTorus(a, b).Shape();
    }
  }
  std::string desc() const {const char* n[] {"sphere", "box", "cylinder", "cone", "torus"}; return mon::fmt("%s(%.4g %.4g %.4g)", n[kind], a, b, c);}
};

static Prim random_prim(Rng& rng, double scale, int max_kind = 5)
{
  Prim p; p.kind = rng.below(max_kind);
  p.a = scale*rng.uniform(.3, 1); p.b = scale*rng.uniform(.1, .28); p.c = scale*rng.uniform(.2, 2);
  return p;
}
static gp_Trsf random_motion(Rng& rng, double scale)
{
  gp_Trsf r, t;
  gp_Dir axis(rng.normal(), rng.normal(), rng.normal() + 1e-3);
  r.SetRotation(gp_Ax1(gp_Pnt(0, 0, 0), axis), rng.uniform(-3, 3));
  t.SetTranslation(gp_Vec(scale*rng.uniform(-3, 3), scale*rng.uniform(-3, 3), scale*rng.uniform(-3, 3)));
  return t*r;
}
struct Quiet_cout
{ // OCCT's writers talk a lot
  std::streambuf* old; std::ostringstream sink;
  Quiet_cout() : old{std::cout.rdbuf(sink.rdbuf())} {}
  ~Quiet_cout() {std::cout.rdbuf(old);}
};
static bool write_file(const TopoDS_Shape& s, const std::string& name, bool step)
{
  Quiet_cout q;
  if (step) {STEPControl_Writer w; return w.Transfer(s, STEPControl_AsIs) == IFSelect_RetDone && w.Write(name.c_str()) == IFSelect_RetDone;}
  IGESControl_Controller::Init();
  IGESControl_Writer w("MM", 1); // BRep mode
  if (!w.AddShape(s)) return false;
  w.ComputeModel();
  return w.Write(name.c_str());
}

struct Scratch
{
  fs::path dir;
  Scratch() {char t[] = "/tmp/verif_cad_XXXXXX"; dir = mkdtemp(t);}
  ~Scratch() {std::error_code ec; fs::remove_all(dir, ec);}
  std::string operator()(const std::string& n) const {return (dir/n).string();}
};

static gp_Pnt mm(const Mat<3>& p) {return {1e3*p(0), 1e3*p(1), 1e3*p(2)};}

static void solid_case(mon::Monitor& m, Rng& rng)
{
  Scratch scratch;
  double scale = std::pow(10., rng.uniform(0.5, 4));
  int n = rng.chance(.4) ? rng.range(2, 3) : 1;
  std::vector<Prim> prims; std::string desc; TopoDS_Compound comp; BRep_Builder bb; bb.MakeCompound(comp);
  TopoDS_Shape last; int how = 0; bool reuse = n > 1 && rng.chance(.5);
  Prim first;
  TopoDS_Shape first_shape;
  for (int i = 0; i < n; ++i) {
    Prim p = reuse && i ? first : random_prim(rng, scale);
    TopoDS_Shape s = reuse && i ? first_shape : p.make();
    if (!i) {first = p; first_shape = s;}
    how = rng.below(3); // not moved, moved by location, geometry transformed
    if (n > 1) how = rng.range(1, 2);
    p.t = how ? random_motion(rng, scale) : gp_Trsf();
    if (how == 1) s = s.Moved(TopLoc_Location(p.t));
    if (how == 2) s = BRepBuilderAPI_Transform(s, p.t, true).Shape();
    static const char* names[] {"as is", "located", "transformed"};
    desc += p.desc() + " " + names[how] + " ";
    m.count(std::string("shape-") + names[how]);
    prims.push_back(p); bb.Add(comp, s); last = s;
  }
  TopoDS_Shape shape = n > 1 ? TopoDS_Shape(comp) : last;
  if (n > 1 && rng.chance(.5)) { // an assembly that is itself moved
    gp_Trsf t = random_motion(rng, scale);
    shape = shape.Moved(TopLoc_Location(t)); for (auto& p : prims) p.t = t*p.t; desc += "assembly moved ";
    m.count("assemblies-moved");
  }
  int via = rng.below(3);
  if (via) {
    std::string f = scratch(via == 1 ? (rng.chance(.5) ? "a.stp" : "b.STEP") : (rng.chance(.5) ? "a.igs" : "b.IGES"));
    m.phase(desc + f);
    if (!write_file(shape, f, via == 1)) {m.count("writer-failed"); return;}
    Quiet_cout q;
    shape = Occt::read(f);
    desc += via == 1 ? "via STEP " : "via IGES ";
    m.count(via == 1 ? "step-files" : "iges-files");
  }
  double angle = rng.uniform(3, 30)*constants::degree, defl = rng.chance(.5) ? huge : scale*1e-3*std::pow(10., rng.uniform(-3, -1));
  desc += mon::fmt("angle %.3g deg deflection %.3g m", angle/constants::degree, defl);
  m.phase(desc);
  auto tris = Occt::triangles(shape, angle, defl);
  // largest allowed distance between the discretisation and the surface (mm)
  double bound = 0, size = 0;
  for (auto& p : prims) {
    double r = p.kind == 0 ? p.a : p.kind == 1 ? 0 : p.kind == 4 ? p.a + p.b : std::max(p.a, p.b);
    bound = std::max(bound, r*(1 - std::cos(angle))*3); size = std::max(size, p.size());
  }
  double reach = size; for (auto& p : prims) reach = std::max(reach, p.t.TranslationPart().Modulus());
  if (defl < huge) bound = std::min(bound, 6*defl*1e3);
  bound += 1e-6*reach;
  auto dist = [&](gp_Pnt p){double d = 1e300; for (auto& q : prims) d = std::min(d, q.dist(p)); return d;};
  double tol = 2e-6*reach + 1e-6;
  if (!m.checkf(!tris.empty(), "triangles-exist", [&]{return "no triangles for " + desc;})) return;
  double area = 0, worst_v = 0, worst_i = 0;
  for (auto& t : tris) {
    for (int k = 0; k < 3; ++k) worst_v = std::max(worst_v, dist(mm(t.col(k))));
    Mat<3> w(rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(0, 1)); w /= w.sum();
    worst_i = std::max(worst_i, dist(mm(t*w)));
    area += .5*(t.col(1) - t.col(0)).cross(t.col(2) - t.col(0)).norm();
  }
  m.checkf(worst_v <= tol, "vertices-on-surface", [&]{return mon::fmt("a triangle corner is %.6g mm off the exact surface (size %.4g mm, tolerance %.3g): %s", worst_v, size, tol, desc.c_str());});
  m.checkf(worst_i <= bound, "facets-on-surface", [&]{return mon::fmt("a triangle is %.6g mm off the exact surface (bound %.4g mm): %s", worst_i, bound, desc.c_str());});
  Simplex_geom<3> g(tris);
  double exact = 0; for (auto& p : prims) exact += p.area();
  m.checkf(std::abs(area*1e6 - exact) <= exact*(3*(1 - std::cos(angle)) + 1e-6)*3, "area", [&]{return mon::fmt("triangles have area %.8g mm^2, the exact area is %.8g: %s", area*1e6, exact, desc.c_str());});
  for (int i = 0; i < 40; ++i) { // every part of the exact surface is covered
    auto& p = prims[rng.below(prims.size())]; gp_Pnt x = p.random_on(rng);
    Mat<> q(3); q << x.X()*1e-3, x.Y()*1e-3, x.Z()*1e-3;
    auto np = g.nearest_point(q);
    double d = np.empty() ? 1e300 : (np.point() - q).norm()*1e3;
    m.checkf(d <= bound, "surface-covered", [&]{return mon::fmt("a point of the exact %s is %.6g mm from the nearest triangle (bound %.4g): %s", p.desc().c_str(), d, bound, desc.c_str());});
  }
  if (via != 2) { // faces share edges, so the triangles must close up
    std::map<std::array<int64_t, 3>, int> ids; std::map<std::pair<int, int>, int> edges;
    double cell = std::max(1e-7*reach, 1e-9)*1e-3*50;
    std::vector<std::array<int, 3>> idx;
    std::vector<Mat<3>> pts;
    auto id = [&](Mat<3> p) {
      std::array<int64_t, 3> k; for (int i = 0; i < 3; ++i) k[i] = std::llround(p(i)/cell);
      for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) for (int dz = -1; dz <= 1; ++dz) {
        auto it = ids.find({k[0] + dx, k[1] + dy, k[2] + dz});
        if (it != ids.end() && (pts[it->second] - p).norm() < cell) return it->second;
      }
      pts.push_back(p); return ids[k] = int(pts.size()) - 1;
    };
    for (auto& t : tris) {
      int v[3]; for (int k = 0; k < 3; ++k) v[k] = id(t.col(k));
      if (v[0] == v[1] || v[1] == v[2] || v[0] == v[2]) {m.count("degenerate-triangles"); continue;}
      for (int k = 0; k < 3; ++k) ++edges[std::minmax(v[k], v[(k + 1)%3])];
    }
    int open = 0; for (auto& e : edges) open += e.second%2;
    m.checkf(open == 0, "watertight", [&]{return mon::fmt("%d of %zu edges are not shared by two triangles: %s", open, edges.size(), desc.c_str());});
  }
  // a line far outside never crosses; a line through the middle of a single sphere crosses twice
  if (n == 1 && prims[0].kind == 0) {
    gp_Pnt c = gp_Pnt(0, 0, 0).Transformed(prims[0].t); Mat<> a(3), b(3), d(3); d << rng.normal(), rng.normal(), rng.normal(); d.normalize();
    a << c.X()*1e-3, c.Y()*1e-3, c.Z()*1e-3; b = a + prims[0].a*1e-3*d;
    auto t = g.intersections(a, b);
    bool ok = true; int pos = 0, neg = 0; for (double x : t) {(x > 0 ? pos : neg)++; ok = ok && std::abs(std::abs(x) - 1) <= bound/prims[0].a*2;}
    m.checkf(ok && pos && neg, "line-through-sphere", [&]{return mon::fmt("%zu crossings on a line through the center: %s", t.size(), desc.c_str());});
  }
  // the direct interface, for surfaces without trimming
  bool untrimmed = true; for (auto& p : prims) untrimmed = untrimmed && (p.kind == 0 || p.kind == 4);
  if (untrimmed && via != 2) {
    Occt::Geom direct(shape, 3);
    for (int i = 0; i < 6; ++i) {
      auto& p = prims[rng.below(prims.size())]; gp_Pnt x = p.random_on(rng);
      Mat<> q(3); q << x.X(), x.Y(), x.Z(); for (int k = 0; k < 3; ++k) q(k) += .05*p.b*rng.normal(); q *= 1e-3;
      double d = dist(mm(q))*1e-3;
      auto np = direct.nearest_point(q);
      double got = np.empty() ? 1e300 : (np.point() - q).norm(), off = np.empty() ? 1e300 : dist(mm(np.point()));
      m.checkf(std::abs(got - d) <= 1e-7*reach*1e-3 && off <= 1e-7*reach, "direct-nearest", [&]{return mon::fmt("nearest point at %.12g m (%.3g mm off the surface), exact distance %.12g m: %s", got, off, d, desc.c_str());});
    }
    if (n == 1 && prims[0].kind == 0) {
      for (int i = 0; i < 4; ++i) {
        gp_Pnt c = gp_Pnt(0, 0, 0).Transformed(prims[0].t); Mat<> o(3), a(3), b(3), d(3), e(3); d << rng.normal(), rng.normal(), rng.normal(); d.normalize();
        e << rng.normal(), rng.normal(), rng.normal(); e -= e.dot(d)*d; e.normalize();
        double r = prims[0].a*1e-3, h = r*rng.uniform(0, 1.5); if (std::abs(h - r) < .01*r) continue;
        o << c.X()*1e-3, c.Y()*1e-3, c.Z()*1e-3; a = o + h*e + rng.uniform(-2, 2)*r*d; double len = r*std::pow(10., rng.uniform(-1, 1)); b = a + len*d;
        std::vector<double> want; if (h < r) for (int s : {-1, 1}) want.push_back(((o - a).dot(d) + s*std::sqrt(r*r - h*h))/len);
        auto t = direct.intersections(a, b); std::sort(t.begin(), t.end());
        bool ok = t.size() == want.size(); for (size_t k = 0; ok && k < t.size(); ++k) ok = std::abs(t[k] - want[k]) <= 1e-6*(reach*1e-3/len);
        m.checkf(ok, "direct-crossings", [&]{return mon::fmt("%zu crossings, expected %zu (first %.12g / %.12g): %s", t.size(), want.size(), t.empty() ? 0. : t[0], want.empty() ? 0. : want[0], desc.c_str());});
      }
    }
  }
  m.evaluated(mon::mix(mon::mix(via, tris.size()), uint64_t(area*1e9)), true);
}

static void curve_case(mon::Monitor& m, Rng& rng)
{
  Scratch scratch;
  double scale = std::pow(10., rng.uniform(0.5, 4));
  // each entry: an edge and a function giving the distance (mm) from the exact curve, and its ends
  struct C {TopoDS_Edge e; std::function<double(double, double)> dist; gp_Pnt p0, p1; bool closed;};
  std::vector<C> cs; std::string desc;
  int n = rng.range(1, 4);
  for (int i = 0; i < n; ++i) {
    double x = scale*rng.uniform(-2, 2), y = scale*rng.uniform(-2, 2), z = rng.chance(.3) ? scale*rng.uniform(-1, 1) : 0, r = scale*rng.uniform(.1, 1);
    C c;
    switch (rng.below(5)) {
      case 0: { // line segment
        gp_Pnt a(x, y, z), b(x + scale*rng.uniform(.1, 1), y + scale*rng.uniform(-1, 1), z);
        c = {BRepBuilderAPI_MakeEdge(a, b).Edge(), [=](double u, double v){double dx = b.X() - a.X(), dy = b.Y() - a.Y(), t = ((u - a.X())*dx + (v - a.Y())*dy)/(dx*dx + dy*dy); t = std::min(1., std::max(0., t)); return std::hypot(u - a.X() - t*dx, v - a.Y() - t*dy);}, a, b, false};
        desc += "segment "; break;
      }
      case 1: { // circular arc
        gp_Circ k(gp_Ax2(gp_Pnt(x, y, z), gp_Dir(0, 0, 1)), r); double t0 = rng.uniform(0, 5), t1 = t0 + rng.uniform(.2, 1.2);
        TopoDS_Edge e = BRepBuilderAPI_MakeEdge(k, t0, t1).Edge();
        gp_Pnt a(x + r*std::cos(t0), y + r*std::sin(t0), z), b(x + r*std::cos(t1), y + r*std::sin(t1), z);
        c = {e, [=](double u, double v){
          double th = std::atan2(v - y, u - x); while (th < t0 - 1e-6) th += 2*M_PI;
          return th <= t1 + 1e-6 ? std::abs(std::hypot(u - x, v - y) - r) : std::min(std::hypot(u - a.X(), v - a.Y()), std::hypot(u - b.X(), v - b.Y()));}, a, b, false};
        desc += "arc "; break;
      }
      case 2: { // full circle
        gp_Circ k(gp_Ax2(gp_Pnt(x, y, z), gp_Dir(0, 0, rng.chance(.5) ? 1 : -1)), r);
        c = {BRepBuilderAPI_MakeEdge(k).Edge(), [=](double u, double v){return std::abs(std::hypot(u - x, v - y) - r);}, gp_Pnt(x + r, y, z), gp_Pnt(x + r, y, z), true};
        desc += "circle "; break;
      }
      case 3: { // ellipse arc (through its implicit equation, first order distance)
        double q = r*rng.uniform(.3, .9); gp_Elips k(gp_Ax2(gp_Pnt(x, y, z), gp_Dir(0, 0, 1), gp_Dir(1, 0, 0)), r, q);
        double t0 = rng.uniform(0, 5), t1 = t0 + rng.uniform(.2, 1.2);
        gp_Pnt a(x + r*std::cos(t0), y + q*std::sin(t0), z), b(x + r*std::cos(t1), y + q*std::sin(t1), z);
        c = {BRepBuilderAPI_MakeEdge(k, t0, t1).Edge(), [=](double u, double v){
          double th = std::atan2((v - y)/q, (u - x)/r); while (th < t0 - 1e-6) th += 2*M_PI;
          return th <= t1 + 1e-6 ? std::hypot(u - x - r*std::cos(th), v - y - q*std::sin(th)) : std::min(std::hypot(u - a.X(), v - a.Y()), std::hypot(u - b.X(), v - b.Y()));}, a, b, false};
        desc += "ellipse-arc "; break;
      }
      default: { // Bezier curve
        TColgp_Array1OfPnt p(1, 4); double px[4], py[4]; for (int k = 0; k < 4; ++k) {px[k] = x + scale*.4*k; py[k] = y + scale*rng.uniform(-.5, .5); p(k + 1) = gp_Pnt(px[k], py[k], z);}
        std::array<double, 4> ax {px[0], px[1], px[2], px[3]}, ay {py[0], py[1], py[2], py[3]};
        c = {BRepBuilderAPI_MakeEdge(new Geom_BezierCurve(p)).Edge(), [=](double u, double v){
          double t = (u - ax[0])/(ax[3] - ax[0]); t = std::min(1., std::max(0., t)); // equally spaced abscissae: x is linear in the parameter
          double s = 1 - t, yy = s*s*s*ay[0] + 3*s*s*t*ay[1] + 3*s*t*t*ay[2] + t*t*t*ay[3];
          return std::hypot(u - ax[0] - t*(ax[3] - ax[0]), v - yy);}, gp_Pnt(px[0], py[0], z), gp_Pnt(px[3], py[3], z), false};
        desc += "bezier ";
      }
    }
    if (rng.chance(.4)) { // an edge used at another place
      double dx = scale*rng.uniform(-3, 3), dy = scale*rng.uniform(-3, 3); gp_Trsf t; t.SetTranslation(gp_Vec(dx, dy, 0));
      c.e = TopoDS::Edge(c.e.Moved(TopLoc_Location(t)));
      auto d = c.dist; c.dist = [=](double u, double v){return d(u - dx, v - dy);};
      c.p0.Transform(t); c.p1.Transform(t); desc += "(located) "; m.count("curve-located");
    }
    cs.push_back(c);
  }
  TopoDS_Compound comp; BRep_Builder bb; bb.MakeCompound(comp);
  for (auto& c : cs) bb.Add(comp, c.e);
  TopoDS_Shape shape = comp;
  int via = rng.below(3);
  if (via) {
    std::string f = scratch(via == 1 ? "a.stp" : "a.igs");
    m.phase(desc + f);
    if (!write_file(shape, f, via == 1)) {m.count("writer-failed"); return;}
    Quiet_cout q; shape = Occt::read(f);
    desc += via == 1 ? "via STEP " : "via IGES ";
    m.count(via == 1 ? "step-curves" : "iges-curves");
  }
  int ns = rng.range(1, 40);
  desc += mon::fmt("%d segments each, scale %g mm", ns, scale);
  m.phase(desc);
  auto segs = Occt::segments(shape, ns);
  double tol = 1e-6*scale*4 + 1e-6;
  m.checkf(segs.size() >= cs.size()*ns && segs.size()%ns == 0, "segment-count", [&]{return mon::fmt("%zu segments for %zu curves: %s", segs.size(), cs.size(), desc.c_str());});
  double worst = 0, gap = 0;
  auto dist = [&](Mat<2> p){double d = 1e300; for (auto& c : cs) d = std::min(d, c.dist(p(0)*1e3, p(1)*1e3)); return d;};
  for (size_t i = 0; i < segs.size(); ++i) {
    for (int k = 0; k < 2; ++k) worst = std::max(worst, dist(segs[i].col(k)));
    if (i%ns) gap = std::max(gap, (segs[i].col(0) - segs[i - 1].col(1)).norm()*1e3);
  }
  m.checkf(worst <= tol, "segments-on-curve", [&]{return mon::fmt("a segment end is %.6g mm off the exact curve (tolerance %.3g): %s", worst, tol, desc.c_str());});
  m.checkf(gap == 0, "segments-connected", [&]{return mon::fmt("consecutive segments are %.6g mm apart: %s", gap, desc.c_str());});
  for (auto& c : cs) for (gp_Pnt p : {c.p0, c.p1}) if (!c.closed) {
    double d = 1e300; for (auto& s : segs) for (int k = 0; k < 2; ++k) d = std::min(d, std::hypot(s(0, k)*1e3 - p.X(), s(1, k)*1e3 - p.Y()));
    m.checkf(d <= tol, "curve-ends", [&]{return mon::fmt("no segment ends at the end (%.6g, %.6g) of a curve (nearest %.4g mm): %s", p.X(), p.Y(), d, desc.c_str());});
  }
  // direct interface
  Occt::Geom direct(shape, 2);
  for (int i = 0; i < 6 && !segs.empty(); ++i) {
    auto& s = segs[rng.below(segs.size())]; Mat<> q = s.col(0) + (rng.uniform(0, .02)*scale*1e-3)*Mat<2>(rng.normal(), rng.normal());
    auto np = direct.nearest_point(q);
    if (np.empty()) {m.count("direct-none"); continue;} // only perpendicular feet count for open curves
    m.checkf(dist(np.point()) <= tol, "direct-on-curve", [&]{return mon::fmt("nearest point is %.6g mm off the curve: %s", dist(np.point()), desc.c_str());});
    if (cs.size() == 1 && cs[0].closed) {
      double d = dist(q), got = (np.point() - q).norm()*1e3;
      m.checkf(std::abs(d - got) <= tol, "direct-nearest-curve", [&]{return mon::fmt("nearest point at %.10g mm, exact %.10g mm: %s", got, d, desc.c_str());});
    }
  }
  m.evaluated(mon::mix(via*100 + ns, uint64_t(scale*1e6)), true);
}

static void stl_case(mon::Monitor& m, Rng& rng)
{
  Scratch scratch;
  int n = rng.range(1, 300); bool binary = rng.chance(.5);
  double size = std::pow(10., rng.uniform(-3, 3)), off = rng.chance(.5) ? 0 : size*rng.uniform(0, 20);
  double unit = std::vector<double>{1., 1e-3, .0254}[rng.below(3)];
  std::vector<std::array<float, 9>> t(n); bool shared = rng.chance(.5);
  for (int i = 0; i < n; ++i) for (int k = 0; k < 9; ++k) t[i][k] = (shared && i && k < 6) ? t[i - 1][k + 3] : float(off + size*rng.uniform(-1, 1));
  std::string f = scratch("a.stl");
  {
    std::ofstream o(f, std::ios::binary);
    if (binary) {
      char head[80] = "binary stl"; o.write(head, 80); uint32_t c = n; o.write((char*)&c, 4);
      for (auto& x : t) {float nrm[3] {}; o.write((char*)nrm, 12); o.write((char*)x.data(), 36); uint16_t a = 0; o.write((char*)&a, 2);}
    } else {
      o << "solid a\n"; char b[400];
      for (auto& x : t) {
        o << " facet normal 0 0 1\n  outer loop\n";
        for (int k = 0; k < 3; ++k) {snprintf(b, 400, "   vertex %.9g %.9g %.9g\n", x[3*k], x[3*k + 1], x[3*k + 2]); o << b;}
        o << "  endloop\n endfacet\n";
      }
      o << "endsolid a\n";
    }
  }
  std::string desc = mon::fmt("%s STL with %d triangles of size %g unit %g", binary ? "binary" : "ASCII", n, size, unit);
  m.phase(desc); m.count(binary ? "stl-binary" : "stl-ascii");
  auto tris = Occt::triangles(Occt::read_stl(f, unit));
  if (!m.checkf(int(tris.size()) == n, "stl-count", [&]{return mon::fmt("%zu triangles read: ", tris.size()) + desc;})) return;
  double worst = 0;
  for (int i = 0; i < n; ++i) for (int k = 0; k < 9; ++k) worst = std::max(worst, std::abs(tris[i](k%3, k/3) - double(t[i][k])*unit));
  m.checkf(worst <= 1e-7*(size + off)*unit, "stl-vertices", [&]{return mon::fmt("a vertex is off by %.6g m: ", worst) + desc;});
  m.evaluated(mon::mix(n, uint64_t(size*1e9)), true);
}

static void bad_case(mon::Monitor& m, Rng& rng)
{
  Scratch scratch;
  static const char* exts[] {"igs", "iges", "IGS", "stp", "step", "STEP", "stl", "txt", ""};
  std::string ext = exts[rng.below(9)], f = scratch(ext.empty() ? "file" : "file." + ext);
  int kind = rng.below(3); std::string content;
  if (kind == 1) for (int i = rng.below(400); i > 0; --i) content += char(rng.below(256));
  if (kind == 2) content = ext[0] == 'i' || ext[0] == 'I' ? "garbage S      1\n" : "ISO-10303-21;\nHEADER;\nENDSEC;\nDATA;\n#1=GARBAGE(;\n";
  if (kind) std::ofstream(f, std::ios::binary) << content;
  std::string desc = mon::fmt("%s .%s file", kind == 0 ? "missing" : kind == 1 ? "random" : "malformed", ext.c_str());
  m.phase(desc);
  bool threw = false; size_t n = 0;
  try {
    Quiet_cout q;
    if (ext == "stl") n = Occt::triangles(Occt::read_stl(f)).size();
    else {auto s = Occt::read(f); if (!s.IsNull()) n = Occt::triangles(s).size();}
  } catch (const std::exception&) {threw = true;}
  catch (const Standard_Failure&) {threw = true;}
  if (kind == 0 || ext == "txt" || ext.empty()) m.checkf(threw, "unreadable-rejected", [&]{return "no error for a " + desc;});
  else m.checkf(threw || n == 0, "malformed-rejected", [&]{return mon::fmt("%zu triangles from a ", n) + desc;});
  m.count("bad-files");
  m.evaluated(mon::mix(kind, content.size()*10 + ext.size()), true);
}

int main(int argc, char** argv)
{
  mon::Monitor m(argc, argv);
  Message::DefaultMessenger()->ChangePrinters().Clear();
  m.run([&](Rng& rng, int) {
    int k = rng.below(10);
    if (k < 5) solid_case(m, rng); else if (k < 8) curve_case(m, rng); else if (k < 9) stl_case(m, rng); else bad_case(m, rng);
  });
  return m.finish();
}
