// monitors of visualisation: sampled values and the files written are compared with the polynomials in the cells
#include "flow.hpp"
#include <Vis_data.hpp>
#include <Boundary_func.hpp>
#include <Qpoint_func.hpp>
#include <hdf5.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <regex>
#include <unistd.h>

using namespace scene;
using mon::Monitor;
namespace fs = std::filesystem;
static int max_rs = config::max_row_size;

struct Scratch
{
  fs::path dir;
  Scratch() {std::string t = (fs::temp_directory_path()/"hexed_vis_XXXXXX").string(); dir = mkdtemp(t.data());}
  ~Scratch() {std::error_code ec; fs::remove_all(dir, ec);}
};

//! interpolating polynomial of nodal values, evaluated independently of the code under test (Lagrange form)
struct Interp
{
  int nd, rs, nq;
  std::vector<long double> x;
  Interp(int nd, int rs, const Basis& b) : nd{nd}, rs{rs}, nq{math::pow(rs, nd)} {for (int i = 0; i < rs; ++i) x.push_back(b.node(i));}
  long double lag(int i, long double s) const {long double r = 1; for (int j = 0; j < rs; ++j) if (j != i) r *= (s - x[j])/(x[i] - x[j]); return r;}
  //! values: nodal values in the order in which the last dimension varies fastest
  long double operator()(const double* values, const std::vector<double>& at) const
  {
    long double sum = 0;
    int n = math::pow(rs, int(at.size()));
    for (int q = 0; q < n; ++q) {
      long double w = values[q];
      int k = q;
      for (int d = int(at.size()) - 1; d >= 0; --d) {w *= lag(k%rs, at[d]); k /= rs;}
      sum += w;
    }
    return sum;
  }
};

struct Surf_func : public Boundary_func
{
  int nd;
  int n_var(int) const override {return nd + 3;}
  std::string variable_name(int, int i) const override {return fmt("surf_%d", 7*i);}
  std::vector<double> operator()(Boundary_connection& con, int i, double t) const override
  {
    int nfq = con.storage_params().n_qpoint()/con.storage_params().row_size;
    std::vector<double> r;
    for (int v = 0; v < nd + 2; ++v) r.push_back(con.inside_face(false)[v*nfq + i]);
    r.push_back(t);
    return r;
  }
};

struct Linear_qf : public Qpoint_func
{
  Mat<> c; double c0;
  int n_var(int) const override {return 1;}
  std::vector<double> operator()(Element& e, const Basis& b, int q, double) const override {return {c0 + c.dot(vec(e.position(b, q)))};}
};

struct Block_data {std::vector<double> pos, var;}; //!< layout [n_dim][n_point], [n_var][n_point]

//! points of a uniform block on the unit square/cube, last dimension fastest
static std::vector<std::vector<double>> grid(int nd, int n)
{
  std::vector<std::vector<double>> r;
  for (int i = 0; i < math::pow(n, nd); ++i) {
    std::vector<double> p(nd);
    int k = i;
    for (int d = nd - 1; d >= 0; --d) {p[d] = double(k%n)/(n - 1); k /= n;}
    r.push_back(p);
  }
  return r;
}

struct File
{
  int n_geom = 0, n_topo = 0, n_cell = 0;
  double time = std::nan("");
  std::string topo_type;
  std::vector<long> topo;
  std::vector<double> geom;
  std::vector<std::string> names;
  std::vector<std::vector<double>> vars;
  std::string error;
};

static std::vector<double> read_h5(std::string file, std::string set)
{
  std::vector<double> r;
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0) return r;
  hid_t d = H5Dopen2(f, set.c_str(), H5P_DEFAULT);
  if (d >= 0) {
    hid_t s = H5Dget_space(d);
    r.resize(H5Sget_simple_extent_npoints(s));
    if (!r.empty()) H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, r.data());
    H5Sclose(s); H5Dclose(d);
  }
  H5Fclose(f);
  return r;
}

static File read_xdmf(std::string path)
{
  File r;
  std::ifstream in(path + ".xmf");
  if (!in) {r.error = "no " + path + ".xmf"; return r;}
  std::stringstream ss; ss << in.rdbuf();
  std::string t = ss.str();
  auto attr = [](const std::string& tag, std::string name) {
    std::smatch m;
    if (std::regex_search(tag, m, std::regex("\\b" + name + "=\"([^\"]*)\""))) return std::string(m[1]);
    return std::string();
  };
  std::regex tag("<(Topology|Geometry|Attribute|Time|DataItem)\\b[^>]*>");
  std::string owner, owner_tag;
  for (std::sregex_iterator i(t.begin(), t.end(), tag), e; i != e; ++i) {
    std::string kind = (*i)[1], full = (*i)[0];
    if (kind == "Time") r.time = atof(attr(full, "Value").c_str());
    else if (kind != "DataItem") {owner = kind; owner_tag = full;}
    else {
      size_t a = i->position() + i->length(), b = t.find("</DataItem>", a);
      std::string body = t.substr(a, b - a);
      std::vector<double> data;
      std::string dims = attr(full, "Dimensions");
      if (attr(full, "Format") == "HDF") {
        std::smatch m;
        std::string joined;
        std::stringstream parts(body);
        for (std::string tok; parts >> tok;) { // pieces separated by |
          if (tok == "|") continue;
          size_t c = tok.rfind(':');
          if (c == std::string::npos) continue;
          std::string f = tok.substr(0, c), set = tok.substr(c + 1);
          if (f.find('/') == std::string::npos) f = (fs::path(path).parent_path()/f).string();
          auto d = read_h5(f, set);
          data.insert(data.end(), d.begin(), d.end());
        }
      } else {std::stringstream v(body); for (double x; v >> x;) data.push_back(x);}
      long expect = 1; {std::stringstream d(dims); for (long x; d >> x;) expect *= x;}
      if (long(data.size()) != expect) r.error = fmt("%s has %ld values, %ld declared", owner.c_str(), long(data.size()), expect);
      if (owner == "Topology") {
        r.topo_type = attr(owner_tag, "Type") + attr(owner_tag, "TopologyType");
        r.topo.assign(data.begin(), data.end());
        r.n_cell = atoi(attr(owner_tag, "Dimensions").c_str());
        if (!r.n_cell) r.n_cell = atoi(attr(owner_tag, "NumberOfElements").c_str());
      } else if (owner == "Geometry") {
        r.geom = data;
        std::string ty = attr(owner_tag, "Type") + attr(owner_tag, "GeometryType");
        r.n_geom = ty == "XYZ" ? 3 : ty == "XY" ? 2 : 0;
      } else {r.names.push_back(attr(owner_tag, "Name")); r.vars.push_back(data);}
    }
  }
  return r;
}

//! judges a file against the blocks that should be in it, in any order
static void judge_file(Monitor& m, std::string path, int nd, int n_topo, int n_sample, std::vector<Block_data> want, const Output_data& func, double time, double len, std::string what, std::string ctx)
{
  File f = read_xdmf(path);
  m.count("files"); m.count("file:" + what);
  if (!m.checkf(f.error.empty(), what + "-readable", [&] {return f.error + ctx;})) return;
  int np = math::pow(n_sample, n_topo), nb = want.size(), nv = func.n_var(nd), corners = 1 << n_topo;
  m.checkf(f.n_geom == nd, what + "-dimension", [&] {return fmt("%d-dimensional geometry", f.n_geom) + ctx;});
  std::string type = n_topo == 1 ? "Polyline" : n_topo == 2 ? "Quadrilateral" : "Hexahedron";
  m.checkf(f.topo_type == type, what + "-topology", [&] {return f.topo_type + ctx;});
  m.checkf(std::abs(f.time - time) <= 1e-5*std::abs(time), what + "-time", [&] {return fmt("time %.17g, not %.17g", f.time, time) + ctx;});
  long n_cell = long(nb)*math::pow(n_sample - 1, n_topo);
  bool ok = m.checkf(long(f.topo.size()) == n_cell*corners && f.n_cell == n_cell, what + "-cells", [&] {return fmt("%ld node references for %ld cells (%d declared)", long(f.topo.size()), n_cell, f.n_cell) + ctx;});
  ok = m.checkf(long(f.geom.size()) == long(nb)*np*nd, what + "-points", [&] {return fmt("%ld coordinates for %d blocks of %d points", long(f.geom.size()), nb, np) + ctx;}) && ok;
  ok = m.checkf(int(f.names.size()) == nv, what + "-variables", [&] {return fmt("%d variables, not %d", int(f.names.size()), nv) + ctx;}) && ok;
  if (!ok) return;
  for (int v = 0; v < nv; ++v) {
    m.checkf(f.names[v] == func.variable_name(nd, v), what + "-name", [&] {return f.names[v] + ctx;});
    if (!m.checkf(long(f.vars[v].size()) == long(nb)*np, what + "-variable-size", [&] {return fmt("%ld values", long(f.vars[v].size())) + ctx;})) return;
  }
  // every sub-cell of every block exactly once, with the corner order of XDMF
  std::set<long> seen;
  for (long c = 0; c < n_cell; ++c) {
    long* n = &f.topo[c*corners];
    bool good = true;
    std::vector<std::vector<int>> at;
    for (int k = 0; k < corners; ++k) {
      if (n[k] < 0 || n[k] >= long(nb)*np || n[k]/np != n[0]/np) {good = false; break;}
      std::vector<int> p(n_topo);
      long j = n[k]%np;
      for (int d = n_topo - 1; d >= 0; --d) {p[d] = j%n_sample; j /= n_sample;}
      at.push_back(p);
    }
    if (good) {
      std::vector<int> lo = at[0];
      for (auto& p : at) for (int d = 0; d < n_topo; ++d) lo[d] = std::min(lo[d], p[d]);
      std::set<std::vector<int>> uniq;
      for (auto& p : at) {for (int d = 0; d < n_topo; ++d) if (p[d] > lo[d] + 1) good = false; uniq.insert(p);}
      good = good && int(uniq.size()) == corners;
      auto dist = [&](int a, int b) {int s = 0; for (int d = 0; d < n_topo; ++d) s += std::abs(at[a][d] - at[b][d]); return s;};
      for (int k = 0; k < corners && n_topo > 1; ++k) { // rings of 4 and, in 3D, the other ring opposite
        int ring = k/4*4;
        good = good && dist(k, ring + (k + 1)%4) == 1;
        if (n_topo == 3 && k < 4) good = good && dist(k, k + 4) == 1;
      }
      if (good && n_topo == 3) { // not inside out with respect to the block
        int dir[3]; double det = 0; int a[3][3];
        (void)dir;
        for (int i = 0; i < 3; ++i) {int other = i == 0 ? 1 : i == 1 ? 3 : 4; for (int d = 0; d < 3; ++d) a[i][d] = at[other][d] - at[0][d];}
        for (int i = 0; i < 3; ++i) det += a[0][i]*(a[1][(i + 1)%3]*a[2][(i + 2)%3] - a[1][(i + 2)%3]*a[2][(i + 1)%3]);
        good = det > 0;
      }
      long id = n[0]/np;
      for (int d = 0; d < n_topo; ++d) id = id*n_sample + lo[d];
      good = good && seen.insert(id).second;
    }
    m.checkf(good, what + "-connectivity", [&] {std::string s; for (int k = 0; k < corners; ++k) s += fmt(" %ld", n[k]); return "cell with nodes" + s + ctx;});
  }
  m.count("cells-judged", n_cell);
  // values
  auto key = [&](const std::vector<double>& c) {std::vector<long> k; for (double x : c) k.push_back(std::lround(x/len*1e4)); return k;};
  std::map<std::vector<long>, std::vector<int>> where;
  auto center = [&](const Block_data& b) {std::vector<double> c(nd, 0.); for (int d = 0; d < nd; ++d) for (int p = 0; p < np; ++p) c[d] += b.pos[d*np + p]/np; return c;};
  for (int b = 0; b < nb; ++b) where[key(center(want[b]))].push_back(b);
  std::vector<double> big(nv, 0.);
  for (auto& b : want) for (int v = 0; v < nv; ++v) for (int p = 0; p < np; ++p) big[v] = std::max(big[v], std::abs(b.var[v*np + p]));
  for (int b = 0; b < nb; ++b) {
    Block_data got;
    got.pos.resize(nd*np); got.var.resize(nv*np);
    for (int p = 0; p < np; ++p) {
      for (int d = 0; d < nd; ++d) got.pos[d*np + p] = f.geom[(long(b)*np + p)*nd + d];
      for (int v = 0; v < nv; ++v) got.var[v*np + p] = f.vars[v][long(b)*np + p];
    }
    auto k = key(center(got));
    double best = 1e300; std::vector<int>* from = nullptr; int which = -1;
    for (int o = 0; o < math::pow(3, nd); ++o) {
      auto k1 = k; int j = o;
      for (int d = 0; d < nd; ++d) {k1[d] += j%3 - 1; j /= 3;}
      auto it = where.find(k1);
      if (it == where.end()) continue;
      for (unsigned i = 0; i < it->second.size(); ++i) {
        auto& w = want[it->second[i]];
        double err = 0;
        for (int j = 0; j < nd*np; ++j) {double e = std::abs(w.pos[j] - got.pos[j])/len; if (!(e <= err)) err = e;}
        for (int j = 0; j < nv*np; ++j) {double e = std::abs(w.var[j] - got.var[j])/(big[j/np] + 1e-300); if (!(e <= err)) err = e;}
        if (err < best) {best = err; from = &it->second; which = i;}
      }
    }
    m.worst(best, 1e-9, what + "-values", [&] {return fmt("block %d is at most as close as %g to any expected block that was not found already", b, best) + ctx;});
    if (from) from->erase(from->begin() + which);
  }
  m.flush_worst();
}

static void run(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Scratch dir;
    Scene_opts o;
    o.nd = rng.range(1, 3); o.rs = rng.range(2, max_rs);
    o.kind = o.nd == 1 ? rng.pick(std::vector<std::string>{"tree", "periodic"}) : rng.pick(std::vector<std::string>{"block", "tree", "surf", "surf"});
    Flow_field f = random_field(rng, o.nd, 1, Mat<>::Zero(3));
    o.bc = [&](int, std::string& n) {return random_bc(rng, f, n);};
    m.phase("make scene");
    auto sp = make_scene(rng, o);
    auto& s = *sp;
    if (!s.elems().size()) return;
    f.len = s.root*.6; Mat<> og = mesh_origin(s); for (int d = 0; d < s.nd; ++d) f.org(d) = og(d);
    s.sol->initialize(f);
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    if (rng.chance(.5)) try {s.sol->update();} catch (const std::exception&) {m.count("skipped-update"); return;}
    if (!healthy(s)) {m.count("skipped-unphysical"); return;}
    m.evaluated(mon::mix(mesh_hash(*s.mesh, s.nd), uint64_t(std::abs(f.w[0][3])*1e12)));
    int nd = s.nd, rs = s.rs, nq = s.nq(), nfq = nq/rs;
    double time = s.sol->iteration_status().flow_time, len = s.root;
    Gauss_legendre basis(rs);
    Interp full(nd, rs, basis);
    auto& els = s.elems();
    std::string ctx = " (" + s.desc + fmt(", %dD row size %d)", nd, rs);
    State_variables sv; Pressure pf; Jacobian_det_func jd; Position_func posf; Velocity vf;
    std::vector<std::vector<const Qpoint_func*>> choices {{&sv}, {&sv, &pf}, {&jd, &sv, &vf}, {&pf}};
    Qf_concat func(choices[rng.below(choices.size())]);
    int nv = func.n_var(nd);
    auto nodal = [&](Element& e, const Qpoint_func& fn) {
      int n = fn.n_var(nd);
      std::vector<double> v(n*nq);
      for (int q = 0; q < nq; ++q) {auto r = fn(e, basis, q, time); for (int i = 0; i < n; ++i) v[i*nq + q] = r[i];}
      return v;
    };
    auto bigness = [&](const std::vector<double>& v, int i) {double b = 1e-300; for (int q = 0; q < nq; ++q) b = std::max(b, std::abs(v[i*nq + q])); return b;};
    // edge `i` of a cell: direction, and which side in the other dimensions (last fastest)
    auto edge_point = [&](int i, double t) {
      int n_per = 1 << (nd - 1), dir = i/n_per, side = i%n_per;
      std::vector<double> p(nd);
      for (int d = nd - 1; d >= 0; --d) {if (d == dir) p[d] = t; else {p[d] = side%2; side /= 2;}}
      return p;
    };
    // ---- sampling of single cells
    for (int rep = 0; rep < 4; ++rep) {
      auto& e = els[rng.below(els.size())];
      m.phase("vis data");
      Vis_data vd(e, func, basis, time);
      auto v = nodal(e, func);
      for (int i = 0; i < nv*nq; ++i) m.check(vd.qpoints()(i) == v[i], "qpoints", "value at quadrature point" + ctx);
      int n = rng.range(2, 6);
      auto judge = [&](std::string what, double got, int var, const std::vector<double>& at) {
        m.worst(std::abs(got - double(full(v.data() + var*nq, at)))/bigness(v, var), 1e-10, what, [&] {return fmt("variable %d at (%g...) is %.17g, not %.17g", var, at[0], got, double(full(v.data() + var*nq, at))) + ctx;});
      };
      auto in = vd.interior(n);
      auto g = grid(nd, n);
      m.check(in.size() == int(g.size())*nv, "interior-size", ctx);
      for (int k = 0; k < nv; ++k) for (unsigned p = 0; p < g.size(); ++p) judge("interior", in(k*g.size() + p), k, g[p]);
      if (nd > 1) {
        int n_edge = nd*(1 << (nd - 1));
        auto ed = vd.edges(n);
        m.check(ed.size() == n_edge*nv*n, "edges-size", ctx);
        for (int i = 0; i < n_edge; ++i) for (int k = 0; k < nv; ++k) for (int p = 0; p < n; ++p) judge("edges", ed((i*nv + k)*n + p), k, edge_point(i, double(p)/(n - 1)));
        for (int i_dim = 0; i_dim < nd; ++i_dim) for (int sign = 0; sign < 2; ++sign) {
          auto fc = vd.face(i_dim, sign, n);
          auto gf = grid(nd - 1, n);
          m.check(fc.size() == int(gf.size())*nv, "face-size", ctx);
          for (int k = 0; k < nv; ++k) for (unsigned p = 0; p < gf.size(); ++p) {
            auto at = gf[p]; at.insert(at.begin() + i_dim, double(sign));
            judge("face", fc(k*gf.size() + p), k, at);
          }
        }
      }
      Mat<dyn, dyn> at(nd, 3);
      for (int j = 0; j < 3; ++j) for (int d = 0; d < nd; ++d) at(d, j) = rng.range(0, 9) ? rng.uniform(0, 1) : double(rng.below(2));
      auto sm = vd.sample(at);
      for (int j = 0; j < 3; ++j) for (int k = 0; k < nv; ++k) {std::vector<double> p; for (int d = 0; d < nd; ++d) p.push_back(at(d, j)); judge("sample", sm(k, j), k, p);}
      m.flush_worst();
      // contours of a function that is linear in space
      if (nd > 1) {
        m.phase("contour");
        Linear_qf lin; lin.c = Mat<>(nd); lin.c0 = rng.normal();
        for (int d = 0; d < nd; ++d) lin.c(d) = rng.normal()/e.nominal_size();
        auto lv = nodal(e, lin);
        auto pv = nodal(e, posf);
        double value = full(lv.data(), std::vector<double>(nd, rng.uniform(.2, .8)));
        int n_div = rng.range(3, 8);
        Vis_data lvd(e, lin, basis, time);
        auto con = lvd.compute_contour(value, n_div, 8);
        double span = 0, lo = 1e300, hi = -1e300;
        bool regular = true;
        for (int q = 0; q < nq; ++q) if (!(e.jacobian_determinant(q) > .2)) regular = false;
        for (auto& p : g) {double x = full(lv.data(), p); lo = std::min(lo, x); hi = std::max(hi, x);}
        span = hi - lo;
        int nvert = con.vert_ref_coords.rows();
        m.check(con.normals.rows() == nvert && con.normals.cols() == nd && con.vert_ref_coords.cols() == nd, "contour-size", ctx);
        for (int i = 0; i < con.elem_vert_inds.size(); ++i) m.check(con.elem_vert_inds.data()[i] >= 0 && con.elem_vert_inds.data()[i] < nvert, "contour-index", ctx);
        m.check(con.elem_vert_inds.cols() == 1 << (nd - 1) || !con.elem_vert_inds.size(), "contour-element", ctx);
        if (regular && !e.get_is_deformed() && span > .1) {
          m.check(nvert > 0, "contour-missing", fmt("no contour of %g in [%g, %g]", value, lo, hi) + ctx);
          for (int i = 0; i < nvert; ++i) {
            std::vector<double> p; for (int d = 0; d < nd; ++d) p.push_back(con.vert_ref_coords(i, d));
            bool slanted = true; // vertices that would leave the cell or hit the step limit along an axis nearly parallel to the contour are only improved
            for (int d = 0; d < nd; ++d) if (p[d] < -.5/n_div || p[d] > 1 + .5/n_div) slanted = false;
            if (!slanted) {m.count("contour-outside"); continue;}
            double err = std::abs(double(full(lv.data(), p)) - value)/span;
            m.count("contour-vertices");
            m.worst(err, 1e-3, "contour-value", [&] {return fmt("contour vertex (%g, %g...) is off by %g of the range", p[0], p[1], err) + ctx;});
            Mat<> nn = con.normals(i, all).transpose();
            m.worst((nn - lin.c.normalized()).norm(), 1e-6, "contour-normal", [&] {return ctx;});
          }
          double tot = 0;
          for (int i = 0; i < con.elem_vert_inds.rows(); ++i) {
            auto vert = [&](int k) {Mat<> r = con.vert_ref_coords(con.elem_vert_inds(i, k), all).transpose(); return r;};
            double area;
            Mat<> nrm = lin.c.normalized();
            if (nd == 2) {Mat<> t = vert(1) - vert(0); area = t(1)*nrm(0) - t(0)*nrm(1);}
            else {Mat<3> d0 = vert(3) - vert(0), d1 = vert(2) - vert(1), n3 = nrm; area = .5*d0.cross(d1).dot(n3);}
m.checkf((nd == 2 ? -area : area) < .05/math::pow(n_div, nd - 1), "contour-orientation", [&] {return fmt("element with area %g in a contour with n_div %d", area, n_div) + ctx;});
            tot += area;
          }
          // area of the plane inside the cell, by slicing
          double exact = 0;
          {
            Mat<> nrm = lin.c.normalized();
            int big; nrm.cwiseAbs().maxCoeff(&big);
            const int ns = nd == 2 ? 4000 : 200;
            Mat<> corner = vec(els[0].position(basis, 0)); (void)corner;
            double f0 = full(lv.data(), std::vector<double>(nd, 0.)), c_ref[3];
            for (int d = 0; d < nd; ++d) {std::vector<double> p(nd, 0.); p[d] = 1; c_ref[d] = double(full(lv.data(), p)) - f0;}
            for (int i = 0; i < math::pow(ns, nd - 1); ++i) {
              double r = value - f0; int k = i;
              for (int d = 0; d < nd; ++d) if (d != big) {r -= c_ref[d]*(k%ns + .5)/ns; k /= ns;}
              r /= c_ref[big];
              if (r >= 0 && r <= 1) exact += 1./math::pow(ns, nd - 1)/std::abs(nrm(big));
            }
          }
          m.worst(std::abs(std::abs(tot) - exact)/(exact + .1), .02, "contour-area", [&] {return fmt("area %g instead of %g n_div %d", tot, exact, n_div) + ctx;});
          m.count("contours");
        }
      }
      m.flush_worst();
    }
    if (nd == 1) return;
    // ---- files
    std::string path = (dir.dir/"field").string();
    int n = rng.range(2, 5);
    bool wire = rng.chance(.4);
    m.phase("visualize_field");
    s.sol->visualize_field("xdmf", path, func, n, wire);
    {
      std::vector<Block_data> want;
      auto g = grid(nd, n);
      for (int i = 0; i < els.size(); ++i) {
        auto v = nodal(els[i], func), pv = nodal(els[i], posf);
        auto block = [&](const std::vector<std::vector<double>>& pts) {
          Block_data b;
          for (int d = 0; d < nd; ++d) for (auto& p : pts) b.pos.push_back(full(pv.data() + d*nq, p));
          for (int k = 0; k < nv; ++k) for (auto& p : pts) b.var.push_back(full(v.data() + k*nq, p));
          want.push_back(b);
        };
        if (wire) for (int e = 0; e < nd*(1 << (nd - 1)); ++e) {std::vector<std::vector<double>> pts; for (int p = 0; p < n; ++p) pts.push_back(edge_point(e, double(p)/(n - 1))); block(pts);}
        else block(g);
      }
      judge_file(m, path, nd, wire ? 1 : nd, n, want, func, time, len, wire ? "field-edges" : "field", ctx);
    }
    // ---- surfaces
    std::vector<int> sns;
    for (auto& p : s.rec_of_sn) sns.push_back(p.first);
    if (sns.empty()) return;
    int sn = rng.pick(sns);
    wire = nd == 3 && rng.chance(.4);
    Surf_func sf; sf.nd = nd;
    int ns = sf.n_var(nd);
    path = (dir.dir/"surf").string();
    m.phase("visualize_surface");
    Interp face(nd - 1, rs, basis);
    s.sol->integral_surface(sf, sn); // brings the state on the faces up to date
    s.sol->visualize_surface("xdmf", path, sn, sf, n, wire);
    {
      std::vector<Block_data> want;
      auto& cons = s.mesh->boundary_connections();
      for (int i = 0; i < cons.size(); ++i) {
        auto& c = cons[i];
        if (c.bound_cond_serial_n() != sn) continue;
        auto& e = c.element();
        int i_face = c.direction().i_face(0);
        auto pv = nodal(e, posf);
        std::vector<double> v(ns*nfq);
        for (int q = 0; q < nfq; ++q) {auto r = sf(c, q, time); for (int k = 0; k < ns; ++k) v[k*nfq + q] = r[k];}
        auto block = [&](const std::vector<std::vector<double>>& pts) {
          Block_data b;
          for (int d = 0; d < nd; ++d) for (auto& p : pts) {auto at = p; at.insert(at.begin() + i_face/2, double(i_face%2)); b.pos.push_back(full(pv.data() + d*nq, at));}
          for (int k = 0; k < ns; ++k) for (auto& p : pts) b.var.push_back(face(v.data() + k*nfq, p));
          want.push_back(b);
        };
        if (wire) {
          for (int d = 0; d < 2; ++d) for (int sign = 0; sign < 2; ++sign) {
            std::vector<std::vector<double>> pts;
            for (int p = 0; p < n; ++p) {std::vector<double> x{double(p)/(n - 1)}; x.insert(x.begin() + d, double(sign)); pts.push_back(x);}
            block(pts);
          }
        } else block(grid(nd - 1, n));
      }
      if (want.empty()) {m.count("empty-surfaces"); return;}
      judge_file(m, path, nd, wire ? 1 : nd - 1, n, want, sf, time, len, wire ? "surface-edges" : "surface", ctx);
    }
    m.count(fmt("%dd", nd)); m.count("scene:" + o.kind);
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  run(m);
  return m.finish();
}
