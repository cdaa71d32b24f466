// monitors of files: mesh and state round trips, restarts
#include "flow.hpp"
#include "meshmon.hpp"
#include <config.hpp>
#include <cstring>
#include <fstream>
#include <iterator>
#include <sstream>
#include <filesystem>
#include <set>

using namespace scene;
using mon::Monitor;

static int max_rs = config::max_row_size;

//! index-based description of everything a mesh consists of, apart from positions
struct Graph
{
  std::vector<std::vector<int>> elems;    // level, deformed, nominal position, has tree
  std::vector<std::vector<int>> verts;    // vertex ids (canonical) of each element
  std::multiset<std::vector<int>> conf, refd, bound;
  std::vector<std::array<double, 3>> pos; // by canonical vertex id
  std::vector<std::vector<double>> adjust;
  std::set<std::vector<int>> tree;        // status and element of every cell
};

static Graph describe(Accessible_mesh& m, int nd, int nfq)
{
  Graph g;
  std::map<Element*, int> id;
  std::map<Vertex*, int> vid;
  for (int i = 0; i < m.elements().size(); ++i) {
    Element& e = m.elements()[i];
    id[&e] = i;
    std::vector<int> d {e.refinement_level(), e.get_is_deformed(), bool(e.tree)};
    for (int x : e.nominal_position()) d.push_back(x);
    g.elems.push_back(d);
    std::vector<int> v;
    for (int j = 0; j < math::pow(2, nd); ++j) {
      auto it = vid.insert({&e.vertex(j), int(vid.size())});
      if (it.second) g.pos.push_back({e.vertex(j).pos(0), e.vertex(j).pos(1), e.vertex(j).pos(2)});
      v.push_back(it.first->second);
    }
    g.verts.push_back(v);
    g.adjust.push_back({});
    if (double* a = e.node_adjustments()) g.adjust.back().assign(a, a + 2*nd*nfq);
    if (Tree* t = e.tree.get()) {
      std::vector<int> c {i, t->get_status(), t->refinement_level(), t->is_leaf()};
      for (int d = 0; d < nd; ++d) c.push_back(t->coordinates()(d));
      g.tree.insert(c);
    }
  }
  auto add = [&](auto& cons) {
    for (int i = 0; i < cons.size(); ++i) {
      auto& c = cons[i];
      Connection_direction dir = c.get_direction();
      // the order of the sides means nothing
      std::vector<std::vector<int>> s;
      for (int k : {0, 1}) s.push_back({id.at(&c.element(k)), dir.i_dim[k], dir.face_sign[k]});
      std::sort(s.begin(), s.end());
      g.conf.insert({s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2]});
    }
  };
  add(m.cartesian().element_connections());
  add(m.deformed().element_connections());
  for_refined(m, [&](Element& coarse, std::vector<Element*> fine, Connection_direction dir, bool rev, bool is_def) {
    std::vector<int> r {is_def, id.at(&coarse), dir.i_dim[rev], dir.face_sign[rev], dir.i_dim[!rev], dir.face_sign[!rev]};
    for (Element* f : fine) r.push_back(id.at(f)); // which quarter of the face each one touches matters
    g.refd.insert(r);
  });
  auto& bc = m.boundary_connections();
  for (int i = 0; i < bc.size(); ++i) g.bound.insert({id.at(&bc[i].element()), bc[i].i_dim(), bc[i].inside_face_sign(), bc[i].bound_cond_serial_n()});
  return g;
}

//! all tree cells, including those without elements
static std::set<std::vector<int>> tree_cells(Accessible_mesh& m, int nd)
{
  std::set<std::vector<int>> s;
  Tree* root = nullptr;
  for (int i = 0; i < m.elements().size() && !root; ++i) if (m.elements()[i].tree) root = m.elements()[i].tree.get();
  if (!root) return s;
  root = root->root();
  std::function<void(Tree*)> rec = [&](Tree* t) {
    std::vector<int> c {t->refinement_level(), t->get_status(), bool(t->elem)};
    for (int d = 0; d < nd; ++d) c.push_back(t->coordinates()(d));
    s.insert(c);
    for (Tree* k : t->children()) rec(k);
  };
  rec(root);
  return s;
}

template <typename set>
static std::string diff(const set& x, const set& y)
{
  std::string s = fmt("%d vs %d: ", int(x.size()), int(y.size()));
  for (auto& v : x) if (!y.count(v)) {s += "only before:"; for (int k : v) s += fmt(" %d", k); break;}
  for (auto& v : y) if (!x.count(v)) {s += " only after:"; for (int k : v) s += fmt(" %d", k); break;}
  return s + " ";
}

static bool compare(Monitor& m, const Graph& a, const Graph& b, const std::string& tag, const std::string& ctx)
{
  bool ok = m.checkf(a.elems == b.elems, tag + "elements", [&] {
    std::string s = fmt("%d vs %d elements ", int(a.elems.size()), int(b.elems.size()));
    for (size_t i = 0; i < std::min(a.elems.size(), b.elems.size()); ++i) if (a.elems[i] != b.elems[i]) {s += fmt("first difference at %d ", int(i)); break;}
    return s + ctx;});
  if (!ok) return false;
  ok = m.checkf(a.verts == b.verts, tag + "vertex-sharing", [&] {
    size_t i = 0;
    while (a.verts[i] == b.verts[i]) ++i;
    return fmt("%d vertices became %d; first difference at element %d ", int(a.pos.size()), int(b.pos.size()), int(i)) + ctx;});
  // coincident vertices are merged by averaging their positions, so there may be roundoff
  double scale = 0;
  for (auto& p : a.pos) for (double x : p) scale = std::max(scale, std::abs(x));
  bool same_pos = a.pos.size() == b.pos.size();
  for (size_t i = 0; ok && i < a.pos.size(); ++i) for (int d = 0; d < 3; ++d) same_pos = same_pos && std::abs(a.pos[i][d] - b.pos[i][d]) <= 4e-15*(std::abs(a.pos[i][d]) + scale);
  if (ok) m.checkf(same_pos, tag + "vertex-positions", [&] {
    for (size_t i = 0; i < a.pos.size(); ++i) if (a.pos[i] != b.pos[i]) return fmt("vertex %d at (%.17g, %.17g, %.17g) read back as (%.17g, %.17g, %.17g) ", int(i), a.pos[i][0], a.pos[i][1], a.pos[i][2], b.pos[i][0], b.pos[i][1], b.pos[i][2]) + ctx;
    return ctx;});
  m.checkf(a.adjust == b.adjust, tag + "face-warping", [&] {return ctx;});
  m.checkf(a.tree == b.tree, tag + "tree", [&] {return diff(a.tree, b.tree) + ctx;});
  bool con = m.checkf(a.conf == b.conf, tag + "connections", [&] {return diff(a.conf, b.conf) + ctx;});
  con = m.checkf(a.refd == b.refd, tag + "hanging-connections", [&] {return diff(a.refd, b.refd) + ctx;}) && con;
  con = m.checkf(a.bound == b.bound, tag + "boundary-connections", [&] {return diff(a.bound, b.bound) + ctx;}) && con;
  m.count("elements-compared", a.elems.size());
  m.count("hanging-compared", a.refd.size());
  for (auto& x : a.adjust) for (double y : x) if (y) {m.count("warped-elements"); break;}
  return ok && con;
}

//! a function of position and time only, in any of the places that take a surface function
struct Pos_func : public Surface_func
{
  Flow_field f;
  Pos_func(Flow_field ff) : f{ff} {}
  int n_var(int) const override {return f.nd + 2;}
  std::vector<double> operator()(std::vector<double> pos, double, std::vector<double>, std::vector<double>) const override
  {
    Mat<> u = f.cons(f.prim(pos));
    return std::vector<double>(u.data(), u.data() + u.size());
  }
};

static std::string scratch(const Monitor& m)
{
  static std::string dir;
  if (dir.empty()) {
    std::string t = (std::filesystem::temp_directory_path()/"hexed_file_XXXXXX").string();
    dir = mkdtemp(t.data());
  }
  return dir;
}

static std::vector<double> all_state(Flow_scene& s)
{
  std::vector<double> v;
  for (int i = 0; i < s.elems().size(); ++i) v.insert(v.end(), s.elems()[i].state(), s.elems()[i].state() + (s.nd + 2)*s.nq());
  return v;
}

static void run_restart(Monitor& m)
{
  m.run([&](Rng& rng, int icase) {
    Scene_opts o;
    o.nd = rng.chance(.15) ? 1 : rng.chance(.6) ? 2 : 3;
    o.rs = rng.range(2, max_rs);
    o.kind = o.nd == 1 ? "tree" : rng.pick(std::vector<std::string>{"tree", "surf", "surf"});
    Flow_field field = random_field(rng, o.nd, 1., Mat<>::Zero(3));
    const Flow_field bfield = field;
    uint64_t bseed = rng.next();
    o.global_dt = rng.chance(.5);
    bool visc = rng.chance(.4);
    Transport_model tr[2] {inviscid, inviscid};
    std::unique_ptr<Transport_model> tv, tc;
    o.bc = [&](int side, std::string& n) -> Flow_bc* {
      Rng r(mon::mix(bseed, side));
      if (r.chance(.15)) {n = "cache"; return new Cache_bc(new Pos_func(bfield));}
      if (r.chance(.1)) {n = "function"; static std::vector<std::unique_ptr<Pos_func>> keep; keep.emplace_back(new Pos_func(bfield)); return new Function_bc(*keep.back());}
      return random_bc(r, bfield, n);
    };
    uint64_t tseed = rng.next();
    if (visc) o.transport = [&](double root, bool cond) {Rng r(tseed + cond); return random_transport(r, field, root, cond);};
    m.phase("make");
    Rng scene_rng(rng.next());
    auto sp = make_scene(scene_rng, o);
    Flow_scene& a = *sp;
    if (!a.mesh->n_elements()) {m.count("empty-mesh"); return;} // everything is inside the body
    field.len = a.root;
    for (int d = 0; d < a.nd; ++d) field.org(d) = mesh_origin(a)(d);
    a.sol->initialize(field);
    std::string ctx = a.desc;
    int n_up = rng.below(4);
    bool flows = healthy(a);
    if (flows) {
      m.phase("update " + ctx);
      for (int i = 0; i < n_up; ++i) {a.sol->update(); if (!healthy(a)) {flows = false; break;}}
    }
    // a local artificial viscosity etc. is not part of the state; here there is none
    std::string file = scratch(m) + "/c";
    m.phase("write " + ctx);
    bool weird = rng.chance(.3);
    std::vector<double> special {0., -0., 1e-310, std::numeric_limits<double>::denorm_min(), 1e300, -1e300, INFINITY, -INFINITY, NAN, 1/3.};
    std::vector<double> saved = all_state(a);
    if (weird) for (int i = 0; i < a.elems().size(); ++i) for (int k = 0; k < (a.nd + 2)*a.nq(); ++k) if (rng.chance(.3)) a.elems()[i].state()[k] = rng.pick(special);
    std::vector<double> before = all_state(a);
    Graph ga = describe(*a.mesh, a.nd, a.nq()/a.rs);
    auto ta = tree_cells(*a.mesh, a.nd);
    a.sol->mesh().write(file);
    a.sol->write_state(file);
    m.check(all_state(a).size() == before.size() && !std::memcmp(all_state(a).data(), before.data(), before.size()*8), "writing-changes-nothing", ctx);
    if (weird) { // back to the flow
      for (int i = 0; i < a.elems().size(); ++i) std::memcpy(a.elems()[i].state(), saved.data() + i*(a.nd + 2)*a.nq(), 8*(a.nd + 2)*a.nq());
    }
    // read it into another solver
    m.phase("read " + ctx);
    auto bp = std::make_unique<Flow_scene>();
    Flow_scene& b = *bp;
    b.nd = a.nd; b.rs = a.rs; b.root = a.root; b.kind = a.kind; b.tree = a.tree;
    Transport_model v = o.transport ? o.transport(a.root, false) : inviscid;
    Transport_model c = o.transport ? o.transport(a.root, true) : inviscid;
    b.sol.reset(new Solver(o.nd, o.rs, a.root*rng.pick(std::vector<double>{1., 1., 3.}), !o.global_dt, v, c, b.space, b.out));
    std::vector<Flow_bc*> bcs;
    std::string dummy;
    for (int i = 0; i < 2*a.nd; ++i) bcs.push_back(new Rec_bc(o.bc(i, dummy), dummy));
    if (a.tree.has_surf) b.sol->read_mesh(file, bcs, a.tree.surf.make(), new Rec_bc(o.bc(2*a.nd, dummy), dummy));
    else b.sol->read_mesh(file, bcs);
    b.mesh = dynamic_cast<Accessible_mesh*>(&b.sol->mesh());
    b.sol->read_state(file);
    Graph gb = describe(*b.mesh, b.nd, b.nq()/b.rs);
    if (!compare(m, ga, gb, "", ctx)) return;
    m.checkf(tree_cells(*b.mesh, b.nd) == ta, "tree-cells", [&] {return diff(ta, tree_cells(*b.mesh, b.nd)) + ctx;});
    m.check(b.mesh->root_size() == a.root, "root-size", ctx);
    if (a.tree.has_surf) m.check(b.mesh->surface_bc_sn() == a.mesh->surface_bc_sn(), "surface-bc", ctx);
    check_topology(m, *b.mesh, b.nd, nullptr, "read mesh of " + ctx);
    auto after = all_state(b);
    m.check(after.size() == before.size() && !std::memcmp(after.data(), before.data(), before.size()*8), "state-bits", ctx);
    m.count("state-values", before.size());
    if (weird) {
      for (int i = 0; i < b.elems().size(); ++i) std::memcpy(b.elems()[i].state(), saved.data() + i*(a.nd + 2)*a.nq(), 8*(a.nd + 2)*a.nq());
      m.count("weird-values");
    }
    // geometry
    {
      bool same_geom = true, same_tss = true;
      std::string tss_msg;
      double worst = 0;
      Gauss_legendre basis(a.rs);
      for (int i = 0; i < a.elems().size(); ++i) {
        Element &x = a.elems()[i], &y = b.elems()[i];
        for (int q = 0; q < a.nq(); ++q) {
          if (!(std::abs(x.jacobian_determinant(q)) > 1e-6) || !(std::abs(y.jacobian_determinant(q)) > 1e-6)) {m.count("degenerate-nodes"); continue;}
          auto p = x.position(basis, q), r = y.position(basis, q);
          for (int d = 0; d < a.nd; ++d) worst = std::max(worst, std::abs(p[d] - r[d])/a.root);
          for (int d = 0; d < a.nd; ++d) for (int e = 0; e < a.nd; ++e) {double z = std::abs(x.jacobian(d, e, q) - y.jacobian(d, e, q)); if (!(z <= 1e-11) && same_geom) tss_msg = fmt("element %d jacobian %d,%d node %d: %.17g vs %.17g ", i, d, e, q, x.jacobian(d, e, q), y.jacobian(d, e, q)); same_geom = same_geom && z <= 1e-11;}
        }
        for (int k = 0; k < math::pow(2, a.nd); ++k) {
          double tx = x.vertex_time_step_scale(k), ty = y.vertex_time_step_scale(k);
          bool st = std::abs(tx - ty) <= 1e-10*std::abs(tx) + 1e-13*x.nominal_size() || (std::isnan(tx) && std::isnan(ty));
          if (!st && same_tss) tss_msg = fmt("element %d vertex %d: %.17g vs %.17g, nominal size %g ", i, k, tx, ty, x.nominal_size());
          same_tss = same_tss && st;
        }
        if (x.get_is_deformed()) for (int f = 0; f < 2*a.nd; ++f) {
          double *nx = static_cast<Deformed_element&>(x).face_normal(f), *ny = static_cast<Deformed_element&>(y).face_normal(f);
          m.check(bool(nx) == bool(ny), "normal-present", ctx);
          if (nx && ny) for (int k = 0; k < a.nd*a.nq()/a.rs; ++k) same_geom = same_geom && std::abs(nx[k] - ny[k]) <= 1e-11;
        }
      }
      m.check(same_geom, "jacobians", tss_msg + ctx);
      m.close(worst, 1e-12, "node-positions", ctx);
      m.check(same_tss, "spacing", tss_msg + ctx);
    }
    // the restarted simulation continues like the original one
    // (only right after initialisation or an update, and if the original wasn't disturbed)
    uint64_t h = mon::mix(mon::hash_str(ctx), a.mesh->n_elements());
    if (flows && !weird) {
      m.phase("continue " + ctx);
      b.space->assign("flow_time", a.space->lookup<double>("flow_time").value());
      Mat<> sc = state_scale(field);
      auto dist = [&](double* (Element::*what)(), bool scaled) {
        double w = 0;
        for (int i = 0; i < a.elems().size(); ++i) {
          double *x = (a.elems()[i].*what)(), *y = (b.elems()[i].*what)();
          for (int k = 0; k < (a.nd + 2)*a.nq(); ++k) {double d = std::abs(x[k] - y[k])/(scaled ? sc(k/a.nq()) : 1.); if (!(d <= w)) w = d;}
        }
        return w;
      };
      int n2 = rng.range(1, 4);
      bool ok = true;
      for (int i = 0; i < n2 && ok; ++i) {
        a.sol->update(); b.sol->update();
        ok = healthy(a);
        if (!ok) break;
        double dta = a.space->lookup<double>("time_step").value(), dtb = b.space->lookup<double>("time_step").value();
        ok = m.close((dta - dtb)/dta, 1e-10, i ? "continued-time-step" : "first-time-step", ctx) && ok;
        ok = m.close(dist(&Element::state, true), 1e-10, i ? "continued-state" : "first-state", fmt("after %d updates before and %d after the restart ", n_up, i + 1) + ctx) && ok;
        m.count("continued-updates");
      }
    }
    // the restarted mesh adapts like the original one
    if (rng.chance(.7)) {
      m.phase("adapt " + ctx);
      auto ad = random_adapt(rng, *a.mesh, a.tree);
      bool ua = a.mesh->update(ad.ref, ad.unref), ub = b.mesh->update(ad.ref, ad.unref);
      m.check(ua == ub, "adapted-return", ad.desc + " " + ctx);
      std::string c2 = ad.desc + " after restart of " + ctx;
      bool same = mesh_hash(*a.mesh, a.nd) == mesh_hash(*b.mesh, b.nd) && a.mesh->n_elements() == b.mesh->n_elements();
      if (m.check(same, "adapted-elements", fmt("%d vs %d elements ", a.mesh->n_elements(), b.mesh->n_elements()) + c2)) {
        check_topology(m, *b.mesh, b.nd, nullptr, c2);
        // same set of vertex positions
        auto verts = [&](Flow_scene& s) {
          std::vector<std::array<double, 3>> p;
          auto v = s.mesh->vertices();
          for (int i = 0; i < int(v.size()); ++i) p.push_back({v[i].pos(0)/a.root, v[i].pos(1)/a.root, v[i].pos(2)/a.root});
          return p;
        };
        auto va = verts(a), vb = verts(b);
        if (m.check(va.size() == vb.size(), "adapted-vertex-count", fmt("%d vs %d ", int(va.size()), int(vb.size())) + c2)) {
          double worst = 0;
          std::string wm;
          // nearest partner, through a sorted list
          std::sort(vb.begin(), vb.end());
          for (auto& p : va) {
            double best = 1e100;
            auto it = std::lower_bound(vb.begin(), vb.end(), std::array<double, 3>{p[0] - 1e-2, -1e300, -1e300});
            for (; it != vb.end() && (*it)[0] <= p[0] + 1e-2; ++it) best = std::min(best, std::abs((*it)[0] - p[0]) + std::abs((*it)[1] - p[1]) + std::abs((*it)[2] - p[2]));
            if (best > worst) wm = fmt("(%.17g, %.17g, %.17g) off by %g ", p[0], p[1], p[2], best);
            worst = std::max(worst, best);
          }
          m.close(worst, 1e-8, "adapted-positions", wm + c2);
        }
        m.count("adapted");
      }
    }
    m.count("restarts-" + a.kind);
    m.evaluated(h, a.mesh->n_elements() > 1);
    m.sample(ctx);
  });
  std::filesystem::remove_all(scratch(m));
}

//! meshes without a tree: arbitrary connections in one file
static void run_block(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Scene_opts o;
    o.nd = rng.chance(.4) ? 2 : 3;
    o.rs = rng.range(2, max_rs);
    o.kind = "block";
    o.bc = [](int, std::string& n) {n = "copy"; return new Copy;};
    auto sp = make_scene(rng, o);
    Flow_scene& a = *sp;
    std::string file = scratch(m) + "/b";
    // some warping
    for (int i = 0; i < a.elems().size(); ++i) if (double* adj = a.elems()[i].node_adjustments()) if (rng.chance(.3)) for (int k = 0; k < 2*a.nd*a.nq()/a.rs; ++k) adj[k] = rng.uniform(-.01, .01);
    Graph ga = describe(*a.mesh, a.nd, a.nq()/a.rs);
    m.phase("write " + a.desc);
    a.mesh->write(file);
    std::vector<Flow_bc*> fb; std::vector<Mesh_bc*> mb;
    for (int i = 0; i < 2*a.nd; ++i) {fb.push_back(new Copy); mb.push_back(new Null_mbc);}
    m.phase("read " + a.desc);
    Accessible_mesh b(file, fb, mb);
    compare(m, ga, describe(b, a.nd, a.nq()/a.rs), "block-", a.desc);
    m.checkf(bool(b.valid()), "block-valid", [&] {return a.desc;});
    // again
    b.write(file + "2");
    fb.clear(); mb.clear();
    for (int i = 0; i < 2*a.nd; ++i) {fb.push_back(new Copy); mb.push_back(new Null_mbc);}
    Accessible_mesh c(file + "2", fb, mb);
    compare(m, ga, describe(c, a.nd, a.nq()/a.rs), "block-twice-", a.desc);
    m.count("blocks");
    m.evaluated(mon::hash_str(a.desc), true);
  });
  std::filesystem::remove_all(scratch(m));
}

// ------------------------------------------------------------------ OpenFOAM export
struct Foam
{
  std::string cls, note;
  std::vector<std::string> entries;
};
static Foam read_foam(Monitor& m, std::string path, const std::string& ctx)
{
  std::ifstream f(path);
  Foam r;
  std::string text((std::istreambuf_iterator<char>(f)), {});
  auto get = [&](std::string key) {
    auto at = text.find("\n    " + key + " ");
    if (at == std::string::npos) return std::string();
    at += key.size() + 6;
    return text.substr(at, text.find(';', at) - at);
  };
  r.cls = get("class"); r.note = get("note");
  std::string base = path.substr(path.rfind('/') + 1);
  m.checkf(get("object") == base && get("format") == "ascii", "foam-header", [&] {return base + " " + ctx;});
  auto at = text.find("\n}\n");
  if (!m.checkf(at != std::string::npos, "foam-parse", [&] {return base + " " + ctx;})) return r;
  std::istringstream ss(text.substr(at + 3));
  long n; char c;
  ss >> n >> c;
  std::string line;
  std::getline(ss, line);
  for (long i = 0; i < n && std::getline(ss, line); ++i) r.entries.push_back(line);
  std::string last;
  std::getline(ss, last);
  m.checkf(long(r.entries.size()) == n && c == '(' && last == ")", "foam-list", [&] {return base + fmt(" says %ld has %d entries ", n, int(r.entries.size())) + ctx;});
  return r;
}

//! vector area and volume flux (integral of x.n/3 dA) of the bilinear surface through 4 points
static void bilinear(const Mat<3>* p, const Mat<3>& o, Mat<3>& area, double& vol)
{
  static const double g[2] {.5 - .5/std::sqrt(3.), .5 + .5/std::sqrt(3.)};
  area.setZero(); vol = 0;
  for (double u : g) for (double v : g) {
    Mat<3> x = (1 - u)*(1 - v)*p[0] + u*(1 - v)*p[1] + u*v*p[2] + (1 - u)*v*p[3] - o;
    Mat<3> xu = (1 - v)*(p[1] - p[0]) + v*(p[2] - p[3]);
    Mat<3> xv = (1 - u)*(p[3] - p[0]) + u*(p[2] - p[1]);
    Mat<3> n = xu.cross(xv)/4;
    area += n;
    vol += x.dot(n)/3;
  }
}
static double hex_volume(Element& e)
{
  static const double g[2] {.5 - .5/std::sqrt(3.), .5 + .5/std::sqrt(3.)};
  double vol = 0;
  for (double a : g) for (double b : g) for (double c : g) {
    double r[3] {a, b, c};
    Mat<3, 3> j = Mat<3, 3>::Zero();
    for (int v = 0; v < 8; ++v) for (int d = 0; d < 3; ++d) {
      double w = 1;
      for (int k = 0; k < 3; ++k) {int s = (v >> (2 - k)) & 1; w *= k == d ? 2*s - 1 : s ? r[k] : 1 - r[k];}
      j.col(d) += w*e.vertex(v).pos;
    }
    vol += j.determinant()/8;
  }
  return vol;
}

static void run_poly(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    Scene_opts o;
    o.nd = rng.chance(.05) ? 2 : 3;
    o.rs = 2;
    o.kind = rng.pick(std::vector<std::string>{"block", "tree", "surf", "surf"});
    o.bc = [](int, std::string& n) {n = "copy"; return new Copy;};
    m.phase("make");
    auto sp = make_scene(rng, o);
    Flow_scene& s = *sp;
    if (!s.mesh->n_elements()) {m.count("empty-mesh"); return;}
    if (s.kind != "block") for (int i = rng.below(3); i > 0; --i) {
      auto a = random_adapt(rng, *s.mesh, s.tree);
      s.mesh->update(a.ref, a.unref);
      if (rng.chance(.5)) s.mesh->relax(.5);
      s.desc += "; " + a.desc;
    }
    if (!s.mesh->n_elements()) {m.count("empty-mesh"); return;}
    std::string dir = scratch(m) + "/";
    m.phase("export " + s.desc);
    if (s.nd != 3) {
      bool threw = false;
      try {s.mesh->export_polymesh(dir);} catch (const std::exception&) {threw = true;}
      m.check(threw, "not-3d-rejected", s.desc);
      return;
    }
    s.mesh->export_polymesh(dir);
    const std::string& ctx = s.desc;
    dir += "polyMesh/";
    Foam pts = read_foam(m, dir + "points", ctx), fac = read_foam(m, dir + "faces", ctx), own = read_foam(m, dir + "owner", ctx), nei = read_foam(m, dir + "neighbour", ctx), bnd = read_foam(m, dir + "boundary", ctx);
    m.check(pts.cls == "vectorField" && fac.cls == "faceList" && own.cls == "labelList" && nei.cls == "labelList" && bnd.cls == "polyBoundaryMesh", "foam-classes", ctx);
    auto& elems = s.mesh->elements();
    int n_cell = elems.size(), n_face = fac.entries.size(), n_int = nei.entries.size();
    auto& bc = s.mesh->boundary_connections();
    auto& ec = s.mesh->element_connections();
    m.checkf(n_int == ec.size() && n_face == n_int + bc.size() && int(own.entries.size()) == n_face, "face-count", [&] {return fmt("%d faces %d internal %d owners ", n_face, n_int, int(own.entries.size())) + ctx;});
    int np, nc, nf, ni;
    m.check(sscanf(own.note.c_str(), "\"nPoints:%i nCells:%i nFaces:%i nInternalFaces:%i", &np, &nc, &nf, &ni) == 4 && np == int(pts.entries.size()) && nc == n_cell && nf == n_face && ni == n_int, "note", own.note + " " + ctx);
    // points: exactly the vertices
    std::vector<Mat<3>> p;
    std::map<std::array<double, 3>, int> at;
    for (auto& l : pts.entries) {
      Mat<3> x;
      if (!m.check(sscanf(l.c_str(), " (%lf %lf %lf)", &x(0), &x(1), &x(2)) == 3, "point-format", l)) return;
      p.push_back(x);
    }
    std::set<Vertex*> vs;
    std::vector<std::array<double, 3>> want, have;
    for (int i = 0; i < n_cell; ++i) for (int v = 0; v < 8; ++v) if (vs.insert(&elems[i].vertex(v)).second) {auto& q = elems[i].vertex(v).pos; want.push_back({q(0), q(1), q(2)});}
    for (auto& x : p) have.push_back({x(0), x(1), x(2)});
    std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end());
    m.check(want == have, "points", fmt("%d points for %d vertices ", int(have.size()), int(want.size())) + ctx);
    // faces
    std::vector<int> owner(n_face), neigh(n_face, -1);
    std::vector<std::array<int, 4>> quad(n_face);
    std::set<std::set<int>> seen;
    std::vector<Mat<3>> closed(n_cell, Mat<3>::Zero());
    std::vector<double> vol(n_cell, 0), gross(n_cell, 0);
    std::vector<int> count(n_cell, 0);
    for (int f = 0; f < n_face; ++f) {
      auto& q = quad[f];
      bool ok = sscanf(fac.entries[f].c_str(), " 4(%d %d %d %d)", &q[0], &q[1], &q[2], &q[3]) == 4 && sscanf(own.entries[f].c_str(), "%d", &owner[f]) == 1;
      if (f < n_int) ok = ok && sscanf(nei.entries[f].c_str(), "%d", &neigh[f]) == 1;
      for (int v : q) ok = ok && v >= 0 && v < int(p.size());
      ok = ok && owner[f] >= 0 && owner[f] < n_cell && neigh[f] < n_cell && (neigh[f] >= 0) == (f < n_int);
      if (!m.checkf(ok, "face-format", [&] {return fac.entries[f] + " " + own.entries[f] + " " + ctx;})) return;
      if (f < n_int) m.checkf(owner[f] < neigh[f], "owner-is-lower", [&] {return fmt("face %d: %d %d ", f, owner[f], neigh[f]) + ctx;});
      m.checkf(seen.insert(std::set<int>(q.begin(), q.end())).second || std::set<int>(q.begin(), q.end()).size() < 4, "face-once", [&] {return fmt("face %d listed twice ", f) + ctx;});
      for (int side : {0, 1}) {
        int c = side ? neigh[f] : owner[f];
        if (c < 0) continue;
        ++count[c];
        Mat<3> corners[4] {p[q[0]], p[q[1]], p[q[2]], p[q[3]]}, a;
        double v;
        bilinear(corners, elems[c].vertex(0).pos, a, v);
        closed[c] += (side ? -1 : 1)*a;
        vol[c] += (side ? -1 : 1)*v;
        gross[c] += a.norm();
      }
      if (f < n_int) {
        int d = elems[owner[f]].refinement_level() - elems[neigh[f]].refinement_level();
        m.count(d ? "hanging-faces" : elems[owner[f]].get_is_deformed() && elems[neigh[f]].get_is_deformed() ? "deformed-faces" : "cartesian-faces");
      } else m.count("boundary-faces");
    }
    // cells
    for (int c = 0; c < n_cell; ++c) {
      double sz = elems[c].nominal_size();
      m.worst(closed[c].norm(), 1e-10*(gross[c] + 1e-3*sz*sz), "cell-closed", [&] {return fmt("cell %d ", c) + name(elems[c], 3) + " " + ctx;});
      double v = hex_volume(elems[c]);
      m.worst(vol[c] - v, 1e-9*(sz*gross[c] + 1e-3*sz*sz*sz), "cell-volume", [&] {return fmt("cell %d volume %g instead of %g ", c, vol[c], v) + name(elems[c], 3) + " " + ctx;});
      m.count("cells");
    }
    m.flush_worst();
    // every connection of the mesh is one face of the right cells; connection i <-> some face
    {
      std::map<Element*, int> cell;
      for (int i = 0; i < n_cell; ++i) cell[&elems[i]] = i;
      std::multiset<std::pair<int, int>> pairs, got;
      for (int i = 0; i < ec.size(); ++i) {
        int a = cell.at(&ec[i].element(0)), b = cell.at(&ec[i].element(1));
        pairs.insert({std::min(a, b), std::max(a, b)});
      }
      for (int f = 0; f < n_int; ++f) got.insert({owner[f], neigh[f]});
      m.check(pairs == got, "adjacency", ctx);
    }
    // patches
    {
      int next = n_int;
      std::set<std::string> names;
      std::map<Element*, int> cell;
      for (int i = 0; i < n_cell; ++i) cell[&elems[i]] = i;
      int sn = 0;
      for (auto& l : bnd.entries) {
        char nm[100], ty[100];
        int n, start;
        if (!m.check(sscanf(l.c_str(), " %99s {type %99[^;]; nFaces %d; startFace %d;}", nm, ty, &n, &start) == 4, "patch-format", l)) return;
        m.checkf(names.insert(nm).second, "patch-names-distinct", [&] {return l + " " + ctx;});
        m.checkf(start == next && n >= 0, "patches-contiguous", [&] {return l + fmt(" expected start %d ", next) + ctx;});
        if (s.kind != "block") {
          bool wall = sn == s.tree.surf_bc;
          m.checkf(std::string(ty) == (wall ? "wall" : "patch") && (wall == (std::string(nm) == "surface_bc")), "patch-type", [&] {return l + " " + ctx;});
        }
        // the faces of this patch are those of the boundary condition: compare owners and face centers
        std::multiset<int> wo, go;
        std::map<int, std::vector<Mat<3>>> wc, gc;
        for (int i = 0; i < bc.size(); ++i) if (bc[i].bound_cond_serial_n() == sn) {
          int c = cell.at(&bc[i].element());
          wo.insert(c);
          Mat<3> x = Mat<3>::Zero();
          for (Vertex* v : face_verts(bc[i].element(), 3, 2*bc[i].i_dim() + bc[i].inside_face_sign())) x += v->pos/4;
          wc[c].push_back(x);
        }
        for (int f = start; f < std::min(start + n, n_face); ++f) {
          go.insert(owner[f]);
          Mat<3> x = Mat<3>::Zero();
          for (int v : quad[f]) x += p[v]/4;
          gc[owner[f]].push_back(x);
        }
        bool ok = wo == go;
        if (ok) for (auto& w : wc) for (auto& x : w.second) {
          double best = 1e300;
          for (auto& y : gc[w.first]) best = std::min(best, (x - y).norm());
          ok = ok && best <= 1e-10*s.root;
        }
        m.checkf(ok, "patch-faces", [&] {return l + fmt(" %d faces expected ", int(wo.size())) + ctx;});
        next = start + n;
        ++sn;
      }
      m.check(next == n_face, "patches-complete", fmt("%d of %d ", next, n_face) + ctx);
    }
    m.count("exports-" + s.kind);
    m.evaluated(mon::mix(mon::hash_str(ctx), n_cell), n_cell > 1);
    m.sample(ctx);
  });
  std::filesystem::remove_all(scratch(m));
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "restart") run_restart(m);
  else if (m.mode == "block") run_block(m);
  else if (m.mode == "poly") run_poly(m);
  else return 2;
  return m.finish();
}
