// M01 (mode topo), M02 (mode vert), M04 (mode data): monitors over random adaptation histories
#include "meshmon.hpp"
#include "block.hpp"
#include <Gauss_legendre.hpp>
using namespace scene;
using mon::Monitor;

typedef std::vector<int> key; // level, position

static key cell_key(Element& e, int nd)
{
  auto p = e.nominal_position();
  p.resize(nd);
  p.insert(p.begin(), e.refinement_level());
  return p;
}
static key parent_key(key k) {--k[0]; for (size_t i = 1; i < k.size(); ++i) k[i] = k[i] >> 1; return k;}

struct Old {key k; bool ref, unref, locked;};

// adjacency of two cells (sharing at least a face or an edge; in 1D/2D also corners)
static bool adjacent(const key& a, const key& b, int nd, bool corners)
{
  int L = std::max(a[0], b[0]);
  int touching = 0;
  for (int i = 0; i < nd; ++i) {
    long alo = long(a[1 + i]) << (L - a[0]), ahi = long(a[1 + i] + 1) << (L - a[0]);
    long blo = long(b[1 + i]) << (L - b[0]), bhi = long(b[1 + i] + 1) << (L - b[0]);
    if (ahi < blo || bhi < alo) return false;
    if (ahi == blo || bhi == alo) ++touching;
  }
  return corners ? touching >= 1 : touching >= 1 && touching <= 2;
}

static void check_semantics(Monitor& m, const std::map<key, Old>& old, Accessible_mesh& mesh, const Tree_scene& s, const std::string& ctx)
{
  int nd = s.nd;
  std::set<key> now;
  for (int i = 0; i < mesh.elements().size(); ++i) if (mesh.elements()[i].tree) now.insert(cell_key(mesh.elements()[i], nd));
  // the new cells that overlap an old one
  std::map<key, int> anc; // ancestor -> deepest descendant level
  for (auto& k : now) {key a = k; anc[a] = std::max(anc[a], k[0]); while (a[0] > 0) {a = parent_key(a); anc[a] = std::max(anc[a], k[0]);}}
  bool surf = s.surf_bc >= 0;
  long n_ref = 0, n_unref = 0, n_extra = 0, n_denied = 0;
  auto near_fine = [&](const key& k, int level) { // is there a cell of at least `level` adjacent to `k`?
    for (auto& c : now) if (c[0] >= level && adjacent(k, c, nd, true)) return true;
    return false;
  };
  std::map<key, std::vector<const Old*>> groups;
  for (auto& p : old) {
    const Old& o = p.second;
    bool same = now.count(o.k), finer = !same && anc.count(o.k);
    bool coarser = false;
    key a = o.k;
    while (!same && a[0] > 0) {a = parent_key(a); if (now.count(a)) {coarser = true; break;}}
    std::string who = fmt("cell level %d at (", o.k[0]); for (int i = 0; i < nd; ++i) who += fmt("%d ", o.k[1 + i]); who += ") ";
    if (o.ref && !o.unref) {
      ++n_ref;
      m.checkf(!same && !coarser, "refinement-request-honored", [&]{return who + (same ? "kept" : "was coarsened") + " although refinement was requested " + ctx;});
    }
    if (coarser) {
      ++n_unref;
      m.checkf(o.unref && !o.ref && !o.locked, "coarsened-only-if-requested", [&]{return who + fmt("was coarsened (ref %d unref %d locked %d) ", o.ref, o.unref, o.locked) + ctx;});
      m.checkf(a[0] == o.k[0] - 1, "coarsened-by-one-level", [&]{return who + ctx;});
    }
    if (finer && !(o.ref && !o.unref)) {
      ++n_extra;
      if (!surf) m.checkf(near_fine(o.k, o.k[0] + 2), "extra-refinement-justified", [&]{return who + "was refined without a request or a fine neighbor " + ctx;});
    }
    if (!surf) m.checkf(same || finer || coarser, "cell-not-lost", [&]{return who + ctx;});
    if (o.k[0] > 0) groups[parent_key(o.k)].push_back(&o);
  }
  if (!surf) for (auto& g : groups) if (int(g.second.size()) == (1 << nd)) {
    bool all = true;
    for (auto* o : g.second) all = all && o->unref && !o->ref && !o->locked && old.at(o->k).k == o->k;
    if (all && !now.count(g.first)) {
      // the group may have stayed only if coarsening would have put it next to cells two levels finer
      ++n_denied;
      m.checkf(near_fine(g.first, g.first[0] + 2), "coarsening-denied-only-for-smoothness", [&]{return fmt("a complete group of level %d was not coarsened ", g.first[0] + 1) + ctx;});
    }
  }
  m.count("cells-refined", n_ref); m.count("cells-coarsened", n_unref); m.count("cells-refined-for-smoothness", n_extra); m.count("groups-denied", n_denied);
  // face and edge neighbors differ by at most one level
  if (!surf && nd > 1) for (auto& c : now) {
    for (auto& d : now) if (d[0] > c[0] + 1 && adjacent(c, d, nd, false)) {m.checkf(false, "two-to-one-balance", [&]{return ctx;}); return;}
  }
  ++m.counts["checked:two-to-one-balance"];
}

// identity tags for M04
struct Snap {Element* p; std::vector<double> state; std::vector<double> adj; double uncert; bool locked, unref;};

// manually connected blocks: orientations, permutations, hanging and stretched connections
static void run_manual(Monitor& m, Rng& rng)
{
  int nd = rng.range(2, 3), rs = 2;
  Block b = random_block(rng, nd, rng.pick(std::vector<double>{1., .3, 20.}));
  Accessible_mesh mesh({1, nd + 2, nd, rs}, b.root);
  int bc = mesh.add_boundary_condition(new Copy, new Null_mbc);
  bool extrude = !b.rotate && !b.stretched && rng.chance(.7); // extrusion is only meant for consistently oriented cells
  m.phase(b.desc);
  b.build(mesh, extrude ? -1 : bc);
  m.count("block-cells", b.cells.size()); m.count("block-hanging", b.n_hang); m.count("block-permuted-connections", b.n_perm);
  auto inspect = [&](std::string ctx, bool moved) {
    check_topology(m, mesh, nd, nullptr, ctx);
    check_vertices(m, mesh, nd, nullptr, ctx);
    if (!moved) for (auto& c : b.cells) {
      auto& e = mesh.element(c.level, true, c.sn);
      for (int v = 0; v < (1 << nd); ++v) {
        Mat<> x = b.position(b.corner(c, v));
        m.close((e.vertex(v).pos.head(nd) - x.head(nd)).norm(), 1e-11*(b.root + x.norm()), "connecting-coincident-faces-moves-nothing", ctx);
      }
    }
  };
  if (extrude) {
    mesh.extrude(true, 0);
    mesh.connect_rest(bc);
    mesh.cleanup();
    b.desc += "; extruded";
  }
  inspect(b.desc, false);
  if (rng.chance(.7)) {
    int n = rng.range(1, 3); double f = rng.uniform(.1, 1);
    for (int i = 0; i < n; ++i) mesh.relax(f);
    inspect(b.desc + fmt("; relax(%.2f)x%d", f, n), true);
  }
  uint64_t h = mon::hash_str(b.desc);
  m.evaluated(h, b.cells.size() > 1);
  m.sample(b.desc);
}

// splitting wall layers keeps geometry and solution
static void run_layers(Monitor& m, Rng& rng)
{
  int nd = rng.pick(std::vector<int>{2, 2, 3});
  Tree_scene s = tree_params(rng, nd, true);
  s.rs = rng.range(2, 3);
  int rs = s.rs, nq = std::pow(rs, nd) + .5;
  Accessible_mesh mesh({1, nd + 2, nd, rs}, s.root);
  m.phase("building " + s.log);
  start_tree(rng, mesh, s);
  if (mesh.n_elements() == 0) {m.count("empty-mesh"); return;}
  if (rng.chance(.6)) {Adapt a = random_adapt(rng, mesh, s); mesh.update(a.ref, a.unref);}
  for (int i = rng.below(3); i--;) mesh.relax(.7);
  if (mesh.n_elements() == 0) {m.count("empty-mesh"); return;}
  Gauss_legendre basis(rs);
  auto& es = mesh.elements();
  for (int i = 0; i < es.size(); ++i) {
    double* st = es[i].state();
    for (int j = 0; j < (nd + 2)*nq; ++j) st[j] = rng.uniform(-1, 1);
  }
  auto tab = [&](Element& e) { // position and state at the quadrature points
    Mat<dyn, dyn> t(nq, 2*nd + 2);
    for (int q = 0; q < nq; ++q) {
      auto p = e.position(basis, q);
      for (int d = 0; d < nd; ++d) t(q, d) = p[d];
      for (int v = 0; v < nd + 2; ++v) t(q, nd + v) = e.state()[v*nq + q];
    }
    return t;
  };
  auto lagrange = [&](double x) {
    Mat<> w = Mat<>::Ones(rs);
    for (int i = 0; i < rs; ++i) for (int j = 0; j < rs; ++j) if (i != j) w(i) *= (x - basis.node(j))/(basis.node(i) - basis.node(j));
    return w;
  };
  int n_split = rng.range(1, 3);
  for (int k = 0; k < n_split; ++k) {
    // faces that are about to be split
    struct Face {Element* e; int f; Mat<dyn, dyn> before;};
    std::vector<Face> faces;
    auto& bc = mesh.boundary_connections();
    int surf = s.surf_bc;
    int nfq = nq/rs;
    if (k == 0) for (int i = 0; i < bc.size(); ++i) if (bc[i].bound_cond_serial_n() == surf) {
      int f = 2*bc[i].i_dim() + bc[i].inside_face_sign();
      for (int j = 0; j < nfq; ++j) {
        bc[i].element().node_adjustments()[f*nfq + j] = rng.uniform(-.2, .2);
        bc[i].element().node_adjustments()[(f^1)*nfq + j] = rng.uniform(-.1, .1);
      }
    }
    for (int i = 0; i < bc.size(); ++i) if (bc[i].bound_cond_serial_n() == surf) faces.push_back({&bc[i].element(), 2*bc[i].i_dim() + bc[i].inside_face_sign(), tab(bc[i].element())});
    std::map<Element*, int> uses;
    for (auto& f : faces) ++uses[f.e];
    std::set<Element*> before;
    for (int i = 0; i < es.size(); ++i) before.insert(&es[i]);
    std::map<Element*, Mat<dyn, dyn>> others;
    for (auto* e : before) if (!uses.count(e)) others[e] = tab(*e);
    double offset = rng.uniform(.05, .95);
    std::string ctx = s.log + fmt("; split %d of %d at %.3f", k + 1, n_split, offset);
    m.phase(ctx);
    mesh.disconnect_boundary(surf);
    mesh.extrude(true, offset, true);
    mesh.connect_rest(surf);
    mesh.cleanup();
    check_topology(m, mesh, nd, nullptr, ctx);
    m.checkf(mesh.n_elements() == int(before.size() + faces.size()), "one-new-layer-per-wall-face", [&]{return ctx;});
    // outer element of every split face
    auto& ec = mesh.element_connections();
    std::map<std::pair<Element*, int>, Element*> outer;
    for (int i = 0; i < ec.size(); ++i) {
      auto dir = ec[i].get_direction();
      for (int side = 0; side < 2; ++side) outer[{&ec[i].element(side), face_of(dir, side)}] = &ec[i].element(!side);
    }
    for (auto& f : faces) if (uses[f.e] == 1) {
      auto it = outer.find({f.e, f.f});
      if (!m.checkf(it != outer.end() && !before.count(it->second), "new-layer-touches-its-parent", [&]{return ctx;})) continue;
      Element* out = it->second;
      int i_dim = f.f/2, sign = f.f%2, stride = std::pow(rs, nd - 1 - i_dim) + .5;
      for (int which = 0; which < 2; ++which) {
        Element& e = which ? *out : *f.e;
        auto now = tab(e);
        // depth of the layer in the old cell, measured from its inner face
        double lo = which ? 1 - offset : 0, hi = which ? 1 : 1 - offset;
        double err_p = 0, err_s = 0;
        for (int q = 0; q < nq; ++q) {
          int i = (q/stride)%rs;
          double depth = sign ? basis.node(i) : 1 - basis.node(i);
          depth = lo + (hi - lo)*depth;
          Mat<> w = lagrange(sign ? depth : 1 - depth);
          Mat<> expect = Mat<>::Zero(2*nd + 2);
          for (int j = 0; j < rs; ++j) expect += w(j)*f.before.row(q + (j - i)*stride).transpose();
          Mat<> diff = expect - now.row(q).transpose();
          err_p = std::max(err_p, diff.head(nd).norm());
          err_s = std::max(err_s, diff.tail(nd + 2).lpNorm<Eigen::Infinity>());
        }
        m.close(err_p, 1e-10*(s.root*(.01/std::pow(2., e.refinement_level())) + s.origin.norm() + s.root)*1e-1, "layer-split-keeps-geometry", (which ? "outer layer of " : "inner layer of ") + name(*f.e, nd) + " " + ctx);
        m.close(err_s, 1e-9, "layer-split-keeps-solution", (which ? "outer layer of " : "inner layer of ") + name(*f.e, nd) + " " + ctx);
        m.count("layers-compared");
      }
    }
    for (auto& o : others) {
      auto now = tab(*o.first);
      // cells that only share an edge with a split face may have a corner moved with it
      bool moved = false;
      for (auto& f : faces) (void)f;
      m.checkf(now.rightCols(nd + 2) == o.second.rightCols(nd + 2), "layer-split-keeps-other-solutions", [&]{return name(*o.first, nd) + " " + ctx;});
      double d = (now.leftCols(nd) - o.second.leftCols(nd)).cwiseAbs().maxCoeff();
      (void)moved;
      m.close(d, 1e-10*(s.root + s.origin.norm()), "layer-split-keeps-other-geometry", name(*o.first, nd) + " " + ctx);
    }
    m.evaluated(mon::mix(mesh_hash(mesh, nd), offset*1e9), faces.size() > 0);
    if (mesh.n_elements() > 3*s.max_elems) break;
  }
  m.sample(s.log + fmt("; %d layer splits", n_split));
}

// splitting the wall layer by a layer sequence: every wall-to-outside edge is cut exactly at the heights of the sequence
static void run_sequence(Monitor& m, Rng& rng)
{
  int nd = rng.pick(std::vector<int>{2, 2, 2, 3});
  Tree_scene s = tree_params(rng, nd, true);
  s.rs = 2;
  Accessible_mesh mesh({1, nd + 2, nd, s.rs}, s.root);
  m.phase("building " + s.log);
  start_tree(rng, mesh, s);
  if (mesh.n_elements() == 0) {m.count("empty-mesh"); return;}
  for (int i = rng.below(3); i--;) mesh.relax(.7);
  int nw = rng.range(1, 4);
  double ws = rng.chance(.5) ? std::pow(10., rng.uniform(-3, -1)) : rng.uniform(.02, .98)/nw;
  ws = std::min(ws, .95/nw);
  Layer_sequence ls(ws, nw);
  int surf = s.surf_bc, n_layers = ls.n_layers();
  auto& bc = mesh.boundary_connections();
  auto& es = mesh.elements();
  // corners of every wall cell, by the wall face
  struct Wall {Element* e; int f; std::vector<Mat<3>> wall, outer;};
  std::vector<Wall> walls;
  std::map<Element*, int> uses;
  for (int i = 0; i < bc.size(); ++i) if (bc[i].bound_cond_serial_n() == surf) {
    Wall w {&bc[i].element(), 2*bc[i].i_dim() + bc[i].inside_face_sign(), {}, {}};
    int stride = 1 << (nd - 1 - w.f/2);
    for (int v = 0; v < (1 << nd); ++v) if ((v/stride)%2 == w.f%2) {
      w.wall.push_back(w.e->vertex(v).pos);
      w.outer.push_back(w.e->vertex(v ^ stride).pos);
    }
    ++uses[w.e];
    walls.push_back(w);
  }
  std::map<Element*, std::vector<Mat<3>>> others;
  for (int i = 0; i < es.size(); ++i) if (!uses.count(&es[i])) {
    for (int v = 0; v < (1 << nd); ++v) others[&es[i]].push_back(es[i].vertex(v).pos);
  }
  int n_before = mesh.n_elements();
  std::string ctx = s.log + fmt("; %d wall layers of %.6g, %d layers in all", nw, ws, n_layers);
  m.phase(ctx);
  // splitting once per wall face is what the sequence is meant for; cells with several wall faces are cut in every direction
  mesh.disconnect_boundary(surf);
  static_cast<Mesh&>(mesh).extrude(ls);
  mesh.connect_rest(surf);
  mesh.cleanup();
  check_topology(m, mesh, nd, nullptr, ctx);
  check_vertices(m, mesh, nd, nullptr, ctx);
  m.checkf(mesh.n_elements() == n_before + int(walls.size())*(n_layers - 1), "sequence-cell-count", [&]{return fmt("%d cells became %d with %d wall faces: ", n_before, mesh.n_elements(), int(walls.size())) + ctx;});
  for (auto& o : others) for (int v = 0; v < (1 << nd); ++v)
    m.close((o.first->vertex(v).pos - o.second[v]).norm(), 1e-11*(s.root + s.origin.norm()), "sequence-keeps-outer-mesh", ctx);
  auto& ec = mesh.element_connections();
  std::map<std::pair<Element*, int>, std::pair<Element*, int>> nbr;
  for (int i = 0; i < ec.size(); ++i) {
    auto dir = ec[i].get_direction();
    for (int side = 0; side < 2; ++side) nbr[{&ec[i].element(side), face_of(dir, side)}] = {&ec[i].element(!side), face_of(dir, !side)};
  }
  std::set<std::pair<Element*, int>> wall_now;
  for (int i = 0; i < bc.size(); ++i) if (bc[i].bound_cond_serial_n() == surf) wall_now.insert({&bc[i].element(), 2*bc[i].i_dim() + bc[i].inside_face_sign()});
  m.checkf(wall_now.size() == walls.size(), "sequence-keeps-boundary", [&]{return fmt("%zu wall faces became %zu: ", walls.size(), wall_now.size()) + ctx;});
  for (auto& w : walls) if (uses[w.e] == 1) {
    // from the remaining (innermost) cell outward to the wall, then match from the wall
    std::vector<std::pair<Element*, int>> stack {{w.e, w.f}};
    bool ok = true;
    while (ok && !wall_now.count(stack.back()) && int(stack.size()) <= n_layers) {
      auto it = nbr.find(stack.back());
      ok = it != nbr.end();
      if (ok) stack.push_back({it->second.first, it->second.second^1});
    }
    if (!m.checkf(ok && int(stack.size()) == n_layers && wall_now.count(stack.back()), "sequence-stack", [&]{return fmt("a stack of %zu cells instead of %d: ", stack.size(), n_layers) + ctx;})) continue;
    double height = 0;
    for (int l = 0; l < n_layers; ++l) {
      auto [e, f] = stack[n_layers - 1 - l];
      // accumulate the sequence independently of its own cumulative_height()
      double lo = height, hi = height + ls.spacing(l);
      height = hi;
      int stride = 1 << (nd - 1 - f/2);
      for (size_t i = 0; i < w.wall.size(); ++i) {
        Mat<3> a = w.wall[i] + lo*(w.outer[i] - w.wall[i]), b = w.wall[i] + hi*(w.outer[i] - w.wall[i]);
        double da = 1e300, db = 1e300;
        for (int v = 0; v < (1 << nd); ++v) {
          if ((v/stride)%2 == f%2) da = std::min(da, (e->vertex(v).pos - a).norm());
          else db = std::min(db, (e->vertex(v).pos - b).norm());
        }
        double tol = 1e-11*(s.root + s.origin.norm());
        m.close(da, tol, "sequence-height", fmt("layer %d from the wall, wall side: ", l) + ctx);
        m.close(db, tol, "sequence-height", fmt("layer %d from the wall, far side: ", l) + ctx);
      }
      m.count("layers-compared");
    }
  }
  m.evaluated(mon::mix(mesh_hash(mesh, nd), mon::hash_str(ctx)), walls.size() > 0);
  m.sample(ctx);
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "manual") {m.run([&](Rng& rng, int) {run_manual(m, rng);}); return m.finish();}
  if (m.mode == "sequence") {m.run([&](Rng& rng, int) {run_sequence(m, rng);}); return m.finish();}
  if (m.mode == "layers") {m.run([&](Rng& rng, int) {run_layers(m, rng);}); return m.finish();}
  bool topo = m.mode == "topo", vert = m.mode == "vert", data = m.mode == "data";
  m.run([&](Rng& rng, int i_case) {
    int nd = rng.pick(std::vector<int>{1, 2, 2, 2, 3, 3});
    Tree_scene s = tree_params(rng, nd, rng.chance(.65));
    s.rs = rng.range(2, 3);
    Accessible_mesh mesh({1, nd + 2, nd, s.rs}, s.root);
    if (rng.chance(.3)) mesh.buffer_dist *= rng.uniform(1, 1.6);
    m.phase("building " + s.log);
    start_tree(rng, mesh, s);
    int steps = nd == 3 ? rng.range(1, 4) : rng.range(2, 7);
    auto inspect = [&]() {
      m.phase("checking " + s.log);
      if (topo) check_topology(m, mesh, nd, &s, s.log);
      if (vert) check_vertices(m, mesh, nd, &s, s.log);
      m.evaluated(mesh_hash(mesh, nd), mesh.n_elements() > 1);
    };
    inspect();
    if (mesh.n_elements() == 0) {m.count("empty-mesh"); return;}
    for (int step = 0; step < steps; ++step) {
      // relaxation
      if (rng.chance(.5)) {
        if (rng.chance(.3)) {mesh.set_all_smooth(); s.log += "; set_all_smooth";}
        int n = rng.range(1, 3);
        double fac = rng.uniform(.2, 1);
        for (int i = 0; i < n; ++i) mesh.relax(fac);
        s.log += fmt("; relax(%.2f)x%d", fac, n);
        m.count("relaxations", n);
        if (vert) check_vertices(m, mesh, nd, &s, s.log);
      }
      if (rng.chance(.15)) {
        uint64_t salt = rng.next();
        mesh.set_unref_locks([salt, nd](Element& e) {return mon::mix(elem_hash(e, nd), salt)%4 == 0;});
        s.log += "; locks";
      } else if (rng.chance(.2)) {mesh.set_unref_locks(criteria::never); s.log += "; unlock";}
      Adapt a = random_adapt(rng, mesh, s);
      std::map<key, Old> old;
      std::map<std::pair<key, int>, Snap> snaps; // tree elements (face -1) and extruded ones (key of parent, face)
      auto& es = mesh.elements();
      std::set<Element*> before;
      uint64_t serial = rng.next();
      for (int i = 0; i < es.size(); ++i) {
        Element& e = es[i];
        before.insert(&e);
        if (e.tree) old[cell_key(e, nd)] = {cell_key(e, nd), a.ref(e), a.unref(e), e.unrefinement_locked};
        if (data) {
          double* st = e.state();
          for (int j = 0; j < (nd + 2)*e.storage_params().n_qpoint(); ++j) st[j] = double(mon::mix(serial + i, j)%1000003);
          e.uncertainty = double(mon::mix(serial + i, 999)%1000);
        }
      }
      auto handle = [&](auto&& xc, auto f) {for (int i = 0; i < xc.size(); ++i) {auto& c = xc[i]; f(c.element(0), c.element(1), face_of(c.get_direction(), 1));}};
      handle(mesh.extruded_connections(), [&](Element& x, Element& parent, int) {
        if (parent.tree) {
          auto& o = old[cell_key(parent, nd)];
          // documented: parents inherit flags and locks of the elements extruded from them
          bool xr = a.ref(x) && !a.unref(x), xu = a.unref(x) && !a.ref(x), pr = o.ref && !o.unref, pu = o.unref && !o.ref;
          int rec = pr ? 1 : pu ? -1 : 0, xrec = xr ? 1 : xu ? -1 : 0;
          rec = rec == 0 ? xrec : std::max(rec, xrec);
          // several extruded children: any refinement request wins
          o.ref = rec == 1; o.unref = rec == -1;
          o.locked = o.locked || x.unrefinement_locked;
        }
      });
      auto snapshot = [&](Element& e, bool unref) {
        Snap sn;
        sn.p = &e;
        int n = (nd + 2)*e.storage_params().n_qpoint();
        sn.state.assign(e.state(), e.state() + n);
        if (e.get_is_deformed()) {
          int na = 2*nd*e.storage_params().n_face_qpoint();
          for (int j = 0; j < na; ++j) if (data) e.node_adjustments()[j] = .01*j;
          sn.adj.assign(e.node_adjustments(), e.node_adjustments() + na);
        }
        sn.uncert = e.uncertainty; sn.locked = e.unrefinement_locked; sn.unref = unref;
        return sn;
      };
      if (data) {
        for (int i = 0; i < es.size(); ++i) if (es[i].tree) snaps[{cell_key(es[i], nd), -1 - es[i].get_is_deformed()}] = snapshot(es[i], old[cell_key(es[i], nd)].unref);
        handle(mesh.extruded_connections(), [&](Element& x, Element& parent, int f) {if (parent.tree) snaps[{cell_key(parent, nd), f}] = snapshot(x, old[cell_key(parent, nd)].unref);});
      }
      uint64_t h0 = mesh_hash(mesh, nd);
      m.phase("updating " + s.log);
      bool changed = mesh.update(a.ref, a.unref);
      m.phase("updated " + s.log);
      uint64_t h1 = mesh_hash(mesh, nd);
      if (topo) {
        check_semantics(m, old, mesh, s, s.log);
        bool same_objects = true;
        std::set<Element*> after;
        for (int i = 0; i < es.size(); ++i) after.insert(&es[i]);
        same_objects = before == after;
        if (h0 != h1) m.checkf(changed, "update-reports-change", [&]{return s.log;});
        if (same_objects && h0 == h1) m.checkf(!changed || true, "update-reports-no-change", [&]{return s.log;});
        m.count(changed ? "updates-with-change" : "updates-without-change");
        if (changed && h0 == h1 && s.surf_bc < 0) m.viol("update-reports-spurious-change", s.log);
      }
      if (data) {
        long kept = 0, fresh = 0, kept_unref = 0;
        auto compare = [&](std::pair<key, int> k, Element& e) {
          auto it = snaps.find(k);
          if (it == snaps.end()) {++fresh; return;}
          Snap& sn = it->second;
          ++kept;
          if (sn.unref) {++kept_unref; return;} // may legitimately have been coarsened and refined again for smoothness
          m.checkf(sn.p == &e, "untouched-element-keeps-identity", [&]{return name(e, nd) + " was replaced by a new object although nothing about it changed " + s.log;});
          m.checkf(std::equal(sn.state.begin(), sn.state.end(), e.state()), "untouched-element-keeps-state", [&]{return name(e, nd) + " " + s.log;});
          m.checkf(sn.uncert == e.uncertainty, "untouched-element-keeps-uncertainty", [&]{return name(e, nd) + " " + s.log;});
          if (e.get_is_deformed()) m.checkf(std::equal(sn.adj.begin(), sn.adj.end(), e.node_adjustments()), "untouched-element-keeps-warping", [&]{return name(e, nd) + " " + s.log;});
        };
        for (int i = 0; i < es.size(); ++i) if (es[i].tree) compare({cell_key(es[i], nd), -1 - es[i].get_is_deformed()}, es[i]);
        handle(mesh.extruded_connections(), [&](Element& x, Element& parent, int f) {if (parent.tree) compare({cell_key(parent, nd), f}, x);});
        m.count("elements-kept", kept); m.count("elements-new", fresh);
      }
      inspect();
      m.count("updates");
      if (mesh.n_elements() == 0) {m.count("empty-mesh"); return;}
    }
    m.sample(s.log + fmt(" -> %d elements", mesh.n_elements()));
  });
  return m.finish();
}
