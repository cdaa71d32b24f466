// Monitors the quad/octree: after every step of a random refine/unrefine history, every query is
// compared with a brute-force model that only knows the list of (level, integer coordinates) cells.
#include "mon.hpp"
#include <Tree.hpp>
using namespace hexed;
typedef std::vector<int> ivec;

struct Cell {int level; ivec c; bool leaf; int parent;};

struct Model
{
  int nd;
  std::vector<Cell> cells; // index in preorder; rebuilt from the history, independent of Tree internals
  std::map<std::vector<int>, int> index; // (level, coords) -> cell
  static std::vector<int> key(int l, const ivec& c) {ivec k {l}; k.insert(k.end(), c.begin(), c.end()); return k;}
};

static const int MAXL = 7;

// the set of cells is the model's only state: (level, coords) -> is it refined?
struct State
{
  int nd;
  std::map<ivec, bool> refined; // key -> refined or not
  ivec child_key(const ivec& k, int i) const
  {
    ivec r(k); r[0] = k[0] + 1;
    for (int d = 0; d < nd; ++d) r[1 + d] = 2*k[1 + d] + ((i >> (nd - 1 - d)) & 1);
    return r;
  }
  void remove_desc(const ivec& k)
  {
    if (!refined.at(k)) return;
    for (int i = 0; i < (1 << nd); ++i) {auto c = child_key(k, i); remove_desc(c); refined.erase(c);}
    refined[k] = false;
  }
  bool is_leaf(const ivec& k) const {return !refined.at(k);}
};

static long scale(int level) {return 1L << (MAXL - level);}

static void collect(Tree* t, std::vector<Tree*>& out) {out.push_back(t); for (Tree* c : t->children()) collect(c, out);}

static ivec key_of(Tree* t)
{
  ivec k {t->refinement_level()};
  auto c = t->coordinates();
  for (int d = 0; d < t->n_dim; ++d) k.push_back(c(d));
  return k;
}

static std::string show(const ivec& k) {std::string s = "("; for (int i : k) s += std::to_string(i) + " "; return s + ")";}

static bool is_desc(const ivec& a, const ivec& k, int nd) // is k == a or a descendant of a
{
  if (k[0] < a[0]) return false;
  for (int d = 0; d < nd; ++d) if ((k[1 + d] >> (k[0] - a[0])) != a[1 + d]) return false;
  return true;
}

int main(int argc, char** argv)
{
  mon::Monitor m(argc, argv);
  m.run([&](mon::Rng& rng, int i_case) {
    const int nd = rng.range(1, 3);
    double root_size = rng.chance(.4) ? rng.pick(std::vector<double>{1., 2., .5, 8.}) : rng.uniform(.05, 20);
    Mat<> origin = Mat<>::Zero(3);
    if (rng.chance(.6)) for (int d = 0; d < 3; ++d) origin(d) = rng.chance(.3) ? -root_size*rng.below(3)/2 : rng.uniform(-10, 10);
    Tree tree(nd, root_size, origin);
    State st {nd, {}};
    ivec root_key(nd + 1, 0);
    st.refined[root_key] = false;
    std::map<ivec, Tree*> address; // elements must never be reallocated
    address[root_key] = &tree;
    const int n_step = rng.range(3, nd == 3 ? 8 : 14);
    int max_cells = 500;
    for (int step = 0; step < n_step; ++step) {
      // modify
      std::vector<Tree*> all; collect(&tree, all);
      int n_mod = rng.range(1, 4);
      for (int i_mod = 0; i_mod < n_mod; ++i_mod) {
        all.clear(); collect(&tree, all);
        Tree* t = rng.pick(all);
        ivec k = key_of(t);
        if (t->is_leaf()) {
          if (k[0] < 6 && int(all.size()) < max_cells) {
            t->refine();
            st.refined[k] = true;
            auto ch = t->children();
            m.check(int(ch.size()) == (1 << nd), "tree-refine-children", show(k));
            for (int i = 0; i < (1 << nd) && i < int(ch.size()); ++i) {
              ivec ck = st.child_key(k, i);
              st.refined[ck] = false;
              address[ck] = ch[i];
            }
            m.count("refine");
          }
        } else if (rng.chance(.25)) {
          st.remove_desc(k);
          t->unrefine();
          for (auto it = address.begin(); it != address.end();) {
            if (!st.refined.count(it->first)) it = address.erase(it); else ++it;
          }
          m.count("unrefine");
        }
      }
      all.clear(); collect(&tree, all);
      uint64_t h = nd;
      // structure
      m.check(int(all.size()) == int(st.refined.size()), "tree-cell-count");
      m.check(tree.count() == int(st.refined.size()), "tree-count");
      for (Tree* t : all) {
        ivec k = key_of(t);
        for (int x : k) h = mon::mix(h, x);
        if (!m.check(st.refined.count(k), "tree-unknown-cell", show(k))) return;
        m.check(address.at(k) == t, "tree-reallocated", show(k));
        m.check(t->is_leaf() == st.is_leaf(k), "tree-leaf", show(k));
        m.check(t->is_root() == (t == &tree) && t->root() == &tree, "tree-root", show(k));
        for (Tree* c : t->children()) m.check(c->parent() == t, "tree-parent", show(k));
        double sz = root_size/double(1 << k[0]);
        double tol = 1e-14*(root_size + origin.cwiseAbs().maxCoeff());
        m.close(t->nominal_size() - sz, tol, "tree-size");
        for (int d = 0; d < nd; ++d) {
          m.close(t->nominal_position()(d) - (origin(d) + sz*k[1 + d]), tol, "tree-position");
          m.close(t->center()(d) - (origin(d) + sz*(k[1 + d] + .5)), tol, "tree-center");
        }
        m.check(t->nominal_position().size() == nd && t->origin().size() == nd, "tree-dim");
      }
      m.evaluated(h, all.size() > 1);
      if (i_case < 2 && step == 1) m.sample(mon::fmt("%dD tree with %d cells root size %g origin %g %g %g", nd, int(all.size()), root_size, origin(0), origin(1), origin(2)));
      std::vector<ivec> leaves;
      for (auto& p : st.refined) if (!p.second) leaves.push_back(p.first);
      // integer point location, from a random starting element
      for (int q = 0; q < 60; ++q) {
        Tree* start = rng.chance(.5) ? &tree : rng.pick(all);
        ivec sk = key_of(start);
        int rl = rng.below(MAXL);
        Eigen::VectorXi c(rng.chance(.5) ? nd : 3), bias(rng.chance(.5) ? nd : 3);
        c.setConstant(77); bias.setConstant(1);
        int n = 1 << rl;
        std::vector<long> p(nd);
        for (int d = 0; d < nd; ++d) {
          c(d) = rng.range(-1, n + 1); bias(d) = rng.below(2);
          p[d] = c(d)*scale(rl)*2 + (bias(d) ? -1 : 1); // the biased point at twice the finest resolution
        }
        Tree* got = start->find_leaf(rl, c, bias);
        const ivec* expect = nullptr;
        for (auto& l : leaves) {
          if (!is_desc(sk, l, nd)) continue;
          bool in = true;
          for (int d = 0; d < nd; ++d) in = in && p[d] > 2*l[1 + d]*scale(l[0]) && p[d] < 2*(l[1 + d] + 1)*scale(l[0]);
          if (in) expect = &l;
        }
        m.count(expect ? "int-query-hit" : "int-query-miss");
        m.check(expect ? (got && key_of(got) == *expect && got->is_leaf()) : !got, "tree-find-leaf-int",
                "query level " + std::to_string(rl) + (expect ? " expected " + show(*expect) : " expected none"));
      }
      // physical point location
      for (int q = 0; q < 60; ++q) {
        Tree* start = rng.chance(.6) ? &tree : rng.pick(all);
        ivec sk = key_of(start);
        Mat<> p(nd);
        bool interior = true;
        auto& near = rng.pick(leaves);
        for (int d = 0; d < nd; ++d) {
          double sz = root_size/double(1 << near[0]);
          switch (rng.below(4)) {
            case 0: p(d) = origin(d) + root_size*rng.uniform(-.1, 1.1); break;
            case 1: p(d) = origin(d) + sz*(near[1 + d] + rng.uniform(.01, .99)); break;
            case 2: p(d) = origin(d) + sz*(near[1 + d] + rng.below(2)); interior = false; break; // on a cell boundary
            default: p(d) = std::nextafter(sz*(near[1 + d] + rng.below(2)) + origin(d), rng.chance(.5) ? 1e9 : -1e9); interior = false;
          }
        }
        Tree* got = start->find_leaf(p);
        double tol = 1e-12*(root_size + origin.cwiseAbs().maxCoeff());
        auto dist = [&](const ivec& l) { // > 0 outside, < 0 inside
          double w = -1e300;
          double sz = root_size/double(1 << l[0]);
          for (int d = 0; d < nd; ++d) {
            double lo = origin(d) + sz*l[1 + d];
            w = std::max(w, std::max(lo - p(d), p(d) - (lo + sz)));
          }
          return w;
        };
        double ds = dist(sk);
        m.count(interior ? "phys-query-interior" : "phys-query-boundary");
        std::string desc = mon::fmt("point %.17g... root size %.17g", p(0), root_size);
        if (ds > tol) m.check(!got, "tree-find-leaf-phys-outside", desc);
        else if (ds < -tol) {
          if (m.check(got, "tree-find-leaf-phys-missed", desc)) {
            m.check(got->is_leaf(), "tree-find-leaf-phys-nonleaf", desc);
            m.check(dist(key_of(got)) <= tol && is_desc(sk, key_of(got), nd), "tree-find-leaf-phys-wrong", desc);
          }
        } else if (got) m.check(got->is_leaf() && dist(key_of(got)) <= tol, "tree-find-leaf-phys-edge", desc);
      }
      // neighbours in all 3^n directions, of leaves and of refined cells
      for (int q = 0; q < 40; ++q) {
        Tree* t = rng.pick(all);
        ivec k = key_of(t);
        Eigen::VectorXi dir(nd);
        int n_nonzero = 0;
        for (int d = 0; d < nd; ++d) {dir(d) = rng.range(-1, 1); n_nonzero += dir(d) != 0;}
        if (!n_nonzero) continue;
        // region of the same size as this cell, displaced by `dir`; the neighbours are the leaves that overlap it and touch this cell
        std::vector<ivec> expect;
        for (auto& l : leaves) {
          bool ok = true;
          for (int d = 0; d < nd; ++d) {
            long lo = k[1 + d]*scale(k[0]), hi = lo + scale(k[0]);
            long nlo = l[1 + d]*scale(l[0]), nhi = nlo + scale(l[0]);
            long rlo = lo + dir(d)*scale(k[0]), rhi = hi + dir(d)*scale(k[0]);
            ok = ok && nlo < rhi && nhi > rlo; // overlaps displaced region
            if (dir(d) > 0) ok = ok && nlo <= hi;
            if (dir(d) < 0) ok = ok && nhi >= lo;
          }
          if (ok) expect.push_back(l);
        }
        std::vector<ivec> got;
        bool all_leaves = true;
        for (Tree* n : t->find_neighbors(dir)) {got.push_back(key_of(n)); all_leaves = all_leaves && n->is_leaf();}
        auto got_sorted = got; std::sort(got_sorted.begin(), got_sorted.end());
        auto exp_sorted = expect; std::sort(exp_sorted.begin(), exp_sorted.end());
        std::string desc = "cell " + show(k) + mon::fmt(" dir %d.. expected %d got %d", dir(0), int(expect.size()), int(got.size()));
        m.check(got_sorted == exp_sorted && all_leaves, "tree-find-neighbors", desc);
        m.count(expect.empty() ? "neighbors-none" : expect.size() > 1 ? "neighbors-finer" : expect[0][0] < k[0] ? "neighbors-coarser" : "neighbors-same");
        Tree* one = t->find_neighbor(dir);
        m.check(expect.empty() ? !one : (one && one->is_leaf() && std::count(expect.begin(), expect.end(), key_of(one)) == 1), "tree-find-neighbor", desc);
        if (one && expect.size() > 1) { // documented: lowest coordinates along free dimensions
          ivec ok = key_of(one);
          for (int d = 0; d < nd; ++d) if (dir(d) == 0) m.check(ok[1 + d]*scale(ok[0]) == k[1 + d]*scale(k[0]), "tree-find-neighbor-lowest", desc);
        }
        // symmetry: for face neighbours of a leaf, the relation is mutual
        if (n_nonzero == 1 && t->is_leaf()) for (Tree* n : t->find_neighbors(dir)) {
          Eigen::VectorXi back = -dir;
          auto b = n->find_neighbors(back);
          m.check(std::count(b.begin(), b.end(), t) == 1, "tree-neighbor-symmetry", desc);
        }
      }
      // flood fill against a breadth-first search on the brute-force adjacency
      {
        tree.clear_status();
        for (Tree* t : all) m.check(t->get_status() == Tree::unprocessed, "tree-clear-status");
        std::map<ivec, int> status;
        for (auto& l : leaves) status[l] = Tree::unprocessed;
        double wall = rng.uniform(0, .6);
        for (Tree* t : all) if (t->is_leaf() && rng.chance(wall)) {t->set_status(7); status[key_of(t)] = 7;}
        for (int fill = 0; fill < 3; ++fill) {
          Tree* start = rng.chance(.3) ? rng.pick(all) : address.at(rng.pick(leaves));
          ivec sk = key_of(start);
          ivec first = sk;
          while (!st.is_leaf(first)) first = st.child_key(first, 0);
          if (status[first] == Tree::unprocessed) {
            std::vector<ivec> stack {first};
            status[first] = fill;
            while (!stack.empty()) {
              ivec a = stack.back(); stack.pop_back();
              for (auto& b : leaves) if (status[b] == Tree::unprocessed) {
                int n_touch = 0; bool apart = false;
                for (int d = 0; d < nd; ++d) {
                  long alo = a[1 + d]*scale(a[0]), ahi = alo + scale(a[0]);
                  long blo = b[1 + d]*scale(b[0]), bhi = blo + scale(b[0]);
                  if (alo > bhi || blo > ahi) apart = true;
                  if (alo == bhi || blo == ahi) ++n_touch;
                }
                if (!apart && n_touch == 1) {status[b] = fill; stack.push_back(b);}
              }
            }
          }
          start->flood_fill(fill);
          m.count(st.is_leaf(sk) ? "flood-from-leaf" : "flood-from-refined");
          for (auto& l : leaves) m.check(address.at(l)->get_status() == status[l], "tree-flood-fill",
            "leaf " + show(l) + mon::fmt(" status %d expected %d, fill started at ", address.at(l)->get_status(), status[l]) + show(sk));
        }
      }
    }
  });
  return m.finish();
}
