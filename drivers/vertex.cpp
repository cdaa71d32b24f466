// monitors of shared mesh corners and paired pointers (V01): random histories against an explicit model
#include "mon.hpp"
#include <Vertex.hpp>
#include <Mutual_ptr.hpp>
#include <memory>
#include <numeric>

using namespace hexed;
using mon::Monitor;
using mon::Rng;
using mon::fmt;

// ------------------------------------------------------------------ vertices
struct Handle {std::unique_ptr<Vertex::Transferable_ptr> p; int v; double val; bool needs; bool mobile;};
struct Model_vertex {Mat<3> pos; std::set<int> nbr; std::vector<int> rec;};
struct Weak {std::unique_ptr<Vertex::Non_transferable_ptr> p; int v;}; // v < 0: null

static void run_vertex(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    std::map<int, Handle> hs;
    std::map<int, Model_vertex> vs;
    std::map<int, Weak> ws;
    int next = 0;
    std::string log;
    auto pick_h = [&]() {auto it = hs.begin(); std::advance(it, rng.below(hs.size())); return it;};
    auto pick_w = [&]() {auto it = ws.begin(); std::advance(it, rng.below(ws.size())); return it;};
    auto mass = [&](int v) {int n = 0; for (auto& h : hs) n += h.second.v == v; return n;};
    auto reap = [&](int v) { // the vertex dies with its last handle
      if (mass(v)) return;
      for (auto& x : vs) x.second.nbr.erase(v);
      vs.erase(v);
      for (auto& w : ws) if (w.second.v == v) w.second.v = -1;
    };
    auto fresh = [&]() {
      Mat<3> p {rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1)};
      bool mob = rng.chance(.7);
      int id = next++, v = next++;
      hs.emplace(id, Handle{std::make_unique<Vertex::Transferable_ptr>(p, mob), v, 0., true, mob});
      vs[v] = {p, {}, {}};
      log += fmt("; h%d=new v%d", id, v);
    };
    int n_ops = rng.range(5, 60);
    for (int i = 0; i < 3; ++i) fresh();
    for (int op = 0; op < n_ops; ++op) {
      if (hs.empty()) fresh();
      if (log.size() > 1500) log = "..." + log.substr(log.size() - 1000);
      int k = rng.below(14);
      m.phase(fmt("operation %d kind %d: ", op, k) + log);
      switch (k) {
        case 0: if (hs.size() < 24) fresh(); break;
        case 1: { // copy a handle
          auto it = pick_h();
          int id = next++;
          hs.emplace(id, Handle{std::make_unique<Vertex::Transferable_ptr>(*it->second.p), it->second.v, it->second.val, true, it->second.mobile});
          auto& h = hs.at(id);
          // a new handle has no value of its own until it is assigned one, so either nothing or a copy is acceptable, but not garbage
          m.check(h.p->shareable_value == it->second.val || h.p->shareable_value == 0, "copied-value", fmt("%g copied as %g", it->second.val, h.p->shareable_value));
          h.val = h.p->shareable_value;
          h.needs = h.p->needs_smooth;
          log += fmt("; h%d=copy(h%d)", id, it->first);
          break;
        }
        case 2: { // destroy a handle
          auto it = pick_h();
          int v = it->second.v;
          log += fmt("; del h%d", it->first);
          hs.erase(it);
          reap(v);
          break;
        }
        case 3: { // redirect a handle
          auto a = pick_h(), b = pick_h();
          log += fmt("; h%d=h%d", a->first, b->first);
          *a->second.p = *b->second.p;
          int old = a->second.v;
          a->second.v = b->second.v;
          if (old != a->second.v) reap(old);
          break;
        }
        case 4: case 5: case 6: { // merge
          auto a = pick_h(), b = pick_h();
          int va = a->second.v, vb = b->second.v;
          log += fmt("; eat(h%d,h%d)", a->first, b->first);
          (**a->second.p).eat(**b->second.p);
          if (va != vb) {
            double ma = mass(va), mb = mass(vb);
            vs[va].pos = (ma*vs[va].pos + mb*vs[vb].pos)/(ma + mb);
            for (int x : vs[vb].nbr) if (x != va) {vs[va].nbr.insert(x); vs[x].nbr.insert(va);}
            for (int r : vs[vb].rec) vs[va].rec.push_back(r);
            for (auto& h : hs) if (h.second.v == vb) h.second.v = va;
            reap(vb);
          }
          break;
        }
        case 7: case 8: { // edge
          auto a = pick_h(), b = pick_h();
          log += fmt("; edge(h%d,h%d)", a->first, b->first);
          Vertex::connect(**a->second.p, **b->second.p);
          int va = a->second.v, vb = b->second.v;
          if (va != vb) {vs[va].nbr.insert(vb); vs[vb].nbr.insert(va);}
          break;
        }
        case 9: { // move the corner through one handle, leave a note
          auto a = pick_h();
          Mat<3> p {rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1)};
          (*a->second.p)->pos = p; vs[a->second.v].pos = p;
          int r = rng.below(100);
          (*a->second.p)->record.push_back(r); vs[a->second.v].rec.push_back(r);
          log += fmt("; move h%d", a->first);
          break;
        }
        case 10: { // contribute values
          auto a = pick_h();
          a->second.val = a->second.p->shareable_value = rng.uniform(-5, 5);
          a->second.needs = a->second.p->needs_smooth = rng.chance(.5);
          log += fmt("; set h%d", a->first);
          break;
        }
        case 11: if (ws.size() < 12) { // observer
          auto a = pick_h();
          int id = next++;
          ws.emplace(id, Weak{std::make_unique<Vertex::Non_transferable_ptr>(**a->second.p), a->second.v});
          log += fmt("; w%d->h%d", id, a->first);
          break;
        }
        [[fallthrough]];
        case 12: if (ws.size()) { // copy or assign observers
          auto a = pick_w(), b = pick_w();
          if (rng.chance(.5) && ws.size() < 12) {
            int id = next++;
            int v = a->second.v;
            auto p = std::make_unique<Vertex::Non_transferable_ptr>(*a->second.p);
            ws.emplace(id, Weak{std::move(p), v});
            log += fmt("; w%d=copy(w%d)", id, a->first);
          } else {
            log += fmt("; w%d=w%d", a->first, b->first);
            *a->second.p = *b->second.p;
            a->second.v = b->second.v;
          }
        }
        break;
        default: if (ws.size()) {
          auto a = pick_w();
          if (rng.chance(.5)) {log += fmt("; null w%d", a->first); a->second.p->nullify(); a->second.v = -1;}
          else {log += fmt("; del w%d", a->first); ws.erase(a);}
        }
      }
      // every handle against the model
      std::map<int, Vertex*> who;
      for (auto& h : hs) {
        Vertex* p = &**h.second.p;
        auto it = who.find(h.second.v);
        if (it == who.end()) who[h.second.v] = p;
        else if (!m.check(it->second == p, "one-corner", log)) return;
      }
      std::set<Vertex*> uniq;
      for (auto& w : who) uniq.insert(w.second);
      if (!m.check(uniq.size() == who.size(), "separate-corners", log)) return;
      std::map<const Vertex*, int> id_of;
      for (auto& w : who) id_of[w.second] = w.first;
      for (auto& w : who) {
        Vertex& x = *w.second;
        auto& mv = vs.at(w.first);
        m.check((x.pos - mv.pos).norm() < 1e-12, "position", log);
        m.check(x.mass() == mass(w.first), "mass", log);
        m.check(x.record == mv.rec, "record", log);
        std::set<int> nb;
        bool known = true;
        for (const Vertex& y : x.get_neighbors()) {known = known && id_of.count(&y); if (known) nb.insert(id_of[&y]);}
        m.check(known && nb == mv.nbr, "neighbors", log);
        for (auto& z : who) m.check(Vertex::are_neighbors(x, *z.second) == bool(mv.nbr.count(z.first)), "are-neighbors", log);
        std::vector<double> vals; bool needs = false, mob = true;
        for (auto& h : hs) if (h.second.v == w.first) {vals.push_back(h.second.val); needs = needs || h.second.needs; mob = mob && h.second.mobile;}
        double mx = *std::max_element(vals.begin(), vals.end()), mn = *std::min_element(vals.begin(), vals.end()), sum = std::accumulate(vals.begin(), vals.end(), 0.);
        m.check(x.shared_value() == mx, "shared-max", log);
        m.check(x.shared_value(Vertex::vector_min) == mn, "shared-min", log);
        m.check(std::abs(x.shared_value([](Mat<> v) {return v.sum();}) - sum) < 1e-12, "shared-sum", log);
        m.check(x.needs_smooth() == needs, "needs-smooth", log);
        m.check(x.is_mobile() == mob, "mobile", log);
      }
      for (auto& w : ws) {
        if (!m.check(bool(*w.second.p) == (w.second.v >= 0), "observer-alive", log)) return;
        if (w.second.v >= 0) m.check(&**w.second.p == who.at(w.second.v), "observer-target", log);
        m.check(Vertex::Non_transferable_ptr::is_null(*w.second.p) == (w.second.v < 0), "observer-null");
      }
      uint64_t h = 0;
      for (auto& v : vs) {h += mon::mix(mass(v.first), v.second.nbr.size());}
      m.evaluated(mon::mix(h, mon::mix(hs.size(), ws.size())), vs.size() > 1);
      m.count("states");
      if (m.viols.size() > 4) return;
    }
    m.sample(log);
  });
}

// ------------------------------------------------------------------ paired pointers
struct A {int id;};
struct B {int id;};
template <typename U> struct End {std::unique_ptr<Mutual_ptr<A, U>> p; int partner = -1; int data;};

static void run_mutual(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    std::vector<A> as(40); std::vector<B> bs(40);
    for (int i = 0; i < 40; ++i) {as[i].id = i; bs[i].id = 100 + i;}
    int n = rng.range(1, 6);
    struct Ea {std::unique_ptr<Mutual_ptr<A, B>> p; int partner, data;};
    struct Eb {std::unique_ptr<Mutual_ptr<B, A>> p; int partner, data;};
    std::vector<Ea> a(n); std::vector<Eb> b(n);
    for (int i = 0; i < n; ++i) {
      a[i].p.reset(new Mutual_ptr<A, B>(&as[i])); b[i].p.reset(new Mutual_ptr<B, A>(&bs[i]));
      a[i].partner = b[i].partner = -1; a[i].data = b[i].data = i;
    }
    auto free_a = [&](int i) {if (a[i].partner >= 0) {b[a[i].partner].partner = -1; a[i].partner = -1;}};
    auto free_b = [&](int i) {if (b[i].partner >= 0) {a[b[i].partner].partner = -1; b[i].partner = -1;}};
    std::string log;
    int ops = rng.range(4, 50), next = n;
    for (int op = 0; op < ops; ++op) {
      int i = rng.below(n), j = rng.below(n), k = rng.below(9);
      log += fmt("; %d(%d,%d)", k, i, j);
      m.phase(log);
      switch (k) {
        case 0: case 1: a[i].p->pair(*b[j].p); free_a(i); free_b(j); a[i].partner = j; b[j].partner = i; break;
        case 2: b[i].p->pair(*a[j].p); free_b(i); free_a(j); b[i].partner = j; a[j].partner = i; break;
        case 3: a[i].p->unpair(); free_a(i); break;
        case 4: b[i].p->unpair(); free_b(i); break;
        case 5: // one end dies and is replaced
          if (next < 40) {a[i].p.reset(); free_a(i); a[i].p.reset(new Mutual_ptr<A, B>(&as[next])); a[i].data = next; ++next;}
          break;
        case 6: // move construction
          {
            auto q = std::make_unique<Mutual_ptr<A, B>>(std::move(*a[i].p));
            if (a[i].partner >= 0) m.check(!*a[i].p, "moved-from-unpaired", log);
            a[i].p = std::move(q);
          }
          break;
        case 7: if (i != j) { // move assignment steals the pairing and the data
          *a[i].p = std::move(*a[j].p);
          int pj = a[j].partner;
          free_a(i);
          if (pj >= 0) {a[j].partner = -1; a[i].partner = pj; b[pj].partner = i;}
          a[i].data = a[j].data;
          break;
        }
        [[fallthrough]];
        default: if (next < 40) {b[i].p.reset(); free_b(i); b[i].p.reset(new Mutual_ptr<B, A>(&bs[next])); b[i].data = next; ++next;}
      }
      for (int x = 0; x < n; ++x) {
        bool pa = a[x].partner >= 0, pb = b[x].partner >= 0;
        m.check(bool(*a[x].p) == pa && bool(*b[x].p) == pb, "paired", log);
        m.check(&a[x].p->mine() == &as[a[x].data] && &b[x].p->mine() == &bs[b[x].data], "mine", log);
        if (pa && *a[x].p) {
          m.check(a[x].p->partner() == b[a[x].partner].p.get(), "partner", log);
          m.check(a[x].p->get() == &bs[b[a[x].partner].data] && &**a[x].p == a[x].p->get() && (*a[x].p)->id == 100 + b[a[x].partner].data && &a[x].p->value() == a[x].p->get(), "target", log);
          m.check(a[x].p->partner()->partner() == a[x].p.get(), "symmetric", log);
          m.count("pairs");
        } else {
          m.check(!a[x].p->get() && !a[x].p->partner(), "null-target", log);
          bool threw = false;
          try {a[x].p->value();} catch (const std::exception&) {threw = true;}
          m.check(threw, "unpaired-value-throws", log);
        }
        if (pb && *b[x].p) m.check(b[x].p->partner() == a[b[x].partner].p.get(), "partner", log);
      }
      uint64_t h = n;
      for (auto& x : a) h = mon::mix(h, x.partner + 5);
      m.evaluated(h, n > 1);
      if (m.viols.size() > 4) return;
    }
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "mutual") run_mutual(m); else run_vertex(m);
  return m.finish();
}
