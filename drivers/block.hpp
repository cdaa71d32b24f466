#ifndef VERIF_BLOCK_HPP_
#define VERIF_BLOCK_HPP_
// manually connected meshes: an array of columns of deformed elements in which every column has its own
// orientation (so that connections need every supported face permutation) and may be refined
// (hanging faces, optionally with fine elements stretched along the column)
#include "scene.hpp"
#include <map>

namespace scene
{

struct Block
{
  int nd;
  std::array<int, 3> nc {1, 1, 1}; // columns in the two plane axes, layers along the third
  int shift = 0;                   // which global axis is the first plane axis (3D)
  bool stretched = false;          // fine elements span a whole layer
  bool rotate = true;
  std::vector<int> orient, fine;   // per column
  std::function<Mat<>(Mat<>)> map; // from lattice (coarse cell units, plane axes first) to space
  double root;
  struct Cell {int level, sn, column; std::array<int, 3> lo, hi;}; // lattice of half coarse cells
  std::vector<Cell> cells;
  std::string desc;
  long n_hang = 0, n_perm = 0;

  bool is_fine(int i, int j) const {return i >= 0 && j >= 0 && i < nc[0] && j < nc[1] && fine[i*nc[1] + j];}

  // position of a lattice point (half units); a point on a coarse cell that is not one of its corners hangs
  Mat<> position(std::array<int, 3> p) const
  {
    bool on_coarse = false;
    bool odd[3] {bool(p[0]%2), bool(p[1]%2), nd == 3 && p[2]%2 && !stretched};
    if (odd[0] || odd[1] || odd[2]) for (int i = 0; i < nc[0]; ++i) for (int j = 0; j < nc[1]; ++j) if (!fine[i*nc[1] + j]) {
      if (p[0] >= 2*i && p[0] <= 2*i + 2 && p[1] >= 2*j && p[1] <= 2*j + 2) on_coarse = true;
    }
    auto eval = [&](std::array<int, 3> q) {Mat<> x(3); x << q[0]/2., q[1]/2., q[2]/2.; return map(x);};
    if (!on_coarse) return eval(p);
    Mat<> sum = Mat<>::Zero(3);
    int n = 0;
    for (int m = 0; m < 8; ++m) {
      bool skip = false;
      auto q = p;
      for (int d = 0; d < 3; ++d) {
        int s = (m >> d) & 1;
        if (odd[d]) q[d] += 2*s - 1; else if (s) skip = true;
      }
      if (!skip) {sum += eval(q); ++n;}
    }
    return sum/n;
  }
  // global lattice axis (with sign) of local axis `d` of an element with orientation `k`: {axis, positive}
  std::pair<int, bool> axis(int k, int d) const
  {
    int a = nd == 3 ? (d - shift + 3)%3 : d; // role of the local axis: 0, 1 = in plane, 2 = along the column
    if (a == 2) return {2, true};
    int t = (a + k)%4; // 0: +x, 1: +y, 2: -x, 3: -y
    if (a == 0) t = k%4; else t = (k + 1)%4;
    return {t%2, t < 2};
  }
  // local face of an element with orientation k that looks in direction `sign` of lattice axis `g`
  std::pair<int, bool> local_face(int k, int g, bool sign) const
  {
    for (int d = 0; d < nd; ++d) {auto a = axis(k, d); if (a.first == g) return {d, a.second == sign};}
    return {-1, false};
  }
  std::array<int, 3> corner(const Cell& c, int i_vert) const
  {
    std::array<int, 3> p = c.lo;
    if (nd == 2) p[2] = 0;
    for (int d = 0; d < nd; ++d) {
      auto a = axis(orient[c.column], d);
      bool up = ((i_vert >> (nd - 1 - d)) & 1) == int(a.second);
      p[a.first] = up ? c.hi[a.first] : c.lo[a.first];
    }
    return p;
  }

  void build(Mesh& mesh_i, int bc_sn)
  {
    auto& mesh = dynamic_cast<Accessible_mesh&>(mesh_i);
    std::map<std::array<int, 3>, int> at; // finest lattice cell -> index in cells
    for (int i = 0; i < nc[0]; ++i) for (int j = 0; j < nc[1]; ++j) {
      int col = i*nc[1] + j, nf = fine[col] ? 2 : 1, nz = nd == 3 ? nc[2]*(fine[col] && !stretched ? 2 : 1) : 1;
      for (int a = 0; a < nf; ++a) for (int b = 0; b < nf; ++b) for (int c = 0; c < nz; ++c) {
        int h = 2/nf, hz = nd == 3 ? 2*nc[2]/nz : 0;
        Cell cell;
        cell.level = fine[col]; cell.column = col;
        cell.lo = {2*i + a*h, 2*j + b*h, c*hz};
        cell.hi = {2*i + a*h + h, 2*j + b*h + h, c*hz + hz};
        cell.sn = mesh.add_element(cell.level, true, std::vector<int>{int(cells.size())*2, 0, 0});
        auto& e = mesh.element(cell.level, true, cell.sn);
        for (int v = 0; v < (1 << nd); ++v) {
          Mat<> p = position(corner(cell, v));
          for (int d = 0; d < 3; ++d) e.vertex(v).pos(d) = d < nd ? p(d) : 0.;
        }
        for (int x = cell.lo[0]; x < cell.hi[0]; ++x) for (int y = cell.lo[1]; y < cell.hi[1]; ++y) for (int z = cell.lo[2]; z < std::max(cell.hi[2], cell.lo[2] + 1); ++z) at[{x, y, z}] = cells.size();
        cells.push_back(cell);
      }
    }
    for (int n = 0; n < int(cells.size()); ++n) for (int g = 0; g < nd; ++g) for (bool sign : {false, true}) {
      Cell c = cells[n];
      std::array<int, 3> p = c.lo;
      p[g] = sign ? c.hi[g] : c.lo[g] - 1;
      auto it = at.find(p);
      if (it == at.end()) continue;
      Cell o = cells[it->second];
      auto fc = local_face(orient[c.column], g, sign), fo = local_face(orient[o.column], g, !sign);
      if (c.level == o.level && sign) {
        mesh.connect_deformed(c.level, {c.sn, o.sn}, {{fc.first, fo.first}, {fc.second, fo.second}});
        n_perm += fc.first != fo.first;
      } else if (o.level > c.level) {
        // list the fine cells in the row-major order of their own face
        std::vector<int> td;
        for (int d = 0; d < nd; ++d) if (d != fo.first) td.push_back(d);
        std::vector<int> sns;
        std::array<bool, 2> str {false, false};
        if (nd == 3 && stretched) for (int t = 0; t < 2; ++t) str[t] = axis(orient[o.column], td[t]).first == 2;
        int n0 = str[0] ? 1 : 2, n1 = nd == 3 ? (str[1] ? 1 : 2) : 1;
        for (int a = 0; a < n0; ++a) for (int b = 0; b < n1; ++b) {
          std::array<int, 3> q = p;
          int ab[2] {a, b}, nn[2] {n0, n1};
          for (int t = 0; t < nd - 1; ++t) {
            auto ax = axis(orient[o.column], td[t]);
            int k = ax.second ? ab[t] : nn[t] - 1 - ab[t];
            q[ax.first] = c.lo[ax.first] + (nn[t] == 2 ? k : 0);
          }
          sns.push_back(cells[at.at(q)].sn);
        }
        mesh.connect_hanging(c.level, c.sn, sns, {{fc.first, fo.first}, {fc.second, fo.second}}, true, std::vector<bool>(sns.size(), true), str);
        ++n_hang;
        n_perm += fc.first != fo.first;
      }
    }
    if (bc_sn >= 0) mesh.connect_rest(bc_sn);
    mesh.cleanup();
  }
};

inline Block random_block(Rng& rng, int nd, double root, bool allow_fine = true, double max_amp = .15)
{
  Block b;
  b.nd = nd;
  b.root = root;
  b.nc = {rng.range(1, 3), rng.range(1, nd == 3 ? 2 : 3), nd == 3 ? rng.range(1, 2) : 1};
  if (nd == 3) b.shift = rng.below(3);
  bool refine = allow_fine && rng.chance(.6);
  b.stretched = nd == 3 && rng.chance(.4);
  b.rotate = rng.chance(.75);
  for (int i = 0; i < b.nc[0]; ++i) for (int j = 0; j < b.nc[1]; ++j) {
    std::vector<int> ok;
    for (int k = 0; k < 4; ++k) {
      bool good = true;
      if (i) good = good && (b.orient[(i - 1)*b.nc[1] + j] - k + 4)%4 != 2;
      if (j) good = good && (b.orient.back() - k + 4)%4 != 2;
      if (good) ok.push_back(k);
    }
    b.orient.push_back(b.rotate ? rng.pick(ok) : 0);
    b.fine.push_back(refine && rng.chance(.45));
  }
  double amp = rng.chance(.2) ? 0 : rng.uniform(0, max_amp);
  std::array<std::array<double, 6>, 3> w;
  for (auto& x : w) for (auto& y : x) y = rng.uniform(-1, 1);
  Mat<> off(3);
  for (int d = 0; d < 3; ++d) off(d) = root*rng.uniform(-1, 1);
  double aspect = rng.chance(.3) ? rng.uniform(.2, 1) : 1;
  int shift = nd == 3 ? b.shift : 0;
  b.map = [=](Mat<> x) {
    Mat<> y(3), z(3);
    for (int d = 0; d < 3; ++d) y(d) = x(d) + amp*(std::sin(w[d][0]*3 + 1.7*x(0)*w[d][1] + 2.1*x(1)) + .5*std::sin(w[d][2]*5 + 1.9*x(2) + 2.3*x(0)*w[d][3]));
    y(1) *= aspect;
    if (nd == 2) y(2) = 0;
    // lattice axes to space axes: even permutation
    for (int d = 0; d < 3; ++d) z((d + shift)%3) = root*y(d) + off((d + shift)%3);
    return z;
  };
  b.desc = fmt("nd=%d block %dx%dx%d root=%g shift %d%s%s amp %.3f aspect %.2f orientations", nd, b.nc[0], b.nc[1], b.nc[2], root, b.shift, refine ? " refined" : "", b.stretched ? " stretched" : "", amp, aspect);
  for (size_t i = 0; i < b.orient.size(); ++i) b.desc += fmt(" %d%s", b.orient[i], b.fine[i] ? "f" : "");
  return b;
}

}
#endif
