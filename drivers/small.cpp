// monitors of the self-contained parts: history (N02), layers (S14), text (N04), watch (N05), atmos (N03), krylov (N01)
#include "mon.hpp"
#include <History_monitor.hpp>
#include <Layer_sequence.hpp>
#include <read_csv.hpp>
#include <utils.hpp>
#include <Stopwatch_tree.hpp>
#include <standard_atmosphere.hpp>
#include <constants.hpp>
#include <Transport_model.hpp>
#include <iterative.hpp>
#include <Linear_equation.hpp>
#include <filesystem>
#include <fstream>
#include <thread>
#include <unistd.h>
#include <clocale>

using namespace hexed;
using mon::Monitor;
using mon::Rng;
using mon::fmt;
static uint64_t bits(double x) {uint64_t u; memcpy(&u, &x, 8); return u;}

// ---------------------------------------------------------------- history
// Which samples a monitor records is made observable by running two twin monitors on the same schedule whose values are
// the iteration number itself (its maximum is the newest recorded iteration, its minimum the oldest one in the window).
// The third carries the values under test and must report exactly the extremes of the recorded samples in that range.
static void history(Monitor& m, Rng& rng, int)
{
  double w = rng.chance(.3) ? rng.pick<double>({.3, .1, .5, .9}) : rng.uniform(.01, .97);
  int n = rng.chance(.15) ? rng.range(1, 3) : rng.range(4, 120);
  if (rng.chance(.1)) {
    // a window that is not a proper fraction must be refused rather than make the monitor stop recording
    double bad = rng.pick<double>({1., 1.5, 0., -.2});
    m.count("bad-window");
    bool threw = false;
    double last = 0;
    try {
      History_monitor h(bad, n);
      if (bad > 0) for (int i = 0; i < 50; ++i) {h.add_sample(i, i); last = h.max();}
      else last = -1;
    } catch (const std::exception&) {threw = true;}
    m.checkf(threw || last > 25, "history-bad-window", [&]{return fmt("window %g samples %d: accepted, but the newest recorded of 50 samples is %g", bad, n, last);});
    m.evaluated(mon::mix(bits(bad), n), true);
    return;
  }
  History_monitor val(w, n), tw(w, n);
  m.checkf(val.min() <= -1e300 && val.max() >= 1e300, "history-initial", [&]{return fmt("bounds before any sample %g %g", val.min(), val.max());});
  double r = std::pow(1/(1 - w), 1./n); // the relative spacing that maintains the requested buffer size
  std::vector<std::pair<int, double>> given;
  std::vector<std::pair<int, double>> rec;
  int it = rng.chance(.5) ? 0 : rng.chance(.7) ? 1 : rng.range(2, 5000);
  int stepmax = rng.pick<int>({1, 1, 3, 50});
  int kind = rng.below(4);
  int N = rng.range(20, 1200);
  double walk = 0;
  int first = it;
  int dropped = 0, skipped = 0;
  for (int s = 0; s < N; ++s) {
    walk += rng.normal();
    double v = kind == 0 ? walk : kind == 1 ? rng.normal()*std::pow(10., rng.range(-10, 10)) : kind == 2 ? 1./(it + 1.) : std::sin(.01*it)*10;
    given.emplace_back(it, v);
    double prev = s ? tw.max() : -1;
    val.add_sample(it, v);
    tw.add_sample(it, it);
    bool recorded = tw.max() == it && !(s && prev == it);
    if (s && prev == it) recorded = false;
    if (recorded) rec.emplace_back(it, v); else ++skipped;
    if (s == 0) m.checkf(recorded, "history-first-sample", [&]{return fmt("the first sample (iteration %d) was not recorded", it);});
    if (rec.empty()) return;
    // freshness: the newest recorded sample is never older than one sampling interval
    int last = rec.back().first;
    m.checkf(tw.max() == last, "history-newest", [&]{return fmt("newest recorded %d but twin says %g", last, tw.max());});
    m.checkf(recorded || it <= std::max(last*r, 1.)*(1 + 1e-9) + 1e-9, "history-stale", [&]{return fmt("window %g samples %d: iteration %d was ignored although the last one recorded is %d", w, n, it, last);});
    // window: nothing before it is remembered, and apart from the sampling interval (and the buffer size) it is covered
    double lo = last*(1 - w);
    int oldest = std::lround(tw.min());
    bool known = false;
    int n_in = 0, n_after = 0;
    double mn = 1e308, mx = -1e308;
    int first_in = -1;
    for (auto& p : rec) {
      if (p.first == oldest) known = true;
      if (p.first >= lo) {++n_in; if (first_in < 0) first_in = p.first;}
      if (p.first >= oldest) {++n_after; mn = std::min(mn, p.second); mx = std::max(mx, p.second);}
    }
    m.checkf(known, "history-unknown-sample", [&]{return fmt("oldest remembered iteration %d was never recorded", oldest);});
    m.checkf(oldest >= lo*(1 - 1e-12), "history-outside-window", [&]{return fmt("window %g: at iteration %d a sample of iteration %d still counts", w, last, oldest);});
    m.checkf(n_after == std::min(n_in, n), "history-window-lost", [&]{return fmt("window %g samples %d: %d recorded samples lie in the window [%g, %d] but only those from %d on (%d) count", w, n, n_in, lo, last, oldest, n_after);});
    if (n_in > n) ++dropped;
    // the buffer never forces out a significant part of the window
    if (n >= 4) m.checkf(n_in <= n + 2, "history-oversampled", [&]{return fmt("window %g samples %d: %d samples recorded within one window", w, n, n_in);});
    m.checkf(val.min() == mn && val.max() == mx, "history-bounds", [&]{return fmt("window %g samples %d iteration %d: bounds %.17g %.17g, samples in the window have %.17g %.17g", w, n, it, val.min(), val.max(), mn, mx);});
    it += rng.chance(.02) ? 0 : rng.range(1, stepmax);
  }
  // a monitored quantity that drifts cannot look converged: over a monotone history the reported range spans the window
  m.count("samples", given.size()); m.count("recorded", rec.size()); m.count("ignored", skipped); m.count("forgotten", rec.size());
  if (dropped) m.count("buffer-full");
  if (first > 1) m.count("late-start");
  m.evaluated(mon::mix(mon::mix(bits(w), n), mon::mix(kind, given.size())), rec.size() > 3);
}

// ---------------------------------------------------------------- layers
static void layers(Monitor& m, Rng& rng, int)
{
  int nw = rng.chance(.3) ? 1 : rng.range(1, 12);
  double ws = rng.chance(.4) ? std::pow(10., rng.uniform(-9, -2)) : rng.chance(.5) ? rng.uniform(.01, 1.)/nw : std::pow(2., -rng.range(1, 20));
  if (ws*nw > 1) ws = 1./nw;
  std::string d = fmt("wall spacing %.17g, %d wall layers", ws, nw);
  Layer_sequence ls(ws, nw);
  int n = ls.n_layers();
  bool full = ws*nw > 1 - 1e-9;
  m.count(full ? "walls-fill-height" : ws*nw < .1 ? "thin" : "thick");
  m.checkf(n >= nw && n < 200, "layers-count", [&]{return fmt("%s: %d layers", d.c_str(), n);});
  if (n < 1 || n > 400) return;
  for (int i = 0; i < std::min(n, nw); ++i) m.close((ls.spacing(i) - ws)/ws, 1e-12, "layers-wall-spacing", fmt("%s layer %d spacing %.17g", d.c_str(), i, ls.spacing(i)));
  double total = 0;
  for (int i = 0; i < n; ++i) {
    double s = ls.spacing(i);
    m.checkf(std::isfinite(s) && s > 0, "layers-positive", [&]{return fmt("%s: layer %d of %d has spacing %g", d.c_str(), i, n, s);});
    m.close(ls.cumulative_height(i) - total, 1e-12, "layers-cumulative", d);
    total += s;
    if (i > nw) m.close(s/ls.spacing(i - 1) - 2, 1e-9, "layers-growth", fmt("%s layer %d", d.c_str(), i));
  }
  m.close(total - 1, 1e-11, "layers-height", fmt("%s: the %d layers add up to %.17g", d.c_str(), n, total));
  m.close(ls.cumulative_height(n) - total, 1e-12, "layers-cumulative", d);
  if (n > nw && ws*nw < .1) {
    double ratio = ls.spacing(nw)/ws;
    m.checkf(ratio > .88 && ratio < 2*(1 + 2.5*ws*1.3), "layers-first-growth", [&]{return fmt("%s: ratio of the first growth layer %g", d.c_str(), ratio);});
  }
  if (n > nw + 1 && ws*nw < .1) m.checkf(ls.spacing(nw)/(ws) > .88, "layers-minimum-count", [&]{return d;});
  m.evaluated(mon::mix(bits(ws), nw), true);
}

// ---------------------------------------------------------------- text
struct Scratch
{
  std::filesystem::path p;
  Scratch() {char t[] = "/tmp/hexed_small_XXXXXX"; p = mkdtemp(t);}
  ~Scratch() {std::error_code e; std::filesystem::remove_all(p, e);}
};
static void text(Monitor& m, Rng& rng, int)
{
  if (rng.chance(.3)) {
    // format_str: the whole string or an exception
    int len = rng.below(60), mx = rng.chance(.4) ? len + rng.range(-1, 2) : rng.range(1, 80);
    if (mx < 0) mx = 0;
    std::string body;
    for (int i = 0; i < len; ++i) body += char('a' + rng.below(26));
    int num = rng.range(-100000, 100000);
    bool with_num = rng.chance(.5);
    std::string want = with_num ? body + std::to_string(num) : body;
    std::string got; bool threw = false;
    try {got = with_num ? format_str(mx, "%s%d", body.c_str(), num) : format_str(mx, "%s", body.c_str());} catch (const std::exception&) {threw = true;}
    m.checkf(threw || got == want, "format-truncated", [&]{return fmt("limit %d: `%s` became `%s`", mx, want.c_str(), got.c_str());});
    m.checkf(!threw || int(want.size()) >= mx, "format-rejected", [&]{return fmt("limit %d: `%s` (%zu characters) was rejected", mx, want.c_str(), want.size());});
    m.count(threw ? "format-threw" : "format-ok");
    m.evaluated(mon::mix(len, mx), true);
    return;
  }
  static Scratch dir;
  std::string file = (dir.p/fmt("t%d.csv", int(getpid()))).string();
  int rows = rng.range(1, 12), cols = rng.range(1, 6);
  std::vector<std::vector<std::string>> cell(rows, std::vector<std::string>(cols));
  std::vector<std::vector<double>> want(rows, std::vector<double>(cols));
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
    double v = rng.chance(.2) ? rng.range(-1000, 1000) : rng.normal()*std::pow(10., rng.range(-12, 12));
    std::string s = v == std::floor(v) && rng.chance(.5) ? fmt("%d", int(v)) : rng.chance(.5) ? fmt("%.17g", v) : fmt("%.16e", v);
    if (rng.chance(.1) && v > 0) s = "+" + s;
    want[i][j] = strtod(s.c_str(), nullptr);
    auto pad = [&]{std::string p; while (rng.chance(.25)) p += rng.chance(.5) ? ' ' : '\t'; return p;};
    cell[i][j] = pad() + s + pad();
  }
  // what is done to it
  int kind = rng.chance(.45) ? 0 : rng.range(1, 10);
  bool last_newline = rng.chance(.7);
  int bi = rng.below(rows), bj = rng.below(cols);
  std::string what = "rectangular";
  bool bad = false;
  switch (kind) {
    case 1: if (rows > 1 && cols > 1) {if (bi == 0) bi = 1; cell[bi].resize(rng.below(cols)); if (cell[bi].empty()) cell[bi].push_back("7"); bad = int(cell[bi].size()) != cols; what = "short row";} break;
    case 2: if (rows > 1) {if (bi == 0) bi = 1; for (int k = rng.range(1, 3); k--;) cell[bi].push_back("3.5"); bad = true; what = "long row";} break;
    case 3: cell[bi][bj] = ""; bad = !(rows >= 1 && cols == 1); what = "empty entry"; if (cols == 1) {cell[bi][bj] = "x"; bad = true;} break;
    case 4: cell[bi][bj] += rng.pick<std::string>({"abc", " 4", ";", "m", "#", "1.2.3x", " e5"}); bad = true; what = "trailing junk"; break;
    case 5: cell[bi][bj] = rng.pick<std::string>({"abc", "-", "+-3", ".", "e5", "\"3\"", "$"}); bad = true; what = "not a number"; break;
    case 6: cell[bi].push_back(""); bad = true; what = "trailing comma"; break;
    case 7: what = "blank line"; bad = true; break;
    case 8: what = "missing file"; bad = true; break;
    case 9: if (rng.chance(.5)) {cell[bi][bj] = "1e999"; what = "overflow";} else {cell[bi][bj] = "0x"; what = "bad hex";} bad = true; break;
    case 10: what = "empty file"; break;
  }
  bool blank_mid = false;
  {
    std::ofstream f(file);
    if (kind != 10) for (int i = 0; i < rows; ++i) {
      if (kind == 7 && i == bi && i > 0) {f << "\n"; blank_mid = true;}
      for (size_t j = 0; j < cell[i].size(); ++j) f << (j ? "," : "") << cell[i][j];
      if (i + 1 < rows || last_newline) f << "\n";
    }
  }
  if (kind == 7 && !blank_mid) {bad = false; what = "rectangular";}
  if (kind == 8) std::filesystem::remove(file);
  bool threw = false;
  Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> got;
  try {got = read_csv(file);} catch (const std::exception&) {threw = true;}
  std::filesystem::remove(file);
  m.count("csv:" + what);
  auto desc = [&]{
    std::string t;
    for (auto& r : cell) {for (auto& c : r) t += "[" + c + "]"; t += " / ";}
    return fmt("%s (%d x %d): %s", what.c_str(), rows, cols, t.substr(0, 300).c_str());
  };
  if (kind == 10) {m.checkf(threw || got.size() == 0, "csv-empty-file", desc); m.evaluated(10, true); return;}
  if (bad) m.checkf(threw, "csv-accepted-" + what, [&]{return fmt("accepted as %d x %d: ", int(got.rows()), int(got.cols())) + desc();});
  else {
    m.checkf(!threw, "csv-rejected", desc);
    if (!threw) {
      m.checkf(got.rows() == rows && got.cols() == cols, "csv-shape", [&]{return fmt("read as %d x %d: ", int(got.rows()), int(got.cols())) + desc();});
      if (got.rows() == rows && got.cols() == cols) for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j)
        m.checkf(got(i, j) == want[i][j], "csv-value", [&]{return fmt("entry %d %d read as %.17g: ", i, j, got(i, j)) + desc();});
    }
  }
  m.evaluated(mon::mix(mon::mix(rows, cols), mon::mix(kind, bi*31 + bj)), true);
}

// ---------------------------------------------------------------- watch
static double now() {return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();}
static void spin(double s) {double e = now() + s; while (now() < e) ;}
static void watch(Monitor& m, Rng& rng, int)
{
  // model of one stopwatch: brackets around every interval it is told to measure
  struct Model {Stopwatch sw; double lo = 0, hi = 0, start_in = 0, start_out = 0; int n = 0; bool r = false;};
  std::vector<Model> w(rng.range(1, 4));
  auto verify = [&](const Model& x, const char* when) {
    m.checkf(x.sw.running() == x.r, "watch-running", [&]{return fmt("%s: running() is %d", when, x.sw.running());});
    m.checkf(x.sw.n_calls() == x.n, "watch-calls", [&]{return fmt("%s: n_calls %d instead of %d", when, x.sw.n_calls(), x.n);});
    m.checkf(x.sw.time() >= x.lo - 1e-8*(x.n + 1) && x.sw.time() <= x.hi + 1e-8*(x.n + 1), "watch-time", [&]{return fmt("%s: time %.9g outside the measured bracket [%.9g, %.9g]", when, x.sw.time(), x.lo, x.hi);});
  };
  auto start = [&](Model& x) {
    double a = now(); bool threw = false;
    try {x.sw.start();} catch (const std::exception&) {threw = true;}
    double b = now();
    m.checkf(threw == x.r, "watch-start-misuse", [&]{return fmt("start() while running=%d %s", x.r, threw ? "threw" : "was accepted");});
    if (!x.r) {x.start_in = b; x.start_out = a; x.r = true;}
    else m.count("misuse");
  };
  auto pause = [&](Model& x) {
    double a = now(); bool threw = false;
    try {x.sw.pause();} catch (const std::exception&) {threw = true;}
    double b = now();
    m.checkf(threw == !x.r, "watch-pause-misuse", [&]{return fmt("pause() while running=%d %s", x.r, threw ? "threw" : "was accepted");});
    if (x.r) {x.lo += a - x.start_in; x.hi += b - x.start_out; x.r = false; ++x.n; m.count("intervals");}
    else m.count("misuse");
  };
  int ops = rng.range(5, 60);
  uint64_t h = 0;
  for (int o = 0; o < ops; ++o) {
    auto& x = w[rng.below(w.size())];
    int op = rng.below(12);
    h = mon::mix(h, op);
    if (op < 4) {if (!x.r || rng.chance(.15)) start(x);}
    else if (op < 8) {if (x.r || rng.chance(.15)) pause(x);}
    else if (op == 8 && !x.r) {
      double a = now();
      bool ex = rng.chance(.3);
      double i0 = 0, i1 = 0;
      try {
        Stopwatch::Operator oper(x.sw);
        i0 = now();
        m.checkf(x.sw.running(), "watch-operator", []{return std::string("not running inside the Operator's scope");});
        spin(1e-6*rng.below(20));
        i1 = now();
        if (ex) throw 1;
      } catch (int) {m.count("exception-in-scope");}
      double b = now();
      x.lo += i1 - i0; x.hi += b - a; ++x.n; m.count("operators");
    } else if (op == 9) {
      auto& y = w[rng.below(w.size())];
      bool threw = false;
      Model sum;
      try {sum.sw = x.sw + y.sw;} catch (const std::exception&) {threw = true;}
      m.checkf(threw == (x.r || y.r), "watch-sum-misuse", [&]{return fmt("sum of stopwatches running %d, %d %s", x.r, y.r, threw ? "threw" : "was accepted");});
      if (!threw) {
        m.checkf(sum.sw.n_calls() == x.n + y.n && std::abs(sum.sw.time() - x.sw.time() - y.sw.time()) < 1e-12, "watch-sum", []{return std::string("sum is wrong");});
        if (&x != &y) {x.sw += y.sw; x.lo += y.lo; x.hi += y.hi; x.n += y.n;}
        m.count("sums");
      } else {
        bool t2 = false;
        try {x.sw += y.sw;} catch (const std::exception&) {t2 = true;}
        m.checkf(t2, "watch-sum-misuse", []{return std::string("+= of a running stopwatch was accepted");});
        m.count("misuse");
      }
    } else if (op == 10 && rng.chance(.3)) {
      x.sw.reset(); x.lo = x.hi = 0; x.n = 0; m.count("resets");
      // a reset while running restarts nothing: what is measured afterwards still is the whole interval since start()
    } else spin(1e-6*rng.below(30));
    verify(x, "history");
  }
  // trees: a parent measured around its children takes at least as long, and the report names every node with its own numbers
  Stopwatch_tree tree("cycle", {{"alpha", Stopwatch_tree("thing")}, {"beta", Stopwatch_tree("other")}});
  int nc = rng.range(1, 5);
  double a = now();
  for (int c = 0; c < nc; ++c) {
    Stopwatch::Operator op(tree.stopwatch);
    ++tree.work_units_completed;
    for (auto& ch : tree.children) {
      Stopwatch::Operator o2(ch.second.stopwatch);
      spin(2e-6*rng.below(10));
      ch.second.work_units_completed += 3;
    }
  }
  double b = now();
  double sum = 0;
  for (auto& ch : tree.children) {sum += ch.second.stopwatch.time(); m.checkf(ch.second.stopwatch.n_calls() == nc, "watch-tree-calls", []{return std::string();});}
  m.checkf(sum <= tree.stopwatch.time() + 1e-7 && tree.stopwatch.time() <= b - a + 1e-7, "watch-tree-nesting", [&]{return fmt("children %.9g parent %.9g wall %.9g", sum, tree.stopwatch.time(), b - a);});
  std::string rpt = tree.report();
  m.checkf(rpt.find(fmt("%d cycles completed in %g s", nc, tree.stopwatch.time())) != std::string::npos, "watch-report", [&]{return rpt;});
  for (auto& ch : tree.children) m.checkf(rpt.find(ch.first + ": " + fmt("%d %ss completed in %g s at %g s / %s", 3*nc, ch.second.work_unit_name.c_str(), ch.second.stopwatch.time(), ch.second.stopwatch.time()/(3*nc), ch.second.work_unit_name.c_str())) != std::string::npos, "watch-report", [&]{return rpt;});
  m.count("reports");
  // concurrent merging keeps every contribution
  if (rng.chance(.3)) {
    Stopwatch total;
    int k = rng.range(2, 8), each = 40;
    std::vector<double> t(k);
    #pragma omp parallel for num_threads(8)
    for (int i = 0; i < k; ++i) {
      Stopwatch mine; mine.start(); mine.pause();
      t[i] = mine.time();
      for (int j = 0; j < each; ++j) total += mine;
    }
    double s = 0; for (double x : t) s += x*each;
    m.checkf(total.n_calls() == k*each && std::abs(total.time() - s) < 1e-9 + 1e-9*s, "watch-concurrent-merge", [&]{return fmt("%d threads merged %d intervals; n_calls %d", k, k*each, total.n_calls());});
    m.count("concurrent-merges");
  }
  m.evaluated(mon::mix(h, ops), true);
}

// ---------------------------------------------------------------- atmos
static void atmos(Monitor& m, Rng& rng, int)
{
  // published values of the ICAO standard atmosphere at its layer boundaries (geopotential altitude, temperature, pressure)
  static const double ref[][3] = {{0, 288.15, 101325}, {11000, 216.65, 22632.06}, {20000, 216.65, 5474.889}, {32000, 228.65, 868.0187}, {47000, 270.65, 110.9063}, {51000, 270.65, 66.93887}, {71000, 214.65, 3.956420}, {80000, 196.65, .886280}};
  const double R = 287.05287, g = 9.80665, re = 6356766;
  double toff = rng.chance(.5) ? 0. : rng.uniform(-60, 60);
  double h = rng.chance(.3) ? ref[rng.below(8)][0] + (rng.chance(.5) ? 0 : rng.normal()*std::pow(10., rng.range(-12, 0))) : rng.uniform(-200, 80400);
  std::array<double, 2> dp;
  bool threw = false;
  try {dp = standard_atmosphere_geopot(h, toff);} catch (const std::exception&) {threw = true;}
  bool in = h >= 0 && h <= 80000, clear_out = h < -1e-6 || h > 80000 + 1e-6;
  m.checkf(!(in && threw), "atmos-rejected", [&]{return fmt("altitude %.17g rejected", h);});
  m.checkf(!(clear_out && !threw), "atmos-out-of-range", [&]{return fmt("altitude %.17g accepted", h);});
  m.count(in ? "inside" : "outside");
  m.evaluated(mon::mix(bits(h), bits(toff)), in);
  if (!threw) {
    double T = dp[1]/dp[0]/R;
    int l = 0; while (l < 6 && h > ref[l + 1][0]) ++l;
    double tl = ref[l][1] + (ref[l + 1][1] - ref[l][1])*(h - ref[l][0])/(ref[l + 1][0] - ref[l][0]);
    m.close((T - tl - toff)/300, 1e-9, "atmos-temperature", fmt("altitude %.17g offset %g: p/(rho R) = %.12g, standard %.12g", h, toff, T, tl + toff));
    m.checkf(dp[0] > 0 && dp[1] > 0 && dp[1] <= 101325*(1 + 1e-9), "atmos-positive", [&]{return fmt("altitude %g: %g %g", h, dp[0], dp[1]);});
    for (auto& row : ref) if (std::abs(h - row[0]) < 1e-6) {
      m.count("layer-boundaries");
      m.close((dp[1] - row[2])/row[2], 3e-5, "atmos-reference-pressure", fmt("altitude %g: pressure %.9g, published %.9g", h, dp[1], row[2]));
    }
    auto nooff = standard_atmosphere_geopot(h, 0);
    m.close((nooff[1] - dp[1])/dp[1], 1e-13, "atmos-offset-pressure", fmt("altitude %g offset %g changes the pressure", h, toff));
    // hydrostatic, in the geopotential altitude and across layer boundaries too
    double e = 5.;
    if (h > e && h < 80000 - e) {
      auto q0 = standard_atmosphere_geopot(h - e), q1 = standard_atmosphere_geopot(h + e);
      double grad = (q1[1] - q0[1])/(2*e);
      bool kink = false;
      for (auto& row : ref) kink = kink || std::abs(h - row[0]) < 2*e;
      m.close((grad + nooff[0]*g)/(nooff[0]*g), kink ? 2e-4 : 1e-6, "atmos-hydrostatic", fmt("altitude %g: dp/dh = %g, -rho g = %g", h, grad, -nooff[0]*g));
      m.checkf(q0[1] > nooff[1] && nooff[1] > q1[1], "atmos-monotone", [&]{return fmt("altitude %g", h);});
      auto c0 = standard_atmosphere_geopot(h - 1e-6), c1 = standard_atmosphere_geopot(h + 1e-6);
      for (int k : {0, 1}) m.close((c1[k] - c0[k])/c0[k], 1e-8, "atmos-continuous", fmt("altitude %g component %d", h, k));
    }
    if (in) {
      double z = re*h/(re - h);
      if (h < 79999.999) {
        auto geo = standard_atmosphere(z, toff);
        for (int k : {0, 1}) m.close((geo[k] - dp[k])/dp[k], 1e-9, "atmos-geometric", fmt("geometric altitude %.12g component %d", z, k));
      }
    }
  }
  // transport laws
  double T = rng.chance(.5) ? rng.uniform(1, 3000) : std::pow(10., rng.uniform(-1, 5)), s = std::sqrt(T);
  m.checkf(!inviscid.is_viscous && inviscid.coefficient(s) == 0, "transport-inviscid", []{return std::string();});
  double c = std::pow(10., rng.uniform(-8, 3));
  auto cm = Transport_model::constant(c);
  m.checkf(cm.is_viscous && std::abs(cm.coefficient(s) - c) <= 1e-14*c, "transport-constant", [&]{return fmt("constant %g gives %g", c, cm.coefficient(s));});
  double Tr = rng.uniform(50, 900), S = rng.uniform(0, 400);
  auto su = Transport_model::sutherland(c, Tr, S);
  double want = c*std::pow(T/Tr, 1.5)*(Tr + S)/(T + S);
  m.checkf(su.is_viscous && su.coefficient(s) > 0, "transport-positive", [&]{return fmt("Sutherland %g %g %g at %g: %g", c, Tr, S, T, su.coefficient(s));});
  m.close((su.coefficient(s) - want)/want, 1e-12, "transport-sutherland", fmt("%g %g %g at temperature %g: %.15g instead of %.15g", c, Tr, S, T, su.coefficient(s), want));
  m.close((su.coefficient(std::sqrt(Tr)) - c)/c, 1e-13, "transport-reference", "");
  m.count("transport");
}

// ---------------------------------------------------------------- krylov
//! dense equation that also counts the work and polices vector numbers
struct Watched : public Dense_equation
{
  int nv, products = 0; int bad = 0; Mat<dyn, dyn> a;
  Watched(Mat<dyn, dyn> mat, Mat<> rhs, int n, Mat<> guess) : Dense_equation(mat, rhs, n, guess), nv{n}, a{mat} {}
  bool ok(int i) {if (i < 0 || i >= nv) {++bad; return false;} return true;}
  void scale(int o, int i, double s) override {if (ok(o) & ok(i)) Dense_equation::scale(o, i, s);}
  void add(int o, double a_, int x, double b_, int y) override {if (ok(o) & ok(x) & ok(y)) Dense_equation::add(o, a_, x, b_, y);}
  double inner(int x, int y) override {return ok(x) & ok(y) ? Dense_equation::inner(x, y) : 0.;}
  void matvec(int o, int i) override {++products; if (ok(o) & ok(i)) Dense_equation::matvec(o, i);}
};
static void krylov(Monitor& m, Rng& rng, int)
{
  int n = rng.range(1, 25);
  int kind = rng.below(4); // 0 SPD, 1 diagonally dominant, 2 identity multiple, 3 few distinct eigenvalues
  auto rnd = [&](int r, int c){Mat<dyn, dyn> x(r, c); for (int i = 0; i < r*c; ++i) x(i) = rng.normal(); return x;};
  Mat<dyn, dyn> A;
  if (kind == 0) {Mat<dyn, dyn> q = rnd(n, n); A = q*q.transpose()/n + Mat<dyn, dyn>::Identity(n, n)*rng.uniform(.3, 2);}
  else if (kind == 1) {A = rnd(n, n)*(.6/std::sqrt(double(n))) + 2.5*Mat<dyn, dyn>::Identity(n, n);}
  else if (kind == 2) A = rng.uniform(.5, 3)*Mat<dyn, dyn>::Identity(n, n);
  else {Mat<dyn, dyn> q = Mat<dyn, dyn>(rnd(n, n).householderQr().householderQ()); Mat<> d(n); for (int i = 0; i < n; ++i) d(i) = 1 + rng.below(3); A = q*d.asDiagonal()*q.transpose();}
  double scale = std::pow(10., rng.range(-3, 3));
  A *= scale;
  Mat<> x = rnd(n, 1), b = A*x;
  if (rng.chance(.07)) b.setZero();
  Mat<> guess = rng.chance(.4) ? Mat<>(Mat<>::Zero(n)) : rng.chance(.3) ? Mat<>(A.fullPivLu().solve(b)) : Mat<>(rnd(n, 1));
  if (rng.chance(.1) && b.isZero()) guess.setZero();
  bool use_gmres = rng.chance(.6);
  int n_restart = use_gmres ? rng.range(1, std::min(n + 3, 27)) : 0, iters = rng.range(1, use_gmres ? 4 : n + 5);
  int nv = use_gmres ? n_restart + 3 : 8;
  int extra = rng.chance(.3) ? rng.range(1, 3) : 0;
  std::string d = fmt("%s n %d kind %d scale %g restart %d iterations %d", use_gmres ? "gmres" : "bicgstab", n, kind, scale, n_restart, iters);
  Watched eq(A, b, nv + extra, guess);
  double r0 = (b - A*guess).norm(), bn = b.norm() + A.norm()*guess.norm();
  if (use_gmres) iterative::gmres(eq, n_restart, iters); else iterative::bicgstab(eq, iters);
  Mat<> sol = eq.vec(0);
  double r1 = (b - A*sol).norm();
  m.count(use_gmres ? "gmres" : "bicgstab");
  if (r0 <= 1e-12*bn) m.count("already-solved");
  m.checkf(eq.bad == 0, "krylov-storage", [&]{return fmt("%s: %d accesses beyond the %d vectors it is documented to need", d.c_str(), eq.bad, nv + extra);});
  m.checkf((Mat<>(eq.vec(1)) - b).norm() == 0, "krylov-rhs", [&]{return d + ": the right hand side was changed";});
  m.checkf(sol.allFinite(), "krylov-finite", [&]{return fmt("%s: solution is not finite (initial residual %g of %g)", d.c_str(), r0, bn);});
  m.evaluated(mon::mix(mon::mix(n, kind), mon::mix(n_restart, iters)), true);
  if (!sol.allFinite()) return;
  if (use_gmres) {
    m.checkf(r1 <= r0*(1 + 1e-9) + 1e-12*bn, "gmres-grew", [&]{return fmt("%s: residual grew from %g to %g", d.c_str(), r0, r1);});
    // the best residual over the Krylov space after the first cycle, found by dense least squares
    Mat<> res = b - A*guess, z = guess;
    for (int c = 0; c < iters; ++c) {
      Mat<dyn, dyn> K(n, 0);
      Mat<> v = b - A*z;
      double rn = v.norm();
      if (rn <= 1e-13*bn) break;
      Mat<dyn, dyn> V(n, 0);
      Mat<> u = v/rn;
      for (int k = 0; k < std::min(n_restart, n); ++k) {
        V.conservativeResize(n, k + 1); V.col(k) = u;
        Mat<> wv = A*u/scale;
        double before = wv.norm();
        for (int rep = 0; rep < 2; ++rep) wv -= V*(V.transpose()*wv);
        if (wv.norm() < 1e-10*before) break;
        u = wv/wv.norm();
      }
      Mat<dyn, dyn> AV = A*V;
      Mat<> y = AV.fullPivHouseholderQr().solve(v);
      z += V*y;
    }
    double best = (b - A*z).norm();
    m.checkf(r1 <= best*1.001 + 1e-9*r0 + 1e-11*bn, "gmres-not-minimal", [&]{return fmt("%s: residual %g, the minimum over its search space is %g (initially %g)", d.c_str(), r1, best, r0);});
    if (n_restart >= n) {m.count("gmres-full"); m.checkf(r1 <= 1e-8*r0 + 1e-11*bn, "gmres-full", [&]{return fmt("%s: %g left of %g", d.c_str(), r1, r0);});}
    m.checkf(eq.products <= iters*(n_restart + 1), "krylov-work", [&]{return fmt("%s: %d products", d.c_str(), eq.products);});
  } else {
    if (kind != 1 && iters >= n + 3) {m.count("bicgstab-full"); m.checkf(r1 <= 1e-5*r0 + 1e-10*bn, "bicgstab-full", [&]{return fmt("%s: %g left of %g", d.c_str(), r1, r0);});}
    m.checkf(eq.products <= 2*iters + 1, "krylov-work", [&]{return fmt("%s: %d products", d.c_str(), eq.products);});
    if (r0 <= 1e-12*bn) m.checkf(r1 <= 1e-9*bn + 1e-300, "bicgstab-left-solution", [&]{return fmt("%s: residual %g from a solved system", d.c_str(), r1);});
  }
  // the dense equation's own operations, aliasing included
  Dense_equation de(A, b, 6);
  m.checkf(Mat<>(de.vec(0)).isZero() && de.n_vecs() == 6, "dense-default-guess", []{return std::string();});
  Mat<dyn, dyn> model(n, 6);
  for (int i = 0; i < 6; ++i) {model.col(i) = rnd(n, 1); de.vec(i) = model.col(i);}
  for (int k = 0; k < 12; ++k) {
    int o = rng.below(6), i0 = rng.chance(.3) ? o : rng.below(6), i1 = rng.chance(.3) ? o : rng.below(6);
    double c0 = rng.normal(), c1 = rng.normal();
    switch (rng.below(4)) {
      case 0: {Mat<> t = c0*model.col(i0); model.col(o) = t; de.scale(o, i0, c0); break;}
      case 1: {Mat<> t = c0*model.col(i0) + c1*model.col(i1); model.col(o) = t; de.add(o, c0, i0, c1, i1); break;}
      case 2: {Mat<> t = A*model.col(i0)/scale; model.col(o) = t; de.matvec(o, i0); de.scale(o, o, 1/scale); break;}
      case 3: {double v = model.col(i0).dot(model.col(i1)); m.close((de.inner(i0, i1) - v)/(model.col(i0).norm()*model.col(i1).norm() + 1e-300), 1e-10, "dense-inner", d); m.close(de.norm(i0)/(model.col(i0).norm() + 1e-300) - 1, 1e-10, "dense-norm", d); break;}
    }
    for (int i = 0; i < 6; ++i) {Mat<> got = de.vec(i); m.close((got - model.col(i)).norm()/(model.col(i).norm() + 1e-300), 1e-9, "dense-operation", fmt("%s vector %d", d.c_str(), i));}
  }
}

int main(int argc, char** argv)
{
  setlocale(LC_ALL, "C");
  Monitor m(argc, argv);
  m.run([&](Rng& rng, int c) {
    if (m.mode == "history") history(m, rng, c);
    else if (m.mode == "layers") layers(m, rng, c);
    else if (m.mode == "text") text(m, rng, c);
    else if (m.mode == "watch") watch(m, rng, c);
    else if (m.mode == "atmos") atmos(m, rng, c);
    else if (m.mode == "krylov") krylov(m, rng, c);
    else {fprintf(stderr, "unknown mode\n"); exit(2);}
  });
  return m.finish();
}
