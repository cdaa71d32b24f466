#ifndef VERIF_MON_HPP_
#define VERIF_MON_HPP_
// common infrastructure of the monitor drivers: PRNG, case loop, violation log, evidence counters.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <algorithm>
#include <ctime>
#include <unistd.h>
#include <omp.h>

namespace mon
{

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s{seed*0x9E3779B97F4A7C15ull + 0x1234567ull} {next(); next();}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27))*0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) {return n <= 0 ? 0 : int(next()%uint64_t(n));}
  int range(int lo, int hi) {return lo + below(hi - lo + 1);} // inclusive
  double uniform(double lo = 0, double hi = 1) {return lo + (hi - lo)*(double(next() >> 11)/9007199254740992.);}
  bool chance(double p) {return uniform() < p;}
  double normal() {return std::sqrt(-2*std::log(uniform(1e-15, 1)))*std::cos(6.283185307179586*uniform());}
  template <typename T> const T& pick(const std::vector<T>& v) {return v[below(int(v.size()))];}
};

inline uint64_t mix(uint64_t a, uint64_t b) {Rng r(a*0x100000001b3ull ^ (b + 0x51ed2701)); return r.next();}
inline uint64_t hash_str(const std::string& s) {uint64_t h = 1469598103934665603ull; for (unsigned char c : s) {h ^= c; h *= 1099511628211ull;} return h;}

inline std::string esc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += char(c);}
    else if (c < 0x20 || c > 0x7e) {char b [8]; snprintf(b, 8, "\\u%04x", c); o += b;}
    else o += char(c);
  }
  return o;
}

template <typename... Args> std::string fmt(const char* f, Args... args)
{
  int n = snprintf(nullptr, 0, f, args...);
  std::string s(n + 1, 0);
  snprintf(s.data(), n + 1, f, args...);
  s.resize(n);
  return s;
}

class Monitor
{
  public:
  struct Viol {std::string key, msg; int case_no;};
  std::string out_path;
  std::string progress_path;
  uint64_t seed = 1;
  int n_cases = 10;
  int first_case = 0;
  int only_case = -1;
  int cur_case = -1;
  long deadline = 0;
  std::string mode;
  std::vector<Viol> viols;
  std::map<std::string, long> counts;
  std::map<std::string, double> maxima;
  std::set<uint64_t> distinct;
  long evaluations = 0;
  std::vector<std::string> samples;
  std::map<std::string, std::string> args;
  static constexpr size_t max_viols = 40;

  Monitor(int argc, char** argv)
  {
    for (int i = 1; i + 1 < argc; i += 2) args[argv[i]] = argv[i + 1];
    if (args.count("--seed")) seed = std::stoull(args["--seed"]);
    if (args.count("--cases")) n_cases = std::stoi(args["--cases"]);
    if (args.count("--first")) first_case = std::stoi(args["--first"]);
    if (args.count("--case")) only_case = std::stoi(args["--case"]);
    if (args.count("--out")) out_path = args["--out"];
    if (args.count("--progress")) progress_path = args["--progress"];
    if (args.count("--deadline")) deadline = std::stol(args["--deadline"]);
    if (args.count("--mode")) mode = args["--mode"];
  }
  //! run the case loop; each case gets its own generator derived from (seed, case number)
  void run(std::function<void(Rng&, int)> body)
  {
    int lo = first_case, hi = first_case + n_cases;
    if (only_case >= 0) {lo = only_case; hi = only_case + 1;}
    for (int i = lo; i < hi; ++i) {
      if (deadline && time(nullptr) > deadline) {count("stopped-at-deadline"); break;}
      cur_case = i;
      phase("start");
      Rng rng(mix(seed, i));
      try {
        body(rng, i);
      } catch (const std::exception& e) {
        viol("exception", std::string("unexpected exception escaped: ") + e.what());
      }
      if (viols.size() >= max_viols) break;
    }
    phase("done");
  }
  //! note what is about to be exercised, so an abort can be attributed to it
  void phase(const std::string& what)
  {
    if (progress_path.empty()) return;
    FILE* f = fopen(progress_path.c_str(), "w");
    if (f) {fprintf(f, "%d\n%s\n", cur_case, what.c_str()); fclose(f);}
  }
  void viol(const std::string& key, const std::string& msg)
  {
    if (viols.size() < max_viols) {
      viols.push_back({key, msg, cur_case});
      fprintf(stderr, "MONITOR case %d [%s] %s\n", cur_case, key.c_str(), msg.c_str());
    }
  }
  //! the evaluated predicate: counts evidence, logs a violation if false
  bool check(bool ok, const std::string& key, const std::string& msg = "")
  {
    ++counts["checked:" + key];
    if (!ok) viol(key, msg);
    return ok;
  }
  //! lazy-message version
  template <typename F> bool checkf(bool ok, const std::string& key, F f)
  {
    ++counts["checked:" + key];
    if (!ok) viol(key, f());
    return ok;
  }
  //! \brief checks |err| <= tol (NaN fails) and tracks the worst observed ratio
  bool close(double err, double tol, const std::string& key, const std::string& msg = "")
  {
    double ratio = std::abs(err)/tol;
    bool ok = ratio <= 1; // false for NaN
    ++counts["checked:" + key];
    double& m = maxima["max_err_over_tol:" + key];
    if (!(ratio <= m)) m = ratio;
    if (!ok) viol(key, msg + fmt(" (error %.17g tolerance %g)", err, tol));
    return ok;
  }
  //! like `close`, but keeps only the worst error of each key until `flush_worst`
  struct Worst {double ratio = -1, err = 0, tol = 0; std::string msg; long n = 0;};
  std::map<std::string, Worst> worsts;
  template <typename F> void worst(double err, double tol, const std::string& key, F msg)
  {
    auto& w = worsts[key];
    ++w.n;
    double ratio = std::abs(err)/tol;
    if (!(ratio <= w.ratio)) {w.ratio = ratio; w.err = err; w.tol = tol; if (!(ratio <= 1)) w.msg = msg();}
  }
  void flush_worst()
  {
    for (auto& p : worsts) {close(p.second.err, p.second.tol, p.first, p.second.msg); counts["checked:" + p.first] += p.second.n - 1;}
    worsts.clear();
  }
  void count(const std::string& what, long n = 1) {counts[what] += n;}
  void evaluated(uint64_t state_hash, bool nontrivial = true)
  {
    ++evaluations;
    if (nontrivial) distinct.insert(state_hash);
  }
  void sample(const std::string& s) {if (samples.size() < 6) samples.push_back(s);}
  int finish()
  {
    std::ostringstream o;
    o << "{\"evaluations\": " << evaluations << ", \"distinct_nontrivial\": " << distinct.size() << ", \"counts\": {";
    bool first = true;
    for (auto& p : counts) {o << (first ? "" : ", ") << "\"" << esc(p.first) << "\": " << p.second; first = false;}
    o << "}, \"maxima\": {";
    first = true;
    for (auto& p : maxima) {o << (first ? "" : ", ") << "\"" << esc(p.first) << "\": " << (std::isfinite(p.second) ? fmt("%.4g", p.second) : std::string("1e999")); first = false;}
    o << "}, \"samples\": [";
    first = true;
    for (auto& s : samples) {o << (first ? "" : ", ") << "\"" << esc(s) << "\""; first = false;}
    o << "], \"violations\": [";
    first = true;
    for (auto& v : viols) {o << (first ? "" : ", ") << "{\"key\": \"" << esc(v.key) << "\", \"case\": " << v.case_no << ", \"msg\": \"" << esc(v.msg) << "\"}"; first = false;}
    o << "], \"hashes\": \"";
    for (uint64_t h : distinct) o << std::hex << h << " ";
    o << "\"}\n";
    if (!out_path.empty()) {std::ofstream f(out_path); f << o.str();}
    else std::cout << o.str();
    return 0;
  }
};

}
#endif
