// I01: every well-formed program evaluates as the reference semantics prescribe. I02: no text crashes the interpreter.
#include <unistd.h>
#include <sys/resource.h>
#include "mon.hpp"
#include <Interpreter.hpp>
#include <Struct_expr.hpp>
#include <Namespace.hpp>
#include <memory>
#include <variant>
#include <optional>
#include <cstring>
using namespace mon;
using hexed::Interpreter;

static std::vector<std::string> shell_calls;
static int shell_result = 0;
// `shell` must never reach a real shell from a fuzzer: this definition takes the place of libc's
extern "C" int system(const char* command) {shell_calls.push_back(command ? command : ""); return shell_result;}

struct Rec_printer : public hexed::Printer
{
  std::string out;
  void print(std::string s) override {out += s;}
};

// ------------------------------------------------------------------ reference semantics
struct Reject {}; // outside of the well-defined part of the language (integer overflow, division by zero...)
typedef std::variant<int, double, std::string> Val;
static bool is_i(const Val& v) {return v.index() == 0;}
static bool is_s(const Val& v) {return v.index() == 2;}
static double num(const Val& v) {return v.index() ? std::get<1>(v) : std::get<0>(v);}
static int chk(long x) {if (x < -2147483647l || x > 2147483647l) throw Reject{}; return int(x);}
static std::string show(const Val& v)
{
  if (v.index() == 0) return fmt("int %d", std::get<0>(v));
  if (v.index() == 1) return fmt("real %.17g", std::get<1>(v));
  return "string {" + std::get<2>(v) + "}";
}
static bool same(const Val& a, const Val& b)
{
  if (a.index() != b.index()) return false;
  if (a.index() == 1) {
    double x = std::get<1>(a), y = std::get<1>(b);
    return (std::isnan(x) && std::isnan(y)) || x == y;
  }
  return a == b;
}

struct Model
{
  std::map<std::string, Val> vars;
  std::string out;
  bool exited = false;
};

struct Node;
typedef std::shared_ptr<Node> N;
struct Node
{
  enum Kind {lit, var, un, bin, assign, seq, print_} kind;
  Val val;          // lit
  std::string name; // var, assign, un/bin operator
  std::vector<N> kids;
};
static const std::map<std::string, int> prec {{"^", 1}, {"#", 1}, {"%", 2}, {"/", 2}, {"*", 2}, {"-", 3}, {"+", 3},
  {"==", 4}, {"!=", 4}, {">=", 4}, {"<=", 4}, {"<", 4}, {">", 4}, {"&", 5}, {"|", 5}};

static std::string to_str(const Val& v)
{
  if (v.index() == 0) return std::to_string(std::get<0>(v));
  if (v.index() == 1) {if (std::isnan(std::get<1>(v))) throw Reject{}; return fmt("%g", std::get<1>(v));} // the sign of NaN is not specified
  return std::get<2>(v);
}

static Val eval(const N& n, Model& m)
{
  switch (n->kind) {
    case Node::lit: return n->val;
    case Node::var: {
      auto it = m.vars.find(n->name);
      if (it == m.vars.end()) throw Reject{};
      return it->second;
    }
    case Node::assign: {
      Val v = eval(n->kids[0], m);
      auto it = m.vars.find(n->name);
      if (it == m.vars.end()) m.vars.emplace(n->name, v);
      else if (it->second.index() == v.index()) it->second = v;
      else if (it->second.index() == 1 && v.index() == 0) it->second = double(std::get<0>(v));
      else throw Reject{};
      return v;
    }
    case Node::seq: {
      Val v;
      for (auto& k : n->kids) v = eval(k, m);
      return v;
    }
    case Node::print_: {
      Val v = eval(n->kids[0], m);
      m.out += to_str(v);
      if (n->name == "println") m.out += "\n";
      return std::string("");
    }
    case Node::un: {
      Val v = eval(n->kids[0], m);
      const std::string& o = n->name;
      if (o == "#") {if (!is_s(v)) throw Reject{}; return int(std::get<2>(v).size());}
      if (is_s(v)) throw Reject{};
      if (o == "!") {if (!is_i(v)) throw Reject{}; return int(std::get<0>(v) == 0);}
      if (o == "-") {if (is_i(v)) return chk(-long(std::get<0>(v))); return -std::get<1>(v);}
      if (o == "abs") {if (is_i(v)) return chk(std::labs(std::get<0>(v))); return std::fabs(std::get<1>(v));}
      double x = num(v);
      if (o == "sqrt") return std::sqrt(x);
      if (o == "exp") return std::exp(x);
      if (o == "log") return std::log(x);
      if (o == "sin") return std::sin(x);
      if (o == "cos") return std::cos(x);
      if (o == "tan") return std::tan(x);
      if (o == "asin") return std::asin(x);
      if (o == "acos") return std::acos(x);
      if (o == "atan") return std::atan(x);
      if (!(std::fabs(x) < 2e9)) throw Reject{};
      if (o == "floor") return int(std::floor(x));
      if (o == "ceil") return int(std::ceil(x));
      if (o == "round") return int(std::round(x));
      throw Reject{};
    }
    case Node::bin: {
      Val a = eval(n->kids[0], m), b = eval(n->kids[1], m);
      const std::string& o = n->name;
      if (o == "#") {
        if (!is_s(a) || !is_i(b)) throw Reject{};
        int i = std::get<0>(b);
        if (i < 0 || i >= int(std::get<2>(a).size())) throw Reject{};
        return std::string(1, std::get<2>(a)[i]);
      }
      if (o == "+" && (is_s(a) || is_s(b))) return to_str(a) + to_str(b);
      if ((o == "==" || o == "!=") && is_s(a) && is_s(b)) return int((std::get<2>(a) == std::get<2>(b)) == (o == "=="));
      if (is_s(a) || is_s(b)) throw Reject{};
      if (is_i(a) && is_i(b)) {
        long x = std::get<0>(a), y = std::get<0>(b);
        if (o == "^") {
          if (y > 40 || y < -40 || (y < 0 && !x)) throw Reject{};
          long r = 1;
          for (int i = 0; i < y; ++i) r = chk(r*x);
          for (int i = 0; i > y; --i) r /= x;
          return int(r);
        }
        if (o == "%") {if (!y) throw Reject{}; return int(x%y);}
        if (o == "/") {if (!y) throw Reject{}; return chk(x/y);}
        if (o == "*") return chk(x*y);
        if (o == "-") return chk(x - y);
        if (o == "+") return chk(x + y);
        if (o == "==") return int(x == y);
        if (o == "!=") return int(x != y);
        if (o == ">=") return int(x >= y);
        if (o == "<=") return int(x <= y);
        if (o == "<") return int(x < y);
        if (o == ">") return int(x > y);
        if (o == "&") return int(x && y);
        if (o == "|") return int(x || y);
      }
      double x = num(a), y = num(b);
      if (o == "^") return std::pow(x, y);
      if (o == "/") return x/y;
      if (o == "*") return x*y;
      if (o == "-") return x - y;
      if (o == "+") return x + y;
      if (o == "==") return int(x == y);
      if (o == "!=") return int(!(x == y));
      if (o == ">=") return int(x >= y);
      if (o == "<=") return int(x <= y);
      if (o == "<") return int(x < y);
      if (o == ">") return int(x > y);
      if (o == "&") return int(x && y);
      if (o == "|") return int(x || y);
      throw Reject{};
    }
  }
  throw Reject{};
}

// ------------------------------------------------------------------ program text
//! source tokens: operands can start at tokens with `start`
struct Tok {std::string t; bool start = false; bool stmt = false;};
typedef std::vector<Tok> Toks;

static std::string quote(const std::string& s, Rng& rng, bool raw_ok = true)
{
  // unescaped braces are fine if balanced
  int d = 0; bool bal = true;
  for (char c : s) {if (c == '{') ++d; if (c == '}') --d; if (d < 0) bal = false;}
  bool raw = raw_ok && bal && !d && rng.chance(.5);
  std::string o = "{";
  for (char c : s) {if (c == '\\' || (!raw && (c == '{' || c == '}'))) o += '\\'; o += c;}
  return o + "}";
}

static std::string lit_text(const Val& v, Rng& rng)
{
  if (v.index() == 0) return std::string(rng.chance(.1) ? "0" : "") + std::to_string(std::get<0>(v));
  if (v.index() == 1) {
    double x = std::get<1>(v);
    std::string s = fmt(rng.chance(.3) ? "%.16e" : "%.17g", x);
    if (s.find_first_of(".e") == std::string::npos) s += rng.chance(.5) ? "." : ".0";
    if (s.size() > 2 && s.substr(0, 2) == "0." && std::isdigit(s[2]) && rng.chance(.3)) s = s.substr(1);
    if (rng.chance(.2)) for (char& c : s) if (c == 'e') c = 'E';
    return s;
  }
  return quote(std::get<2>(v), rng);
}

static void emit(const N& n, Toks& t, Rng& rng, int limit) // limit: operators of this precedence or more need parentheses
{
  bool par = rng.chance(.08);
  if (n->kind == Node::bin && prec.at(n->name) >= limit) par = true;
  if (n->kind == Node::assign || n->kind == Node::seq) par = par || limit < 100;
  if (n->kind == Node::seq) par = true;
  if (par) {t.push_back({"(", true}); limit = 100;}
  switch (n->kind) {
    case Node::lit: t.push_back({lit_text(n->val, rng), true}); break;
    case Node::var: t.push_back({n->name, true}); break;
    case Node::assign:
      t.push_back({n->name, true}); t.push_back({"="});
      emit(n->kids[0], t, rng, 100);
      break;
    case Node::seq:
      for (size_t i = 0; i < n->kids.size(); ++i) {
        if (i) t.push_back({rng.chance(.5) ? ";" : "\n"});
        emit(n->kids[i], t, rng, 100);
      }
      break;
    case Node::un: case Node::print_:
      t.push_back({n->name, true});
      emit(n->kids[0], t, rng, 0);
      break;
    case Node::bin: {
      int p = prec.at(n->name);
      emit(n->kids[0], t, rng, p + 1);
      t.push_back({n->name});
      emit(n->kids[1], t, rng, p);
      break;
    }
  }
  if (par) t.push_back({")"});
}

static bool wordy(char c) {return std::isalnum((unsigned char)c) || c == '_' || c == '.';}
static std::string join(const Toks& t, Rng& rng, size_t lo = 0, size_t hi = size_t(-1))
{
  std::string s;
  hi = std::min(hi, t.size());
  for (size_t i = lo; i < hi; ++i) {
    if (!s.empty()) {
      char a = s.back(), b = t[i].t[0];
      bool need = (wordy(a) && wordy(b)) || (a == '!' && b == '=') || (a == '=' && b == '=') || (a == '<' && b == '=') || (a == '>' && b == '=');
      if (need || rng.chance(.4)) s += std::string(rng.range(1, 2), ' ');
    }
    s += t[i].t;
  }
  return s;
}

// ------------------------------------------------------------------ generator
struct Gen
{
  Rng& rng;
  Model& m;
  int n_name = 0;
  Gen(Rng& r, Model& mm) : rng{r}, m{mm} {}
  std::string some_string()
  {
    static const std::string alpha = "abcXYZ019 _+-*/;=$#%^&|!<>.,'\"~";
    std::string s;
    int n = rng.chance(.2) ? 0 : rng.range(1, 8);
    for (int i = 0; i < n; ++i) {
      if (rng.chance(.12)) s += rng.pick(std::vector<std::string>{"{", "}", "\\", "\n", "{}", "\\{", "{a}"});
      else s += alpha[rng.below(int(alpha.size()))];
    }
    return s;
  }
  std::string var_of(int type)
  {
    std::vector<std::string> v;
    for (auto& p : m.vars) if (int(p.second.index()) == type) v.push_back(p.first);
    return v.empty() ? "" : rng.pick(v);
  }
  N mk(Node::Kind k, std::string name, std::vector<N> kids) {auto n = std::make_shared<Node>(); n->kind = k; n->name = name; n->kids = kids; return n;}
  N lit(Val v) {auto n = std::make_shared<Node>(); n->kind = Node::lit; n->val = v; return n;}
  N gen(int type, int depth)
  {
    if (depth <= 0 || rng.chance(.15)) {
      std::string v = rng.chance(.5) ? var_of(type) : "";
      if (!v.empty()) return mk(Node::var, v, {});
      if (type == 0) return lit(rng.chance(.7) ? rng.below(12) : rng.chance(.5) ? rng.below(100000) : rng.below(2147483647));
      if (type == 1) return lit(rng.chance(.5) ? rng.below(64)/8. : rng.chance(.5) ? rng.uniform(0, 10) : std::pow(10., rng.uniform(-20, 20)));
      return lit(some_string());
    }
    if (rng.chance(.05)) { // nested assignment
      std::string v = var_of(type);
      if (v.empty() || rng.chance(.3)) v = fmt("n%d_%d", type, ++n_name);
      if (!m.vars.count(v) || m.vars[v].index() == size_t(type)) return mk(Node::assign, v, {gen(type, depth - 1)});
    }
    if (rng.chance(.03)) return mk(Node::seq, "", {gen(rng.below(3), depth - 2), gen(type, depth - 1)});
    if (type == 0) switch (rng.below(12)) {
      case 0: return mk(Node::un, "-", {gen(0, depth - 1)});
      case 1: return mk(Node::un, "!", {gen(0, depth - 1)});
      case 2: return mk(Node::un, "#", {gen(2, depth - 1)});
      case 3: return mk(Node::un, rng.pick(std::vector<std::string>{"floor", "ceil", "round"}), {gen(rng.below(2), depth - 1)});
      case 4: return mk(Node::un, "abs", {gen(0, depth - 1)});
      case 5: return mk(Node::bin, rng.pick(std::vector<std::string>{"==", "!="}), {gen(2, depth - 1), gen(2, depth - 1)});
      case 6: case 7: return mk(Node::bin, rng.pick(std::vector<std::string>{"==", "!=", ">=", "<=", "<", ">", "&", "|"}), {gen(rng.below(2), depth - 1), gen(rng.below(2), depth - 1)});
      default: return mk(Node::bin, rng.pick(std::vector<std::string>{"^", "%", "/", "*", "-", "+", "+", "-", "*", "&", "|"}), {gen(0, depth - 1), gen(0, depth - 1)});
    }
    if (type == 1) switch (rng.below(8)) {
      case 0: return mk(Node::un, "-", {gen(1, depth - 1)});
      case 1: return mk(Node::un, "abs", {gen(1, depth - 1)});
      case 2: case 3: return mk(Node::un, rng.pick(std::vector<std::string>{"sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan"}), {gen(rng.below(2), depth - 1)});
      default: {
        int a = rng.below(2), b = a ? rng.below(2) : 1;
        return mk(Node::bin, rng.pick(std::vector<std::string>{"^", "/", "*", "-", "+", "/", "*", "-", "+"}), {gen(a, depth - 1), gen(b, depth - 1)});
      }
    }
    switch (rng.below(5)) {
      case 0: return mk(Node::bin, "#", {gen(2, depth - 1), gen(0, depth - 1)});
      case 1: return mk(Node::print_, rng.chance(.5) ? "print" : "println", {gen(rng.below(3), depth - 1)});
      default: {
        int a = rng.below(3), b = a == 2 ? rng.below(3) : 2;
        return mk(Node::bin, "+", {gen(a, depth - 1), gen(b, depth - 1)});
      }
    }
  }
  //! a statement that is valid in the model, which is advanced
  N statement()
  {
    for (int tries = 0; tries < 200; ++tries) {
      int type = rng.below(3);
      N e = gen(type, rng.range(0, 5));
      N s;
      switch (rng.below(8)) {
        case 0: s = e; break;
        case 1: s = mk(Node::print_, rng.chance(.5) ? "print" : "println", {e}); break;
        default: {
          std::string v = rng.chance(.5) ? var_of(type == 0 && rng.chance(.2) ? 1 : type) : "";
          if (v.empty()) v = rng.pick(std::vector<std::string>{"x", "_y", "Zed", "a_b", "q9", "sqrtx", "e", "E1", "_"}) + fmt("%d%s", type, rng.chance(.2) ? "_e5" : "");
          if (rng.chance(.1)) e = mk(Node::assign, fmt("c%d", type), {e});
          s = mk(Node::assign, v, {e});
        }
      }
      Model copy = m;
      try {eval(s, copy);} catch (Reject&) {continue;}
      for (auto& p : copy.vars) if (p.second.index() == 2 && std::get<2>(p.second).size() > 2000) throw std::runtime_error("generator");
      m = copy;
      return s;
    }
    return lit(0);
  }
};

//! replaces pieces of the text by macros that expand to the same text
static std::string macroize(Toks t, Rng& rng, int& n_macro, std::string& defs, long& used)
{
  int n = rng.chance(.5) ? 0 : rng.range(1, 3);
  for (int k = 0; k < n; ++k) {
    std::vector<size_t> st;
    for (size_t i = 0; i < t.size(); ++i) if (t[i].start) st.push_back(i);
    if (st.empty()) break;
    size_t lo = rng.pick(st);
    size_t hi = std::min(t.size(), lo + 1 + rng.below(6));
    // the rest must not turn the macro into an assignment
    while (hi < t.size() && t[hi].t == "=") ++hi;
    hi = std::min(hi, t.size());
    std::string body = join(t, rng, lo, hi);
    bool glue = hi < t.size() && wordy(t[hi].t[0]); // keep names separate after insertion
    if (glue) body += " ";
    Tok nt;
    nt.start = true;
    switch (rng.below(4)) {
      case 0: nt.t = "$" + quote(body, rng); break;
      case 1: nt.t = "$(" + quote(body, rng) + ")"; break;
      case 2: { // assembled from parts
        size_t cut = rng.below(int(body.size()) + 1);
        nt.t = "$(" + quote(body.substr(0, cut), rng) + " + " + quote(body.substr(cut), rng) + ")";
        break;
      }
      default:
        std::string nm = fmt("mac%d", ++n_macro);
        defs += nm + " = " + quote(body, rng) + (rng.chance(.5) ? "\n" : "; ");
        nt.t = "$" + nm;
    }
    ++used;
    t.erase(t.begin() + lo, t.begin() + hi);
    t.insert(t.begin() + lo, nt);
  }
  return join(t, rng);
}

static Val observe(hexed::Namespace& ns, const std::string& n)
{
  if (auto i = ns.lookup<int>(n)) return *i;
  if (auto s = ns.lookup<std::string>(n)) return *s;
  if (auto d = ns.lookup<double>(n)) return *d;
  return std::string("<missing>");
}

static void compare(Monitor& m, Interpreter& in, Model& mod, Rec_printer& pr, const std::string& text)
{
  for (auto& p : mod.vars) {
    Val got = observe(*in.variables, p.first);
    m.checkf(same(got, p.second), "variable", [&] {return "`" + p.first + "` is " + show(got) + " instead of " + show(p.second) + " after:\n" + text;});
  }
  m.checkf(pr.out == mod.out, "printed", [&] {return "printed {" + pr.out + "} instead of {" + mod.out + "} by:\n" + text;});
}

static void run_sem(Monitor& m)
{
  m.run([&](Rng& rng, int icase) {
    Model mod;
    Gen g(rng, mod);
    bool lib = icase%8 == 0; // loading the standard library is slow
    Interpreter in = lib ? Interpreter() : Interpreter(std::vector<std::string>{});
    auto pr = std::make_shared<Rec_printer>();
    in.printer = pr;
    int n_macro = 0;
    std::string all;
    int n_exec = rng.range(1, 4);
    for (int ie = 0; ie < n_exec; ++ie) {
      std::string text;
      int n = rng.range(1, 8);
      for (int is = 0; is < n; ++is) {
        std::string sep = rng.chance(.5) ? "\n" : rng.chance(.5) ? ";" : " ;\n ";
        if (rng.chance(.05)) text += quote("comment " + g.some_string(), rng) + sep;
        int kind = rng.below(lib ? 14 : 10);
        if (kind < 9) {
          N s = g.statement();
          Toks t;
          emit(s, t, rng, 100);
          long used = 0;
          std::string defs, body = macroize(t, rng, n_macro, defs, used);
          text += defs + body + sep;
          m.count("macros", used);
        } else if (kind == 9) { // exit stops this program and nothing else
          if (!rng.chance(.3)) continue;
          text += rng.chance(.5) ? "exit" + sep + "undefined_thing = }}(" : "xx2 = {}; ( (exit) )" + sep + "( 1 + {";
          m.count("exit");
          break;
        } else { // control flow macros of the standard library
          std::string cnt = fmt("i%d", rng.below(3)), inner_cnt = "j0";
          int lim = rng.below(6);
          // body statements are executed repeatedly
          std::vector<N> body;
          Model dry = mod;
          dry.vars[cnt] = 0;
          for (int b = rng.range(1, 3); b > 0; --b) {
            Model save = mod;
            mod.vars = dry.vars;
            Gen gg(rng, mod);
            N s = gg.statement();
            mod = save;
            body.push_back(s);
          }
          bool cond = kind == 12;
          N pred;
          if (cond) {
            Model save = mod; mod.vars = dry.vars;
            Gen gg(rng, mod);
            pred = gg.gen(0, 2);
            mod = save;
          }
          int nest = kind == 13 ? rng.range(1, 3) : 0;
          Model trial = mod;
          bool ok = true;
          try {
            trial.vars[cnt] = 0;
            for (int i = 0; i < lim; ++i) {
              bool taken = true;
              if (cond) taken = std::get<0>(eval(pred, trial)) != 0;
              for (int j = 0; j < std::max(nest, 1); ++j) {
                if (nest) trial.vars[inner_cnt] = j;
                if (taken) for (auto& s : body) eval(s, trial);
              }
              if (nest) trial.vars[inner_cnt] = nest;
              Val c = trial.vars[cnt];
              if (c.index()) throw Reject{};
              if (std::get<0>(c) != i) throw Reject{}; // the body assigned the counter
              trial.vars[cnt] = i + 1;
            }
            for (auto& p : trial.vars) if (p.second.index() == 2 && std::get<2>(p.second).size() > 3000) throw Reject{};
          } catch (Reject&) {ok = false;}
          bool existing = mod.vars.count(cnt) && mod.vars[cnt].index() != 0;
          bool touches_inner = false;
          for (auto& s : body) {
            std::function<void(const N&)> scan = [&](const N& x) {if (x->name == inner_cnt) touches_inner = true; for (auto& k : x->kids) scan(k);};
            scan(s);
          }
          if (!ok || existing || (nest && touches_inner)) {m.count("rejected-loops"); continue;}
          mod = trial;
          std::string code;
          for (auto& s : body) {Toks t; emit(s, t, rng, 100); code += join(t, rng) + "\n";}
          if (cond) {
            Toks t; emit(pred, t, rng, 100);
            std::string ps = join(t, rng);
            code = "case0 = {}\ncase1 = " + quote(code, rng, false) + "\n$$({case} + ((" + ps + ") != 0))\n";
          } else if (nest) {
            code = inner_cnt + " = 0\nwhile = {" + inner_cnt + fmt(" < %d}\ndo = ", nest) + quote(code + inner_cnt + " = " + inner_cnt + " + 1", rng, false) + "\n$loop\n";
          }
          text += cnt + " = 0\nwhile = {" + cnt + fmt(" < %d}\ndo = ", lim) + quote(code + cnt + " = " + cnt + " + 1", rng, false) + "\n$loop" + sep;
          m.count("loops"); m.count("loop-iterations", lim*std::max(nest, 1));
        }
      }
      m.phase("exec");
      all += "---\n" + text;
      try {in.exec(text);}
      catch (const std::exception& e) {m.viol("exception", std::string(e.what()).substr(0, 300) + "\nin:\n" + all); return;}
      compare(m, in, mod, *pr, all);
      m.evaluated(hash_str(text), text.size() > 10);
      m.count("programs");
      // errors: the program stops there, variables stay, the next program works
      if (rng.chance(.3)) {
        std::string v = g.var_of(0);
        N s = g.statement();
        Toks t; emit(s, t, rng, 100);
        std::string pre = join(t, rng) + "\n";
        std::string post = rng.chance(.5) ? "\nxx = 1/0." : ";bad_after = 7";
        std::string bad; bool hil = true;
        switch (rng.below(6)) {
          case 0: bad = "zz = undefined_name + 1"; break;
          case 1: bad = "zz = sqrt {abc}"; break;
          case 2: bad = "zz = {abc} * 3"; break;
          case 3: bad = "zz = 3.5 % 2"; break;
          case 4: bad = "zz = ]"; break;
          default:
            if (v.empty()) bad = "zz = !{a}";
            else {bad = v + " = 2.5"; hil = false;} // the type of a variable is fixed
        }
        if (hil && rng.chance(.5)) {
          // exception handler: runs in place of the failed statement, then the program continues
          std::string fresh = fmt("h%d", ++n_macro);
          std::string hc = fresh + " = " + (rng.chance(.5) ? "#exception > 10" : "1");
          mod.vars[fresh] = 1;
          mod.vars["bad_after"] = 7;
          std::string txt = pre + "except = {" + hc + "}\n" + bad + ";bad_after = 7";
          all += "---\n" + txt;
          try {in.exec(txt);}
          catch (const std::exception& e) {m.viol("handler-exception", std::string(e.what()).substr(0, 300) + "\nin:\n" + all); return;}
          m.count("handlers");
          m.checkf(!in.variables->lookup<std::string>("except").value().size() && !in.variables->lookup<std::string>("exception").value().size(), "handler-reset", [&] {return all;});
        } else {
          std::string txt = pre + bad + post;
          all += "---\n" + txt;
          bool thrown = false;
          bool unhandled = false;
          try {in.exec(txt);}
          catch (const Interpreter::Hil_unhandled_exception& e) {thrown = true; unhandled = true;}
          catch (const std::exception& e) {thrown = true;}
          m.checkf(thrown && (unhandled || !hil), "error-reported", [&] {return std::string(thrown ? "wrong exception type" : "no exception") + " in:\n" + all;});
          m.count("errors");
        }
        compare(m, in, mod, *pr, all);
      }
    }
    // a sub-interpreter sees the variables but does not change them; any depth
    {
      std::vector<Interpreter*> chain;
      Interpreter s1 = in.make_sub(), s2 = s1.make_sub(), s3 = s2.make_sub();
      for (auto* s : {&s1, &s2, &s3}) {
        if (mod.vars.empty()) break;
        std::vector<std::string> names;
        for (auto& p : mod.vars) if (!(p.second.index() == 1 && std::isnan(std::get<1>(p.second)))) names.push_back(p.first);
        if (names.empty()) break;
        std::string n = rng.pick(names);
        try {s->exec("sub_result = " + n + "\n" + n + " = sub_result + {}");}
        catch (const std::exception& e) {
          // assigning the string version is fine because it makes a new variable in the sub-namespace
          m.viol("sub-interpreter", std::string("depth ") + std::to_string(s == &s1 ? 1 : s == &s2 ? 2 : 3) + ": " + std::string(e.what()).substr(0, 200) + "\n" + all);
          return;
        }
        Val got = observe(*s->variables, "sub_result");
        m.checkf(same(got, mod.vars[n]), "sub-value", [&] {return n + " is " + show(got) + " instead of " + show(mod.vars[n]) + "\n" + all;});
        Val got1 = observe(*s->variables, n);
        m.checkf(same(got1, Val(to_str(mod.vars[n]))), "sub-shadow", [&] {return n + " is " + show(got1) + "\n" + all;});
        m.count("sub-interpreters");
        if (s == &s1) { // shadowed for the deeper ones
          Model sub = mod; sub.vars[n] = to_str(mod.vars[n]);
          mod.vars[n] = mod.vars[n];
          break;
        }
      }
      // depth 3 sees the top level
      if (!mod.vars.empty()) {
        Interpreter t1 = in.make_sub(), t2 = t1.make_sub(), t3 = t2.make_sub();
        std::string n = mod.vars.begin()->first;
        try {
          t3.exec("sub_result = " + n);
          m.checkf(same(observe(*t3.variables, "sub_result"), mod.vars[n]), "sub-value-deep", [&] {return all;});
        } catch (const std::exception& e) {m.viol("sub-interpreter-deep", std::string(e.what()).substr(0, 200));}
      }
      compare(m, in, mod, *pr, all + "\n(after sub-interpreters)");
    }
    // structured expressions give the same numbers as executing the code
    {
      std::string code;
      std::vector<double> expect; std::vector<std::string> names;
      Model mm = mod;
      for (int i = rng.range(1, 4); i > 0; --i) {
        int type = rng.below(2);
        N e;
        Val v;
        std::string nm = fmt("se%d_%d", i, type);
        bool good = false;
        for (int t = 0; t < 100 && !good; ++t) {
          Gen gg(rng, mm);
          e = gg.gen(type, 3);
          Model c = mm;
          std::function<bool(const N&)> simple = [&](const N& x) {
            if (x->kind == Node::seq || x->kind == Node::assign || x->kind == Node::print_) return false;
            if (x->kind == Node::lit && is_s(x->val)) return std::get<2>(x->val).find_first_of(";\n=") == std::string::npos;
            for (auto& k : x->kids) if (!simple(k)) return false;
            return true;
          };
          if (!simple(e)) continue;
          try {v = eval(e, c); good = true; mm.vars[nm] = v;} catch (Reject&) {}
        }
        if (!good) continue;
        Toks t; emit(e, t, rng, 100);
        code += std::string(rng.below(3), ' ') + nm + std::string(rng.below(3), ' ') + "=" + std::string(rng.below(3), ' ') + join(t, rng) + (rng.chance(.5) ? ";" : "\n");
        names.push_back(nm); expect.push_back(num(v));
      }
      hexed::Struct_expr se(code);
      auto sub = in.make_sub();
      m.phase("struct_expr");
      try {
        auto vals = se.eval(sub);
        bool ok = vals.size() == expect.size() && se.names == names;
        for (size_t i = 0; ok && i < vals.size(); ++i) ok = vals[i] == expect[i] || (std::isnan(vals[i]) && std::isnan(expect[i]));
        m.checkf(ok, "struct-expr", [&] {return code;});
      } catch (const std::exception& e) {m.viol("struct-expr-exception", std::string(e.what()).substr(0, 300) + "\n" + code);}
    }
    // shell gets exactly the command and returns exactly the status
    shell_calls.clear();
    shell_result = rng.below(1000);
    std::string cmd = g.some_string();
    try {
      in.exec("shell_status = shell " + quote(cmd, rng));
      m.check(shell_calls.size() == 1 && shell_calls[0] == cmd && in.variables->lookup<int>("shell_status").value() == shell_result, "shell", cmd);
    } catch (const std::exception& e) {m.viol("shell-exception", e.what());}
    m.sample(all.substr(0, 600));
  });
}

// ------------------------------------------------------------------ hostile input
static void run_fuzz(Monitor& m)
{
  static const std::vector<std::string> frag {"(", ")", "{", "}", "\\", "$", "=", "==", "!=", "<", ">=", "+", "-", "*", "/", "%", "^", "#", "!", "&", "|", ";", "\n", " ", "  ",
    "0", "1", "2", "3", "7", "-1", "2147483647", "-2147483648", "99999999999", "1e400", "1e-400", "0.0", ".", "5e", "1.2.3", "1e+5", "1e+", "0x10", "e", "E5",
    "x", "y", "s", "i", "undefd", "sqrt", "exp", "log", "abs", "round", "floor", "ceil", "asin", "print", "println", "read", "shell", "exit", "throw", "except", "exception", "huge", "loop", "while", "do",
    "split", "split_str", "split_at", "pi", "false", "true", "newline", "format_double", "{abc}", "{}", "{1 + 1}", "{%s}", "{%d}", "{%n}", "{%.500f}", "{%5.2e}", "{%*d}", "{%%}", "{/nonexistent/file}", "{/}", "system_time",
    "x = 3", "y = 2.5", "s = {abc}", "x = ", "$s", "${", "$(", "$$", "{\\", "}\\", "x#", "s#", "s#3", "s#-1", "1/0", "1%0", "0^-1", "1./0", "(((((", ")))))", "-----", "\t", "\r", "\0", "\xff", "\x80", "@", "\"", "'", ",", ":", "[", "]", "?", "~", "`",
    "except = {x = 1}", "except = {undefd}", "except = {exit}", "huge*huge", "0.*huge^2", "ask"};
  m.run([&](Rng& rng, int icase) {
    bool lib = icase%6 == 0;
    Interpreter in = lib ? Interpreter() : Interpreter(std::vector<std::string>{});
    auto pr = std::make_shared<Rec_printer>();
    in.printer = pr;
    in.exec("keep_i = 41; keep_d = 0.125; keep_s = {str{}}; x = 1; y = 1.5; s = {abc}; i = 0");
    int n_exec = rng.range(3, 12);
    for (int ie = 0; ie < n_exec; ++ie) {
      std::string text;
      int style = rng.below(5);
      if (style == 0) { // bytes
        int n = rng.range(0, 40);
        for (int k = 0; k < n; ++k) text += char(rng.chance(.7) ? rng.range(32, 126) : rng.below(256));
      } else if (style == 4) { // deep nesting
        std::string f = rng.pick(std::vector<std::string>{"(", "-", "!", "{", "1+(", "sqrt ", "x=", "$", "#", "1^(", "(-", "1-"});
        int n = rng.chance(.9) ? rng.range(1, 900) : rng.chance(.5) ? 20000 : 300000;
        for (int k = 0; k < n; ++k) text += f;
        if (rng.chance(.5)) text += "1";
        m.count("deep");
      } else { // well-formed program, mutated; or token soup
        if (style == 1) {
          int n = rng.range(1, 14);
          for (int k = 0; k < n; ++k) {text += rng.pick(frag); if (rng.chance(.3)) text += " ";}
        } else {
          Model mod;
          mod.vars = {{"x", 1}, {"y", 1.5}, {"s", std::string("abc")}, {"i", 0}};
          Gen g(rng, mod);
          for (int k = rng.range(1, 4); k > 0; --k) {
            N s = g.statement();
            Toks t; emit(s, t, rng, 100);
            if (style == 3) for (int e = rng.range(1, 3); e > 0 && !t.empty(); --e) { // edit tokens
              size_t at = rng.below(int(t.size()));
              switch (rng.below(4)) {
                case 0: t.erase(t.begin() + at); break;
                case 1: t.insert(t.begin() + at, Tok{rng.pick(frag)}); break;
                case 2: t[at].t = rng.pick(frag); break;
                default: std::swap(t[at], t[rng.below(int(t.size()))]);
              }
              for (auto& x : t) if (x.t.empty()) x.t = " ";
            }
            text += join(t, rng) + (rng.chance(.5) ? "\n" : ";");
          }
          if (style == 2) for (int e = rng.range(1, 4); e > 0 && !text.empty(); --e) { // edit characters
            size_t at = rng.below(int(text.size()));
            switch (rng.below(4)) {
              case 0: text.erase(at, rng.range(1, 3)); break;
              case 1: text.insert(at, rng.pick(frag)); break;
              case 2: text[at] = char(rng.range(32, 126)); break;
              default: text.resize(at); // truncation
            }
          }
        }
      }
      // keep the run short: no endless macro recursion or giant powers
      // (`$` in front of names that contain themselves cannot occur: only quoted fragments are ever substituted)
      m.phase("exec " + esc(text.substr(0, 500)));
      shell_calls.clear();
      bool threw = false, known = true;
      std::string what;
      try {in.exec(text);}
      catch (const Interpreter::Hil_unhandled_exception& e) {threw = true; what = e.what();}
      catch (const Interpreter::Hil_exception& e) {threw = true; what = e.what();}
      catch (const hexed::assert::Exception& e) {threw = true; what = e.what();}
      catch (const std::runtime_error& e) {threw = true; what = e.what();}
      catch (const std::exception& e) {threw = true; known = false; what = e.what();}
      m.checkf(known, "foreign-exception", [&] {return what.substr(0, 200) + " from:\n" + text.substr(0, 500);});
      m.count(threw ? "rejected" : "accepted");
      m.evaluated(hash_str(text), !text.empty());
      if (!known) return;
      // the session is still usable and remembers its variables
      try {
        m.checkf(in.variables->lookup<int>("keep_i").value() == 41 && in.variables->lookup<double>("keep_d").value() == .125 && in.variables->lookup<std::string>("keep_s").value() == "str{}",
                 "variables-kept", [&] {return text.substr(0, 500);});
        if (in.variables->lookup<std::string>("except").value_or("").size()) in.exec("except = {}");
        in.exec("probe = 0; probe = (2 + 3)*keep_i; probe_s = keep_s + 1");
        m.checkf(in.variables->lookup<int>("probe").value() == 205 && in.variables->lookup<std::string>("probe_s").value() == "str{}1", "usable", [&] {return text.substr(0, 500);});
      } catch (const std::exception& e) {m.viol("unusable", std::string(e.what()).substr(0, 300) + "\nafter:\n" + text.substr(0, 500)); return;}
      // the same text as a structured expression
      if (rng.chance(.3) && text.size() < 300) {
        m.phase("struct_expr " + esc(text));
        auto sub = in.make_sub();
        try {hexed::Struct_expr se(text); se.eval(sub); m.count("struct-accepted");}
        catch (const std::exception&) {m.count("struct-rejected");}
      }
    }
    m.sample("session of " + std::to_string(n_exec));
  });
}

int main(int argc, char** argv)
{
  // the sanitized stack frames are about 4 times as large as those of the library as shipped, so allow 4 times the usual stack
  if (!getenv("HEXED_STACK_SET")) {
    setenv("HEXED_STACK_SET", "1", 1);
    rlimit lim {};
    getrlimit(RLIMIT_STACK, &lim);
    rlim_t want = 32 << 20;
    if (lim.rlim_max != RLIM_INFINITY && lim.rlim_max < want) want = lim.rlim_max;
    lim.rlim_cur = want;
    setrlimit(RLIMIT_STACK, &lim);
    execv("/proc/self/exe", argv);
  }
  Monitor m(argc, argv);
  if (!freopen("/dev/null", "r", stdin)) return 3;
  if (m.mode == "sem") run_sem(m);
  else if (m.mode == "fuzz") run_fuzz(m);
  else return 2;
  return m.finish();
}
