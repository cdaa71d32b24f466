// monitors of the scripting interface to the solver: every case is run once by a generated HIL script and once by direct library calls
#include "flow.hpp"
#include <Case.hpp>
#include <Occt.hpp>
#include <criteria.hpp>
#include <standard_atmosphere.hpp>
#include <Boundary_func.hpp>
#include <Domain_func.hpp>
#include <Element_func.hpp>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <omp.h>
#include <unistd.h>

using namespace scene;
using mon::Monitor;
namespace fs = std::filesystem;

static const double R = 287.05287, G = 1.4; // gas constant of air (checked against the published value by the atmosphere monitors) and heat capacity ratio

static std::string num(double x)
{
  std::string s = fmt("%.17g", x);
  if (s.find_first_of(".en") == std::string::npos) s += ".";
  return s;
}

struct Scratch
{
  fs::path dir;
  Scratch()
  {
    char name[] = "/tmp/hexed_case_XXXXXX";
    if (!mkdtemp(name)) throw std::runtime_error("no scratch directory");
    dir = name;
  }
  ~Scratch() {std::error_code ec; fs::remove_all(dir, ec);}
};

struct Hush // nothing that scripts print is of interest on the terminal
{
  std::ostringstream sink;
  std::streambuf* old;
  Hush() : old{std::cout.rdbuf(sink.rdbuf())} {}
  ~Hush() {std::cout.rdbuf(old);}
};

//! everything that was printed with a marker
struct Printed
{
  std::map<std::string, std::vector<std::string>> val;
  std::string text;
  Printed(fs::path p)
  {
    std::ifstream f(p);
    std::stringstream ss; ss << f.rdbuf();
    text = ss.str();
    std::istringstream in(text);
    for (std::string line; std::getline(in, line);) if (line.substr(0, 2) == "@ ") {
      size_t k = line.find('=');
      if (k != std::string::npos) val[line.substr(2, k - 2)].push_back(line.substr(k + 1));
    }
  }
  bool has(std::string n) {return val.count(n);}
  double num(std::string n) {return has(n) ? atof(val[n].back().c_str()) : std::nan("");}
};
static std::string show(std::string name) {return "println({@ " + name + "=} + " + name + ")\n";}

struct Free // freestream specification and what it must mean
{
  std::string script, kind;
  Mat<> state, vel, dir;
  double rho, p, t, a, speed, mach;
  bool raw = false; //!< state vector given directly
};

static Free random_free(Rng& rng, int nd)
{
  Free f;
  f.rho = std::exp(rng.uniform(-4, 1));
  f.t = rng.uniform(150, 500);
  f.p = f.rho*R*f.t;
  f.raw = rng.chance(.1);
  double offset = 0, alt = 0;
  int thermo = rng.below(4);
  if (f.raw) thermo = 4;
  if (thermo == 3) {
    alt = rng.uniform(0, 80e3);
    if (rng.chance(.5)) offset = rng.uniform(-20, 20);
    auto dp = standard_atmosphere(alt, offset);
    f.rho = dp[0]; f.p = dp[1]; f.t = f.p/f.rho/R;
  }
  switch (thermo) {
    case 0: f.script += "freestream_density = " + num(f.rho) + "\nfreestream_pressure = " + num(f.p) + "\n"; f.kind = "density-pressure"; break;
    case 1: f.script += "freestream_density = " + num(f.rho) + "\nfreestream_temperature = " + num(f.t) + "\n"; f.kind = "density-temperature"; break;
    case 2: f.script += "freestream_temperature = " + num(f.t) + "\nfreestream_pressure = " + num(f.p) + "\n"; f.kind = "pressure-temperature"; break;
    case 3: f.script += "altitude = " + num(alt) + "\n"; if (offset != 0) f.script += "temperature_offset = " + num(offset) + "\n"; f.kind = "altitude"; break;
    default: f.kind = "state"; break;
  }
  f.a = std::sqrt(G*f.p/f.rho);
  f.mach = rng.chance(.1) ? 0. : rng.uniform(.1, 2.5);
  f.speed = f.mach*f.a;
  f.dir = Mat<>::Zero(nd);
  int d = rng.below(3);
  double at = 0, sl = 0;
  if (d == 0) { // direction vector, not normalised
    for (int i = 0; i < nd; ++i) f.dir(i) = rng.normal() + (i == 0)*.1;
    double len = f.dir.norm();
    if (!f.raw) for (int i = 0; i < nd; ++i) f.script += fmt("freestream_direction%d = ", i) + num(f.dir(i)) + "\n";
    f.dir /= len;
    f.kind += "-direction";
  } else { // aerodynamic angles: lift axis up for positive angle of attack, which rotates in the plane of the first and the last axis
    if (d == 1) {
      if (nd > 1) at = rng.uniform(-1.5, 1.5);
      if (nd > 2) sl = rng.uniform(-1.5, 1.5);
      if (nd > 1) f.script += "attack = " + num(at) + "\n";
      if (nd > 2) f.script += "sideslip = " + num(sl) + "\n";
      f.kind += "-angles";
    }
    f.dir(0) = std::cos(at);
    if (nd == 2) f.dir(1) = std::sin(at);
    if (nd == 3) {
      f.dir(0) = std::cos(at)*std::cos(sl);
      f.dir(1) = std::cos(at)*std::sin(sl);
      f.dir(2) = std::sin(at);
    }
  }
  if (f.raw) f.script = "";
  f.vel = f.speed*f.dir;
  if (f.raw) f.kind = "state";
  else switch (rng.below(3)) {
    case 0: f.script += "freestream_speed = " + num(f.speed) + "\n"; f.kind += "-speed"; break;
    case 1: f.script += "freestream_mach = " + num(f.mach) + "\n"; f.kind += "-mach"; break;
    default:
      for (int i = 0; i < nd; ++i) f.script += fmt("freestream_velocity%d = ", i) + num(f.vel(i)) + "\n";
      f.kind += "-velocity";
      if (f.speed == 0) f.dir.setZero(); // a velocity of zero has no direction
  }
  f.state.resize(nd + 2);
  f.state.head(nd) = f.rho*f.vel;
  f.state(nd) = f.rho;
  f.state(nd + 1) = f.p/(G - 1) + .5*f.rho*f.vel.squaredNorm();
  if (f.raw) for (int i = 0; i < nd + 2; ++i) f.script += fmt("freestream%d = ", i) + num(f.state(i)) + "\n";
  return f;
}

static std::string show_free(int nd, bool raw)
{
  std::string s;
  for (int i = 0; i < nd + 2; ++i) s += show(fmt("freestream%d", i));
  for (std::string n : {"density", "pressure", "temperature", "speed", "mach", "sound_speed"}) s += show("freestream_" + n);
  for (int i = 0; i < nd; ++i) s += show(fmt("freestream_velocity%d", i)) + show(fmt("freestream_direction%d", i));
  return s;
}

static void check_free(Monitor& m, Printed& out, Free& f, int nd, std::string context)
{
  m.count("free-" + f.kind.substr(0, f.kind.find('-')));
  m.count("free-by" + f.kind.substr(f.kind.rfind('-') == std::string::npos ? 0 : f.kind.rfind('-')));
  auto eq = [&](std::string name, double want, double scale) {
    if (!out.has(name)) {m.viol("freestream-missing", name + " not available (" + f.kind + ") " + context); return;}
    double got = out.num(name);
    m.worst(std::abs(got - want)/scale, 1e-9, "freestream", [&] {return fmt("%s is %.17g, not %.17g (%s) %s", name.c_str(), got, want, f.kind.c_str(), context.c_str());});
  };
  double ms = f.rho*(f.speed + f.a*1e-3);
  for (int i = 0; i < nd; ++i) eq(fmt("freestream%d", i), f.state(i), ms);
  for (int i = nd; i < nd + 2; ++i) eq(fmt("freestream%d", i), f.state(i), f.state(i));
  eq("freestream_density", f.rho, f.rho); eq("freestream_pressure", f.p, f.p); eq("freestream_temperature", f.t, f.t);
  eq("freestream_speed", f.speed, f.speed + f.a*1e-3); eq("freestream_sound_speed", f.a, f.a); eq("freestream_mach", f.mach, f.mach + 1e-3);
  for (int i = 0; i < nd; ++i) {
    eq(fmt("freestream_velocity%d", i), f.vel(i), f.speed + f.a*1e-3);
    if (f.mach > 0) eq(fmt("freestream_direction%d", i), f.dir(i), 1);
  }
  m.flush_worst();
}

// ------------------------------------------------------------------------------------------------ freestream
static void mode_free(Monitor& m)
{
  m.run([&](Rng& rng, int) {
    int nd = rng.range(1, 3);
    Scratch dir;
    Free f = random_free(rng, nd);
    bool bad = rng.chance(.3);
    std::string fault;
    std::string pre = fmt("n_dim = %d\nrow_size = 2\n", nd), spec = f.script, post;
    std::vector<std::string> lines;
    if (bad) {
      std::istringstream in(spec);
      for (std::string l; std::getline(in, l);) lines.push_back(l);
      auto has = [&](std::string s) {return spec.find(s + " =") != std::string::npos;};
      for (int tries = 0; fault.empty() && tries < 100; ++tries) switch (rng.below(13)) {
        case 0: pre = fmt("n_dim = %d\nrow_size = 2\n", rng.pick(std::vector<int>{0, 4, -1, 100})); fault = "dimension"; break;
        case 1: pre = fmt("n_dim = %d\nrow_size = %d\n", nd, rng.pick(std::vector<int>{1, 0, -2, config::max_row_size + 1, 1000})); fault = "row size"; break;
        case 2: // over- or underspecified thermodynamics
          if (f.raw) break;
          if (has("altitude")) spec += "freestream_temperature = 300.\n";
          else for (std::string n : {"density", "pressure", "temperature"}) if (!has("freestream_" + n)) {spec += "freestream_" + n + " = 1.\n"; break;}
          fault = "thermodynamics overspecified"; break;
        case 3:
          if (f.raw || has("altitude")) break;
          spec = ""; {bool gone = false; for (auto& l : lines) {if (!gone && (l.find("_density") != std::string::npos || l.find("_pressure") != std::string::npos)) gone = true; else spec += l + "\n";}}
          fault = "thermodynamics underspecified"; break;
        case 4:
          if (f.raw) break;
          spec += has("freestream_speed") ? "freestream_mach = .5\n" : "freestream_speed = 1.\n";
          fault = "velocity overspecified"; break;
        case 5:
          if (f.raw) break;
          spec = ""; for (auto& l : lines) if (l.find("_speed") == std::string::npos && l.find("_mach") == std::string::npos && l.find("_velocity") == std::string::npos) spec += l + "\n";
          fault = "velocity missing"; break;
        case 6:
          if (nd == 1 || !(has("freestream_velocity1") || has("freestream_direction1") || has("freestream1"))) break;
          spec = ""; for (auto& l : lines) {if (l.substr(0, 11) == "freestream1" || l.substr(0, 20) == "freestream_velocity1" || l.substr(0, 21) == "freestream_direction1") continue; spec += l + "\n";}
          fault = "component missing"; break;
        case 7: post = fmt("extremal_bc%d%d = {%s}\n", rng.below(nd), rng.below(2), rng.pick(std::vector<std::string>{"nonsense", "", "Outflow", "no_slip "}).c_str()); fault = "boundary condition"; break;
        case 8: post = fmt("mesh_extreme%d0 = 2.\n", rng.below(nd)); fault = "mesh extremes"; break;
        case 9: post = std::string(rng.chance(.5) ? "viscosity" : "conductivity") + "_model = {ref_value = 1.; ref_temperature = 300.}\n"; fault = "transport model"; break;
        case 10:
          if (f.raw) break;
          if (!has("altitude")) {spec = "altitude = 1e3\n" + spec; fault = "altitude and state"; break;}
          spec = ""; for (auto& l : lines) spec += (l.substr(0, 8) == "altitude" ? std::string("altitude = ") + (rng.chance(.5) ? "-1e5" : "1e6") : l) + "\n";
          fault = "altitude out of range"; break;
        case 11: post = fmt("extremal_bc%d%d = {no_slip}\nthermal_bc = {%s}\n", rng.below(nd), rng.below(2), rng.pick(std::vector<std::string>{"", "nonsense = 1.", "heat_transfer_coef = 1.", "emissivity = 1.; temperature = 1."}).c_str()); fault = "thermal condition"; break;
        case 12: pre = "row_size = 2\n"; fault = "dimension missing"; break;
      }
      m.count("fault:" + fault);
    }
    std::string wd = dir.dir.string() + "/out";
    std::string script = "format_double = {%.17g}\n" + pre + spec + post + "working_dir = {" + wd + "}\n$start\n" + show_free(nd, f.raw);
    std::string path = dir.dir.string() + "/run.hil";
    std::ofstream(path) << script;
    std::string error;
    {
      Hush h;
      try {Case c(path);}
      catch (const std::exception& e) {error = e.what(); if (error.empty()) error = "?";}
    }
    m.evaluated(mon::hash_str(script));
    if (bad) m.checkf(!error.empty(), "fault-accepted", [&] {return "no error although: " + fault + "\n" + script;});
    else {
      if (!error.empty()) {m.viol("exception", error.substr(0, 600) + "\n" + script); return;}
      Printed out(wd + "/output.txt");
      check_free(m, out, f, nd, "in\n" + script);
    }
  });
}

// ------------------------------------------------------------------------------------------------ whole cases
struct Init : public Spacetime_func
{
  int nd;
  std::function<std::vector<double>(std::vector<double>)> f;
  int n_var(int) const override {return nd + 2;}
  std::vector<double> operator()(std::vector<double> pos, double) const override {return f(pos);}
};

struct Surf_integrand : public Boundary_func
{
  int nd;
  int n_var(int) const override {return nd + 3;}
  //! total traction on the surface, its area and the heat flux into it
  std::vector<double> operator()(Boundary_connection& con, int i, double t) const override
  {
    int nfq = con.storage_params().n_qpoint()/con.storage_params().row_size;
    double* u = con.inside_face(false);
    double* nrml = con.surface_normal();
    int sign = 1 - 2*con.inside_face_sign(); // normal into the fluid
    double mag = 0, ke = 0;
    for (int d = 0; d < nd; ++d) {mag += std::pow(nrml[d*nfq + i], 2); ke += .5*std::pow(u[d*nfq + i], 2)/u[nd*nfq + i];}
    mag = std::sqrt(mag);
    double p = .4*(u[(nd + 1)*nfq + i] - ke);
    std::vector<double> r;
    auto v = Viscous_stress()(con, i, t);
    for (int d = 0; d < nd; ++d) r.push_back(-p*sign*nrml[d*nfq + i]/mag + (visc ? v[d] : 0));
    r.push_back(1);
    r.push_back(visc ? Heat_flux()(con, i, t)[0] : 0);
    r.push_back(p);
    return r;
  }
  bool visc;
};

struct Field_integrand : public Qpoint_func
{
  int nd;
  int n_var(int) const override {return 3;}
  std::vector<double> operator()(Element& e, const Basis& b, int q, double t) const override
  {
    int nq = e.storage_params().n_qpoint();
    double* u = e.state();
    double ke = 0;
    for (int d = 0; d < nd; ++d) ke += .5*std::pow(u[d*nq + q], 2)/u[nd*nq + q];
    double p = .4*(u[(nd + 1)*nq + q] - ke);
    return {u[nd*nq + q], p*e.position(b, q)[0], e.nominal_size()*std::sqrt(2*ke/u[nd*nq + q])};
  }
};

struct Setup
{
  int nd, rs, init_level, max_level, n_smooth, n_splits = 0, max_ref = 3;
  double size;
  Mat<> org;
  std::vector<std::string> bcs;
  std::string surf_bc = "auto", visc = "", cond = "", thermal, init;
  double coercion = 2;
  Free free;
  bool geom = false, split3 = false;
  std::vector<std::string> geom_files;
  int crit = 0, unref = 0;
  double cut = 0, cut1 = 0, uncert = 1e-2;
  int iters, freq;
  bool local = true, fix = false, diff_admis = false, elwise = false, pde = false;
  double safety = .7, max_dt = huge, av_width = -1, av_const = -1, k = 1, amp = .1;
  int flow_iters = 1, n_cheby = 1;
  double t_wall = 300;
  bool viscous() const {return !visc.empty() || !cond.empty();}
};

static std::shared_ptr<Thermal_bc> thermal_of(const Setup& s)
{
  auto val = [&](std::string n) {
    size_t i = s.thermal.find(n + " = ");
    return i == std::string::npos ? std::nan("") : atof(s.thermal.c_str() + i + n.size() + 3);
  };
  double h = val("heat_flux"), e = val("emissivity"), c = val("heat_transfer_coef"), t = val("temperature"), u = val("internal_energy");
  if (h == h) return std::make_shared<Prescribed_heat_flux>(h);
  if (e == e || c == c) {
    auto eq = std::make_shared<Thermal_equilibrium>();
    if (e == e) eq->emissivity = e;
    if (c == c) {eq->heat_transfer_coef = c; eq->temperature = t;}
    return eq;
  }
  if (u == u) return std::make_shared<Prescribed_energy>(u);
  return std::make_shared<Prescribed_energy>(t*R/.4);
}

static Flow_bc* make_bc(const Setup& s, std::string name)
{
  if (name == "characteristic") return new Riemann_invariants(s.free.state);
  if (name == "freestream") return new Freestream(s.free.state);
  if (name == "pressure_outflow") return new Pressure_outflow(s.free.p);
  if (name == "outflow") return new Outflow;
  if (name == "nonpenetration") return new Nonpenetration;
  if (name == "no_slip") return new No_slip(thermal_of(s), s.coercion);
  throw std::runtime_error("?");
}

//! flow at a point, by definition of the random initial condition
static std::vector<double> init_state(const Setup& s, std::vector<double> pos)
{
  int nd = s.nd;
  std::vector<double> u(s.free.state.data(), s.free.state.data() + nd + 2);
  if (s.init == "wave") {
    double w = 1 + s.amp*std::sin(s.k*(pos[0] - s.org(0)));
    for (double& x : u) x *= w; // mass, momentum and energy together: velocity and temperature are those of the freestream
  } else if (s.init == "layer") {
    double f = std::exp(-std::pow(s.k*(pos[nd - 1] - s.org(nd - 1)), 2));
    double ke = .5*s.free.rho*s.free.vel.squaredNorm();
    for (int d = 0; d < nd; ++d) u[d] *= 1 - f;
    u[nd + 1] += ke*((1 - f)*(1 - f) - 1);
  } else if (s.init == "vortex") {
    double vx = s.free.vel(0), vy = s.free.vel(1);
    double g = .3*std::exp(.5*(1 - (pos[0]*pos[0] + pos[1]*pos[1])/.01));
    double ratio = 1 - .2*g*g; // temperature
    double rho = s.free.rho*std::pow(ratio, 2.5), p = s.free.p*std::pow(ratio, 3.5);
    vx -= s.free.a*g*pos[1]/.1; vy += s.free.a*g*pos[0]/.1;
    u = {rho*vx, rho*vy, rho, p/.4 + .5*rho*(vx*vx + vy*vy)};
  }
  return u;
}

static Setup random_setup(Rng& rng, const Scratch& dir)
{
  Setup s;
  s.nd = rng.pick(std::vector<int>{1, 2, 2, 2, 3});
  s.rs = rng.range(2, std::min(s.nd == 3 ? 3 : 5, int(config::max_row_size)));
  int nd = s.nd;
  s.free = random_free(rng, nd);
  s.size = rng.pick(std::vector<double>{1., 1., .04, 25.});
  s.org.resize(nd);
  for (int d = 0; d < nd; ++d) s.org(d) = rng.chance(.5) ? 0. : s.size*rng.uniform(-1, 1);
  s.init_level = nd == 1 ? rng.range(0, 4) : nd == 2 ? rng.range(1, 3) : rng.range(0, 1);
  s.max_level = s.init_level + rng.below(nd == 2 && s.init_level == 3 ? 2 : nd == 3 && s.init_level == 1 ? 2 : 3);
  if (nd == 3) s.rs = std::min(s.rs, s.max_level == 2 ? 2 : 3);
  s.n_smooth = rng.range(0, 5);
  s.max_ref = rng.range(0, 4);
  for (int i = 0; i < 2*nd; ++i) s.bcs.push_back(rng.pick(std::vector<std::string>{"characteristic", "characteristic", "freestream", "pressure_outflow", "outflow", "nonpenetration", "no_slip"}));
  if (rng.chance(.5)) s.visc = "air_viscosity";
  if (rng.chance(.5)) s.cond = "air_conductivity";
  s.t_wall = s.free.t*rng.uniform(.7, 1.3);
  switch (rng.below(6)) {
    case 0: s.thermal = ""; break;
    case 1: s.thermal = "heat_flux = " + num(rng.uniform(-1, 1)*1e-3*s.free.rho*std::pow(s.free.a, 3)); break;
    case 2: s.thermal = "temperature = " + num(s.t_wall); break;
    case 3: s.thermal = "internal_energy = " + num(s.t_wall*R/.4); break;
    case 4: s.thermal = "emissivity = " + num(rng.uniform(0, 1)); break;
    default: s.thermal = "heat_transfer_coef = " + num(rng.uniform(.1, 10)) + "; temperature = " + num(s.t_wall); if (rng.chance(.5)) s.thermal += "; emissivity = " + num(rng.uniform(0, 1)); break;
  }
  if (s.thermal.empty()) s.thermal = "heat_flux = 0.";
  if (rng.chance(.5)) s.coercion = rng.uniform(.5, 2);
  s.init = rng.pick(std::vector<std::string>{"default", "wave", "layer"});
  if (nd == 2 && s.size == 1 && rng.chance(.25)) s.init = "vortex";
  s.k = rng.uniform(1, 4)/s.size;
  s.amp = rng.uniform(.02, .3);
  s.geom = nd > 1 && rng.chance(.6);
  if (s.geom) { // the first cell must be clear of the surface
    s.init_level = nd == 2 ? 3 : 2;
    s.max_level = s.init_level + (nd == 2 ? rng.below(2) : 0);
    if (nd == 3) s.rs = 2; else s.rs = std::min(s.rs, 4);
  }
  if (s.geom) {
    int n_geom = nd == 2 && rng.chance(.3) ? 2 : 1;
    for (int g = 0; g < n_geom; ++g) {
      std::string file = dir.dir.string() + fmt("/geom%d.", g) + (nd == 2 ? (rng.chance(.5) ? "csv" : "CSV") : (rng.chance(.5) ? "stl" : "STL"));
      Mat<> c(nd);
      for (int d = 0; d < nd; ++d) c(d) = s.org(d) + s.size*rng.uniform(.45, .6);
      double r = s.size*rng.uniform(.12, .2);
      if (n_geom == 2) {c(0) = s.org(0) + s.size*(g ? .7 : .4); r = s.size*rng.uniform(.07, .12);}
      std::ofstream f(file);
      if (nd == 2) {
        int n = rng.range(5, 40);
        double ph = rng.uniform(0, 6);
        bool extra = rng.chance(.2); // columns beyond the dimension are ignored
        for (int i = 0; i <= n; ++i) {
          double th = ph + 2*M_PI*(i%n)/n;
          f << num(c(0) + r*std::cos(th)) << ", " << num(c(1) + .8*r*std::sin(th));
          if (extra) f << ", 0.5";
          f << "\n";
        }
      } else { // octahedron-like body, twice subdivided
        std::vector<Mat<3, 3>> tris;
        std::vector<Mat<3>> v {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
        for (int i = 0; i < 2; ++i) for (int j = 2; j < 4; ++j) for (int k = 4; k < 6; ++k) {
          Mat<3, 3> t; t << v[i], v[j], v[k];
          if (((i + j + k)%2) == 1) t.col(1).swap(t.col(2));
          tris.push_back(t);
        }
        std::vector<Mat<3, 3>> sub;
        for (auto& t : tris) {
          Mat<3> a = t.col(0), b = t.col(1), d = t.col(2), ab = (a + b).normalized(), bd = (b + d).normalized(), da = (d + a).normalized();
          auto add = [&](Mat<3> x, Mat<3> y, Mat<3> z) {Mat<3, 3> q; q << x, y, z; sub.push_back(q);};
          add(a, ab, da); add(ab, b, bd); add(da, bd, d); add(ab, bd, da);
        }
        f << "solid body\n";
        for (auto& t : sub) {
          Mat<3> nrm = Mat<3>(t.col(1) - t.col(0)).cross(Mat<3>(t.col(2) - t.col(0))).normalized();
          f << "facet normal " << nrm(0) << " " << nrm(1) << " " << nrm(2) << "\nouter loop\n";
          for (int i = 0; i < 3; ++i) {f << "vertex"; for (int d = 0; d < 3; ++d) f << " " << num(c(d) + r*t(d, i)); f << "\n";}
          f << "endloop\nendfacet\n";
        }
        f << "endsolid body\n";
      }
      s.geom_files.push_back(file);
    }
    s.n_splits = rng.chance(.5) ? rng.range(1, 2) : 0;
    s.split3 = rng.chance(.3);
    if (rng.chance(.4)) s.surf_bc = rng.pick(std::vector<std::string>{"nonpenetration", "no_slip", "outflow"});
  }
  s.crit = rng.below(s.geom ? 5 : 3);
  s.unref = rng.below(3);
  s.cut = s.org(0) + s.size*rng.uniform(.3, .8);
  s.cut1 = s.org(nd - 1) + s.size*rng.uniform(.3, .8);
  s.uncert = rng.pick(std::vector<double>{1e-3, 1e-2, 1e-1});
  s.iters = rng.range(1, 8);
  s.freq = rng.range(1, 4);
  s.local = rng.chance(.5);
  s.safety = rng.uniform(.1, .7);
  if (!s.local && rng.chance(.3)) s.max_dt = rng.uniform(.01, .2)*s.size/s.free.a/s.rs/s.rs*std::pow(2., -s.max_level)/(1 + s.free.mach);
  if (rng.chance(.3)) s.flow_iters = rng.range(2, 3);
  if (rng.chance(.3)) s.n_cheby = rng.range(2, 4);
  switch (rng.below(6)) {
    case 0: s.av_width = s.size*rng.uniform(.05, .3); break;
    case 1: s.av_const = rng.uniform(1e-5, 1e-3)*s.size*s.free.a; break;
    case 2: s.av_width = s.size*rng.uniform(.01, .1); s.elwise = true; s.pde = rng.chance(.3) && s.local; break;
    default: break;
  }
  s.diff_admis = rng.chance(.15);
  // flows that end with non-finite values abort the process if the repair is enabled
  if (s.free.mach < 1 && s.safety < .5 && s.av_width < 0 && s.av_const < 0 && s.n_cheby == 1 && s.amp < .15) s.fix = rng.chance(.6);
  return s;
}

static std::string script_of(const Setup& s, std::string wd)
{
  int nd = s.nd;
  std::string t = "format_double = {%.17g}\n";
  t += fmt("n_dim = %d\nrow_size = %d\n", nd, s.rs);
  for (int d = 0; d < nd; ++d) t += fmt("mesh_extreme%d0 = ", d) + num(s.org(d)) + "\n" + fmt("mesh_extreme%d1 = ", d) + num(s.org(d) + s.size) + "\n";
  for (int i = 0; i < 2*nd; ++i) t += fmt("extremal_bc%d%d = {", i/2, i%2) + s.bcs[i] + "}\n";
  t += s.free.script;
  if (!s.visc.empty()) t += "viscosity_model = " + s.visc + "\n";
  if (!s.cond.empty()) t += "conductivity_model = " + s.cond + "\n";
  t += "thermal_bc = {" + s.thermal + "}\nheat_flux_coercion = " + num(s.coercion) + "\nsurface_bc = {" + s.surf_bc + "}\n";
  for (unsigned g = 0; g < s.geom_files.size(); ++g) t += fmt("geom%d = {", int(g)) + s.geom_files[g] + "}\n";
  t += fmt("init_ref_level = %d\nmax_ref_level = %d\nn_smooth = %d\nmax_refinement_iters = %d\ninit_layer_splits = %d\n", s.init_level, s.max_level, s.n_smooth, s.max_ref, s.n_splits);
  if (s.split3) t += "layer_split_points = {far = 0.6; near = 0.2}\n";
  t += "geometry_uncertainty = " + num(s.uncert) + "\n";
  std::string lev = fmt("ref_level < %d", s.max_level);
  switch (s.crit) {
    case 0: break;
    case 1: t += "refine_if = {(center0 < " + num(s.cut) + ") & (" + lev + ")}\n"; break;
    case 2: t += "refine_if = {(center0 < " + num(s.cut) + " | nom_sz > " + num(s.size*std::pow(2., -s.init_level - .5)) + ") & " + lev + "}\n"; break;
    case 3: t += "refine_if = {(uncertainty > " + num(s.uncert) + " | snapping_problem) & " + lev + "}\n"; break;
    default: t += "$set_geometry_refinement\n"; break;
  }
  if (s.unref) t += fmt("unrefine_if = {%sref_level > %d & center%d > ", s.unref == 1 ? "!is_extruded & " : "", s.init_level, nd - 1) + num(s.cut1) + "}\n";
  else if (s.crit == 4) t += "unrefine_if = {false}\n";
  t += fmt("local_time = %s\n", s.local ? "true" : "false") + "max_safety = " + num(s.safety) + "\n";
  if (s.max_dt < huge) t += "max_time_step = " + num(s.max_dt) + "\n";
  t += fmt("flow_iters = %d\nn_cheby_flow = %d\n", s.flow_iters, s.n_cheby);
  if (s.fix) t += "fix_therm_admis = true\n";
  if (s.diff_admis) t += "diffusive_admissibility = true\n";
  if (s.av_width > 0) t += "art_visc_width = " + num(s.av_width) + "\n";
  if (s.av_const > 0) t += "art_visc_constant = " + num(s.av_const) + "\n";
  if (s.elwise) t += "elementwise_art_visc = true\n";
  if (s.pde) t += "elementwise_art_visc_pde = true\n";
  t += fmt("print_freq = %d\nwrite_freq = %d\n", s.freq, 1 + s.iters/2);
  t += "vis_surface = false\nvis_field = false\n";
  t += "word = {hello}\nprint_vars = print_vars + {number_of_iterations_so_far = iteration; label = word;}\n";
  t += "monitor_vars = {it = iteration + 0.;}\n";
  t += fmt("done = {iteration >= %d}\n", s.iters);
  std::string rho = "freestream" + std::to_string(nd);
  if (s.init == "wave") {
    t += "wave = {(1 + " + num(s.amp) + "*sin(" + num(s.k) + "*(pos0 - " + num(s.org(0)) + ")))}\ninit_cond = {";
    for (int i = 0; i < nd + 2; ++i) t += fmt("state%d = freestream%d*$wave\n", i, i);
    t += "}\n";
  } else if (s.init == "layer") {
    t += "gap = {exp(-((" + num(s.k) + fmt("*(pos%d - ", nd - 1) + num(s.org(nd - 1)) + "))^2))}\ninit_cond = {";
    std::string ke = "(freestream0^2";
    for (int i = 1; i < nd; ++i) ke += fmt(" + freestream%d^2", i);
    ke += ")/(2*" + rho + ")";
    for (int i = 0; i < nd; ++i) t += fmt("m%d = freestream%d*(1 - $gap)\n", i, i);
    t += "r = " + rho + fmt("\ne = freestream%d - ", nd + 1) + ke + "*(1 - (1 - $gap)^2)}\n";
  } else if (s.init == "vortex") t += "init_cond = vortex\n";
  t += "working_dir = {" + wd + "}\n";
  t += "$start\n" + show_free(nd, s.free.raw) + "$mesh\n" + show("n_elements") + "init_state\n$run\n";
  for (std::string n : {"iteration", "flow_time", "time_step", "fix_iters", "init_residual_momentum", "init_residual_density", "init_residual_energy", "it_min", "it_max"}) t += show(n);
  t += "compute_residuals\n";
  for (std::string n : {"momentum", "density", "energy"}) t += show("residual_" + n);
  t += "integrand_field = velocity_expr + speed_expr + pressure_expr + {mass = density; px = pressure*pos0; sv = nom_sz*speed;}\nintegrate_field\n";
  for (std::string n : {"mass", "px", "sv"}) t += show("integral_field_" + n);
  if (s.geom) {
    t += "$compute_force\n";
    for (std::string n : {"drag", "lift", "side_force", "drag_coef", "lift_coef", "side_force_coef"}) t += show(n);
    for (int d = 0; d < nd; ++d) t += show(fmt("force%d", d));
    t += "integrand_surface = {area = 1.; press = (heat_rat - 1)*(energy - (momentum0^2 + momentum1^2 + momentum2^2)/(2*density)); heat_flux = heat_flux;}\nintegrate_surface\n";
    for (std::string n : {"area", "press", "heat_flux"}) t += show("integral_surface_" + n);
  }
  return t;
}

struct Sol {std::vector<double> pos, state; std::vector<int> id;};
static std::vector<Sol> solution_of(Solver& sol, int nd)
{
  auto& m = dynamic_cast<Accessible_mesh&>(sol.mesh());
  std::vector<Sol> r;
  auto& els = m.elements();
  for (int i = 0; i < els.size(); ++i) {
    Sol s;
    auto& e = els[i];
    for (int v = 0; v < (1 << nd); ++v) for (int d = 0; d < nd; ++d) s.pos.push_back(e.vertex(v).pos(d));
    int n = e.storage_params().n_qpoint()*(nd + 2);
    s.state.assign(e.state(), e.state() + n);
    s.id = {e.refinement_level(), e.get_is_deformed(), bool(e.tree)};
    if (e.tree) for (int x : e.nominal_position()) s.id.push_back(x);
    r.push_back(s);
  }
  return r;
}

static void mode_run(Monitor& m, std::string what)
{
  m.run([&](Rng& rng, int) {
    Scratch dir;
    Setup s = random_setup(rng, dir);
    int nd = s.nd;
    std::string wd = dir.dir.string() + "/out", path = dir.dir.string() + "/run.hil";
    if (rng.chance(.5)) wd += "/";
    bool vis = what == "vis" && nd > 1 && rng.chance(.8); // XDMF cannot represent 1D meshes
    std::string script = script_of(s, wd);
    if (vis) {
      std::string off = "vis_surface = false\nvis_field = false\n";
      script.replace(script.find(off), off.size(), fmt("vis_surface = %s\nvis_field = %s\nvis_skew = %d\n", s.geom && rng.chance(.7) ? "true" : "false", rng.chance(.7) ? "true" : "false", rng.range(0, 1)));
      m.count("visualised");
    }
    if (wd.back() != '/') wd += "/";
    std::ofstream(path) << script;
    m.evaluated(mon::hash_str(script));
    std::string surf = s.surf_bc;
    if (surf == "auto") surf = s.visc.empty() ? "nonpenetration" : "no_slip";
    bool lib_failed = false, hil_failed = false;
    std::string lib_error, error;
    // ---- direct library calls
    auto visc = s.visc.empty() ? inviscid : Transport_model::sutherland(1.716e-5, 273., 111.);
    auto cond = s.cond.empty() ? inviscid : Transport_model::sutherland(.0241, 273., 194.);
    auto bcs = [&] {std::vector<Flow_bc*> b; for (auto& n : s.bcs) b.push_back(make_bc(s, n)); return b;};
    std::array<double, 3> resid0 {}, resid {};
    int n_elem = -1, n_updates = 0;
    std::vector<Sol> want;
    auto direct = [&](std::unique_ptr<Solver>& ptr, double perturb, int pattern = 0) {
    auto space = std::make_shared<Namespace>();
    space->assign<int>("local_time", s.local);
    space->assign("max_safety", s.safety);
    if (s.max_dt < huge) space->assign("max_time_step", s.max_dt);
    space->assign("flow_iters", s.flow_iters);
    space->assign("n_cheby_flow", s.n_cheby);
    space->assign<int>("elementwise_art_visc", s.elwise);
    space->assign("freestream_speed", s.free.speed);
    space->assign("freestream_sound_speed", s.free.a);
    for (int i = 0; i < nd + 2; ++i) space->assign(fmt("freestream%d", i), s.free.state(i));
    double root = 0; // exactly what the script's mesh extremes amount to
    for (int d = 0; d < nd; ++d) root = std::max(root, (s.org(d) + s.size) - s.org(d));
    ptr.reset(new Solver(nd, s.rs, root, true, visc, cond, space, std::make_shared<Quiet>()));
    Solver& sol = *ptr;
    Mesh& mesh = sol.mesh();
    n_updates = 0;
    auto residuals = [&] {
      sol.compute_residual();
      Physical_residual pr; auto r = sol.integral_field(hexed::Pow(pr, 2));
      double mom = 0;
      for (int d = 0; d < nd; ++d) mom += r[d];
      return std::array<double, 3>{std::sqrt(mom), std::sqrt(r[nd]), std::sqrt(r[nd + 1])};
    };
      mesh.add_tree(bcs(), s.org);
      sol.set_fix_admissibility(s.fix);
      for (int i = 0; i < s.init_level; ++i) mesh.update();
      sol.calc_jacobian();
      if (s.geom) {
        std::vector<Surface_geom*> gs;
        for (auto& f : s.geom_files) {
          if (nd == 2) {
            std::ifstream in(f);
            std::vector<Mat<2>> pts;
            for (std::string l; std::getline(in, l);) {Mat<2> p; char* e; p(0) = strtod(l.c_str(), &e); p(1) = strtod(e + 1, nullptr); pts.push_back(p);}
            std::vector<Mat<2, 2>> segs;
            for (unsigned i = 0; i + 1 < pts.size(); ++i) {Mat<2, 2> sg; sg << pts[i], pts[i + 1]; segs.push_back(sg);}
            gs.push_back(new Simplex_geom<2>(segs));
          } else gs.push_back(new Simplex_geom<3>(Occt::triangles(Occt::read_stl(f))));
        }
        Mat<> start(nd);
        for (int d = 0; d < nd; ++d) start(d) = (1 - 1e-6)*s.org(d) + 1e-6*(s.org(d) + s.size);
        mesh.set_surface(new Compound_geom(gs), make_bc(s, surf), start);
        for (int i = 0; i < s.n_smooth; ++i) mesh.relax(.5);
        sol.calc_jacobian();
      }
      auto center = [&](Element& e, int d) {double c = 0; for (int v = 0; v < (1 << nd); ++v) c += e.vertex(v).pos(d); return c/(1 << nd);};
      auto ref = [&](Element& e) -> bool {
        bool lev = e.refinement_level() < s.max_level;
        switch (s.crit) {
          case 0: return false;
          case 1: return center(e, 0) < s.cut && lev;
          case 2: return (center(e, 0) < s.cut || e.nominal_size() > s.size*std::pow(2., -s.init_level - .5)) && lev;
          default: return (e.uncertainty > s.uncert || e.snapping_problem) && lev;
        }
      };
      auto unref = [&](Element& e) -> bool {
        if (!s.unref || (s.unref == 1 && !e.tree)) return false;
        return e.refinement_level() > s.init_level && center(e, nd - 1) > s.cut1;
      };
      bool go = true;
      for (int i = 0; i < s.max_ref && go; ++i) {
        Jac_inv_det_func j;
        sol.set_uncertainty(Elem_nonsmooth(j));
        mesh.set_unref_locks(criteria::if_extruded);
        go = mesh.update(ref, unref);
        for (int k = 0; k < s.n_smooth; ++k) mesh.relax(.5);
        sol.calc_jacobian();
      }
      for (int i = 0; i < s.n_splits; ++i) {
        mesh.disconnect_boundary(mesh.surface_bc_sn());
        double prev = 1;
        std::vector<double> split = s.split3 ? std::vector<double>{.6, .2} : std::vector<double>{1./3.};
        for (double x : split) {mesh.extrude(true, x/prev, true); prev = x;}
        mesh.connect_rest(mesh.surface_bc_sn());
        sol.calc_jacobian();
      }
      n_elem = mesh.n_elements();
      if (n_elem == 0) return;
      Init init; init.nd = nd; init.f = [&](std::vector<double> p) {auto u = init_state(s, p); 
        // noise is added to all components because a velocity of exactly zero may be decisive (e.g. which way a characteristic goes)
        if (perturb) for (unsigned i = 0; i < u.size(); ++i) {
          double x = 1e3*p[0], sc = int(i) < nd ? u[nd]*s.free.a : u[i];
          if (nd > 1) x += 1.7e3*p[1];
          if (nd > 2) x += 2.3e3*p[2];
          u[i] += perturb*sc*std::sin(x/s.size + 2.4*i + 1.1*pattern);
        }
        return u;};
      sol.initialize(init);
      int it = 0;
      while (it < s.iters) {
        int n = it ? s.freq - it%s.freq : 1;
        for (int i = 0; i < n; ++i) {
          if (s.diff_admis) sol.set_art_visc_admis();
          if (s.elwise) sol.update_art_visc_elwise(s.av_width, s.pde);
          else if (s.av_width > 0) sol.update_art_visc_smoothness(s.av_width);
          else if (s.av_const > 0) sol.set_art_visc_constant(s.av_const);
          sol.update();
        }
        it += n;
        ++n_updates;
        auto r = residuals();
        if (it == 1) resid0 = r;
      }
      m.check(it == sol.iteration_status().iteration, "iteration-count", "library iteration count");
      resid = residuals();
    };
    std::unique_ptr<Solver> ptr;
    try {
      direct(ptr, 0);
      if (n_elem == 0) {m.count("skipped-empty"); return;}
    } catch (const std::exception& e) {lib_failed = true; lib_error = e.what();}
    Solver& sol = *ptr;
    if (what == "threads") {
      if (lib_failed) {m.count("failing-cases"); return;}
      auto base = solution_of(sol, nd);
      auto base_r = resid; int base_n = n_elem;
      Mat<> scale(nd + 2);
      for (int d = 0; d < nd; ++d) scale(d) = s.free.rho*s.free.a*(1 + s.free.mach);
      scale(nd) = s.free.rho; scale(nd + 1) = s.free.state(nd + 1);
      for (auto& e : base) for (double x : e.state) if (!std::isfinite(x)) {m.count("skipped-wild"); return;}
      for (double r : base_r) if (!std::isfinite(r)) {m.count("skipped-wild"); return;}
      // returns the biggest difference between two solutions
      auto differ = [&](const std::vector<Sol>& a, const std::vector<Sol>& b) {
        double w = 0;
        for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a[i].state.size(); ++j) {
          double e = std::abs(a[i].state[j] - b[i].state[j])/scale(j/(a[i].state.size()/(nd + 2)));
          if (!(e <= w)) w = e;
        }
        return w;
      };
      for (int n_thread : {rng.range(2, 3), rng.range(4, 8)}) {
        std::unique_ptr<Solver> other;
        std::string err;
        omp_set_num_threads(n_thread);
        int seen = 0;
        #pragma omp parallel
        {
          #pragma omp critical
          ++seen;
        }
        try {direct(other, 0);}
        catch (const std::exception& e) {err = e.what();}
        omp_set_num_threads(1);
        m.check(seen == n_thread, "threads-started", fmt("%d threads instead of %d", seen, n_thread));
        auto ctx = [&] {return fmt(" with %d threads in\n", n_thread) + script;};
        m.checkf(err.empty(), "threads-exception", [&] {return err.substr(0, 300) + ctx();});
        if (!err.empty()) return;
        auto twin = solution_of(*other, nd);
        m.checkf(n_elem == base_n && twin.size() == base.size(), "threads-elements", [&] {return fmt("%d elements, not %d", n_elem, base_n) + ctx();});
        if (twin.size() != base.size()) return;
        for (unsigned i = 0; i < base.size(); ++i) {
          m.checkf(base[i].id == twin[i].id, "threads-elements", [&] {return fmt("element %d differs (level %d vs %d)", int(i), base[i].id[0], twin[i].id[0]) + ctx();});
          for (unsigned j = 0; j < base[i].pos.size(); ++j) m.worst(std::abs(base[i].pos[j] - twin[i].pos[j])/s.size, 1e-9, "threads-positions", [&] {return fmt("corner of element %d: %.17g, not %.17g", int(i), twin[i].pos[j], base[i].pos[j]) + ctx();});
        }
        m.flush_worst();
        double w = differ(base, twin);
        if (!(w <= 1e-7)) { // is the flow itself sensitive to rounding?
          double grow = 0;
          try {
            for (int pattern = 0; pattern < 5 && grow < 1e5; ++pattern) {
              std::unique_ptr<Solver> o;
              direct(o, 1e-12, pattern);
              double g = differ(base, solution_of(*o, nd))/1e-12;
              if (!(g <= grow)) grow = g;
            }
          } catch (const std::exception&) {grow = 1e300;}
          m.count("sensitive-flows");
          if (!(grow < 1e5)) {m.count("skipped-chaotic"); return;}
        }
        m.worst(w, 1e-7, "threads-solution", [&] {return fmt("solution differs by %g relative", w) + ctx();});
        m.flush_worst();
        for (int i = 0; i < 3; ++i) {
          double sc = std::abs(base_r[i]) + scale(i ? nd + i - 1 : 0)*s.free.a/s.size*std::pow(s.size, nd/2.)*s.rs*std::pow(2., s.max_level);
          m.checkf(std::abs(resid[i] - base_r[i]) <= (1e-6 + 1e4*w)*sc, "threads-residual", [&] {return fmt("residual %.17g, not %.17g (scale %g, solution differs by %g)", resid[i], base_r[i], sc, w) + ctx();});
        }
        m.count("compared"); m.count(fmt("compared-%dd", nd)); m.count("elements-compared", base.size());
        m.count(fmt("threads-%d", n_thread));
      }
      if (s.geom) m.count("geometry");
      if (s.crit) m.count("refined");
      if (s.elwise) m.count("av-elementwise"); else if (s.av_width > 0) m.count("av-smoothness");
      if (s.fix) m.count("repair");
      if (s.viscous()) m.count("viscous");
      if (s.local) m.count("local-time");
      return;
    }
    // ---- the script
    {
      Hush h;
      try {Case c(path);}
      catch (const std::exception& e) {hil_failed = true; error = e.what();}
    }
    m.count(fmt("%dd", nd));
    if (lib_failed || hil_failed) {
      m.count("failing-cases");
      // both ways must agree about whether the case is possible (a flow that cannot be repaired, for example)
      m.checkf(lib_failed == hil_failed, "exception", [&] {return "script: " + error.substr(0, 500) + "\nlibrary: " + lib_error.substr(0, 500) + "\n" + script;});
      return;
    }
    auto ctx = [&] {return " in\n" + script;};
    Printed out(wd + "output.txt");
    bool wild = false; // flows blow up in either way; comparison makes sense only as long as they are finite
    {
      auto live = solution_of(sol, nd);
      for (auto& e : live) for (double x : e.state) if (!std::isfinite(x)) wild = true;
    }
    check_free(m, out, s.free, nd, ctx());
    m.checkf(out.num("n_elements") == n_elem, "n-elements", [&] {return fmt("script meshed %g elements, not %d", out.num("n_elements"), n_elem) + ctx();});
    // ---- files
    std::string last = wd + "latest";
    std::vector<Sol> got;
    {
      want = solution_of(sol, nd);
      std::string mine = dir.dir.string() + "/mine";
      sol.mesh().write(mine); sol.write_state(mine);
      std::vector<std::vector<Sol>> both;
      for (std::string f : {last, mine}) {
        Solver r(nd, s.rs, s.size, true, visc, cond, std::make_shared<Namespace>(), std::make_shared<Quiet>());
        try {
          std::vector<Surface_geom*> gs;
          if (s.geom) for (auto& f : s.geom_files) gs.push_back(new Hypersphere(s.org, s.size));
          r.read_mesh(f, bcs(), s.geom ? new Compound_geom(gs) : nullptr, s.geom ? make_bc(s, surf) : nullptr);
          r.read_state(f);
        } catch (const std::exception& e) {m.viol("files", "cannot read " + f + ": " + std::string(e.what()).substr(0, 300) + ctx()); return;}
        both.push_back(solution_of(r, nd));
      }
      got = both[0]; want = both[1];
    }
    if (got.size() != want.size()) {m.viol("elements", fmt("script's mesh has %d elements, not %d", int(got.size()), int(want.size())) + ctx()); return;}
    Mat<> scale(nd + 2);
    for (int d = 0; d < nd; ++d) scale(d) = s.free.rho*s.free.a*(1 + s.free.mach);
    scale(nd) = s.free.rho; scale(nd + 1) = s.free.state(nd + 1);
    auto mismatch = [&](double amplify) {
      double w = 0;
      for (unsigned i = 0; i < got.size(); ++i) for (unsigned j = 0; j < got[i].state.size(); ++j) w = std::max(w, std::abs(got[i].state[j] - want[i].state[j])/scale(j/(got[i].state.size()/(nd + 2))));
      return w > 1e-7*amplify;
    };
    double amplify = 1;
    if (!wild && mismatch(1)) { // how sensitive is this flow to its initial state?
      std::unique_ptr<Solver> other;
      auto r0 = resid0, r1 = resid;
      double grow = 0;
      try {
        for (int pattern = 0; pattern < 5 && grow < 1e5; ++pattern) {
        direct(other, 1e-12, pattern);
        auto a = solution_of(sol, nd), b = solution_of(*other, nd);
        for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a[i].state.size(); ++j) {
          double e = std::abs(a[i].state[j] - b[i].state[j])/scale(j/(a[i].state.size()/(nd + 2)))/1e-12;
          if (!(e <= grow)) grow = e;
        }
        }
      } catch (const std::exception&) {grow = 1e300;}
      resid0 = r0; resid = r1;
      m.count("sensitive-flows");
      if (!(grow < 1e5)) {m.count("skipped-chaotic"); wild = true;}
    }
    for (unsigned i = 0; i < got.size(); ++i) {
      if (got[i].id != want[i].id) {m.viol("elements", fmt("element %d differs (level %d vs %d)", int(i), got[i].id[0], want[i].id[0]) + ctx()); return;}
      for (unsigned j = 0; j < got[i].pos.size(); ++j) {
        double err = std::abs(got[i].pos[j] - want[i].pos[j])/s.size;
        m.worst(err, 1e-9, "positions", [&] {return fmt("corner of element %d: %.17g, not %.17g", int(i), got[i].pos[j], want[i].pos[j]) + ctx();});
      }
      if (!wild) for (unsigned j = 0; j < got[i].state.size(); ++j) {
        int v = j/(got[i].state.size()/(nd + 2));
        double err = std::abs(got[i].state[j] - want[i].state[j])/scale(v);
        m.worst(err, 1e-7*amplify, "solution", [&] {return fmt("element %d variable %d: %.17g, not %.17g", int(i), v, got[i].state[j], want[i].state[j]) + ctx();});
      }
    }
    m.flush_worst();
    // ---- quantities
    auto st = sol.iteration_status();
    m.checkf(out.num("iteration") == st.iteration, "iteration", [&] {return fmt("iteration is %g, not %d", out.num("iteration"), st.iteration) + ctx();});
    if (!wild) {
      auto eq = [&](std::string name, double want, double scale, double tol = 1e-6) {
        m.worst(std::abs(out.num(name) - want)/scale, tol, "quantity", [&] {return fmt("%s is %.17g, not %.17g (scale %g)", name.c_str(), out.num(name), want, scale) + ctx();});
      };
      eq("flow_time", st.flow_time, st.flow_time + 1e-300);
      eq("time_step", st.time_step, st.time_step + 1e-300);
      std::vector<std::string> names {"momentum", "density", "energy"};
      double vol = std::pow(s.size, nd/2.);
      std::array<double, 3> rsc {scale(0), scale(nd), scale(nd + 1)};
      for (int i = 0; i < 3; ++i) {
        double sc = rsc[i]*s.free.a/s.size*vol*s.rs*std::pow(2., s.max_level);
        eq("residual_" + names[i], resid[i], sc + resid[i]);
        if (out.has("init_residual_" + names[i])) eq("init_residual_" + names[i], resid0[i], sc + resid0[i]);
      }
      Field_integrand fi; fi.nd = nd;
      auto in = sol.integral_field(fi);
      double v = std::pow(s.size, nd);
      eq("integral_field_mass", in[0], s.free.rho*v); eq("integral_field_px", in[1], s.free.p*v*(s.size + std::abs(s.org(0)))); eq("integral_field_sv", in[2], v*s.size*s.free.a*(1 + s.free.mach));
      if (s.geom) {
        Surf_integrand si; si.nd = nd; si.visc = s.viscous();
        auto w = sol.integral_surface(si, sol.mesh().surface_bc_sn());
        double area = std::pow(s.size, nd - 1), q = .5*s.free.rho*s.free.speed*s.free.speed, fs = s.free.p*(1 + s.free.mach*s.free.mach)*area;
        for (int d = 0; d < nd; ++d) {eq(fmt("force%d", d), w[d], fs); fs += std::abs(w[d]);}
        eq("integral_surface_area", w[nd], area); eq("integral_surface_heat_flux", w[nd + 1], s.free.rho*std::pow(s.free.a, 3)*area + std::abs(w[nd + 1])); eq("integral_surface_press", w[nd + 2], fs);
        double drag = 0;
        for (int d = 0; d < nd; ++d) drag += w[d]*s.free.dir(d);
        if (s.free.mach > 0) eq("drag", drag, fs);
        // lift is the force perpendicular to the flow in the plane of the flow and the last axis, side force is perpendicular to both
        double lift = nd == 2 ? w[1]*s.free.dir(0) - w[0]*s.free.dir(1) : std::nan(""), side = 0;
        if (nd == 3) {
          Mat<3> d = s.free.dir, up = Mat<3>::Unit(2) - d(2)*d, f(w[0], w[1], w[2]);
          if (up.norm() > 1e-3) {lift = f.dot(up.normalized()); side = f.dot(up.normalized().cross(d));}
        }
        if (s.free.mach > 0 && lift == lift) {
          eq("lift", lift, fs); eq("side_force", side, fs);
          eq("drag_coef", drag/q, fs/q); eq("lift_coef", lift/q, fs/q); eq("side_force_coef", side/q, fs/q);
        }
        m.count("forces");
      }
      m.flush_worst();
    } else m.count("wild");
    m.checkf(out.num("it_min") <= out.num("it_max") && out.num("it_max") <= st.iteration, "monitor", [&] {return fmt("history monitor of the iteration count claims [%g, %g] after %d iterations", out.num("it_min"), out.num("it_max"), st.iteration) + ctx();});
    // ---- reports
    {
      std::istringstream in(out.text);
      std::vector<std::string> head;
      int n_rep = 0;
      double last_it = 0;
      auto split = [](std::string l) {
        std::vector<std::string> f;
        std::istringstream ss(l);
        for (std::string x; std::getline(ss, x, ',');) {x.erase(0, x.find_first_not_of(' ')); f.push_back(x);}
        return f;
      };
      for (std::string line; std::getline(in, line);) {
        if (line.find("number_of_iterations_so_far") != std::string::npos) head = split(line);
        else if (!head.empty() && line.substr(0, 2) != "@ " && std::count(line.begin(), line.end(), ',') + 1 == int(head.size())) {
          auto f = split(line);
          ++n_rep;
          for (unsigned i = 0; i < head.size(); ++i) {
            if (head[i] == "label") m.checkf(f[i] == "hello", "report-string", [&] {return "string variable reported as '" + f[i] + "'" + ctx();});
            if (head[i] == "iteration") {m.checkf(atof(f[i].c_str()) > last_it, "report-order", [&] {return line + ctx();}); last_it = atof(f[i].c_str());}
            if (head[i] == "number_of_iterations_so_far") m.checkf(atof(f[i].c_str()) == last_it, "report-value", [&] {return line + ctx();});
          }
        }
      }
      m.checkf(head.size() == 6, "report-header", [&] {return fmt("%d columns", int(head.size())) + ctx();});
      m.checkf(n_rep == n_updates - 1, "report-count", [&] {return fmt("%d reports after %d updates", n_rep, n_updates) + ctx();});
      m.checkf(n_updates == 1 || last_it == st.iteration, "report-last", [&] {return fmt("last report is of iteration %g, not %d", last_it, st.iteration) + ctx();});
    }
    // ---- restart by script
    if (!wild && rng.chance(.3)) {
      size_t a = script.find("$mesh\n"), b = script.find("$run\n"), c = script.find("integrand_field"), d = script.find("$compute_force");
      std::string again = script.substr(0, a) + "read_mesh\nread_state\n" + show("n_elements") + script.substr(c, d == std::string::npos ? d : d - c);
      std::ofstream(path) << again;
      std::string err;
      {
        Hush h;
        try {Case c2(path);}
        catch (const std::exception& e) {err = e.what();}
      }
      Printed second(wd + "output.txt");
      m.checkf(err.empty() && b != std::string::npos, "restart", [&] {return err.substr(0, 500) + " in\n" + again;});
      m.checkf(second.num("n_elements") == n_elem, "restart-elements", [&] {return fmt("%g elements instead of %d", second.num("n_elements"), n_elem) + " in\n" + again;});
      double v = std::pow(s.size, nd), c0 = s.free.a*(1 + s.free.mach);
      for (auto& p : std::vector<std::pair<std::string, double>>{{"mass", s.free.rho*v}, {"px", s.free.p*v*(s.size + std::abs(s.org(0)))}, {"sv", v*s.size*c0}}) {
        double x = out.num("integral_field_" + p.first), y = second.num("integral_field_" + p.first);
        m.close((x - y)/(p.second + std::abs(x)), 1e-9, "restart-state", fmt("integral of %s is %.17g, was %.17g", p.first.c_str(), y, x) + " in\n" + again);
      }
      m.count("restarts");
    }
    m.count("init-" + s.init); m.count(s.geom ? "geometry" : "no-geometry"); if (s.n_splits && s.geom) m.count("layers"); if (s.crit) m.count("refined");
    if (s.viscous()) m.count("viscous"); if (s.elwise) m.count("av-elementwise"); else if (s.av_width > 0) m.count("av-smoothness"); else if (s.av_const > 0) m.count("av-constant");
    for (auto& b : s.bcs) m.count("bc:" + b);
    if (s.geom_files.size() > 1) m.count("two-bodies");
  });
}

int main(int argc, char** argv)
{
  Monitor m(argc, argv);
  if (m.mode == "free") mode_free(m);
  else mode_run(m, m.mode);
  return m.finish();
}
