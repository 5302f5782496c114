// P18: what every run parameter determines. All single settings, pairs (thorough:
// triples) of settings of distinct keys, for every solver family, against a
// specification of each parameter; then every solver name, known or not.
#include "mc.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <sstream>
#include <fstream>
#include <array>
#include <unordered_map>
#include <sys/wait.h>
#define protected public
#include "shared/HydroParams.h"
#include "shared/SolverBase.h"
#include "shared/SolverFactory.h"
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverMHDMuscl.h"
#include "sdm/SolverHydroSDM.h"
#undef protected

using namespace ppkMHD;
using std::string;
using std::vector;
using Map = std::map<string, string>; // "section.key" -> text

static ConfigMap
config(const Map & m)
{
  string cur, text;
  for (auto & kv : m)
  {
    size_t d = kv.first.find('.');
    text += "[" + kv.first.substr(0, d) + "]\n" + kv.first.substr(d + 1) + "=" + kv.second + "\n";
  }
  char * b = const_cast<char *>(text.data());
  return ConfigMap(b, (int)text.size());
}

#include "params_spec.h"

static uint64_t
hash_params(const HydroParams & p)
{
  uint64_t h = mc::hash_bytes(&p.settings.gamma0, sizeof(double) * 4);
  int      a[] = { p.nStepmax, p.nOutput, p.nlog, p.nx, p.ny, p.nz, p.ghostWidth, p.nbvar, p.boundary_type_xmin, p.boundary_type_xmax, p.boundary_type_ymin, p.boundary_type_ymax, p.boundary_type_zmin, p.boundary_type_zmax, p.niter_riemann, p.riemannSolverType, p.implementationVersion, p.settings.iorder };
  h = mc::hash_bytes(a, sizeof a, h);
  double d[] = { p.tEnd, p.xmin, p.xmax, p.ymin, p.ymax, p.zmin, p.zmax, p.settings.cfl, p.settings.smallc, p.settings.smallr, p.settings.cp, p.settings.mu, p.settings.kappa, p.settings.slope_type };
  return mc::hash_bytes(d, sizeof d, h);
}

static void
run_case(const Map & base, const Fam & f, const string & desc)
{
  Map m = base;
  m["run.solver_name"] = f.name;
  mc::cur_desc = string(f.name) + desc;
  ConfigMap   c = config(m);
  HydroParams p;
  p.setup(c);
  check_params(p, m, f, "setup");
  mc::stat("transitions");
  mc::stat("executions");
  mc::state(hash_params(p));
}

//! the solver built for a name, its own copy of the run settings
static void
check_solver(const string & name, const Map & extra, const Fam & f, std::function<bool(SolverBase *)> is)
{
  Map m = { { "mesh.nx", "3" }, { "mesh.ny", "4" }, { "mesh.nz", f.dim == 3 ? "2" : "1" }, { "hydro.problem", f.mhd ? "blast" : "blast" }, { "output.vtk_enabled", "no" }, { "output.hdf5_enabled", "no" } };
  for (auto & kv : extra)
    m[kv.first] = kv.second;
  m["run.solver_name"] = name;
  ConfigMap   c = config(m);
  HydroParams p;
  p.setup(c);
  check_params(p, m, f, "setup");
  std::unique_ptr<SolverBase> s(SolverFactory::Instance().create(name, p, c));
  mc::stat("transitions");
  mc::stat("executions");
  if (!s || !is(s.get()))
  {
    mc::viol("wrong-solver", "the solver built for " + name + " is not of that kind");
    return;
  }
  check_params(s->params, m, f, "solver");
  auto chk = [&](const char * what, double got, double exp) {
    if (!near(got, exp))
      mc::viol(string("solver-setting:") + what, mc::fmt("%s of the solver is %.9g, the file means %.9g", what, got, exp));
  };
  double t0 = setting(m, "run.tCurrent", 0);
  chk("time", s->m_t, t0);
  chk("end time", s->m_tEnd, setting(m, "run.tEnd", 0));
  chk("iteration", s->m_iteration, 0);
  chk("outputs written", s->m_times_saved, 0);
  chk("static gravity", s->m_static_gravity_enabled, flag(m, "gravity.static", false));
  chk("point gravity", s->m_point_gravity_enabled, flag(m, "gravity.point", false));
  chk("gravity", s->m_gravity_enabled, flag(m, "gravity.static", false) || flag(m, "gravity.point", false));
  chk("finished", s->finished() != 0, t0 >= setting(m, "run.tEnd", 0) || setting(m, "run.nStepmax", 1000) <= 0);
  if (s->m_problem_name != m["hydro.problem"])
    mc::viol("solver-setting:problem", "problem is " + s->m_problem_name);
  if (s->m_solver_name != name)
    mc::viol("solver-setting:name", "name is " + s->m_solver_name);
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  Kokkos::initialize(argc, argv);
  struct Opt
  {
    string key, val;
  };
  vector<Opt> opts;
  auto        add = [&](const string & k, std::initializer_list<const char *> vs) {
    for (auto v : vs)
      opts.push_back({ k, v });
  };
  add("run.nStepmax", { "7", "0", "12345678" });
  add("run.tEnd", { "0.25", "1e3" });
  add("run.nOutput", { "0", "-1", "5" });
  add("run.nlog", { "3" });
  add("mesh.nx", { "5", "64" });
  add("mesh.ny", { "6" });
  add("mesh.nz", { "7", "0x10" });
  add("mesh.xmin", { "-2", "0.5" });
  add("mesh.xmax", { "2.5" });
  add("mesh.ymin", { "-0.25" });
  add("mesh.ymax", { "4" });
  add("mesh.zmin", { "-8" });
  add("mesh.zmax", { "16" });
  for (const char * s : { "xmin", "xmax", "ymin", "ymax", "zmin", "zmax" })
    add(string("mesh.boundary_type_") + s, { "2", "3" });
  add("hydro.gamma0", { "1.666", "2" });
  add("hydro.cfl", { "0.8" });
  add("hydro.iorder", { "1" });
  add("hydro.slope_type", { "0", "2", "1.5" });
  add("hydro.smallc", { "1e-4" });
  add("hydro.smallr", { "1e-3" });
  add("hydro.cp", { "3.5" });
  add("hydro.mu", { "0.125" });
  add("hydro.kappa", { "0.375" });
  add("hydro.niter_riemann", { "4" });
  add("hydro.riemann", { "approx", "llf", "hll", "hllc", "hlld", "unknown" });
  add("OTHER.implementationVersion", { "0", "1", "2", "3", "-1" });
  add("hydro.problem", { "blast" });
  add("gravity.static", { "yes" });
  int N = (int)opts.size();
  for (auto & f : fams)
  {
    if (mc::item(string("single settings ") + f.name))
    {
      run_case({}, f, "");
      for (auto & o : opts)
        run_case({ { o.key, o.val } }, f, " " + o.key + "=" + o.val);
      mc::sample(mc::cur_desc);
      Map all;
      for (auto & o : opts) // the last value of every key, all at once
        all[o.key] = o.val;
      run_case(all, f, " all keys set");
    }
    for (int i = 0; i < N; i++)
    {
      if (!mc::item(string(f.name) + " pairs with " + opts[i].key + "=" + opts[i].val))
        continue;
      for (int j = i + 1; j < N; j++)
      {
        if (opts[i].key == opts[j].key)
          continue;
        run_case({ { opts[i].key, opts[i].val }, { opts[j].key, opts[j].val } }, f, " " + opts[i].key + "=" + opts[i].val + " " + opts[j].key + "=" + opts[j].val);
        if (mc::A.thorough)
          for (int k = j + 1; k < N; k++)
            if (opts[k].key != opts[i].key && opts[k].key != opts[j].key)
              run_case({ { opts[i].key, opts[i].val }, { opts[j].key, opts[j].val }, { opts[k].key, opts[k].val } }, f, " " + opts[i].key + "=" + opts[i].val + " " + opts[j].key + "=" + opts[j].val + " " + opts[k].key + "=" + opts[k].val);
      }
    }
  }
  // every registered name
  {
    vector<std::tuple<string, Fam, std::function<bool(SolverBase *)>>> names;
    names.emplace_back("Hydro_Muscl_2D", fams[0], [](SolverBase * s) { return dynamic_cast<muscl::SolverHydroMuscl<2> *>(s) != nullptr; });
    names.emplace_back("Hydro_Muscl_3D", fams[1], [](SolverBase * s) { return dynamic_cast<muscl::SolverHydroMuscl<3> *>(s) != nullptr; });
    names.emplace_back("MHD_Muscl_2D", fams[2], [](SolverBase * s) { return dynamic_cast<muscl::SolverMHDMuscl<2> *>(s) != nullptr; });
    names.emplace_back("MHD_Muscl_3D", fams[3], [](SolverBase * s) { return dynamic_cast<muscl::SolverMHDMuscl<3> *>(s) != nullptr; });
#define SDM(d, n) names.emplace_back("Hydro_SDM_" #d "D_degree" #n, fams[d + 2], [](SolverBase * s) { return dynamic_cast<sdm::SolverHydroSDM<d, n> *>(s) != nullptr; })
    SDM(2, 1);
    SDM(2, 2);
    SDM(2, 3);
    SDM(2, 4);
    SDM(2, 5);
    SDM(2, 6);
    SDM(3, 2);
    SDM(3, 3);
    SDM(3, 4);
    const vector<Map> extras = { {}, { { "run.tEnd", "0.25" } }, { { "run.tEnd", "2" }, { "run.tCurrent", "0.5" }, { "run.nOutput", "4" }, { "hydro.cfl", "0.25" } }, { { "run.tEnd", "1" }, { "run.tCurrent", "1" } }, { { "run.tEnd", "1" }, { "run.nStepmax", "0" } }, { { "gravity.static", "yes" }, { "run.tEnd", "1" } }, { { "gravity.point", "true" } }, { { "gravity.static", "off" } }, { { "hydro.gamma0", "1.75" }, { "hydro.smallr", "1e-3" }, { "hydro.smallc", "1e-2" }, { "hydro.riemann", "llf" }, { "run.nlog", "3" }, { "OTHER.implementationVersion", "1" } } };
    for (auto & n : names)
      for (auto & x : extras)
      {
        string d;
        for (auto & kv : x)
          d += " " + kv.first + "=" + kv.second;
        if (mc::item("solver " + std::get<0>(n) + d))
          check_solver(std::get<0>(n), x, std::get<1>(n), std::get<2>(n));
      }
    vector<string> bad = { "", "unknown", "Hydro", "Hydro_Muscl", "Hydro_Muscl_1D", "Hydro_Muscl_4D", "hydro_muscl_2d", "Hydro_Muscl_2D_", "xHydro_Muscl_2D", "MHD_Muscl_2", "MHD_muscl_3D", "Hydro_SDM_2D", "Hydro_SDM_2D_degree0", "Hydro_SDM_2D_degree7", "Hydro_SDM_3D_degree5", "Hydro_SDM_2D_degree11", "Hydro_Sdm_2D_degree3", "xHydro_SDM_3D_degree2", "Hydro_SDM_3D_degree2x", "MHD_SDM_2D_degree2", "2D", "D" };
    for (auto & n : names)
    {
      const string & s = std::get<0>(n);
      for (size_t i = 0; i < s.size(); i++)
        bad.push_back(s.substr(0, i) + s.substr(i + 1)); // one character missing
      bad.push_back(s + " x");
    }
    std::set<string> known;
    for (auto & n : names)
      known.insert(std::get<0>(n));
    for (auto & b : bad)
    {
      if (known.count(b) || !mc::item("unknown solver name '" + b + "'"))
        continue;
      pid_t pid = fork();
      if (pid == 0)
      {
        signal(SIGABRT, SIG_DFL);
        std::set_terminate([] { _exit(9); });
        Map m = { { "mesh.nx", "3" }, { "mesh.ny", "4" }, { "mesh.nz", "2" }, { "hydro.problem", "blast" }, { "output.vtk_enabled", "no" }, { "run.solver_name", b } };
        ConfigMap   c = config(m);
        HydroParams p;
        p.setup(c);
        SolverBase * s = SolverFactory::Instance().create(b, p, c);
        _exit(s ? 42 : 1);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 0))
        mc::viol("unknown-solver-accepted", "a solver was built for '" + b + "'");
      mc::stat("transitions");
      mc::stat("executions");
      mc::stat("names_refused");
    }
  }
  return mc::done();
}
