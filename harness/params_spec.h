// What the parameter file means for the run settings.
#ifndef PARAMS_SPEC_H_
#define PARAMS_SPEC_H_
struct Fam
{
  const char * name;
  int          dim, nbvar, gw;
  bool         mhd;
};
static const Fam fams[] = { { "Hydro_Muscl_2D", 2, 4, 2, false }, { "Hydro_Muscl_3D", 3, 5, 2, false }, { "MHD_Muscl_2D", 2, 8, 3, true }, { "MHD_Muscl_3D", 3, 8, 3, true }, { "Hydro_SDM_2D_degree3", 2, 4, 1, false }, { "Hydro_SDM_3D_degree2", 3, 5, 1, false } };

static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 2e-6 * std::max(std::fabs(a), std::fabs(b)); }

static double setting(const Map & m, const char * k, double d)
{
  auto it = m.find(k);
  return it == m.end() ? d : strtod(it->second.c_str(), nullptr);
}
static bool flag(const Map & m, const char * k, bool d)
{
  auto it = m.find(k);
  if (it == m.end())
    return d;
  const string & v = it->second;
  return v == "yes" || v == "true" || v == "on" || v == "1" ? true : v == "no" || v == "false" || v == "off" || v == "0" ? false : d;
}

//! expected value of every setting; calls wrong(name, message) for the others
template <class W>
static void
each_wrong(const HydroParams & p, const Map & m, const Fam & f, W && wrong)
{
  std::map<string, std::pair<double, double>> e; // name -> got, expected
#define E(name, got, exp) e[name] = { (double)(got), (double)(exp) }
  E("nStepmax", p.nStepmax, setting(m, "run.nStepmax", 1000));
  E("tEnd", p.tEnd, setting(m, "run.tEnd", 0));
  double nout = setting(m, "run.nOutput", 100);
  E("nOutput", p.nOutput, nout);
  E("enableOutput", p.enableOutput, nout != 0);
  E("nlog", p.nlog, setting(m, "run.nlog", 10));
  E("dim", p.dimType == TWO_D ? 2 : 3, f.dim);
  E("nbvar", p.nbvar, f.nbvar);
  // how many layers of ghost cells a scheme has is its own business
  const int gw = p.ghostWidth;
  E("ghostWidth", gw >= 1, 1);
  E("mhdEnabled", p.mhdEnabled, f.mhd);
  int n[3] = { (int)setting(m, "mesh.nx", 1), (int)setting(m, "mesh.ny", 1), (int)setting(m, "mesh.nz", 1) };
  E("nx", p.nx, n[0]);
  E("ny", p.ny, n[1]);
  E("nz", p.nz, n[2]);
  double lo[3] = { setting(m, "mesh.xmin", 0), setting(m, "mesh.ymin", 0), setting(m, "mesh.zmin", 0) };
  double hi[3] = { setting(m, "mesh.xmax", 1), setting(m, "mesh.ymax", 1), setting(m, "mesh.zmax", 1) };
  E("xmin", p.xmin, lo[0]);
  E("ymin", p.ymin, lo[1]);
  E("zmin", p.zmin, lo[2]);
  E("xmax", p.xmax, hi[0]);
  E("ymax", p.ymax, hi[1]);
  E("zmax", p.zmax, hi[2]);
  // process grid (one process when not distributed); a 2D run ignores the third axis
  int mp[3] = { 1, 1, 1 };
#ifdef USE_MPI
  mp[0] = (int)setting(m, "mpi.mx", 1), mp[1] = (int)setting(m, "mpi.my", 1), mp[2] = (int)setting(m, "mpi.mz", 1);
  E("mx", p.mx, mp[0]);
  E("my", p.my, mp[1]);
  E("mz", p.mz, mp[2]);
  E("nProcs", p.nProcs, mp[0] * mp[1] * mp[2]);
#endif
  E("dx", p.dx, (hi[0] - lo[0]) / (n[0] * mp[0]));
  E("dy", p.dy, (hi[1] - lo[1]) / (n[1] * mp[1]));
  E("dz", p.dz, (hi[2] - lo[2]) / (n[2] * mp[2]));
  E("imin", p.imin, 0);
  E("jmin", p.jmin, 0);
  E("kmin", p.kmin, 0);
  E("imax", p.imax, n[0] + 2 * gw - 1);
  E("jmax", p.jmax, n[1] + 2 * gw - 1);
  E("kmax", p.kmax, n[2] + 2 * gw - 1);
  E("isize", p.isize, n[0] + 2 * gw);
  E("jsize", p.jsize, n[1] + 2 * gw);
  E("ksize", p.ksize, n[2] + 2 * gw);
#ifndef USE_MPI // in a distributed run they depend on the place of the process (P11)
  E("boundary_type_xmin", p.boundary_type_xmin, setting(m, "mesh.boundary_type_xmin", 1));
  E("boundary_type_xmax", p.boundary_type_xmax, setting(m, "mesh.boundary_type_xmax", 1));
  E("boundary_type_ymin", p.boundary_type_ymin, setting(m, "mesh.boundary_type_ymin", 1));
  E("boundary_type_ymax", p.boundary_type_ymax, setting(m, "mesh.boundary_type_ymax", 1));
  E("boundary_type_zmin", p.boundary_type_zmin, setting(m, "mesh.boundary_type_zmin", 1));
  E("boundary_type_zmax", p.boundary_type_zmax, setting(m, "mesh.boundary_type_zmax", 1));
#endif
  double g = setting(m, "hydro.gamma0", 1.4), sc = setting(m, "hydro.smallc", 1e-10), sr = setting(m, "hydro.smallr", 1e-10);
  E("gamma0", p.settings.gamma0, g);
  E("gamma6", p.settings.gamma6, (g + 1) / (2 * g));
  E("cfl", p.settings.cfl, setting(m, "hydro.cfl", 0.5));
  E("iorder", p.settings.iorder, setting(m, "hydro.iorder", 2));
  E("slope_type", p.settings.slope_type, setting(m, "hydro.slope_type", 1));
  E("smallc", p.settings.smallc, sc);
  E("smallr", p.settings.smallr, sr);
  E("smallp", p.settings.smallp, sc * sc / g);
  E("smallpp", p.settings.smallpp, sr * sc * sc / g);
  E("cp", p.settings.cp, setting(m, "hydro.cp", 0));
  E("mu", p.settings.mu, setting(m, "hydro.mu", 0));
  E("kappa", p.settings.kappa, setting(m, "hydro.kappa", 0));
  E("niter_riemann", p.niter_riemann, setting(m, "hydro.niter_riemann", 10));
  static const std::map<string, int> rs = { { "approx", RIEMANN_APPROX }, { "llf", RIEMANN_LLF }, { "hll", RIEMANN_HLL }, { "hllc", RIEMANN_HLLC }, { "hlld", RIEMANN_HLLD } };
  auto r = m.find("hydro.riemann");
  int rt = r == m.end() || !rs.count(r->second) ? RIEMANN_APPROX : rs.at(r->second);
  // a solver that does not exist for the equations is replaced by the default one
  if (p.mhdEnabled && (rt == RIEMANN_APPROX || rt == RIEMANN_HLLC))
    rt = RIEMANN_HLLD;
  if (!p.mhdEnabled && rt == RIEMANN_HLLD)
    rt = RIEMANN_APPROX;
  E("riemannSolverType", p.riemannSolverType, rt);
  double iv = setting(m, "OTHER.implementationVersion", 0);
  E("implementationVersion", p.implementationVersion, iv == 0 || iv == 1 || iv == 2 ? iv : 0);
#undef E
  for (auto & kv : e)
    if (!near(kv.second.first, kv.second.second))
      wrong(kv.first, mc::fmt("%s is %.9g, the file means %.9g", kv.first.c_str(), kv.second.first, kv.second.second));
  mc::stat("settings_compared", e.size());
}
static void
check_params(const HydroParams & p, const Map & m, const Fam & f, const char * how)
{
  each_wrong(p, m, f, [&](const string & k, const string & t) { mc::viol("setting:" + k, string(how) + ": " + t); });
}
#endif
