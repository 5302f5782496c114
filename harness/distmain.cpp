// The real main() on several processes.
//  mode sched (P10): all schedules of whole runs (start, broadcast of the
//    parameters, steps, output files, end)
//  mode out (P09): the files of whole runs against those of the single-process run
//  mode restart (P14): restarts of distributed runs, on the same and other processes
#ifndef USE_HDF5
#  define FILESREAD_NO_HDF5
#endif
#include "explore.h"
#include "filesread.h"
#include <spawn.h>
using namespace mr;
extern char ** environ;

struct Job
{
  const char * solver;
  int          dim;
  bool         mhd;
  int          g[3], n[3]; // process grid, cells of the whole domain
  string       problem, dir;
  int          bc[6];
  int          nOutput, nStep;
  Map          extra;
  int          np() const { return g[0] * g[1] * g[2]; }
  Map          map(bool dist) const
  {
    Map          m = extra;
    const char * ax[3] = { "x", "y", "z" };
    m["run.solver_name"] = solver;
    m["hydro.problem"] = problem;
    m["run.nStepmax"] = std::to_string(nStep);
    m["run.nOutput"] = std::to_string(nOutput);
    m["run.nlog"] = "1";
    if (!m.count("run.tEnd"))
      m["run.tEnd"] = "100";
    m["hydro.cfl"] = "0.5";
    if (!m.count("output.vtk_enabled"))
      m["output.vtk_enabled"] = "yes";
    if (!m.count("output.hdf5_enabled"))
      m["output.hdf5_enabled"] = "no";
    for (int d = 0; d < 3; d++)
    {
      m[string("mesh.n") + ax[d]] = std::to_string(dist ? n[d] / g[d] : n[d]);
      m[string("mpi.m") + ax[d]] = std::to_string(dist ? g[d] : 1);
      m[string("mesh.boundary_type_") + ax[d] + "min"] = std::to_string(bc[2 * d]);
      m[string("mesh.boundary_type_") + ax[d] + "max"] = std::to_string(bc[2 * d + 1]);
    }
    return m;
  }
  string desc() const
  {
    string e;
    for (auto & kv : extra)
      e += " " + kv.first + "=" + kv.second;
    return mc::fmt("%s %s grid %dx%dx%d cells %dx%dx%d borders %d%d%d%d%d%d output every %d of %d steps%s", solver, problem.c_str(), g[0], g[1], g[2], n[0], n[1], n[2], bc[0], bc[1], bc[2], bc[3], bc[4], bc[5], nOutput, nStep, e.c_str());
  }
};

static std::function<int(int)>
body(const Job & J)
{
  put(J.dir + "/p.ini", ini_text(J.map(true)));
  string dir = J.dir;
  return [dir](int) {
    if (chdir(dir.c_str()) || !freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr))
      return 99;
    char   a0[] = "ppkMHD", a1[] = "p.ini";
    char * av[] = { a0, a1, nullptr };
    return ppk_main(2, av);
  };
}

static const int BC[][6] = { { 3, 3, 3, 3, 3, 3 }, { 2, 2, 1, 1, 2, 1 }, { 1, 2, 3, 3, 1, 1 } };
struct Fam
{
  const char *   solver;
  int            dim;
  bool           mhd;
  int            gw;
  vector<string> problems;
};
static const vector<Fam> FAMS = { { "Hydro_Muscl_2D", 2, false, 2, { "implode", "blast", "four_quadrant", "isentropic_vortex", "kelvin_helmholtz" } },
                                  { "Hydro_Muscl_3D", 3, false, 2, { "implode", "blast", "four_quadrant", "kelvin_helmholtz" } },
                                  { "MHD_Muscl_2D", 2, true, 3, { "implode", "blast", "orszag_tang", "rotor", "field_loop" } },
                                  { "MHD_Muscl_3D", 3, true, 3, { "implode", "blast", "orszag_tang", "rotor", "field_loop" } } };

static Job
job(const Fam & f, const int * g, int mul, const string & problem, int b)
{
  Job J;
  J.solver = f.solver, J.dim = f.dim, J.mhd = f.mhd, J.problem = problem;
  for (int d = 0; d < 3; d++)
  {
    J.g[d] = g[d];
    J.n[d] = d < f.dim ? g[d] * (f.gw + (d == 0 ? mul : 0)) : 1;
  }
  for (int k = 0; k < 6; k++)
    J.bc[k] = BC[b][k];
  J.nOutput = 1, J.nStep = 2;
  J.extra["hydro.niter_riemann"] = "8";
  if (problem == "kelvin_helmholtz")
    J.extra["KH.p_sine"] = "yes";
  return J;
}

static uint64_t
digest(const string & dir)
{
  uint64_t h = 1469598103934665603ull;
  for (auto & f : list(dir))
  {
    string t = get(dir + "/" + f);
    h = mc::hash_bytes(f.data(), f.size(), h);
    h = mc::hash_bytes(t.data(), t.size(), h);
  }
  return h;
}

//! the first time step of a single process, from the run's own report
static double
first_dt(Job J)
{
  J.g[0] = J.g[1] = J.g[2] = 1;
  J.nStep = 1, J.nOutput = 0;
  put(J.dir + "/p.ini", ini_text(J.map(true)));
  string     dir = J.dir;
  mpx::World w(1);
  w.need_finalize = true;
  w.run([dir](int) {
    if (chdir(dir.c_str()) || !freopen("log", "w", stdout) || !freopen("/dev/null", "w", stderr))
      return 99;
    char   a0[] = "ppkMHD", a1[] = "p.ini";
    char * av[] = { a0, a1, nullptr };
    int    rc = ppk_main(2, av);
    fflush(stdout);
    return rc;
  });
  string t = get(dir + "/log");
  size_t p = t.find("final time is ");
  for (auto & x : list(dir))
    unlink((dir + "/" + x).c_str());
  return p == string::npos ? -1 : atof(t.c_str() + p + 14);
}

static void
mode_sched()
{
  const bool T = mc::A.thorough;
  const int  G[][3] = { { 1, 1, 1 }, { 2, 1, 1 }, { 1, 2, 1 }, { 1, 1, 2 }, { 3, 1, 1 }, { 1, 3, 1 }, { 1, 1, 3 }, { 2, 2, 1 }, { 2, 1, 2 }, { 1, 2, 2 }, { 4, 1, 1 }, { 2, 2, 2 }, { 3, 2, 1 } };
  for (auto & f : FAMS)
    for (auto & g : G)
      for (int v = 0; v < (T ? 6 : 3); v++)
      {
        int np = g[0] * g[1] * g[2];
        if ((f.dim == 2 && g[2] > 1) || np > (T ? 8 : 6))
          continue;
        Job J = job(f, g, 1, f.problems[v % f.problems.size()], v % 3);
        // outputs at every step, at the start and end only, none
        J.nOutput = v % 3 == 0 ? 1 : v % 3 == 1 ? 0 : -1;
        J.nStep = np <= 4 ? 2 : 1;
        if (!mc::item("schedules of " + J.desc()))
          continue;
        J.dir = scratch("sched");
        mpx::Bounds B;
        B.buffering = np <= (T ? 6 : 4);
        B.cap = T ? 12000000 : 3000000;
        B.deviations = T ? (np <= 2 ? 2 : 1) : np <= 3 ? 1 : 0;
        B.max_replays = T ? 100000 : 400;
        B.policies = 6;
        string D = J.dir;
        Job *  P = &J;
        mpx::explore("run", J.desc(), np, {}, body(J), [D] { return digest(D); }, B, true, [D, P] {
          for (auto & x : list(D))
            if (x != "p.ini")
              unlink((D + "/" + x).c_str());
        });
        clean(J.dir);
      }
  // runs that end at tEnd: the processes disagree on whether their own step reaches it
  for (auto & f : FAMS)
    for (auto & g : G)
      for (double m : { 0.5, 1.05, 1.6, 2.3 })
      {
        int np = g[0] * g[1] * g[2];
        if ((f.dim == 2 && g[2] > 1) || np < 2 || np > (T ? 4 : 2))
          continue;
        Job J = job(f, g, 1, "blast", m > 2 ? 0 : 1);
        J.nOutput = m > 2 ? 1 : 0;
        J.nStep = 20;
        J.extra["blast.center_x"] = J.extra["blast.center_y"] = J.extra["blast.center_z"] = "0.1";
        J.extra["blast.radius"] = "0.3";
        J.extra["blast.pressure_in"] = "50";
        if (!mc::item(mc::fmt("schedules of a run ending after %g steps: ", m) + J.desc()))
          continue;
        J.dir = scratch("sched");
        double dt0 = first_dt(J);
        if (!(dt0 > 0))
        {
          mc::viol("run:first-step", J.desc() + ": the first step of a single process is not positive");
          continue;
        }
        J.extra["run.tEnd"] = mc::fmt("%.9g", m * dt0);
        mpx::Bounds B;
        B.buffering = true;
        B.cap = T ? 12000000 : 3000000;
        B.deviations = T && np == 2 ? 1 : 0;
        B.max_replays = T ? 100000 : 400;
        B.policies = 6;
        string D = J.dir;
        mpx::explore("run", J.desc(), np, {}, body(J), [D] { return digest(D); }, B, true, [D] {
          for (auto & x : list(D))
            if (x != "p.ini")
              unlink((D + "/" + x).c_str());
        });
        clean(J.dir);
      }
}

//! image files of one output, together: variable -> values of the whole domain
static bool
gather(const Job & J, const string & index, std::map<string, vector<double>> & out, string & err)
{
  bool ok;
  auto x = fr::read_pvtx(get(J.dir + "/" + index, &ok), true);
  if (!ok || !x.err.empty())
  {
    err = index + ": " + (ok ? x.err : "cannot be read");
    return false;
  }
  size_t tot = (size_t)J.n[0] * J.n[1] * J.n[2];
  for (auto & s : x.sources)
  {
    auto v = fr::read_vti(get(J.dir + "/" + s, &ok));
    if (!ok || !v.err.empty() || v.piece.size() != 6)
    {
      err = s + ": " + (ok ? v.err : "cannot be read");
      return false;
    }
    int b[3], n[3];
    for (int d = 0; d < 3; d++)
    {
      b[d] = d < J.dim ? (int)v.piece[2 * d] : 0;
      n[d] = d < J.dim ? (int)v.piece[2 * d + 1] - b[d] : 1;
      if (b[d] < 0 || n[d] < 0 || b[d] + n[d] > J.n[d])
      {
        err = s + ": extent out of the domain";
        return false;
      }
    }
    for (size_t q = 0; q < v.names.size(); q++)
    {
      auto & a = out[v.names[q]];
      if (a.empty())
        a.assign(tot, NAN);
      size_t c = 0;
      for (int k = 0; k < n[2]; k++)
        for (int j = 0; j < n[1]; j++)
          for (int i = 0; i < n[0]; i++, c++)
            if (c < v.data[q].size())
              a[((size_t)(k + b[2]) * J.n[1] + j + b[1]) * J.n[0] + i + b[0]] = v.data[q][c];
    }
  }
  return true;
}

static void
mode_out()
{
  const bool   T = mc::A.thorough;
  const char * ref = getenv("DIST_MAIN");
  for (auto & f : FAMS)
    for (int a = 1; a <= 8; a++)
      for (int b = 1; a * b <= 8; b++)
        for (int c = 1; a * b * c <= (f.dim == 2 ? a * b : 8); c++)
        {
          int g[3] = { a, b, c };
          if (!mc::item(mc::fmt("files of %s grid %dx%dx%d", f.solver, a, b, c)))
            continue;
          string ds = scratch("ser");
          for (size_t pb = 0; pb < f.problems.size(); pb++)
            for (int v = 0; v < (T ? 3 : 1); v++)
            {
              Job J = job(f, g, 1 + v, f.problems[pb], (pb + v) % 3);
              J.nStep = 3;
              J.nOutput = pb % 3 == 0 ? 1 : pb % 3 == 1 ? 2 : -1;
              J.dir = scratch("dist");
              if (pb % 3 == 1)
              { // ends at its end time, with outputs on the way
                double dt0 = first_dt(J);
                J.nStep = 30;
                J.extra["run.tEnd"] = mc::fmt("%.9g", (2.4 + 0.3 * pb) * dt0);
              }
              mc::cur_desc = J.desc();
              for (auto & x : list(ds))
                unlink((ds + "/" + x).c_str());
              put(ds + "/p.ini", ini_text(J.map(false)));
              pid_t  pid;
              char * av[] = { (char *)ref, (char *)ds.c_str(), nullptr };
              int    st = -1;
              if (posix_spawn(&pid, ref, nullptr, nullptr, av, environ))
                abort();
              waitpid(pid, &st, 0);
              mpx::World w(J.np());
              w.need_finalize = true;
              auto o = w.run(body(J));
              mc::stat("executions", 1);
              mc::stat("transitions", J.nStep);
              if (st != 0 && o.error.empty())
                mc::viol("only-serial-fails", "the single-process run ends with " + status(st));
              if (!o.error.empty())
              {
                if (st == 0)
                  mc::viol("run:" + o.kind, o.error);
                continue;
              }
              auto S = list(ds, ".vti"), D = list(J.dir, ".pvti");
              if (S.size() != D.size() || S.empty())
                mc::viol("outputs", mc::fmt("%d outputs, the single-process run writes %d", (int)D.size(), (int)S.size()));
              mc::state(digest(J.dir));
              for (size_t k = 0; k < std::min(S.size(), D.size()); k++)
              {
                string err;
                auto   s = fr::read_vti(get(ds + "/" + S[k]));
                std::map<string, vector<double>> d;
                if (!s.err.empty() || !gather(J, D[k], d, err))
                {
                  mc::viol("malformed", s.err + err);
                  break;
                }
                // same number in the names
                string ns = S[k].substr(S[k].size() - 11, 7), nd = D[k].substr(D[k].size() - 12, 7);
                if (ns != nd)
                  mc::viol("output-number", D[k] + " for " + S[k]);
                for (size_t q = 0; q < s.names.size(); q++)
                {
                  auto & x = d[s.names[q]];
                  if (x.size() != s.data[q].size())
                  {
                    mc::viol("output-size", mc::fmt("%s of output %d has %d values instead of %d", s.names[q].c_str(), (int)k, (int)x.size(), (int)s.data[q].size()));
                    continue;
                  }
                  double sc = 1e-30, worst = 0;
                  size_t at = 0;
                  for (double z : s.data[q])
                    sc = std::max(sc, std::fabs(z));
                  for (size_t i = 0; i < x.size(); i++)
                  {
                    double e = std::fabs(x[i] - s.data[q][i]);
                    if (!(e <= worst))
                      worst = e, at = i;
                  }
                  mc::maxstat("difference", worst / sc);
                  if (!(worst <= 1e-10 * std::max(sc, 1e-2)))
                    mc::viol("output-value:" + s.names[q], mc::fmt("%s of output %d, cell %d: %.17g, single-process run %.17g", s.names[q].c_str(), (int)k, (int)at, x[at], s.data[q][at]));
                  mc::stat("values", x.size());
                }
              }
            }
          clean(ds);
          clean(mc::fmt("s%d-dist", (int)getpid()));
        }
}

#ifdef USE_HDF5
struct Out
{
  int    n;
  double t;
  fr::H5 h;
};
static vector<Out>
outputs(const string & dir)
{
  vector<Out> r;
  for (auto & f : list(dir, ".h5"))
    if (f.compare(0, 7, "output_") == 0)
    {
      Out o;
      o.h = fr::read_h5(dir + "/" + f);
      if (!o.h.ok || !o.h.attr.count("total time"))
      {
        mc::viol("unreadable", f);
        continue;
      }
      o.n = atoi(f.c_str() + 7);
      o.t = o.h.attr["total time"];
      r.push_back(o);
    }
  return r;
}
//! largest difference of the inner cells, relative to the size of the field
static double
diff(const Fam & f, const Job & J, int ghost, const fr::H5 & a, const fr::H5 & b, const int ga[3], const int gb[3], string & what)
{
  double worst = 0;
  if (a.data.size() != b.data.size())
  {
    what = "other variables";
    return INFINITY;
  }
  for (auto & kv : a.data)
  {
    auto it = b.data.find(kv.first);
    if (it == b.data.end())
    {
      what = "no " + kv.first;
      return INFINITY;
    }
    // position of a cell of the domain in the file
    auto at = [&](const vector<double> & v, const int g[3], const int c[3]) {
      size_t p = 0;
      for (int d = f.dim - 1; d >= 0; d--)
      {
        int l = J.n[d] / g[d], one = l + 2 * f.gw, x = c[d] / l;
        int n = ghost == 2 ? g[d] * one : J.n[d] + (ghost ? 2 * f.gw : 0);
        p = p * n + (ghost == 2 ? x * one + f.gw + c[d] - x * l : c[d] + (ghost ? f.gw : 0));
      }
      return p < v.size() ? v[p] : NAN;
    };
    double sc = 1e-2, e = 0;
    int    c[3], w[3] = { 0, 0, 0 };
    for (double z : kv.second)
      if (std::isfinite(z))
        sc = std::max(sc, std::fabs(z));
    for (c[2] = 0; c[2] < J.n[2]; c[2]++)
      for (c[1] = 0; c[1] < J.n[1]; c[1]++)
        for (c[0] = 0; c[0] < J.n[0]; c[0]++)
        {
          double x = at(kv.second, ga, c), y = at(it->second, gb, c), q = std::fabs(x - y) / sc;
          if (!(q <= e))
            e = std::isnan(q) ? INFINITY : q, w[0] = c[0], w[1] = c[1], w[2] = c[2];
          mc::stat("values");
        }
    if (e > worst)
    {
      worst = e;
      what = mc::fmt("%s of cell (%d,%d,%d): %.17g instead of %.17g", kv.first.c_str(), w[0], w[1], w[2], at(it->second, gb, w), at(kv.second, ga, w));
    }
  }
  return worst;
}

static bool
world(const Job & J)
{
  mpx::World w(J.np());
  w.need_finalize = true;
  auto o = w.run(body(J));
  mc::stat("executions");
  if (o.error.empty())
    return true;
  mc::viol("run:" + o.kind, J.desc() + ": " + o.error);
  return false;
}

static void
mode_restart()
{
  struct Prob
  {
    const char * name;
    bool         gravity;
    int          bc;
    bool         hyd, mhd;
    const char * tEnd;
  };
  const bool T = mc::A.thorough;
  const Prob P[] = { { "blast", false, 0, true, true, "0.03125" }, { "implode", false, 1, true, true, "0.03125" }, { "rayleigh_taylor", true, 2, true, false, "0.03125" }, { "orszag_tang", false, 0, false, true, "0.03125" } };
  const int  M = T ? 8 : 4;
  auto fits = [&](const Fam & f, const int n[3], const int g[3]) {
    for (int d = 0; d < f.dim; d++)
      if (n[d] % g[d] || n[d] / g[d] < f.gw)
        return false;
    return true;
  };
  for (auto & f : FAMS)
    for (int a = 1; a <= M; a++)
      for (int b = 1; a * b <= M; b++)
        for (int c = 1; a * b * c <= (f.dim == 2 ? a * b : M); c++)
          for (auto & pr : P)
            for (int ghost = 0; ghost < 3; ghost++)
              for (int nout : { -1, 3 })
              {
                int g[3] = { a, b, c };
                int n[3] = { 12, f.dim == 3 ? 6 : 12, f.dim == 3 ? 6 : 1 };
                if (!(f.mhd ? pr.mhd : pr.hyd) || !fits(f, n, g) || (nout == 3 && !T && (ghost || a * b * c > 2)))
                  continue;
                if (!mc::item(mc::fmt("restart %s %s grid %dx%dx%d ghosts %d nOutput %d", f.solver, pr.name, a, b, c, ghost, nout)))
                  continue;
                const string ctx = mc::cur_desc;
                Job          J;
                J.solver = f.solver, J.dim = f.dim, J.mhd = f.mhd, J.problem = pr.name;
                for (int d = 0; d < 3; d++)
                  J.g[d] = g[d], J.n[d] = n[d];
                for (int k = 0; k < 6; k++)
                  J.bc[k] = BC[pr.bc][k];
                J.nOutput = nout, J.nStep = 1000;
                J.extra = { { "hydro.niter_riemann", "8" }, { "output.vtk_enabled", "no" }, { "output.hdf5_enabled", "yes" }, { "run.tEnd", pr.tEnd }, { "blast.radius", "0.3" } };
                if (pr.gravity)
                {
                  J.extra["gravity.enabled"] = J.extra["gravity.static"] = "yes";
                  const char * gx[3] = { "0.5", "-1", "-0.75" };
                  for (int d = 0; d < 3; d++)
                    J.extra[string("gravity.static_field_") + "xyz"[d]] = J.extra[string("gravity.g_") + "xyz"[d]] = gx[d];
                }
                if (ghost)
                  J.extra[ghost == 1 ? "output.ghostIncluded" : "output.allghostIncluded"] = "yes";
                J.dir = scratch("a");
                if (!world(J))
                {
                  clean(J.dir);
                  continue;
                }
                auto A = outputs(J.dir);
                if (A.size() < 3)
                  mc::viol("too-few", mc::fmt("run has only %d outputs", (int)A.size()));
                for (auto & x : A)
                  for (int a2 = 1; a2 <= M; a2++)
                    for (int b2 = 1; a2 * b2 <= M; b2++)
                      for (int c2 = 1; a2 * b2 * c2 <= (f.dim == 2 ? a2 * b2 : M); c2++)
                      {
                        int  g2[3] = { a2, b2, c2 };
                        bool own = a2 == a && b2 == b && c2 == c;
                        if (!fits(f, n, g2) || (!own && (ghost == 2 || (!T && (a2 + 2 * b2 + 3 * c2 + x.n + ghost) % 6))))
                          continue;
                        mc::cur_desc = ctx + mc::fmt(", restart from %d on grid %dx%dx%d", x.n, a2, b2, c2);
                        Job R = J;
                        R.dir = scratch("b");
                        for (int d = 0; d < 3; d++)
                          R.g[d] = g2[d];
                        put(R.dir + "/in.h5", get(J.dir + mc::fmt("/output_%07d.h5", x.n)));
                        R.extra["run.restart_enabled"] = "yes";
                        R.extra["run.restart_filename"] = "in.h5";
                        if (!world(R))
                          continue;
                        mc::stat("transitions");
                        auto     B = outputs(R.dir);
                        uint64_t h = 0;
                        for (auto & o : B)
                          for (auto & kv : o.h.data)
                            h = mc::hash_bytes(kv.second.data(), kv.second.size() * 8, h + 1);
                        mc::state(h);
                        for (auto & y : A)
                        {
                          if (y.n < x.n)
                            continue;
                          const Out * z = nullptr;
                          for (auto & o : B)
                            if (std::fabs(o.t - y.t) <= 1e-10 * std::fabs(y.t))
                              z = &o;
                          if (!z)
                          {
                            mc::viol("restart-outputs", mc::fmt("output %d (t=%.17g) of the original run is missing", y.n, y.t));
                            break;
                          }
                          string w;
                          double e = diff(f, J, ghost, y.h, z->h, g, g2, w);
                          mc::maxstat("restart_diff", e);
                          if (e > (own ? 1e-11 : 1e-10))
                          {
                            mc::viol("restart-state", mc::fmt("output %d (t=%g): %s", y.n, y.t, w.c_str()));
                            break;
                          }
                        }
                        for (auto & o : B)
                        {
                          bool in = false;
                          for (auto & y : A)
                            in = in || std::fabs(o.t - y.t) <= 1e-10 * y.t;
                          if (!in)
                            mc::viol("restart-extra", mc::fmt("there is an output at t=%.17g that the original has not", o.t));
                        }
                        if (B.empty() || B[0].n != x.n)
                          mc::viol("restart-number", mc::fmt("the outputs begin with number %d", B.empty() ? -1 : B[0].n));
                        clean(R.dir);
                      }
                clean(J.dir);
              }
}
#endif

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  mc::hang_s = 600;
  string m = mc::A.get("mode");
  if (m == "sched")
    mode_sched();
  else if (m == "out")
    mode_out();
#ifdef USE_HDF5
  else if (m == "restart")
    mode_restart();
#endif
  return mc::done();
}
