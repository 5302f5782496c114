// P13: advance of time, end of the run, and the outputs written, by the real main()
// for every combination of end time, start time, step limit, output and log cadence.
#include "mainrun.h"
#ifdef USE_HDF5
#  include <hdf5.h>
#endif
using namespace mr;

struct Fam
{
  const char * name;
  int          dim;
  bool         h5;
  const char * ext; // of the VTK files
};

static string
outname(int n, const char * ext)
{
  return mc::fmt("output_%07d.%s", n, ext);
}

//! takes the output number out of a VTK file (-1: the file has none)
static int
cycle(string & text)
{
  size_t a = text.find("Name=\"CYCLE\"");
  if (a == string::npos)
    return -1;
  a = text.find('>', a) + 1;
  size_t b = text.find('<', a);
  int    n = atoi(text.substr(a, b - a).c_str());
  text.erase(a, b - a);
  return n;
}

#ifdef USE_HDF5
static bool
h5_header(const string & path, int & num, double & t)
{
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0)
    return false;
  hid_t a = H5Aopen(f, "time step", H5P_DEFAULT), b = H5Aopen(f, "total time", H5P_DEFAULT);
  bool  ok = a >= 0 && b >= 0 && H5Aread(a, H5T_NATIVE_INT, &num) >= 0 && H5Aread(b, H5T_NATIVE_DOUBLE, &t) >= 0;
  H5Aclose(a);
  H5Aclose(b);
  H5Fclose(f);
  return ok;
}
#endif

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  Kokkos::initialize(argc, argv);
  vector<Fam> fams = { { "Hydro_Muscl_2D", 2, true, "vti" }, { "Hydro_Muscl_3D", 3, true, "vti" }, { "MHD_Muscl_2D", 2, true, "vti" }, { "MHD_Muscl_3D", 3, true, "vti" } };
#ifdef USE_SDM
  fams.push_back({ "Hydro_SDM_2D_degree2", 2, false, "vtu" });
  fams.push_back({ "Hydro_SDM_3D_degree2", 3, false, "vtu" });
#endif
  const int NREF = 9;
  for (auto & f : fams)
  {
    Map base = { { "run.solver_name", f.name }, { "mesh.nx", "4" }, { "mesh.ny", "4" }, { "mesh.nz", f.dim == 3 ? "3" : "1" }, { "hydro.problem", "blast" }, { "blast.radius", "0.3" }, { "hydro.cfl", "0.5" }, { "output.vtk_enabled", "yes" } };
    for (const char * s : { "xmin", "xmax", "ymin", "ymax", "zmin", "zmax" })
      base[string("mesh.boundary_type_") + s] = "3";
    if (strstr(f.name, "SDM"))
      base["sdm.ssprk2"] = "yes";
    // the unlimited run: its natural times
    vector<double> nat = { 0.0 };
    {
      Map m = base;
      m["run.tEnd"] = "1e30";
      m["run.nOutput"] = "0";
      m["run.nStepmax"] = "1000000";
      Solver s(m);
      mc::cur_desc = string("unlimited run of ") + f.name;
      for (int k = 0; k < NREF; k++)
      {
        s->next_iteration();
        nat.push_back(s->m_t);
      }
      if (!(nat[1] > 0))
        mc::viol("time-not-increasing", "first step does not advance time");
    }
    vector<std::pair<string, double>> ends;
    auto                              fl = [](double x) { return (double)(float)x; };
    ends.push_back({ "0", 0.0 });
    ends.push_back({ "half a step", fl(nat[1] * 0.5) });
    ends.push_back({ "just above step 2", (double)std::nextafter((float)nat[2], 1e9f) });
    ends.push_back({ "just below step 3", (double)std::nextafter((float)nat[3], 0.0f) });
    ends.push_back({ "4.3 steps", fl(nat[4] + 0.3 * (nat[5] - nat[4])) });
    ends.push_back({ "7.6 steps", fl(nat[7] + 0.6 * (nat[8] - nat[7])) });
    const double unit = ends.back().second;
    for (auto & e : ends)
      for (int start = 0; start < 4; start++)
      {
        if (start && e.second == 0)
          continue;
        const double tc = start == 0 ? 0 : start == 1 ? fl(0.4 * unit) : start == 2 ? e.second : fl(2 * e.second);
        if (!mc::item(mc::fmt("%s, end %s, start %g of end", f.name, e.first.c_str(), e.second > 0 ? tc / e.second : 0)))
          continue;
        const string ctx = mc::cur_desc;
        Map          m = base;
        m["run.tEnd"] = num(e.second);
        m["run.tCurrent"] = num(tc);
        // the states of the limited run, one file per step
        string         rd = scratch("ref");
        vector<double> T = { tc };
        {
          Map r = m;
          r["run.nOutput"] = "0";
          r["run.nStepmax"] = "1000000";
          r["output.outputDir"] = rd;
          r["output.hdf5_enabled"] = "no";
          Solver s(r);
          // the times it has to pass through
          auto save = [&](int k) {
            s->m_times_saved = k;
            s->save_solution();
          };
          save(0);
          for (int k = 0; T.back() < e.second && k < 30; k++)
          {
            if (s->finished())
            {
              mc::viol("stopped-early", mc::fmt("finished at t=%.17g before the end time %.17g", s->m_t, e.second));
              break;
            }
            s->next_iteration();
            if (s->m_iteration != k + 1)
              mc::viol("step-count", mc::fmt("step counter %d after %d steps", s->m_iteration, k + 1));
            double exp = std::min(e.second, T.back() + (k + 1 < (int)nat.size() ? nat[k + 1] - nat[k] : 1e30));
            if (k + 1 < (int)nat.size() && std::fabs(s->m_t - exp) > 1e-12 * exp)
              mc::viol("time-step", mc::fmt("step %d leads to t=%.17g instead of %.17g", k, s->m_t, exp));
            if (!(s->m_t > T.back()))
            {
              mc::viol("time-not-increasing", mc::fmt("step %d: t=%.17g after %.17g", k, s->m_t, T.back()));
              break;
            }
            if (s->m_t > e.second * (1 + 1e-15))
              mc::viol("beyond-end", mc::fmt("t=%.17g beyond the end time %.17g", s->m_t, e.second));
            T.push_back(s->m_t);
            save(k + 1);
            mc::stat("transitions");
          }
          if (!s->finished())
            mc::viol("not-finished", mc::fmt("not finished at t=%.17g, end %.17g", s->m_t, e.second));
        }
        const int    last = (int)T.size() - 1;
        vector<string> ref;
        for (int k = 0; k <= last; k++)
        {
          ref.push_back(get(rd + "/" + outname(k, f.ext)));
          cycle(ref.back());
          if (ref.back().empty())
            mc::viol("no-output", mc::fmt("saving the solution writes no file %s", outname(k, f.ext).c_str()));
        }
        for (int nst : { 0, 1, 3, 1000 })
          for (int nout : { 0, -1, 1, 2, 3, 7, 1000 })
            for (int nlog : { 1, 10, 0 })
            {
              if (nlog != 10 && (nout == 2 || nout == 7))
                continue;
              const bool h5 = f.h5 && (nlog == 1 || nout == 2 || nout == 7);
              mc::cur_desc = ctx + mc::fmt(", nStepmax %d nOutput %d nlog %d hdf5 %d", nst, nout, nlog, (int)h5);
              Map r = m;
              r["run.nStepmax"] = std::to_string(nst);
              r["run.nOutput"] = std::to_string(nout);
              r["run.nlog"] = std::to_string(nlog);
              r["output.hdf5_enabled"] = h5 ? "yes" : "no";
              // what has to be written
              vector<int> due;
              int         K = std::min(last, nst);
              bool        ambiguous = false;
              if (nout != 0)
              {
                due.push_back(0);
                for (int k = 0; k < K; k++)
                {
                  double next = due.size() * (e.second / nout);
                  if (nout > 0 && std::fabs(T[k] - next) < 1e-11 * e.second)
                    ambiguous = true;
                  if (nout < 0 || T[k] > next)
                    due.push_back(k);
                }
                due.push_back(K);
              }
              if (ambiguous)
                continue;
              string d = scratch("run");
              int    st = run_main(d, r);
              mc::stat("transitions", K);
              if (ran(st))
              {
                auto files = list(d, string(".") + f.ext);
                mc::state(mc::hash_bytes(due.data(), due.size() * sizeof(int), mc::hash_bytes(T.data(), T.size() * 8)));
                if (files.size() != due.size())
                  mc::viol("outputs", mc::fmt("%d output files instead of %d (%d steps)", (int)files.size(), (int)due.size(), K));
                else
                  for (int n = 0; n < (int)due.size(); n++)
                  {
                    bool   ok;
                    string got = get(d + "/" + outname(n, f.ext), &ok);
                    int    cyc = cycle(got);
                    if (cyc >= 0 && cyc != n)
                      mc::viol("output-cycle", mc::fmt("output %d says it is number %d", n, cyc));
                    if (!ok)
                      mc::viol("output-number", mc::fmt("no output number %d among %d", n, (int)due.size()));
                    else if (got != ref[due[n]])
                    {
                      int w = -1;
                      for (int k = 0; k <= last; k++)
                        if (got == ref[k])
                          w = k;
                      mc::viol("output-state", mc::fmt("output %d holds the state of step %d instead of step %d", n, w, due[n]));
                    }
                  }
                auto h = list(d, ".h5");
                if (!h5 && !h.empty())
                  mc::viol("outputs", "HDF5 files although not requested");
#ifdef USE_HDF5
                if (h5)
                {
                  if (h.size() != due.size())
                    mc::viol("outputs", mc::fmt("%d HDF5 files instead of %d", (int)h.size(), (int)due.size()));
                  else
                    for (int n = 0; n < (int)due.size(); n++)
                    {
                      int    k = -1;
                      double t = -1;
                      if (!h5_header(d + "/" + outname(n, "h5"), k, t))
                        mc::viol("output-number", mc::fmt("no HDF5 output number %d", n));
                      else if (k != n || t != T[due[n]])
                        mc::viol("output-time", mc::fmt("HDF5 output %d says number %d time %.17g instead of %d, %.17g", n, k, t, n, T[due[n]]));
                    }
                }
#endif
              }
              clean(d);
            }
        mc::sample(mc::cur_desc);
        clean(rd);
      }
  }
  return mc::done();
}
