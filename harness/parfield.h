// A field divided among processes, each cell with a value of its own, and what a
// file written by all of them must hold.
#ifndef PARFIELD_H_
#define PARFIELD_H_
#include "mpirt.h"
#include "filesread.h"
#include "utils/io/IO_ReadWrite.h"
using namespace mr;

static const char * HN2[] = { "rho", "energy", "rho_vx", "rho_vy" };
static const char * HN3[] = { "rho", "energy", "rho_vx", "rho_vy", "rho_vz" };
static const char * MN[] = { "rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz" };

static double
val(int pat, long id)
{
  if (pat == 0)
    return 100 + id;
  static const double ex[] = { 1e300, -1e-300, 5e-324, -0.0, 1.0 / 3, -1e17, 3.0000000000000004, 0.1 };
  return ex[id % 8] * (1 + (id / 8) * 0.001);
}
static bool
same(double a, double b)
{
  return !memcmp(&a, &b, sizeof a);
}

struct Job
{
  int         dim;
  bool        mhd;
  int         g[3], l[3]; // process grid, cells of each process
  int         ghost;      // 0 none, 1 outer ghost cells, 2 ghost cells of every process
  bool        join;       // pieces put together in the file
  int         pat, step;
  double      time;
  string      prefix = "output", dir, file;
  bool        up = false, verbose = false;
  vector<int> perm;
  int         gw() const { return mhd ? 3 : 2; }
  int         np() const { return g[0] * g[1] * g[2]; }
  int         nv() const { return mhd ? 8 : dim == 2 ? 4 : 5; }
  string      var(int v) const { return mhd ? MN[v] : dim == 2 ? HN2[v] : HN3[v]; }
  int         total(int d) const { return d < dim ? g[d] * l[d] : 1; }
  int         w(int d) const { return d < dim ? gw() : 0; }
  int         ext(int d) const { return d < dim ? l[d] + 2 * gw() : 1; }
  //! what the process at position x of the grid holds at i (ghosts included); the
  //! ghost cells differ from what the neighbour holds there, as after a time step
  double local(const int x[3], const int i[3], int v) const
  {
    bool in = true;
    for (int d = 0; d < dim; d++)
      in = in && i[d] >= gw() && i[d] < gw() + l[d];
    long id = 0, c[3];
    for (int d = 0; d < 3; d++)
      c[d] = d < dim ? i[d] - gw() + x[d] * l[d] : 0;
    if (in)
      return val(pat, ((v * 60 + c[2]) * 60 + c[1]) * 60 + c[0]);
    id = (x[2] * 8 + x[1]) * 8 + x[0];
    for (int d = 2; d >= 0; d--)
      id = id * 24 + i[d];
    return val(pat, 1728000L + id * 8 + v);
  }
  void coords(int r, int x[3]) const
  {
    x[0] = x[1] = x[2] = 0;
    for (int d = dim - 1; d >= 0; d--)
      x[d] = r % g[d], r /= g[d];
  }
  //! sizes of the datasets, fastest direction first
  void fdims(long s[3]) const
  {
    for (int d = 0; d < 3; d++)
    {
      int one = l[d] + (ghost ? 2 * gw() : 0);
      s[d] = d >= dim ? 1 : !join ? one : ghost == 1 ? g[d] * l[d] + 2 * gw() : g[d] * one;
    }
    if (!join)
      s[dim - 1] *= np();
  }
  //! what the file must hold at position p
  double stored(const long p[3], int v) const
  {
    int  x[3] = { 0, 0, 0 }, i[3] = { 0, 0, 0 };
    long q[3] = { p[0], p[1], p[2] };
    if (!join)
    {
      int one = l[dim - 1] + (ghost ? 2 * gw() : 0);
      coords(q[dim - 1] / one, x);
      q[dim - 1] %= one;
      for (int d = 0; d < dim; d++)
        i[d] = q[d] + (ghost ? 0 : gw());
    }
    else
      for (int d = 0; d < dim; d++)
      {
        if (ghost == 2)
          x[d] = q[d] / (l[d] + 2 * gw()), i[d] = q[d] % (l[d] + 2 * gw());
        else
        {
          long c = ghost ? q[d] - gw() : q[d]; // cell of the whole domain
          x[d] = c < 0 ? 0 : c >= total(d) ? g[d] - 1 : c / l[d];
          i[d] = c - x[d] * l[d] + gw();
        }
      }
    return local(x, i, v);
  }
  string solver() const { return mc::fmt("%s_Muscl_%dD", mhd ? "MHD" : "Hydro", dim); }
  Map    map() const
  {
    Map m = { { "run.solver_name", solver() }, { "hydro.cfl", "0.5" }, { "output.vtk_enabled", "no" }, { "output.hdf5_enabled", "yes" }, { "output.outputDir", dir }, { "output.outputPrefix", prefix } };
    const char * ax[3] = { "x", "y", "z" };
    for (int q = 0; q < 3; q++)
    {
      m[string("mesh.n") + ax[q]] = std::to_string(q < dim ? l[q] : 1);
      m[string("mpi.m") + ax[q]] = std::to_string(g[q]);
      m[string("mesh.boundary_type_") + ax[q] + "min"] = m[string("mesh.boundary_type_") + ax[q] + "max"] = "3";
    }
    if (ghost == 1)
      m["output.ghostIncluded"] = "yes";
    if (ghost == 2)
      m["output.allghostIncluded"] = "yes";
    if (!join)
      m["output.reassembleInFile"] = "no";
    if (verbose)
      m["output.hdf5_verbose"] = m["run.hdf5_verbose"] = "yes";
    if (up)
      m["run.restart_upscale"] = "yes";
    if (!file.empty())
      m["run.restart_filename"] = file;
    return m;
  }
  string desc() const
  {
    string r;
    for (int x : perm)
      r += mc::fmt("%d", x);
    return mc::fmt("%s grid %dx%dx%d cells %dx%dx%d ghosts %d together %d values %d prefix %s step %d%s%s", solver().c_str(), g[0], g[1], g[2], l[0], l[1], l[2], ghost, join, pat, prefix.c_str(), step, perm.empty() ? "" : " numbering ", r.c_str());
  }
};

static bool
vio(const Job & J, const string & k, const string & m)
{
  mc::viol(k, J.desc() + ": " + m);
  return false;
}

template <class DA>
static DA
array(const HydroParams & p, int nv)
{
  if constexpr (DA::rank == 3)
    return DA("U", p.isize, p.jsize, nv);
  else
    return DA("U", p.isize, p.jsize, p.ksize, nv);
}
template <class A>
static auto &
at(A & u, const int i[3], int v)
{
  if constexpr (A::rank == 3)
    return u(i[0], i[1], v);
  else
    return u(i[0], i[1], i[2], v);
}
template <class F>
static void
every(const Job & J, F f)
{
  int i[3];
  for (i[2] = 0; i[2] < J.ext(2); i[2]++)
    for (i[1] = 0; i[1] < J.ext(1); i[1]++)
      for (i[0] = 0; i[0] < J.ext(0); i[0]++)
        for (int v = 0; v < J.nv(); v++)
          f(i, v);
}
static std::map<int, string>
names(const Job & J)
{
  std::map<int, string> n;
  for (int v = 0; v < J.nv(); v++)
    n[v] = J.var(v);
  return n;
}
static void
place(const Job & J, const HydroParams & p, int x[3])
{
  int me;
  MPI_Comm_rank(p.communicator->getComm(), &me);
  x[0] = x[1] = x[2] = 0;
  MPI_Cart_coords(p.communicator->getComm(), me, J.dim, x);
}

static bool
run(const Job & J, const string & what, std::function<int()> body)
{
  mpx::World w(J.np());
  w.perm = J.perm;
  auto o = w.run([&](int) {
    MPI_Init(nullptr, nullptr);
    int r = body();
    MPI_Finalize();
    return r;
  });
  mc::stat("schedules");
  if (!o.error.empty())
    return vio(J, what + "-error", o.error);
  return true;
}
#endif
