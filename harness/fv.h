// Driving the finite-volume solvers through their public interface on small
// grids: configuration -> real parameter parsing -> real solver object; the
// harness only overwrites the interior of U and reads U/U2, m_dt back.
#ifndef FV_H_
#define FV_H_
#include "mc.h"
#include <array>
#include <cctype>
#include <memory>
#include "shared/HydroParams.h"
#include "shared/SolverBase.h"
#include "utils/config/ConfigMap.h"
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverMHDMuscl.h"

namespace fv
{
using namespace ppkMHD;

// The state the checks need is public or protected depending on the class:
// protected members are reached through a derived class (Probe below).
enum
{
  REFL = 1,
  OUTF = 2,
  PERI = 3
};

struct Cfg
{
  bool        mhd = false;
  int         dim = 2;
  int         n[3] = { 4, 4, 1 };
  double      xmin[3] = { 0, 0, 0 };
  double      L[3] = { 1, 1, 1 };
  int         bc[6] = { PERI, PERI, PERI, PERI, PERI, PERI };
  std::string riemann = "hllc";
  double      slope = 1;
  int         impl = 0;
  double      cfl = 0.375; // exactly representable in single precision, like every number below:
                            // the configuration reader rounds to float
  double      gamma = 1.40625;
  double      tEnd = 1e6;
  std::string problem = "implode";
  std::string extra; // further ini lines
  int         nOutput = 0;
  int         nStepmax = 1000000;
  int         mpi[3] = { 1, 1, 1 };
  bool        grav = false; // uniform static gravity, set up by the rising bubble problem
  double      g[3] = { 0, 0, 0 };
  void        set_gravity(double x, double y, double z)
  {
    grav = true;
    problem = "rising_bubble";
    g[0] = x, g[1] = y, g[2] = z;
  }
  std::string solver_name() const
  {
    return std::string(mhd ? "MHD" : "Hydro") + "_Muscl_" + (dim == 2 ? "2D" : "3D");
  }
  std::string ini() const
  {
    std::string s;
    s += "[run]\nsolver_name=" + solver_name() + "\n";
    s += mc::fmt("tEnd=%.17g\nnStepmax=%d\nnOutput=%d\nnlog=1000000\n", tEnd, nStepmax, nOutput);
    s += mc::fmt("[mesh]\nnx=%d\nny=%d\nnz=%d\n", n[0], n[1], n[2]);
    const char * ax = "xyz";
    for (int d = 0; d < 3; d++)
    {
      s += mc::fmt("%cmin=%.17g\n%cmax=%.17g\n", ax[d], xmin[d], ax[d], xmin[d] + L[d]);
      s += mc::fmt("boundary_type_%cmin=%d\nboundary_type_%cmax=%d\n", ax[d], bc[2 * d], ax[d], bc[2 * d + 1]);
    }
    s += mc::fmt("[hydro]\ngamma0=%.17g\ncfl=%.17g\nslope_type=%g\nriemann=%s\nproblem=%s\n", gamma, cfl, slope, riemann.c_str(), problem.c_str());
    s += mc::fmt("[OTHER]\nimplementationVersion=%d\n[mpi]\nmx=%d\nmy=%d\nmz=%d\n", impl, mpi[0], mpi[1], mpi[2]);
    s += "[output]\noutputPrefix=t\noutputDir=./\n";
    if (grav)
      s += mc::fmt("[gravity]\nstatic=yes\n[rising_bubble]\ngx=%.17g\ngy=%.17g\ngz=%.17g\n", g[0], g[1], g[2]);
    s += extra;
    return s;
  }
  std::string desc() const
  {
    return mc::fmt("%s %dx%dx%d L=%g,%g,%g bc=%d%d%d%d%d%d %s slope=%g impl=%d", solver_name().c_str(), n[0], n[1], n[2], L[0], L[1], L[2], bc[0], bc[1], bc[2], bc[3], bc[4], bc[5],
                   riemann.c_str(), slope, impl);
  }
  int  nv() const { return mhd ? 8 : dim == 2 ? 4 : 5; }
  int  gw() const { return mhd ? 3 : 2; }
  void all_bc(int t)
  {
    for (int & b : bc)
      b = t;
  }
};

// interior field, conservative variables
struct Field
{
  int                 n[3] = { 0, 0, 0 }, nv = 0;
  std::vector<double> d;
  Field() {}
  Field(const Cfg & c)
  {
    n[0] = c.n[0], n[1] = c.n[1], n[2] = c.dim == 3 ? c.n[2] : 1;
    nv = c.nv();
    d.assign((size_t)n[0] * n[1] * n[2] * nv, 0.0);
  }
  Field(int a, int b, int c, int v)
  {
    n[0] = a, n[1] = b, n[2] = c, nv = v;
    d.assign((size_t)a * b * c * v, 0.0);
  }
  double &       operator()(int i, int j, int k, int v) { return d[(((size_t)v * n[2] + k) * n[1] + j) * n[0] + i]; }
  const double & operator()(int i, int j, int k, int v) const { return d[(((size_t)v * n[2] + k) * n[1] + j) * n[0] + i]; }
  uint64_t       hash() const { return mc::hash_bytes(d.data(), d.size() * 8); }
  bool           finite() const
  {
    for (double x : d)
      if (!std::isfinite(x))
        return false;
    return true;
  }
  double maxabs() const
  {
    double m = 0;
    for (double x : d)
      m = std::fmax(m, std::fabs(x));
    return m;
  }
};

inline double
maxdiff(const Field & a, const Field & b, std::string * where = nullptr)
{
  double m = 0;
  if (a.d.size() != b.d.size())
    return 1e300;
  for (int v = 0; v < a.nv; v++)
    for (int k = 0; k < a.n[2]; k++)
      for (int j = 0; j < a.n[1]; j++)
        for (int i = 0; i < a.n[0]; i++)
        {
          double x = a(i, j, k, v), y = b(i, j, k, v);
          double e = std::fabs(x - y);
          if (!(e <= 1e300))
            e = (x == y || (x != x && y != y)) ? 0 : 1e300;
          if (e > m)
          {
            m = e;
            if (where)
              *where = mc::fmt("cell (%d,%d,%d) var %d: %.17g vs %.17g", i, j, k, v, x, y);
          }
        }
  return m;
}

template <class S>
struct Access
{};

//! access to protected members of SolverBase through a derived class
template <class Base>
struct Probe : public Base
{
  using Base::Base;
  double & t() { return this->m_t; }
  double & dt() { return this->m_dt; }
  int &    iter() { return this->m_iteration; }
  int &    saved() { return this->m_times_saved; }
};

template <class V>
double &
at2(V & U, int i, int j, int, int v, std::integral_constant<int, 2>)
{
  return U(i, j, v);
}
template <class V>
double &
at2(V & U, int i, int j, int k, int v, std::integral_constant<int, 3>)
{
  return U(i, j, k, v);
}

inline void
setg(muscl::SolverHydroMuscl<2> & s, int i, int j, int, int d, double v)
{
  s.gravity(i, j, d) = v;
}
inline void
setg(muscl::SolverHydroMuscl<3> & s, int i, int j, int k, int d, double v)
{
  s.gravity(i, j, k, d) = v;
}
template <class S>
void
setg(S &, int, int, int, int, double)
{}

struct RunBase
{
  virtual ~RunBase() {}
  Cfg c;
  virtual double & U(int i, int j, int k, int v) = 0;  // current array, with ghosts
  virtual double & Un(int which, int i, int j, int k, int v) = 0;
  virtual void     next() = 0;
  virtual void     boundaries() = 0;
  virtual void     compute_dt() = 0;
  virtual void     step_with(double dt) = 0;
  virtual double & t() = 0;
  virtual double & dt() = 0;
  virtual int &    iter() = 0;
  virtual HydroParams & params() = 0;
  virtual SolverBase *  base() = 0;
  virtual void     G(int i, int j, int k, int d, double v) = 0; // gravity, with ghosts
  int              ext[3]; // extents with ghosts
  Field            g; // interior gravity field

  //! source index and sign along one axis of a ghost cell
  static int src(int i, int n, int gw, int bmin, int bmax, bool & flip)
  {
    int q = i - gw; // logical index
    flip = false;
    if (q >= 0 && q < n)
      return i;
    int t = q < 0 ? bmin : bmax;
    if (t == PERI)
      return (q < 0 ? q + n : q - n) + gw;
    if (t == OUTF)
      return (q < 0 ? 0 : n - 1) + gw;
    flip = true;
    return (q < 0 ? -1 - q : 2 * n - 1 - q) + gw;
  }
  //! prescribe a gravity field; ghost cells follow the boundary conditions
  void set_gravity(const Field & f)
  {
    g = f;
    int gw = c.gw();
    for (int k = 0; k < ext[2]; k++)
      for (int j = 0; j < ext[1]; j++)
        for (int i = 0; i < ext[0]; i++)
        {
          bool fl[3] = { false, false, false };
          int  a = src(i, c.n[0], gw, c.bc[0], c.bc[1], fl[0]) - gw, b = src(j, c.n[1], gw, c.bc[2], c.bc[3], fl[1]) - gw, e = 0;
          if (c.dim == 3)
            e = src(k, c.n[2], gw, c.bc[4], c.bc[5], fl[2]) - gw;
          for (int d = 0; d < c.dim; d++)
            G(i, j, k, d, fl[d] ? -f(a, b, e, d) : f(a, b, e, d));
        }
  }

  void put(const Field & f)
  {
    int gw = c.gw(), gz = c.dim == 3 ? gw : 0;
    for (int v = 0; v < f.nv; v++)
      for (int k = 0; k < f.n[2]; k++)
        for (int j = 0; j < f.n[1]; j++)
          for (int i = 0; i < f.n[0]; i++)
            U(i + gw, j + gw, k + gz, v) = f(i, j, k, v);
  }
  Field get()
  {
    Field f(c);
    int   gw = c.gw(), gz = c.dim == 3 ? gw : 0;
    for (int v = 0; v < f.nv; v++)
      for (int k = 0; k < f.n[2]; k++)
        for (int j = 0; j < f.n[1]; j++)
          for (int i = 0; i < f.n[0]; i++)
            f(i, j, k, v) = U(i + gw, j + gw, k + gz, v);
    return f;
  }
  //! all ghost cells of both arrays set to a junk value
  void poison(double x)
  {
    int gw = c.gw();
    for (int w = 0; w < 2; w++)
      for (int v = 0; v < c.nv(); v++)
        for (int k = 0; k < ext[2]; k++)
          for (int j = 0; j < ext[1]; j++)
            for (int i = 0; i < ext[0]; i++)
            {
              bool in = i >= gw && i < gw + c.n[0] && j >= gw && j < gw + c.n[1] && (c.dim == 2 || (k >= gw && k < gw + c.n[2]));
              if (!in)
                Un(w, i, j, k, v) = x;
            }
  }
  //! start from f at t=0, iteration it0 (its parity selects the array)
  void start(const Field & f, int it0 = 0, double junk = 1.0)
  {
    t() = 0;
    iter() = it0;
    poison(junk);
    put(f);
  }
};

template <class S, int dim>
struct RunT : public RunBase
{
  std::unique_ptr<ConfigMap> cm;
  HydroParams                prm;
  Probe<S> *                 s = nullptr;
  RunT(const Cfg & cc)
  {
    c = cc;
    std::string ini = c.ini();
    char *      buf = (char *)malloc(ini.size() + 1);
    memcpy(buf, ini.c_str(), ini.size() + 1);
    cm.reset(new ConfigMap(buf, (int)ini.size()));
    free(buf);
    prm.setup(*cm);
    s = new Probe<S>(prm, *cm);
    ext[0] = prm.isize;
    ext[1] = prm.jsize;
    ext[2] = dim == 3 ? prm.ksize : 1;
  }
  ~RunT() { delete s; }
  double & U(int i, int j, int k, int v) override { return Un(s->iter() % 2, i, j, k, v); }
  double & Un(int w, int i, int j, int k, int v) override { return at2(w ? s->U2 : s->U, i, j, k, v, std::integral_constant<int, dim>()); }
  void     next() override { s->next_iteration(); }
  void     boundaries() override { s->make_boundaries(s->iter() % 2 ? s->U2 : s->U); }
  void     compute_dt() override { s->compute_dt(); }
  void     step_with(double d) override
  {
    // through the public interface: the end time clips the step
    double te = s->m_tEnd;
    s->m_tEnd = s->m_t + d;
    s->next_iteration();
    s->m_tEnd = te;
  }
  double &      t() override { return s->t(); }
  double &      dt() override { return s->dt(); }
  int &         iter() override { return s->iter(); }
  HydroParams & params() override { return prm; }
  SolverBase *  base() override { return s; }
  void          G(int i, int j, int k, int d, double v) override { setg(static_cast<S &>(*s), i, j, k, d, v); }
};

inline std::unique_ptr<RunBase>
make(const Cfg & c)
{
  using namespace ppkMHD::muscl;
  if (!c.mhd)
  {
    if (c.dim == 2)
      return std::unique_ptr<RunBase>(new RunT<SolverHydroMuscl<2>, 2>(c));
    return std::unique_ptr<RunBase>(new RunT<SolverHydroMuscl<3>, 3>(c));
  }
  if (c.dim == 2)
    return std::unique_ptr<RunBase>(new RunT<SolverMHDMuscl<2>, 2>(c));
  return std::unique_ptr<RunBase>(new RunT<SolverMHDMuscl<3>, 3>(c));
}

// ------------------------------------------------------------ alphabets
struct Prim
{
  double r, p, u, v, w, a, b, c;
};

inline void
set_cons(Field & f, int i, int j, int k, const Prim & q, double gamma, bool mhd, int dim)
{
  double e = q.p / (gamma - 1) + 0.5 * q.r * (q.u * q.u + q.v * q.v + ((mhd || dim == 3) ? q.w * q.w : 0));
  f(i, j, k, 0) = q.r;
  f(i, j, k, 2) = q.r * q.u;
  f(i, j, k, 3) = q.r * q.v;
  if (mhd || dim == 3)
    f(i, j, k, 4) = q.r * q.w;
  if (mhd)
  {
    f(i, j, k, 5) = q.a;
    f(i, j, k, 6) = q.b;
    f(i, j, k, 7) = q.c;
    e += 0.5 * (q.a * q.a + q.b * q.b + q.c * q.c);
  }
  f(i, j, k, 1) = e;
}

//! the alphabet of cell states (primitive); distinct, generic, both signs of
//! every velocity, sub- and supersonic, jumps up to one decade
inline const std::vector<Prim> &
alphabet()
{
  static const std::vector<Prim> a = {
    { 1.0, 1.0, 0.30, -0.20, 0.15, 0.50, -0.30, 0.20 },   { 0.45, 0.35, -0.55, 0.40, -0.25, -0.20, 0.45, 0.35 },
    { 2.10, 2.60, 0.10, 0.65, 0.50, 0.15, 0.25, -0.60 },  { 1.30, 0.60, 1.90, -0.35, -0.80, 0.70, -0.15, 0.10 },
    { 0.80, 1.70, -0.15, -1.40, 0.35, -0.35, -0.55, 0.0 }, { 1.00, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 },
  };
  return a;
}

inline unsigned
mix(unsigned x);
//! gravity field: amplitude g, varying from cell to cell unless var is 0
inline Field
gravity_field(const Cfg & c, double var, unsigned s = 0)
{
  Field f(c.n[0], c.n[1], c.dim == 3 ? c.n[2] : 1, c.dim);
  for (int d = 0; d < c.dim; d++)
    for (int k = 0; k < f.n[2]; k++)
      for (int j = 0; j < f.n[1]; j++)
        for (int i = 0; i < f.n[0]; i++)
          f(i, j, k, d) = c.g[d] * (1 + var * ((mix(i + 37 * j + 1009 * k + 50021 * d + 7 * s) % 17) / 8.0 - 1));
  return f;
}

inline unsigned
mix(unsigned x)
{
  x ^= x >> 16;
  x *= 0x7feb352dU;
  x ^= x >> 15;
  x *= 0x846ca68bU;
  x ^= x >> 16;
  return x;
}

//! Field number s of the family "patterned": each cell gets a letter by a fixed
//! mixing function of its position, so neighbouring pairs of letters vary; amplitude scales jumps
inline Field
pattern(const Cfg & c, unsigned s, double amp = 1.0)
{
  Field        f(c);
  const auto & A = alphabet();
  for (int k = 0; k < f.n[2]; k++)
    for (int j = 0; j < f.n[1]; j++)
      for (int i = 0; i < f.n[0]; i++)
      {
        const Prim & a = A[mix(i + 31 * j + 977 * k + 7919 * s) % A.size()];
        const Prim & z = A[0];
        Prim         q;
        const double * pa = &a.r;
        const double * pz = &z.r;
        double *       pq = &q.r;
        for (int m = 0; m < 8; m++)
          pq[m] = pz[m] + amp * (pa[m] - pz[m]);
        set_cons(f, i, j, k, q, c.gamma, c.mhd, c.dim);
      }
  return f;
}

//! exhaustive family: letter of cell number m is digit m of code in base nl
inline Field
assign(const Cfg & c, unsigned long code, int nl, const int * letters)
{
  Field        f(c);
  const auto & A = alphabet();
  for (int k = 0; k < f.n[2]; k++)
    for (int j = 0; j < f.n[1]; j++)
      for (int i = 0; i < f.n[0]; i++)
      {
        set_cons(f, i, j, k, A[letters[code % nl]], c.gamma, c.mhd, c.dim);
        code /= nl;
      }
  return f;
}

//! replace the face field by the discrete curl of an edge potential (div-free on a
//! periodic grid) plus a uniform field; cell energy adjusted so that the gas
//! pressure (with the cell-centred average field) stays that of the letter
inline void
make_divfree(const Cfg & c, Field & f, unsigned s, double amp = 0.5)
{
  int          nx = f.n[0], ny = f.n[1], nz = f.n[2];
  const double dx = c.L[0] / c.n[0], dy = c.L[1] / c.n[1], dz = c.L[2] / c.n[2];
  auto         A = [&](int d, int i, int j, int k) {
    i = (i % nx + nx) % nx, j = (j % ny + ny) % ny, k = (k % nz + nz) % nz;
    unsigned h = mix(17 * d + 5 * i + 131 * j + 1031 * k + 104729 * (s + 3));
    return amp * ((h % 2001) / 1000.0 - 1.0) * std::fmin(dx, std::fmin(dy, c.dim == 3 ? dz : dy));
  };
  bool d3 = c.dim == 3;
  // gas energies with the old (cell) field removed
  for (int k = 0; k < nz; k++)
    for (int j = 0; j < ny; j++)
      for (int i = 0; i < nx; i++)
        f(i, j, k, 1) -= 0.5 * (f(i, j, k, 5) * f(i, j, k, 5) + f(i, j, k, 6) * f(i, j, k, 6) + f(i, j, k, 7) * f(i, j, k, 7));
  for (int k = 0; k < nz; k++)
    for (int j = 0; j < ny; j++)
      for (int i = 0; i < nx; i++)
      {
        double bz_cell = f(i, j, k, 7);
        f(i, j, k, 5) = 0.35 + (A(2, i, j + 1, k) - A(2, i, j, k)) / dy - (d3 ? (A(1, i, j, k + 1) - A(1, i, j, k)) / dz : 0);
        f(i, j, k, 6) = -0.25 + (d3 ? (A(0, i, j, k + 1) - A(0, i, j, k)) / dz : 0) - (A(2, i + 1, j, k) - A(2, i, j, k)) / dx;
        f(i, j, k, 7) = d3 ? 0.15 + (A(1, i + 1, j, k) - A(1, i, j, k)) / dx - (A(0, i, j + 1, k) - A(0, i, j, k)) / dy : bz_cell;
      }
  for (int k = 0; k < nz; k++)
    for (int j = 0; j < ny; j++)
      for (int i = 0; i < nx; i++)
      {
        double bx = 0.5 * (f(i, j, k, 5) + f((i + 1) % nx, j, k, 5));
        double by = 0.5 * (f(i, j, k, 6) + f(i, (j + 1) % ny, k, 6));
        double bz = d3 ? 0.5 * (f(i, j, k, 7) + f(i, j, (k + 1) % nz, 7)) : f(i, j, k, 7);
        f(i, j, k, 1) += 0.5 * (bx * bx + by * by + bz * bz);
      }
}

//! discrete divergence in every cell of a periodic domain
inline double
divB(const Cfg & c, const Field & f, int i, int j, int k)
{
  const double dx = c.L[0] / c.n[0], dy = c.L[1] / c.n[1], dz = c.L[2] / c.n[2];
  int          nx = f.n[0], ny = f.n[1], nz = f.n[2];
  double       d = (f((i + 1) % nx, j, k, 5) - f(i, j, k, 5)) / dx + (f(i, (j + 1) % ny, k, 6) - f(i, j, k, 6)) / dy;
  if (c.dim == 3)
    d += (f(i, j, (k + 1) % nz, 7) - f(i, j, k, 7)) / dz;
  return d;
}

//! lists of option values
inline std::vector<std::string>
riemanns(bool mhd)
{
  if (mhd)
    return { "hlld", "hll", "llf" };
  return { "approx", "hll", "hllc", "llf" };
}

} // namespace fv
#endif
