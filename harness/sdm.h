// Spectral-difference solvers behind one interface: real configuration -> real
// parameter parsing -> real SolverHydroSDM<dim,N>; one translation unit per
// (dim,N), see sdm_unit.cpp.
#ifndef SDM_H_
#define SDM_H_
#include "mc.h"
#include "fv.h"
#include <functional>

namespace sd
{
using namespace ppkMHD;
enum
{
  REFL = 1,
  OUTF = 2,
  PERI = 3
};
enum
{
  FE = 0,
  RK2 = 1,
  RK3 = 2,
  RK54 = 3
};

struct Cfg : public fv::Cfg
{
  int    N = 2;
  int    integ = FE;
  bool   rescale = false, limiter = false, charac = false, posit = false;
  double M = 0; // M_TVB
  double mu = 0;
  double smallr = 0; // 0: default
  bool   no_gamma = false; // leave the adiabatic index to its default
  std::string ini() const
  {
    std::string s = fv::Cfg::ini();
    if (no_gamma)
    {
      auto p = s.find("gamma0=");
      s.erase(p, s.find('\n', p) + 1 - p);
    }
    auto        a = s.find("solver_name="), b = s.find('\n', a);
    s.replace(a, b - a, mc::fmt("solver_name=Hydro_SDM_%dD_degree%d", dim, N));
    std::string h;
    if (mu > 0)
      h += mc::fmt("mu=%.17g\n", mu);
    if (smallr > 0)
      h += mc::fmt("smallr=%.17g\n", smallr);
    s.insert(s.find("[hydro]\n") + 8, h);
    const char * nm[] = { "forward_euler", "ssprk2", "ssprk3", "ssprk54" };
    s += mc::fmt("[sdm]\n%s=yes\nrescale_dt_enabled=%s\nlimiter_enabled=%s\nlimiter_characteristics_enabled=%s\npositivity_enabled=%s\nM_TVB=%.17g\n", nm[integ], rescale ? "yes" : "no",
                 limiter ? "yes" : "no", charac ? "yes" : "no", posit ? "yes" : "no", M);
    return s;
  }
  int         ndof() const { return dim == 2 ? N * N : N * N * N; }
  std::string desc() const
  {
    const char * nm[] = { "FE", "RK2", "RK3", "RK54" };
    return mc::fmt("SDM%dD N=%d %dx%dx%d L=%g,%g,%g bc=%d%d%d%d%d%d %s %s lim=%d pos=%d M=%g mu=%g", dim, N, n[0], n[1], dim == 3 ? n[2] : 1, L[0], L[1], L[2], bc[0], bc[1], bc[2], bc[3], bc[4],
                   bc[5], riemann.c_str(), nm[integ], limiter, posit, M, mu);
  }
};

//! interior values at solution points; 2D: one cell and one point along z
struct F
{
  int                 n[3] = { 0, 0, 0 }, p[3] = { 0, 0, 0 }, nv = 0;
  std::vector<double> d;
  F() {}
  F(const Cfg & c, int nv_ = -1)
  {
    for (int a = 0; a < 3; a++)
    {
      bool in = a < c.dim;
      n[a] = in ? c.n[a] : 1;
      p[a] = in ? c.N : 1;
    }
    nv = nv_ < 0 ? c.dim + 2 : nv_;
    d.assign((size_t)n[0] * n[1] * n[2] * p[0] * p[1] * p[2] * nv, 0.0);
  }
  size_t ix(int v, const int * i, const int * a) const
  {
    return ((((((size_t)v * n[2] + i[2]) * n[1] + i[1]) * n[0] + i[0]) * p[2] + a[2]) * p[1] + a[1]) * p[0] + a[0];
  }
  double &       at(int v, const int * i, const int * a) { return d[ix(v, i, a)]; }
  const double & at(int v, const int * i, const int * a) const { return d[ix(v, i, a)]; }
  uint64_t       hash() const { return mc::hash_bytes(d.data(), d.size() * 8); }
  //! every (cell, point)
  template <class Fn>
  void each(Fn f) const
  {
    int i[3], a[3];
    for (i[2] = 0; i[2] < n[2]; i[2]++)
      for (i[1] = 0; i[1] < n[1]; i[1]++)
        for (i[0] = 0; i[0] < n[0]; i[0]++)
          for (a[2] = 0; a[2] < p[2]; a[2]++)
            for (a[1] = 0; a[1] < p[1]; a[1]++)
              for (a[0] = 0; a[0] < p[0]; a[0]++)
                f(i, a);
  }
  template <class Fn>
  void each_cell(Fn f) const
  {
    int i[3];
    for (i[2] = 0; i[2] < n[2]; i[2]++)
      for (i[1] = 0; i[1] < n[1]; i[1]++)
        for (i[0] = 0; i[0] < n[0]; i[0]++)
          f(i);
  }
  template <class Fn>
  void each_pt(Fn f) const
  {
    int a[3];
    for (a[2] = 0; a[2] < p[2]; a[2]++)
      for (a[1] = 0; a[1] < p[1]; a[1]++)
        for (a[0] = 0; a[0] < p[0]; a[0]++)
          f(a);
  }
  double maxabs(int v) const
  {
    size_t m = d.size() / nv;
    double r = 0;
    for (size_t k = 0; k < m; k++)
      r = std::fmax(r, std::fabs(d[v * m + k]));
    return r;
  }
  bool finite() const
  {
    for (double x : d)
      if (!std::isfinite(x))
        return false;
    return true;
  }
};

inline double
diff(const F & a, const F & b, std::string * w = nullptr)
{
  double m = 0;
  for (int v = 0; v < a.nv; v++)
    a.each([&](const int * i, const int * q) {
      double x = a.at(v, i, q), y = b.at(v, i, q), e = std::fabs(x - y);
      if (!(e < 1e300))
        e = (x == y || (x != x && y != y)) ? 0 : 1e300;
      if (e > m)
      {
        m = e;
        if (w)
          *w = mc::fmt("cell (%d,%d,%d) point (%d,%d,%d) var %d: %.17g vs %.17g", i[0], i[1], i[2], q[0], q[1], q[2], v, x, y);
      }
    });
  return m;
}
//! largest difference, each variable relative to its own scale s[v]
inline double
reldiff(const F & a, const F & b, const std::vector<double> & s, std::string * w = nullptr)
{
  double m = 0;
  for (int v = 0; v < a.nv; v++)
    a.each([&](const int * i, const int * q) {
      double x = a.at(v, i, q), y = b.at(v, i, q), e = std::fabs(x - y) / s[v];
      if (!(e < 1e300))
        e = (x == y || (x != x && y != y)) ? 0 : 1e300;
      if (e > m)
      {
        m = e;
        if (w)
          *w = mc::fmt("cell (%d,%d,%d) point (%d,%d,%d) var %d: %.17g vs %.17g", i[0], i[1], i[2], q[0], q[1], q[2], v, x, y);
      }
    });
  return m;
}

enum Proc
{
  P_AVERAGE, // U -> average
  P_LIMIT,
  P_POSIT
};

struct ISdm
{
  Cfg c;
  virtual ~ISdm() {}
  virtual HydroParams & params() = 0;
  virtual SolverBase *  base() = 0;
  virtual double &      t() = 0;
  virtual double &      dt() = 0;
  virtual int &         iter() = 0;
  //! raw access; array 0: U, 1: Uaux (rhs), 2: Uaverage (dof 0 of each variable); ghosts included
  virtual double & raw(int arr, const int * i, const int * a, int v) = 0;
  virtual double & flux_raw(int dir, const int * i, const int * a, int v) = 0;
  virtual double & grad_raw(int dir, const int * i, const int * a, int v) = 0;
  virtual double & ave_raw(int which, const int * i, int v) = 0; // 0 average, 1..3 gradients
  virtual void     fill() = 0;
  virtual void     step(double dt) = 0; // boundaries + time integration
  virtual void     next() = 0;
  virtual double   dt_local() = 0;
  virtual void     rhs() = 0; // fluxes divergence of U (as is, ghosts included) into Uaux
  virtual void     average() = 0;
  virtual void     limit() = 0;
  virtual void     posit() = 0;
  virtual void     to_flux(int dir) = 0;           // U -> Fluxes
  virtual void     to_sol(int dir, int itype) = 0; // Fluxes -> Uaux (accumulating)
  virtual void     gradient(int dir) = 0;          // velocity gradient of U along dir
  virtual void     riemann(const double * wl, const double * wr, double * flux) = 0;
  virtual void     charac(int dir, bool back, double * vec, const double * Uave, double cs) = 0;
  virtual double   mat(int which, int i, int j) = 0; // 0 sol2flux 1 flux2sol 2 flux2sol_derivative 3 sol2sol_derivative
  virtual double   pt(int which, int i) = 0;         // 0 solution 1 flux
  virtual double   pt_nd(const int * a, int comp) = 0;

  int gw() { return params().ghostWidth; }
  //! interior field in, ghosts set to junk
  void put(const F & f, double junk = 7.0)
  {
    int g = gw(), gz = c.dim == 3 ? g : 0;
    int e[3] = { params().isize, params().jsize, c.dim == 3 ? params().ksize : 1 };
    int i[3];
    for (i[2] = 0; i[2] < e[2]; i[2]++)
      for (i[1] = 0; i[1] < e[1]; i[1]++)
        for (i[0] = 0; i[0] < e[0]; i[0]++)
        {
          int  q[3] = { i[0] - g, i[1] - g, i[2] - gz };
          bool in = true;
          for (int d = 0; d < 3; d++)
            in = in && q[d] >= 0 && q[d] < f.n[d];
          f.each_pt([&](const int * a) {
            for (int v = 0; v < f.nv; v++)
              raw(0, i, a, v) = in ? f.at(v, q, a) : junk;
          });
        }
  }
  F get(int arr = 0)
  {
    F   f(c);
    int g = gw(), gz = c.dim == 3 ? g : 0;
    f.each([&](const int * q, const int * a) {
      int i[3] = { q[0] + g, q[1] + g, q[2] + gz };
      for (int v = 0; v < f.nv; v++)
        f.at(v, q, a) = raw(arr, i, a, v);
    });
    return f;
  }
};

using Maker = std::function<ISdm *(const Cfg &)>;
inline std::map<std::pair<int, int>, Maker> &
makers()
{
  static std::map<std::pair<int, int>, Maker> m;
  return m;
}
inline std::unique_ptr<ISdm>
make(const Cfg & c)
{
  return std::unique_ptr<ISdm>(makers().at({ c.dim, c.N })(c));
}

} // namespace sd
#endif
