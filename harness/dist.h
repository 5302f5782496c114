// One face for every solver (finite volume or spectral difference), used the
// same way by a single-process run and by each rank of a distributed run.
#ifndef DIST_H_
#define DIST_H_
#include "fv.h"
#include "sdm.h"

namespace ds
{
using std::string;
using std::vector;

struct Case
{
  sd::Cfg     c;          // sizes: those of the whole domain; c.mpi is the process grid
  bool        sdm = false;
  int         steps = 0;
  bool        field = false; // start from field number `seed` (else from the built-in problem)
  unsigned    seed = 0;
  double      amp = 1;
  string      problem_keys; // for messages
  int  np() const { return c.mpi[0] * c.mpi[1] * (c.dim == 3 ? c.mpi[2] : 1); }
  int  nd() const { return sdm ? c.ndof() * (c.dim + 2) : c.nv(); }
  int  gw() const { return sdm ? (c.mu > 0 ? 2 : 1) : c.gw(); }
  Case local() const
  {
    Case l = *this;
    for (int d = 0; d < 3; d++)
      l.c.n[d] = c.n[d] / (d < c.dim ? c.mpi[d] : 1);
    return l;
  }
  string desc() const
  {
    return (sdm ? c.desc() : c.fv::Cfg::desc()) + mc::fmt(" problem=%s grid=%dx%dx%d", c.problem.c_str(), c.mpi[0], c.mpi[1], c.mpi[2]) + (field ? mc::fmt(" field %u", seed) : string());
  }
};

//! text form, for the reference process
inline string
pack(const Case & k)
{
  string        s;
  const auto &  c = k.c;
  auto          i = [&](long v) { s.append((char *)&v, sizeof v); };
  auto          d = [&](double v) { s.append((char *)&v, sizeof v); };
  auto          t = [&](const string & v) { i(v.size()), s += v; };
  i(c.mhd), i(c.dim), i(c.impl), i(c.nOutput), i(c.nStepmax), i(c.grav), i(c.N), i(c.integ), i(c.rescale), i(c.limiter), i(c.charac), i(c.posit);
  for (int a = 0; a < 3; a++)
    i(c.n[a]), i(c.mpi[a]), d(c.xmin[a]), d(c.L[a]), d(c.g[a]);
  for (int b : c.bc)
    i(b);
  for (double x : { c.slope, c.cfl, c.gamma, c.tEnd, c.M, c.mu, c.smallr, k.amp })
    d(x);
  t(c.riemann), t(c.problem), t(c.extra);
  i(k.sdm), i(k.steps), i(k.field), i(k.seed);
  return s;
}
inline Case
unpack(const string & s)
{
  Case   k;
  size_t p = 0;
  auto   i = [&]() {
    long v;
    memcpy(&v, &s[p], sizeof v);
    p += sizeof v;
    return v;
  };
  auto d = [&]() {
    double v;
    memcpy(&v, &s[p], sizeof v);
    p += sizeof v;
    return v;
  };
  auto t = [&]() {
    long   n = i();
    string v = s.substr(p, n);
    p += n;
    return v;
  };
  auto & c = k.c;
  c.mhd = i(), c.dim = i(), c.impl = i(), c.nOutput = i(), c.nStepmax = i(), c.grav = i(), c.N = i(), c.integ = i(), c.rescale = i(), c.limiter = i(), c.charac = i(), c.posit = i();
  for (int a = 0; a < 3; a++)
    c.n[a] = i(), c.mpi[a] = i(), c.xmin[a] = d(), c.L[a] = d(), c.g[a] = d();
  for (int & b : c.bc)
    b = i();
  for (double * x : { &c.slope, &c.cfl, &c.gamma, &c.tEnd, &c.M, &c.mu, &c.smallr, &k.amp })
    *x = d();
  c.riemann = t(), c.problem = t(), c.extra = t();
  k.sdm = i(), k.steps = i(), k.field = i(), k.seed = i();
  return k;
}

struct Run
{
  Case                         k;
  std::unique_ptr<fv::RunBase> f;
  std::unique_ptr<sd::ISdm>    s;
  int                          e[3], nv, np;
  //! k: sizes of this process
  Run(const Case & kk)
    : k(kk)
  {
    if (k.sdm)
      s = sd::make(k.c);
    else
      f = fv::make(k.c);
    auto & p = params();
    e[0] = p.isize, e[1] = p.jsize, e[2] = k.c.dim == 3 ? p.ksize : 1;
    nv = k.sdm ? k.c.dim + 2 : k.c.nv();
    np = k.sdm ? k.c.ndof() : 1;
  }
  ppkMHD::HydroParams & params() { return k.sdm ? s->params() : f->params(); }
  double &              t() { return k.sdm ? s->t() : f->t(); }
  double &              dt() { return k.sdm ? s->dt() : f->dt(); }
  double &              u(int i, int j, int l, int d)
  {
    if (!k.sdm)
      return f->U(i, j, l, d);
    int v = d / np, q = d % np, N = k.c.N;
    int c[3] = { i, j, l }, a[3] = { q % N, q / N % N, q / (N * N) };
    return s->raw(0, c, a, v);
  }
  void boundaries() { k.sdm ? s->fill() : f->boundaries(); }
  void next() { k.sdm ? s->next() : f->next(); }
  bool inside(int i, int j, int l) const
  {
    int g = k.gw();
    return i >= g && i < e[0] - g && j >= g && j < e[1] - g && (k.c.dim == 2 || (l >= g && l < e[2] - g));
  }
  void poison(double x)
  {
    if (!k.sdm)
    {
      f->poison(x);
      return;
    }
    for (int l = 0; l < e[2]; l++)
      for (int j = 0; j < e[1]; j++)
        for (int i = 0; i < e[0]; i++)
          if (!inside(i, j, l))
            for (int d = 0; d < nv * np; d++)
              u(i, j, l, d) = x;
  }
  size_t block() const { return (size_t)e[0] * e[1] * e[2] * nv * np; }
  //! t, dt, all cells
  void dump(double * o)
  {
    *o++ = t();
    *o++ = dt();
    for (int d = 0; d < nv * np; d++)
      for (int l = 0; l < e[2]; l++)
        for (int j = 0; j < e[1]; j++)
          for (int i = 0; i < e[0]; i++)
            *o++ = u(i, j, l, d);
  }
  //! cells [off, off+n) of the global field g (whole domain G)
  void load(const vector<double> & g, const Case & G, const int * off)
  {
    int w = k.gw(), wz = k.c.dim == 3 ? w : 0;
    int N[3] = { G.c.n[0], G.c.n[1], G.c.dim == 3 ? G.c.n[2] : 1 };
    poison(-7);
    for (int d = 0; d < nv * np; d++)
      for (int l = wz; l < e[2] - wz; l++)
        for (int j = w; j < e[1] - w; j++)
          for (int i = w; i < e[0] - w; i++)
            u(i, j, l, d) = g[(((size_t)d * N[2] + l - wz + off[2]) * N[1] + j - w + off[1]) * N[0] + i - w + off[0]];
  }
};

//! initial field of a case, on the whole domain
inline vector<double>
global_field(const Case & G)
{
  auto & c = G.c;
  if (!G.sdm)
    return fv::pattern(c, G.seed, G.amp).d;
  int            N[3] = { c.n[0], c.n[1], c.dim == 3 ? c.n[2] : 1 };
  vector<double> g((size_t)G.nd() * N[0] * N[1] * N[2]);
  const auto &   A = fv::alphabet();
  int            np = c.ndof();
  for (int l = 0; l < N[2]; l++)
    for (int j = 0; j < N[1]; j++)
      for (int i = 0; i < N[0]; i++)
        for (int q = 0; q < np; q++)
        {
          auto     a = A[fv::mix(i + 31 * j + 977 * l + 7919 * G.seed) % A.size()], z = A[5];
          double   ph = (fv::mix(q + 53 * (i + 17 * j + 301 * l) + 11 * G.seed) % 1001) / 1000.0;
          double   w = G.amp * (0.8 + 0.2 * ph);
          double   r = z.r + w * (a.r - z.r), p = z.p + w * (a.p - z.p), u = w * a.u, v = w * a.v, x = w * a.w;
          double   e = p / (c.gamma - 1) + 0.5 * r * (u * u + v * v + (c.dim == 3 ? x * x : 0));
          double   U[5] = { r, e, r * u, r * v, r * x };
          for (int m = 0; m < c.dim + 2; m++)
            g[(((size_t)(m * np + q) * N[2] + l) * N[1] + j) * N[0] + i] = U[m];
        }
  return g;
}

//! the common history: construction, ghost cells, steps, ghost cells
inline int
stages(const Case & k)
{
  return k.steps + 3;
}
inline void
history(Run & r, const Case & G, const vector<double> & field, const int * off, double * out)
{
  size_t B = r.block() + 2;
  r.dump(out);
  out += B;
  if (G.field)
    r.load(field, G, off);
  r.boundaries();
  r.dump(out);
  out += B;
  r.poison(-3);
  for (int s = 0; s < G.steps; s++)
  {
    r.next();
    r.dump(out);
    out += B;
    r.poison(-3);
  }
  r.boundaries();
  r.dump(out);
}

} // namespace ds
#endif
