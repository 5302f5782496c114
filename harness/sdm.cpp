// Spectral-difference solver, real code, by exhaustive enumeration.
#include "sdm_oracle.h"
#include "races.h"
using namespace sd;

static const char * VN[] = { "mass", "energy", "mom_x", "mom_y", "mom_z" };

static std::vector<int>
orders(int dim)
{
  if (dim == 2)
    return { 1, 2, 3, 4, 5, 6 };
  return { 2, 3, 4 }; // the registered solvers
}
static std::vector<std::string>
riemanns()
{
  return { "approx", "llf", "hll", "hllc" };
}
static Cfg
base(int dim, int N, std::vector<int> n, bool aniso = true)
{
  Cfg c;
  c.dim = dim, c.N = N;
  for (int d = 0; d < 3; d++)
    c.n[d] = d < dim ? n[d] : 1;
  double h[3] = { 0.25, 0.1875, 0.3125 };
  for (int d = 0; d < 3; d++)
    c.L[d] = (aniso ? h[d] : 0.25) * c.n[d];
  return c;
}
static uint64_t
mix(uint64_t x)
{
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdull;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ull;
  x ^= x >> 33;
  return x;
}
static double
unit(uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{
  return (double)(mix(a + 131 * mix(b + 137 * mix(c + 139 * mix(d + 1)))) % 17) / 8.0 - 1.0; // 17 values in [-1,1]
}
static void
cons(const Cfg & c, F & f, const int * i, const int * a, double r, double p, const double * v)
{
  double k = 0;
  f.at(ID, i, a) = r;
  for (int d = 0; d < c.dim; d++)
  {
    f.at(IU + d, i, a) = r * v[d];
    k += v[d] * v[d];
  }
  f.at(IE, i, a) = p / (c.gamma - 1) + 0.5 * r * k;
}
enum
{
  SMOOTH,
  ROUGH,
  CELLS,
  JUMP,
  NKIND
};
//! flow number s: kind s%4, admissible at solution and flux points
static F
pattern(const Cfg & c, int s, double amp = 1)
{
  F            f(c);
  const Geom & G = geom(c.N);
  int          kind = s % NKIND;
  auto         ci = [&](const int * i) { return (uint64_t)(i[0] + 64 * i[1] + 4096 * i[2]); };
  f.each([&](const int * i, const int * a) {
    double   w[5]; // rho, p, v
    uint64_t pt = a[0] + 8 * a[1] + 64 * a[2];
    for (int q = 0; q < 5; q++)
    {
      if (kind == SMOOTH)
      {
        double ph = 0;
        for (int d = 0; d < c.dim; d++)
        {
          double x = (i[d] + (double)G.xs[a[d]]) / c.n[d];
          ph += std::sin(2 * M_PI * (x + 0.125 * unit(s, q, d, 1))) * (1 + 0.5 * unit(s, q, d, 2)) / c.dim;
        }
        w[q] = 0.3 * amp * ph;
      }
      else if (kind == ROUGH)
        w[q] = amp * (0.2 * unit(s, q, ci(i), 3) + 0.06 * unit(s, q, ci(i), 100 + pt));
      else if (kind == CELLS)
        w[q] = 0.5 * amp * unit(s, q, ci(i), 5);
      else
      {
        int d = s / NKIND % c.dim;
        w[q] = (i[d] >= c.n[d] / 2 ? 0.5 : -0.5) * amp * unit(s, q, 7, 7) + (c.N > 1 ? 0.04 * amp * unit(s, q, ci(i), 200 + pt) : 0);
      }
    }
    double v[3] = { 0.75 * w[2] + 0.25, 0.75 * w[3] - 0.125, 0.75 * w[4] + 0.0625 };
    cons(c, f, i, a, 1 + w[0], 1 + w[1], v);
  });
  return f;
}
static std::vector<double>
scales(const F & f)
{
  std::vector<double> s;
  double              m = 0;
  for (int v = IU; v < f.nv; v++)
    m = std::fmax(m, f.maxabs(v));
  double all = std::fmax(std::fmax(f.maxabs(ID), f.maxabs(IE)), m);
  for (int v = 0; v < f.nv; v++)
    s.push_back(v == ID ? f.maxabs(ID) : v == IE ? f.maxabs(IE) : std::fmax(m, 1e-3 * all));
  return s;
}
static std::vector<std::vector<int>>
shapes(int dim)
{
  if (dim == 2)
    return { { 3, 2 }, { 2, 4 }, { 1, 3 }, { 3, 3 } };
  return { { 2, 3, 2 }, { 3, 2, 1 }, { 1, 2, 3 } };
}

// ================================================================= P19
static void
mode_geom()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
      for (auto & n : shapes(dim))
      {
        Cfg c = base(dim, N, n);
        if (!mc::item("geom " + c.desc()))
          continue;
        auto         s = make(c);
        const Geom & G = geom(N);
        std::string  tag = mc::fmt("%dD:N%d", dim, N);
        double       tol = 1e-12;
        // points
        for (int k = 0; k < N; k++)
        {
          if (!(std::fabs(s->pt(0, k) - (double)G.xs[k]) < 1e-14))
            mc::viol("points:sol:" + tag, mc::fmt("solution point %d at %.17g, Gauss-Chebyshev point %.17g", k, s->pt(0, k), (double)G.xs[k]));
          if (!(std::fabs(s->pt(0, k) + s->pt(0, N - 1 - k) - 1) < 1e-14))
            mc::viol("points:symmetry:" + tag, mc::fmt("solution point %d", k));
        }
        for (int k = 0; k <= N; k++)
        {
          if (!(std::fabs(s->pt(1, k) - (double)G.xf[k]) < 1e-14))
            mc::viol("points:flux:" + tag, mc::fmt("flux point %d at %.17g, end or Gauss-Legendre point %.17g", k, s->pt(1, k), (double)G.xf[k]));
        }
        if (s->pt(1, 0) != 0 || s->pt(1, N) != 1)
          mc::viol("points:ends:" + tag, mc::fmt("first and last flux points %.17g %.17g", s->pt(1, 0), s->pt(1, N)));
        F f(c);
        f.each_pt([&](const int * a) {
          for (int d = 0; d < dim; d++)
            if (s->pt_nd(a, d) != s->pt(0, a[d]))
              mc::viol("points:nd:" + tag, mc::fmt("point (%d,%d,%d) axis %d at %.17g, 1D %.17g", a[0], a[1], a[2], d, s->pt_nd(a, d), s->pt(0, a[d])));
        });
        // matrices (both ways)
        for (int k = 0; k <= N; k++)
          for (int q = 0; q < N; q++)
          {
            mc::stat("transitions", 3);
            auto cmp = [&](const char * what, double x, ld y) {
              mc::maxstat("matrix_error", std::fabs(x - (double)y) / (1 + std::fabs((double)y)));
              if (!(std::fabs(x - (double)y) <= tol * (1 + std::fabs((double)y))))
                mc::viol(mc::fmt("matrix:%s:%s", what, tag.c_str()), mc::fmt("flux point %d solution point %d: %.17g exact %.17g", k, q, x, (double)y));
            };
            cmp("sol2flux", s->mat(0, q, k), G.s2f[k][q]);
            cmp("flux2sol", s->mat(1, k, q), lag(G.xf, k, G.xs[q]));
            cmp("flux2sol_derivative", s->mat(2, k, q), G.df[q][k]);
            if (k < N)
              cmp("sol2sol_derivative", s->mat(3, k, q), G.ds[q][k]);
          }
        // functors on monomials, different in every cell and variable
        int nv = dim + 2, g = s->gw(), gz = dim == 3 ? g : 0;
        int e[3] = { s->params().isize, s->params().jsize, dim == 3 ? s->params().ksize : 1 };
        int P = N + 1; // exponents 0..N (0..N-1 for values at solution points)
        for (int dir = 0; dir < dim; dir++)
        {
          int total = 1;
          for (int d = 0; d < dim; d++)
            total *= P;
          for (int code0 = 0; code0 < total; code0++)
          {
            // exponents of variable v in a cell: code0 shifted by the variable and the cell
            auto ex = [&](const int * i, int v, int * q, double & amp, bool flux) {
              int cell = i[0] + e[0] * (i[1] + e[1] * i[2]);
              int code = (code0 + 7 * v + 11 * cell) % total;
              for (int d = 0; d < 3; d++)
              {
                int m = d == dir && flux ? N + 1 : N;
                q[d] = d < dim ? code % P : 0;
                if (q[d] >= m)
                  q[d] = 0;
                code /= P;
              }
              amp = 1 + (cell % 5) * 0.5;
            };
            auto mono = [&](ld x, int q) {
              ld r = 1;
              while (q--)
                r *= x;
              return r;
            };
            auto dmono = [&](ld x, int q) { return q ? q * mono(x, q - 1) : 0; };
            auto cells = [&](auto fn) {
              int i[3];
              for (i[2] = 0; i[2] < e[2]; i[2]++)
                for (i[1] = 0; i[1] < e[1]; i[1]++)
                  for (i[0] = 0; i[0] < e[0]; i[0]++)
                    fn(i);
            };
            auto pts = [&](int np0, auto fn) {
              int a[3];
              for (a[2] = 0; a[2] < (dim == 3 ? (dir == 2 ? np0 : N) : 1); a[2]++)
                for (a[1] = 0; a[1] < (dir == 1 ? np0 : N); a[1]++)
                  for (a[0] = 0; a[0] < (dir == 0 ? np0 : N); a[0]++)
                    fn(a);
            };
            auto value = [&](const int * i, const int * a, int v, bool atflux, bool forflux, bool deriv) {
              int    q[3];
              double amp;
              ex(i, v, q, amp, forflux);
              ld r = amp;
              for (int d = 0; d < dim; d++)
              {
                ld x = d == dir && atflux ? G.xf[a[d]] : G.xs[a[d]];
                r *= d == dir && deriv ? dmono(x, q[d]) : mono(x, q[d]);
              }
              if (!deriv)
                r += 1;
              return r;
            };
            cells([&](const int * i) { pts(N, [&](const int * a) {
                                         for (int v = 0; v < nv; v++)
                                           s->raw(0, i, a, v) = (double)value(i, a, v, false, false, false);
                                       }); });
            cells([&](const int * i) { pts(N + 1, [&](const int * a) {
                                         for (int v = 0; v < nv; v++)
                                           s->flux_raw(dir, i, a, v) = 5e5;
                                       }); });
            s->to_flux(dir);
            mc::stat("transitions");
            mc::state(mc::hash_bytes(&code0, 4, dir + 4 * N + 64 * dim + 1024 * e[0] + 8192 * e[1]));
            cells([&](const int * i) {
              pts(N + 1, [&](const int * a) {
                for (int v = 0; v < nv; v++)
                {
                  double x = s->flux_raw(dir, i, a, v), y = (double)value(i, a, v, true, false, false);
                  mc::stat("values");
                  if (!(std::fabs(x - y) <= tol * (1 + std::fabs(y))))
                    mc::viol(mc::fmt("interpolate:flux:dir%d:%s", dir, tag.c_str()), mc::fmt("cell (%d,%d,%d) flux point (%d,%d,%d) var %d monomial %d: %.17g exact %.17g", i[0], i[1], i[2], a[0], a[1], a[2], v, code0, x, y));
                }
              });
            });
            // back to solution points: value, derivative, both signs, accumulation
            for (int it = 0; it < 5; it++)
            {
              cells([&](const int * i) { pts(N + 1, [&](const int * a) {
                                           for (int v = 0; v < nv; v++)
                                             s->flux_raw(dir, i, a, v) = (double)value(i, a, v, true, true, false);
                                         }); });
              cells([&](const int * i) { pts(N, [&](const int * a) {
                                           for (int v = 0; v < nv; v++)
                                             s->raw(1, i, a, v) = 0.5 + v;
                                         }); });
              s->to_sol(dir, it);
              mc::stat("transitions");
              double h = c.L[dir] / c.n[dir];
              cells([&](const int * i) {
                pts(N, [&](const int * a) {
                  for (int v = 0; v < nv; v++)
                  {
                    double x = s->raw(1, i, a, v), old = 0.5 + v, y = it == 0 || it == 2 ? (double)(value(i, a, v, false, true, true) / h) : (double)value(i, a, v, false, true, false);
                    if (it == 2 || it == 3)
                      y = old - y;
                    else if (it != 4)
                      y = old + y;
                    mc::stat("values");
                    if (!(std::fabs(x - y) <= 10 * tol * (N + std::fabs(y))))
                      mc::viol(mc::fmt("interpolate:sol%d:dir%d:%s", it, dir, tag.c_str()), mc::fmt("cell (%d,%d,%d) point (%d,%d,%d) var %d monomial %d: %.17g exact %.17g", i[0], i[1], i[2], a[0], a[1], a[2], v, code0, x, y));
                  }
                });
              });
            }
          }
        }
        (void)gz;
        mc::stat("executions");
        mc::sample(c.desc() + ": all monomials, all directions");
      }
}

// ================================================================= P20
static void
combos(std::function<void(Cfg &)> fn, int dim, int N)
{
  for (auto & rs : riemanns())
    for (int ig = 0; ig < 4; ig++)
      for (int lp = 0; lp < 4; lp++)
      {
        if (N == 1 && lp && !mc::A.thorough)
          continue;
        Cfg c;
        c.dim = dim, c.N = N;
        c.riemann = rs, c.integ = ig, c.limiter = lp & 1, c.posit = lp & 2;
        fn(c);
      }
}
static void
start(ISdm & s, const F & f, double junk = 7)
{
  s.t() = 0;
  s.iter() = 0;
  s.put(f, junk);
}
static void
mode_step()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
      combos(
        [&](Cfg & o) {
          auto sh = shapes(dim);
          for (size_t si = 0; si < sh.size(); si++)
          {
            bool heavy = dim == 3 && N >= 3;
            if (!mc::A.thorough && si > (heavy ? 0u : 1u))
              continue;
            Cfg c = base(dim, N, sh[si]);
            c.riemann = o.riemann, c.integ = o.integ, c.limiter = o.limiter, c.posit = o.posit;
            c.M = si % 2 ? 0.0625 : 0;
            if (!mc::item("step " + c.desc()))
              continue;
            std::string tag = mc::fmt("%dD:N%d:int%d:lim%d:pos%d:%s", dim, N, c.integ, c.limiter, c.posit, c.riemann.c_str());
            // conservation, every kind of flow
            auto   s = make(c);
            Oracle O(*s);
            int    ns = mc::A.thorough ? 24 : heavy ? 4 : 8;
            for (int p = 0; p < ns; p++)
            {
              F f = pattern(c, p);
              start(*s, f);
              std::vector<double> t0, sc;
              for (int v = 0; v < f.nv; v++)
              {
                t0.push_back(O.total(f, v));
                F g = f;
                for (double & x : g.d)
                  x = std::fabs(x);
                sc.push_back(O.total(g, v));
              }
              double smom = 0;
              for (int v = IU; v < f.nv; v++)
                smom = std::fmax(smom, sc[v]);
              for (int st = 0; st < 2; st++)
              {
                s->next();
                mc::stat("transitions");
                F g = s->get();
                mc::state(g.hash());
                if (!g.finite())
                {
                  mc::viol("nonfinite:" + tag, mc::fmt("flow %d step %d", p, st));
                  break;
                }
                for (int v = 0; v < f.nv; v++)
                {
                  double e = std::fabs(O.total(g, v) - t0[v]) / std::fmax(std::fmax(sc[v], v >= IU ? std::fmax(smom, 0.1 * sc[ID]) : 0), 1e-3 * sc[IE]);
                  mc::maxstat("conservation_error", e);
                  if (!(e < 1e-12))
                    mc::viol(mc::fmt("conservation:%s:%s", VN[v], tag.c_str()), mc::fmt("flow %d step %d: total %.17g -> %.17g", p, st, t0[v], O.total(g, v)));
                }
              }
              mc::stat("executions");
            }
            // conservation, single point disturbances of a uniform flow (a basis)
            if (c.N * c.dim <= 9 && c.riemann != "approx" && (c.integ == FE || mc::A.thorough))
            {
              F u(c);
              u.each([&](const int * i, const int * a) {
                double v[3] = { 0.25, -0.5, 0.125 };
                cons(c, u, i, a, 1, 1, v);
              });
              int cell[3] = { 0, 0, 0 };
              u.each_pt([&](const int * a) {
                for (int v = 0; v < u.nv; v++)
                  for (int sg = -1; sg <= 1; sg += 2)
                  {
                    F f = u;
                    f.at(v, cell, a) += sg * 0.125;
                    start(*s, f);
                    s->next();
                    mc::stat("transitions");
                    F g = s->get();
                    mc::state(g.hash());
                    for (int w = 0; w < f.nv; w++)
                    {
                      double x = O.total(f, w), y = O.total(g, w), e = std::fabs(x - y) / O.total(f, IE);
                      mc::maxstat("conservation_error", e);
                      if (!(e < 1e-12))
                        mc::viol(mc::fmt("conservation:%s:%s", VN[w], tag.c_str()), mc::fmt("disturbed point (%d,%d,%d) var %d: total %.17g -> %.17g", a[0], a[1], a[2], v, x, y));
                    }
                  }
              });
              mc::stat("executions");
            }
            // uniform flow
            for (int bcm = 0; bcm < 2; bcm++)
            {
              Cfg d = c;
              d.all_bc(bcm ? OUTF : PERI);
              auto q = make(d);
              for (double r : { 1.0, 0.125 })
                for (double p : { 1.0, 0.0625 })
                  for (int vc = 0; vc < (dim == 2 ? 9 : 27); vc++)
                  {
                    if (!mc::A.thorough && heavy && vc % 4)
                      continue;
                    double v[3] = { (vc % 3 - 1) * 0.75, (vc / 3 % 3 - 1) * 1.5, (vc / 9 - 1) * 0.5 };
                    if (dim == 2)
                      v[2] = 0;
                    F f(d);
                    f.each([&](const int * i, const int * a) { cons(d, f, i, a, r, p, v); });
                    start(*q, f, 3e3);
                    q->next();
                    q->next();
                    mc::stat("transitions", 2);
                    mc::stat("executions");
                    std::string w;
                    F           g = q->get();
                    double      e = diff(f, g, &w) / f.maxabs(IE);
                    mc::maxstat("uniform_error", e);
                    mc::state(f.hash());
                    if (!(e < 2e-12))
                      mc::viol(mc::fmt("uniform:%s:bc%d", tag.c_str(), bcm), mc::fmt("rho=%g p=%g v=%g,%g,%g %s", r, p, v[0], v[1], v[2], w.c_str()));
                  }
            }
            mc::sample(c.desc() + ": conservation, uniform flow");
          }
        },
        dim, N);
}

// ---------------------------------------------------------------- symmetries
struct Sym
{
  int         mir = -1, s1 = -1, s2 = -1, sh[3] = { 0, 0, 0 };
  std::string name;
};
static std::vector<Sym>
generators(int dim)
{
  std::vector<Sym> r;
  for (int d = 0; d < dim; d++)
  {
    Sym g;
    g.mir = d;
    g.name = mc::fmt("mirror%d", d);
    r.push_back(g);
    Sym h;
    h.sh[d] = 1;
    h.name = mc::fmt("shift%d", d);
    r.push_back(h);
    for (int e = d + 1; e < dim; e++)
    {
      Sym k;
      k.s1 = d, k.s2 = e;
      k.name = mc::fmt("swap%d%d", d, e);
      r.push_back(k);
    }
  }
  return r;
}
static Cfg
apply(const Sym & g, Cfg c)
{
  if (g.s1 >= 0)
  {
    std::swap(c.n[g.s1], c.n[g.s2]);
    std::swap(c.L[g.s1], c.L[g.s2]);
    for (int e = 0; e < 2; e++)
      std::swap(c.bc[2 * g.s1 + e], c.bc[2 * g.s2 + e]);
  }
  if (g.mir >= 0)
    std::swap(c.bc[2 * g.mir], c.bc[2 * g.mir + 1]);
  return c;
}
static F
apply(const Sym & g, const Cfg & c, const Cfg & c2, const F & f)
{
  F r(c2);
  for (int v = 0; v < f.nv; v++)
    f.each([&](const int * i, const int * a) {
      int    x[3], b[3], w = v;
      double s = 1;
      for (int d = 0; d < 3; d++)
        x[d] = (i[d] + g.sh[d]) % f.n[d], b[d] = a[d];
      if (g.mir >= 0)
      {
        if (v == IU + g.mir)
          s = -1;
        x[g.mir] = f.n[g.mir] - 1 - x[g.mir];
        b[g.mir] = c.N - 1 - b[g.mir];
      }
      if (g.s1 >= 0)
      {
        std::swap(x[g.s1], x[g.s2]);
        std::swap(b[g.s1], b[g.s2]);
        if (v == IU + g.s1)
          w = IU + g.s2;
        else if (v == IU + g.s2)
          w = IU + g.s1;
      }
      r.at(w, x, b) = s * f.at(v, i, a);
    });
  return r;
}
static void
mode_sym()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
      combos(
        [&](Cfg & o) {
          for (int bcm = 0; bcm < 3; bcm++)
            for (int visc = 0; visc < 2; visc++)
            {
              bool heavy = dim == 3 && N >= 3;
              if (visc && (o.limiter || o.posit || o.integ != FE))
                continue;
              if (!mc::A.thorough && o.integ != RK3 && o.integ != FE)
                continue;
              if (!mc::A.thorough && bcm && o.integ == FE && !visc)
                continue;
              auto sh = shapes(dim)[dim == 2 ? 1 : 0];
              if (visc)
                for (int & x : sh)
                  x = std::max(x, 2);
              Cfg c = base(dim, N, sh);
              c.riemann = o.riemann, c.integ = o.integ, c.limiter = o.limiter, c.posit = o.posit;
              c.M = o.posit ? 0 : 0.0625;
              if (visc)
                c.mu = 0.0625;
              if (bcm == 1)
                for (int d = 0; d < dim; d++)
                  c.bc[2 * d] = REFL, c.bc[2 * d + 1] = OUTF;
              if (bcm == 2)
                c.bc[0] = c.bc[1] = OUTF, c.bc[2] = c.bc[3] = REFL;
              if (!mc::item("sym " + c.desc()))
                continue;
              auto s = make(c);
              auto gs = generators(dim);
              int  ns = mc::A.thorough ? 16 : heavy ? 4 : 8;
              std::vector<F>      in, ref;
              std::vector<double> t;
              for (int p = 0; p < ns; p++)
              {
                in.push_back(pattern(c, p));
                start(*s, in[p]);
                s->next();
                s->next();
                mc::stat("transitions", 2);
                ref.push_back(s->get());
                t.push_back(s->t());
                mc::state(ref[p].hash());
              }
              for (auto & g : gs)
              {
                bool shift = g.sh[0] || g.sh[1] || g.sh[2];
                if (shift && bcm)
                  continue;
                Cfg  d = apply(g, c);
                auto q = make(d);
                for (int p = 0; p < ns; p++)
                {
                  F f = apply(g, c, d, in[p]);
                  start(*q, f, -5);
                  q->next();
                  q->next();
                  mc::stat("transitions", 2);
                  mc::stat("executions");
                  F           a = apply(g, c, d, ref[p]), b = q->get();
                  std::string w;
                  double      e = reldiff(a, b, scales(a), &w);
                  mc::maxstat("symmetry_error", e);
                  if (!(e < 1e-10) || !(std::fabs(q->t() - t[p]) <= 1e-12 * t[p]))
                    mc::viol(mc::fmt("symmetry:%s:%dD:N%d:int%d:lim%d:pos%d:visc%d:%s", g.name.c_str(), dim, N, c.integ, c.limiter, c.posit, visc, c.riemann.c_str()),
                             mc::fmt("flow %d %s t %.17g vs %.17g", p, w.c_str(), t[p], q->t()));
                }
              }
              mc::sample(c.desc() + ": all symmetry generators");
            }
        },
        dim, N);
}

// ================================================================= P21
static const double RK54_A[6][3] = { { 1, 0, 0.391752226571890 }, { 0.444370493651235, 0.555629506348765, 0.368410593050371 }, { 0.620101851488403, 0.379898148511597, 0.251891774271694 },
                                      { 0.178079954393132, 0.821920045606868, 0.544974750228521 }, { 0.517231671970585, 0.096059710526147, 0.063692468666290 }, { 0, 0.386708617503269, 0.226007483236906 } };
template <class T, class L>
static T
rk(int integ, const T & u0, double dt, L rhs) // rhs may limit its argument in place; returns dU/dt; T has axpy
{
  auto lin = [](double a, const T & x, double b, const T & y, double e, const T & z) { return T::lin(a, x, b, y, e, z); };
  T    u = u0;
  T    k0 = rhs(u);
  if (integ == FE)
    return lin(1, u, 0, u, dt, k0);
  if (integ == RK2)
  {
    T u1 = lin(1, u, 0, u, dt, k0);
    T k1 = rhs(u1);
    return lin(0.5, u, 0.5, u1, 0.5 * dt, k1);
  }
  if (integ == RK3)
  {
    T u1 = lin(1, u, 0, u, dt, k0);
    T k1 = rhs(u1);
    T u2 = lin(0.75, u, 0.25, u1, 0.25 * dt, k1);
    T k2 = rhs(u2);
    return lin(1.0 / 3, u, 2.0 / 3, u2, 2.0 / 3 * dt, k2);
  }
  auto & A = RK54_A;
  T      u1 = lin(1, u, 0, u, A[0][2] * dt, k0), k1 = rhs(u1);
  T      u2 = lin(A[1][0], u, A[1][1], u1, A[1][2] * dt, k1), k2 = rhs(u2);
  T      u3 = lin(A[2][0], u, A[2][1], u2, A[2][2] * dt, k2), k3 = rhs(u3);
  T      u4 = lin(A[3][0], u, A[3][1], u3, A[3][2] * dt, k3), k4 = rhs(u4);
  T      v = lin(A[4][0], u2, A[4][1], u3, A[4][2] * dt, k3);
  return lin(1, v, A[5][1], u4, A[5][2] * dt, k4);
}
struct Vec
{
  F f;
  static Vec lin(double a, const Vec & x, double b, const Vec & y, double e, const Vec & z)
  {
    Vec r = x;
    for (size_t k = 0; k < r.f.d.size(); k++)
      r.f.d[k] = a * x.f.d[k] + b * y.f.d[k] + e * z.f.d[k];
    return r;
  }
};
struct Num
{
  ld x;
  static Num lin(double a, const Num & x, double b, const Num & y, double e, const Num & z) { return { a * x.x + b * y.x + e * z.x }; }
};
static std::vector<std::vector<int>>
bc_sets(int dim)
{
  std::vector<std::vector<int>> r;
  for (int ax = 0; ax < dim; ax++)
    for (int p = 0; p < 9; p++)
    {
      if (ax && p == 8)
        continue;
      std::vector<int> b(6, PERI);
      b[2 * ax] = 1 + p / 3, b[2 * ax + 1] = 1 + p % 3;
      r.push_back(b);
    }
  r.push_back({ REFL, OUTF, OUTF, REFL, REFL, OUTF });
  r.push_back({ OUTF, REFL, REFL, REFL, PERI, PERI });
  r.push_back({ REFL, REFL, REFL, REFL, REFL, REFL });
  r.push_back({ OUTF, OUTF, OUTF, OUTF, OUTF, OUTF });
  return r;
}
static void
mode_rk()
{
  // the published coefficients reach the nominal order on the linear equation
  if (mc::item("order conditions"))
    for (int ig = 0; ig < 4; ig++)
      for (double z : { -1.0, 0.5, 1.0, 2.0 })
      {
        int   order[4] = { 1, 2, 3, 4 };
        ld    r[3];
        // remainder beyond the Taylor polynomial scales as z^(p+1)
        for (int k = 0; k < 3; k++)
        {
          ld  zz = z * powl(0.5, k + 2), t = 1, sum = 1;
          for (int m = 1; m <= order[ig]; m++)
            sum += (t *= zz / m);
          r[k] = rk(ig, Num{ 1 }, 1.0, [&](Num & u) { return Num{ zz * u.x }; }).x - sum;
        }
        mc::stat("transitions", 3);
        ld q = powl(2.0L, order[ig] + 1);
        if (fabsl(r[2]) > 1e-12L && !(fabsl(r[1] / r[2]) > 0.7L * q))
          mc::viol(mc::fmt("oracle:order%d", ig), mc::fmt("remainders %Lg %Lg %Lg", r[0], r[1], r[2]));
      }
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
    {
      auto bcs = bc_sets(dim);
      for (int ig = 0; ig < 4; ig++)
        for (int lp = 0; lp < 5; lp++)
          for (auto & sh : shapes(dim))
            for (size_t b = 0; b < bcs.size(); b++)
            {
              if (!mc::A.thorough && (b + ig + lp) % (dim == 3 ? 9 : 5))
                continue;
              Cfg c = base(dim, N, sh);
              if (lp == 4)
              {
                c.mu = 0.03125;
                bool ok = true;
                for (int d = 0; d < dim; d++)
                  ok = ok && c.n[d] >= 2;
                if (!ok)
                  continue;
              }
              else
                c.limiter = lp & 1, c.posit = lp & 2;
              c.integ = ig;
              c.M = 0.0625;
              c.rescale = lp == 1;
              for (int k = 0; k < 6; k++)
                c.bc[k] = bcs[b][k];
              c.riemann = riemanns()[(b + ig) % 4];
              if (!mc::item("rk " + c.desc()))
                continue;
              auto s = make(c), h = make(c);
              int  ns = mc::A.thorough ? 12 : 4;
              for (int p = 0; p < ns; p++)
              {
                F f = pattern(c, p);
                start(*s, f);
                double t0 = s->t();
                int    i0 = s->iter();
                for (int st = 0; st < 2; st++)
                {
                  F before = s->get();
                  s->next();
                  double dt = s->dt();
                  mc::stat("transitions");
                  if (!(s->t() == t0 + dt) || s->iter() != i0 + 1)
                    mc::viol(mc::fmt("step-accounting:int%d", ig), mc::fmt("t %.17g -> %.17g dt %.17g iteration %d -> %d", t0, s->t(), dt, i0, s->iter()));
                  t0 = s->t(), i0 = s->iter();
                  int  n = 0;
                  Vec  e = rk(ig, Vec{ before }, dt, [&](Vec & u) {
                    h->put(u.f, 11.0);
                    h->fill();
                    h->rhs();
                    n++;
                    Vec k{ h->get(1) };
                    u.f = h->get(0);
                    for (double & x : k.f.d)
                      x = -x;
                    return k;
                  });
                  F    g = s->get();
                  std::string w;
                  double      er = reldiff(e.f, g, scales(e.f), &w);
                  mc::maxstat("rk_error", er);
                  mc::state(g.hash());
                  if (!(er < 1e-11))
                  {
                    mc::viol(mc::fmt("rk:int%d:%dD:N%d:lim%d:pos%d:mu%d", ig, dim, N, c.limiter, c.posit, c.mu > 0), mc::fmt("flow %d step %d: scheme %s", p, st, w.c_str()));
                    break;
                  }
                  if (!g.finite())
                    break;
                }
                mc::stat("executions");
              }
              mc::sample(c.desc() + ": integrator against the published combination");
            }
    }
}

// spatial operator against the oracle (P20, P27)
static void
mode_rhs()
{
  bool visc = mc::A.get("visc", "0") == "1";
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
    {
      auto bcs = bc_sets(dim);
      for (auto & sh : shapes(dim))
        for (size_t b = 0; b < bcs.size(); b++)
          for (size_t ri = 0; ri < 4; ri++)
          {
            bool heavy = dim == 3 && N >= 3;
            if (!mc::A.thorough && (b + ri) % (visc ? 4 : 4))
              continue;
            Cfg c = base(dim, N, sh);
            if (visc)
            {
              c.mu = 0.125;
              for (int d = 0; d < dim; d++)
                if (c.n[d] < 2)
                  c.n[d] = 2;
              if (!mc::A.thorough && heavy && (b % 8 || &sh != &shapes(dim)[0]) && b)
                if (b % 3)
                  continue;
            }
            c.riemann = riemanns()[ri];
            for (int k = 0; k < 6; k++)
              c.bc[k] = bcs[b][k];
            if (!mc::item("rhs " + c.desc()))
              continue;
            auto   s = make(c);
            Oracle O(*s);
            int    ns = mc::A.thorough ? 8 : heavy && visc ? 1 : 2;
            for (int p = 0; p < ns; p++)
            {
              F f = pattern(c, p + (int)b % 4);
              s->put(f, 11);
              s->fill();
              s->rhs();
              F g = s->get(1), e = O.rhs(f);
              mc::stat("transitions");
              mc::state(g.hash());
              double m = 0;
              for (double x : e.d)
                m = std::fmax(m, std::fabs(x));
              std::string w;
              double      er = diff(e, g, &w) / std::fmax(m, 1);
              mc::maxstat("rhs_error", er);
              if (!(er < 2e-11))
                mc::viol(mc::fmt("rhs:%dD:N%d:mu%d:%s", dim, N, visc, c.riemann.c_str()), mc::fmt("flow %d: oracle vs code %s", p, w.c_str()));
              // a second evaluation on top of old intermediate arrays gives the same
              s->put(f, -3);
              s->fill();
              s->rhs();
              F g2 = s->get(1);
              if (!(diff(g, g2, &w) <= 0))
                mc::viol(mc::fmt("rhs-history:%dD:N%d:mu%d", dim, N, visc), mc::fmt("flow %d: second evaluation %s", p, w.c_str()));
              mc::stat("executions", 2);
            }
            mc::sample(c.desc() + ": spatial operator");
          }
    }
}

// ================================================================= P22
//! all values a procedure may see: cells from a small alphabet of deviations from the mean
static bool
at_flux_ok(const Oracle & O, const F & f, const int * i, double & rmin, double & pmin)
{
  rmin = pmin = 1e300;
  bool fin = true;
  f.each_pt([&](const int * a) {
    for (int d = 0; d < O.c.dim; d++)
      if (a[d] == 0)
        for (int q = 0; q <= O.c.N; q++)
        {
          double u[5];
          O.at_flux(f, i, a, d, q, u);
          rmin = std::fmin(rmin, u[ID]);
          double p = O.pressure(u);
          if (!(p == p))
            fin = false;
          pmin = std::fmin(pmin, p);
        }
  });
  return fin;
}
static void
mode_lim()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
    {
      if (N > 4 && !mc::A.thorough)
        continue;
      for (int M = 0; M < 2; M++)
        for (auto & sh : shapes(dim))
          for (int bcm = 0; bcm < 3; bcm++)
          {
            Cfg c = base(dim, N, sh);
            c.limiter = true;
            c.M = M ? 0.0625 : 0;
            c.all_bc(bcm == 0 ? PERI : bcm == 1 ? OUTF : REFL);
            if (!mc::item("lim " + c.desc()))
              continue;
            auto        s = make(c);
            Oracle      O(*s);
            std::string tag = mc::fmt("%dD:N%d:M%g", dim, N, c.M);
            int         ns = mc::A.thorough ? 40 : 12;
            for (int p = -4; p < ns; p++)
            {
              F f;
              if (p >= 0)
                f = pattern(c, p, p % 3 == 2 ? 0.01 : 1);
              else
              { // one linear mode across the whole domain: outflow/inner cells keep it
                f = F(c);
                f.each([&](const int * i, const int * a) {
                  double x = (i[0] + (double)O.G.xs[a[0]] - 0.5 * c.n[0]), y = (i[1] + (double)O.G.xs[a[1]] - 0.5 * c.n[1]);
                  double q = p == -1 ? 0 : p == -2 ? x : p == -3 ? y : 0.5 * x - 0.25 * y;
                  f.at(ID, i, a) = 1 + 0.03125 * q;
                  f.at(IE, i, a) = 2.5 - 0.0625 * q;
                  for (int d = 0; d < dim; d++)
                    f.at(IU + d, i, a) = 0.25 + 0.03125 * q * (d - 1);
                });
              }
              s->put(f, 11);
              s->fill();
              s->average();
              s->limit();
              mc::stat("transitions");
              mc::stat("executions");
              F      g = s->get();
              double margin;
              int    nl = 0;
              F      e = O.limit(f, &margin, &nl);
              mc::stat("limited_cells", nl);
              mc::state(g.hash());
              // means
              f.each_cell([&](const int * i) {
                for (int v = 0; v < f.nv; v++)
                {
                  double a = O.mean(f, i, v), b = O.mean(g, i, v);
                  mc::maxstat("mean_change", std::fabs(a - b));
                  if (!(std::fabs(a - b) <= 1e-13 * std::fmax(4, std::fabs(a))))
                    mc::viol(mc::fmt("limiter-mean:%s:%s", VN[v], tag.c_str()), mc::fmt("flow %d cell (%d,%d,%d): %.17g -> %.17g", p, i[0], i[1], i[2], a, b));
                }
              });
              std::string w;
              if (margin > 1e-11)
              {
                double er = diff(e, g, &w);
                mc::maxstat("limiter_error", er);
                if (!(er < 1e-10))
                  mc::viol(mc::fmt("limiter:%s:bc%d", tag.c_str(), bcm), mc::fmt("flow %d: oracle vs code %s", p, w.c_str()));
              }
              else
                mc::stat("excluded_threshold");
              // ghosts follow the limited interior
              F again = g;
              int gg = s->gw(), ee[3] = { s->params().isize, s->params().jsize, dim == 3 ? s->params().ksize : 1 }, i[3];
              for (i[2] = 0; i[2] < ee[2]; i[2]++)
                for (i[1] = 0; i[1] < ee[1]; i[1]++)
                  for (i[0] = 0; i[0] < ee[0]; i[0]++)
                  {
                    int q[3] = { i[0] - gg, i[1] - gg, dim == 3 ? i[2] - gg : 0 };
                    int out = 0;
                    for (int d = 0; d < dim; d++)
                      out += q[d] < 0 || q[d] >= c.n[d];
                    if (out != 1)
                      continue; // faces only
                    f.each_pt([&](const int * a) {
                      for (int v = 0; v < f.nv; v++)
                        if (!(s->raw(0, i, a, v) == O.val(again, q, a, v)))
                          mc::viol("limiter-ghosts:" + tag, mc::fmt("flow %d ghost cell (%d,%d,%d) var %d: %.17g, limited neighbour %.17g", p, q[0], q[1], q[2], v, s->raw(0, i, a, v), O.val(again, q, a, v)));
                    });
                  }
              // uniform (p==-1) and smooth data untouched
              if (p == -1 && !(diff(f, g, &w) <= 0))
                mc::viol("limiter-uniform:" + tag, w);
              if (p < -1)
                f.each_cell([&](const int * i) {
                  bool inner = true;
                  for (int d = 0; d < dim; d++)
                    inner = inner && i[d] > 0 && i[d] < c.n[d] - 1;
                  if (!inner || N < 2)
                    return;
                  f.each_pt([&](const int * a) {
                    for (int v = 0; v < f.nv; v++)
                      if (!(std::fabs(f.at(v, i, a) - g.at(v, i, a)) < 1e-12))
                        mc::viol("limiter-linear:" + tag, mc::fmt("linear flow %d changed in cell (%d,%d,%d)", p, i[0], i[1], i[2]));
                  });
                });
            }
            mc::sample(c.desc() + ": limiter");
          }
    }
}
static void
mode_posit()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
    {
      if (N > 4 && !mc::A.thorough)
        continue;
      int np = dim == 2 ? N * N : N * N * N;
      // disturbance: point, amplitudes of density, energy and momenta
      double AR[] = { 0, -0.5, 0.5, -0.999, -1.5, 8, -30 };
      double AE[] = { 0, 0.5, -0.9, -1.5, 4, -40 };
      double AM[] = { 0, 0.5, -3, 12 };
      for (int mean = 0; mean < 3; mean++)
        for (int pt = 0; pt < np; pt++)
        {
          if (!mc::A.thorough && dim == 3 && N >= 3 && pt % 7)
            continue;
          Cfg c = base(dim, N, dim == 2 ? std::vector<int>{ 2, 2 } : std::vector<int>{ 2, 1, 1 });
          c.posit = true;
          c.smallr = 0.0009765625; // 2^-10, representable in single precision
          if (!mc::item(mc::fmt("posit mean %d point %d ", mean, pt) + c.desc()))
            continue;
          auto        s = make(c);
          Oracle      O(*s);
          std::string tag = mc::fmt("%dD:N%d", dim, N);
          double      eps = s->params().settings.smallr;
          for (double ar : AR)
            for (double ae : AE)
              for (double am : AM)
                for (int mv = 0; mv < dim; mv++)
                  for (int second = 0; second < 2; second++)
                  {
                    if (am == 0 && mv)
                      continue;
                    F      f(c);
                    double v0[3] = { 0.5, -0.25, 0.125 };
                    if (mean == 1)
                      v0[0] = v0[1] = v0[2] = 0;
                    double r0 = mean == 2 ? 0.015625 : 1, p0 = mean == 2 ? 0.001953125 : 1;
                    f.each([&](const int * i, const int * a) { cons(c, f, i, a, r0, p0, v0); });
                    int i0[3] = { 0, 0, 0 }, i1[3] = { 1, 0, 0 }, a0[3] = { pt % N, pt / N % N, dim == 3 ? pt / N / N : 0 };
                    // disturb one point; compensate in a neighbouring one so that the mean stays admissible
                    double e0 = f.at(IE, i0, a0);
                    f.at(ID, i0, a0) += ar * r0;
                    f.at(IE, i0, a0) += ae * e0;
                    f.at(IU + mv, i0, a0) += am * std::sqrt(r0 * e0);
                    if (second && N > 1)
                    {
                      int b[3] = { (a0[0] + 1) % N, a0[1], a0[2] };
                      double q = (double)(O.G.w[a0[0]] / O.G.w[b[0]]);
                      f.at(ID, i0, b) -= ar * r0 * q;
                      f.at(IE, i0, b) -= ae * e0 * q;
                      f.at(IU + mv, i0, b) -= am * std::sqrt(r0 * e0) * q;
                    }
                    double m[5];
                    for (int v = 0; v < f.nv; v++)
                      m[v] = O.mean(f, i0, v);
                    double pm = O.pressure(m);
                    if (!(m[ID] > 1.01 * eps) || !(pm > 1e-9))
                    {
                      mc::stat("excluded_mean");
                      continue;
                    }
                    s->put(f, 2);
                    s->fill();
                    s->average();
                    s->posit();
                    mc::stat("transitions");
                    mc::stat("executions");
                    F g = s->get();
                    mc::state(g.hash());
                    double r1, p1, r2, p2;
                    bool   ok1 = at_flux_ok(O, f, i0, r1, p1), ok2 = at_flux_ok(O, g, i0, r2, p2);
                    std::string st = mc::fmt("mean %d point %d: drho %g dE %g dm%d %g second %d", mean, pt, ar, ae, mv, am, second);
                    double      range = 0;
                    f.each_pt([&](const int * a) {
                      for (int v = 0; v < f.nv; v++)
                        range = std::fmax(range, std::fabs(f.at(v, i0, a)));
                    });
                    range = std::fmax(range, 1);
                    // mean kept
                    for (int v = 0; v < f.nv; v++)
                    {
                      double x = O.mean(g, i0, v);
                      if (!(std::fabs(x - m[v]) <= 1e-13 * range * N))
                        mc::viol(mc::fmt("positivity-mean:%s:%s", VN[v], tag.c_str()), mc::fmt("%s: %.17g -> %.17g", st.c_str(), m[v], x));
                    }
                    // admissible at every flux point
                    double rt = 1e-12 * range, ptol = 1e-11 * range * range / std::fmin(1, std::fmax(r2, eps));
                    mc::maxstat("density_shortfall", eps - r2);
                    mc::maxstat("pressure_shortfall", -p2);
                    if (!(r2 >= eps - rt))
                      mc::viol("positivity-density:" + tag, mc::fmt("%s: smallest density at a flux point %.17g (before %.17g)", st.c_str(), r2, r1));
                    if (!ok2 || !(p2 >= -ptol))
                      mc::viol("positivity-pressure:" + tag, mc::fmt("%s: smallest pressure at a flux point %.17g (before %.17g, mean %.17g)", st.c_str(), p2, p1, pm));
                    // on the segment towards the mean, the same factor for every point (density may shrink more)
                    bool   touched = diff(f, g) > 0;
                    double th1 = 0, th2 = 0;
                    bool   any1 = false, any2 = false;
                    for (int v = 0; v < f.nv; v++)
                    {
                      double big = 0;
                      int    ba[3] = { 0, 0, 0 };
                      f.each_pt([&](const int * a) {
                        double d = std::fabs(f.at(v, i0, a) - m[v]);
                        if (d > big)
                        {
                          big = d;
                          for (int k = 0; k < 3; k++)
                            ba[k] = a[k];
                        }
                      });
                      if (big < 1e-6 * range)
                        continue;
                      double th = (g.at(v, i0, ba) - m[v]) / (f.at(v, i0, ba) - m[v]);
                      if (v == ID)
                        th1 = th, any1 = true;
                      else if (!any2)
                        th2 = th, any2 = true;
                      else if (!(std::fabs(th - th2) < 1e-6))
                        mc::viol("positivity-segment:" + tag, mc::fmt("%s: factors %.17g and %.17g", st.c_str(), th2, th));
                      if (!(th >= -1e-9 && th <= 1 + 1e-9))
                        mc::viol("positivity-segment:" + tag, mc::fmt("%s: factor %.17g for variable %d", st.c_str(), th, v));
                      f.each_pt([&](const int * a) {
                        double x = m[v] + th * (f.at(v, i0, a) - m[v]);
                        if (!(std::fabs(x - g.at(v, i0, a)) <= 1e-9 * range))
                          mc::viol("positivity-segment:" + tag, mc::fmt("%s: variable %d not scaled uniformly", st.c_str(), v));
                      });
                    }
                    if (any1 && any2 && !(th1 <= th2 + 1e-6))
                      mc::viol("positivity-segment:" + tag, mc::fmt("%s: density scaled by %.17g, others by %.17g", st.c_str(), th1, th2));
                    // already admissible: untouched
                    if (ok1 && r1 >= eps * (1 + 1e-6) && p1 > 1e-11 * range * range && touched)
                      mc::viol("positivity-admissible:" + tag, mc::fmt("%s: changed although density %.17g and pressure %.17g at flux points", st.c_str(), r1, p1));
                    if (!(r1 < eps) && ok1 && p1 > 1e-9 && touched)
                      mc::stat("touched_admissible");
                    // density above its floor everywhere: only pressure may act, and not when it is fine
                    if (touched)
                      mc::stat("rescaled");
                    // neighbour untouched
                    f.each_pt([&](const int * a) {
                      for (int v = 0; v < f.nv; v++)
                        if (f.at(v, i1, a) != g.at(v, i1, a))
                          mc::viol("positivity-neighbour:" + tag, st);
                    });
                  }
          mc::sample(c.desc() + mc::fmt(": all disturbances of point %d", pt));
        }
    }
}

// ================================================================= P27
static void
mode_visc()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
      for (int ig = 0; ig < 4; ig++)
        for (double mu : { 0.0625, 0.5 })
          for (auto & sh0 : shapes(dim))
          {
            bool heavy = dim == 3 && N >= 3;
            auto sh = sh0;
            for (int & x : sh)
              x = std::max(x, 2);
            if (!mc::A.thorough && heavy && (mu > 0.1 || &sh0 != &shapes(dim)[0]) && ig)
              continue;
            Cfg c = base(dim, N, sh);
            c.mu = mu;
            c.integ = ig;
            c.riemann = riemanns()[ig];
            c.cfl = 0.03125;
            if (!mc::item("visc " + c.desc()))
              continue;
            auto        s = make(c);
            Oracle      O(*s);
            std::string tag = mc::fmt("%dD:N%d:int%d", dim, N, ig);
            for (int p = 0; p < (mc::A.thorough ? 16 : 4); p++)
            {
              F f = pattern(c, p);
              start(*s, f);
              for (int st = 0; st < 2; st++)
              {
                s->next();
                mc::stat("transitions");
                F g = s->get();
                mc::state(g.hash());
                for (int v = 0; v < f.nv; v++)
                {
                  double a = O.total(f, v), b = O.total(g, v), e = std::fabs(a - b) / O.total(f, IE);
                  mc::maxstat("conservation_error", e);
                  if (!(e < 1e-12))
                    mc::viol(mc::fmt("visc-conservation:%s:%s", VN[v], tag.c_str()), mc::fmt("flow %d step %d: %.17g -> %.17g", p, st, a, b));
                }
              }
              mc::stat("executions");
            }
            for (int bcm = 0; bcm < 2; bcm++)
            {
              Cfg d = c;
              d.all_bc(bcm ? OUTF : PERI);
              auto q = make(d);
              for (int vc = 0; vc < (dim == 2 ? 9 : 27); vc++)
              {
                double v[3] = { (vc % 3 - 1) * 0.75, (vc / 3 % 3 - 1) * 1.5, (vc / 9 - 1) * 0.5 };
                F      f(d);
                f.each([&](const int * i, const int * a) { cons(d, f, i, a, 0.75, 1.25, v); });
                start(*q, f, 3e3);
                q->next();
                q->next();
                mc::stat("transitions", 2);
                mc::stat("executions");
                std::string w;
                F           g = q->get();
                double      e = diff(f, g, &w) / f.maxabs(IE);
                mc::state(f.hash());
                if (!(e < 1e-11))
                  mc::viol(mc::fmt("visc-uniform:%s:bc%d", tag.c_str(), bcm), mc::fmt("v=%g,%g,%g %s", v[0], v[1], v[2], w.c_str()));
              }
              // rigid translation: velocity uniform, density (and so momentum) not: no viscous effect
              Cfg e = d;
              e.mu = 0;
              auto q0 = make(e);
              for (int p = 0; p < 4; p++)
              {
                F f = pattern(d, p);
                f.each([&](const int * i, const int * a) {
                  double v[3] = { 0.5, -0.75, 0.25 };
                  cons(d, f, i, a, f.at(ID, i, a), 1 + 0.25 * f.at(ID, i, a), v);
                });
                q->put(f, 5);
                q->fill();
                q->rhs();
                q0->put(f, 5);
                q0->fill();
                q0->rhs();
                F           a = q->get(1), b = q0->get(1);
                std::string w;
                double      m = 0;
                for (double x : b.d)
                  m = std::fmax(m, std::fabs(x));
                mc::stat("transitions");
                if (!(diff(a, b, &w) <= 1e-11 * std::fmax(1, m)))
                  mc::viol(mc::fmt("visc-translation:%dD:N%d", dim, N), mc::fmt("flow %d %s", p, w.c_str()));
              }
            }
            // plane shear flows lose kinetic energy, mean momentum kept, other components untouched
            {
              Cfg e = c;
              e.mu = 0;
              auto q0 = make(e);
              for (int ax = 0; ax < dim; ax++)
                for (int cp = 0; cp < dim; cp++)
                  if (cp != ax && c.n[ax] * N >= 3)
                  {
                    F f(c);
                    f.each([&](const int * i, const int * a) {
                      double v[3] = { 0, 0, 0 }, x = (i[ax] + (double)O.G.xs[a[ax]]) / c.n[ax];
                      v[cp] = 0.25 * std::sin(2 * M_PI * x);
                      cons(c, f, i, a, 1, 1, v);
                    });
                    s->put(f, 5);
                    s->fill();
                    s->rhs();
                    q0->put(f, 5);
                    q0->fill();
                    q0->rhs();
                    mc::stat("transitions");
                    F      a = s->get(1), b = q0->get(1);
                    ld     rate = 0, ke = 0;
                    f.each([&](const int * i, const int * q) {
                      ld w = 1;
                      for (int d = 0; d < dim; d++)
                        w *= O.G.w[q[d]];
                      ld v = f.at(IU + cp, i, q);
                      rate += w * v * -(a.at(IU + cp, i, q) - b.at(IU + cp, i, q));
                      ke += w * v * v;
                    });
                    double k = 2 * M_PI / c.L[ax], expect = -mu * k * k;
                    double r = (double)(rate / ke);
                    mc::maxstat("shear_rate_ratio", r / expect);
                    if (!(r < 0) || (c.n[ax] * N >= 8 && !(std::fabs(r / expect - 1) < 0.15)))
                      mc::viol(mc::fmt("visc-shear:%dD:N%d", dim, N), mc::fmt("shear of component %d along axis %d: growth rate %.17g, exact %.17g", cp, ax, r, expect));
                    for (int o = 0; o < dim; o++)
                      if (o != cp)
                        f.each([&](const int * i, const int * q) {
                          if (!(std::fabs(a.at(IU + o, i, q) - b.at(IU + o, i, q)) < 1e-11))
                            mc::viol(mc::fmt("visc-shear-other:%dD:N%d", dim, N), mc::fmt("shear of component %d along axis %d acts on component %d", cp, ax, o));
                        });
                  }
            }
            mc::sample(c.desc() + ": viscous terms");
          }
}

// ================================================================= P08
static double
uniq(int v, const int * i, const int * a)
{
  return 100000.0 * (v + 1) + 1 + i[0] + 9 * i[1] + 81 * i[2] + 729 * (a[0] + 7 * a[1] + 49 * a[2]);
}
static void
mode_bc()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
      for (int visc = 0; visc < 2; visc++)
      {
        std::vector<std::vector<int>> sh = dim == 2 ? std::vector<std::vector<int>>{ { 2, 3 }, { 4, 2 } } : std::vector<std::vector<int>>{ { 2, 3, 4 } };
        if (!visc)
          sh.push_back({ 1, 1, 1 });
        for (auto & n : sh)
          for (int code = 0; code < (dim == 2 ? 81 : 729); code++)
          {
            if (!mc::A.thorough && dim == 3 && N >= 3 && code % 7)
              continue;
            Cfg c = base(dim, N, n);
            if (visc)
              c.mu = 0.125;
            int q = code;
            for (int k = 0; k < 2 * dim; k++, q /= 3)
              c.bc[k] = 1 + q % 3;
            if (!mc::item("bc " + c.desc()))
              continue;
            auto   s = make(c);
            Oracle O(*s);
            F      f(c);
            f.each([&](const int * i, const int * a) {
              for (int v = 0; v < f.nv; v++)
                f.at(v, i, a) = uniq(v, i, a);
            });
            s->put(f, std::nan(""));
            s->fill();
            mc::stat("transitions");
            mc::stat("executions");
            mc::state(mc::hash_bytes(&code, 4, N + 8 * visc + 16 * dim + 64 * n[0]));
            int g = s->gw(), e[3] = { s->params().isize, s->params().jsize, dim == 3 ? s->params().ksize : 1 }, i[3];
            if (visc ? g < 2 : g < 1)
              mc::viol("ghostwidth", mc::fmt("%d ghost cells", g));
            for (i[2] = 0; i[2] < e[2]; i[2]++)
              for (i[1] = 0; i[1] < e[1]; i[1]++)
                for (i[0] = 0; i[0] < e[0]; i[0]++)
                {
                  int l[3] = { i[0] - g, i[1] - g, dim == 3 ? i[2] - g : 0 };
                  f.each_pt([&](const int * a) {
                    for (int v = 0; v < f.nv; v++)
                    {
                      double x = s->raw(0, i, a, v), y = O.val(f, l, a, v);
                      mc::stat("ghost_values");
                      if (!(x == y))
                        mc::viol(mc::fmt("bc:sdm%dD:var%d:%s%s%s", dim, v, l[0] < 0 ? "xmin" : l[0] >= c.n[0] ? "xmax" : "", l[1] < 0 ? "ymin" : l[1] >= c.n[1] ? "ymax" : "",
                                         dim == 2 ? "" : l[2] < 0 ? "zmin" : l[2] >= c.n[2] ? "zmax" : ""),
                                 mc::fmt("cell (%d,%d,%d) point (%d,%d,%d): %.17g, prescribed %.17g", l[0], l[1], l[2], a[0], a[1], a[2], x, y));
                    }
                  });
                }
          }
      }
}

// ================================================================= P12
static void
mode_dt()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
      for (int ig = 0; ig < 4; ig++)
        for (int resc = 0; resc < 2; resc++)
        {
          Cfg c = base(dim, N, dim == 2 ? std::vector<int>{ 3, 2 } : std::vector<int>{ 2, 3, 1 });
          c.integ = ig, c.rescale = resc;
          if (!mc::item("dt " + c.desc()))
            continue;
          auto        s = make(c);
          std::string tag = mc::fmt("%dD:N%d:int%d:rescale%d", dim, N, ig, resc);
          auto        expect = [&](const F & f) {
            double inv = 0;
            f.each([&](const int * i, const int * a) {
              double r = f.at(ID, i, a), k = 0, x = 0;
              for (int d = 0; d < dim; d++)
                k += f.at(IU + d, i, a) * f.at(IU + d, i, a) / r / 2;
              double cs = std::sqrt(c.gamma * (c.gamma - 1) * (f.at(IE, i, a) - k) / r);
              for (int d = 0; d < dim; d++)
                x += (cs + std::fabs(f.at(IU + d, i, a) / r)) * N * c.n[d] / c.L[d];
              inv = std::fmax(inv, x);
            });
            double dt = c.cfl / inv;
            if (resc && N >= 2 && (ig == RK3 || ig == RK54))
              dt = std::pow(dt, (N + 1) / 3.0);
            return dt;
          };
          auto one = [&](const F & f, const std::string & what) {
            start(*s, f, 1e-8); // ghosts: tiny density, would dominate
            double x = s->dt_local(), y = expect(f);
            mc::stat("transitions");
            mc::stat("executions");
            mc::state(f.hash());
            mc::maxstat("dt_error", std::fabs(x - y) / y);
            if (!(std::fabs(x - y) <= 1e-12 * y))
              mc::viol("dt:" + tag, mc::fmt("%s: %.17g, CFL bound %.17g", what.c_str(), x, y));
          };
          for (int p = 0; p < (mc::A.thorough ? 32 : 8); p++)
            one(pattern(c, p), mc::fmt("flow %d", p));
          // the fastest point anywhere, fast by pressure, by each velocity component, by low density
          F u(c);
          u.each([&](const int * i, const int * a) {
            double v[3] = { 0, 0, 0 };
            cons(c, u, i, a, 1, 1, v);
          });
          u.each([&](const int * i, const int * a) {
            for (int k = 0; k < 2 + 2 * dim; k++)
            {
              if (!mc::A.thorough && ig && (k & 1))
                continue;
              F      f = u;
              double v[3] = { 0, 0, 0 };
              if (k >= 2)
                v[(k - 2) / 2] = k % 2 ? 8 : -8;
              cons(c, f, i, a, k == 0 ? 0.015625 : 1, k == 1 ? 64 : 1, v);
              one(f, mc::fmt("cell (%d,%d,%d) point (%d,%d,%d) kind %d", i[0], i[1], i[2], a[0], a[1], a[2], k));
            }
          });
          mc::sample(c.desc() + ": fastest point anywhere");
        }
}

// ================================================================= P28
static void
mode_ext()
{
  for (int N = 2; N <= 4; N++)
    combos(
      [&](Cfg & o) {
        for (int axis = 0; axis < 3; axis++)
          for (int bcm = 0; bcm < 3; bcm++)
            for (int visc = 0; visc < 1; visc++)
            {
              if (!mc::A.thorough && N >= 3 && (o.integ == RK2 || o.riemann == "llf" || o.riemann == "approx"))
                continue;
              Cfg c = base(2, N, { 3, 2 });
              c.riemann = o.riemann, c.integ = o.integ, c.limiter = o.limiter, c.posit = o.posit;
              c.M = bcm == 2 ? 0.03125 : 0;
              if (o.limiter)
                c.M = 0; // the mean change the limiter compares with its threshold depends on the number of variables
              if (bcm == 1)
                c.all_bc(OUTF);
              if (bcm == 2)
                c.bc[0] = c.bc[1] = REFL, c.bc[2] = REFL, c.bc[3] = OUTF;
              Cfg d = c;
              d.dim = 3;
              int m[2]; // 3D axis of each 2D axis
              for (int k = 0, a = 0; a < 3; a++)
                if (a != axis)
                  m[k++] = a;
              for (int k = 0; k < 2; k++)
              {
                d.n[m[k]] = c.n[k];
                d.L[m[k]] = c.L[k];
                d.bc[2 * m[k]] = c.bc[2 * k], d.bc[2 * m[k] + 1] = c.bc[2 * k + 1];
              }
              d.n[axis] = 2;
              d.L[axis] = 0.625;
              d.bc[2 * axis] = d.bc[2 * axis + 1] = bcm == 1 ? OUTF : PERI;
              if (!mc::item(mc::fmt("ext axis %d ", axis) + d.desc()))
                continue;
              auto s2 = make(c), s3 = make(d);
              auto lift = [&](const F & f) {
                F g(d);
                g.each([&](const int * i, const int * a) {
                  int j[3] = { i[m[0]], i[m[1]], 0 }, b[3] = { a[m[0]], a[m[1]], 0 };
                  g.at(ID, i, a) = f.at(ID, j, b);
                  g.at(IE, i, a) = f.at(IE, j, b);
                  g.at(IU + axis, i, a) = 0;
                  for (int k = 0; k < 2; k++)
                    g.at(IU + m[k], i, a) = f.at(IU + k, j, b);
                });
                return g;
              };
              for (int p = 0; p < (mc::A.thorough ? 16 : 4); p++)
              {
                F f = pattern(c, p), g = lift(f);
                start(*s2, f);
                start(*s3, g);
                for (int st = 0; st < 2; st++)
                {
                  double dt = 0.75 * std::fmin(s3->dt_local(), s2->dt_local());
                  s3->step(dt);
                  s2->step(dt);
                  mc::stat("transitions", 2);
                  F           a = lift(s2->get()), b = s3->get();
                  std::string w;
                  double      e = reldiff(a, b, scales(a), &w);
                  mc::maxstat("difference", e);
                  mc::state(b.hash());
                  if (!(e < 1e-10))
                  {
                    mc::viol(mc::fmt("dim23:sdm:axis%d:N%d:int%d:lim%d:pos%d:%s", axis, N, c.integ, c.limiter, c.posit, c.riemann.c_str()), mc::fmt("flow %d step %d: 2D vs 3D %s", p, st, w.c_str()));
                    break;
                  }
                }
                mc::stat("executions", 2);
              }
              mc::sample(d.desc() + mc::fmt(": invariant along axis %d", axis));
            }
      },
      3, N);
}

// ================================================================= P24
static void
mode_races()
{
  for (int dim = 2; dim <= 3; dim++)
    for (int N : orders(dim))
      for (int ig = 0; ig < 4; ig++)
        for (int opt = 0; opt < 4; opt++)
          for (int bcm = 0; bcm < 2; bcm++)
          {
            bool heavy = dim == 3 && N >= 3;
            if (!mc::A.thorough && (heavy || N > 4) && (ig + opt + bcm) % 3)
              continue;
            Cfg c = base(dim, N, dim == 2 ? std::vector<int>{ 3, 2 } : std::vector<int>{ 2, 2, 2 });
            c.integ = ig;
            c.limiter = opt == 1 || opt == 3;
            c.posit = opt == 1 || opt == 3;
            if (opt == 2)
              c.mu = 0.0625;
            c.riemann = riemanns()[opt];
            if (bcm)
              for (int d = 0; d < dim; d++)
                c.bc[2 * d] = REFL, c.bc[2 * d + 1] = OUTF;
            if (!mc::item("races " + c.desc()))
              continue;
            auto & rt = mck::rt();
            races::on(true);
            auto s = make(c);
            F    f = pattern(c, ROUGH + 4 * ig);
            start(*s, f, 7.0);
            s->next();
            s->next();
            races::on(false);
            mc::stat("transitions", 2);
            F      ref = s->get();
            double t = s->t();
            mc::state(ref.hash());
            fprintf(mc::out, "HASH %ld %016llx\n", mc::cur_item, (unsigned long long)ref.hash());
            for (int o = 1; o < (mc::A.thorough ? 12 : 5); o++)
            {
              rt.order = o < 4 ? (mck::Order)o : mck::Order::SHUFFLE;
              rt.shuffle_seed = o;
              auto q = make(c);
              start(*q, f, o % 2 ? 3e5 : -1e-3);
              q->next();
              q->next();
              mc::stat("transitions", 2);
              mc::stat("executions");
              std::string w;
              F           g = q->get();
              if (!(diff(ref, g, &w) == 0) || q->t() != t)
                mc::viol(mc::fmt("order:sdm%dD:N%d:int%d:opt%d", dim, N, ig, opt), mc::fmt("iteration order %d: %s", o, w.c_str()));
            }
            rt.order = mck::Order::FORWARD;
            mc::sample(c.desc() + ": footprints and iteration orders");
          }
}

void sdm_init_modes(const std::string &); // sdminit.cpp

int
main(int argc, char ** argv)
{
  Kokkos::initialize(argc, argv);
  mc::init(argc, argv);
  std::string m = mc::A.get("mode");
  if (m == "geom")
    mode_geom();
  if (m == "step")
    mode_step();
  if (m == "sym")
    mode_sym();
  if (m == "rk")
    mode_rk();
  if (m == "rhs")
    mode_rhs();
  if (m == "lim")
    mode_lim();
  if (m == "posit")
    mode_posit();
  if (m == "visc")
    mode_visc();
  if (m == "bc")
    mode_bc();
  if (m == "dt")
    mode_dt();
  if (m == "ext")
    mode_ext();
  if (m == "init" || m == "ghost")
    sdm_init_modes(m);
  if (m == "races")
    mode_races();
  return mc::done();
}
