// Independent statement of the spectral-difference scheme: exact polynomial
// arithmetic in long double, boundary values resolved lazily from the interior,
// no array of ghost cells. Shares only the Riemann solver and the characteristic
// transforms with the code under test (both have checks of their own).
#ifndef SDM_ORACLE_H_
#define SDM_ORACLE_H_
#include "sdm.h"

namespace sd
{
using ld = long double;

//! value of the i-th Lagrange polynomial of nodes x at t
inline ld
lag(const std::vector<ld> & x, int i, ld t)
{
  ld p = 1;
  for (size_t j = 0; j < x.size(); j++)
    if ((int)j != i)
      p *= (t - x[j]) / (x[i] - x[j]);
  return p;
}
inline ld
dlag(const std::vector<ld> & x, int i, ld t)
{
  ld s = 0;
  for (size_t k = 0; k < x.size(); k++)
    if ((int)k != i)
    {
      ld p = 1 / (x[i] - x[k]);
      for (size_t j = 0; j < x.size(); j++)
        if ((int)j != i && j != k)
          p *= (t - x[j]) / (x[i] - x[j]);
      s += p;
    }
  return s;
}
//! roots of the Legendre polynomial of degree n, on [0,1]
inline std::vector<ld>
legendre_roots(int n)
{
  std::vector<ld> r;
  auto            P = [&](ld x) {
    ld a = 1, b = x;
    if (n == 0)
      return a;
    for (int k = 2; k <= n; k++)
    {
      ld c = ((2 * k - 1) * x * b - (k - 1) * a) / k;
      a = b;
      b = c;
    }
    return b;
  };
  const int m = 4000;
  for (int i = 0; i < m; i++)
  {
    // cells shifted so that no root falls on an end
    ld lo = -1 + 2 * (ld(i) - ld(0.37)) / m, hi = lo + ld(2) / m;
    if (P(lo) * P(hi) < 0)
    {
      for (int k = 0; k < 80; k++)
      {
        ld mid = (lo + hi) / 2;
        if (P(lo) * P(mid) <= 0)
          hi = mid;
        else
          lo = mid;
      }
      r.push_back(((lo + hi) / 2 + 1) / 2);
    }
  }
  return r;
}

struct Geom
{
  int                          N;
  std::vector<ld>              xs, xf, w;
  std::vector<std::vector<ld>> s2f, df, ds; // [flux][sol] value; [sol][flux] derivative; [sol][sol'] derivative
  Geom(int n)
    : N(n)
  {
    for (int s = 0; s < N; s++)
      xs.push_back((1 - cosl((2 * s + 1) * acosl(-1.0L) / (2 * N))) / 2);
    xf.push_back(0);
    for (ld r : legendre_roots(N - 1))
      xf.push_back(r);
    xf.push_back(1);
    for (int f = 0; f <= N; f++)
    {
      s2f.emplace_back();
      for (int s = 0; s < N; s++)
        s2f[f].push_back(lag(xs, s, xf[f]));
    }
    for (int s = 0; s < N; s++)
    {
      df.emplace_back();
      ds.emplace_back();
      for (int f = 0; f <= N; f++)
        df[s].push_back(dlag(xf, f, xs[s]));
      for (int k = 0; k < N; k++)
        ds[s].push_back(dlag(xs, k, xs[s]));
      // weight: integral of the Lagrange polynomial, Simpson-like exactness by Gauss points of degree N+1
      auto g = legendre_roots(N + 1);
      ld   I = 0;
      for (size_t a = 0; a < g.size(); a++)
      {
        // Gauss weight = integral of the a-th Lagrange polynomial of the Gauss nodes; computed from moments
        std::vector<ld> c(1, 1);
        for (size_t b = 0; b < g.size(); b++)
          if (b != a)
          {
            std::vector<ld> e(c.size() + 1, 0);
            for (size_t q = 0; q < c.size(); q++)
            {
              e[q + 1] += c[q] / (g[a] - g[b]);
              e[q] -= c[q] * g[b] / (g[a] - g[b]);
            }
            c = e;
          }
        ld W = 0;
        for (size_t q = 0; q < c.size(); q++)
          W += c[q] / (q + 1);
        I += W * lag(xs, s, g[a]);
      }
      w.push_back(I);
    }
  }
};
inline const Geom &
geom(int N)
{
  static std::map<int, Geom *> m;
  Geom *&                      g = m[N];
  if (!g)
    g = new Geom(N);
  return *g;
}

struct Oracle
{
  const Cfg &  c;
  ISdm &       s; // Riemann solver, characteristic transforms
  const Geom & G;
  double       g0, smallr;
  double       dx[3];
  Oracle(ISdm & s_)
    : c(s_.c)
    , s(s_)
    , G(geom(s_.c.N))
  {
    g0 = s.params().settings.gamma0;
    smallr = s.params().settings.smallr;
    for (int d = 0; d < 3; d++)
      dx[d] = d < c.dim ? c.L[d] / c.n[d] : 1;
  }
  int nv() const { return c.dim + 2; }
  //! value with the prescribed boundary conditions; i: cell (any), a: point
  double val(const F & U, const int * i, const int * a, int v) const
  {
    int    q[3], b[3];
    double sg = 1;
    for (int d = 0; d < 3; d++)
    {
      q[d] = i[d];
      b[d] = a[d];
      int n = U.n[d];
      if (d >= c.dim)
        continue;
      if (q[d] < 0 || q[d] >= n)
      {
        int t = c.bc[2 * d + (q[d] >= n)];
        if (t == PERI)
          q[d] = ((q[d] % n) + n) % n;
        else if (t == REFL)
        {
          q[d] = q[d] < 0 ? -1 - q[d] : 2 * n - 1 - q[d];
          b[d] = c.N - 1 - b[d];
          if (v == IU + d)
            sg = -sg;
        }
        else
          q[d] = q[d] < 0 ? 0 : n - 1;
      }
    }
    return sg * U.at(v, q, b);
  }
  double mean(const F & U, const int * i, int v) const
  {
    ld m = 0;
    U.each_pt([&](const int * a) {
      ld w = 1;
      for (int d = 0; d < c.dim; d++)
        w *= G.w[a[d]];
      m += w * val(U, i, a, v);
    });
    return (double)m;
  }
  //! quadrature total over the domain
  double total(const F & U, int v) const
  {
    ld m = 0;
    U.each_cell([&](const int * i) {
      U.each_pt([&](const int * a) {
        ld w = 1;
        for (int d = 0; d < c.dim; d++)
          w *= G.w[a[d]] * dx[d];
        m += w * U.at(v, i, a);
      });
    });
    return (double)m;
  }
  double pressure(const double * u) const
  {
    double k = 0;
    for (int d = 0; d < c.dim; d++)
      k += u[IU + d] * u[IU + d];
    return (g0 - 1) * (u[IE] - 0.5 * k / u[ID]);
  }
  //! Euler flux along d of conservative u
  void flux(const double * u, int d, double * f) const
  {
    double p = pressure(u), vn = u[IU + d] / u[ID];
    f[ID] = u[IU + d];
    f[IE] = (u[IE] + p) * vn;
    for (int e = 0; e < c.dim; e++)
      f[IU + e] = u[IU + e] * vn + (e == d ? p : 0);
  }
  //! Riemann flux along d between conservative states
  void face(const double * l, const double * r, int d, double * f) const
  {
    double wl[5], wr[5], o[5];
    for (int k = 0; k < 2; k++)
    {
      const double * u = k ? r : l;
      double *       w = k ? wr : wl;
      w[ID] = u[ID];
      w[IP] = pressure(u);
      for (int e = 0; e < c.dim; e++)
        w[IU + e] = u[IU + e] / u[ID];
      std::swap(w[IU], w[IU + d]);
    }
    s.riemann(wl, wr, o);
    std::swap(o[IU], o[IU + d]);
    for (int v = 0; v < nv(); v++)
      f[v] = o[v];
  }
  //! conservative state at flux point f along d of the line of cell i through point a
  void at_flux(const F & U, const int * i, const int * a, int d, int f, double * u) const
  {
    for (int v = 0; v < nv(); v++)
    {
      ld  m = 0;
      int b[3] = { a[0], a[1], a[2] };
      for (int k = 0; k < c.N; k++)
      {
        b[d] = k;
        m += G.s2f[f][k] * val(U, i, b, v);
      }
      u[v] = (double)m;
    }
  }
  // ------------------------------------------------ viscous terms
  double vel(const F & U, const int * i, const int * a, int e) const { return val(U, i, a, IU + e) / val(U, i, a, ID); }
  ld     vel_flux1(const F & U, const int * i, const int * a, int d, int f, int e) const
  {
    ld  m = 0;
    int b[3] = { a[0], a[1], a[2] };
    for (int k = 0; k < c.N; k++)
    {
      b[d] = k;
      m += G.s2f[f][k] * vel(U, i, b, e);
    }
    return m;
  }
  //! velocity at a flux point, mean of both sides at a face
  ld vel_flux(const F & U, const int * i, const int * a, int d, int f, int e) const
  {
    ld x = vel_flux1(U, i, a, d, f, e);
    if (f == 0 || f == c.N)
    {
      int j[3] = { i[0], i[1], i[2] };
      j[d] += f == 0 ? -1 : 1;
      x = (x + vel_flux1(U, j, a, d, c.N - f, e)) / 2;
    }
    return x;
  }
  //! d v_e / d x_d at solution point
  ld grad(const F & U, const int * i, const int * a, int d, int e) const
  {
    ld m = 0;
    for (int f = 0; f <= c.N; f++)
      m += G.df[a[d]][f] * vel_flux(U, i, a, d, f, e);
    return m / dx[d];
  }
  ld grad_flux1(const F & U, const int * i, const int * a, int d, int f, int gd, int e) const
  {
    ld  m = 0;
    int b[3] = { a[0], a[1], a[2] };
    for (int k = 0; k < c.N; k++)
    {
      b[d] = k;
      m += G.s2f[f][k] * grad(U, i, b, gd, e);
    }
    return m;
  }
  ld grad_flux(const F & U, const int * i, const int * a, int d, int f, int gd, int e) const
  {
    ld x = grad_flux1(U, i, a, d, f, gd, e);
    if (f == 0 || f == c.N)
    {
      int j[3] = { i[0], i[1], i[2] };
      j[d] += f == 0 ? -1 : 1;
      x = (x + grad_flux1(U, j, a, d, c.N - f, gd, e)) / 2;
    }
    return x;
  }
  void visc_flux(const F & U, const int * i, const int * a, int d, int f, ld * o) const
  {
    ld V[3], g[3][3], div = 0;
    for (int e = 0; e < c.dim; e++)
    {
      V[e] = vel_flux(U, i, a, d, f, e);
      for (int k = 0; k < c.dim; k++)
        g[e][k] = grad_flux(U, i, a, d, f, k, e);
    }
    for (int e = 0; e < c.dim; e++)
      div += g[e][e];
    o[ID] = o[IE] = 0;
    for (int e = 0; e < c.dim; e++)
    {
      ld t = c.mu * (g[e][d] + g[d][e] - (e == d ? 2 * div / c.dim : 0)); // traceless in c.dim dimensions
      o[IU + e] = t;
      o[IE] += t * V[e];
    }
  }
  // ------------------------------------------------ limiter
  double minmod(double a, double b, double d) const
  {
    if (std::fabs(a) < c.M)
      return a;
    if (a > 0 && b > 0 && d > 0)
      return std::fmin(a, std::fmin(b, d));
    if (a < 0 && b < 0 && d < 0)
      return std::fmax(a, std::fmax(b, d));
    return 0;
  }
  //! margin: smallest distance of a decision (threshold, sign, minimum) from flipping
  F limit(const F & U, double * margin = nullptr, int * nlimited = nullptr) const
  {
    F R = U;
    if (margin)
      *margin = 1e300;
    U.each_cell([&](const int * i) {
      double m[5], cs, dnew[3][5], change = 0;
      for (int v = 0; v < nv(); v++)
        m[v] = mean(U, i, v);
      cs = std::sqrt(g0 * pressure(m) / m[ID]);
      for (int d = 0; d < c.dim; d++)
      {
        double x[5], l[5], r[5];
        for (int v = 0; v < nv(); v++)
        {
          ld g = 0;
          U.each_pt([&](const int * a) {
            ld w = 1;
            for (int e = 0; e < c.dim; e++)
              w *= G.w[a[e]];
            int b[3] = { a[0], a[1], a[2] };
            for (int k = 0; k < c.N; k++)
            {
              b[d] = k;
              g += w * G.ds[a[d]][k] * U.at(v, i, b);
            }
          });
          x[v] = (double)g;
          int j[3] = { i[0], i[1], i[2] };
          j[d]--;
          l[v] = m[v] - mean(U, j, v);
          j[d] += 2;
          r[v] = mean(U, j, v) - m[v];
        }
        s.charac(d, false, x, m, cs);
        s.charac(d, false, l, m, cs);
        s.charac(d, false, r, m, cs);
        for (int v = 0; v < nv(); v++)
        {
          dnew[d][v] = minmod(x[v], l[v], r[v]);
          change += std::fabs(dnew[d][v] - x[v]);
          if (margin && c.M > 0)
            *margin = std::fmin(*margin, std::fabs(std::fabs(x[v]) - c.M));
        }
      }
      change /= nv();
      if (margin)
        *margin = std::fmin(*margin, std::fabs(change - 1e-10));
      if (!(change > 1e-10))
        return;
      if (nlimited)
        ++*nlimited;
      for (int d = 0; d < c.dim; d++)
        s.charac(d, true, dnew[d], m, cs);
      U.each_pt([&](const int * a) {
        for (int v = 0; v < nv(); v++)
        {
          double x = m[v];
          for (int d = 0; d < c.dim; d++)
            x += (double)(G.xs[a[d]] - 0.5L) * dnew[d][v];
          R.at(v, i, a) = x;
        }
      });
    });
    return R;
  }
  //! -dU/dt (no limiter, no positivity)
  F rhs(const F & U) const
  {
    F R(c);
    U.each_cell([&](const int * i) {
      for (int d = 0; d < c.dim; d++)
      {
        // lines along d: one per transverse point
        U.each_pt([&](const int * a) {
          if (a[d] != 0)
            return;
          std::vector<std::vector<ld>> fl(c.N + 1, std::vector<ld>(nv(), 0));
          for (int f = 0; f <= c.N; f++)
          {
            double u[5], o[5], w[5];
            at_flux(U, i, a, d, f, u);
            u[ID] = std::fmax(u[ID], smallr);
            if (f == 0 || f == c.N)
            {
              int j[3] = { i[0], i[1], i[2] };
              j[d] += f == 0 ? -1 : 1;
              at_flux(U, j, a, d, c.N - f, w);
              w[ID] = std::fmax(w[ID], smallr);
              if (f == 0)
                face(w, u, d, o);
              else
                face(u, w, d, o);
            }
            else
              flux(u, d, o);
            ld vf[5] = { 0, 0, 0, 0, 0 };
            if (c.mu > 0)
              visc_flux(U, i, a, d, f, vf);
            for (int v = 0; v < nv(); v++)
              fl[f][v] = o[v] - vf[v];
          }
          int b[3] = { a[0], a[1], a[2] };
          for (int k = 0; k < c.N; k++)
          {
            b[d] = k;
            for (int v = 0; v < nv(); v++)
            {
              ld m = 0;
              for (int f = 0; f <= c.N; f++)
                m += G.df[k][f] * fl[f][v];
              R.at(v, i, b) += (double)(m / dx[d]);
            }
          }
        });
      }
    });
    return R;
  }
};

} // namespace sd
#endif
