// The point-wise physics of the real code (conversions, equation of state, fluxes,
// wave speeds, eigenvectors, viscous stress) over a product lattice of states,
// against the equations themselves.
#include "fv.h"
#include "fv_util.h"
#include "shared/EulerEquations.h"
#include "shared/mhd_utils.h"
#include "muscl/HydroBaseFunctor2D.h"
#include "muscl/HydroBaseFunctor3D.h"
#include "muscl/MHDBaseFunctor2D.h"
#include "muscl/MHDBaseFunctor3D.h"
#include "sdm/SDMBaseFunctor.h"
using namespace fv;

typedef long double ld;

static HydroParams
params_for(bool mhd, int dim, double gamma, bool /*unused*/ = false)
{
  Cfg c;
  c.mhd = mhd, c.dim = dim, c.gamma = gamma;
  std::string ini = c.ini();
  char *      b = (char *)malloc(ini.size() + 1);
  memcpy(b, ini.data(), ini.size());
  b[ini.size()] = 0;
  ConfigMap   cm(b, (int)ini.size());
  HydroParams p;
  p.setup(cm);
  return p;
}

// one state, in vectors of three components
struct W
{
  ld r, p, v[3], B[3];
};

static void
cons(const W & q, ld g, ld * U)
{
  U[0] = q.r;
  U[1] = q.p / (g - 1) + 0.5L * q.r * (q.v[0] * q.v[0] + q.v[1] * q.v[1] + q.v[2] * q.v[2]) + 0.5L * (q.B[0] * q.B[0] + q.B[1] * q.B[1] + q.B[2] * q.B[2]);
  for (int i = 0; i < 3; i++)
    U[2 + i] = q.r * q.v[i], U[5 + i] = q.B[i];
}

static void
flux_ref(const W & q, ld g, int d, ld * F)
{
  ld U[8];
  cons(q, g, U);
  ld b2 = q.B[0] * q.B[0] + q.B[1] * q.B[1] + q.B[2] * q.B[2], pt = q.p + b2 / 2;
  ld vb = q.v[0] * q.B[0] + q.v[1] * q.B[1] + q.v[2] * q.B[2];
  F[0] = q.r * q.v[d];
  F[1] = (U[1] + pt) * q.v[d] - q.B[d] * vb;
  for (int i = 0; i < 3; i++)
  {
    F[2 + i] = q.r * q.v[d] * q.v[i] - q.B[d] * q.B[i] + (i == d ? pt : 0);
    F[5 + i] = q.v[d] * q.B[i] - q.B[d] * q.v[i];
  }
}

static W
prim_of(const ld * U, ld g)
{
  W w;
  w.r = U[0];
  ld k = 0;
  for (int i = 0; i < 3; i++)
    w.v[i] = U[2 + i] / U[0], k += U[2 + i] * w.v[i] / 2, w.B[i] = 0;
  w.p = (g - 1) * (U[1] - k);
  return w;
}

static bool
close_(ld a, ld b, ld scale, ld tol = 1e-12L)
{
  ld e = fabsl(a - b) / (scale > 0 ? scale : 1);
  if (e == e)
    mc::maxstat("max_relative_error", (double)e);
  return e <= tol; // false for NaN
}

static std::string
desc(const W & q, ld g, int dim)
{
  return mc::fmt("%dD gamma=%Lg rho=%Lg p=%Lg v=(%Lg,%Lg,%Lg) B=(%Lg,%Lg,%Lg)", dim, g, q.r, q.p, q.v[0], q.v[1], q.v[2], q.B[0], q.B[1], q.B[2]);
}

template <int dim>
static void
euler_state(const W & q, double g)
{
  using E = EulerEquations<dim>;
  typename E::HydroState u = {}, w = {}, f = {};
  const int              nv = dim + 2;
  ld                     U[8];
  cons(q, g, U);
  ld cs = sqrtl(g * q.p / q.r), vm = 0;
  for (int i = 0; i < dim; i++)
    vm = fmaxl(vm, fabsl(q.v[i]));
  ld sc = vm + cs; // signal speed: scale of every difference
  for (int i = 0; i < nv; i++)
    u[i] = (double)U[i];
  std::string D = std::string("euler") + (dim == 2 ? "2d" : "3d");
  // the pressure is a difference of energies: its error is relative to the energy
  ld escale = U[1] + q.p, tiny = 1e-7L * q.r;
  ld pref = fmaxl(q.p, tiny);
  if (!close_(E::compute_pressure(u, g), pref, escale))
    mc::viol(D + ":compute_pressure", mc::fmt("%.17g, expected %.17Lg", (double)E::compute_pressure(u, g), pref));
  E::convert_to_primitive(u, w, g);
  bool ok = close_(w[ID], q.r, q.r) && close_(w[IP], pref, escale);
  for (int i = 0; i < dim; i++)
    ok = ok && close_(w[IU + i], q.v[i], sc);
  if (!ok || !(w[IP] > 0))
    mc::viol(D + ":convert_to_primitive", mc::fmt("got rho=%.17g p=%.17g u=%.17g v=%.17g", w[ID], w[IP], w[IU], w[IV]));
  typename E::HydroState wx = {};
  wx[ID] = (double)q.r, wx[IP] = (double)q.p;
  for (int i = 0; i < dim; i++)
    wx[IU + i] = (double)q.v[i];
  double c = E::compute_speed_of_sound(wx, g);
  if (!(c > 0) || !close_(c, cs, cs))
    mc::viol(D + ":compute_speed_of_sound", mc::fmt("%.17g, expected sqrt(gamma p/rho) = %.17Lg", c, cs));
  // round trip through the conservative form
  {
    W  b{ w[ID], w[IP], { w[IU], w[IV], 0 }, { 0, 0, 0 } };
    if (dim == 3)
      b.v[2] = w[dim == 3 ? IW : IV];
    ld V[8];
    cons(b, g, V);
    for (int i = 0; i < nv; i++)
      if (!close_(V[i], U[i], i == 1 ? escale : q.r * (i ? sc : 1)))
        mc::viol(D + ":round trip", mc::fmt("variable %d: %.17Lg became %.17Lg", i, U[i], V[i]));
  }
  for (int d = 0; d < dim; d++)
  {
    ld F[8];
    flux_ref(q, g, d, F);
    for (auto & x : f)
      x = NAN;
    if (d == 0)
      E::flux_x(u, (double)q.p, f);
    else if (d == 1)
      E::flux_y(u, (double)q.p, f);
    else if constexpr (dim == 3)
      E::flux_z(u, (double)q.p, f);
    for (int i = 0; i < nv; i++)
      if (!close_(f[i], F[i], i == 0 ? q.r * sc : i == 1 ? escale * sc : q.r * sc * sc + q.p))
        mc::viol(D + mc::fmt(":flux direction %d variable %d", d, i), mc::fmt("%.17g, expected %.17Lg", (double)f[i], F[i]));

    // characteristic transforms
    auto apply = [&](bool to, typename E::HydroState & x) {
      if (d == 0)
        to ? E::template cons_to_charac<IX>(x, u, (double)cs, g) : E::template charac_to_cons<IX>(x, u, (double)cs, g);
      else if (d == 1)
        to ? E::template cons_to_charac<IY>(x, u, (double)cs, g) : E::template charac_to_cons<IY>(x, u, (double)cs, g);
      else if constexpr (dim == 3)
        to ? E::template cons_to_charac<IZ>(x, u, (double)cs, g) : E::template charac_to_cons<IZ>(x, u, (double)cs, g);
    };
    ld cond = 1 + (sc / cs) * (sc / cs) * (1 + sc) * (1 + sc) + 1 / (cs * cs) + sc * sc;
    ld L[8][8], R[8][8];
    for (int k = 0; k < nv; k++)
    {
      typename E::HydroState e = {}, h = {};
      for (int i = 0; i < nv; i++)
        e[i] = h[i] = i == k;
      apply(true, e);
      apply(false, h);
      for (int i = 0; i < nv; i++)
        L[i][k] = e[i], R[i][k] = h[i];
      apply(false, e);
      apply(true, h);
      for (int i = 0; i < nv; i++)
      {
        if (!close_(e[i], i == k, cond * cond))
          mc::viol(D + mc::fmt(":cons->charac->cons direction %d", d), mc::fmt("basis vector %d, component %d: %.17g", k, i, (double)e[i]));
        if (!close_(h[i], i == k, cond * cond))
          mc::viol(D + mc::fmt(":charac->cons->charac direction %d", d), mc::fmt("basis vector %d, component %d: %.17g", k, i, (double)h[i]));
      }
    }
    if (sc > 100 * cs)
      continue; // the three eigenvalues are no longer distinguishable
    // Jacobian by central differences of the reference flux in extended precision
    ld A[8][8];
    for (int k = 0; k < nv; k++)
    {
      ld Up[8] = {}, Um[8] = {}, Fp[8], Fm[8];
      for (int i = 0; i < nv; i++)
        Up[i] = Um[i] = U[i];
      ld h = 1e-6L * (k == 0 ? q.r : k == 1 ? q.p / (g - 1) : q.r * sc);
      if (k == 0)
        h *= fminl(1, q.p / (q.r * sc * sc));
      if (k >= 2)
        h *= fminl(1, q.p / (q.r * sc * sc));
      Up[k] += h, Um[k] -= h;
      flux_ref(prim_of(Up, g), g, d, Fp);
      flux_ref(prim_of(Um, g), g, d, Fm);
      for (int i = 0; i < nv; i++)
        A[i][k] = (Fp[i] - Fm[i]) / (2 * h);
    }
    // A R = R diag(lambda), each lambda one of u-c, u, u+c with the right multiplicities
    int cnt[3] = { 0, 0, 0 };
    for (int k = 0; k < nv; k++)
    {
      ld AR[8], rn = 0, dot = 0, nn = 0;
      for (int i = 0; i < nv; i++)
      {
        AR[i] = 0;
        for (int j = 0; j < nv; j++)
          AR[i] += A[i][j] * R[j][k];
        rn = fmaxl(rn, fabsl(R[i][k]));
        dot += AR[i] * R[i][k], nn += R[i][k] * R[i][k];
      }
      ld  lam = dot / nn, cand[3] = { q.v[d] - cs, q.v[d], q.v[d] + cs };
      int best = 0;
      for (int m = 1; m < 3; m++)
        if (fabsl(lam - cand[m]) < fabsl(lam - cand[best]))
          best = m;
      cnt[best]++;
      for (int i = 0; i < nv; i++)
      {
        ld s = (sc + 1 / cs) * (1 + rn) * (1 + sc) * (1 + sc) * (1 + sc);
        if (!(fabsl(AR[i] - cand[best] * R[i][k]) <= 1e-8L * s))
          mc::viol(D + mc::fmt(":eigenvector direction %d column %d", d, k), mc::fmt("component %d: A r = %.12Lg, lambda r = %.12Lg (lambda %.12Lg)", i, AR[i], cand[best] * R[i][k], cand[best]));
      }
    }
    if (cnt[0] != 1 || cnt[2] != 1 || cnt[1] != dim)
      mc::viol(D + mc::fmt(":eigenvalues direction %d", d), mc::fmt("multiplicities of u-c, u, u+c: %d %d %d", cnt[0], cnt[1], cnt[2]));
  }
  mc::stat("euler_states"), mc::stat("executions"), mc::stat("transitions", 10);
}

static void
muscl_state(const W & q, double g, const HydroParams & p2, const HydroParams & p3)
{
  ld U[8];
  cons(q, g, U);
  ld   cs = sqrtl(g * q.p / q.r), sc = cs + fabsl(q.v[0]) + fabsl(q.v[1]) + fabsl(q.v[2]);
  ld   esc = U[1] + q.p;
  auto chk = [&](const char * what, const double * w, int n, double c) {
    bool ok = close_(w[0], q.r, q.r) && close_(w[1], q.p, esc) && w[1] > 0;
    for (int i = 0; i < n - 2; i++)
      ok = ok && close_(w[2 + i], q.v[i], sc);
    // c^2 = gamma p / rho for the pressure returned
    ok = ok && c > 0 && close_((ld)c * c, (ld)g * w[1] / q.r, (ld)g * w[1] / q.r);
    if (!ok)
      mc::viol(std::string(what), mc::fmt("got rho=%.17g p=%.17g u=%.17g v=%.17g c=%.17g", w[0], w[1], w[2], w[3], c));
  };
  real_t c, pp;
  ld     eint = q.p / (g - 1) / q.r;
  auto   chk_eos = [&](const char * what) {
    if (!close_(pp, q.p, q.p) || !close_(c, cs, cs))
      mc::viol(what, mc::fmt("p=%.17g c=%.17g, expected %.17Lg %.17Lg", (double)pp, (double)c, q.p, cs));
  };
  if (q.v[2] == 0)
  {
    muscl::HydroBaseFunctor2D b(p2);
    HydroState2d              u, w;
    for (int i = 0; i < 4; i++)
      u[i] = (double)U[i];
    b.computePrimitives(u, &c, w);
    chk("hydro2d:computePrimitives", &w[0], 4, c);
    b.eos((double)q.r, (double)eint, &pp, &c);
    chk_eos("hydro2d:eos");
    sdm::SDM_Geometry<2, 2>   geo;
    sdm::SDMBaseFunctor<2, 2> s(p2, geo);
    s.computePrimitives(u, &c, w);
    chk("sdm2d:computePrimitives", &w[0], 4, c);
    s.eos((double)q.r, (double)eint, &pp, &c);
    chk_eos("sdm2d:eos");
  }
  {
    muscl::HydroBaseFunctor3D b(p3);
    HydroState3d              u, w;
    for (int i = 0; i < 5; i++)
      u[i] = (double)U[i];
    b.computePrimitives(u, &c, w);
    chk("hydro3d:computePrimitives", &w[0], 5, c);
    b.eos((double)q.r, (double)eint, &pp, &c);
    chk_eos("hydro3d:eos");
    sdm::SDM_Geometry<3, 2>   geo;
    sdm::SDMBaseFunctor<3, 2> s(p3, geo);
    s.computePrimitives(u, &c, w);
    chk("sdm3d:computePrimitives", &w[0], 5, c);
    s.eos((double)q.r, (double)eint, &pp, &c);
    chk_eos("sdm3d:eos");
  }
  mc::stat("muscl_states"), mc::stat("executions"), mc::stat("transitions", 10);
}

template <class B>
static void
mhd_state(const char * name, const W & q, double g, const HydroParams & p)
{
  B        b(p);
  ld       U[8];
  cons(q, g, U);
  MHDState u, w, cv, ff;
  ld       cs2 = g * q.p / q.r, b2 = (q.B[0] * q.B[0] + q.B[1] * q.B[1] + q.B[2] * q.B[2]) / q.r;
  ld       sc = sqrtl(cs2 + b2) + fabsl(q.v[0]) + fabsl(q.v[1]) + fabsl(q.v[2]), esc = U[1] + q.p;
  std::string N = name;
  // the cell-centred field is the mean of the two face values: all four splits
  for (int sp = 0; sp < 4; sp++)
  {
    real_t nb[3];
    for (int i = 0; i < 8; i++)
      u[i] = (double)U[i];
    for (int i = 0; i < 3; i++)
    {
      double d = ((sp >> (i % 2)) & 1) ? 0.375 * (i + 1) : 0;
      u[IA + i] = (double)U[5 + i] - d;
      nb[i] = (double)U[5 + i] + d;
    }
    real_t c;
    b.constoprim_mhd(u, nb, c, w);
    bool ok = close_(w[ID], q.r, q.r) && close_(w[IP], q.p, esc) && w[IP] > 0;
    for (int i = 0; i < 3; i++)
      ok = ok && close_(w[IU + i], q.v[i], sc) && close_(w[IA + i], q.B[i], 3 + fabsl(q.B[i]));
    ok = ok && close_((ld)c * c, (ld)g * w[IP] / q.r, (ld)g * w[IP] / q.r);
    if (!ok)
      mc::viol(N + ":constoprim_mhd", mc::fmt("face split %d: rho=%.17g p=%.17g v=(%.17g,%.17g,%.17g) B=(%.17g,%.17g,%.17g) c=%.17g", sp, w[ID], w[IP], w[IU], w[IV], w[IW], w[IA], w[IB], w[IC], c));
  }
  real_t pp, c, eint = (double)(q.p / (g - 1) / q.r);
  b.eos((double)q.r, eint, &pp, &c);
  if (!close_(pp, q.p, q.p) || !close_((ld)c * c, cs2, cs2))
    mc::viol(N + ":eos", mc::fmt("p=%.17g c=%.17g", (double)pp, (double)c));

  MHDState wq;
  wq[ID] = (double)q.r, wq[IP] = (double)q.p;
  for (int i = 0; i < 3; i++)
    wq[IU + i] = (double)q.v[i], wq[IA + i] = (double)q.B[i];
  ld   cf[3];
  for (int d = 0; d < 3; d++)
  {
    ld bn = q.B[d] * q.B[d] / q.r;
    cf[d] = sqrtl(0.5L * (cs2 + b2 + sqrtl((cs2 + b2) * (cs2 + b2) - 4 * cs2 * bn)));
  }
  // the difference of squares loses digits near its zero: absolute error of the root ~ sqrt(eps)
  auto spd = [&](const char * what, double got, ld want, int d) {
    ld bn = q.B[d] * q.B[d] / q.r, D = ((cs2 + b2) * (cs2 + b2) - 4 * cs2 * bn) / ((cs2 + b2) * (cs2 + b2));
    ld tol = D > 1e-4L ? 1e-11L : 1e-7L;
    if (!(fabsl(got - want) <= tol * (want + sc)))
      mc::viol(N + ":" + what + mc::fmt(" direction %d", d), mc::fmt("%.17g, expected %.17Lg", got, want));
  };
  spd("find_speed_fast", find_speed_fast<IX>(wq, p), cf[0], 0);
  spd("find_speed_fast", find_speed_fast<IY>(wq, p), cf[1], 1);
  spd("find_speed_fast", find_speed_fast<IZ>(wq, p), cf[2], 2);
  real_t s2[3] = { -1, -1, -1 }, s3[3] = { -1, -1, -1 };
  fast_mhd_speed<TWO_D>(wq, s2, p);
  fast_mhd_speed<THREE_D>(wq, s3, p);
  for (int d = 0; d < 3; d++)
  {
    if (d < 2)
      spd("fast_mhd_speed 2D", s2[d], cf[d], d);
    spd("fast_mhd_speed 3D", s3[d], cf[d], d);
  }
  find_speed_info<TWO_D>(wq, s2, p);
  find_speed_info<THREE_D>(wq, s3, p);
  for (int d = 0; d < 3; d++)
  {
    if (d < 2)
      spd("find_speed_info 2D", s2[d], cf[d] + fabsl(q.v[d]), d);
    spd("find_speed_info 3D", s3[d], cf[d] + fabsl(q.v[d]), d);
  }
  spd("find_speed_info 1D", find_speed_info(wq, p), cf[0] + fabsl(q.v[0]), 0);
  if (!close_(find_speed_alfven(wq), fabsl(q.B[0]) / sqrtl(q.r), sc) || !close_(find_speed_alfven(wq[ID], wq[IA]), fabsl(q.B[0]) / sqrtl(q.r), sc))
    mc::viol(N + ":find_speed_alfven", mc::fmt("%.17g", (double)find_speed_alfven(wq)));
  find_mhd_flux(wq, cv, ff, p);
  ld F[8];
  flux_ref(q, g, 0, F);
  for (int i = 0; i < 8; i++)
  {
    ld s = i == 0 ? q.r * sc : i == 1 ? esc * sc : i < 5 ? q.r * sc * sc : sc * sc * sqrtl(q.r) + sc;
    if (!close_(ff[i], F[i], s))
      mc::viol(N + mc::fmt(":find_mhd_flux variable %d", i), mc::fmt("%.17g, expected %.17Lg", (double)ff[i], F[i]));
    if (!close_(cv[i], U[i], i == 1 ? esc : fabsl(U[i]) + 1e-3L))
      mc::viol(N + mc::fmt(":find_mhd_flux conservative variable %d", i), mc::fmt("%.17g, expected %.17Lg", (double)cv[i], U[i]));
  }
  mc::stat("mhd_states"), mc::stat("executions"), mc::stat("transitions", 10);
}

// ---------------------------------------------------------------- viscous stress
template <int dim>
static void
visc(const int * g, double mu, int vi, int fi)
{
  using E = EulerEquations<dim>;
  typename E::GradTensor G = {};
  typename E::Vector     v = {}, f = {};
  static const double    GV[3] = { 0, -1.25, 2.5 };
  double                 du[3][3] = {}; // du[i][j] = d u_i / d x_j
  for (int i = 0; i < dim; i++)
    for (int j = 0; j < dim; j++)
      du[i][j] = GV[g[i * dim + j]];
  G[E::U_X] = du[0][0], G[E::U_Y] = du[0][1], G[E::V_X] = du[1][0], G[E::V_Y] = du[1][1];
  if constexpr (dim == 3)
  {
    G[E::U_Z] = du[0][2], G[E::V_Z] = du[1][2];
    G[E::W_X] = du[2][0], G[E::W_Y] = du[2][1], G[E::W_Z] = du[2][2];
  }
  for (int i = 0; i < dim; i++)
    v[i] = vi ? (i == 0 ? 0.75 : i == 1 ? -1.5 : 3) * vi : 0, f[i] = fi ? 0.25 + i * fi : 0;
  double div = 0;
  for (int i = 0; i < dim; i++)
    div += du[i][i];
  for (int d = 0; d < dim; d++)
  {
    typename E::HydroState o;
    for (auto & x : o)
      x = NAN;
    if (d == 0)
      E::flux_visc_x(G, v, f, mu, o);
    else if (d == 1)
      E::flux_visc_y(G, v, f, mu, o);
    else if constexpr (dim == 3)
      E::flux_visc_z(G, v, f, mu, o);
    ld work = f[d];
    if (o[ID] != 0)
      mc::viol(mc::fmt("visc%dd:mass flux", dim), mc::fmt("direction %d: %g", d, (double)o[ID]));
    for (int i = 0; i < dim; i++)
    {
      ld tau = (ld)mu * (du[i][d] + du[d][i] - (i == d ? 2.0L * div / dim : 0));
      work += tau * v[i];
      if (!close_(o[IU + i], tau, 10 * mu + 1))
        mc::viol(mc::fmt("visc%dd:stress %d%d", dim, d, i), mc::fmt("%.17g, expected %.17Lg", (double)o[IU + i], tau));
    }
    if (!close_(o[IE], work, 100 * mu + 1))
      mc::viol(mc::fmt("visc%dd:work direction %d", dim, d), mc::fmt("%.17g, expected %.17Lg", (double)o[IE], work));
  }
  mc::stat("stress_states"), mc::stat("executions"), mc::stat("transitions", 10);
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  if (mc::A.get("mode") == "visc")
  {
    for (double mu : { 0.0, 0.5, 8.0 })
      for (int vi = 0; vi < 3; vi++)
        for (int fi = 0; fi < 2; fi++)
        {
          for (int a = 0; a < 81; a++)
          {
            int g[4], x = a;
            for (auto & y : g)
              y = x % 3, x /= 3;
            if (!mc::item(mc::fmt("stress 2D gradient %d mu=%g v=%d f=%d", a, mu, vi, fi)))
              continue;
            visc<2>(g, mu, vi, fi);
          }
          for (int a = 0; a < 19683; a++)
          {
            int g[9], x = a;
            for (auto & y : g)
              y = x % 3, x /= 3;
            if (!mc::item(mc::fmt("stress 3D gradient %d mu=%g v=%d f=%d", a, mu, vi, fi)))
              continue;
            visc<3>(g, mu, vi, fi);
          }
        }
    return mc::done();
  }
  std::vector<double> gam = { 1.40625, 1.6875, 1.125 }, rho = { 0.125, 1, 3.5, 1024 }, pre = { 0.015625, 1, 96 };
  std::vector<double> vel = { 0, -2.5, 0.75 }, bf = { 0, -1.5, 0.5 };
  if (mc::A.thorough)
  {
    gam.push_back(2), gam.push_back(1.015625);
    rho.push_back(0.0009765625), rho.push_back(7);
    pre.push_back(0.0009765625), pre.push_back(2048), pre.push_back(3);
    vel.push_back(40), vel.push_back(-0.03125);
    bf.push_back(20), bf.push_back(-0.0625);
  }
  for (double g : gam)
  {
    HydroParams h2 = params_for(false, 2, g), h3 = params_for(false, 3, g), m2 = params_for(true, 2, g), m3 = params_for(true, 3, g);
    for (double r : rho)
      for (double p : pre)
        for (double u : vel)
          for (double v : vel)
            for (double w : vel)
            {
              W q{ r, p, { u, v, w }, { 0, 0, 0 } };
              if (mc::item("hydro " + desc(q, g, 3)))
              {
                mc::state(mc::hash_bytes(&q.r, sizeof(W)) ^ (uint64_t)(g * 4096));
                muscl_state(q, g, h2, h3);
                euler_state<3>(q, g);
                if (w == 0)
                  euler_state<2>(q, g);
                // a state below the pressure floor still gets a positive pressure
                HydroState3d s, o;
                s[ID] = r, s[IU] = r * u, s[IV] = r * v, s[IW] = r * w;
                s[IE] = 0.5 * r * (u * u + v * v + w * w) * (1 - 1e-3) - p;
                EulerEquations<3>::convert_to_primitive(s, o, g);
                if (!(o[IP] > 0) || !(EulerEquations<3>::compute_pressure(s, g) > 0))
                  mc::viol("euler3d:floor", mc::fmt("pressure %g of a state without internal energy", (double)o[IP]));
                HydroState2d s2, o2;
                s2[ID] = r, s2[IU] = r * u, s2[IV] = r * v, s2[IE] = s[IE];
                EulerEquations<2>::convert_to_primitive(s2, o2, g);
                if (s[IE] < 0.5 * r * (u * u + v * v))
                  if (!(o2[IP] > 0) || !(EulerEquations<2>::compute_pressure(s2, g) > 0))
                    mc::viol("euler2d:floor", mc::fmt("pressure %g of a state without internal energy", (double)o2[IP]));
              }
              for (double a : bf)
                for (double b : bf)
                  for (double c : bf)
                  {
                    W m{ r, p, { u, v, w }, { a, b, c } };
                    if (!mc::item("mhd " + desc(m, g, 3)))
                      continue;
                    ld h[9] = { m.r, m.p, u, v, w, a, b, c, g };
                    double hd[9];
                    for (int i = 0; i < 9; i++)
                      hd[i] = (double)h[i];
                    mc::state(mc::hash_bytes(hd, sizeof hd));
                    mhd_state<muscl::MHDBaseFunctor2D>("mhd2d", m, g, m2);
                    mhd_state<muscl::MHDBaseFunctor3D>("mhd3d", m, g, m3);
                  }
            }
  }
  return mc::done();
}
