// All pairs of states from product alphabets through every Riemann solver of the
// real code, against the textbook formula of the named solver and against the
// properties any Riemann flux must have.
#include "fv.h"
#include "shared/RiemannSolvers.h"
#include "shared/RiemannSolvers_MHD.h"
using namespace fv;

typedef long double ld;

static HydroParams
params_for(const std::string & rs, bool mhd, int dim, double gamma)
{
  Cfg c;
  c.mhd = mhd, c.dim = dim, c.riemann = rs, c.gamma = gamma;
  std::string ini = c.ini();
  char *      b = (char *)malloc(ini.size() + 1);
  memcpy(b, ini.data(), ini.size());
  b[ini.size()] = 0;
  ConfigMap cm(b, (int)ini.size());
  HydroParams p;
  p.setup(cm);
  return p;
}

// ------------------------------------------------------------ hydro
struct HS
{
  ld r, p, u, v, w;
};

static void
phys(const HS & q, ld g, ld * F, ld * U)
{
  ld e = q.p / (g - 1) + 0.5L * q.r * (q.u * q.u + q.v * q.v + q.w * q.w);
  U[0] = q.r, U[1] = e, U[2] = q.r * q.u, U[3] = q.r * q.v, U[4] = q.r * q.w;
  F[0] = q.r * q.u;
  F[1] = (e + q.p) * q.u;
  F[2] = q.r * q.u * q.u + q.p;
  F[3] = q.r * q.u * q.v;
  F[4] = q.r * q.u * q.w;
}

static ld
snd(const HS & q, ld g)
{
  return sqrtl(g * q.p / q.r);
}

static bool
approx_ref(const HS & l, const HS & r, ld g, ld * F, ld & cond)
{
  // two-shock star state, linear fan sampling (van Leer / RAMSES)
  ld   g6 = (g + 1) / (2 * g), cl = g * l.p * l.r, cr = g * r.p * r.r;
  auto W = [&](ld c, ld p, ld p0) { return sqrtl(c * (1 + g6 * (p - p0) / p0)); };
  auto f = [&](ld p) { return (p - l.p) / W(cl, p, l.p) + (p - r.p) / W(cr, p, r.p) + r.u - l.u; };
  if (f(1e-14L * fminl(l.p, r.p)) > 0)
    return false; // vacuum forms
  ld lo = 1e-14L * fminl(l.p, r.p), hi = fmaxl(l.p, r.p);
  while (f(hi) < 0)
    hi *= 2;
  for (int i = 0; i < 200; i++)
  {
    ld m = 0.5L * (lo + hi);
    (f(m) < 0 ? lo : hi) = m;
  }
  ld ps = 0.5L * (lo + hi), wl = W(cl, ps, l.p), wr = W(cr, ps, r.p);
  ld us = 0.5L * (l.u + (l.p - ps) / wl + r.u - (r.p - ps) / wr);
  // the Newton iteration of the code stops after 10 steps: poorly convergent
  // (near-vacuum) problems are not compared
  cond = ps / fminl(l.p, r.p);
  ld   s = us >= 0 ? 1 : -1;
  HS   o = s > 0 ? l : r;
  ld   wo = s > 0 ? wl : wr;
  ld   co = snd(o, g);
  ld   rs = o.r / (1 + o.r * (o.p - ps) / (wo * wo));
  if (rs <= 0)
    return false;
  ld cs = sqrtl(g * ps / rs);
  ld spout = co - s * o.u, spin = cs - s * us;
  if (ps >= o.p)
    spin = spout = wo / o.r - s * o.u;
  HS q = o;
  if (spout < 0)
    ;
  else if (spin > 0)
    q.r = rs, q.u = us, q.p = ps;
  else
  {
    ld fr = 0.5L * (1 + (spout + spin) / fmaxl(spout - spin, 1e-10L + fabsl(spout + spin)));
    fr = fr > 1 ? 1 : fr < 0 ? 0 : fr;
    q.r = fr * rs + (1 - fr) * o.r, q.u = fr * us + (1 - fr) * o.u, q.p = fr * ps + (1 - fr) * o.p;
  }
  ld U[5];
  phys(q, g, F, U);
  return true;
}

static bool
hydro_ref(const std::string & rs, const HS & l, const HS & r, ld g, ld * F, ld & tol)
{
  ld FL[5], UL[5], FR[5], UR[5];
  phys(l, g, FL, UL);
  phys(r, g, FR, UR);
  ld cl = snd(l, g), cr = snd(r, g);
  tol = 1e-11L;
  if (rs == "llf")
  {
    ld s = fmaxl(fabsl(l.u) + cl, fabsl(r.u) + cr);
    for (int v = 0; v < 5; v++)
      F[v] = 0.5L * (FL[v] + FR[v]) - 0.5L * s * (UR[v] - UL[v]);
    return true;
  }
  ld SL = fminl(l.u, r.u) - fmaxl(cl, cr), SR = fmaxl(l.u, r.u) + fmaxl(cl, cr);
  if (rs == "hll")
  {
    ld a = fminl(SL, 0), b = fmaxl(SR, 0);
    for (int v = 0; v < 5; v++)
      F[v] = (b * FL[v] - a * FR[v] + a * b * (UR[v] - UL[v])) / (b - a);
    return true;
  }
  if (rs == "hllc")
  {
    // Toro section 10.4
    ld S = (r.p - l.p + l.r * l.u * (SL - l.u) - r.r * r.u * (SR - r.u)) / (l.r * (SL - l.u) - r.r * (SR - r.u));
    auto star = [&](const HS & q, ld K, const ld * U, ld * D) {
      ld f = q.r * (K - q.u) / (K - S);
      D[0] = f;
      D[2] = f * S;
      D[3] = f * q.v;
      D[4] = f * q.w;
      D[1] = f * (U[1] / q.r + (S - q.u) * (S + q.p / (q.r * (K - q.u))));
    };
    ld D[5];
    if (SL >= 0)
      memcpy(F, FL, sizeof FL);
    else if (S >= 0)
    {
      star(l, SL, UL, D);
      for (int v = 0; v < 5; v++)
        F[v] = FL[v] + SL * (D[v] - UL[v]);
    }
    else if (SR >= 0)
    {
      star(r, SR, UR, D);
      for (int v = 0; v < 5; v++)
        F[v] = FR[v] + SR * (D[v] - UR[v]);
    }
    else
      memcpy(F, FR, sizeof FR);
    return true;
  }
  ld cond;
  if (!approx_ref(l, r, g, F, cond) || cond < 0.1L)
    return false;
  tol = 3e-4L; // the code stops its iteration at 1e-6 in pressure
  return true;
}

template <class State, int NV>
static void
call_hydro(const HS & l, const HS & r, const HydroParams & p, double * F)
{
  State a, b, g, f;
  a[ID] = l.r, a[IP] = l.p, a[IU] = l.u, a[IV] = l.v;
  b[ID] = r.r, b[IP] = r.p, b[IU] = r.u, b[IV] = r.v;
  if (NV == 5)
    a[NV - 1] = l.w, b[NV - 1] = r.w;
  for (int v = 0; v < NV; v++)
    f[v] = g[v] = NAN;
  riemann_hydro(a, b, g, f, p);
  F[4] = 0;
  for (int v = 0; v < NV; v++)
    F[v] = f[v];
}

static bool
close(const double * a, const ld * b, int nv, ld tol, ld scale, int * where)
{
  for (int v = 0; v < nv; v++)
    if (!(fabsl(a[v] - b[v]) <= tol * scale))
    {
      *where = v;
      return false;
    }
  return true;
}

static std::string
show(const HS & l, const HS & r)
{
  return mc::fmt("L=(rho %Lg p %Lg u %Lg %Lg %Lg) R=(rho %Lg p %Lg u %Lg %Lg %Lg)", l.r, l.p, l.u, l.v, l.w, r.r, r.p, r.u, r.v, r.w);
}

template <class State, int NV>
static void
hydro_dim(const std::string & rs, double gam)
{
  int         dim = NV == 4 ? 2 : 3;
  HydroParams P = params_for(rs, false, dim, gam);
  ld          g = P.settings.gamma0;
  std::string K = rs + (dim == 2 ? ":2D" : ":3D");
  std::vector<HS> A;
  std::vector<ld> R = { 0.125L, 1, 5 }, Pp = { 0.05L, 1, 8 }, U = { -4, -0.5L, 0, 0.3L, 5 }, V = { -1, 0.75L };
  if (mc::A.thorough)
    R = { 0.125L, 0.4L, 1, 1.5L, 5 }, Pp = { 0.05L, 0.3L, 1, 1.7L, 8 }, U = { -4, -1.2L, -0.5L, 0, 1e-3L, 0.3L, 2, 5 };
  for (ld r : R)
    for (ld p : Pp)
      for (ld u : U)
        for (ld v : V)
          A.push_back({ r, p, u, v, dim == 3 ? 0.3L - v : 0 });
  for (const HS & l : A)
    for (const HS & r : A)
    {
      mc::stat("transitions");
      double F[5], M[5];
      call_hydro<State, NV>(l, r, P, F);
      mc::state(mc::hash_bytes(F, sizeof F));
      ld FL[5], UL[5], FR[5], UR[5];
      phys(l, g, FL, UL);
      phys(r, g, FR, UR);
      ld scale = 0;
      ld smax = fmaxl(fabsl(l.u) + snd(l, g), fabsl(r.u) + snd(r, g));
      for (int v = 0; v < NV; v++)
        scale = fmaxl(scale, fmaxl(fabsl(FL[v]) + smax * fabsl(UL[v]), fabsl(FR[v]) + smax * fabsl(UR[v])));
      int  w = -1;
      bool fin = true;
      for (int v = 0; v < NV; v++)
        fin = fin && std::isfinite(F[v]);
      if (!fin)
      {
        mc::viol("finite:" + K, "non-finite flux for " + show(l, r));
        continue;
      }
      if (&l == &r && !close(F, FL, NV, 1e-12L, scale, &w))
        mc::viol("consistent:" + K, mc::fmt("flux of equal states differs from the physical flux in component %d: %.15g vs %.15Lg, ", w, F[w], FL[w]) + show(l, r));
      // mirror
      HS ml = r, mr = l;
      ml.u = -ml.u, mr.u = -mr.u;
      call_hydro<State, NV>(ml, mr, P, M);
      ld E[5] = { -M[0], -M[1], M[2], -M[3], -M[4] };
      if (!close(F, E, NV, 1e-11L, scale, &w))
        mc::viol("mirror:" + K, mc::fmt("component %d: %.15g, mirrored problem gives %.15Lg, ", w, F[w], E[w]) + show(l, r));
      // textbook
      ld T[5], tol, S = fminl(l.u, r.u) - fmaxl(snd(l, g), snd(r, g)), SR = fmaxl(l.u, r.u) + fmaxl(snd(l, g), snd(r, g));
      if (hydro_ref(rs, l, r, g, T, tol))
      {
        mc::stat("executions");
        ld d = 0;
        for (int v = 0; v < NV; v++)
          d = fmaxl(d, fabsl(F[v] - T[v]) / scale);
        mc::maxstat(("textbook_difference_" + rs).c_str(), (double)d);
        if (!close(F, T, NV, tol, scale, &w))
          mc::viol("formula:" + K, mc::fmt("component %d is %.15g, the %s formula gives %.15Lg, ", w, F[w], rs.c_str(), T[w]) + show(l, r));
      }
      // upwinding
      if (rs == "hll" || rs == "hllc")
      {
        if (S > 0 && !close(F, FL, NV, 1e-11L, scale, &w))
          mc::viol("upwind:" + K, "supersonic to the right but flux is not that of the left state, " + show(l, r));
        if (SR < 0 && !close(F, FR, NV, 1e-11L, scale, &w))
          mc::viol("upwind:" + K, "supersonic to the left but flux is not that of the right state, " + show(l, r));
      }
      // isolated stationary contact
      if ((rs == "hllc" || rs == "approx") && l.u == 0 && r.u == 0 && l.p == r.p)
      {
        ld C[5] = { 0, 0, l.p, 0, 0 };
        if (!close(F, C, NV, 1e-12L, scale, &w))
          mc::viol("contact:" + K, mc::fmt("stationary contact has flux[%d]=%.15g, ", w, F[w]) + show(l, r));
      }
    }
  mc::sample(mc::fmt("riemann %s %dD gamma=%g: all %zu^2 pairs", rs.c_str(), dim, (double)g, A.size()));
}

// ------------------------------------------------------------ MHD
struct MS
{
  ld r, p, u, v, w, a, b, c;
};

static void
physm(const MS & q, ld g, ld * F, ld * U)
{
  ld B2 = q.a * q.a + q.b * q.b + q.c * q.c, e = q.p / (g - 1) + 0.5L * q.r * (q.u * q.u + q.v * q.v + q.w * q.w) + 0.5L * B2;
  ld pt = q.p + 0.5L * B2;
  U[0] = q.r, U[1] = e, U[2] = q.r * q.u, U[3] = q.r * q.v, U[4] = q.r * q.w, U[5] = q.a, U[6] = q.b, U[7] = q.c;
  F[0] = q.r * q.u;
  F[1] = (e + pt) * q.u - q.a * (q.a * q.u + q.b * q.v + q.c * q.w);
  F[2] = q.r * q.u * q.u + pt - q.a * q.a;
  F[3] = q.r * q.u * q.v - q.a * q.b;
  F[4] = q.r * q.u * q.w - q.a * q.c;
  F[5] = 0;
  F[6] = q.b * q.u - q.a * q.v;
  F[7] = q.c * q.u - q.a * q.w;
}

static ld
fast(const MS & q, ld g, int d = 0)
{
  ld n = d == 0 ? q.a : d == 1 ? q.b : q.c;
  ld B2 = (q.a * q.a + q.b * q.b + q.c * q.c) / q.r, c2 = g * q.p / q.r, s = B2 + c2;
  return sqrtl(0.5L * (s + sqrtl(fmaxl(0, s * s - 4 * c2 * n * n / q.r))));
}

//! Miyoshi & Kusano 2005; returns false in degenerate (0/0) star states
static bool
hlld_ref(const MS & l, const MS & r, ld g, ld * F)
{
  ld FL[8], UL[8], FR[8], UR[8];
  physm(l, g, FL, UL);
  physm(r, g, FR, UR);
  ld c = fmaxl(fast(l, g), fast(r, g)), SL = fminl(l.u, r.u) - c, SR = fmaxl(l.u, r.u) + c;
  if (fabsl(SL) < 1e-9L || fabsl(SR) < 1e-9L)
    return false;
  ld a = l.a;
  ld ptl = l.p + 0.5L * (l.a * l.a + l.b * l.b + l.c * l.c), ptr = r.p + 0.5L * (r.a * r.a + r.b * r.b + r.c * r.c);
  ld dl = (SL - l.u) * l.r, dr = (SR - r.u) * r.r;
  ld SM = (dr * r.u - dl * l.u - ptr + ptl) / (dr - dl);
  ld pts = (dr * ptl - dl * ptr + dl * dr * (r.u - l.u)) / (dr - dl);
  bool deg = false;
  auto star = [&](const MS & q, ld S, ld pt, const ld * U, ld * D, MS & o) {
    ld d = q.r * (S - q.u);
    o = q;
    o.r = d / (S - SM);
    o.u = SM;
    ld den = d * (S - SM) - a * a;
    if (fabsl(den) < 1e-6L * (fabsl(d * (S - SM)) + a * a))
    {
      // transverse field and velocity are continuous in the degenerate case;
      // only exactly zero transverse field is comparable
      if (q.b != 0 || q.c != 0)
        deg = true;
    }
    else
    {
      o.v = q.v - a * q.b * (SM - q.u) / den;
      o.w = q.w - a * q.c * (SM - q.u) / den;
      ld m = (d * (S - q.u) - a * a) / den;
      o.b = q.b * m, o.c = q.c * m;
    }
    ld vb = q.u * q.a + q.v * q.b + q.w * q.c, vbs = SM * a + o.v * o.b + o.w * o.c;
    D[0] = o.r, D[2] = o.r * SM, D[3] = o.r * o.v, D[4] = o.r * o.w, D[5] = a, D[6] = o.b, D[7] = o.c;
    D[1] = ((S - q.u) * U[1] - pt * q.u + pts * SM + a * (vb - vbs)) / (S - SM);
  };
  ld DL[8], DR[8];
  MS sl, sr;
  star(l, SL, ptl, UL, DL, sl);
  star(r, SR, ptr, UR, DR, sr);
  if (deg)
    return false;
  ld ql = sqrtl(sl.r), qr = sqrtl(sr.r), sg = a >= 0 ? 1 : -1;
  ld SAL = SM - fabsl(a) / ql, SAR = SM + fabsl(a) / qr;
  // the estimates of the fast waves bound the Alfven waves, or the fan is not ordered
  if (!(SL < SM && SM < SR && SAL - SL > -1e-9L && SR - SAR > -1e-9L))
    return false;
  if (SL > 0)
    return memcpy(F, FL, sizeof FL), true;
  if (SR < 0)
    return memcpy(F, FR, sizeof FR), true;
  ld vv = (ql * sl.v + qr * sr.v + (sr.b - sl.b) * sg) / (ql + qr), ww = (ql * sl.w + qr * sr.w + (sr.c - sl.c) * sg) / (ql + qr);
  ld bb = (ql * sr.b + qr * sl.b + ql * qr * (sr.v - sl.v) * sg) / (ql + qr), cc = (ql * sr.c + qr * sl.c + ql * qr * (sr.w - sl.w) * sg) / (ql + qr);
  ld vbss = SM * a + vv * bb + ww * cc;
  auto dstar = [&](const MS & s, const ld * D, ld q, ld sign, ld * E) {
    ld vbs = SM * a + s.v * s.b + s.w * s.c;
    E[0] = s.r, E[2] = s.r * SM, E[3] = s.r * vv, E[4] = s.r * ww, E[5] = a, E[6] = bb, E[7] = cc;
    E[1] = D[1] - sign * q * (vbs - vbss) * sg;
  };
  ld EL[8], ER[8];
  dstar(sl, DL, ql, 1, EL);
  dstar(sr, DR, qr, -1, ER);
  // ties of a wave speed with 0 are resolved either way with the same flux
  if (SAL >= 0)
    for (int v = 0; v < 8; v++)
      F[v] = FL[v] + SL * (DL[v] - UL[v]);
  else if (SM >= 0)
    for (int v = 0; v < 8; v++)
      F[v] = FL[v] + SAL * (EL[v] - DL[v]) + SL * (DL[v] - UL[v]);
  else if (SAR >= 0)
    for (int v = 0; v < 8; v++)
      F[v] = FR[v] + SAR * (ER[v] - DR[v]) + SR * (DR[v] - UR[v]);
  else
    for (int v = 0; v < 8; v++)
      F[v] = FR[v] + SR * (DR[v] - UR[v]);
  F[5] = 0;
  return true;
}

static bool
mhd_ref(const std::string & rs, const MS & l, const MS & r, ld g, ld * F)
{
  ld FL[8], UL[8], FR[8], UR[8];
  physm(l, g, FL, UL);
  physm(r, g, FR, UR);
  if (rs == "llf")
  {
    ld s = fmaxl(fabsl(l.u) + fast(l, g), fabsl(r.u) + fast(r, g));
    for (int v = 0; v < 8; v++)
      F[v] = 0.5L * (FL[v] + FR[v]) - 0.5L * s * (UR[v] - UL[v]);
    return true;
  }
  if (rs == "hll")
  {
    ld c = fmaxl(fast(l, g), fast(r, g)), a = fminl(0, fminl(l.u, r.u) - c), b = fmaxl(0, fmaxl(l.u, r.u) + c);
    for (int v = 0; v < 8; v++)
      F[v] = (b * FL[v] - a * FR[v] + a * b * (UR[v] - UL[v])) / (b - a);
    return true;
  }
  return hlld_ref(l, r, g, F);
}

static void
call_mhd(const MS & l, const MS & r, const HydroParams & p, double * F)
{
  MHDState a, b, f;
  a[ID] = l.r, a[IP] = l.p, a[IU] = l.u, a[IV] = l.v, a[IW] = l.w, a[IA] = l.a, a[IB] = l.b, a[IC] = l.c;
  b[ID] = r.r, b[IP] = r.p, b[IU] = r.u, b[IV] = r.v, b[IW] = r.w, b[IA] = r.a, b[IB] = r.b, b[IC] = r.c;
  for (int v = 0; v < 8; v++)
    f[v] = NAN;
  riemann_mhd(a, b, f, p);
  for (int v = 0; v < 8; v++)
    F[v] = f[v];
}

static std::string
show(const MS & l)
{
  return mc::fmt("(rho %Lg p %Lg v %Lg %Lg %Lg B %Lg %Lg %Lg)", l.r, l.p, l.u, l.v, l.w, l.a, l.b, l.c);
}

static std::vector<MS>
mhd_alphabet(ld gam)
{
  std::vector<MS> A;
  std::vector<ld> R = { 0.25L, 1, 4 }, Pp = { 0.0625L, 1, 5 }, U = { -3, -0.375L, 0, 0.6875L, 4 };
  ld              B[5][3] = { { 0, 0, 0 }, { .5L, .25L, -.25L }, { 1.5L, 0, 0 }, { 0, .75L, .375L }, { -.625L, 1, -1 } };
  if (mc::A.thorough)
    R = { 0.25L, 0.5L, 1, 4 }, Pp = { 0.0625L, 0.5L, 1, 5 };
  for (ld r : R)
    for (ld p : Pp)
      for (ld u : U)
        for (int t = 0; t < 2; t++)
          for (auto & b : B)
            A.push_back({ r, p, u, t ? -.75L : .5L, t ? .25L : -.375L, b[0], b[1], b[2] });
  return A;
}

static void
mhd_pairs(const std::string & rs, double gam, int part, int nparts)
{
  HydroParams     P = params_for(rs, true, 3, gam);
  HydroParams     H = params_for(rs == "hlld" ? "hllc" : rs, false, 3, gam);
  ld              g = P.settings.gamma0;
  std::vector<MS> A = mhd_alphabet(g);
  for (size_t il = part; il < A.size(); il += nparts)
    for (const MS & r0 : A)
    {
      MS l = A[il], r = r0;
      // the normal field is continuous: both take the average, as the solvers do
      l.a = r.a = 0.5L * (l.a + r.a);
      mc::stat("transitions");
      double F[8], M[8];
      call_mhd(l, r, P, F);
      mc::state(mc::hash_bytes(F, sizeof F));
      ld FL[8], UL[8], FR[8], UR[8];
      physm(l, g, FL, UL);
      physm(r, g, FR, UR);
      ld scale = 0, smax = fmaxl(fabsl(l.u) + fast(l, g), fabsl(r.u) + fast(r, g));
      for (int v = 0; v < 8; v++)
        scale = fmaxl(scale, fmaxl(fabsl(FL[v]) + smax * fabsl(UL[v]), fabsl(FR[v]) + smax * fabsl(UR[v])));
      bool fin = true;
      for (double x : F)
        fin = fin && std::isfinite(x);
      std::string S = "L=" + show(l) + " R=" + show(r);
      if (!fin)
      {
        mc::viol("finite:mhd:" + rs, "non-finite flux for " + S);
        continue;
      }
      int w;
      if (il == (size_t)(&r0 - &A[0]) && !close(F, FL, 8, 1e-11L, scale, &w))
        mc::viol("consistent:mhd:" + rs, mc::fmt("component %d: %.15g vs %.15Lg ", w, F[w], FL[w]) + S);
      ld T[8];
      bool ref = mhd_ref(rs, l, r, g, T);
      if (ref)
      {
        mc::stat("executions");
        ld d = 0;
        for (int v = 0; v < 8; v++)
          d = fmaxl(d, fabsl(F[v] - T[v]) / scale);
        mc::maxstat(("textbook_difference_mhd_" + rs).c_str(), (double)d);
        if (!close(F, T, 8, 1e-9L, scale, &w))
          mc::viol("formula:mhd:" + rs, mc::fmt("component %d is %.15g, the %s formula gives %.15Lg, ", w, F[w], rs.c_str(), T[w]) + S);
      }
      else
        mc::stat("degenerate_pairs");
      // mirror x: u and Bn change sign
      MS ml = r, mr = l;
      ml.u = -ml.u, mr.u = -mr.u, ml.a = -ml.a, mr.a = -mr.a;
      call_mhd(ml, mr, P, M);
      ld E[8] = { -M[0], -M[1], M[2], -M[3], -M[4], M[5], -M[6], -M[7] };
      if (ref && !close(F, E, 8, 1e-9L, scale, &w))
        mc::viol("mirror:mhd:" + rs, mc::fmt("component %d: %.15g mirrored %.15Lg ", w, F[w], E[w]) + S);
      // B -> -B
      ml = l, mr = r;
      ml.a = -l.a, ml.b = -l.b, ml.c = -l.c, mr.a = -r.a, mr.b = -r.b, mr.c = -r.c;
      call_mhd(ml, mr, P, M);
      ld E2[8] = { M[0], M[1], M[2], M[3], M[4], -M[5], -M[6], -M[7] };
      if (ref && !close(F, E2, 8, 1e-9L, scale, &w))
        mc::viol("flipB:mhd:" + rs, mc::fmt("component %d: %.15g, B reversed %.15Lg ", w, F[w], E2[w]) + S);
      // y <-> z
      ml = l, mr = r;
      std::swap(ml.v, ml.w), std::swap(ml.b, ml.c), std::swap(mr.v, mr.w), std::swap(mr.b, mr.c);
      call_mhd(ml, mr, P, M);
      ld E3[8] = { M[0], M[1], M[2], M[4], M[3], M[5], M[7], M[6] };
      if (ref && !close(F, E3, 8, 1e-9L, scale, &w))
        mc::viol("swap:mhd:" + rs, mc::fmt("component %d: %.15g, swapped %.15Lg ", w, F[w], E3[w]) + S);
      // no field: the hydro solver
      bool zero = l.a == 0 && l.b == 0 && l.c == 0 && r.b == 0 && r.c == 0;
      if (zero)
      {
        double h[5];
        call_hydro<HydroState3d, 5>({ l.r, l.p, l.u, l.v, l.w }, { r.r, r.p, r.u, r.v, r.w }, H, h);
        ld E4[8] = { h[0], h[1], h[2], h[3], h[4], 0, 0, 0 };
        if (!close(F, E4, 8, 1e-10L, scale, &w))
          mc::viol("nofield:mhd:" + rs, mc::fmt("component %d: %.15g but hydro %.15Lg ", w, F[w], E4[w]) + S);
      }
    }
  if (part == 0)
    mc::sample(mc::fmt("riemann mhd %s gamma=%g: all %zu^2 pairs", rs.c_str(), (double)g, A.size()));
}

//! resonant states: sound speed equal or nearly equal to the Alfven speed along
//! the normal, no transverse field (the square roots lose all their digits)
static void
mhd_resonant(const std::string & rs, double gam)
{
  HydroParams P = params_for(rs, true, 3, gam);
  ld          g = P.settings.gamma0;
  int         n = mc::A.thorough ? 60 : 24;
  for (int ir = 1; ir <= n; ir++)
    for (int ip = 1; ip <= n; ip++)
      for (int e = -2; e <= 2; e++)
        for (int d = 0; d < 3; d++)
        {
          double r = 0.11 * ir, p = 0.13 * ip, B = sqrt((double)g * p);
          for (int s = 0; s < abs(e); s++)
            B = nextafter(B, e > 0 ? 1e9 : -1e9);
          MS l{ r, p, 0.3L, 0, 0, 0, 0, 0 };
          (d == 0 ? l.a : d == 1 ? l.b : l.c) = B;
          double F[8];
          call_mhd(l, l, P, F);
          mc::stat("transitions");
          ld FL[8], UL[8];
          physm(l, g, FL, UL);
          ld scale = 0;
          for (int v = 0; v < 8; v++)
            scale = fmaxl(scale, fabsl(FL[v]) + 10 * fabsl(UL[v]));
          int w = 0;
          if (!close(F, FL, 8, 1e-7L, scale, &w))
            mc::viol("resonant:mhd:" + rs, mc::fmt("component %d is %.15g, physical flux %.15Lg for equal states ", w, F[w], FL[w]) + show(l));
          mc::stat("executions");
        }
  mc::sample("resonant states " + rs);
}

// ------------------------------------------------------------ edge EMF
static ld
emf_ref(const MS * q, ld g) // q[x][y]: LL=0 RL=1 LR=2 RR=3 (x first), field already continuous
{
  const MS &LL = q[0], &RL = q[1], &LR = q[2], &RR = q[3];
  auto      mx = [](ld a, ld b, ld c, ld d) { return fmaxl(fmaxl(a, b), fmaxl(c, d)); };
  auto      mn = [](ld a, ld b, ld c, ld d) { return fminl(fminl(a, b), fminl(c, d)); };
  ld        cx = mx(fast(LL, g, 0), fast(RL, g, 0), fast(LR, g, 0), fast(RR, g, 0));
  ld        cy = mx(fast(LL, g, 1), fast(RL, g, 1), fast(LR, g, 1), fast(RR, g, 1));
  ld        SL = mn(LL.u, RL.u, LR.u, RR.u) - cx, SR = mx(LL.u, RL.u, LR.u, RR.u) + cx;
  ld        SB = mn(LL.v, RL.v, LR.v, RR.v) - cy, ST = mx(LL.v, RL.v, LR.v, RR.v) + cy;
  auto      pt = [](const MS & s) { return s.p + 0.5L * (s.a * s.a + s.b * s.b + s.c * s.c); };
  ld        xl = LL.r * (LL.u - SL), xL = LR.r * (LR.u - SL), xr = RL.r * (SR - RL.u), xR = RR.r * (SR - RR.u);
  ld        us = (xl * LL.u + xL * LR.u + xr * RL.u + xR * RR.u + pt(LL) - pt(RL) + pt(LR) - pt(RR)) / (xl + xL + xr + xR);
  ld        yb = LL.r * (LL.v - SB), yB = RL.r * (RL.v - SB), yt = LR.r * (ST - LR.v), yT = RR.r * (ST - RR.v);
  ld        vs = (yb * LL.v + yB * RL.v + yt * LR.v + yT * RR.v + pt(LL) - pt(LR) + pt(RL) - pt(RR)) / (yb + yB + yt + yT);
  struct St
  {
    ld fx, fy, A, B, Ex, Ey, E, rx, ry, r;
  } s[4];
  for (int k = 0; k < 4; k++)
  {
    ld X = (k & 1) ? SR : SL, Y = (k & 2) ? ST : SB;
    s[k].fx = (X - q[k].u) / (X - us), s[k].fy = (Y - q[k].v) / (Y - vs);
    s[k].A = q[k].a * s[k].fy, s[k].B = q[k].b * s[k].fx;
    s[k].Ex = us * s[k].B - q[k].v * q[k].a;
    s[k].Ey = q[k].u * q[k].b - vs * s[k].A;
    s[k].E = us * s[k].B - vs * s[k].A;
    s[k].rx = q[k].r * s[k].fx, s[k].ry = q[k].r * s[k].fy, s[k].r = q[k].r * s[k].fx * s[k].fy;
  }
  auto ca = [&](int i, int j, bool x) {
    ld m = 1e-10L;
    for (int k : { i, j })
    {
      m = fmaxl(m, x ? fabsl(q[k].a) / sqrtl(s[k].rx) : fabsl(q[k].b) / sqrtl(s[k].ry));
      m = fmaxl(m, (x ? fabsl(s[k].A) : fabsl(s[k].B)) / sqrtl(s[k].r));
    }
    return m;
  };
  ld AL = fminl(0, us - ca(0, 2, true)), AR = fmaxl(0, us + ca(1, 3, true)), AB = fminl(0, vs - ca(0, 1, false)), AT = fmaxl(0, vs + ca(2, 3, false));
  auto E = [&](int k) { return q[k].u * q[k].b - q[k].v * q[k].a; };
  if (SB > 0)
    return SL > 0 ? E(0) : SR < 0 ? E(1) : (AR * s[0].Ex - AL * s[1].Ex + AR * AL * (RL.b - LL.b)) / (AR - AL);
  if (ST < 0)
    return SL > 0 ? E(2) : SR < 0 ? E(3) : (AR * s[2].Ex - AL * s[3].Ex + AR * AL * (RR.b - LR.b)) / (AR - AL);
  if (SL > 0)
    return (AT * s[0].Ey - AB * s[2].Ey - AT * AB * (LR.a - LL.a)) / (AT - AB);
  if (SR < 0)
    return (AT * s[1].Ey - AB * s[3].Ey - AT * AB * (RR.a - RL.a)) / (AT - AB);
  ld AsT = (AR * s[3].A - AL * s[2].A) / (AR - AL), AsB = (AR * s[1].A - AL * s[0].A) / (AR - AL);
  ld BsR = (AT * s[3].B - AB * s[1].B) / (AT - AB), BsL = (AT * s[2].B - AB * s[0].B) / (AT - AB);
  return (AL * AB * s[3].E - AL * AT * s[1].E - AR * AB * s[2].E + AR * AT * s[0].E) / (AR - AL) / (AT - AB) - AT * AB / (AT - AB) * (AsT - AsB) + AR * AL / (AR - AL) * (BsR - BsL);
}

static double
call_emf(const MS * q, int d, const HydroParams & P)
{
  // q: states LL RL LR RR around the edge in the (first,second) plane, with
  // components (first, second, normal); placed in the axes of edge direction d
  static const int ax[3][3] = { { 1, 2, 0 }, { 2, 0, 1 }, { 0, 1, 2 } }; // EMFX: (y,z,x), EMFY: (z,x,y), EMFZ: (x,y,z)
  MHDState         e[4];
  const int        slot[4] = { IRT, ILT, IRB, ILB };
  for (int k = 0; k < 4; k++)
  {
    MHDState & s = e[slot[k]];
    s[ID] = q[k].r, s[IP] = q[k].p;
    s[IU + ax[d][0]] = q[k].u, s[IU + ax[d][1]] = q[k].v, s[IU + ax[d][2]] = q[k].w;
    s[IA + ax[d][0]] = q[k].a, s[IA + ax[d][1]] = q[k].b, s[IA + ax[d][2]] = q[k].c;
  }
  if (d == 0)
    return compute_emf<EMFX>(e, P);
  if (d == 1)
    return compute_emf<EMFY>(e, P);
  return compute_emf<EMFZ>(e, P);
}

static void
emf_all(double gam, int part, int nparts)
{
  HydroParams     P = params_for("hlld", true, 3, gam);
  ld              g = P.settings.gamma0;
  std::vector<MS> A;
  for (int u = 0; u < 4; u++)
    for (int v = 0; v < 4; v++)
    {
      static const ld U[] = { -4, -0.375L, 0.625L, 5 };
      A.push_back({ u & 1 ? 1 : 0.5L, v & 1 ? 0.75L : 2, U[u], U[v], 0.25L, u < 2 ? 0.75L : -0.5L, v < 2 ? -1.25L : 0.25L, 0.375L * (u - v) });
    }
  A.push_back({ 1, 1, 0, 0, 0, 0, 0, 0 });
  A.push_back({ 2, 0.5L, 0, 0.25L, 0, 1, 0, 0 });
  size_t n = A.size();
  for (size_t code = part; code < n * n * n * n; code += nparts)
  {
    MS q[4] = { A[code % n], A[code / n % n], A[code / n / n % n], A[code / n / n / n] };
    // quick: every pair of corners exhaustively, plus a regular third of the rest
    if (!mc::A.thorough && code % 3 != 0 && !(code % n == code / n % n))
      continue;
    // continuity of the in-plane field as at a cell edge
    ld ab = 0.5L * (q[0].a + q[1].a), at = 0.5L * (q[2].a + q[3].a), bl = 0.5L * (q[0].b + q[2].b), br = 0.5L * (q[1].b + q[3].b);
    MS c[4] = { q[0], q[1], q[2], q[3] };
    c[0].a = c[1].a = ab, c[2].a = c[3].a = at, c[0].b = c[2].b = bl, c[1].b = c[3].b = br;
    ld     T = emf_ref(c, g);
    double E[3];
    for (int d = 0; d < 3; d++)
    {
      E[d] = call_emf(q, d, P);
      mc::stat("transitions");
    }
    mc::state(mc::hash_bytes(E, sizeof E));
    mc::stat("executions");
    ld scale = 0;
    for (int k = 0; k < 4; k++)
      scale = fmaxl(scale, (fabsl(c[k].u) + fabsl(c[k].v) + fast(c[k], g)) * (fabsl(c[k].a) + fabsl(c[k].b)) + 1e-3L);
    for (int d = 0; d < 3; d++)
      if (!(fabsl(E[d] - T) < 1e-9L * scale * 10))
        mc::viol(mc::fmt("emf:%c", "xyz"[d]), mc::fmt("edge EMF %.15g, formula %.15Lg for LL=", E[d], T) + show(q[0]) + " RL=" + show(q[1]) + " LR=" + show(q[2]) + " RR=" + show(q[3]));
    if (code % n == code / n % n && code % n == code / n / n % n && code % n == code / n / n / n)
    {
      ld ex = q[0].u * q[0].b - q[0].v * q[0].a;
      if (!(fabsl(E[2] - ex) < 1e-11L * scale))
        mc::viol("emf-consistent", mc::fmt("uniform state has EMF %.15g instead of %.15Lg ", E[2], ex) + show(q[0]));
    }
  }
  if (part == 0)
    mc::sample(mc::fmt("edge EMF: corner states from %zu letters, three directions", n));
}

// ------------------------------------------------------------ floors
static void
extremes()
{
  for (auto & rs : riemanns(false))
  {
    HydroParams P = params_for(rs, false, 3, 1.40625);
    double      r[] = { 1e-9, 1e-3, 1, 1e4 }, p[] = { 1e-9, 1e-3, 1, 1e5 }, u[] = { -30, -1, 0, 1, 30 };
    for (double rl : r)
      for (double rr : r)
        for (double pl : p)
          for (double pr : p)
            for (double ul : u)
              for (double ur : u)
              {
                double F[5];
                call_hydro<HydroState3d, 5>({ rl, pl, ul, 0.5L, 0.25L }, { rr, pr, ur, -1, 2 }, P, F);
                mc::stat("transitions");
                for (double x : F)
                  if (!std::isfinite(x))
                  {
                    mc::viol("finite-extreme:" + rs, mc::fmt("rho %g|%g p %g|%g u %g|%g", rl, rr, pl, pr, ul, ur));
                    break;
                  }
              }
    mc::stat("executions");
  }
  mc::sample("density 1e-9..1e4, pressure 1e-9..1e5, |u|<=30: finite fluxes");
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  std::vector<double> G = { 1.40625, 1.6640625 };
  if (mc::A.thorough)
    G.push_back(1.125);
  for (double g : G)
  {
    for (auto & rs : riemanns(false))
    {
      if (mc::item("hydro 2D " + rs))
        hydro_dim<HydroState2d, 4>(rs, g);
      if (mc::item("hydro 3D " + rs))
        hydro_dim<HydroState3d, 5>(rs, g);
    }
    for (auto & rs : riemanns(true))
    {
      for (int k = 0; k < 8; k++)
        if (mc::item(mc::fmt("mhd %s gamma %g part %d", rs.c_str(), g, k)))
          mhd_pairs(rs, g, k, 8);
      if (mc::item("mhd resonant " + rs))
        mhd_resonant(rs, g);
    }
    for (int k = 0; k < 8; k++)
      if (mc::item(mc::fmt("emf gamma %g part %d", g, k)))
        emf_all(g, k, 8);
  }
  if (mc::item("extremes"))
    extremes();
  return mc::done();
}
