// Boundary fill, time step, gravity, 2D/3D agreement and schedules of the
// finite-volume solvers (real code), by exhaustive enumeration.
#include "fv_util.h"
#include <unordered_map>

static double
uniq(int v, int i, int j, int k)
{
  return 1000.0 * (v + 1) + 1 + i + 17 * j + 289 * k;
}

// ---------------------------------------------------------------- P08: ghost cells
static void
mode_bc()
{
  for (int mhd = 0; mhd < 2; mhd++)
    for (int dim = 2; dim <= 3; dim++)
    {
      int g = mhd ? 3 : 2;
      std::vector<std::vector<int>> sh = { { g, g, g }, { g + 2, g + 1, g }, { g + 1, g, g + 3 } };
      if (mc::A.thorough)
      {
        sh.push_back({ 7, g, g + 1 });
        sh.push_back({ g, 9, g + 1 });
        sh.push_back({ g + 1, g + 1, g + 1 });
        sh.push_back({ 6, 7, 8 });
      }
      for (auto & n : sh)
      {
        // one solver object per shape and type; boundary types set through the parameter file
        int nb = dim == 2 ? 81 : 729;
        for (int code = 0; code < nb; code++)
        {
          Cfg c = base(mhd, dim, n);
          int q = code;
          for (int s = 0; s < 2 * dim; s++, q /= 3)
            c.bc[s] = 1 + q % 3;
          if (!mc::item("bc " + c.desc()))
            continue;
          auto r = make(c);
          for (int it = 0; it < 2; it++)
            for (int pass = 0; pass < 2; pass++)
            {
              r->iter() = it;
              r->poison(pass ? 1e30 : std::nan(""));
              Field f(c);
              for (int v = 0; v < f.nv; v++)
                for (int k = 0; k < f.n[2]; k++)
                  for (int j = 0; j < f.n[1]; j++)
                    for (int i = 0; i < f.n[0]; i++)
                      f(i, j, k, v) = uniq(v, i, j, k);
              r->put(f);
              r->boundaries();
              mc::stat("transitions");
              int gw = c.gw();
              for (int v = 0; v < f.nv; v++)
                for (int k = 0; k < r->ext[2]; k++)
                  for (int j = 0; j < r->ext[1]; j++)
                    for (int i = 0; i < r->ext[0]; i++)
                    {
                      bool   fx, fy, fz = false;
                      int    a = RunBase::src(i, c.n[0], gw, c.bc[0], c.bc[1], fx), b = RunBase::src(j, c.n[1], gw, c.bc[2], c.bc[3], fy), d = 0;
                      if (dim == 3)
                        d = RunBase::src(k, c.n[2], gw, c.bc[4], c.bc[5], fz) - gw;
                      double e = uniq(v, a - gw, b - gw, d);
                      if ((v == 2 && fx) || (v == 3 && fy) || (v == 4 && fz) || (v == 5 && fx) || (v == 6 && fy) || (v == 7 && fz))
                        e = -e; // normal momentum and normal magnetic field
                      double x = r->U(i, j, k, v);
                      mc::stat("ghost_values");
                      if (!(x == e))
                        mc::viol(mc::fmt("bc:%s:var%d:%s%s%s", c.solver_name().c_str(), v, i < gw ? "xmin" : i >= gw + c.n[0] ? "xmax" : "", j < gw ? "ymin" : j >= gw + c.n[1] ? "ymax" : "",
                                         dim == 2 ? "" : k < gw ? "zmin" : k >= gw + c.n[2] ? "zmax" : ""),
                                 mc::fmt("array %d cell (%d,%d,%d): %.17g, prescribed %.17g", it, i, j, k, x, e));
                    }
            }
          mc::state(mc::hash_bytes(&code, 4, n[0] * 100 + n[1] * 10 + n[2] + 1000 * dim + 9000 * mhd));
          mc::stat("executions", 4);
          if (code % 100 == 7)
            mc::sample(c.desc() + ": every ghost value");
        }
      }
    }
}

// ---------------------------------------------------------------- P12: time step
//! largest signal rate over interior cells; U with valid right ghost layer for MHD
static double
max_rate(RunBase & r)
{
  const Cfg & c = r.c;
  int         gw = c.gw(), gz = c.dim == 3 ? gw : 0;
  double      h[3] = { c.L[0] / c.n[0], c.L[1] / c.n[1], c.dim == 3 ? c.L[2] / c.n[2] : 1 };
  double      best = 0;
  for (int k = 0; k < (c.dim == 3 ? c.n[2] : 1); k++)
    for (int j = 0; j < c.n[1]; j++)
      for (int i = 0; i < c.n[0]; i++)
      {
        auto   U = [&](int v, int a = 0, int b = 0, int d = 0) { return r.U(i + gw + a, j + gw + b, k + gz + d, v); };
        double rho = U(0), m2 = 0, vel[3] = { 0, 0, 0 };
        int    nm = c.mhd || c.dim == 3 ? 3 : 2;
        for (int d = 0; d < nm; d++)
        {
          vel[d] = U(2 + d) / rho;
          m2 += vel[d] * vel[d];
        }
        double B[3] = { 0, 0, 0 }, b2 = 0;
        if (c.mhd)
        {
          B[0] = 0.5 * (U(5) + U(5, 1));
          B[1] = 0.5 * (U(6) + U(6, 0, 1));
          B[2] = c.dim == 3 ? 0.5 * (U(7) + U(7, 0, 0, 1)) : U(7);
          b2 = B[0] * B[0] + B[1] * B[1] + B[2] * B[2];
        }
        double p = (c.gamma - 1) * (U(1) - 0.5 * rho * m2 - 0.5 * b2);
        double c2 = c.gamma * p / rho;
        double rate = 0, sum = 0, hm = 1e300;
        for (int d = 0; d < c.dim; d++)
        {
          double cf = sqrt(c2);
          if (c.mhd)
          {
            double s = c2 + b2 / rho;
            cf = sqrt(0.5 * (s + sqrt(fmax(0.0, s * s - 4 * c2 * B[d] * B[d] / rho))));
          }
          rate += (cf + fabs(vel[d])) / h[d];
          sum += cf + fabs(vel[d]);
          hm = fmin(hm, h[d]);
        }
        if (c.grav)
        {
          // the largest dt with g dt^2/(2 dx) + (sum of speeds) dt/dx <= cfl (gravity floored)
          double g = 0;
          for (int d = 0; d < c.dim; d++)
            g += r.g.d.empty() ? fabs(c.g[d]) : fabs(r.g(i, j, k, d));
          double kk = fmax(1e-4, g * c.cfl * hm / (sum * sum));
          rate = sum * kk / (sqrt(1 + 2 * kk) - 1) / hm;
        }
        best = fmax(best, rate);
      }
  return best;
}

static void
mode_dt()
{
  for (int mhd = 0; mhd < 2; mhd++)
    for (int dim = 2; dim <= 3; dim++)
      for (auto & n : shapes(mhd, dim))
        for (int bcm = 0; bcm < 3; bcm++)
          for (int grav = 0; grav < (mhd ? 1 : 3); grav++)
            for (int im = 0; im < (mc::A.thorough ? (mhd ? 3 : 2) : 1); im++)
            {
              Cfg c = base(mhd, dim, n);
              c.all_bc(bcm == 0 ? PERI : bcm == 1 ? OUTF : REFL);
              c.riemann = mhd ? "hlld" : "hllc";
              c.impl = im;
              if (grav)
                c.set_gravity(0.5, -0.75, dim == 3 ? 0.625 : 0);
              if (!mc::item(mc::fmt("dt grav=%d ", grav) + c.desc()))
                continue;
              auto r = make(c);
              if (grav == 2)
                r->set_gravity(gravity_field(c, 1));
              int  nz = dim == 3 ? n[2] : 1;
              int  cnt = 0;
              // the extreme cell at every position, of every kind
              for (int k = 0; k < nz; k++)
                for (int j = 0; j < n[1]; j++)
                  for (int i = 0; i < n[0]; i++)
                    for (int kind = 0; kind < 2 * dim + 1 + (mhd ? 3 : 0); kind++)
                    {
                      Field f(c);
                      for (int kk = 0; kk < nz; kk++)
                        for (int jj = 0; jj < n[1]; jj++)
                          for (int ii = 0; ii < n[0]; ii++)
                          {
                            Prim q{ 1.0 + 0.0625 * ii, 1.0 + 0.03125 * jj, 0.125, -0.25, 0.0625 * kk, 0.125, -0.25, 0.25 };
                            if (ii == i && jj == j && kk == k)
                            {
                              if (kind < 2 * dim)
                                (&q.u)[kind / 2] = kind % 2 ? -3.5 : 4.25;
                              else if (kind == 2 * dim)
                                q.p = 9;
                              else
                                (&q.a)[kind - 2 * dim - 1] = 3.5;
                            }
                            set_cons(f, ii, jj, kk, q, c.gamma, mhd, dim);
                            if (mhd) // keep the gas pressure positive whatever the neighbouring faces
                              f(ii, jj, kk, 1) += 12;
                          }
                      int  it = cnt & 1;
                      auto exact = [&] { // ghosts filled for the oracle
                        r->start(f, it, 7.0);
                        if (mhd)
                          r->boundaries();
                        return max_rate(*r);
                      };
                      double rate = exact(), want = c.cfl / rate;
                      double junk = cnt % 3 == 0 ? 1e9 : cnt % 3 == 1 ? -1e9 : 1e-9;
                      mck::rt().order = (mck::Order)(cnt % 5);
                      if (!mhd)
                      {
                        r->start(f, it, junk);
                        r->compute_dt();
                        mc::stat("transitions");
                        double e = fabs(r->dt() - want) / want;
                        mc::maxstat("rel_error", e);
                        if (!(e < 1e-12))
                          mc::viol(mc::fmt("dt:%s:grav%d:kind%d", c.solver_name().c_str(), grav, kind), mc::fmt("extreme cell (%d,%d,%d): dt %.17g, the limit is %.17g", i, j, k, r->dt(), want));
                      }
                      if (mhd || cnt % 7 == 0)
                      {
                        r->start(f, it, junk);
                        r->next();
                        mc::stat("transitions");
                        double e = fmax(fabs(r->dt() - want), fabs(r->t() - want)) / want;
                        mc::maxstat("rel_error", e);
                        if (!(e < 1e-11))
                          mc::viol(mc::fmt("dtstep:%s:grav%d:kind%d", c.solver_name().c_str(), grav, kind), mc::fmt("extreme cell (%d,%d,%d): step of %.17g to t=%.17g, the limit is %.17g", i, j, k, r->dt(), r->t(), want));
                      }
                      mck::rt().order = mck::Order::FORWARD;
                      mc::state(f.hash());
                      mc::stat("executions");
                      cnt++;
                    }
              // second and later steps of patterned flows; last step clipped to the end time
              for (int s = 0; s < (mc::A.thorough ? 20 : 3); s++)
              {
                Field f = make_field(c, 300 + s, 0.6);
                r->start(f, s & 1, 7.0);
                double dt0 = 0;
                for (int st = 0; st < 4; st++)
                {
                  if (mhd)
                    r->boundaries();
                  double want = c.cfl / max_rate(*r);
                  double t0 = r->t();
                  if (st == 3) // clip
                  {
                    want *= 0.375;
                    r->base()->m_tEnd = t0 + want;
                  }
                  r->next();
                  mc::stat("transitions");
                  double e = fabs(r->dt() - want) / want;
                  mc::maxstat("rel_error", e);
                  if (!(e < 1e-10) || !(fabs(r->t() - t0 - want) < 1e-10 * want + 1e-14 * t0))
                    mc::viol(mc::fmt("dtrun:%s:grav%d:step%d", c.solver_name().c_str(), grav, st), mc::fmt("pattern %d: dt %.17g, limit %.17g (time %.17g -> %.17g)", s, r->dt(), want, t0, r->t()));
                  mc::state(r->get().hash());
                  dt0 = r->dt();
                }
                r->base()->m_tEnd = c.tEnd;
                mc::stat("executions");
              }
              mc::sample(mc::fmt("%s: %d extreme-cell placements", c.desc().c_str(), cnt));
            }
}

// ---------------------------------------------------------------- P26: gravity
static void
mode_gravity()
{
  std::vector<std::array<double, 3>> gs = { { 0.75, 0, 0 }, { 0, -0.75, 0 }, { 0, 0, 1.25 }, { -0.5, 0.25, 0.625 }, { 0, 0, 0 } };
  for (int dim = 2; dim <= 3; dim++)
    for (auto & n : shapes(false, dim))
      for (auto & rs : riemanns(false))
        for (double sl : slopes())
          for (int im = 0; im < 2; im++)
            for (auto & g : gs)
              for (int bcm = 0; bcm < 6; bcm++)
              {
                bool var = bcm >= 3; // gravity varying from cell to cell
                if (dim == 2 && g[2] != 0 && g[0] == 0)
                  continue;
                if (var && g[2] == 0)
                  continue;
                Cfg c = base(false, dim, n);
                c.riemann = rs, c.slope = sl, c.impl = im;
                if (bcm % 3 == 1) // walls along x: weight balanced there, exact along the others
                  c.bc[0] = c.bc[1] = REFL;
                if (bcm % 3 == 2)
                  c.all_bc(REFL);
                c.set_gravity(g[0], g[1], dim == 3 ? g[2] : 0);
                if (!mc::item(mc::fmt("gravity%s g=(%g,%g,%g) ", var ? " varying" : "", g[0], g[1], g[2]) + c.desc()))
                  continue;
                auto  r = make(c);
                Field gf = gravity_field(c, var ? 1 : 0);
                if (var)
                  r->set_gravity(gf);
                Cfg  c0 = c;
                c0.grav = false;
                c0.problem = "implode";
                auto r0 = make(c0);
                int  nf = mc::A.thorough ? 12 : 2;
                for (int s = 0; s < nf; s++)
                {
                  Field f = make_field(c, 400 + s, s % 2 ? 1.0 : 0.5);
                  r->start(f, s & 1, 7.0);
                  for (int st = 0; st < 2; st++)
                  {
                    Field a = r->get();
                    r->next();
                    mc::stat("transitions");
                    Field  b = r->get();
                    double dt = r->dt();
                    mc::state(b.hash());
                    size_t      ncell = a.d.size() / a.nv;
                    long double M0 = 0, M1 = 0, E0 = 0, E1 = 0, W = 0, P[3] = { 0, 0, 0 }, Q[3] = { 0, 0, 0 }, wt[3] = { 0, 0, 0 }, scale = 0;
                    for (int k = 0; k < a.n[2]; k++)
                      for (int j = 0; j < a.n[1]; j++)
                        for (int i = 0; i < a.n[0]; i++)
                        {
                          double ro = a(i, j, k, 0), rn = b(i, j, k, 0), k1 = 0, k0 = 0;
                          M0 += ro, M1 += rn, E0 += a(i, j, k, 1), E1 += b(i, j, k, 1);
                          scale += fabs(a(i, j, k, 1)) + fabs(b(i, j, k, 1));
                          for (int d = 0; d < dim; d++)
                          {
                            P[d] += a(i, j, k, 2 + d), Q[d] += b(i, j, k, 2 + d);
                            scale += fabs(a(i, j, k, 2 + d));
                            double dm = 0.5 * dt * gf(i, j, k, d) * (ro + rn), m1 = b(i, j, k, 2 + d);
                            wt[d] += dm;
                            k1 += m1 * m1, k0 += (m1 - dm) * (m1 - dm);
                          }
                          W += (k1 - k0) / (2 * rn); // work of the momentum change in this cell
                        }
                    double tol = 1e-12 * (double)scale;
                    if (!(fabsl(M1 - M0) < tol))
                      mc::viol(mc::fmt("gravity:mass:%s:%s:impl%d", c.solver_name().c_str(), rs.c_str(), im), mc::fmt("pattern %d step %d: mass %.17Lg -> %.17Lg", s, st, M0, M1));
                    if (!(fabsl(E1 - E0 - W) < tol))
                      mc::viol(mc::fmt("gravity:work:%s:%s:impl%d", c.solver_name().c_str(), rs.c_str(), im), mc::fmt("pattern %d step %d: energy changes by %.17Lg, work is %.17Lg", s, st, E1 - E0, W));
                    for (int d = 0; d < dim; d++)
                    {
                      long double want = wt[d];
                      bool        free = c.bc[2 * d] == PERI;
                      if (free && !(fabsl(Q[d] - P[d] - want) < tol))
                        mc::viol(mc::fmt("gravity:momentum:%s:%s:impl%d:axis%d", c.solver_name().c_str(), rs.c_str(), im, d),
                                 mc::fmt("pattern %d step %d: momentum changes by %.17Lg, weight times dt is %.17Lg", s, st, Q[d] - P[d], want));
                    }
                  }
                  mc::stat("executions");
                  // zero gravity is no gravity; with first-order reconstruction the half-step
                  // prediction is exactly a change of the velocities by g dt/2
                  bool zero = g[0] == 0 && g[1] == 0 && g[2] == 0;
                  if ((zero || sl == 0) && bcm % 3 == 0)
                  {
                    r->start(f, s & 1, 7.0);
                    r->compute_dt();
                    double dt = r->dt() * 0.5;
                    r->start(f, s & 1, 7.0);
                    r->step_with(dt);
                    Field a = r->get(), h = f;
                    for (int k = 0; k < f.n[2]; k++)
                      for (int j = 0; j < f.n[1]; j++)
                        for (int i = 0; i < f.n[0]; i++)
                          for (int d = 0; d < dim; d++)
                          {
                            double m = f(i, j, k, 2 + d), rr = f(i, j, k, 0), m2 = m + rr * 0.5 * dt * gf(i, j, k, d);
                            h(i, j, k, 2 + d) = m2;
                            h(i, j, k, 1) += (m2 * m2 - m * m) / (2 * rr);
                          }
                    r0->start(h, s & 1, 7.0);
                    r0->step_with(dt);
                    Field b = r0->get();
                    for (int k = 0; k < f.n[2]; k++)
                      for (int j = 0; j < f.n[1]; j++)
                        for (int i = 0; i < f.n[0]; i++)
                          for (int d = 0; d < dim; d++)
                            b(i, j, k, 2 + d) += 0.5 * dt * gf(i, j, k, d) * b(i, j, k, 0);
                    mc::stat("transitions", 2);
                    for (int v = 0; v < f.nv; v++)
                    {
                      if (v == 1 && !zero)
                        continue; // energy is covered by the work balance
                      for (int k = 0; k < f.n[2]; k++)
                        for (int j = 0; j < f.n[1]; j++)
                          for (int i = 0; i < f.n[0]; i++)
                            if (!(fabs(a(i, j, k, v) - b(i, j, k, v)) < 1e-11 * f.maxabs()))
                              mc::viol(mc::fmt("gravity:%s:%s:%s:impl%d:var%d", zero ? "zero" : "predictor", c.solver_name().c_str(), rs.c_str(), im, v),
                                       mc::fmt("pattern %d cell (%d,%d,%d): %.17g, equivalent gravity-free step %.17g", s, i, j, k, a(i, j, k, v), b(i, j, k, v)));
                    }
                  }
                }
                mc::sample(c.desc() + mc::fmt(" g=(%g,%g,%g): mass, weight, work", g[0], g[1], g[2]));
              }
}

// ---------------------------------------------------------------- P28: 3D restricted to 2D
static void
mode_dim23()
{
  for (int mhd = 0; mhd < 2; mhd++)
    for_options(mhd, 2, [&](const std::string & rs, double sl, int im) {
      for (auto & n2 : shapes(mhd, 2))
        for (int axis = 0; axis < 3; axis++)
          for (int bcm = 0; bcm < (mhd ? 1 : 3); bcm++)
          {
            Cfg c = base(mhd, 2, n2);
            c.riemann = rs, c.slope = sl, c.impl = im;
            if (bcm == 1)
              c.bc[0] = REFL, c.bc[1] = OUTF, c.bc[2] = OUTF, c.bc[3] = REFL;
            if (bcm == 2)
              c.bc[0] = c.bc[1] = REFL;
            // cyclic embedding: 2D axes (x,y) become (p,q), the invariant axis is `axis`
            int p = (axis + 1) % 3, q = (axis + 2) % 3;
            Cfg d = c;
            d.dim = 3;
            d.n[axis] = mhd ? 3 : 2 + axis, d.n[p] = c.n[0], d.n[q] = c.n[1];
            d.L[axis] = 0.4375 * d.n[axis], d.L[p] = c.L[0], d.L[q] = c.L[1];
            for (int e = 0; e < 2; e++)
            {
              d.bc[2 * axis + e] = bcm == 2 ? REFL : bcm == 1 ? OUTF : PERI;
              d.bc[2 * p + e] = c.bc[e];
              d.bc[2 * q + e] = c.bc[2 + e];
            }
            if (!mc::item(mc::fmt("dim23 axis %d ", axis) + d.desc()))
              continue;
            auto r2 = make(c), r3 = make(d);
            auto lift = [&](const Field & f) {
              Field g(d);
              int   x[3];
              for (int m = 0; m < d.n[axis]; m++)
                for (int j = 0; j < c.n[1]; j++)
                  for (int i = 0; i < c.n[0]; i++)
                  {
                    x[axis] = m, x[p] = i, x[q] = j;
                    g(x[0], x[1], x[2], 0) = f(i, j, 0, 0);
                    g(x[0], x[1], x[2], 1) = f(i, j, 0, 1);
                    g(x[0], x[1], x[2], 2 + p) = f(i, j, 0, 2);
                    g(x[0], x[1], x[2], 2 + q) = f(i, j, 0, 3);
                    g(x[0], x[1], x[2], 2 + axis) = mhd ? f(i, j, 0, 4) : 0;
                    if (mhd)
                    {
                      g(x[0], x[1], x[2], 5 + p) = f(i, j, 0, 5);
                      g(x[0], x[1], x[2], 5 + q) = f(i, j, 0, 6);
                      g(x[0], x[1], x[2], 5 + axis) = f(i, j, 0, 7);
                    }
                  }
              return g;
            };
            int nf = mc::A.thorough ? 24 : 3;
            for (int s = 0; s < nf; s++)
            {
              Field f = make_field(c, 500 + s, s % 2 ? 1.0 : 0.4);
              // The out-of-plane field is staggered (3D) or cell-centred (2D), two different
              // discretisations: agreement is claimed for planar MHD flows
              if (mhd)
                for (int j = 0; j < f.n[1]; j++)
                  for (int i = 0; i < f.n[0]; i++)
                  {
                    f(i, j, 0, 1) -= 0.5 * f(i, j, 0, 4) * f(i, j, 0, 4) / f(i, j, 0, 0) + 0.5 * f(i, j, 0, 7) * f(i, j, 0, 7);
                    f(i, j, 0, 4) = f(i, j, 0, 7) = 0;
                  }
              Field g = lift(f);
              r2->start(f, s & 1, 7.0);
              r3->start(g, s & 1, 7.0);
              for (int st = 0; st < 2; st++)
              {
                // the 3D step is the smaller one: advance both by it
                double t0 = r3->t();
                r3->next();
                double dt = r3->t() - t0;
                if (!(dt > 0))
                  dt = r3->dt();
                r2->step_with(dt);
                mc::stat("transitions", 2);
                Field       a = lift(r2->get()), b = r3->get();
                std::string w;
                double      e = maxdiff(a, b, &w) / fmax(1, a.maxabs());
                mc::state(b.hash());
                mc::maxstat("difference", e);
                if (!(e < 1e-10))
                {
                  mc::viol(mc::fmt("dim23:axis%d:%s:%s:impl%d:slope%g", axis, mhd ? "mhd" : "hydro", rs.c_str(), im, sl), mc::fmt("pattern %d step %d dt3=%.17g dt2=%.17g: 2D vs 3D %s", s, st + 1, dt, r2->dt(), w.c_str()));
                  break;
                }
              }
              mc::stat("executions", 2);
            }
            mc::sample(d.desc() + mc::fmt(": invariant along axis %d", axis));
          }
    });
}

// ---------------------------------------------------------------- P24: races, schedules
struct Shadow
{
  long first = -1;      // first iteration that accessed it
  bool shared = false;  // accessed by another one too
  bool written = false; // value changed by a plain access
  bool plain = false;   // accessed non atomically
  bool awrite = false;
};
static std::unordered_map<const char *, Shadow> shadow;
static std::string                              kname;
static long                                     knum;
static void
k_begin(const char * name, long n)
{
  shadow.clear();
  kname = name;
  knum = n;
}
static void
k_iter(long it)
{
  mc::stat("iterations");
  for (auto & t : mck::rt().touched)
  {
    Shadow & s = shadow[t.addr];
    if (s.first < 0)
      s.first = it;
    else if (s.first != it)
      s.shared = true;
    bool plain = t.atomics < t.accesses;
    if (plain)
      s.plain = true;
    if (t.atomics)
      s.awrite = true;
    uint64_t now = 0;
    memcpy(&now, t.addr, t.size > 8 ? 8 : t.size);
    if (plain && now != t.before)
      s.written = true;
  }
}
static void
k_end(const char * name, long n)
{
  mc::stat("kernels");
  mc::stat("pairs", (uint64_t)n * (n - 1) / 2);
  for (auto & kv : shadow)
    if (kv.second.shared && kv.second.plain && (kv.second.written || kv.second.awrite))
      mc::viol("race:" + kname, mc::fmt("kernel '%s' (%ld iterations): an iteration writes memory that another one accesses (first access by iteration %ld)", kname.c_str(), n, kv.second.first));
  shadow.clear();
}

static void
mode_races()
{
  std::vector<const char *> probs_h2 = { "implode", "blast", "kelvin_helmholtz", "gresho_vortex", "four_quadrant", "isentropic_vortex", "rayleigh_taylor", "rising_bubble", "disk" };
  for (int mhd = 0; mhd < 2; mhd++)
    for (int dim = 2; dim <= 3; dim++)
      for (auto & rs : riemanns(mhd))
        for (int im = 0; im < (mhd ? 3 : 2); im++)
          for (int bcm = 0; bcm < 3; bcm++)
            for (int grav = 0; grav < (mhd ? 1 : 2); grav++)
              for (size_t si = 0; si < 2; si++)
              {
                auto n = shapes(mhd, dim)[1 + si];
                Cfg  c = base(mhd, dim, n);
                c.riemann = rs, c.impl = im;
                c.all_bc(bcm == 0 ? PERI : bcm == 1 ? OUTF : REFL);
                if (bcm == 2 && si == 1)
                  c.bc[0] = OUTF, c.bc[2] = c.bc[3] = PERI;
                if (grav)
                  c.set_gravity(0.5, -0.75, 0.625);
                if (!mc::item(mc::fmt("races grav=%d ", grav) + c.desc()))
                  continue;
                auto & rt = mck::rt();
                rt.on_kernel_begin = k_begin, rt.on_iteration_end = k_iter, rt.on_kernel_end = k_end;
                rt.track = si == 0 || mc::A.thorough;
                auto r = make(c);
                Field f = make_field(c, 600 + si, 0.7);
                r->start(f, si & 1, 7.0);
                r->next();
                r->next();
                rt.track = false;
                mc::stat("transitions", 2);
                Field ref = r->get();
                double t = r->t();
                mc::state(ref.hash());
                // uninitialised values would differ between the two builds and with the ghost content
                fprintf(mc::out, "HASH %ld %016llx\n", mc::cur_item, (unsigned long long)ref.hash());
                int no = mc::A.thorough ? 14 : 6;
                for (int o = 1; o < no; o++)
                {
                  rt.order = o < 4 ? (mck::Order)o : mck::Order::SHUFFLE;
                  rt.shuffle_seed = o;
                  auto r2 = make(c);
                  r2->start(f, si & 1, o % 2 ? 3e5 : -1e-3);
                  r2->next();
                  r2->next();
                  mc::stat("transitions", 2);
                  std::string w;
                  Field       g = r2->get();
                  double      e = maxdiff(ref, g, &w);
                  // versions 1 and 2 of MHD accumulate with atomics: any order, up to round-off
                  double tol = mhd && im ? 1e-12 : 0;
                  if (!(e <= tol * fmax(1, ref.maxabs())) || !(fabs(r2->t() - t) <= tol * t))
                    mc::viol(mc::fmt("order:%s:%s:impl%d", c.solver_name().c_str(), rs.c_str(), im), mc::fmt("iteration order %d gives another result: %s (t %.17g vs %.17g)", o, w.c_str(), t, r2->t()));
                  mc::stat("executions");
                }
                rt.order = mck::Order::FORWARD;
                mc::stat("executions");
                mc::sample(c.desc() + ": construction and two steps, footprints of every iteration");
              }
  // initial conditions
  for (int mhd = 0; mhd < 2; mhd++)
    for (int dim = 2; dim <= 3; dim++)
    {
      std::vector<std::string> probs = { "implode", "blast", "kelvin_helmholtz", "gresho_vortex", "four_quadrant", "isentropic_vortex", "rayleigh_taylor", "rising_bubble", "disk" };
      if (mhd)
        probs = { "implode", "blast", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave" };
      for (auto & pb : probs)
      {
        if (dim == 3 && (pb == "four_quadrant" || pb == "isentropic_vortex"))
          continue;
        if (mhd && dim == 2 && pb == "wave")
          continue; // not provided in 2D
        Cfg c = base(mhd, dim, { 4, 5, 6 });
        c.problem = pb;
        if (pb == "rayleigh_taylor" || pb == "rising_bubble" || pb == "disk")
          c.extra = "[gravity]\nstatic=yes\n";
        if (!mc::item("races init " + pb + " " + c.desc()))
          continue;
        auto & rt = mck::rt();
        rt.on_kernel_begin = k_begin, rt.on_iteration_end = k_iter, rt.on_kernel_end = k_end;
        rt.track = true;
        auto  r = make(c);
        Field ref = r->get();
        rt.track = false;
        fprintf(mc::out, "HASH %ld %016llx\n", mc::cur_item, (unsigned long long)ref.hash());
        mc::stat("transitions");
        mc::state(ref.hash());
        for (int o = 1; o < 6; o++)
        {
          rt.order = (mck::Order)(o < 4 ? o : 4);
          rt.shuffle_seed = o;
          auto        r2 = make(c);
          std::string w;
          if (maxdiff(ref, r2->get(), &w) != 0)
            mc::viol("order:init:" + pb, mc::fmt("iteration order %d: %s", o, w.c_str()));
          mc::stat("executions");
        }
        rt.order = mck::Order::FORWARD;
      }
    }
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  std::string m = mc::A.get("mode");
  if (m == "bc")
    mode_bc();
  else if (m == "dt")
    mode_dt();
  else if (m == "gravity")
    mode_gravity();
  else if (m == "dim23")
    mode_dim23();
  else if (m == "races")
    mode_races();
  else
    return 4;
  return mc::done();
}
