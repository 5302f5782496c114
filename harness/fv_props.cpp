// Exhaustive exploration of the finite-volume solvers (real code).
#include "fv_util.h"

// ---------------------------------------------------------------- conservation
static void
check_conserved(RunBase & r, const Field & f0, int nsteps, int it0, const bool * keep, const std::string & fam)
{
  const Cfg & c = r.c;
  r.start(f0, it0, 7.0);
  long double t0[8], a0[8], t1[8], a1[8];
  totals(c, f0, t0, a0);
  for (int s = 0; s < nsteps; s++)
  {
    r.next();
    mc::stat("transitions");
    Field f = r.get();
    mc::state(f.hash());
    totals(c, f, t1, a1);
    for (int v = 0; v < f.nv; v++)
    {
      if (!keep[v])
        continue;
      double scale = 1e-300;
      for (int w = 0; w < f.nv; w++)
        scale = fmax(scale, (double)fmaxl(a0[w], a1[w]));
      double e = fabs((double)(t1[v] - t0[v])) / scale;
      mc::maxstat("rel_drift", e == e ? e : 1e9);
      if (!(e < 2e-12))
        mc::viol(mc::fmt("conserve:%s:%s:impl%d:%s", c.solver_name().c_str(), c.riemann.c_str(), c.impl, VN[v]),
                 mc::fmt("%s field, step %d (first array %d): total of %s changes from %.17Lg to %.17Lg", fam.c_str(), s + 1, it0, VN[v], t0[v], t1[v]));
    }
    if (!f.finite())
    {
      mc::stat("nonfinite");
      mc::viol(mc::fmt("nonfinite:%s:%s:impl%d", c.solver_name().c_str(), c.riemann.c_str(), c.impl), fam + ": non-finite state after a step");
      return;
    }
  }
  mc::stat("executions");
}

static void
mode_conserve(bool mhd)
{
  for (int dim = 2; dim <= 3; dim++)
    for_options(mhd, dim, [&](const std::string & rs, double sl, int im) {
      // 1. every assignment of letters to the cells of the smallest periodic grid
      {
        Cfg c = base(mhd, dim, shapes(mhd, dim)[0]);
        c.riemann = rs, c.slope = sl, c.impl = im;
        if (mc::item("exhaustive " + c.desc()))
        {
          auto                 r = make(c);
          int                  ncell = c.n[0] * c.n[1] * c.n[2];
          std::vector<std::vector<int>> sets;
          if (dim == 2 && !mhd)
            sets = { { 0, 1, 2, 3, 4, 5 } };
          else if (dim == 3 && !mhd)
            sets = mc::A.thorough ? std::vector<std::vector<int>>{ { 0, 1, 2 }, { 1, 3, 4 } } : std::vector<std::vector<int>>{ { 0, 1 }, { 2, 4 } };
          else if (dim == 2)
            sets = mc::A.thorough ? std::vector<std::vector<int>>{ { 0, 1, 2 } } : std::vector<std::vector<int>>{ { 0, 1 }, { 2, 4 } };
          // MHD 3D: 27 cells cannot be enumerated; patterned fields below
          bool keep[8] = { 1, 1, 1, 1, 1, 1, 1, 1 };
          for (auto & L : sets)
          {
            unsigned long N = 1;
            for (int q = 0; q < ncell; q++)
              N *= L.size();
            for (unsigned long code = 0; code < N; code++)
            {
              Field f = assign(c, code, (int)L.size(), L.data());
              if (mhd)
                make_divfree(c, f, (unsigned)(code % 5), 0.4);
              check_conserved(*r, f, 2, code & 1, keep, mc::fmt("assignment %lu", code));
            }
          }
          mc::sample(mc::fmt("%s: all %zu-letter assignments of %d cells, 2 steps each", c.desc().c_str(), sets.empty() ? 0 : sets[0].size(), ncell));
        }
      }
      // 2. patterned fields on every shape and wall arrangement
      for (auto & sh : shapes(mhd, dim))
        for (int walls = 0; walls < (mhd ? 1 : (1 << dim)); walls++)
        {
          Cfg c = base(mhd, dim, sh);
          c.riemann = rs, c.slope = sl, c.impl = im;
          for (int d = 0; d < dim; d++)
            if (walls & (1 << d))
              c.bc[2 * d] = c.bc[2 * d + 1] = REFL;
          if (!mc::item("patterned " + c.desc()))
            continue;
          auto r = make(c);
          bool keep[8] = { 1, 1, 1, 1, 1, 1, 1, 1 };
          for (int d = 0; d < dim; d++)
            if (walls & (1 << d))
              keep[2 + d] = false;
          int nf = mc::A.thorough ? 40 : 6;
          for (int s = 0; s < nf; s++)
            check_conserved(*r, make_field(c, s + 10 * walls, 1.0), 3, s & 1, keep, mc::fmt("pattern %d", s));
        }
    });
}

// ---------------------------------------------------------------- divergence
static void
mode_divb()
{
  for (int dim = 2; dim <= 3; dim++)
  {
    for_options(true, dim, [&](const std::string & rs, double sl, int im) {
      for (auto & sh : shapes(true, dim))
      {
        Cfg c = base(true, dim, sh);
        c.riemann = rs, c.slope = sl, c.impl = im;
        if (!mc::item("divB " + c.desc()))
          continue;
        auto r = make(c);
        int  nf = mc::A.thorough ? 60 : 10;
        for (int s = 0; s < nf; s++)
        {
          // even: div-free initial field; odd: arbitrary field, divergence must be frozen
          Field f0 = s % 2 ? pattern(c, s) : make_field(c, s);
          if (s % 2 == 0 && s >= 4)
            // strong field, velocities reversed
            f0 = make_field(c, s, 0.7);
          r->start(f0, s & 1, 7.0);
          double bmax = 0;
          for (int st = 0; st < 4; st++)
          {
            r->next();
            mc::stat("transitions");
            Field f = r->get();
            mc::state(f.hash());
            for (int k = 0; k < f.n[2]; k++)
              for (int j = 0; j < f.n[1]; j++)
                for (int i = 0; i < f.n[0]; i++)
                {
                  for (int v = 5; v < 8; v++)
                    bmax = fmax(bmax, fabs(f(i, j, k, v)));
                  double a = divB(c, f0, i, j, k), b = divB(c, f, i, j, k);
                  double e = fabs(a - b);
                  mc::maxstat("div_change", e == e ? e / fmax(bmax, 1) : 1e9);
                  mc::stat("evaluations");
                  if (!(e < 2e-12 * fmax(1, bmax) / 0.1))
                    mc::viol(mc::fmt("divB:%s:%s:impl%d", c.solver_name().c_str(), rs.c_str(), im),
                             mc::fmt("field %d step %d cell (%d,%d,%d): divergence %.6g became %.6g", s, st + 1, i, j, k, a, b));
                }
            if (!f.finite())
              break;
          }
          mc::stat("executions");
        }
        mc::sample(c.desc() + ": divergence of every cell before/after 4 steps");
      }
    });
    // initial conditions
    struct IC
    {
      const char * name;
      const char * extra;
    };
    std::vector<IC> ics;
    ics.push_back({ "orszag_tang", "" });
    ics.push_back({ "blast", "[blast]\nblast_density_in=1.1\nblast_bx=0.3\nblast_by=0.4\nblast_bz=0.2\n" });
    ics.push_back({ "implode", "[implode]\nBx_outer=0.3\nBy_outer=0.4\nBz_outer=0.1\nBx_inner=0.3\nBy_inner=0.4\nBz_inner=0.1\n" });
    ics.push_back({ "kelvin_helmholtz", "[KH]\np_sine=1\np_rand=0\nbx=0.3\n" });
    ics.push_back({ "kelvin_helmholtz", "[KH]\np_sine=0\np_rand=1\n" });
    ics.push_back({ "rotor", "" });
    ics.push_back({ "field_loop", "" });
    ics.push_back({ "isentropic_vortex", "" });
    ics.push_back({ "wave", "" });
    for (auto & ic : ics)
      for (auto & sh : { shape(8, 8, 8), shape(12, 6, 4), shape(5, 9, 6) })
      {
        Cfg c = base(true, dim, sh, false);
        c.problem = ic.name;
        c.extra = ic.extra;
        if (c.problem == "field_loop")
        {
          // the loop is centred on the origin and must not be cut by the border
          c.xmin[0] = c.xmin[1] = c.xmin[2] = -0.5;
          c.extra = "[FieldLoop]\nradius=0.3125\n";
        }
        if (!mc::item(mc::fmt("init %s %s", ic.name, c.desc().c_str())))
          continue;
        auto  r = make(c);
        Field f = r->get();
        mc::state(f.hash());
        mc::stat("executions");
        mc::stat("transitions");
        double bmax = 1e-30;
        for (int v = 5; v < 8; v++)
          for (int k = 0; k < f.n[2]; k++)
            for (int j = 0; j < f.n[1]; j++)
              for (int i = 0; i < f.n[0]; i++)
                bmax = fmax(bmax, fabs(f(i, j, k, v)));
        double h = fmin(c.L[0] / c.n[0], fmin(c.L[1] / c.n[1], c.L[2] / c.n[2]));
        for (int k = 0; k < f.n[2]; k++)
          for (int j = 0; j < f.n[1]; j++)
            for (int i = 0; i < f.n[0]; i++)
            {
              double b = divB(c, f, i, j, k);
              mc::maxstat("init_div", fabs(b) * h / bmax);
              mc::stat("evaluations");
              if (!(fabs(b) * h < 1e-12 * bmax))
                mc::viol(mc::fmt("init-divB:%s:%s", c.solver_name().c_str(), ic.name), mc::fmt("initial divergence %.6g in cell (%d,%d,%d), max B %.3g", b, i, j, k, bmax));
            }
      }
  }
}

// ---------------------------------------------------------------- uniform flow
static void
mode_uniform()
{
  for (int mhd = 0; mhd < 2; mhd++)
    for (int dim = 2; dim <= 3; dim++)
      for_options(mhd, dim, [&](const std::string & rs, double sl, int im) {
        int ncomb = dim == 2 ? 9 : 27;
        for (int b = 0; b < ncomb; b++)
        {
          Cfg c = base(mhd, dim, shapes(mhd, dim)[b % 2 + 1]);
          c.riemann = rs, c.slope = sl, c.impl = im;
          int t[3] = { b % 3, b / 3 % 3, b / 9 };
          for (int d = 0; d < dim; d++)
            c.bc[2 * d] = c.bc[2 * d + 1] = t[d] == 0 ? PERI : t[d] == 1 ? OUTF : REFL;
          bool mixed = dim == 3 && (t[0] != t[1] || t[1] != t[2]) && b % 4 != 1;
          if (mixed && !mc::A.thorough)
            continue; // quick: a covering subset of the mixed combinations
          if (!mc::item("uniform " + c.desc()))
            continue;
          auto                r = make(c);
          std::vector<double> R = { 0.3, 1.0, 4.0 }, P = { 0.05, 1.0, 6.0 }, V = { 0.0, -0.6, 3.5 }, B = { 0.0, 0.4, -2.0 };
          int                 cnt = 0;
          for (double rho : R)
            for (double p : P)
              for (int vi = 0; vi < 27; vi++)
                for (int bi = 0; bi < (mhd ? 27 : 1); bi++)
                {
                  double v[3] = { V[vi % 3], V[vi / 3 % 3], V[vi / 9] };
                  double bb[3] = { B[bi % 3], B[bi / 3 % 3], B[bi / 9] };
                  if (dim == 2 && !mhd && v[2] != 0)
                    continue;
                  bool skip = false;
                  for (int d = 0; d < dim; d++)
                    if (t[d] == 2 && (v[d] != 0 || bb[d] != 0))
                      skip = true;
                  if (skip)
                    continue;
                  // quick MHD: Latin-square subset of the 27x27 products
                  if (mhd && !mc::A.thorough && ((vi + 2 * bi + (int)(rho * 10) + (int)(p * 7)) % (dim == 3 ? 13 : 5)) != 0)
                    continue;
                  Prim  q{ rho, p, v[0], v[1], v[2], bb[0], bb[1], bb[2] };
                  Field f(c);
                  for (int k = 0; k < f.n[2]; k++)
                    for (int j = 0; j < f.n[1]; j++)
                      for (int i = 0; i < f.n[0]; i++)
                        set_cons(f, i, j, k, q, c.gamma, mhd, dim);
                  r->start(f, cnt & 1, 7.0);
                  double scale = f.maxabs();
                  for (int s = 0; s < 2; s++)
                  {
                    r->next();
                    mc::stat("transitions");
                    Field       g = r->get();
                    std::string w;
                    double      e = maxdiff(f, g, &w) / scale;
                    mc::maxstat("rel_change", e);
                    if (!(e < 1e-12))
                      mc::viol(mc::fmt("uniform:%s:%s:impl%d", c.solver_name().c_str(), rs.c_str(), im),
                               mc::fmt("rho=%g p=%g v=(%g,%g,%g) B=(%g,%g,%g) step %d: %s", rho, p, v[0], v[1], v[2], bb[0], bb[1], bb[2], s + 1, w.c_str()));
                  }
                  mc::state(f.hash());
                  mc::stat("executions");
                  cnt++;
                }
          mc::sample(mc::fmt("%s: %d uniform states, 2 steps each", c.desc().c_str(), cnt));
        }
      });
}

static void
mode_symmetry()
{
  for (int mhd = 0; mhd < 2; mhd++)
    for (int dim = 2; dim <= 3; dim++)
      for_options(mhd, dim, [&](const std::string & rs, double sl, int im) {
        for (size_t si = 1; si < shapes(mhd, dim).size(); si++)
          for (int bcm = 0; bcm < (mhd ? 1 : 4); bcm++)
          {
            Cfg c = base(mhd, dim, shapes(mhd, dim)[si]);
            c.riemann = rs, c.slope = sl, c.impl = im;
            if (bcm == 3)
              c.set_gravity(0.5, -0.75, dim == 3 ? 0.625 : 0);
            if (bcm == 1) // walls and outflow mixed
            {
              c.bc[0] = REFL, c.bc[1] = OUTF, c.bc[2] = OUTF, c.bc[3] = REFL, c.bc[4] = REFL, c.bc[5] = REFL;
            }
            if (bcm == 2)
            {
              c.bc[0] = OUTF, c.bc[1] = OUTF, c.bc[4] = OUTF, c.bc[5] = REFL;
            }
            if (!mc::item("symmetry " + c.desc()))
              continue;
            auto r = make(c);
            bool var = bcm == 3 && si % 2; // gravity varying from cell to cell
            if (var)
              r->set_gravity(gravity_field(c, 1));
            for (auto & g : generators(mhd, dim, bcm == 0 || bcm == 3))
            {
              Cfg  c2 = apply(g, c);
              auto r2 = make(c2);
              if (var)
              { // a vector field transforms as the momentum
                Field m(c), gf(c2.n[0], c2.n[1], c2.dim == 3 ? c2.n[2] : 1, dim);
                for (int d = 0; d < dim; d++)
                  for (int k = 0; k < m.n[2]; k++)
                    for (int j = 0; j < m.n[1]; j++)
                      for (int i = 0; i < m.n[0]; i++)
                        m(i, j, k, 2 + d) = r->g(i, j, k, d);
                m = apply(g, c, c2, m);
                for (int d = 0; d < dim; d++)
                  for (int k = 0; k < m.n[2]; k++)
                    for (int j = 0; j < m.n[1]; j++)
                      for (int i = 0; i < m.n[0]; i++)
                        gf(i, j, k, d) = m(i, j, k, 2 + d);
                r2->set_gravity(gf);
              }
              int  nf = mc::A.thorough ? 30 : 4;
              for (int s = 0; s < nf; s++)
              {
                Field f = make_field(c, s + 100, s % 2 ? 1.0 : 0.4);
                Field g0 = apply(g, c, c2, f);
                r->start(f, s & 1, 7.0);
                r2->start(g0, s & 1, 7.0);
                for (int st = 0; st < 2; st++)
                {
                  r->next();
                  r2->next();
                  mc::stat("transitions", 2);
                  Field a = apply(g, c, c2, r->get()), b = r2->get();
                  mc::state(b.hash());
                  std::string w;
                  double      e = maxdiff(a, b, &w) / fmax(1, a.maxabs());
                  double      edt = fabs(r->dt() - r2->dt()) / r->dt();
                  mc::maxstat("asymmetry", e);
                  if (!(e < 1e-10) || !(edt < 1e-12))
                  {
                    mc::viol(mc::fmt("symmetry:%s:%s:%s:impl%d:slope%g", g.name.c_str(), c.solver_name().c_str(), rs.c_str(), im, sl),
                             mc::fmt("pattern %d step %d dt %.17g vs %.17g: %s", s, st + 1, r->dt(), r2->dt(), w.c_str()));
                    break;
                  }
                }
                mc::stat("executions", 2);
              }
            }
            mc::sample(c.desc() + ": mirror/swap/shift pairs");
          }
      });
}

// ---------------------------------------------------------------- implementations
static void
mode_impls()
{
  for (int mhd = 0; mhd < 2; mhd++)
    for (int dim = 2; dim <= 3; dim++)
      for (auto & rs : riemanns(mhd))
        for (double sl : slopes())
          for (size_t si = 0; si < shapes(mhd, dim).size(); si++)
            for (int bcm = 0; bcm < 3; bcm++)
              for (int grav = 0; grav < (mhd ? 1 : 3); grav++)
              {
                Cfg c = base(mhd, dim, shapes(mhd, dim)[si]);
                c.riemann = rs, c.slope = sl;
                if (bcm == 1)
                  c.all_bc(OUTF);
                if (bcm == 2)
                  c.all_bc(REFL);
                if (bcm == 2 && si % 2)
                  c.bc[0] = c.bc[1] = PERI, c.bc[3] = OUTF;
                if (grav)
                  c.set_gravity(0.5, -0.75, dim == 3 ? 0.625 : 0);
                if (!mc::item(mc::fmt("impls grav=%d ", grav) + c.desc()))
                  continue;
                std::vector<std::unique_ptr<RunBase>> rr;
                for (int im = 0; im < (mhd ? 3 : 2); im++)
                {
                  Cfg d = c;
                  d.impl = im;
                  rr.push_back(make(d));
                  if (grav == 2)
                    rr.back()->set_gravity(gravity_field(d, 1));
                }
                int nf = mc::A.thorough ? 40 : 5;
                for (int s = 0; s < nf; s++)
                {
                  Field f = make_field(c, s + 200, s % 2 ? 1.0 : 0.5);
                  for (auto & r : rr)
                    r->start(f, s & 1, 7.0);
                  bool ok = true;
                  for (int st = 0; st < 2 && ok; st++)
                  {
                    for (auto & r : rr)
                      r->next();
                    mc::stat("transitions", rr.size());
                    Field a = rr[0]->get();
                    mc::state(a.hash());
                    for (size_t m = 1; m < rr.size(); m++)
                    {
                      Field       b = rr[m]->get();
                      std::string w;
                      double      e = maxdiff(a, b, &w) / fmax(1, a.maxabs());
                      double      edt = fabs(rr[0]->dt() - rr[m]->dt()) / rr[0]->dt();
                      mc::maxstat("variant_difference", e);
                      if (!(e < 1e-10) || !(edt < 1e-12))
                      {
                        ok = false;
                        mc::viol(mc::fmt("impl:0-vs-%zu:%s:%s:slope%g:grav%d", m, c.solver_name().c_str(), rs.c_str(), sl, grav), mc::fmt("pattern %d step %d: %s", s, st + 1, w.c_str()));
                      }
                    }
                  }
                  mc::stat("executions", rr.size());
                }
                mc::sample(c.desc() + ": variants compared over 2 steps");
              }
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  std::string m = mc::A.get("mode");
  if (m == "conserve-hydro")
    mode_conserve(false);
  else if (m == "conserve-mhd")
    mode_conserve(true);
  else if (m == "divb")
    mode_divb();
  else if (m == "uniform")
    mode_uniform();
  else if (m == "symmetry")
    mode_symmetry();
  else if (m == "impls")
    mode_impls();
  else
    return 4;
  return mc::done();
}
