// P25 / P08 for the spectral-difference solvers: the state every built-in problem
// gives every solution point (mode "init"), and the ghost cells of the problems with
// border conditions of their own, wedge and jet (mode "ghost").
#include "sdm.h"
#include "init_oracle.h"
using std::string;
using std::vector;
using Map = io_::Cfg;
using Alt = vector<std::pair<string, vector<string>>>;
using namespace sd;

static string
num(double x)
{
  return mc::fmt("%.9g", x);
}
static string
show(const Map & m)
{
  string s;
  for (auto & kv : m)
    if (kv.first.compare(0, 5, "mesh."))
      s += kv.first + "=" + kv.second + " ";
  return s;
}
struct Grid
{
  int    n[3];
  double lo[3], hi[3];
};

static Cfg
config(int dim, int N, const Grid & G, const string & prob, const Map & m, Map & full)
{
  Cfg c;
  c.dim = dim, c.N = N, c.problem = prob;
  c.tEnd = 1;
  c.no_gamma = true;
  full = m;
  for (int d = 0; d < dim; d++)
  {
    c.n[d] = G.n[d], c.xmin[d] = G.lo[d], c.L[d] = G.hi[d] - G.lo[d];
    full[string("mesh.") + "xyz"[d] + "min"] = num(G.lo[d]);
    full[string("mesh.") + "xyz"[d] + "max"] = num(G.hi[d]);
  }
  if (m.count("run.tEnd"))
    c.tEnd = atof(m.at("run.tEnd").c_str());
  full["run.tEnd"] = num(c.tEnd);
  for (int d = 0; d < 6; d++)
    c.bc[d] = OUTF;
  string sec;
  for (auto & kv : m)
  {
    size_t d = kv.first.find('.');
    if (kv.first == "run.tEnd")
      continue;
    if (kv.first == "hydro.gamma0")
    {
      c.no_gamma = false;
      c.gamma = atof(kv.second.c_str());
      continue;
    }
    if (kv.first == "hydro.mu")
    {
      c.mu = atof(kv.second.c_str());
      continue;
    }
    c.extra += "[" + kv.first.substr(0, d) + "]\n" + kv.first.substr(d + 1) + "=" + kv.second + "\n";
  }
  return c;
}

static double
position(ISdm & s, const Grid & G, int d, int cell, int point)
{
  return G.lo[d] + (cell + s.pt(0, point)) * (G.hi[d] - G.lo[d]) / G.n[d];
}

static void
one(int dim, int N, const string & prob, const Grid & G, const Map & m)
{
  if (!mc::item(mc::fmt("SDM%dD N=%d %s %dx%dx%d [%g,%g][%g,%g] ", dim, N, prob.c_str(), G.n[0], G.n[1], G.n[2], G.lo[0], G.hi[0], G.lo[1], G.hi[1]) + show(m)))
    return;
  Map  full;
  Cfg  c = config(dim, N, G, prob, m, full);
  auto s = make(c);
  mc::stat("executions");
  io_::Oracle O(full, dim, false, true);
  F           f = s->get();
  const int   nv = dim + 2;
  const char * who = dim == 2 ? "sdm2d" : "sdm3d";
  f.each([&](const int * i, const int * a) {
    double u[5] = { 0 }, x[3] = { 0, 0, 0 };
    for (int v = 0; v < nv; v++)
      u[v] = f.at(v, i, a);
    for (int d = 0; d < dim; d++)
      x[d] = position(*s, G, d, i[d], a[d]);
    mc::state(mc::hash_bytes(u, sizeof u));
    mc::stat("transitions");
    auto where = [&] { return mc::fmt("cell (%d,%d,%d) point (%d,%d,%d) at (%g,%g,%g)", i[0], i[1], i[2], a[0], a[1], a[2], x[0], x[1], x[2]); };
    for (int v = 0; v < nv; v++)
      if (!std::isfinite(u[v]))
        return mc::viol("not-finite:" + prob, mc::fmt("%s: variable %d is %g", where().c_str(), v, u[v]));
    double ke = (u[IU] * u[IU] + u[IV] * u[IV] + u[IW] * u[IW]) / (2 * u[ID]), p = (u[IP] - ke) * (O.g() - 1);
    if (!(u[ID] > 0) || !(p > 0))
      return mc::viol((!(u[ID] > 0) ? "density:" : "pressure:") + prob + ":" + who, mc::fmt("%s: density %g pressure %g", where().c_str(), u[ID], p));
    io_::St A, B;
    O.tie = 1e-9;
    if (!O(prob, x, A))
      return;
    O.tie = -1e-9;
    O(prob, x, B);
    O.tie = 0;
    mc::stat("points_with_prescribed_state");
    double rnd = O.random(prob);
    int    bad = -1;
    auto   close = [&](const io_::St & o) {
      if (rnd > 0)
      {
        // the velocity deviates by at most the amplitude asked for
        double po = (o[IP] - (o[IU] * o[IU] + o[IV] * o[IV] + o[IW] * o[IW]) / (2 * o[ID])) * (O.g() - 1);
        if (!(std::fabs(u[ID] - o[ID]) <= 2e-7 * o[ID]) || !(std::fabs(p - po) <= 1e-6 * po))
          return bad = ID, false;
        for (int v = 2; v < nv; v++)
          if (!(std::fabs(u[v] / u[ID] - o[v] / o[ID]) <= rnd * (1 + 1e-6) + 1e-7))
            return bad = v, false;
        return true;
      }
      double sc = 1;
      for (double q : o)
        sc = std::fmax(sc, std::fabs(q));
      for (int v = 0; v < nv; v++)
        if (!(std::fabs(u[v] - o[v]) <= 2e-7 * (v == IP ? sc : std::fmax(1, std::sqrt(sc)))))
          return bad = v, false;
      return true;
    };
    if (!close(A) && !close(B))
      mc::viol(mc::fmt("state:%s:%s:v%d", prob.c_str(), who, bad), mc::fmt("%s: variable %d is %.12g instead of %.12g", where().c_str(), bad, u[bad], A[bad]));
  });
  if (O.random(prob) > 0)
    return;
  // cells visited in another order
  for (auto o : { mck::Order::REVERSE, mck::Order::SHUFFLE })
  {
    mck::rt().order = o;
    auto t = make(c);
    mck::rt().order = mck::Order::FORWARD;
    mc::stat("executions");
    F      h = t->get();
    string w;
    if (memcmp(h.d.data(), f.d.data(), h.d.size() * 8))
    {
      diff(f, h, &w);
      mc::viol("order:" + prob, "the initial state depends on the order in which cells are visited: " + w);
    }
  }
}

//! ghost cells of wedge and jet, at several times
static void
ghost(int dim, int N, const string & prob, const Grid & G, const Map & m)
{
  for (double time : { 0.0, 0.0625, 0.25 })
  {
    if (!mc::item(mc::fmt("ghosts SDM%dD N=%d %s %dx%dx%d [%g,%g][%g,%g] time %g ", dim, N, prob.c_str(), G.n[0], G.n[1], G.n[2], G.lo[0], G.hi[0], G.lo[1], G.hi[1], time) + show(m)))
      continue;
    Map  full;
    Cfg  c = config(dim, N, G, prob, m, full);
    auto s = make(c);
    mc::stat("executions");
    const int nv = dim + 2, g = s->gw();
    F         f = s->get();
    // every point of every cell holds its own value
    int q = 0;
    f.each([&](const int * i, const int * a) {
      for (int v = 0; v < nv; v++)
        f.at(v, i, a) = v == IP ? 1000 + q++ : 1 + 0.0625 * q++;
    });
    s->put(f, NAN);
    s->t() = time;
    s->fill();
    mc::stat("transitions");
    io_::Oracle  O(full, dim, false, true);
    const double pi = std::acos(-1.0);
    const double xf = O.get("wedge.front_x", 0.1), ang = O.get("wedge.front_angle", pi / 3), sp = O.get("wedge.shock_speed", 10) / std::sin(ang);
    const double pj = O.get("jet.pos_jet", 0), wj = O.get("jet.width_jet", 0.1);
    int          e[3] = { s->params().isize, s->params().jsize, dim == 3 ? s->params().ksize : 1 }, i[3];
    int          gz = dim == 3 ? g : 0;
    for (i[2] = 0; i[2] < e[2]; i[2]++)
      for (i[1] = 0; i[1] < e[1]; i[1]++)
        for (i[0] = 0; i[0] < e[0]; i[0]++)
        {
          int r[3] = { i[0] - g, i[1] - g, i[2] - gz }, out = 0, dir = 0;
          for (int d = 0; d < dim; d++)
            if (r[d] < 0 || r[d] >= G.n[d])
              out++, dir = d;
          if (out == 0)
          {
            f.each_pt([&](const int * a) {
              for (int v = 0; v < nv; v++)
              {
                double w = s->raw(0, i, a, v), z = f.at(v, r, a);
                if (memcmp(&w, &z, 8))
                  mc::viol("interior:" + prob, mc::fmt("cell (%d,%d,%d) point (%d,%d,%d) variable %d changes from %.12g to %.12g", r[0], r[1], r[2], a[0], a[1], a[2], v, z, w));
              }
            });
            continue;
          }
          if (out > 1)
            continue; // edges are not read by the scheme without viscosity; with it they may be of either side
          bool low = r[dir] < 0;
          f.each_pt([&](const int * a) {
            double w[5], x[3] = { 0, 0, 0 };
            for (int v = 0; v < nv; v++)
              w[v] = s->raw(0, i, a, v);
            for (int d = 0; d < dim; d++)
              x[d] = position(*s, G, d, r[d], a[d]);
            mc::stat("ghost_points");
            auto where = [&] { return mc::fmt("ghost cell (%d,%d,%d) point (%d,%d,%d) at (%g,%g,%g)", r[0], r[1], r[2], a[0], a[1], a[2], x[0], x[1], x[2]); };
            // candidates: the prescribed flow, the image of the interior
            vector<io_::St> cand;
            auto            inner = [&](bool mirror, bool flip, bool sym) {
              int j[3] = { r[0], r[1], r[2] }, b[3] = { a[0], a[1], a[2] };
              j[dir] = low ? 0 : G.n[dir] - 1;
              if (sym)
                j[dir] = low ? -1 - r[dir] : 2 * G.n[dir] - 1 - r[dir];
              if (mirror)
                b[dir] = N - 1 - a[dir];
              io_::St t = {};
              for (int v = 0; v < nv; v++)
                t[v] = f.at(v, j, b) * (flip && v == IU + dir ? -1 : 1);
              cand.push_back(t);
            };
            for (double tie : { -1e-9, 1e-9 })
            {
              if (prob == "wedge")
              {
                if (dir == IX && low)
                  cand.push_back(O.wedge(true));
                else if (dir == IX)
                  inner(true, false, false), inner(false, false, false);
                else if (low && x[0] < xf + tie)
                  cand.push_back(O.wedge(true));
                else if (low)
                  inner(true, true, true);
                else
                  cand.push_back(O.wedge(x[0] < xf + x[1] / std::tan(ang) + sp * time + tie));
              }
              else if (dir == IX && low)
              {
                double y = x[1] - pj, z = x[2] - pj;
                cand.push_back(O.jet(dim == 2 ? std::fabs(y) < 0.5 * wj + tie : std::sqrt(y * y + z * z) < 0.5 * wj + tie));
              }
              else
                inner(true, false, false), inner(false, false, false);
            }
            bool ok = false;
            for (auto & t : cand)
            {
              bool same = true;
              for (int v = 0; v < nv; v++)
                same = same && std::fabs(w[v] - t[v]) <= 4e-7 * (std::fabs(t[v]) + (v == IP ? 1 : 1e-3 * (1 + std::fabs(t[2]))));
              ok = ok || same;
            }
            if (!ok)
              mc::viol(mc::fmt("ghost:%s:%c%s", prob.c_str(), "xyz"[dir], low ? "min" : "max"),
                       mc::fmt("%s holds (%g,%g,%g,%g) instead of (%g,%g,%g,%g)", where().c_str(), w[0], w[1], w[2], w[3], cand[0][0], cand[0][1], cand[0][2], cand[0][3]));
          });
        }
  }
}

template <class Fn>
static void
family(Fn f, int dim, const string & prob, const Alt & alt, const vector<Grid> & grids, const Map & extra = {})
{
  for (auto & kv : makers())
  {
    int d = kv.first.first, N = kv.first.second;
    if (d != dim)
      continue;
    size_t ng = 0;
    for (auto & G : grids)
    {
      ng++;
      f(dim, N, prob, G, extra);
      if (!mc::A.thorough && dim == 3 && N > 2 && ng > 1)
        continue;
      for (auto & a : alt)
        for (auto & t : a.second)
        {
          Map m = extra;
          m[a.first] = t;
          f(dim, N, prob, G, m);
        }
      for (size_t q = 0; q < 2; q++)
      {
        Map m = extra;
        for (auto & a : alt)
          m[a.first] = a.second[q % a.second.size()];
        f(dim, N, prob, G, m);
      }
      if (mc::A.thorough)
        for (size_t a = 0; a < alt.size(); a++)
          for (size_t b = a + 1; b < alt.size(); b++)
            for (auto & x : alt[a].second)
              for (auto & y : alt[b].second)
              {
                Map m = extra;
                m[alt[a].first] = x;
                m[alt[b].first] = y;
                f(dim, N, prob, G, m);
              }
    }
  }
}

void
sdm_init_modes(const string & MODE)
{
  const vector<Grid> g2 = { { { 4, 4, 1 }, { 0, 0, 0 }, { 1, 1, 1 } }, { { 3, 5, 1 }, { -0.5, 0.25, 0 }, { 1, 1.5, 1 } }, { { 5, 2, 1 }, { -1, -1, 0 }, { 0.5, 1, 1 } }, { { 1, 4, 1 }, { 0, -0.25, 0 }, { 1, 1, 1 } } };
  const vector<Grid> g3 = { { { 3, 2, 2 }, { 0, 0, 0 }, { 1, 1, 1 } }, { { 2, 3, 4 }, { -0.5, -1, 0.25 }, { 0.5, 1, 1 } }, { { 3, 1, 2 }, { -1, 0, -0.5 }, { 1, 0.5, 1.5 } } };
  const vector<Grid> c2 = { { { 4, 4, 1 }, { -0.5, -0.5, 0 }, { 0.5, 0.5, 1 } }, { { 3, 5, 1 }, { -0.75, -0.5, 0 }, { 0.5, 0.5, 1 } } };
  const vector<Grid> c3 = { { { 3, 3, 2 }, { -0.5, -0.5, -0.25 }, { 0.5, 0.5, 0.5 } }, { { 2, 4, 1 }, { -0.75, -0.5, 0 }, { 0.5, 0.5, 1 } } };
  const vector<Grid> s2 = { { { 6, 2, 1 }, { -5, 0, 0 }, { 5, 1, 1 } }, { { 5, 3, 1 }, { -4.5, -1, 0 }, { -3.25, 1, 1 } } };
  const vector<Grid> s3 = { { { 6, 2, 1 }, { -5, 0, 0 }, { 5, 1, 1 } }, { { 5, 1, 2 }, { -4.5, -1, 0.5 }, { -3.25, 1, 1 } } };
  const Alt gam = { { "hydro.gamma0", { "1.5", "1.625" } } };

  Alt imp = { { "implode.density_outer", { "2", "0.5" } }, { "implode.pressure_outer", { "3", "0.25" } }, { "implode.vx_outer", { "0.5", "-1" } }, { "implode.vy_outer", { "-0.25", "2" } },
              { "implode.density_inner", { "0.375", "4" } }, { "implode.pressure_inner", { "0.625", "8" } }, { "implode.vx_inner", { "1.5", "-0.5" } },
              { "implode.vy_inner", { "-1.25", "0.125" } }, { "implode.shape_region", { "1", "0" } }, { "hydro.gamma0", { "1.5", "2" } } };
  Alt imp3 = imp;
  imp3.push_back({ "implode.vz_outer", { "0.75", "-2" } });
  imp3.push_back({ "implode.vz_inner", { "0.875", "-3" } });
  Alt bl = { { "blast.radius", { "0.25", "0.375" } }, { "blast.center_x", { "0.25", "0" } }, { "blast.center_y", { "0.75", "0.5" } }, { "blast.center_z", { "0.375", "0.25" } }, { "blast.density_in", { "2", "0.25" } },
             { "blast.density_out", { "0.5", "3" } }, { "blast.pressure_in", { "5", "0.5" } }, { "blast.pressure_out", { "0.75", "2" } }, { "hydro.gamma0", { "1.5", "2" } } };
  Alt kh = { { "KH.d_in", { "2", "0.5" } }, { "KH.d_out", { "3", "0.25" } }, { "KH.pressure", { "2.5", "20" } }, { "KH.vflow_in", { "0.25", "-1" } }, { "KH.vflow_out", { "1", "-0.125" } }, { "KH.mode", { "3", "1" } },
             { "KH.w0", { "0.25", "0.5" } }, { "KH.delta", { "0.125", "0.0625" } } };
  Alt kh2 = kh, kh3 = kh;
  kh2.pop_back();
  kh3.resize(5);
  kh3.push_back({ "KH.amplitude", { "0", "0.5" } });
  const Map sine = { { "KH.perturbation_sine", "yes" }, { "KH.perturbation_sine_robertson", "no" } }, rnd = { { "KH.perturbation_rand", "yes" } };
  Alt gr = { { "Gresho.rho0", { "2", "0.5" } }, { "Gresho.Ma", { "0.25", "0.125" } }, { "hydro.gamma0", { "1.5", "2" } } };
  Alt fq = { { "riemann2d.config_number", {} }, { "riemann2d.x", { "0.5", "0.25" } }, { "riemann2d.y", { "0.5", "0.75" } } };
  for (int k = 1; k < 19; k++)
    fq[0].second.push_back(std::to_string(k));
  Alt iv = { { "isentropic_vortex.density_ambient", { "2", "0.5" } }, { "isentropic_vortex.temperature_ambient", { "2", "1.5" } }, { "isentropic_vortex.vx_ambient", { "0.5", "-1" } }, { "isentropic_vortex.vy_ambient", { "0", "2" } },
             { "isentropic_vortex.center_x", { "0.25", "0" } }, { "isentropic_vortex.center_y", { "0.5", "0.75" } }, { "isentropic_vortex.strength", { "1", "2.5" } }, { "isentropic_vortex.use_tEnd", { "yes", "no" } }, { "run.tEnd", { "0.375", "2.75" } },
             { "hydro.gamma0", { "1.5", "1.625" } } };
  Alt we = { { "wedge.front_x", { "0.25", "-0.125" } }, { "wedge.front_angle", { "1.25", "0.75" } }, { "wedge.rho1", { "4", "2" } }, { "wedge.p1", { "50", "3" } }, { "wedge.u1", { "1.5", "-2" } }, { "wedge.v1", { "-0.5", "1" } },
             { "wedge.rho2", { "1", "0.5" } }, { "wedge.p2", { "2", "0.25" } }, { "wedge.u2", { "0.5", "-1" } }, { "wedge.v2", { "-0.25", "2" } }, { "hydro.gamma0", { "1.5", "2" } } };
  Alt je = { { "jet.rho_jet", { "4", "2" } }, { "jet.p_jet", { "50", "3" } }, { "jet.u_jet", { "1.5", "-2" } }, { "jet.v_jet", { "-0.5", "1" } }, { "jet.rho_bulk", { "1", "0.25" } }, { "jet.p_bulk", { "2", "0.25" } }, { "jet.u_bulk", { "0.5", "-1" } },
             { "jet.v_bulk", { "-0.25", "2" } }, { "hydro.gamma0", { "1.5", "2" } } };
  Alt we3 = we, je3 = je;
  we3.push_back({ "wedge.w1", { "0.5", "-1" } });
  we3.push_back({ "wedge.w2", { "-0.75", "2" } });
  je3.push_back({ "jet.w_jet", { "0.5", "-1" } });
  je3.push_back({ "jet.w_bulk", { "-0.75", "2" } });
  for (auto & a : { &we, &we3 })
    if (MODE == "ghost")
      a->push_back({ "wedge.shock_speed", { "1", "3" } });
  for (auto & a : { &je, &je3 })
    if (MODE == "ghost")
    {
      a->push_back({ "jet.pos_jet", { "0.25", "-0.125" } });
      a->push_back({ "jet.width_jet", { "0.5", "1.25" } });
    }
  if (MODE == "ghost")
  {
    for (string mu : { "", "0.015625" })
    {
      Map e;
      if (mu != "")
        e["hydro.mu"] = mu; // two layers of ghost cells
      family(ghost, 2, "wedge", we, g2, e);
      family(ghost, 2, "jet", je, g2, e);
      family(ghost, 3, "jet", je3, g3, e);
    }
    return;
  }
  family(one, 2, "sod", gam, g2);
  family(one, 3, "sod", gam, g3);
  family(one, 2, "shu_osher", gam, s2);
  family(one, 3, "shu_osher", gam, s3);
  family(one, 2, "implode", imp, g2);
  family(one, 3, "implode", imp3, g3);
  family(one, 2, "blast", bl, g2);
  family(one, 3, "blast", bl, g3);
  family(one, 2, "kelvin_helmholtz", kh, g2);
  family(one, 3, "kelvin_helmholtz", kh, g3);
  family(one, 2, "kelvin_helmholtz", kh2, g2, sine);
  family(one, 3, "kelvin_helmholtz", kh2, g3, sine);
  family(one, 2, "kelvin_helmholtz", kh3, g2, rnd);
  family(one, 3, "kelvin_helmholtz", kh3, g3, rnd);
  family(one, 2, "gresho_vortex", gr, c2);
  family(one, 3, "gresho_vortex", gr, c3);
  family(one, 2, "four_quadrant", fq, g2);
  family(one, 3, "four_quadrant", {}, { g3[0] });
  family(one, 2, "isentropic_vortex", iv, g2);
  family(one, 3, "isentropic_vortex", iv, g3);
  family(one, 2, "wedge", we, g2);
  family(one, 3, "wedge", we3, g3);
  family(one, 2, "jet", je, g2);
  family(one, 3, "jet", je3, g3);
  family(one, 2, "no_such_problem", {}, g2);
}
