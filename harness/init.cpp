// P25: the state every built-in problem gives every interior cell, for every
// grid shape, domain and parameter choice of a bounded space, against the
// function of position the problem prescribes.
#include "fv.h"
#include "init_oracle.h"
using namespace fv;
using std::string;
using std::vector;
using Map = io_::Cfg;

static string
ini_text(const Map & m)
{
  string text;
  for (auto & kv : m)
  {
    size_t d = kv.first.find('.');
    text += "[" + kv.first.substr(0, d) + "]\n" + kv.first.substr(d + 1) + "=" + kv.second + "\n";
  }
  return text;
}

static string
show(const Map & m)
{
  string s;
  for (auto & kv : m)
    if (kv.first.compare(0, 5, "mesh.") && kv.first.compare(0, 4, "run.") && kv.first.compare(0, 7, "output."))
      s += kv.first + "=" + kv.second + " ";
  return s;
}

static string
num(double x)
{
  return mc::fmt("%.9g", x);
}

struct Grid
{
  int    n[3];
  double lo[3], hi[3];
};

//! names of parameters with two other values
using Alt = vector<std::pair<string, vector<string>>>;

template <class S, int dim>
struct Sol
{
  ConfigMap          cm;
  HydroParams        prm;
  std::unique_ptr<S> s;
  static ConfigMap   make(const Map & m)
  {
    string t = ini_text(m);
    char * b = const_cast<char *>(t.data());
    return ConfigMap(b, (int)t.size());
  }
  explicit Sol(const Map & m)
    : cm(make(m))
  {
    prm.setup(cm);
    s.reset(new S(prm, cm));
  }
  double & U(int i, int j, int k, int v) { return at2(s->U, i, j, k, v, std::integral_constant<int, dim>()); }
  int      g() const { return prm.ghostWidth; }
};

inline double
getg(muscl::SolverHydroMuscl<2> & s, int i, int j, int, int d)
{
  return s.gravity(i, j, d);
}
inline double
getg(muscl::SolverHydroMuscl<3> & s, int i, int j, int k, int d)
{
  return s.gravity(i, j, k, d);
}
template <class S>
double
getg(S &, int, int, int, int)
{
  return 0;
}

template <class S, int dim, bool mhd>
struct Family
{
  using So = Sol<S, dim>;
  static constexpr int nv = mhd ? 8 : dim + 2;

  static Map base(const Grid & G, const string & prob)
  {
    Map m;
    m["run.solver_name"] = string(mhd ? "MHD" : "Hydro") + "_Muscl_" + (dim == 2 ? "2D" : "3D");
    m["run.tEnd"] = "1";
    m["run.nStepmax"] = "0";
    m["hydro.problem"] = prob;
    m["hydro.riemann"] = mhd ? "hlld" : "hllc";
    m["output.outputDir"] = ".";
    const char * X = "xyz";
    for (int d = 0; d < dim; d++)
    {
      m[string("mesh.n") + X[d]] = std::to_string(G.n[d]);
      m[string("mesh.") + X[d] + "min"] = num(G.lo[d]);
      m[string("mesh.") + X[d] + "max"] = num(G.hi[d]);
      m[string("mesh.boundary_type_") + X[d] + "min"] = "2";
      m[string("mesh.boundary_type_") + X[d] + "max"] = "2";
    }
    return m;
  }
  template <class F>
  static void each(So & s, F f)
  {
    int g = s.g();
    for (int k = dim == 3 ? g : 0; k < (dim == 3 ? s.prm.ksize - g : 1); k++)
      for (int j = g; j < s.prm.jsize - g; j++)
        for (int i = g; i < s.prm.isize - g; i++)
          f(i, j, k);
  }
  static void pos(const Grid & G, int g, int i, int j, int k, double * x)
  {
    int q[3] = { i, j, k };
    for (int d = 0; d < dim; d++)
      x[d] = G.lo[d] + (q[d] - g + 0.5) * (G.hi[d] - G.lo[d]) / G.n[d];
  }

  static void one(const Map & m, const string & prob, const Grid & G, bool symmetric)
  {
    if (!mc::item(m.at("run.solver_name") + " " + mc::fmt("%dx%dx%d [%g,%g][%g,%g] ", G.n[0], G.n[1], G.n[2], G.lo[0], G.hi[0], G.lo[1], G.hi[1]) + show(m)))
      return;
    So s(m);
    mc::stat("executions");
    const int  g = s.g();
    const bool grav = prob == "rayleigh_taylor" || prob == "rising_bubble" || prob == "disk";
    const bool on = m.count("gravity.static") || m.count("gravity.point");
    io_::Oracle O(m, dim, mhd);
    for (int d = 0; d < 3; d++)
    {
      O.n[d] = d < dim ? G.n[d] : 1;
      O.h[d] = d < dim ? (G.hi[d] - G.lo[d]) / G.n[d] : 0;
    }
    vector<double> first;
    each(s, [&](int i, int j, int k) {
      double u[8] = { 0 };
      for (int v = 0; v < nv; v++)
        u[v] = s.U(i, j, k, v), first.push_back(u[v]);
      double x[3] = { 0, 0, 0 };
      pos(G, g, i, j, k, x);
      mc::state(mc::hash_bytes(u, sizeof u));
      mc::stat("transitions");
      // admissible
      double gam = O.g(), ke = (u[IU] * u[IU] + u[IV] * u[IV] + (nv > 4 ? u[IW] * u[IW] : 0)) / (2 * u[ID]);
      double bx = u[5], by = u[6], bz = u[7];
      if (mhd)
      {
        bx = 0.5 * (bx + s.U(i + 1, j, k, IBX));
        by = 0.5 * (by + s.U(i, j + 1, k, IBY));
        if (dim == 3)
          bz = 0.5 * (bz + s.U(i, j, k + 1, IBZ));
      }
      double p = (u[IP] - ke - 0.5 * (bx * bx + by * by + bz * bz)) * (gam - 1);
      if (!mhd)
        p = (u[IP] - ke) * (gam - 1);
      for (int v = 0; v < nv; v++)
        if (!std::isfinite(u[v]))
          mc::viol("not-finite:" + prob, mc::fmt("cell (%d,%d,%d) variable %d is %g", i, j, k, v, u[v]));
      if (!(u[ID] > 0) || !(p > 0))
        mc::viol((!(u[ID] > 0) ? "density:" : "pressure:") + prob + (mhd ? ":mhd" : ":hydro") + (dim == 2 ? "2d" : "3d"),
                 mc::fmt("cell (%d,%d,%d) at (%g,%g,%g): density %g pressure %g", i, j, k, x[0], x[1], x[2], u[ID], p));
      // the prescribed function of position
      io_::St a, b;
      O.tie = 1e-9;
      if (O(prob, x, a))
      {
        O.tie = -1e-9;
        O(prob, x, b);
        mc::stat("cells_with_prescribed_state");
        double sc = 1;
        for (double q : a)
          sc = std::fmax(sc, std::fabs(q));
        int bad = -1;
        const double rnd = O.random(prob);
        auto close = [&](const io_::St & o) {
          if (rnd > 0)
          {
            // the velocity deviates by at most the amplitude asked for
            double po = (o[IP] - (o[IU] * o[IU] + o[IV] * o[IV] + o[IW] * o[IW]) / (2 * o[ID])) * (gam - 1);
            if (!(std::fabs(u[ID] - o[ID]) <= 2e-7 * o[ID]) || !(std::fabs(p - po) <= 1e-6 * po))
              return bad = ID, false;
            for (int v = 2; v < nv; v++)
              if (!(std::fabs(u[v] / u[ID] - o[v] / o[ID]) <= rnd * (1 + 1e-6) + 1e-7))
                return bad = v, false;
            return true;
          }
          for (int v = 0; v < nv; v++)
          {
            // 2D MHD stores all components; 2D hydro has no third momentum
            if (!(std::fabs(u[v] - o[v]) <= 2e-7 * sc))
            {
              bad = v;
              return false;
            }
          }
          return true;
        };
        if (!close(a) && !close(b))
          mc::viol(mc::fmt("state:%s:%s%dd:v%d", prob.c_str(), mhd ? "mhd" : "hydro", dim, bad),
                   mc::fmt("cell (%d,%d,%d) at (%g,%g,%g): variable %d is %.12g instead of %.12g", i, j, k, x[0], x[1], x[2], bad, u[bad], a[bad]));
      }
      if (grav && on)
      {
        double want[3] = { 0, 0, 0 };
        if (prob != "disk")
          for (int d = 0; d < dim; d++)
            want[d] = O.get(prob + ".g" + "xyz"[d], d == 1 ? -0.1 : 0);
        else
        {
          // point source softened, in the frame of the disk centre
          double GM = O.get("gravity.G", 1) * O.get("gravity.M", 1), eps = O.get("gravity.soften", 0.01), r2 = eps * eps, dd[3];
          for (int d = 0; d < dim; d++)
          {
            dd[d] = x[d] - O.get(string("disk.") + "xyz"[d] + "c", (G.lo[d] + G.hi[d]) / 2) - O.get(string("gravity.") + "xyz"[d], 0);
            r2 += dd[d] * dd[d];
          }
          for (int d = 0; d < dim; d++)
            want[d] = -GM * dd[d] / std::pow(r2, 1.5);
        }
        for (int d = 0; d < dim; d++)
        {
          double q = getg(*s.s, i, j, k, d);
          if (!(std::fabs(q - want[d]) <= 2e-7 * (1 + std::fabs(want[d]))))
            mc::viol("gravity:" + prob, mc::fmt("cell (%d,%d,%d) component %d: %.12g instead of %.12g", i, j, k, d, q, want[d]));
        }
      }
    });
    if (O.random(prob) > 0)
      return;
    // rotationally symmetric about the centre: a quarter turn maps the field to itself
    if (symmetric && G.n[0] == G.n[1])
    {
      int n = G.n[0];
      each(s, [&](int i, int j, int k) {
        int i2 = g + (n - 1 - (j - g)), j2 = i; // (x,y) -> (-y,x)
        if (i2 == i && j2 == j)
          return; // on the axis: the softened disk velocity has no direction there
        double w[8], r[8];
        for (int v = 0; v < nv; v++)
          w[v] = s.U(i, j, k, v), r[v] = s.U(i2, j2, k, v);
        double sc = 1;
        for (int v = 0; v < nv; v++)
          sc = std::fmax(sc, std::fabs(w[v]));
        double want[8];
        memcpy(want, w, sizeof w);
        want[IU] = -w[IV];
        want[IV] = w[IU];
        for (int v = 0; v < nv; v++)
          if (!(std::fabs(r[v] - want[v]) <= 1e-9 * sc))
            mc::viol("symmetry:" + prob, mc::fmt("cells (%d,%d,%d) and (%d,%d,%d), variable %d: %.12g, expected %.12g", i, j, k, i2, j2, k, v, r[v], want[v]));
        mc::stat("symmetry_comparisons");
      });
    }
    // again, on an array that holds garbage, cells visited in another order
    for (auto o : { mck::Order::REVERSE, mck::Order::SHUFFLE })
    {
      mck::rt().order = o;
      auto & U = s.s->U;
      for (size_t q = 0; q < U.size(); q++)
        U.data()[q] = NAN;
      s.s->init(U);
      mck::rt().order = mck::Order::FORWARD;
      size_t q = 0;
      mc::stat("executions");
      each(s, [&](int i, int j, int k) {
        for (int v = 0; v < nv; v++, q++)
        {
          double w = s.U(i, j, k, v);
          if (w != w && first[q] == 0)
            continue; // left at the zero the array is created with
          if (!(std::memcmp(&w, &first[q], 8) == 0))
            mc::viol("order:" + prob, mc::fmt("cell (%d,%d,%d) variable %d is %.17g when the cells are visited in another order, else %.17g", i, j, k, v, w, first[q]));
        }
      });
    }
    // three times finer grid: every third cell has the same centre
    if (prob != "field_loop" && prob != "wave" && prob != "kelvin_helmholtz")
    {
      Grid F = G;
      Map  mf = m;
      for (int d = 0; d < dim; d++)
      {
        F.n[d] = 3 * G.n[d];
        mf[string("mesh.n") + "xyz"[d]] = std::to_string(F.n[d]);
      }
      if (dim == 2 || F.n[0] * F.n[1] * F.n[2] < 6000)
      {
        So f(mf);
        mc::stat("executions");
        each(s, [&](int i, int j, int k) {
          double x[3] = { 0, 0, 0 };
          pos(G, g, i, j, k, x);
          io_::St a, b;
          O.tie = 1e-9;
          bool know = O(prob, x, a);
          O.tie = -1e-9;
          if (know && O(prob, x, b) && a != b)
            return; // on a discontinuity
          if (prob == "disk" && std::hypot(x[0] - O.get("disk.xc", (G.lo[0] + G.hi[0]) / 2), x[1] - O.get("disk.yc", (G.lo[1] + G.hi[1]) / 2)) < 1e-9)
            return; // on the axis: the softened disk velocity has no direction there
          for (int v = 0; v < nv; v++)
          {
            // the energy of MHD problems holds the mean of the face field, which depends on the cell size
            double p = s.U(i, j, k, v), q = f.U(g + 3 * (i - g) + 1, g + 3 * (j - g) + 1, dim == 3 ? g + 3 * (k - g) + 1 : 0, v);
            if (!(std::fabs(p - q) <= 1e-9 * (1 + std::fabs(p))))
              mc::viol("position:" + prob, mc::fmt("cell (%d,%d,%d) variable %d: %.12g, on the finer grid the cell with the same centre has %.12g", i, j, k, v, p, q));
          }
          mc::stat("same_centre_comparisons");
        });
      }
    }
  }

  static void all(const string & prob, const Alt & alt, const vector<Grid> & grids, bool symmetric, const Map & extra = {})
  {
    for (auto & G : grids)
    {
      Map m0 = base(G, prob);
      for (auto & kv : extra)
        m0[kv.first] = kv.second;
      one(m0, prob, G, symmetric);
      // each parameter alone, all together, and (thorough) every pair
      for (auto & a : alt)
        for (auto & t : a.second)
        {
          Map m = m0;
          m[a.first] = t;
          one(m, prob, G, false);
        }
      for (size_t q = 0; q < 2; q++)
      {
        Map m = m0;
        for (auto & a : alt)
          m[a.first] = a.second[q % a.second.size()];
        one(m, prob, G, false);
      }
      if (mc::A.thorough)
        for (size_t a = 0; a < alt.size(); a++)
          for (size_t b = a + 1; b < alt.size(); b++)
            for (auto & s : alt[a].second)
              for (auto & t : alt[b].second)
              {
                Map m = m0;
                m[alt[a].first] = s;
                m[alt[b].first] = t;
                one(m, prob, G, false);
              }
    }
  }
};

using H2 = Family<muscl::SolverHydroMuscl<2>, 2, false>;
using H3 = Family<muscl::SolverHydroMuscl<3>, 3, false>;
using M2 = Family<muscl::SolverMHDMuscl<2>, 2, true>;
using M3 = Family<muscl::SolverMHDMuscl<3>, 3, true>;

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  Kokkos::ScopeGuard K(argc, argv);
  const double       P = 0.0625;
  vector<Grid>       g2 = { { { 8, 8, 1 }, { 0, 0, 0 }, { 1, 1, 1 } },
                            { { 6, 10, 1 }, { -0.5, 0.25, 0 }, { 1, 1.5, 1 } },
                            { { 9, 5, 1 }, { -1, -1, 0 }, { 0.5, 1, 1 } },
                            { { 1, 7, 1 }, { 0, -0.25, 0 }, { 1, 1, 1 } } };
  vector<Grid>       g3 = { { { 6, 6, 4 }, { 0, 0, 0 }, { 1, 1, 1 } }, { { 3, 4, 5 }, { -0.5, -1, 0.25 }, { 0.5, 1, 1 } }, { { 5, 3, 6 }, { -1, 0, -0.5 }, { 1, 0.5, 1.5 } } };
  vector<Grid>       c2 = { { { 12, 12, 1 }, { -0.5, -0.5, 0 }, { 0.5, 0.5, 1 } }, { { 7, 7, 1 }, { -0.5, -0.5, 0 }, { 0.5, 0.5, 1 } }, { { 9, 6, 1 }, { -0.75, -0.5, 0 }, { 0.5, 0.5, 1 } } };
  vector<Grid>       c3 = { { { 8, 8, 4 }, { -0.5, -0.5, -0.25 }, { 0.5, 0.5, 0.5 } }, { { 5, 5, 6 }, { -0.5, -0.5, -0.5 }, { 0.5, 0.5, 0.5 } }, { { 5, 4, 3 }, { -0.75, -0.5, 0 }, { 0.5, 0.5, 1 } } };
  if (mc::A.thorough)
  {
    for (auto v : { &g2, &c2 })
      for (int nx : { 2, 3, 11, 16 })
        for (int ny : { 1, 4, 13 })
          v->push_back({ { nx, ny, 1 }, { -0.25 * (nx % 3), 0.125 * (ny % 2), 0 }, { 1.25, 0.75, 1 } });
    for (auto v : { &g3, &c3 })
      for (int nx : { 1, 2, 7 })
        for (int ny : { 2, 5 })
          for (int nz : { 1, 3, 6 })
            v->push_back({ { nx, ny, nz }, { -0.25 * (nx % 3), 0.125 * (ny % 2), -0.5 * (nz % 2) }, { 1.25, 0.75, 1.5 } });
  }

  // hydro and MHD
  Alt imp = { { "implode.density_outer", { "2", "0.5" } }, { "implode.pressure_outer", { "3", "0.25" } }, { "implode.vx_outer", { "0.5", "-1" } }, { "implode.vy_outer", { "-0.25", "2" } },
              { "implode.vz_outer", { "0.75", "-2" } }, { "implode.density_inner", { "0.375", "4" } }, { "implode.pressure_inner", { "0.625", "8" } }, { "implode.vx_inner", { "1.5", "-0.5" } },
              { "implode.vy_inner", { "-1.25", "0.125" } }, { "implode.vz_inner", { "0.875", "-3" } }, { "implode.shape_region", { "1", "0" } }, { "hydro.gamma0", { "1.5", "2" } } };
  Alt impB = imp;
  for (string o : { "outer", "inner" })
    for (string x : { "x", "y", "z" })
      impB.push_back({ "implode.B" + x + "_" + o, o == "outer" ? vector<string>{ x == "x" ? "0.5" : "-0.75", "1" } : vector<string>{ "0.25", x == "z" ? "2" : "-1" } });
  Alt bl = { { "blast.radius", { "0.25", "0.375" } }, { "blast.center_x", { "0.25", "0" } }, { "blast.center_y", { "0.75", "0.5" } }, { "blast.center_z", { "0.375", "0.25" } }, { "blast.density_in", { "2", "0.25" } },
             { "blast.density_out", { "0.5", "3" } }, { "blast.pressure_in", { "5", "0.5" } }, { "blast.pressure_out", { "0.75", "2" } }, { "hydro.gamma0", { "1.5", "2" } } };
  Alt kh = { { "KH.d_in", { "2", "0.5" } }, { "KH.d_out", { "3", "0.25" } }, { "KH.pressure", { "2.5", "20" } }, { "KH.vflow_in", { "0.25", "-1" } }, { "KH.vflow_out", { "1", "-0.125" } }, { "KH.mode", { "3", "1" } },
             { "KH.w0", { "0.25", "0.5" } }, { "KH.delta", { "0.125", "0.0625" } } };
  Alt kh2 = kh;
  kh2.pop_back();
  Alt kh3 = kh;
  kh3.resize(5);
  kh3.push_back({ "KH.amplitude", { "0", "0.5" } });
  Map sine = { { "KH.perturbation_sine", "yes" }, { "KH.perturbation_sine_robertson", "no" } };

  H2::all("implode", imp, g2, false);
  H3::all("implode", imp, g3, false);
  M2::all("implode", impB, g2, false);
  M3::all("implode", impB, g3, false);
  H2::all("blast", bl, g2, true);
  H3::all("blast", bl, g3, true);
  M2::all("blast", bl, g2, false);
  M3::all("blast", bl, g3, false);
  H2::all("kelvin_helmholtz", kh, g2, false);
  H3::all("kelvin_helmholtz", kh, g3, false);
  M2::all("kelvin_helmholtz", kh, g2, false);
  M3::all("kelvin_helmholtz", kh, g3, false);
  H2::all("kelvin_helmholtz", kh2, g2, false, sine);
  H3::all("kelvin_helmholtz", kh2, g3, false, sine);
  H2::all("kelvin_helmholtz", kh3, g2, false, { { "KH.perturbation_rand", "yes" } });
  H3::all("kelvin_helmholtz", kh3, g3, false, { { "KH.perturbation_rand", "yes" } });
  M2::all("kelvin_helmholtz", kh2, g2, false, sine);
  M3::all("kelvin_helmholtz", kh2, g3, false, sine);
  Alt gr = { { "Gresho.rho0", { "2", "0.5" } }, { "Gresho.Ma", { "0.25", "0.125" } }, { "hydro.gamma0", { "1.5", "2" } } };
  H2::all("gresho_vortex", gr, c2, true);
  H3::all("gresho_vortex", gr, c3, true);
  Alt fq = { { "riemann2d.config_number", {} }, { "riemann2d.x", { "0.5", "0.25" } }, { "riemann2d.y", { "0.5", "0.75" } } };
  for (int k = 1; k < 19; k++)
    fq[0].second.push_back(std::to_string(k));
  H2::all("four_quadrant", fq, g2, false);
  Alt iv = { { "isentropic_vortex.density_ambient", { "2", "0.5" } }, { "isentropic_vortex.temperature_ambient", { "2", "1.5" } }, { "isentropic_vortex.vx_ambient", { "0.5", "-1" } }, { "isentropic_vortex.vy_ambient", { "0", "2" } },
             { "isentropic_vortex.center_x", { "0.25", "0" } }, { "isentropic_vortex.center_y", { "0.5", "0.75" } }, { "isentropic_vortex.strength", { "1", "2.5" } }, { "hydro.gamma0", { "1.5", "1.625" } } };
  H2::all("isentropic_vortex", iv, g2, false);
  Alt rt = { { "rayleigh_taylor.amplitude", { "0.25", "0.5" } }, { "rayleigh_taylor.d0", { "1.5", "0.5" } }, { "rayleigh_taylor.d1", { "1.25", "4" } }, { "rayleigh_taylor.gx", { "0.0625", "-0.125" } },
             { "rayleigh_taylor.gy", { "-0.125", "0.0625" } }, { "rayleigh_taylor.gz", { "-0.0625", "0.03125" } } };
  Alt rb = { { "rising_bubble.R", { "0.25", "0.375" } }, { "rising_bubble.x0", { "0.25", "0" } }, { "rising_bubble.y0", { "0.5", "0.75" } }, { "rising_bubble.z0", { "0.25", "0.375" } }, { "rising_bubble.din", { "0.5", "0.25" } },
             { "rising_bubble.dout", { "1.5", "1.25" } }, { "rising_bubble.gx", { "0.0625", "-0.125" } }, { "rising_bubble.gy", { "-0.125", "0.0625" } }, { "rising_bubble.gz", { "-0.0625", "0.03125" } } };
  Alt dk = { { "disk.radius", { "0.25", "0.375" } }, { "disk.radius_inner", { "0.03125", "0.0625" } }, { "disk.xc", { "0.125", "-0.125" } }, { "disk.yc", { "0.25", "0" } }, { "disk.ref_density", { "2", "0.5" } },
             { "disk.contrast_density", { "10", "4" } }, { "disk.contrast_width", { "0.0625", "0.125" } }, { "disk.ref_sound_speed", { "0.25", "0.125" } }, { "gravity.M", { "2", "0.5" } }, { "gravity.soften", { "0.125", "0.0625" } } };
  for (int gr = 0; gr < 3; gr++)
  {
    Map e;
    if (gr == 1)
      e["gravity.static"] = "yes";
    if (gr == 2)
      e["gravity.point"] = "yes";
    H2::all("rayleigh_taylor", rt, g2, false, e);
    H3::all("rayleigh_taylor", rt, g3, false, e);
    H2::all("rising_bubble", rb, g2, false, e);
    H3::all("rising_bubble", rb, g3, false, e);
    H2::all("disk", dk, c2, true, e);
    H3::all("disk", dk, c3, true, e);
  }
  H2::all("no_such_problem", {}, g2, false);
  Alt ot = { { "OrszagTang.kt", { "1", "0.5" } }, { "hydro.gamma0", { "1.5", "2" } } };
  M2::all("orszag_tang", ot, g2, false);
  M3::all("orszag_tang", ot, g3, false);
  Alt fl = { { "FieldLoop.radius", { "0.25", "0.5" } }, { "FieldLoop.density_in", { "2", "0.5" } }, { "FieldLoop.amplitude", { "0.5", "0.125" } }, { "FieldLoop.vflow", { "0.5", "-1" } } };
  M2::all("field_loop", fl, c2, false);
  M3::all("field_loop", fl, c3, false);
  Alt ro = { { "rotor.r0", { "0.25", "0.125" } }, { "rotor.r1", { "0.375", "0.5" } }, { "rotor.u0", { "1", "-0.5" } }, { "rotor.p0", { "0.5", "2" } }, { "rotor.b0", { "1", "0.25" } } };
  M2::all("rotor", ro, c2, false);
  M3::all("rotor", ro, c3, false);
  Alt wa = { { "wave.amplitude", { "0.0078125", "0.015625" } }, { "wave.type", { "1", "2", "3" } } };
  M2::all("wave", {}, g2, false);
  M3::all("wave", wa, g3, false);
  return mc::done();
}
