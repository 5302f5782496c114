// What the built-in problems prescribe: the conservative state at a position,
// written from the description of each problem (not from the functors).
#ifndef INIT_ORACLE_H_
#define INIT_ORACLE_H_
#include <array>
#include <cmath>
#include <map>
#include <string>

namespace io_
{
using Cfg = std::map<std::string, std::string>;
using St = std::array<double, 8>; // rho E mx my mz Bx By Bz

struct Oracle
{
  const Cfg & c;
  int         dim;
  bool        mhd, sdm;
  double      tie = 0; // moves every threshold: a cell centre on a discontinuity may fall on either side
  double      h[3] = { 0, 0, 0 }; // cell sizes (field loop: finite differences of the potential)
  int         n[3] = { 1, 1, 1 };
  Oracle(const Cfg & c_, int dim_, bool mhd_, bool sdm_ = false)
    : c(c_)
    , dim(dim_)
    , mhd(mhd_)
    , sdm(sdm_)
  {}

  double get(const std::string & k, double d) const
  {
    auto it = c.find(k);
    return it == c.end() ? (double)(float)d : strtof(it->second.c_str(), nullptr);
  }
  double getd(const std::string & k, double d) const // default computed in double, stored as float
  {
    return get(k, d);
  }
  bool getb(const std::string & k, bool d) const
  {
    auto it = c.find(k);
    return it == c.end() ? d : it->second == "yes" || it->second == "true" || it->second == "1";
  }
  double g() const { return get("hydro.gamma0", 1.4); }

  St prim(double rho, double p, double u, double v, double w = 0, double bx = 0, double by = 0, double bz = 0) const
  {
    return { rho, p / (g() - 1) + 0.5 * rho * (u * u + v * v + w * w) + 0.5 * (bx * bx + by * by + bz * bz), rho * u, rho * v, rho * w, bx, by, bz };
  }

  //! double Mach reflection: behind (before) the shock
  St wedge(bool behind) const
  {
    const double      pi = std::acos(-1.0), a = get("wedge.front_angle", pi / 3);
    const std::string q = behind ? "1" : "2";
    auto              w = [&](const char * n, double d) { return get("wedge." + (n + q), d); };
    double            U = behind ? 8.25 : 0;
    return prim(w("rho", behind ? 8 : 1.4), w("p", behind ? 116.5 : 1), w("u", U * std::cos(a - pi / 2)), w("v", U * std::sin(a - pi / 2)), w("w", 0) * (dim == 3));
  }
  St jet(bool in) const
  {
    const std::string q = in ? "_jet" : "_bulk";
    auto              w = [&](const char * n, double d) { return get("jet." + (n + q), d); };
    return prim(w("rho", in ? 5 : 0.5), w("p", 0.4127), w("u", in ? 800 : 0), w("v", 0), w("w", 0) * (dim == 3));
  }

  //! random perturbation of the velocity: the largest deviation from the state of the oracle
  double random(const std::string & p) const
  {
    return p == "kelvin_helmholtz" && getb("KH.perturbation_rand", false) ? 0.5 * get("KH.amplitude", 0.1) : 0;
  }

  //! false: this oracle does not know the problem
  bool operator()(const std::string & p, const double * X, St & s) const
  {
    const double x = X[0], y = X[1], z = dim == 3 ? X[2] : 0;
    const double xmin = get("mesh.xmin", 0), xmax = get("mesh.xmax", 1), ymin = get("mesh.ymin", 0), ymax = get("mesh.ymax", 1), zmin = get("mesh.zmin", 0),
                 zmax = get("mesh.zmax", 1);
    const double pi = std::acos(-1.0);
    auto         lt = [&](double a, double b) { return a < b + tie; };
    if (p == "implode")
    {
      bool out;
      double a = x + y + z;
      if (get("implode.shape_region", 0) == 1)
      {
        if (dim == 2 && !mhd)
          out = lt(0.5, x + y * y) && lt(x + y * y, 1.5);
        else
          out = lt(0.5, a) && lt(a, 2.5);
      }
      else
        out = lt((xmin + xmax) / 2 + ymin + (dim == 3 ? zmin : 0), a);
      std::string o = out ? "_outer" : "_inner";
      double      rho = get("implode.density" + o, out ? 1.0 : 0.125), pr = get("implode.pressure" + o, out ? 1.0 : 0.14);
      double      u = get("implode.vx" + o, 0), v = get("implode.vy" + o, 0), w = dim == 3 ? get("implode.vz" + o, 0) : 0;
      double      bx = mhd ? get("implode.Bx" + o, 0) : 0, by = mhd ? get("implode.By" + o, 0) : 0, bz = mhd && dim == 3 ? get("implode.Bz" + o, 0) : 0;
      s = prim(rho, pr, u, v, w, bx, by, bz);
      return true;
    }
    if (p == "blast")
    {
      double R = get("blast.radius", (xmin + xmax) / 2.0 / 10);
      double cx = get("blast.center_x", (xmin + xmax) / 2), cy = get("blast.center_y", (ymin + ymax) / 2), cz = get("blast.center_z", (zmin + zmax) / 2);
      double r2 = (x - cx) * (x - cx) + (y - cy) * (y - cy) + (dim == 3 ? (z - cz) * (z - cz) : 0);
      bool   in = lt(r2, R * R);
      double B = mhd ? 0.5 : 0;
      s = prim(in ? get("blast.density_in", 1.0) : get("blast.density_out", 1.2), in ? get("blast.pressure_in", 10.0) : get("blast.pressure_out", 0.1), 0, 0, 0, B, B, B);
      return true;
    }
    if (p == "kelvin_helmholtz")
    {
      double di = get("KH.d_in", 1), dO = get("KH.d_out", 1), P = get("KH.pressure", 10), vi = get("KH.vflow_in", -0.5), vo = get("KH.vflow_out", 0.5);
      double w0 = get("KH.w0", 0.1), n = get("KH.mode", 2), delta = get("KH.delta", 0.03);
      double h = dim == 2 ? y : z, bx = mhd ? 0.5 : 0;
      double rho, u, v, w = 0;
      if (getb("KH.perturbation_rand", false))
      {
        if (mhd)
          return false;
        double q = dim == 2 ? (y - ymin) / (ymax - ymin) : (z - zmin) / (zmax - zmin);
        bool   in = lt(0.25, q) && lt(q, 0.75);
        rho = in ? di : dO;
        u = in ? vi : vo;
        v = 0;
      }
      else if (getb("KH.perturbation_sine_robertson", true))
      {
        double r = 1 / (1 + std::exp(2 * (h - 0.25) / delta)) + 1 / (1 + std::exp(2 * (0.75 - h) / delta));
        rho = di + r * (dO - di);
        u = vi + r * (vo - vi);
        if (dim == 2)
          v = w0 * std::sin(n * pi * x);
        else
        {
          v = u / 2;
          w = w0 * std::sin(n * pi * x) * std::sin(n * pi * y);
        }
      }
      else if (getb("KH.perturbation_sine", false))
      {
        bool in = lt(0.25, h) && lt(h, 0.75);
        rho = in ? di : dO;
        u = in ? vi : vo;
        v = dim == 2 ? w0 * std::sin(n * pi * x) : 0;
        w = dim == 3 ? w0 * std::sin(n * pi * x) : 0;
      }
      else
        return false;
      s = prim(rho, P, u, v, w, bx);
      return true;
    }
    if (p == "gresho_vortex")
    {
      double r = std::hypot(x, y), rho0 = get("Gresho.rho0", 1.0), Ma = get("Gresho.Ma", 0.1), p0 = rho0 / (g() * Ma * Ma), up, P;
      if (lt(r, 0.2))
        up = 5 * r, P = p0 + 12.5 * r * r;
      else if (lt(r, 0.4))
        up = 2 - 5 * r, P = p0 + 12.5 * r * r + 4 * (1 - 5 * r - std::log(0.2) + std::log(r));
      else
        up = 0, P = p0 - 2 + 4 * std::log(2.0);
      s = prim(rho0, P, r > 0 ? -up * y / r : 0, r > 0 ? up * x / r : 0);
      return true;
    }
    if (p == "four_quadrant")
    {
      // Lax & Liu (1998): rho, p, u, v in the quadrants NE, NW, SW, SE
      static const double T[19][4][4] = {
        { { 1, 1, 0, 0 }, { .5197, .4, -.7259, 0 }, { .1072, .0439, -.7259, -1.4045 }, { .2579, .15, 0, -1.4045 } },
        { { 1, 1, 0, 0 }, { .5197, .4, -.7259, 0 }, { 1, 1, -.7259, -.7259 }, { .5197, .4, 0, -.7259 } },
        { { 1.5, 1.5, 0, 0 }, { .5323, .3, 1.206, 0 }, { .138, .029, 1.206, 1.206 }, { .5323, .3, 0, 1.206 } },
        { { 1.1, 1.1, 0, 0 }, { .5065, .35, .8939, 0 }, { 1.1, 1.1, .8939, .8939 }, { .5065, .35, 0, .8939 } },
        { { 1, 1, -.75, -.5 }, { 2, 1, -.75, .5 }, { 1, 1, .75, .5 }, { 3, 1, .75, -.5 } },
        { { 1, 1, .75, -.5 }, { 2, 1, .75, .5 }, { 1, 1, -.75, .5 }, { 3, 1, -.75, -.5 } },
        { { 1, 1, .1, .1 }, { .5197, .4, -.6259, .1 }, { .8, .4, .1, .1 }, { .5197, .4, .1, -.6259 } },
        { { .5197, .4, .1, .1 }, { 1, 1, -.6259, .1 }, { .8, 1, .1, .1 }, { 1, 1, .1, -.6259 } },
        { { 1, 1, 0, .3 }, { 2, 1, 0, -.3 }, { 1.039, .4, 0, -.8133 }, { .5197, .4, 0, -.4259 } },
        { { 1, 1, 0, .4297 }, { .5, 1, 0, .6076 }, { .2281, .3333, 0, -.6076 }, { .4562, .3333, 0, -.4297 } },
        { { 1, 1, .1, 0 }, { .5313, .4, .8276, 0 }, { .8, .4, .1, 0 }, { .5313, .4, .1, .7276 } },
        { { .5313, .4, 0, 0 }, { 1, 1, .7276, 0 }, { .8, 1, 0, 0 }, { 1, 1, 0, .7276 } },
        { { 1, 1, 0, -.3 }, { 2, 1, 0, .3 }, { 1.0625, .4, 0, .8145 }, { .5313, .4, 0, .4276 } },
        { { 2, 8, 0, -.5606 }, { 1, 8, 0, -1.2172 }, { .4736, 2.6667, 0, 1.2172 }, { .9474, 2.6667, 0, 1.1606 } },
        { { 1, 1, .1, -.3 }, { .5197, .4, -.6259, -.3 }, { .8, .4, .1, -.3 }, { .5313, .4, .1, .4276 } },
        { { .5313, .4, .1, .1 }, { 1.0222, 1, -.6179, .1 }, { .8, 1, .1, .1 }, { 1, 1, .1, .8276 } },
        { { 1, 1, 0, -.4 }, { 2, 1, 0, -.3 }, { 1.0625, .4, 0, .2145 }, { .5197, .4, 0, -1.1259 } },
        { { 1, 1, 0, 1 }, { 2, 1, 0, -.3 }, { 1.0625, .4, 0, .2145 }, { .5197, .4, 0, .2741 } },
        { { 1, 1, 0, .3 }, { 2, 1, 0, -.3 }, { 1.0625, .4, 0, .2145 }, { .5197, .4, 0, -.4259 } },
      };
      int    k = (int)get("riemann2d.config_number", 0);
      double xt = get("riemann2d.x", 0.8), yt = get("riemann2d.y", 0.8);
      bool   w = lt(x, xt), so = lt(y, yt);
      auto & q = T[k][so ? (w ? 2 : 3) : (w ? 1 : 0)];
      s = prim(q[0], q[1], q[2], q[3]);
      return true;
    }
    if (p == "isentropic_vortex")
    {
      double Ta = get("isentropic_vortex.temperature_ambient", 1), ra = get("isentropic_vortex.density_ambient", 1), ua = get("isentropic_vortex.vx_ambient", 1),
             va = get("isentropic_vortex.vy_ambient", 1), be = get("isentropic_vortex.strength", 5);
      double cx = get("isentropic_vortex.center_x", (xmin + xmax) / 2), cy = get("isentropic_vortex.center_y", (ymin + ymax) / 2);
      if (getb("isentropic_vortex.use_tEnd", false))
      {
        // where the vortex is at the end of the run, in the periodic domain
        auto wrap = [](double c, double lo, double hi) { return c - std::floor((c - lo) / (hi - lo)) * (hi - lo); };
        cx = wrap(cx + get("run.tEnd", 1) * ua, xmin, xmax);
        cy = wrap(cy + get("run.tEnd", 1) * va, ymin, ymax);
      }
      double X1 = x - cx, Y1 = y - cy, r2 = X1 * X1 + Y1 * Y1;
      double e = be / (2 * pi) * std::exp(0.5 * (1 - r2));
      double T = Ta - (g() - 1) * be * be / (8 * g() * pi * pi) * std::exp(1 - r2);
      double rho = ra * std::pow(T / Ta, 1 / (g() - 1));
      s = prim(rho, rho * T, ua - Y1 * e, va + X1 * e);
      return true;
    }
    if (p == "sod")
    {
      bool l = lt(x, 0.5);
      s = prim(l ? 1 : 0.125, l ? 1 : 0.1, 0, 0);
      return true;
    }
    if (p == "shu_osher")
    {
      // the shock of Mach number 3 enters a density wave
      if (lt(x, -4))
        s = prim(27.0 / 7, 31.0 / 3, 4 * std::sqrt(35.0) / 9, 0);
      else
        s = prim(1 + 0.2 * std::sin(5 * x), 1, 0, 0);
      return true;
    }
    if (p == "wedge")
    {
      s = wedge(lt(x, get("wedge.front_x", 0.1) + y / std::tan(get("wedge.front_angle", pi / 3))));
      return true;
    }
    if (p == "jet")
    {
      s = jet(false);
      return true;
    }
    if (p == "rayleigh_taylor")
    {
      double amp = get("rayleigh_taylor.amplitude", 0.01), gx = get("rayleigh_taylor.gx", 0), gy = get("rayleigh_taylor.gy", -0.1), gz = get("rayleigh_taylor.gz", 0);
      double hh = dim == 2 ? y : z, mid = dim == 2 ? (ymin + ymax) / 2 : (zmin + zmax) / 2;
      double rho = lt(hh, mid) ? get("rayleigh_taylor.d0", 1) : get("rayleigh_taylor.d1", 2);
      double v = amp * (1 + std::cos(2 * pi * x / (xmax - xmin))) * (1 + std::cos(2 * pi * y / (ymax - ymin))) / 4;
      s = { rho, (1 + rho * (gx * x + gy * y + (dim == 3 ? gz * z : 0))) / (g() - 1), 0, dim == 2 ? v : 0, dim == 3 ? v : 0, 0, 0, 0 };
      return true;
    }
    if (p == "rising_bubble")
    {
      double gx = get("rising_bubble.gx", 0), gy = get("rising_bubble.gy", -0.1), gz = get("rising_bubble.gz", 0);
      double R = get("rising_bubble.R", 0.1), X1 = x - get("rising_bubble.x0", 0.5), Y1 = y - get("rising_bubble.y0", 0.25), Z1 = dim == 3 ? z - get("rising_bubble.z0", 0.5) : 0;
      double rho = lt(std::sqrt(X1 * X1 + Y1 * Y1 + Z1 * Z1), R) ? get("rising_bubble.din", 1) : get("rising_bubble.dout", 2);
      s = { rho, (1 + rho * (gx * x + gy * y + (dim == 3 ? gz * z : 0))) / (g() - 1), 0, 0, 0, 0, 0, 0 };
      return true;
    }
    if (p == "orszag_tang")
    {
      double B0 = 1 / std::sqrt(4 * pi), p0 = g() / (4 * pi), d0 = g() * p0;
      double cz = 1;
      if (dim == 3)
        cz = std::cos(4 * pi * get("OrszagTang.kt", 0) * (z - zmin) / (zmax - zmin));
      s = prim(d0, p0, -std::sin(2 * pi * y), std::sin(2 * pi * x), 0, -B0 * std::sin(2 * pi * y) * cz, B0 * std::sin(4 * pi * x) * cz, 0);
      return true;
    }
    if (p == "field_loop")
    {
      double R = get("FieldLoop.radius", 1), A0 = get("FieldLoop.amplitude", 1), vf = get("FieldLoop.vflow", 1);
      auto   A = [&](double a, double b) { return A0 * std::max(R - std::hypot(a, b), 0.0); };
      auto   Bx = [&](double a, double b) { return (A(a, b + h[1]) - A(a, b)) / h[1]; };
      auto   By = [&](double a, double b) { return -(A(a + h[0], b) - A(a, b)) / h[0]; };
      double rho = lt(std::hypot(x, y), R) ? get("FieldLoop.density_in", 1) : 1;
      double u = vf * 2 / std::sqrt(5.0), v = vf / std::sqrt(5.0);
      double w = dim == 3 ? vf : vf * n[2] / std::sqrt(1.0 * n[0] * n[0] + 1.0 * n[1] * n[1] + 1.0 * n[2] * n[2]);
      double bx = Bx(x, y), by = By(x, y), bcx = (bx + Bx(x + h[0], y)) / 2, bcy = (by + By(x, y + h[1])) / 2;
      s = prim(rho, 1, u, v, w, bcx, bcy);
      s[5] = bx;
      s[6] = by;
      return true;
    }
    if (p == "rotor")
    {
      double r0 = get("rotor.r0", 0.1), r1 = get("rotor.r1", 0.115), u0 = get("rotor.u0", 2), p0 = get("rotor.p0", 1), b0 = get("rotor.b0", 5 / std::sqrt(4 * pi));
      double X1 = x - (xmin + xmax) / 2, Y1 = y - (ymin + ymax) / 2, r = std::hypot(X1, Y1), f = (r1 - r) / (r1 - r0);
      double rho = 1, om = 0; // density, momentum over radius
      if (lt(r, r0))
        rho = 10, om = dim == 2 ? rho * f * u0 / r0 : u0 / r0;
      else if (lt(r, r1))
        rho = 1 + 9 * f, om = dim == 2 ? rho * f * u0 / r : f * u0 / r;
      s = prim(rho, p0, -om * Y1 / rho, om * X1 / rho, 0, b0);
      return true;
    }
    return false;
  }
};

} // namespace io_
#endif
