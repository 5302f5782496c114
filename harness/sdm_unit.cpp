// instantiation of the spectral-difference solver for one (SDIM, SN)
#include "sdm.h"
#include "sdm/SolverHydroSDM.h"

namespace
{
using namespace sd;
namespace ps = ppkMHD::sdm;
constexpr int dim = SDIM, N = SN;
using S = ps::SolverHydroSDM<dim, N>;
using St = typename ppkMHD::EulerEquations<dim>::HydroState;

template <class V>
double &
at(V & u, const int * i, int d)
{
  if constexpr (dim == 2)
    return u(i[0], i[1], d);
  else
    return u(i[0], i[1], i[2], d);
}

struct Impl : public ISdm
{
  std::unique_ptr<ConfigMap> cm;
  HydroParams                prm;
  fv::Probe<S> *             s = nullptr;
  Impl(const Cfg & cc)
  {
    c = cc;
    std::string ini = c.ini();
    char *      buf = (char *)malloc(ini.size() + 1), *b0 = buf;
    memcpy(buf, ini.c_str(), ini.size() + 1);
    cm.reset(new ConfigMap(buf, (int)ini.size()));
    free(b0);
    prm.setup(*cm);
    s = new fv::Probe<S>(prm, *cm);
  }
  ~Impl() { delete s; }
  HydroParams & params() override { return s->params; }
  SolverBase *  base() override { return s; }
  double &      t() override { return s->t(); }
  double &      dt() override { return s->dt(); }
  int &         iter() override { return s->iter(); }
  double &      raw(int arr, const int * i, const int * a, int v) override { return at(arr == 0 ? s->U : s->Uaux, i, ps::DofMap<dim, N>(a[0], a[1], a[2], v)); }
  double &      flux_raw(int dir, const int * i, const int * a, int v) override
  {
    int k = dir == IX ? ps::DofMapFlux<dim, N, IX>(a[0], a[1], a[2], v) : dir == IY ? ps::DofMapFlux<dim, N, IY>(a[0], a[1], a[2], v) : ps::DofMapFlux<dim, N, IZ>(a[0], a[1], a[2], v);
    return at(s->Fluxes, i, k);
  }
  double & grad_raw(int dir, const int * i, const int * a, int v) override { return at(dir == 0 ? s->Ugradx_v : dir == 1 ? s->Ugrady_v : s->Ugradz_v, i, ps::DofMap<dim, N>(a[0], a[1], a[2], v)); }
  double & ave_raw(int w, const int * i, int v) override { return at(w == 0 ? s->Uaverage : w == 1 ? s->Ugradx : w == 2 ? s->Ugrady : s->Ugradz, i, v); }
  void     fill() override { s->make_boundaries(s->U); }
  void     step(double d) override { s->time_integration(d); }
  void     next() override { s->next_iteration(); }
  double   dt_local() override { return s->compute_dt_local(); }
  void     rhs() override { s->compute_fluxes_divergence(s->U, s->Uaux, 0.0); }
  void     average() override { s->apply_pre_step_computation(s->U); }
  void     limit() override { s->apply_limiting(s->U); }
  void     posit() override { s->apply_positivity_preserving(s->U); }
  void     to_flux(int dir) override
  {
    if (dir == IX)
      ps::Interpolate_At_FluxPoints_Functor<dim, N, IX>::apply(prm, s->sdm_geom, s->U, s->Fluxes);
    if (dir == IY)
      ps::Interpolate_At_FluxPoints_Functor<dim, N, IY>::apply(prm, s->sdm_geom, s->U, s->Fluxes);
    if constexpr (dim == 3)
      if (dir == IZ)
        ps::Interpolate_At_FluxPoints_Functor<dim, N, IZ>::apply(prm, s->sdm_geom, s->U, s->Fluxes);
  }
  template <int dir>
  void ts(int t)
  {
    if (t == 0)
      ps::Interpolate_At_SolutionPoints_Functor<dim, N, dir, ps::INTERPOLATE_DERIVATIVE>::apply(prm, s->sdm_geom, s->Fluxes, s->Uaux);
    if (t == 1)
      ps::Interpolate_At_SolutionPoints_Functor<dim, N, dir, ps::INTERPOLATE_SOLUTION>::apply(prm, s->sdm_geom, s->Fluxes, s->Uaux);
    if (t == 2)
      ps::Interpolate_At_SolutionPoints_Functor<dim, N, dir, ps::INTERPOLATE_DERIVATIVE_NEGATIVE>::apply(prm, s->sdm_geom, s->Fluxes, s->Uaux);
    if (t == 3)
      ps::Interpolate_At_SolutionPoints_Functor<dim, N, dir, ps::INTERPOLATE_SOLUTION_NEGATIVE>::apply(prm, s->sdm_geom, s->Fluxes, s->Uaux);
    if (t == 4)
      ps::Interpolate_At_SolutionPoints_Functor<dim, N, dir, ps::INTERPOLATE_SOLUTION_REGULAR>::apply(prm, s->sdm_geom, s->Fluxes, s->Uaux);
  }
  void to_sol(int dir, int t) override
  {
    if (dir == IX)
      ts<IX>(t);
    if (dir == IY)
      ts<IY>(t);
    if constexpr (dim == 3)
      if (dir == IZ)
        ts<IZ>(t);
  }
  void gradient(int dir) override
  {
    if (dir == IX)
      s->template compute_velocity_gradients<IX>(s->U, s->Ugradx_v);
    if (dir == IY)
      s->template compute_velocity_gradients<IY>(s->U, s->Ugrady_v);
    if (dir == IZ)
      s->template compute_velocity_gradients<IZ>(s->U, s->Ugradz_v);
  }
  void riemann(const double * wl, const double * wr, double * f) override
  {
    St l = {}, r = {}, g = {}, o = {};
    for (int v = 0; v < dim + 2; v++)
      l[v] = wl[v], r[v] = wr[v];
    ppkMHD::riemann_hydro(l, r, g, o, prm);
    for (int v = 0; v < dim + 2; v++)
      f[v] = o[v];
  }
  void charac(int dir, bool back, double * x, const double * Uave, double cs) override
  {
    St a = {}, u = {};
    for (int v = 0; v < dim + 2; v++)
      a[v] = x[v], u[v] = Uave[v];
    double g = prm.settings.gamma0;
    auto & e = s->euler;
    if (dir == IX)
      back ? e.template charac_to_cons<IX>(a, u, cs, g) : e.template cons_to_charac<IX>(a, u, cs, g);
    if (dir == IY)
      back ? e.template charac_to_cons<IY>(a, u, cs, g) : e.template cons_to_charac<IY>(a, u, cs, g);
    if constexpr (dim == 3)
      if (dir == IZ)
        back ? e.template charac_to_cons<IZ>(a, u, cs, g) : e.template cons_to_charac<IZ>(a, u, cs, g);
    for (int v = 0; v < dim + 2; v++)
      x[v] = a[v];
  }
  double mat(int w, int i, int j) override
  {
    auto & G = s->sdm_geom;
    return w == 0 ? G.sol2flux(i, j) : w == 1 ? G.flux2sol(i, j) : w == 2 ? G.flux2sol_derivative(i, j) : G.sol2sol_derivative(i, j);
  }
  double pt(int w, int i) override { return w == 0 ? s->sdm_geom.solution_pts_1d(i) : s->sdm_geom.flux_pts_1d(i); }
  double pt_nd(const int * a, int comp) override
  {
    if constexpr (dim == 2)
      return s->sdm_geom.solution_pts(a[0], a[1], comp);
    else
      return s->sdm_geom.solution_pts(a[0], a[1], a[2], comp);
  }
};

struct Reg
{
  Reg()
  {
    makers()[{ dim, N }] = [](const Cfg & c) -> ISdm * { return new Impl(c); };
  }
} reg;
} // namespace
