// P30: parallel-netCDF files written by several processes together, for every
// decomposition. The library is shim/pnetcdf on top of the message-passing model.
#define FILESREAD_NO_HDF5
#include "parfield.h"

static bool CDF5;

template <class DA>
static int
rank_write(const Job & J)
{
  Map m = J.map();
  m["output.hdf5_enabled"] = "no";
  m["output.pnetcdf_enabled"] = "yes";
  if (CDF5)
    m["output.pnetcdf_cdf5"] = "yes";
  if (J.verbose)
    m["output.pnetcdf_verbose"] = m["output.pnetcdf_print_mpi_info"] = "yes";
  ConfigMap   c = config(m);
  HydroParams p;
  p.setup(c);
  int x[3];
  place(J, p, x);
  DA                      U = array<DA>(p, J.nv());
  typename DA::HostMirror H = Kokkos::create_mirror(U);
  every(J, [&](const int * i, int v) { at(U, i, v) = J.local(x, i, v); });
  auto                     vn = names(J);
  ppkMHD::io::IO_ReadWrite io(p, c, vn);
  io.save_data(U, H, J.step, J.time, "");
  return 0;
}

struct Nc
{
  bool                          ok = false;
  int                           mode = -1;
  vector<std::pair<string, long>> dims;
  struct Var
  {
    string      name, seen, data;
    int         type;
    vector<int> dims;
  };
  vector<Var>              vars;
  std::map<string, string> att;
};
static Nc
read_nc(const string & path)
{
  Nc     r;
  string s = get(path);
  size_t at = 0;
  bool   bad = false;
  auto   take = [&]() -> string {
    size_t n = 0;
    if (at + 8 > s.size())
      return bad = true, "";
    memcpy(&n, &s[at], 8);
    at += 8;
    if (n > s.size() - at)
      return bad = true, "";
    at += n;
    return s.substr(at - n, n);
  };
  size_t q = 0;
  while (at < s.size() && !bad)
  {
    string k = take();
    if (k == "mode")
      k = take(), memcpy(&r.mode, k.data(), 4);
    else if (k == "dim")
    {
      string n = take(), v = take();
      long   l;
      memcpy(&l, v.data(), 8);
      r.dims.push_back({ n, l });
    }
    else if (k == "var")
    {
      Nc::Var v;
      v.name = take();
      string t = take();
      memcpy(&v.type, t.data(), 4);
      t = take();
      v.dims.assign((const int *)t.data(), (const int *)(t.data() + t.size()));
      r.vars.push_back(v);
    }
    else if (k == "att")
    {
      string n = take();
      take();
      r.att[n] = take();
    }
    else if (k == "data" && q < r.vars.size())
    {
      r.vars[q].seen = take();
      r.vars[q++].data = take();
    }
    else
      bad = true;
  }
  r.ok = !bad && q == r.vars.size() && q > 0;
  return r;
}

static bool
check_written(const Job & J)
{
  string f = J.dir + mc::fmt("/%s_%07d.nc", J.prefix.c_str(), J.step);
  for (auto & x : list(J.dir))
    if (J.dir + "/" + x != f)
      return vio(J, "extra-file", x);
  Nc h = read_nc(f);
  if (!h.ok)
    return vio(J, "unreadable", f);
  if (h.mode != (CDF5 ? 0x20 : 0x200))
    vio(J, "format", "the file is not of the kind asked for");
  long s[3];
  J.fdims(s);
  static const char * H[] = { "rho", "E", "rho_vx", "rho_vy", "rho_vz", "Bx", "By", "Bz" };
  if ((int)h.vars.size() != J.nv())
    return vio(J, "variables", mc::fmt("%d variables instead of %d", (int)h.vars.size(), J.nv()));
  uint64_t st = 0;
  for (int v = 0; v < J.nv(); v++)
  {
    Nc::Var * x = nullptr;
    for (auto & y : h.vars)
      if (y.name == H[v])
        x = &y;
    if (!x)
      return vio(J, string("missing:") + H[v], "no such variable");
    if ((int)x->dims.size() != J.dim)
      return vio(J, "dims", string(H[v]) + " has another number of dimensions");
    for (int d = 0; d < J.dim; d++)
      if (h.dims[x->dims[d]].second != s[J.dim - 1 - d])
        return vio(J, "dims", mc::fmt("dimension %d of %s is %ld instead of %ld", d, H[v], h.dims[x->dims[d]].second, s[J.dim - 1 - d]));
    if (x->type != (sizeof(real_t) == 8 ? 6 : 5))
      return vio(J, "type", string(H[v]) + " is not stored in the working precision");
    st = mc::hash_bytes(x->data.data(), x->data.size(), st + 1);
    const real_t * q = (const real_t *)x->data.data();
    long           p[3], n = 0;
    for (p[2] = 0; p[2] < s[2]; p[2]++)
      for (p[1] = 0; p[1] < s[1]; p[1]++)
        for (p[0] = 0; p[0] < s[0]; p[0]++, n++)
        {
          mc::stat("values");
          if (!x->seen[n])
            return vio(J, "unwritten", mc::fmt("%s at (%ld,%ld,%ld) is not written", H[v], p[0], p[1], p[2]));
          if (!same(J.stored(p, v), q[n]))
            return vio(J, "value", mc::fmt("%s at (%ld,%ld,%ld) is %.17g instead of %.17g", H[v], p[0], p[1], p[2], (double)q[n], J.stored(p, v)));
        }
  }
  mc::state(st);
  auto number = [&](const char * n) -> double {
    string & a = h.att[n];
    int      i;
    double   d;
    if (a.size() == 4)
      return memcpy(&i, a.data(), 4), i;
    if (a.size() == 8)
      return memcpy(&d, a.data(), 8), d;
    return NAN;
  };
  if (number("time step") != J.step || number("total time") != J.time || number("CDF-5 mode") != CDF5)
    return vio(J, "attribute", mc::fmt("step %g time %.17g CDF-5 %g", number("time step"), number("total time"), number("CDF-5 mode")));
  return true;
}

static void
family(int dim, bool mhd)
{
  const bool T = mc::A.thorough;
  const int  M = 8;
  for (int a = 1; a <= M; a++)
    for (int b = 1; a * b <= M; b++)
      for (int c = 1; a * b * c <= (dim == 3 ? M : a * b); c++)
        for (int s = 0; s < (T ? 64 : 9); s++)
        {
          Job J;
          J.dim = dim, J.mhd = mhd, J.ghost = 1, J.join = true;
          J.g[0] = a, J.g[1] = b, J.g[2] = c;
          if (T)
            J.l[0] = 1 + s % 4, J.l[1] = 1 + s / 4 % 4, J.l[2] = dim == 3 ? 1 + s / 16 : 1;
          else
            J.l[0] = 1 + s % 3, J.l[1] = 1 + s / 3 % 3, J.l[2] = dim == 3 ? 1 + (s + s / 3) % 3 : 1;
          if (dim == 2 && s >= 16)
            continue;
          if (!mc::item(mc::fmt("netcdf %s grid %dx%dx%d cells %dx%dx%d", J.solver().c_str(), a, b, c, J.l[0], J.l[1], J.l[2])))
            continue;
          for (int var = 0; var < 4; var++)
          {
            J.dir = scratch("nc");
            J.pat = var & 1;
            CDF5 = var > 1;
            J.verbose = var == 3;
            J.prefix = var & 1 ? "x_1" : "output";
            J.step = var == 1 ? 9999999 : var * 7;
            J.time = var ? 0.1 * var : 0;
            J.perm.clear();
            if (var && J.np() > 1) // the library may renumber the processes of the grid
              for (int r = 0; r < J.np(); r++)
                J.perm.push_back(var & 1 ? J.np() - 1 - r : (r + 1) % J.np());
            if (run(J, "write", [&] { return dim == 2 ? rank_write<DataArray2d>(J) : rank_write<DataArray3d>(J); }))
            {
              mc::stat("transitions", J.nv());
              check_written(J);
            }
            clean(J.dir);
          }
        }
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  family(2, false);
  family(2, true);
  family(3, false);
  family(3, true);
  return mc::done();
}
