// P15, P14: HDF5 files written and read by several processes together, for every
// decomposition, kind of ghost cells and layout of the file. Parallel HDF5 is
// shim/h5par on top of the message-passing model.
#include "parfield.h"
#include "utils/io/IO_HDF5.h"

template <class DA>
static int
rank_write(const Job & J)
{
  ConfigMap   c = config(J.map());
  HydroParams p;
  p.setup(c);
  int x[3];
  place(J, p, x);
  DA                      U = array<DA>(p, J.nv());
  typename DA::HostMirror H = Kokkos::create_mirror(U);
  every(J, [&](const int * i, int v) { at(U, i, v) = J.local(x, i, v); });
  auto                     vn = names(J);
  ppkMHD::io::IO_ReadWrite io(p, c, vn);
  io.save_data(U, H, J.step, J.time, "");
  if (p.myRank == 0)
    ppkMHD::io::writeXdmfForHdf5Wrapper(p, c, names(J), J.step, false);
  return 0;
}

//! what a process finds when it reads
struct Found
{
  int    step;
  double time;
  int    x[3];
};
template <class DA>
static int
rank_read(const Job & J, const string & dump)
{
  ConfigMap   c = config(J.map());
  HydroParams p;
  p.setup(c);
  DA                      U = array<DA>(p, J.nv());
  typename DA::HostMirror H = Kokkos::create_mirror(U);
  every(J, [&](const int * i, int v) { at(U, i, v) = -12345; });
  auto                     vn = names(J);
  ppkMHD::io::IO_ReadWrite io(p, c, vn);
  Found  f;
  real_t t = -1;
  f.step = -1;
  io.load_data(U, H, f.step, t);
  f.time = t;
  place(J, p, f.x);
  string o((char *)&f, sizeof f);
  every(J, [&](const int * i, int v) {
    double d = at(U, i, v);
    o.append((char *)&d, sizeof d);
  });
  put(mc::fmt("%s.%d", dump.c_str(), p.myRank), o);
  return 0;
}

static bool
check_written(const Job & J)
{
  string f = J.dir + mc::fmt("/%s_%07d.h5", J.prefix.c_str(), J.step);
  for (auto & x : list(J.dir))
    if (x.find(".h5") != string::npos && J.dir + "/" + x != f)
      return vio(J, "extra-file", x);
  auto h = fr::read_h5(f);
  if (!h.ok)
    return vio(J, "unreadable", f);
  if ((int)h.data.size() != J.nv())
    vio(J, "variables", mc::fmt("%d datasets instead of %d", (int)h.data.size(), J.nv()));
  long     s[3];
  uint64_t st = 0;
  for (auto & kv : h.data)
    st = mc::hash_bytes(kv.second.data(), kv.second.size() * 8, st + 1);
  mc::state(st);
  J.fdims(s);
  for (int v = 0; v < J.nv(); v++)
  {
    auto it = h.data.find(J.var(v));
    if (it == h.data.end())
      return vio(J, "missing:" + J.var(v), "no dataset");
    vector<hsize_t> e;
    for (int d = J.dim - 1; d >= 0; d--)
      e.push_back(s[d]);
    if (h.dims[J.var(v)] != e)
      return vio(J, "dims", J.var(v) + " has other dimensions");
    if (h.type[J.var(v)] != "real")
      vio(J, "type", J.var(v) + " is not stored in the working precision");
    long p[3], n = 0;
    for (p[2] = 0; p[2] < s[2]; p[2]++)
      for (p[1] = 0; p[1] < s[1]; p[1]++)
        for (p[0] = 0; p[0] < s[0]; p[0]++, n++)
        {
          mc::stat("values");
          double e = J.stored(p, v), g = it->second[n];
          if (!same(e, g))
            return vio(J, "value", mc::fmt("%s at (%ld,%ld,%ld) is %.17g instead of %.17g", J.var(v).c_str(), p[0], p[1], p[2], g, e));
        }
  }
  std::map<string, double> A = { { "time step", J.step }, { "total time", J.time }, { "external ghost zones only included", J.ghost == 1 }, { "all ghost zones included", J.ghost == 2 }, { "reassemble MPI pieces in file", J.join }, { "nx", J.l[0] }, { "ny", J.l[1] }, { "nz", J.dim == 3 ? J.l[2] : 1 }, { "mx", J.g[0] }, { "my", J.g[1] }, { "mz", J.g[2] } };
  for (auto & a : A)
    if (!h.attr.count(a.first) || h.attr[a.first] != a.second)
      return vio(J, "attribute:" + a.first, mc::fmt("%g instead of %g", h.attr.count(a.first) ? h.attr[a.first] : NAN, a.second));
  // the index describes the datasets as they are
  bool   ok = false;
  string t = get(J.dir + "/" + J.prefix + ".xmf", &ok);
  if (!ok)
    return vio(J, "no-index", "no XDMF index");
  string dm;
  for (int d = J.dim - 1; d >= 0; d--)
    dm += mc::fmt(d < J.dim - 1 ? " %ld" : "%ld", s[d]);
  fr::Xml  xml(t);
  fr::Node r;
  if (!xml.parse(r))
    return vio(J, "index-malformed", xml.err);
  // every data item: this file (or that of another step), every variable, these dimensions
  std::map<string, int>              seen;
  std::function<void(fr::Node &)> walk = [&](fr::Node & x) {
    if (x.tag == "Topology")
    {
      std::stringstream a(x.attr["NumberOfElements"]), b(dm);
      vector<string>    p, q;
      for (string w; a >> w;)
        p.push_back(w);
      for (string w; b >> w;)
        q.push_back(w);
      if (p != q)
        vio(J, "index-dims", "the index gives topology " + x.attr["NumberOfElements"] + " instead of " + dm);
    }
    if (x.attr.count("Format") && x.attr["Format"] == "HDF")
    {
      std::stringstream a(x.attr["Dimensions"]), b(dm);
      vector<string>    p, q;
      for (string w; a >> w;)
        p.push_back(w);
      for (string w; b >> w;)
        q.push_back(w);
      if (p != q)
        vio(J, "index-dims", "the index gives dimensions " + x.attr["Dimensions"] + " instead of " + dm);
      string c = x.text;
      size_t i = c.find_first_not_of(" \n\t"), j = c.find_last_not_of(" \n\t");
      seen[i == string::npos ? "" : c.substr(i, j - i + 1)]++;
    }
    for (auto & k : x.kids)
      walk(k);
  };
  walk(r);
  for (int v = 0; v < J.nv(); v++)
    for (int st = 0; st <= J.step; st++)
    {
      string n = mc::fmt("%s_%07d.h5:/%s", J.prefix.c_str(), st, J.var(v).c_str());
      if (seen[n] != 1)
        return vio(J, "index-item", mc::fmt("%s is listed %d times", n.c_str(), seen[n]));
    }
  return true;
}

//! the processes of R read what those of W wrote
static bool
check_read(const Job & W, Job R)
{
  R.file = W.dir + mc::fmt("/%s_%07d.h5", W.prefix.c_str(), W.step);
  string dump = W.dir + "/read";
  R.dir = W.dir;
  if (!run(R, R.up ? "upscale" : "read", [&] { return R.dim == 2 ? rank_read<DataArray2d>(R, dump) : rank_read<DataArray3d>(R, dump); }))
    return false;
  mc::stat("transitions");
  string what = (R.up ? "restart with upscaling of " : "restart from ") + W.desc();
  for (int r = 0; r < R.np(); r++)
  {
    bool   ok = false;
    string b = get(mc::fmt("%s.%d", dump.c_str(), r), &ok);
    if (!ok || b.size() < sizeof(Found))
      return vio(R, "read-missing", what);
    Found f;
    memcpy(&f, b.data(), sizeof f);
    if (f.step != W.step || f.time != W.time)
      return vio(R, "read-time", what + mc::fmt(": process %d finds step %d time %g", r, f.step, f.time));
    const double * q = (const double *)(b.data() + sizeof f);
    bool           good = true;
    every(R, [&](const int * i, int v) {
      double g = *q++;
      if (!good)
        return;
      bool in = true;
      for (int d = 0; d < R.dim; d++)
        in = in && i[d] >= R.gw() && i[d] < R.gw() + R.l[d];
      if (!in && (R.up || !R.ghost))
        return;
      mc::stat("values");
      // position in the file
      long   p[3] = { 0, 0, 0 };
      double e;
      int    odd = -1;
      for (int d = 0; d < R.dim; d++)
      {
        int o = W.ghost ? R.gw() : 0, c = i[d] - R.gw();
        int n = R.up ? R.l[d] / 2 : R.l[d];
        if (R.up)
        {
          if (((v == 5 && d == 0) || (v == 6 && d == 1) || (v == 7 && d == 2)) && c % 2)
            odd = d;
          c /= 2;
        }
        p[d] = W.ghost == 2 ? f.x[d] * (n + 2 * R.gw()) + o + c : f.x[d] * n + o + c;
      }
      e = W.stored(p, v);
      if (odd >= 0)
      {
        p[odd]++;
        e = (e + W.stored(p, v)) / 2;
      }
      mc::stat("values");
      if (!same(e, g))
        good = vio(R, R.up ? "upscale-value" : "read-value", what + mc::fmt(": process %d, %s at (%d,%d,%d) is %.17g instead of %.17g", r, R.var(v).c_str(), i[0], i[1], i[2], g, e));
    });
    if (!good)
      return false;
    unlink(mc::fmt("%s.%d", dump.c_str(), r).c_str());
  }
  return true;
}

static void
family(int dim, bool mhd)
{
  const bool T = mc::A.thorough;
  const int  M = T ? 8 : 6;
  for (int a = 1; a <= M; a++)
    for (int b = 1; a * b <= M; b++)
      for (int c = 1; a * b * c <= (dim == 3 ? M : a * b); c++)
        for (int s = 0; s < (T ? 27 : 9); s++)
          for (int ghost = 0; ghost < 3; ghost++)
            for (int join = 0; join < 2; join++)
            {
              Job J;
              J.dim = dim, J.mhd = mhd, J.ghost = ghost, J.join = join;
              J.g[0] = a, J.g[1] = b, J.g[2] = c;
              J.l[0] = 1 + s % 3, J.l[1] = 1 + s / 3 % 3, J.l[2] = dim == 3 ? 1 + (s + s / 3 + s / 9) % 3 : 1;
              if (!mc::item(mc::fmt("h5 %s grid %dx%dx%d cells %dx%dx%d ghosts %d together %d", J.solver().c_str(), a, b, c, J.l[0], J.l[1], J.l[2], ghost, join)))
                continue;
              for (int var = 0; var < 2; var++)
              {
                J.dir = scratch("h5");
                J.pat = var;
                J.verbose = var && s % 3 == 0;
                J.prefix = var ? "x_1" : "output";
                J.step = var ? 3 : 0;
                J.time = var ? 0.1 : 1e-7;
                J.perm.clear();
                if (var && J.np() > 1) // the library may renumber the processes of the grid
                  for (int r = 0; r < J.np(); r++)
                    J.perm.push_back(s % 2 ? J.np() - 1 - r : (r + 1) % J.np());
                bool ok = run(J, "write", [&] { return dim == 2 ? rank_write<DataArray2d>(J) : rank_write<DataArray3d>(J); });
                ok = ok && check_written(J);
                if (ok && join)
                  // every way of dividing the same domain among processes reads it
                  for (int a2 = 1; a2 <= M; a2++)
                    for (int b2 = 1; a2 * b2 <= M; b2++)
                      for (int c2 = 1; a2 * b2 * c2 <= (dim == 3 ? M : a2 * b2); c2++)
                      {
                        Job R = J;
                        R.g[0] = a2, R.g[1] = b2, R.g[2] = c2;
                        bool fits = true;
                        for (int d = 0; d < dim; d++)
                        {
                          fits = fits && J.total(d) % R.g[d] == 0;
                          R.l[d] = J.total(d) / R.g[d];
                        }
                        bool own = a2 == a && b2 == b && c2 == c;
                        if (!fits || (ghost == 2 && !own) || (var && !own && !T))
                          continue;
                        if (!own)
                          R.perm.clear();
                        check_read(J, R);
                        // onto a mesh of twice the resolution (the face field needs ghost cells)
                        if (ghost || !mhd)
                        {
                          R.up = true;
                          for (int d = 0; d < dim; d++)
                            R.l[d] *= 2;
                          check_read(J, R);
                        }
                      }
                clean(J.dir);
              }
            }
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  family(2, false);
  family(2, true);
  family(3, false);
  family(3, true);
  return mc::done();
}
