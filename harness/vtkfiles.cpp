// P16: visualisation files of distributed runs (index file and pieces) and of the
// spectral difference solver, for every decomposition. Compiled with message
// passing (all of it) and without (spectral difference only).
#define FILESREAD_NO_HDF5
#ifdef USE_MPI
#  include "mpirt.h"
#endif
#include "filesread.h"
#include "sdm/SDM_Geometry.h"
#include "utils/io/IO_ReadWrite.h"
#include "utils/io/IO_ReadWrite_SDM.h"
using namespace mr;

static const char * HN2[] = { "rho", "energy", "rho_vx", "rho_vy" };
static const char * HN3[] = { "rho", "energy", "rho_vx", "rho_vy", "rho_vz" };
static const char * MN[] = { "rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz" };

static double
val(int pat, long id)
{
  if (pat == 0)
    return 100 + id;
  static const double ex[] = { 1e300, -1e-300, 5e-324, -0.0, 1.0 / 3, -1e17, 3.0000000000000004, 0.1 };
  return ex[id % 8] * (1 + (id / 8) * 0.001);
}
static bool
close(double e, double g, bool ascii)
{
  return ascii ? std::fabs(g - e) <= 1.01e-5 * std::fabs(e) * 0.5 + 5e-324 : !memcmp(&e, &g, sizeof e);
}

struct Job
{
  int    dim, N; // N > 0: spectral difference
  bool   mhd;
  int    g[3], l[3]; // process grid, cells of each process
  bool   ascii;
  int    pat;
  string prefix = "output", dbg, dir;
  int    step = 0;
  double lo[3], hi[3];
  vector<int> perm;
  int    np() const { return g[0] * g[1] * g[2]; }
  vector<string> vars() const { return mhd ? vector<string>(MN, MN + 8) : dim == 2 ? vector<string>(HN2, HN2 + 4) : vector<string>(HN3, HN3 + 5); }
  int    total(int d) const { return d < dim ? g[d] * l[d] : 1; }
  //! value of variable v at point q of a cell of the whole domain
  double value(int i, int j, int k, int v, int q = 0) const
  {
    return val(pat, (((long)v * 300 + q) * 40 + k) * 1600 + j * 40 + i);
  }
  string solver() const
  {
    return N ? mc::fmt("Hydro_SDM_%dD_degree%d", dim, N) : mc::fmt("%s_Muscl_%dD", mhd ? "MHD" : "Hydro", dim);
  }
  Map map() const
  {
    Map m = { { "run.solver_name", solver() }, { "hydro.cfl", "0.5" }, { "output.vtk_enabled", "yes" }, { "output.outputDir", dir } };
    const char * ax[3] = { "x", "y", "z" };
    for (int q = 0; q < 3; q++)
    {
      m[string("mesh.n") + ax[q]] = std::to_string(q < dim ? l[q] : 1);
      m[string("mpi.m") + ax[q]] = std::to_string(g[q]);
      m[string("mesh.") + ax[q] + "min"] = num(lo[q]);
      m[string("mesh.") + ax[q] + "max"] = num(hi[q]);
      m[string("mesh.boundary_type_") + ax[q] + "min"] = m[string("mesh.boundary_type_") + ax[q] + "max"] = "3";
    }
    if (N)
      m["sdm.sdm_degree"] = m["sdm.degree"] = std::to_string(N);
    if (ascii)
      m["output.outputVtkAscii"] = "yes";
    if (prefix != "output")
      m["output.outputPrefix"] = prefix;
    return m;
  }
  string desc() const
  {
    string r;
    for (int x : perm)
      r += mc::fmt("%d", x);
    return mc::fmt("%s grid %dx%dx%d cells %dx%dx%d ascii %d values %d prefix %s debug '%s' step %d bounds %g..%g,%g..%g,%g..%g%s%s", solver().c_str(), g[0], g[1], g[2], l[0], l[1], l[2], ascii, pat, prefix.c_str(), dbg.c_str(), step, lo[0], hi[0], lo[1], hi[1], lo[2],
                   hi[2], perm.empty() ? "" : " numbering ", r.c_str());
  }
};

template <class DA>
static DA
array(const HydroParams & p, int nv)
{
  if constexpr (DA::rank == 3)
    return DA("U", p.isize, p.jsize, nv);
  else
    return DA("U", p.isize, p.jsize, p.ksize, nv);
}

//! what one process does: fill its part of the field, write it
template <class DA, int dim, int N>
static int
rank_write(const Job & J)
{
  ConfigMap   c = config(J.map());
  HydroParams p;
  p.setup(c);
  int off[3] = { 0, 0, 0 };
#ifdef USE_MPI
  {
    auto C = p.communicator->getComm();
    int  me, x[3] = { 0, 0, 0 };
    MPI_Comm_rank(C, &me);
    MPI_Cart_coords(C, me, dim, x);
    for (int d = 0; d < dim; d++)
      off[d] = x[d] * J.l[d];
  }
#endif
  std::map<int, string> vn;
  auto                  names = J.vars();
  for (size_t i = 0; i < names.size(); i++)
    vn[i] = names[i];
  int points = N ? (dim == 2 ? N * N : N * N * N) : 1, nv = names.size();
  DA  U = array<DA>(p, nv * points);
  typename DA::HostMirror H = Kokkos::create_mirror(U);
  const int w = p.ghostWidth, wz = dim == 3 ? w : 0;
  for (int v = 0; v < nv; v++)
    for (int q = 0; q < points; q++)
    {
      int d = v;
      if constexpr (N > 0)
        d = sdm::DofMap<dim, N>(q % N, q / N % N, q / (N * N), v);
      for (int k = 0; k < (dim == 3 ? p.ksize : 1); k++)
        for (int j = 0; j < p.jsize; j++)
          for (int i = 0; i < p.isize; i++)
          {
            bool   in = i >= w && i < w + J.l[0] && j >= w && j < w + J.l[1] && (dim == 2 || (k >= w && k < w + J.l[2]));
            double x = in ? J.value(i - w + off[0], j - w + off[1], k - wz + off[2], v, q) : -77;
            if constexpr (DA::rank == 3)
              U(i, j, d) = x;
            else
              U(i, j, k, d) = x;
          }
    }
  std::shared_ptr<ppkMHD::io::IO_ReadWriteBase> io;
  if constexpr (N > 0)
  {
    sdm::SDM_Geometry<dim, N> geo;
    geo.init(0);
    geo.init_lagrange_1d();
    io = std::make_shared<ppkMHD::io::IO_ReadWrite_SDM<dim, N>>(p, c, vn, geo);
  }
  else
    io = std::make_shared<ppkMHD::io::IO_ReadWrite>(p, c, vn);
  io->save_data(U, H, J.step, 0.25, J.dbg);
  return 0;
}

static int
write_one(const Job & J)
{
  switch (10 * J.dim + J.N)
  {
    case 20:
      return rank_write<DataArray2d, 2, 0>(J);
    case 30:
      return rank_write<DataArray3d, 3, 0>(J);
    case 21:
      return rank_write<DataArray2d, 2, 1>(J);
    case 22:
      return rank_write<DataArray2d, 2, 2>(J);
    case 23:
      return rank_write<DataArray2d, 2, 3>(J);
    case 24:
      return rank_write<DataArray2d, 2, 4>(J);
    case 25:
      return rank_write<DataArray2d, 2, 5>(J);
    case 26:
      return rank_write<DataArray2d, 2, 6>(J);
    case 32:
      return rank_write<DataArray3d, 3, 2>(J);
    case 33:
      return rank_write<DataArray3d, 3, 3>(J);
    case 34:
      return rank_write<DataArray3d, 3, 4>(J);
  }
  return 1;
}

static bool
vio(const Job & J, const string & k, const string & m)
{
  mc::viol(k, J.desc() + ": " + m);
  return false;
}
static const char * REAL = sizeof(real_t) == 8 ? "Float64" : "Float32";

//! one image piece: cells [off, off+l) of the whole domain
static bool
image_piece(const Job & J, const fr::Vti & v, vector<char> & seen, const vector<double> & origin, const vector<double> & spacing)
{
  auto names = J.vars();
  if (v.piece != v.whole || v.piece.size() != 6)
    return vio(J, "piece-extent", "the piece does not cover the extent its file declares");
  if (v.origin != origin || v.spacing != spacing)
    return vio(J, "piece-geometry", "origin or spacing of a piece differ from the index file");
  if (v.names != names || v.appended == J.ascii)
    return vio(J, "piece-variables", "variables or encoding of a piece are wrong");
  int b[3], n[3];
  for (int d = 0; d < 3; d++)
  {
    b[d] = d < J.dim ? (int)v.piece[2 * d] : 0;
    n[d] = d < J.dim ? (int)v.piece[2 * d + 1] - b[d] : 1;
    if (n[d] < 1 || b[d] < 0 || b[d] + n[d] > J.total(d))
      return vio(J, "piece-extent", mc::fmt("extent of a piece on axis %d is %d..%d of 0..%d", d, b[d], b[d] + n[d], J.total(d)));
  }
  for (size_t q = 0; q < names.size(); q++)
  {
    if (v.types[q] != REAL || v.data[q].size() != (size_t)n[0] * n[1] * n[2])
      return vio(J, "piece-length", mc::fmt("variable %s: %d values of type %s for %d cells", names[q].c_str(), (int)v.data[q].size(), v.types[q].c_str(), n[0] * n[1] * n[2]));
    size_t a = 0;
    for (int k = 0; k < n[2]; k++)
      for (int j = 0; j < n[1]; j++)
        for (int i = 0; i < n[0]; i++, a++)
        {
          int x = i + b[0], y = j + b[1], z = k + b[2];
          if (q == 0)
          {
            char & s = seen[(z * J.total(1) + y) * J.total(0) + x];
            if (s)
              return vio(J, "pieces-overlap", mc::fmt("cell (%d,%d,%d) is in two pieces", x, y, z));
            s = 1;
          }
          double e = J.value(x, y, z, q), g = v.data[q][a];
          if (!close(e, g, J.ascii))
            return vio(J, "piece-value:" + names[q], mc::fmt("cell (%d,%d,%d): %.17g in the file, %.17g in memory", x, y, z, g, e));
        }
    mc::stat("values", a);
  }
  return true;
}

//! one unstructured piece; seen: per cell and point of the whole domain
static bool
grid_piece(const Job & J, const fr::Vtu & v, vector<char> & seen)
{
  auto names = J.vars();
  const int D = J.dim, N = J.N, C = D == 2 ? 4 : 8;
  size_t nc = v.offs.size();
  if (v.names != names || v.appended == J.ascii)
    return vio(J, "piece-variables", "variables or encoding of a piece are wrong");
  if (nc != (size_t)J.l[0] * J.l[1] * (D == 3 ? J.l[2] : 1) * (D == 2 ? N * N : N * N * N) || v.conn.size() != nc * C)
    return vio(J, "piece-length", mc::fmt("%d cells and %d corners", (int)nc, (int)v.conn.size()));
  for (size_t q = 0; q < names.size(); q++)
    if (v.types[q] != REAL || v.data[q].size() != nc)
      return vio(J, "piece-length", mc::fmt("variable %s: %d values of type %s for %d cells", names[q].c_str(), (int)v.data[q].size(), v.types[q].c_str(), (int)nc));
  if (v.cycle != J.step || std::fabs(v.time - 0.25) > 1e-6)
    if (std::fabs(v.cycle - J.step) > 1e-5 * J.step)
      return vio(J, "cycle", mc::fmt("cycle %g time %g", v.cycle, v.time));
  double h[3], tol[3], sp[8];
  for (int q = 0; q < N; q++)
    sp[q] = 0.5 * (1 - cos(M_PI * (2 * q + 1) / 2 / N));
  for (int d = 0; d < D; d++)
  {
    h[d] = (J.hi[d] - J.lo[d]) / J.total(d);
    tol[d] = (J.ascii ? 6e-6 : 2e-7) * std::max(std::fabs(J.lo[d]), std::fabs(J.hi[d])) + 1e-12;
  }
  static const int Q[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 } };
  for (size_t c = 0; c < nc; c++)
  {
    if (v.kinds[c] != (D == 2 ? 9 : 12) || v.offs[c] != (double)C * (c + 1))
      return vio(J, "cell-kind", mc::fmt("cell %d of the file has kind %g and ends at %g", (int)c, v.kinds[c], v.offs[c]));
    double X[8][3], lo[3], hi[3];
    for (int m = 0; m < C; m++)
    {
      double id = v.conn[c * C + m];
      if (id < 0 || id != std::floor(id) || 3 * (size_t)id + 2 >= v.points.size())
        return vio(J, "corner", mc::fmt("cell %d refers to point %g", (int)c, id));
      for (int d = 0; d < 3; d++)
        X[m][d] = v.points[3 * (size_t)id + d];
      if (D == 2 && X[m][2] != 0)
        return vio(J, "corner", "point out of the plane");
    }
    for (int d = 0; d < D; d++)
      lo[d] = X[0][d], hi[d] = X[D == 2 ? 2 : 6][d];
    for (int m = 0; m < C; m++)
      for (int d = 0; d < D; d++)
        if (std::fabs(X[m][d] - (Q[m][d] ? hi[d] : lo[d])) > tol[d])
          return vio(J, "cell-shape", mc::fmt("cell %d of the file is no box with its corners in the order of VTK", (int)c));
    int ix[3] = { 0, 0, 0 }, q[3] = { 0, 0, 0 };
    for (int d = 0; d < D; d++)
    {
      double m = (0.5 * (lo[d] + hi[d]) - J.lo[d]) / h[d];
      ix[d] = (int)std::floor(m);
      double f = m - ix[d];
      if (ix[d] < 0 || ix[d] >= J.total(d))
        return vio(J, "cell-place", mc::fmt("cell %d of the file is out of the domain on axis %d", (int)c, d));
      // edges: those of the mesh cell, and the middles between points
      double t = tol[d] / h[d];
      q[d] = -1;
      for (int s = 0; s < N; s++)
      {
        double a = s == 0 ? 0 : 0.5 * (sp[s - 1] + sp[s]), b = s == N - 1 ? 1 : 0.5 * (sp[s] + sp[s + 1]);
        double A = (lo[d] - J.lo[d]) / h[d] - ix[d], B = (hi[d] - J.lo[d]) / h[d] - ix[d];
        if (std::fabs(A - a) <= 2 * t + 1e-9 && std::fabs(B - b) <= 2 * t + 1e-9)
          q[d] = s;
      }
      if (q[d] < 0)
        return vio(J, "cell-place", mc::fmt("cell %d of the file (around %g on axis %d) belongs to no solution point", (int)c, f, d));
    }
    int p = q[0] + N * (q[1] + N * q[2]), P = D == 2 ? N * N : N * N * N;
    char & s = seen[((size_t)(ix[2] * J.total(1) + ix[1]) * J.total(0) + ix[0]) * P + p];
    if (s)
      return vio(J, "pieces-overlap", mc::fmt("point %d of cell (%d,%d,%d) appears twice", p, ix[0], ix[1], ix[2]));
    s = 1;
    for (size_t k = 0; k < names.size(); k++)
    {
      double e = J.value(ix[0], ix[1], ix[2], k, p), g = v.data[k][c];
      if (!close(e, g, J.ascii))
        return vio(J, "piece-value:" + names[k], mc::fmt("cell (%d,%d,%d) point %d: %.17g in the file, %.17g in memory", ix[0], ix[1], ix[2], p, g, e));
    }
  }
  mc::stat("values", nc * names.size());
  return true;
}

static bool
check(const Job & J)
{
  for (auto & f : list(J.dir))
    unlink((J.dir + "/" + f).c_str());
#ifdef USE_MPI
  mpx::World w(J.np());
  w.perm = J.perm;
  auto o = w.run([&](int) {
    MPI_Init(nullptr, nullptr);
    int r = write_one(J);
    MPI_Finalize();
    return r;
  });
  if (!o.error.empty())
    return vio(J, "run", o.error);
#else
  write_one(J);
#endif
  mc::stat("executions");
  mc::stat("transitions", J.np());
  string d = J.desc();
  mc::state(mc::hash_bytes(d.data(), d.size()));
  string stem = J.prefix + (J.dbg.empty() ? "" : "_" + J.dbg);
  vector<string> files = list(J.dir);
  auto           vals = J.vars();
  size_t         pts = J.N ? (J.dim == 2 ? J.N * J.N : J.N * J.N * J.N) : 1;
  vector<char>   seen((size_t)J.total(0) * J.total(1) * J.total(2) * pts);
  auto           complete = [&]() {
    for (size_t i = 0; i < seen.size(); i++)
      if (!seen[i])
        return vio(J, "not-covered", mc::fmt("cell or point number %d is in no piece", (int)i));
    return true;
  };
  auto text = [&](const string & n, string & t) {
    bool ok;
    t = get(J.dir + "/" + n, &ok);
    if (!ok)
    {
      string have;
      for (auto & f : files)
        have += " " + f;
      return vio(J, "no-file", "no file " + n + ", only" + have);
    }
    return true;
  };
#ifdef USE_MPI
  const bool image = !J.N;
  string     t, index = stem + mc::fmt("_time%07d.%s", J.step, image ? "pvti" : "pvtu");
  if (!text(index, t))
    return false;
  auto x = fr::read_pvtx(t, image);
  if (!x.err.empty())
    return vio(J, "index-malformed", x.err);
  if (x.names != vals)
    return vio(J, "index-variables", "variables of the index file are wrong");
  for (auto & ty : x.types)
    if (ty != REAL)
      return vio(J, "index-type", "data type in the index file is " + ty);
  if ((int)x.sources.size() != J.np())
    return vio(J, "index-pieces", mc::fmt("%d pieces for %d processes", (int)x.sources.size(), J.np()));
  if (files.size() != (size_t)J.np() + 1)
    return vio(J, "extra-files", mc::fmt("%d files", (int)files.size()));
  if (image)
  {
    vector<double> ext;
    for (int q = 0; q < 3; q++)
    {
      double o = q == 2 && J.dim == 2 ? 0 : J.lo[q], h = q == 2 && J.dim == 2 ? 0 : (J.hi[q] - J.lo[q]) / J.total(q);
      ext.push_back(0), ext.push_back(q < J.dim ? J.total(q) : 0);
      if (x.origin.size() != 3 || std::fabs(x.origin[q] - o) > 1e-5 * std::fabs(o))
        return vio(J, "origin", mc::fmt("origin[%d] is %g instead of %g", q, x.origin.size() == 3 ? x.origin[q] : NAN, o));
      if (x.spacing.size() != 3 || std::fabs(x.spacing[q] - h) > 1e-5 * h)
        return vio(J, "spacing", mc::fmt("spacing[%d] is %g instead of %g", q, x.spacing.size() == 3 ? x.spacing[q] : NAN, h));
    }
    if (x.whole != ext)
      return vio(J, "whole-extent", "the whole extent does not match the domain");
  }
  for (size_t k = 0; k < x.sources.size(); k++)
  {
    if (!text(x.sources[k], t))
      return false;
    if (image)
    {
      auto v = fr::read_vti(t);
      if (!v.err.empty())
        return vio(J, "piece-malformed", x.sources[k] + ": " + v.err);
      if (v.piece != x.extents[k])
        return vio(J, "index-extent", "the index file gives another extent for " + x.sources[k] + " than the file itself");
      if (!image_piece(J, v, seen, x.origin, x.spacing))
        return false;
    }
    else
    {
      auto v = fr::read_vtu(t);
      if (!v.err.empty())
        return vio(J, "piece-malformed", x.sources[k] + ": " + v.err);
      if (!grid_piece(J, v, seen))
        return false;
    }
  }
#else
  string t, name = stem + mc::fmt("_%07d.vtu", J.step);
  if (!text(name, t))
    return false;
  if (files.size() != 1)
    return vio(J, "extra-files", mc::fmt("%d files", (int)files.size()));
  auto v = fr::read_vtu(t);
  if (!v.err.empty())
    return vio(J, "malformed", v.err);
  if (!grid_piece(J, v, seen))
    return false;
#endif
  return complete();
}

static void
family(int dim, int N, bool mhd)
{
  const bool   T = mc::A.thorough;
  const double LO[3][3] = { { 0, 0, 0 }, { -1.5, 0.25, 3 }, { -0.03125, -64, 0.5 } };
  const double HI[3][3] = { { 1, 1, 1 }, { 2.5, 1, 3.5 }, { 0.03125, 64, 0.75 } };
#ifdef USE_MPI
  const int M = T ? 8 : 6;
#else
  const int M = 1; // serial: shapes only
#endif
  for (int a = 1; a <= M; a++)
    for (int b = 1; a * b <= M; b++)
      for (int c = 1; a * b * c <= (dim == 3 ? M : a * b); c++)
        for (int s = 0; s < (T || M == 1 ? 27 : N >= 3 ? 5 : 9); s++)
          for (int ascii = 0; ascii < 2; ascii++)
          {
            Job J;
            J.dim = dim, J.N = N, J.mhd = mhd, J.ascii = ascii;
            J.g[0] = a, J.g[1] = b, J.g[2] = c;
            // every pair of sizes 1..3 on each two axes
            J.l[0] = 1 + s % 3, J.l[1] = 1 + s / 3 % 3, J.l[2] = dim == 3 ? 1 + (s + s / 3 + s / 9) % 3 : 1;
            if (!mc::item(mc::fmt("files %s grid %dx%dx%d cells %dx%dx%d ascii %d", J.solver().c_str(), a, b, c, J.l[0], J.l[1], J.l[2], ascii)))
              continue;
            J.dir = scratch("vtk");
            for (int var = 0; var < 3; var++)
            {
              J.pat = var == 1;
              J.prefix = var == 1 ? "x_1" : "output";
              J.dbg = var == 2 ? "flux" : "";
              J.step = var == 0 ? 0 : var == 1 ? 9999999 : 42;
              int bd = (var + s) % 3;
              for (int q = 0; q < 3; q++)
                J.lo[q] = LO[bd][q], J.hi[q] = HI[bd][q];
              J.perm.clear();
              if (var && J.np() > 1) // the library may renumber the processes of the grid
                for (int r = 0; r < J.np(); r++)
                  J.perm.push_back(var == 1 ? J.np() - 1 - r : (r + 1) % J.np());
              check(J);
            }
            clean(J.dir);
          }
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  string m = mc::A.get("mode");
#ifdef USE_MPI
  family(2, 0, false);
  family(2, 0, true);
  family(3, 0, false);
  family(3, 0, true);
#endif
  for (int N = 1; N <= 6; N++)
    family(2, N, false);
  for (int N = 2; N <= 4; N++)
    family(3, N, false);
  return mc::done();
}
