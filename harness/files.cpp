// P14 (mode restart), P15 (mode hdf5), P16 (mode vtk): the files the code writes, read
// back by independent readers, and runs restarted from each of them.
#include "filesread.h"
#include "shared/HydroState.h"
#include "utils/io/IO_HDF5.h"
#include "utils/io/IO_ReadWrite.h"
using namespace mr;
using fr::H5;

static const char * HN2[] = { "rho", "energy", "rho_vx", "rho_vy" };
static const char * HN3[] = { "rho", "energy", "rho_vx", "rho_vy", "rho_vz" };
static const char * MN[] = { "rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz" };

struct Fam
{
  const char *   solver;
  int            dim;
  bool           mhd;
  int            gw;
  vector<string> vars() const
  {
    if (mhd)
      return vector<string>(MN, MN + 8);
    return dim == 2 ? vector<string>(HN2, HN2 + 4) : vector<string>(HN3, HN3 + 5);
  }
};
static const vector<Fam> FAMS = { { "Hydro_Muscl_2D", 2, false, 2 }, { "Hydro_Muscl_3D", 3, false, 2 }, { "MHD_Muscl_2D", 2, true, 3 }, { "MHD_Muscl_3D", 3, true, 3 } };

static Map
base(const Fam & f, int nx, int ny, int nz)
{
  Map m = { { "run.solver_name", f.solver }, { "mesh.nx", std::to_string(nx) }, { "mesh.ny", std::to_string(ny) }, { "mesh.nz", std::to_string(f.dim == 3 ? nz : 1) }, { "hydro.cfl", "0.5" }, { "run.nlog", "100" }, { "run.nStepmax", "1000000" } };
  for (const char * s : { "xmin", "xmax", "ymin", "ymax", "zmin", "zmax" })
    m[string("mesh.boundary_type_") + s] = "3";
  return m;
}

//! Writes/reads fields through IO_ReadWrite, whatever the dimension
template <class DA>
struct Field
{
  static constexpr int        D = DA::rank == 3 ? 2 : 3;
  DA                          U;
  typename DA::HostMirror     H;
  int                         n[4];
  explicit Field(const HydroParams & p)
  {
    n[0] = p.isize;
    n[1] = p.jsize;
    n[2] = D == 3 ? p.ksize : 1;
    n[3] = p.nbvar;
    if constexpr (D == 2)
      U = DA("U", n[0], n[1], n[3]);
    else
      U = DA("U", n[0], n[1], n[2], n[3]);
    H = Kokkos::create_mirror(U);
  }
  real_t & at(int i, int j, int k, int v)
  {
    if constexpr (D == 2)
      return U(i, j, v);
    else
      return U(i, j, k, v);
  }
  template <class F>
  void each(F && f)
  {
    for (int v = 0; v < n[3]; v++)
      for (int k = 0; k < n[2]; k++)
        for (int j = 0; j < n[1]; j++)
          for (int i = 0; i < n[0]; i++)
            f(i, j, k, v);
  }
};

//! value number id of pattern: all different, resp. extreme values
static double
val(int pat, long id)
{
  if (pat == 0)
    return 100 + id;
  static const double ex[] = { 1e300, -1e-300, 5e-324, -0.0, 1.0 / 3, -1e17, 3.0000000000000004, 0.1 };
  return ex[id % 8] * (1 + (id / 8) * 0.001);
}
static bool
same(double a, double b)
{
  return !memcmp(&a, &b, sizeof a);
}

// ------------------------------------------------------------------ P15
template <class DA>
static void
hdf5_case(const Fam & f, Map m, int pat, const string & prefix, const vector<std::pair<int, double>> & hist, const string & dbg)
{
  const string d = m.at("output.outputDir");
  ConfigMap    c = config(m);
  HydroParams  p;
  p.setup(c);
  bool ghost = m.count("output.ghostIncluded") && m["output.ghostIncluded"] == "yes";
  auto names = f.vars();
  auto vn = [&] {
    std::map<int, string> r;
    for (size_t i = 0; i < names.size(); i++)
      r[i] = names[i];
    return r;
  }();
  const int gw = p.ghostWidth;
  if (gw != f.gw)
    mc::viol("ghost-width", "unexpected ghost width");
  Field<DA> F(p);
  long      id = 0;
  F.each([&](int i, int j, int k, int v) { F.at(i, j, k, v) = val(pat, id++); });
  DA copy;
  for (auto & st : hist)
  {
    ppkMHD::io::IO_ReadWrite io(p, c, vn);
    io.save_data(F.U, F.H, st.first, st.second, dbg);
    mc::stat("transitions");
    string name = prefix + (dbg.empty() ? "" : "_" + dbg) + mc::fmt("_%07d.h5", st.first);
    H5     h = fr::read_h5(d + "/" + name);
    if (!h.ok)
    {
      mc::viol("unreadable", "no readable HDF5 file " + name);
      return;
    }
    if (h.data.size() != names.size())
      mc::viol("variables", mc::fmt("%d datasets instead of %d", (int)h.data.size(), (int)names.size()));
    int g = ghost ? 0 : gw;
    vector<hsize_t> dims;
    if (f.dim == 3)
      dims.push_back(F.n[2] - 2 * g);
    dims.push_back(F.n[1] - 2 * g);
    dims.push_back(F.n[0] - 2 * g);
    for (size_t v = 0; v < names.size(); v++)
    {
      if (!h.data.count(names[v]))
      {
        mc::viol("variables", "no dataset " + names[v]);
        continue;
      }
      if (h.dims[names[v]] != dims)
      {
        mc::viol("dimensions", "dataset " + names[v] + " has wrong dimensions");
        continue;
      }
      if (h.type[names[v]] != "real")
        mc::viol("type", "dataset " + names[v] + " is not stored in the precision of the run");
      auto & D = h.data[names[v]];
      size_t q = 0;
      int    gk = f.dim == 3 ? g : 0;
      for (int k = gk; k < F.n[2] - gk; k++)
        for (int j = g; j < F.n[1] - g; j++)
          for (int i = g; i < F.n[0] - g; i++, q++)
            if (!same(D[q], F.at(i, j, k, v)))
              mc::viol("value:" + names[v], mc::fmt("cell (%d,%d,%d): %.17g in the file, %.17g in memory", i, j, k, D[q], F.at(i, j, k, v)));
      mc::stat("values", q);
    }
    auto A = [&](const char * n, double x) {
      if (!h.attr.count(n))
        mc::viol(string("attribute:") + n, string("no attribute ") + n);
      else if (h.attr[n] != x)
        mc::viol(string("attribute:") + n, mc::fmt("attribute %s is %.17g instead of %.17g", n, h.attr[n], x));
    };
    A("time step", st.first);
    A("total time", st.second);
    A("nx", p.nx);
    A("ny", p.ny);
    if (f.dim == 3)
      A("nz", p.nz);
    A("ghost zone included", ghost);
    // reading it back
    if (dbg.empty())
    {
      Map mm = m;
      mm["run.restart_filename"] = d + "/" + name;
      ConfigMap                cc = config(mm);
      ppkMHD::io::IO_ReadWrite rd(p, cc, vn);
      Field<DA>                G(p);
      G.each([&](int i, int j, int k, int v) { G.at(i, j, k, v) = -7; });
      int    it = -1;
      real_t t = -1;
      rd.load_data(G.U, G.H, it, t);
      if (it != st.first || t != st.second)
        mc::viol("load-time", mc::fmt("loaded number %d time %.17g instead of %d, %.17g", it, t, st.first, st.second));
      G.each([&](int i, int j, int k, int v) {
        bool in = i >= g && i < F.n[0] - g && j >= g && j < F.n[1] - g && (f.dim == 2 || (k >= g && k < F.n[2] - g));
        if (in && !same(G.at(i, j, k, v), F.at(i, j, k, v)))
          mc::viol("load-value:" + names[v], mc::fmt("cell (%d,%d,%d): %.17g loaded, %.17g saved", i, j, k, G.at(i, j, k, v), F.at(i, j, k, v)));
      });
    }
    // the field changes before the next output
    F.each([&](int i, int j, int k, int v) { F.at(i, j, k, v) = val(pat, id++); });
  }
  mc::state(mc::hash_bytes(mc::cur_desc.data(), mc::cur_desc.size()));
}

//! the index written after outputs 0..last
static void
check_xmf(const Fam & f, const string & d, const string & prefix, int last, const vector<hsize_t> & dims)
{
  bool   ok;
  string t = get(d + "/" + prefix + ".xmf", &ok);
  if (!ok)
  {
    mc::viol("no-index", "no XDMF index " + prefix + ".xmf in the output directory");
    return;
  }
  fr::Xml  x(t);
  fr::Node r;
  if (!x.parse(r))
  {
    mc::viol("index-xml", "XDMF index not well formed: " + x.err);
    return;
  }
  auto dom = r.child("Domain");
  auto ser = dom ? dom->child("Grid") : nullptr;
  if (r.tag != "Xdmf" || !ser || ser->get("GridType") != "Collection" || ser->get("CollectionType") != "Temporal")
  {
    mc::viol("index-xml", "XDMF index holds no temporal collection");
    return;
  }
  auto grids = ser->all("Grid");
  if ((int)grids.size() != last + 1)
    mc::viol("index-steps", mc::fmt("index lists %d outputs, %d were written", (int)grids.size(), last + 1));
  string want;
  for (size_t q = 0; q < dims.size(); q++)
    want += (q ? " " : "") + std::to_string(dims[q]);
  double tprev = -1e300;
  for (int n = 0; n < (int)grids.size(); n++)
  {
    auto & g = *grids[n];
    auto   time = g.child("Time");
    double tv = time ? atof(time->get("Value").c_str()) : NAN;
    if (!(tv > tprev))
      mc::viol("index-time", mc::fmt("times of the index do not increase at entry %d", n));
    tprev = tv;
    auto top = g.child("Topology");
    auto nums = [](const string & s) {
      auto v = fr::numbers(s);
      return v;
    };
    if (!top || nums(top->get("NumberOfElements")) != nums(want) || top->get("TopologyType") != (f.dim == 2 ? "2DCoRectMesh" : "3DCoRectMesh"))
      mc::viol("index-dims", mc::fmt("entry %d: wrong topology", n));
    auto at = g.all("Attribute");
    auto names = f.vars();
    if (at.size() != names.size())
      mc::viol("index-vars", mc::fmt("entry %d lists %d variables instead of %d", n, (int)at.size(), (int)names.size()));
    std::set<string> found;
    for (auto a : at)
    {
      auto ds = a->child("DataStructure");
      if (!ds)
      {
        mc::viol("index-vars", mc::fmt("entry %d: variable without data", n));
        continue;
      }
      string ref = ds->text;
      while (!ref.empty() && isspace((unsigned char)ref[0]))
        ref.erase(0, 1);
      while (!ref.empty() && isspace((unsigned char)ref.back()))
        ref.pop_back();
      size_t col = ref.rfind(":/");
      string file = ref.substr(0, col), var = col == string::npos ? "" : ref.substr(col + 2);
      found.insert(var);
      if (var != a->get("Name"))
        mc::viol("index-vars", mc::fmt("entry %d: %s refers to %s", n, a->get("Name").c_str(), ref.c_str()));
      if (nums(ds->get("Dimensions")) != nums(want) || ds->get("Format") != "HDF")
        mc::viol("index-dims", mc::fmt("entry %d variable %s: dimensions '%s' instead of '%s'", n, var.c_str(), ds->get("Dimensions").c_str(), want.c_str()));
      if (file != prefix + mc::fmt("_%07d.h5", n))
        mc::viol("index-file", mc::fmt("entry %d refers to %s", n, file.c_str()));
      H5 h = fr::read_h5(d + "/" + file);
      if (!h.ok || !h.data.count(var) || h.dims[var] != dims)
        mc::viol("index-file", mc::fmt("entry %d refers to %s, which is not there or has other dimensions", n, ref.c_str()));
    }
    for (auto & v : names)
      if (!found.count(v))
        mc::viol("index-vars", mc::fmt("entry %d: no variable %s", n, v.c_str()));
    mc::stat("index_entries");
  }
}

static vector<std::array<int, 3>>
shapes(int dim)
{
  vector<std::array<int, 3>> r;
  if (dim == 2)
  {
    int M = mc::A.thorough ? 7 : 4;
    for (int a = 1; a <= M; a++)
      for (int b = 1; b <= M; b++)
        r.push_back({ a, b, 1 });
    r.push_back({ 13, 5, 1 });
    r.push_back({ 5, 13, 1 });
  }
  else
  {
    int M = mc::A.thorough ? 5 : 3;
    for (int a = 1; a <= M; a++)
      for (int b = 1; b <= M; b++)
        for (int c = 1; c <= M; c++)
          r.push_back({ a, b, c });
    r.push_back({ 7, 4, 2 });
  }
  return r;
}

static void
mode_hdf5()
{
  for (auto & f : FAMS)
  {
    for (auto & s : shapes(f.dim))
      for (int ghost = 0; ghost < 2; ghost++)
        for (int pat = 0; pat < 2; pat++)
          for (int var = 0; var < 3; var++)
          {
            if (!mc::item(mc::fmt("%s %dx%dx%d ghosts %d values %d names %d", f.solver, s[0], s[1], s[2], ghost, pat, var)))
              continue;
            string d = scratch("h5");
            Map    m = base(f, s[0], s[1], s[2]);
            m["output.outputDir"] = d;
            m["output.hdf5_enabled"] = "yes";
            m["output.vtk_enabled"] = "no";
            string prefix = "output";
            if (ghost)
              m["output.ghostIncluded"] = "yes";
            if (var == 1)
            {
              m["output.outputHdf5CompressionLevel"] = "0";
              m["output.outputPrefix"] = prefix = "a.b_c";
            }
            if (var == 2)
            {
              m["output.outputHdf5CompressionLevel"] = "9";
              m["output.outputDir"] = d + "/.";
            }
            vector<std::pair<int, double>> hist;
            if (var == 0)
              hist = { { 0, 0.0 }, { 1, 0.1 }, { 2, 1.0 / 3 }, { 3, 7e8 } };
            else if (var == 1)
              hist = { { 9999999, 1e-300 }, { 10, 2.5 } };
            else
              hist = { { 0, 123456789.123456789 }, { 1, 123456790.5 } };
            string dbg = "";
            if (f.dim == 2)
              hdf5_case<DataArray2d>(f, m, pat, prefix, hist, dbg);
            else
              hdf5_case<DataArray3d>(f, m, pat, prefix, hist, dbg);
            // the index of histories of every length
            if (var == 0)
            {
              ConfigMap   c = config(m);
              HydroParams p;
              p.setup(c);
              std::map<int, string> vn;
              auto                  names = f.vars();
              for (size_t i = 0; i < names.size(); i++)
                vn[i] = names[i];
              vector<hsize_t> dims;
              int             g2 = ghost ? 2 * f.gw : 0;
              if (f.dim == 3)
                dims.push_back(s[2] + g2);
              dims.push_back(s[1] + g2);
              dims.push_back(s[0] + g2);
              for (int last = -1; last <= 3; last++)
              {
                ppkMHD::io::writeXdmfForHdf5Wrapper(p, c, vn, last, false);
                check_xmf(f, d, prefix, last, dims);
                mc::stat("transitions");
              }
            }
            clean(d);
          }
    // whole runs: HDF5, VTK and index agree
    for (int ghost = 0; ghost < 2; ghost++)
      for (int nout : { -1, 0, 1, 3 })
        for (int sub = 0; sub < 2; sub++)
        {
          if (!mc::item(mc::fmt("run of %s, ghosts %d, nOutput %d, directory %d", f.solver, ghost, nout, sub)))
            continue;
          string d = scratch("run");
          Map    m = base(f, 5, 4, 3);
          m["hydro.problem"] = f.mhd ? "orszag_tang" : "blast";
          if (f.mhd && f.dim == 3)
            m["hydro.problem"] = "blast";
          m["blast.radius"] = "0.3";
          m["run.tEnd"] = "0.0625";
          m["run.nOutput"] = std::to_string(nout);
          m["output.hdf5_enabled"] = "yes";
          m["output.vtk_enabled"] = "yes";
          string od = d;
          if (sub)
          {
            od = d + "/out";
            mkdir(od.c_str(), 0755);
            m["output.outputDir"] = "out";
          }
          if (ghost)
            m["output.ghostIncluded"] = "yes";
          if (ran(run_main(d, m)))
          {
            auto h5 = list(od, ".h5"), vti = list(od, ".vti");
            if (h5.size() != vti.size())
              mc::viol("files", mc::fmt("%d HDF5 and %d VTK files", (int)h5.size(), (int)vti.size()));
            vector<hsize_t> dims;
            int             g = ghost ? f.gw : 0;
            if (f.dim == 3)
              dims.push_back(3 + 2 * g);
            dims.push_back(4 + 2 * g);
            dims.push_back(5 + 2 * g);
            check_xmf(f, od, "output", (int)h5.size() - 1, dims);
            double tprev = -1;
            for (size_t n = 0; n < h5.size(); n++)
            {
              H5   h = fr::read_h5(od + "/" + h5[n]);
              auto v = fr::read_vti(get(od + "/" + mc::fmt("output_%07d.vti", (int)n)));
              if (!h.ok || !v.err.empty())
              {
                mc::viol("unreadable", "HDF5 or VTK file not readable " + v.err);
                continue;
              }
              if (h.attr["time step"] != n || h.attr["total time"] < tprev)
                mc::viol("attribute:run", mc::fmt("output %d says number %g, time %g after %g", (int)n, h.attr["time step"], h.attr["total time"], tprev));
              tprev = h.attr["total time"];
              for (size_t q = 0; q < v.names.size(); q++)
              {
                auto & D = h.data[v.names[q]];
                size_t a = 0;
                if (v.data[q].size() != 5 * 4 * (f.dim == 3 ? 3 : 1))
                {
                  mc::viol("run-size", "VTK data of wrong length");
                  continue;
                }
                for (int k = 0; k < (f.dim == 3 ? 3 : 1); k++)
                  for (int j = 0; j < 4; j++)
                    for (int i = 0; i < 5; i++, a++)
                    {
                      size_t b = (i + g) + (size_t)(5 + 2 * g) * ((j + g) + (size_t)(4 + 2 * g) * (f.dim == 3 ? k + g : 0));
                      if (b >= D.size() || !same(D[b], v.data[q][a]))
                        mc::viol("run-value:" + v.names[q], mc::fmt("output %d cell (%d,%d,%d): HDF5 %.17g VTK %.17g", (int)n, i, j, k, b < D.size() ? D[b] : NAN, v.data[q][a]));
                    }
                mc::stat("values", a);
              }
            }
          }
          if (sub)
            clean(od);
          clean(d);
        }
  }
}

// ------------------------------------------------------------------ P16
template <class DA>
static void
vtk_case(const Fam & f, Map m, int pat, const string & prefix, int step, const string & dbg, bool ascii, const double * lo, const double * hi)
{
  const string d = m.at("output.outputDir");
  ConfigMap    c = config(m);
  HydroParams  p;
  p.setup(c);
  auto                  names = f.vars();
  std::map<int, string> vn;
  for (size_t i = 0; i < names.size(); i++)
    vn[i] = names[i];
  const int gw = p.ghostWidth;
  Field<DA> F(p);
  long      id = 0;
  F.each([&](int i, int j, int k, int v) { F.at(i, j, k, v) = val(pat, id++); });
  ppkMHD::io::IO_ReadWrite io(p, c, vn);
  io.save_data(F.U, F.H, step, 0.25, dbg);
  mc::stat("transitions");
  string name = prefix + (dbg.empty() ? "" : "_" + dbg) + mc::fmt("_%07d.vti", step);
  bool   ok;
  string text = get(d + "/" + name, &ok);
  if (!ok)
  {
    mc::viol("no-file", "no file " + name);
    return;
  }
  auto v = fr::read_vti(text);
  if (!v.err.empty())
  {
    mc::viol("malformed", v.err);
    return;
  }
  int            n[3] = { p.nx, p.ny, p.nz };
  vector<double> ext = { 0, (double)n[0], 0, (double)n[1], 0, f.dim == 3 ? (double)n[2] : 0.0 };
  if (v.whole != ext || v.piece != ext)
    mc::viol("extent", "extent does not match the grid");
  for (int q = 0; q < 3; q++)
  {
    double o = q == 2 && f.dim == 2 ? 0 : lo[q], h = q == 2 && f.dim == 2 ? 0 : (hi[q] - lo[q]) / n[q];
    if (v.origin.size() != 3 || std::fabs(v.origin[q] - o) > 1e-5 * std::fabs(o))
      mc::viol("origin", mc::fmt("origin[%d] is %g instead of %g", q, v.origin.size() == 3 ? v.origin[q] : NAN, o));
    if (v.spacing.size() != 3 || std::fabs(v.spacing[q] - h) > 1e-5 * h)
      mc::viol("spacing", mc::fmt("spacing[%d] is %g instead of %g", q, v.spacing.size() == 3 ? v.spacing[q] : NAN, h));
  }
  if (v.names != names)
    mc::viol("variables", "variables or their order are wrong");
  if (v.appended == ascii)
    mc::viol("encoding", "not the encoding asked for");
  const int nk = f.dim == 3 ? n[2] : 1;
  for (size_t q = 0; q < v.names.size() && q < names.size(); q++)
  {
    if (v.types[q] != (sizeof(real_t) == 8 ? "Float64" : "Float32"))
      mc::viol("type", "data type is " + v.types[q]);
    if (v.data[q].size() != (size_t)n[0] * n[1] * nk)
    {
      mc::viol("length", mc::fmt("variable %s has %d values for %d cells", names[q].c_str(), (int)v.data[q].size(), n[0] * n[1] * nk));
      continue;
    }
    size_t a = 0;
    for (int k = 0; k < nk; k++)
      for (int j = 0; j < n[1]; j++)
        for (int i = 0; i < n[0]; i++, a++)
        {
          double e = F.at(i + gw, j + gw, f.dim == 3 ? k + gw : 0, q), g = v.data[q][a];
          bool   eq = ascii ? std::fabs(g - e) <= 1.01e-5 * std::fabs(e) * 0.5 + 5e-324 : same(g, e);
          if (!eq)
            mc::viol("value:" + names[q], mc::fmt("cell (%d,%d,%d): %.17g in the file, %.17g in memory", i, j, k, g, e));
        }
    mc::stat("values", a);
  }
  mc::state(mc::hash_bytes(mc::cur_desc.data(), mc::cur_desc.size()));
}

static void
mode_vtk()
{
  const double LO[3][3] = { { 0, 0, 0 }, { -1.5, 0.25, 3 }, { -0.03125, -1048576, 0.5 } };
  const double HI[3][3] = { { 1, 1, 1 }, { 2.5, 1, 3.5 }, { 0.03125, 1048576, 0.75 } };
  for (auto & f : FAMS)
    for (auto & s : shapes(f.dim))
      for (int ascii = 0; ascii < 2; ascii++)
        for (int b = 0; b < 3; b++)
        {
          if (!mc::item(mc::fmt("%s %dx%dx%d ascii %d bounds %d", f.solver, s[0], s[1], s[2], ascii, b)))
            continue;
          string ctx = mc::cur_desc;
          string d = scratch("vtk");
          for (int pat = 0; pat < 2; pat++)
            for (int var = 0; var < 3; var++)
            {
              mc::cur_desc = ctx + mc::fmt(", values %d names %d", pat, var);
              Map m = base(f, s[0], s[1], s[2]);
              m["output.outputDir"] = d;
              m["output.vtk_enabled"] = "yes";
              if (ascii)
                m["output.outputVtkAscii"] = "yes";
              const char * ax[3] = { "x", "y", "z" };
              for (int q = 0; q < 3; q++)
              {
                m[string("mesh.") + ax[q] + "min"] = num(LO[b][q]);
                m[string("mesh.") + ax[q] + "max"] = num(HI[b][q]);
              }
              string prefix = "output", dbg = "";
              int    step = 0;
              if (var == 1)
              {
                m["output.outputPrefix"] = prefix = "x_1";
                step = 9999999;
              }
              if (var == 2)
              {
                dbg = "flux";
                step = 42;
              }
              if (f.dim == 2)
                vtk_case<DataArray2d>(f, m, pat, prefix, step, dbg, ascii, LO[b], HI[b]);
              else
                vtk_case<DataArray3d>(f, m, pat, prefix, step, dbg, ascii, LO[b], HI[b]);
            }
          clean(d);
        }
}

// ------------------------------------------------------------------ P14
struct Out
{
  int    n;
  double t;
  H5     h;
};
static vector<Out>
outputs(const string & d)
{
  vector<Out> r;
  for (auto & f : list(d, ".h5"))
    if (f.compare(0, 7, "output_") == 0)
    {
      Out o;
      o.n = atoi(f.c_str() + 7);
      o.h = fr::read_h5(d + "/" + f);
      o.t = o.h.attr.count("total time") ? o.h.attr["total time"] : NAN;
      if (!o.h.ok || o.h.attr["time step"] != o.n)
        mc::viol("unreadable", "bad output " + f);
      r.push_back(o);
    }
  return r;
}
//! largest difference of two outputs, relative to the largest value of each variable
static double
diff(const H5 & a, const H5 & b, string & where, const Fam & f, bool ghost, const int * n)
{
  double r = 0;
  for (auto & kv : a.data)
  {
    auto it = b.data.find(kv.first);
    if (it == b.data.end() || it->second.size() != kv.second.size())
    {
      where = kv.first + " missing";
      return 1e300;
    }
    double s = 0;
    for (double x : kv.second)
      s = std::max(s, std::fabs(x));
    int nn[3], g = ghost ? f.gw : 0;
    for (int q = 0; q < 3; q++)
      nn[q] = f.dim == 2 && q == 2 ? 1 : n[q] + 2 * g;
    for (size_t q = 0; q < kv.second.size(); q++)
    {
      int i = q % nn[0], j = q / nn[0] % nn[1], k = q / nn[0] / nn[1];
      if (i < g || i >= nn[0] - g || j < g || j >= nn[1] - g || (f.dim == 3 && (k < g || k >= nn[2] - g)))
        continue; // ghost cells are recomputed
      double e = std::fabs(kv.second[q] - it->second[q]) / (s > 0 ? s : 1);
      if (!(e <= r))
      {
        r = e;
        where = mc::fmt("%s(%d,%d,%d) %.17g instead of %.17g", kv.first.c_str(), i, j, k, it->second[q], kv.second[q]);
        if (e != e)
          return 1e300;
      }
    }
  }
  return r;
}
static void
copy_file(const string & a, const string & b)
{
  put(b, get(a));
}

static void
mode_restart()
{
  struct Prob
  {
    const char * name;
    const char * gravity;
    int          bc; // 0 periodic, 1 reflecting, 2 outflow, 3 mixed
    bool         d2, d3, hyd, mhd;
    const char * tEnd;
  };
  const Prob probs[] = {
    { "blast", "no", 0, true, true, true, true, "0.0625" }, { "blast", "no", 1, true, true, true, true, "0.0625" },
    { "implode", "no", 3, true, true, true, true, "0.09375" }, { "implode", "no", 2, true, true, true, true, "0.09375" },
    { "orszag_tang", "no", 0, true, true, false, true, "0.125" }, { "rayleigh_taylor", "yes", 1, true, true, true, false, "0.125" },
    { "rayleigh_taylor", "yes", 3, true, true, true, false, "0.125" }, { "rising_bubble", "yes", 0, true, true, true, false, "0.0625" },
    { "disk", "yes", 2, true, false, true, false, "0.0625" }, { "four_quadrant", "no", 2, true, false, true, false, "0.0625" },
    { "rotor", "no", 0, true, false, false, true, "0.0625" }, { "field_loop", "no", 0, true, true, false, true, "0.125" },
  };
  const int grids[2][3] = { { 6, 4, 3 }, { 4, 7, 5 } };
  for (auto & f : FAMS)
    for (auto & pr : probs)
    {
      if (!(f.dim == 2 ? pr.d2 : pr.d3) || !(f.mhd ? pr.mhd : pr.hyd))
        continue;
      for (int g = 0; g < 2; g++)
        for (int ghost = 0; ghost < 2; ghost++)
          for (int nout : { 3, 7, -1 })
            for (int impl = 0; impl < 2; impl++)
            {
              if (impl == 1 && (ghost || nout == 3))
                continue;
              if (!mc::item(mc::fmt("%s %s gravity %s boundaries %d grid %d ghosts %d nOutput %d variant %d", f.solver, pr.name, pr.gravity, pr.bc, g, ghost, nout, impl)))
                continue;
              const string ctx = mc::cur_desc;
              string       a = scratch("a"), b = scratch("b");
              Map          m = base(f, grids[g][0], grids[g][1], grids[g][2]);
              m["hydro.problem"] = pr.name;
              m["gravity.enabled"] = pr.gravity;
              m["gravity.static"] = pr.gravity;
              m["gravity.static_field_x"] = "0.5";
              m["gravity.static_field_y"] = "-1";
              m["gravity.static_field_z"] = "-0.75";
              m["gravity.g_x"] = "0.5";
              m["gravity.g_y"] = "-1";
              m["gravity.g_z"] = "-0.75";
              m["blast.radius"] = "0.3";
              m["hydro.iorder"] = "2";
              m["hydro.implementationVersion"] = impl ? "1" : "0";
              m["other.implementationVersion"] = impl ? "1" : "0";
              m["run.tEnd"] = pr.tEnd;
              m["run.nOutput"] = std::to_string(nout);
              m["output.hdf5_enabled"] = "yes";
              m["output.vtk_enabled"] = "no";
              if (ghost)
                m["output.ghostIncluded"] = "yes";
              const char * sd[6] = { "xmin", "xmax", "ymin", "ymax", "zmin", "zmax" };
              for (int q = 0; q < 6; q++)
                m[string("mesh.boundary_type_") + sd[q]] = pr.bc == 0 ? "3" : pr.bc == 1 ? "1" : pr.bc == 2 ? "2" : q < 2 ? "3" : (q & 1) ? "2" : "1";
              if (!ran(run_main(a, m)))
              {
                clean(a);
                clean(b);
                continue;
              }
              auto A = outputs(a);
              if (A.size() < 3)
                mc::viol("too-few", mc::fmt("run has only %d outputs", (int)A.size()));
              //! restart from file src holding output n; compares with A; returns its outputs
              const double tEnd = atof(pr.tEnd);
              // filen: the number the file has, n: the number of that output in A
              auto restart = [&](const string & src, int filen, int n, const string & dir) {
                // The output restarted from is written again; where outputs are due at
                // every step the next one follows at once, and the numbers shift by one.
                const bool bynum = nout > 0 && filen == n && !(A[n].t > (n + 1) * tEnd / nout);
                copy_file(src, dir + "/in.h5");
                Map r = m;
                r["run.restart_enabled"] = "yes";
                r["run.restart_filename"] = "in.h5";
                vector<Out> B;
                if (!ran(run_main(dir, r)))
                  return B;
                mc::stat("transitions");
                B = outputs(dir);
                if (B.empty())
                {
                  mc::viol("restart-outputs", "restarted run writes no output");
                  return B;
                }
                uint64_t h = 0;
                for (auto & o : B)
                  for (auto & kv : o.h.data)
                    h = mc::hash_bytes(kv.second.data(), kv.second.size() * 8, h + 1);
                mc::state(h);
                // every later output of the original is reproduced
                for (auto & x : A)
                {
                  if (x.n < n)
                    continue;
                  const Out * y = nullptr;
                  for (auto & o : B)
                    if (bynum ? o.n == x.n : o.t == x.t || std::fabs(o.t - x.t) <= 1e-12 * x.t)
                      y = &o;
                  if (!y)
                  {
                    mc::viol("restart-outputs", mc::fmt("output %d (t=%.17g) of the original run is missing after a restart from output %d", x.n, x.t, n));
                    break;
                  }
                  if (std::fabs(y->t - x.t) > 1e-12 * x.t)
                  {
                    mc::viol("restart-time", mc::fmt("output %d: t=%.17g instead of %.17g after a restart from output %d", x.n, y->t, x.t, n));
                    break;
                  }
                  string w;
                  double e = diff(x.h, y->h, w, f, ghost, grids[g]);
                  mc::maxstat("restart_diff", e);
                  if (e > 1e-11)
                  {
                    mc::viol("restart-state", mc::fmt("output %d (t=%g) after a restart from output %d: %s", x.n, x.t, n, w.c_str()));
                    break;
                  }
                }
                // and nothing else happens
                for (auto & o : B)
                {
                  bool in = false;
                  for (auto & x : A)
                    in = in || std::fabs(o.t - x.t) <= 1e-12 * x.t;
                  if (!in)
                    mc::viol("restart-extra", mc::fmt("after a restart from output %d there is an output at t=%.17g that the original has not", n, o.t));
                }
                if (bynum && A.back().n > n && (int)B.size() != A.back().n - n + 1)
                  mc::viol("restart-count", mc::fmt("%d outputs after a restart from output %d of 0..%d", (int)B.size(), n, A.back().n));
                return B;
              };
              string b2 = scratch("c");
              for (auto & x : A)
              {
                mc::cur_desc = ctx + mc::fmt(", restart from %d", x.n);
                clean(b);
                mkdir(b.c_str(), 0755);
                auto B = restart(a + mc::fmt("/output_%07d.h5", x.n), x.n, x.n, b);
                // chains of two restarts
                for (auto & y : B)
                {
                  if (y.n <= x.n || (!mc::A.thorough && (y.n + x.n) % 2 == 0))
                    continue;
                  int orig = -1;
                  for (auto & o : A)
                    if (std::fabs(o.t - y.t) <= 1e-12 * y.t && (orig < 0 || o.n == y.n))
                      orig = o.n;
                  if (orig < 0)
                    continue;
                  mc::cur_desc = ctx + mc::fmt(", restart from %d then %d", x.n, y.n);
                  clean(b2);
                  mkdir(b2.c_str(), 0755);
                  restart(b + mc::fmt("/output_%07d.h5", y.n), y.n, orig, b2);
                }
              }
              mc::sample(ctx);
              clean(a);
              clean(b);
              clean(b2);
            }
    }
  // upscaling
  for (auto & f : FAMS)
    for (int s = 0; s < 4; s++)
      for (int ghost = 0; ghost < 2; ghost++)
        for (int bc = 1; bc <= 3; bc++)
        {
          if (f.mhd && !ghost)
            continue;
          const int n[4][3] = { { 4, 4, 4 }, { 3, 5, 4 }, { 6, 3, 5 }, { 5, 4, 3 } };
          if (!mc::item(mc::fmt("%s upscaling %dx%dx%d ghosts %d boundaries %d", f.solver, n[s][0], n[s][1], n[s][2], ghost, bc)))
            continue;
          string d = scratch("up");
          Map    m = base(f, n[s][0], n[s][1], n[s][2]);
          for (auto & kv : m)
            if (kv.first.find("boundary_type") != string::npos)
              kv.second = std::to_string(bc);
          m["hydro.problem"] = f.mhd && f.dim == 2 ? "orszag_tang" : "blast";
          if (f.mhd)
            m["hydro.problem"] = "orszag_tang";
          m["blast.radius"] = "0.3";
          m["run.tEnd"] = "1000";
          m["run.nStepmax"] = "2";
          m["run.nOutput"] = "-1";
          m["output.hdf5_enabled"] = "yes";
          m["output.vtk_enabled"] = "no";
          if (ghost)
            m["output.ghostIncluded"] = "yes";
          if (ran(run_main(d, m)))
          {
            auto A = outputs(d);
            for (auto & x : A)
            {
              string e = scratch("fine");
              copy_file(d + mc::fmt("/output_%07d.h5", x.n), e + "/in.h5");
              Map r = m;
              r["mesh.nx"] = std::to_string(2 * n[s][0]);
              r["mesh.ny"] = std::to_string(2 * n[s][1]);
              if (f.dim == 3)
                r["mesh.nz"] = std::to_string(2 * n[s][2]);
              r["run.restart_enabled"] = "yes";
              r["run.restart_upscale"] = "yes";
              r["run.restart_filename"] = "in.h5";
              r["run.nStepmax"] = "0";
              r["output.ghostIncluded"] = "no";
              // what is read has the ghosts of the file; what is written is the fine interior
              r["output.ghostIncluded"] = ghost ? "yes" : "no";
              if (ran(run_main(e, r)))
              {
                auto B = outputs(e);
                mc::stat("transitions");
                if (B.empty() || B[0].n != x.n || B[0].t != x.t)
                  mc::viol("upscale-output", "first output of the upscaled run has another number or time");
                else
                {
                  int g = ghost ? f.gw : 0;
                  int nc[3], nf[3];
                  for (int q = 0; q < 3; q++)
                  {
                    nc[q] = f.dim == 2 && q == 2 ? 1 : n[s][q] + 2 * g;
                    nf[q] = f.dim == 2 && q == 2 ? 1 : 2 * n[s][q] + 2 * g;
                  }
                  const int g3 = f.dim == 3 ? g : 0;
                  auto      vars = f.vars();
                  for (auto & v : vars)
                  {
                    auto & C = x.h.data[v];
                    auto & D = B[0].h.data[v];
                    if (D.size() != (size_t)nf[0] * nf[1] * nf[2])
                    {
                      mc::viol("upscale-size", "wrong size of " + v);
                      continue;
                    }
                    auto c = [&](int i, int j, int k) { return C[(i + g) + (size_t)nc[0] * ((j + g) + (size_t)nc[1] * (k + g3))]; };
                    int  ax = v == "bx" ? 0 : v == "by" ? 1 : v == "bz" && f.dim == 3 ? 2 : -1;
                    for (int k = 0; k < (f.dim == 3 ? 2 * n[s][2] : 1); k++)
                      for (int j = 0; j < 2 * n[s][1]; j++)
                        for (int i = 0; i < 2 * n[s][0]; i++)
                        {
                          int    I = i / 2, J = j / 2, K = k / 2;
                          int    odd = ax == 0 ? i & 1 : ax == 1 ? j & 1 : ax == 2 ? k & 1 : 0;
                          double w = c(I, J, K);
                          if (odd)
                            w = (w + c(I + (ax == 0), J + (ax == 1), K + (ax == 2))) / 2;
                          double got = D[(i + g) + (size_t)nf[0] * ((j + g) + (size_t)nf[1] * (k + g3))];
                          if (!same(w, got) && std::fabs(w - got) > 1e-15 * std::fabs(w))
                            mc::viol("upscale:" + v, mc::fmt("fine cell (%d,%d,%d): %.17g instead of %.17g", i, j, k, got, w));
                          mc::stat("values");
                        }
                  }
                }
              }
              clean(e);
            }
          }
          clean(d);
        }
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  Kokkos::initialize(argc, argv);
  string mode = mc::A.get("mode");
  if (mode == "restart")
    mode_restart();
  else if (mode == "hdf5")
    mode_hdf5();
  else
    mode_vtk();
  return mc::done();
}
