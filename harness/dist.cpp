// Distributed runs of the real solvers under the controlled scheduler, compared
// with the single-process build.
#include "mpirt.h"
#include "dist.h"
#include "dist_ref.h"
#include "explore.h"
using namespace ds;
using mpx::World;

static Ref ref;

struct Dist
{
  Case                                 G, L;
  int                                  np, eb[3];
  size_t                               B;
  std::unique_ptr<mpx::Shared<double>> out;
  std::unique_ptr<mpx::Shared<int>>    pos; // per rank: coordinates, extents
  Dist(const Case & g)
    : G(g)
    , L(g.local())
    , np(g.np())
  {
    for (int d = 0; d < 3; d++)
      eb[d] = d < G.c.dim ? L.c.n[d] + 2 * G.gw() : 1;
    B = (size_t)eb[0] * eb[1] * eb[2] * G.nd() + 2;
    out.reset(new mpx::Shared<double>(B * stages(G) * np));
    pos.reset(new mpx::Shared<int>(16 * np));
  }
  double at(int rank, int s, int i, int j, int l, int v) const { return out->p[(rank * stages(G) + s) * B + 2 + (((size_t)v * eb[2] + l) * eb[1] + j) * eb[0] + i]; }
  double head(int rank, int s, int w) const { return out->p[(rank * stages(G) + s) * B + w]; }
  std::function<int(int)> body()
  {
    auto f = std::make_shared<vector<double>>();
    if (G.field)
      *f = global_field(G);
    return [this, f](int rank) {
      MPI_Init(nullptr, nullptr);
      Run  r(L);
      auto C = r.params().communicator->getComm();
      int  me, x[3] = { 0, 0, 0 };
      MPI_Comm_rank(C, &me);
      MPI_Cart_coords(C, me, 3, x);
      int * p = pos->p + 16 * rank;
      int   off[3];
      for (int d = 0; d < 3; d++)
      {
        off[d] = x[d] * L.c.n[d];
        p[d] = x[d];
        p[3 + d] = r.e[d];
      }
      p[6] = 1;
      if (r.e[0] == eb[0] && r.e[1] == eb[1] && r.e[2] == eb[2])
        history(r, G, *f, off, out->p + rank * stages(G) * B);
      MPI_Finalize();
      return 0;
    };
  }
};

static const char * stage_name[] = { "after construction", "after the exchange of ghost cells", "after step" };

//! every value of the distributed run against the single-process run
static bool
compare(Dist & D, const string & tag)
{
  const Case & G = D.G;
  int          S = stages(G), w = G.gw(), wz = G.c.dim == 3 ? w : 0, nvar = G.sdm ? G.c.dim + 2 : G.c.nv(), np = G.nd() / nvar;
  // scale of each variable in each stage
  for (int s = 0; s < S; s++)
  {
    bool           last = s == S - 1, ghosts = s <= 1 || last;
    string         when = s == 0 ? stage_name[0] : s == 1 ? stage_name[1] : last ? "after the final exchange of ghost cells" : mc::fmt("after step %d", s - 1);
    vector<double> sc(nvar, 1e-30);
    for (int d = 0; d < G.nd(); d++)
      for (int l = wz; l < ref.e[2] - wz; l++)
        for (int j = w; j < ref.e[1] - w; j++)
          for (int i = w; i < ref.e[0] - w; i++)
          {
            double x = std::fabs(ref.at(s, i, j, l, d));
            if (x < 1e300)
              sc[d / np] = std::fmax(sc[d / np], x);
          }
    double smax = 0;
    for (double x : sc)
      smax = std::fmax(smax, x);
    for (double & x : sc)
      x = std::fmax(x, 1e-3 * smax);
    for (int r = 0; r < D.np; r++)
    {
      const int * p = D.pos->p + 16 * r;
      if (!p[6] || p[3] != D.eb[0] || p[4] != D.eb[1] || p[5] != D.eb[2])
      {
        mc::viol(tag + ":extent", mc::fmt("%s: process %d has arrays of %dx%dx%d cells, expected %dx%dx%d", G.desc().c_str(), r, p[3], p[4], p[5], D.eb[0], D.eb[1], D.eb[2]));
        return false;
      }
      for (int q = 0; q < 2; q++)
      {
        double a = D.head(r, s, q), b = ref.stage(s)[q];
        bool   same = std::fabs(a - b) <= 1e-11 * std::fabs(b) || a == b || (a != a && b != b);
        if (!same && !(q == 1 && s == 0 && G.field))
        {
          mc::viol(tag + (q ? ":dt" : ":time"), mc::fmt("%s: %s: process %d has %s %.17g, the single-process run %.17g", G.desc().c_str(), when.c_str(), r, q ? "dt" : "t", a, b));
          return false;
        }
      }
      int o[3];
      for (int d = 0; d < 3; d++)
        o[d] = p[d] * D.L.c.n[d];
      if (G.c.dim == 2)
        o[2] = 0;
      for (int d = 0; d < G.nd(); d++)
        for (int l = 0; l < D.eb[2]; l++)
          for (int j = 0; j < D.eb[1]; j++)
            for (int i = 0; i < D.eb[0]; i++)
            {
              bool in = i >= w && i < D.eb[0] - w && j >= w && j < D.eb[1] - w && l >= wz && l < D.eb[2] - wz;
              if (!in && !ghosts)
                continue;
              double a = D.at(r, s, i, j, l, d), b = ref.at(s, i + o[0], j + o[1], l + o[2], d);
              mc::stats["values_compared"]++;
              if (a == b || (a != a && b != b))
                continue;
              double e = std::fabs(a - b) / sc[d / np];
              if (e <= 1e-11)
              {
                mc::maxstat("max_rel_difference", e);
                continue;
              }
              mc::viol(tag + (in ? ":cell" : ":ghost"), mc::fmt("%s: %s: process %d at (%d,%d,%d) of the grid, %s cell (%d,%d,%d) value %d is %.17g, the single-process run has %.17g there",
                                                               G.desc().c_str(), when.c_str(), r, p[0], p[1], p[2], in ? "interior" : "ghost", i, j, l, d, a, b));
              return false;
            }
    }
  }
  return true;
}

static void
check(const Case & G, const string & tag, const vector<int> & perm = {})
{
  if (!ref.ask(G))
  {
    mc::stat("reference_ends_abnormally");
    return;
  }
  bool fin = true;
  for (double x : ref.d)
    fin = fin && std::isfinite(x);
  mc::stat(fin ? "histories_finite" : "histories_not_finite");
  Dist  D(G);
  World w(D.np);
  w.perm = perm;
  auto o = w.run(D.body());
  if (!o.error.empty())
  {
    mc::viol(tag + ":" + o.kind, G.desc() + ": " + o.error);
    return;
  }
  mc::state(mc::hash_bytes(D.out->p, D.out->n * 8));
  if (compare(D, tag))
    mc::stat("histories_equal");
}

// ------------------------------------------------------------ enumerations
static vector<std::array<int, 3>>
grids(int dim, int maxp)
{
  vector<std::array<int, 3>> g;
  for (int n = 1; n <= maxp; n++)
    for (int x = 1; x <= n; x++)
      if (n % x == 0)
        for (int y = 1; y <= n / x; y++)
          if (n / x % y == 0)
          {
            int z = n / x / y;
            if (dim == 3 || z == 1)
              g.push_back({ x, y, z });
          }
  return g;
}
//! pairs of boundary types along one axis
static const int AX[5][2] = { { 3, 3 }, { 1, 1 }, { 2, 2 }, { 1, 2 }, { 2, 1 } };

static Case
base_case(bool sdm, bool mhd, int dim, const std::array<int, 3> & g, const std::array<int, 3> & l)
{
  Case k;
  k.sdm = sdm;
  k.c.mhd = mhd;
  k.c.dim = dim;
  for (int d = 0; d < 3; d++)
  {
    k.c.mpi[d] = d < dim ? g[d] : 1;
    k.c.n[d] = d < dim ? g[d] * l[d] : 1;
    k.c.xmin[d] = 0.5 * d - 0.25;
  }
  k.c.L[0] = 0.25 * k.c.n[0];
  k.c.L[1] = 0.1875 * k.c.n[1];
  k.c.L[2] = 0.3125 * k.c.n[2];
  return k;
}

//! all permutations of n processes for small n, a few for larger ones
static vector<vector<int>>
perms(int n, int maxall)
{
  vector<int> id(n);
  for (int i = 0; i < n; i++)
    id[i] = i;
  vector<vector<int>> r;
  if (n <= maxall)
  {
    do
      r.push_back(id);
    while (std::next_permutation(id.begin(), id.end()));
    return r;
  }
  r.push_back(id);
  vector<int> rev(id.rbegin(), id.rend());
  r.push_back(rev);
  for (int s = 1; s < n; s++)
  {
    vector<int> p(n);
    for (int i = 0; i < n; i++)
      p[i] = (i + s) % n;
    r.push_back(p);
  }
  return r;
}

// ---- numerical equality, finite volume
static void
mode_num(bool sdm)
{
  bool T = mc::A.thorough;
  long count = 0;
  for (int dim = 2; dim <= 3; dim++)
    for (int mhd = 0; mhd <= (sdm ? 0 : 1); mhd++)
      for (auto & g : grids(dim, 8))
        for (int lv = 0; lv < (T ? 3 : 2); lv++)
        {
          int gw = sdm ? 1 : mhd ? 3 : 2;
          // local sizes: the smallest allowed, and others that differ per axis
          std::array<int, 3> l = lv == 0 ? std::array<int, 3>{ gw, gw, gw } : lv == 1 ? std::array<int, 3>{ gw + 1, gw, gw + (sdm ? 2 : 1) } : std::array<int, 3>{ gw, gw + 2, gw };
          if (!T && dim == 3 && lv == 1 && g[0] * g[1] * g[2] > 4)
            continue;
          if (!mc::item(mc::fmt("%s %dD grid %dx%dx%d local %dx%dx%d", sdm ? "sdm" : mhd ? "mhd" : "hydro", dim, g[0], g[1], g[2], l[0], l[1], dim == 3 ? l[2] : 1)))
            continue;
          int nb = dim == 3 ? 125 : 25, b0 = g[0] * 3 + g[1] * 5 + g[2] + lv;
          for (int b = 0; b < nb; b++)
          {
            int ax[3] = { b % 5, b / 5 % 5, b / 25 };
            // quick: in 3D, every pair of types on each two axes (orthogonal array), in 2D all
            if (!T && dim == 3 && (ax[0] + 2 * ax[1] + ax[2] + b0) % 5)
              continue;
            Case k = base_case(sdm, mhd, dim, g, l);
            for (int d = 0; d < dim; d++)
              for (int e = 0; e < 2; e++)
                k.c.bc[2 * d + e] = AX[ax[d]][e];
            unsigned h = fv::mix(b + 31 * lv + 1009 * (g[0] + 8 * g[1] + 64 * g[2]));
            k.field = true;
            k.seed = h % 97;
            k.amp = 0.5;
            k.steps = 2;
            if (sdm)
            {
              k.amp = 0.35;
              k.c.integ = h / 7 % 4;
              vector<int> Ns = dim == 2 ? vector<int>{ 2, 3 } : vector<int>{ 2 };
              k.c.N = Ns[h / 3 % Ns.size()];
              int o = h / 11 % 4;
              k.c.limiter = o & 1;
              k.c.posit = o & 2;
              if (h / 13 % 3 == 0 && std::min(l[0], std::min(l[1], dim == 3 ? l[2] : l[1])) >= 2)
                k.c.mu = 0.03125;
              k.c.problem = "implode";
            }
            else
            {
              k.c.impl = mhd ? h / 7 % 3 : h / 7 % (dim == 3 ? 2 : 2);
              k.c.slope = h / 5 % 3;
              k.c.riemann = fv::riemanns(mhd)[h / 3 % (mhd ? 3 : 4)];
              if (!mhd && h / 11 % 3 == 0)
                k.c.set_gravity(0.5, -0.25, dim == 3 ? 0.125 : 0);
            }
            check(k, sdm ? "sdm" : mhd ? "mhd" : "hydro");
            count++;
            if (b % 25 == 7 && k.np() > 1)
              for (auto & p : perms(k.np(), 2))
                check(k, "reordered", p);
          }
        }
  mc::sample(mc::fmt("%ld histories in the last shard", count));
}

#include "dist_modes.h"

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  mc::hang_s = 600;
  ref.exe = getenv("DIST_REF") ? getenv("DIST_REF") : mc::A.get("ref");
  string m = mc::A.get("mode");
  if (m == "num")
    mode_num(false);
  else if (m == "sdm")
    mode_num(true);
  else if (m == "prob")
    mode_prob(false);
  else if (m == "sdmprob")
    mode_prob(true);
  else if (m == "topo")
    mode_topo();
  else if (m == "sched")
    mode_sched();
  if (ref.pid > 0)
    kill(ref.pid, SIGKILL);
  return mc::done();
}
