// further enumerations of dist.cpp

// ---- built-in problems: initial state, problem-specific borders, steps
enum
{
  F_H2 = 1,
  F_H3 = 2,
  F_M2 = 4,
  F_M3 = 8,
  F_S2 = 16,
  F_S3 = 32
};
struct Prob
{
  const char * name;
  int          fam;
  const char * extra;
};
static const Prob PROBS[] = {
  { "implode", 63, "" },
  { "implode", 63, "[implode]\nshape_region=1\nvx_outer=0.25\nvy_outer=-0.5\nvz_outer=0.125\nBx_outer=0.5\nBy_inner=-0.25\nBz_outer=0.125\n" },
  { "blast", 63, "" },
  { "blast", 63, "[blast]\nradius=0.3\ncenter_x=0.21\ncenter_y=-0.13\ncenter_z=0.17\n" },
  { "kelvin_helmholtz", 63, "[KH]\nperturbation_sine=yes\nperturbation_rand=no\nperturbation_sine_robertson=no\n" },
  { "kelvin_helmholtz", 63, "[KH]\nperturbation_sine=no\nperturbation_rand=no\nperturbation_sine_robertson=yes\nmode=1\n" },
  { "gresho_vortex", F_H2 | F_H3 | F_S2 | F_S3, "" },
  { "four_quadrant", F_H2 | F_S2, "[riemann2d]\nconfig_number=3\nx=0.13\ny=0.21\n" },
  { "four_quadrant", F_H2 | F_S2, "[riemann2d]\nconfig_number=12\nx=0.33\ny=-0.11\n" },
  { "isentropic_vortex", F_H2 | F_S2, "[isentropic_vortex]\nstrength=1.5\n" },
  { "rayleigh_taylor", F_H2 | F_H3, "[rayleigh_taylor]\namplitude=0.125\ngx=0.0625\ngy=-0.125\ngz=0.25\n" },
  { "rayleigh_taylor", F_H2 | F_H3, "[gravity]\nstatic=yes\n[rayleigh_taylor]\namplitude=0.125\ngx=0.0625\ngy=-0.125\ngz=0.25\n" },
  { "rising_bubble", F_H2 | F_H3, "[gravity]\nstatic=yes\n[rising_bubble]\nR=0.3\ngx=0.0625\ngy=-0.125\ngz=0.25\n" },
  { "disk", F_H2 | F_H3, "[gravity]\nstatic=yes\n[disk]\nradius=0.3\nxc=0.0137\nyc=-0.0219\nzc=0.0173\n" },
  { "disk", F_H2 | F_H3, "[gravity]\npoint=yes\n[disk]\nradius=0.3\nxc=0.0137\nyc=-0.0219\nzc=0.0173\n" },
  { "orszag_tang", F_M2 | F_M3, "[OrszagTang]\nkt=1\n" },
  { "field_loop", F_M2 | F_M3, "[FieldLoop]\nradius=0.3\namp=0\n" },
  { "rotor", F_M2 | F_M3, "[rotor]\nr0=0.2\nr1=0.35\n" },
  { "wave", F_M3, "[wave]\ntype=1\n" },
  { "wave", F_M3, "[wave]\ntype=3\n" },
  { "sod", F_S2 | F_S3, "" },
  { "shu_osher", F_S2 | F_S3, "" },
  { "wedge", F_S2, "[wedge]\nfront_x=-0.21\nshock_speed=3\n" },
  { "wedge", F_S2, "[wedge]\nfront_x=-0.41\nfront_angle=1.25\nrho1=2\np1=4\nu1=1.5\nv1=-0.25\nw1=0\n" },
  { "jet", F_S2 | F_S3, "[jet]\nu_jet=3\npos_jet=0.07\nwidth_jet=0.5\n" },
  { "jet", F_S2 | F_S3, "[jet]\nu_jet=3\nv_jet=0.5\nrho_jet=2\np_jet=1\npos_jet=-0.21\nwidth_jet=0.61\nu_bulk=0.25\nrho_bulk=1\np_bulk=1\n" },
};

static void
mode_prob(bool sdm)
{
  bool T = mc::A.thorough;
  for (auto & P : PROBS)
    for (int dim = 2; dim <= 3; dim++)
      for (int mhd = 0; mhd <= (sdm ? 0 : 1); mhd++)
      {
        int f = sdm ? F_S2 : mhd ? F_M2 : F_H2;
        if (!(P.fam & (dim == 3 ? f << 1 : f)))
          continue;
        for (auto & g : grids(dim, T ? 8 : dim == 2 ? 6 : 4))
        {
          if (!T && dim == 3 && g[0] * g[1] * g[2] == 3)
            continue;
          if (!mc::item(mc::fmt("%s %dD problem %s (%s) grid %dx%dx%d", sdm ? "sdm" : mhd ? "mhd" : "hydro", dim, P.name, P.extra, g[0], g[1], g[2])))
            continue;
          int gw = sdm ? 1 : mhd ? 3 : 2;
          for (int b = 0; b < 4; b++)
          {
            std::array<int, 3> l;
            for (int d = 0; d < 3; d++)
            {
              int want = (sdm ? dim == 3 ? 4 : 6 : dim == 3 ? 7 : 9) + (d + b) % 3;
              l[d] = std::max(gw, (want + g[d] - 1) / g[d]);
            }
            Case k = base_case(sdm, mhd, dim, g, l);
            for (int d = 0; d < 3; d++)
            {
              k.c.xmin[d] = -0.4375 - 0.03125 * ((d + b) % 3);
              k.c.L[d] = 0.8125 + 0.09375 * ((d * 2 + b) % 4);
            }
            // all periodic, all reflecting, all outflow, mixed
            for (int e = 0; e < 6; e++)
              k.c.bc[e] = b == 0 ? 3 : b == 1 ? 1 : b == 2 ? 2 : e / 2 == 0 ? 3 : 1 + e % 2;
            k.c.problem = P.name;
            k.c.extra = P.extra;
            k.steps = 2;
            unsigned h = fv::mix(b + 17 * g[0] + 131 * g[1] + 1031 * g[2]);
            if (sdm)
            {
              k.c.N = dim == 2 ? 2 + (int)(h % 2) : 2;
              k.c.integ = b;
              k.c.limiter = k.c.posit = b & 1;
              k.c.cfl = 0.25;
            }
            else
            {
              k.c.impl = mhd ? h % 3 : h % 2;
              k.c.riemann = mhd ? "hlld" : "hllc";
            }
            check(k, mc::fmt("problem:%s:%s%d", P.name, sdm ? "sdm" : mhd ? "mhd" : "hydro", dim));
          }
        }
      }
}

// ---- topology, neighbours, ownership
struct TopoRec
{
  int    ok, cart, size, pos[3], nb[6], bc[6], nx, ny, nz, e[3], mn[3], mx[3], m[3], gw;
  double lo[3], hi[3], d[3];
};

static void
topo(int dim, const int * g, const int * l, const int * bc, const vector<int> & perm, const string & tag)
{
  Case k = base_case(false, false, dim, { g[0], g[1], g[2] }, { l[0], l[1], l[2] });
  for (int e = 0; e < 6; e++)
    k.c.bc[e] = bc[e];
  Case                 L = k.local();
  int                  np = k.np();
  mpx::Shared<TopoRec> rec(np);
  string               t = L.c.ini();
  World                w(np);
  w.perm = perm;
  auto   o = w.run([&](int rank) {
    MPI_Init(nullptr, nullptr);
    string      text = t;
    char *      b = &text[0];
    ConfigMap   cm(b, (int)text.size());
    ppkMHD::HydroParams p;
    p.setup(cm);
    TopoRec & r = rec[rank];
    MPI_Comm_rank(p.communicator->getComm(), &r.cart);
    MPI_Comm_size(p.communicator->getComm(), &r.size);
    for (int d = 0; d < 3; d++)
      r.pos[d] = d < dim ? p.myMpiPos[d] : 0;
    for (int e = 0; e < 2 * dim; e++)
      r.nb[e] = p.neighborsRank[e], r.bc[e] = p.neighborsBC[e];
    r.gw = p.ghostWidth;
    r.nx = p.nx, r.ny = p.ny, r.nz = p.nz;
    r.m[0] = p.mx, r.m[1] = p.my, r.m[2] = p.mz;
    int ee[3] = { p.isize, p.jsize, p.ksize }, a[3] = { p.imin, p.jmin, p.kmin }, z[3] = { p.imax, p.jmax, p.kmax };
    double lo[3] = { p.xmin, p.ymin, p.zmin }, hi[3] = { p.xmax, p.ymax, p.zmax }, dd[3] = { p.dx, p.dy, p.dz };
    for (int d = 0; d < 3; d++)
      r.e[d] = ee[d], r.mn[d] = a[d], r.mx[d] = z[d], r.lo[d] = lo[d], r.hi[d] = hi[d], r.d[d] = dd[d];
    r.ok = 1;
    MPI_Finalize();
    return 0;
  });
  auto bad = [&](const string & what, const string & msg) {
    mc::viol(tag + ":" + what, mc::fmt("%dD grid %dx%dx%d, boundaries %d%d%d%d%d%d: ", dim, g[0], g[1], dim == 3 ? g[2] : 1, bc[0], bc[1], bc[2], bc[3], bc[4], bc[5]) + msg);
  };
  if (!o.error.empty())
  {
    bad(o.kind, o.error);
    return;
  }
  mc::state(mc::hash_bytes(rec.p, sizeof(TopoRec) * np));
  // bijection between Cartesian ranks and coordinates
  vector<int> by_cart(np, -1), by_pos(np, -1);
  for (int r = 0; r < np; r++)
  {
    auto & q = rec[r];
    if (q.size != np || q.cart < 0 || q.cart >= np || by_cart[q.cart] >= 0)
      return bad("rank", mc::fmt("process %d has rank %d of %d", r, q.cart, q.size));
    by_cart[q.cart] = r;
    int id = 0;
    for (int d = dim - 1; d >= 0; d--)
    {
      if (q.pos[d] < 0 || q.pos[d] >= g[d])
        return bad("coordinates", mc::fmt("process %d has coordinate %d along axis %d", r, q.pos[d], d));
      id = id * g[d] + q.pos[d];
    }
    if (by_pos[id] >= 0)
      return bad("coordinates", mc::fmt("processes %d and %d have the same coordinates (%d,%d,%d)", r, by_pos[id], q.pos[0], q.pos[1], q.pos[2]));
    by_pos[id] = r;
  }
  for (int r = 0; r < np; r++)
  {
    auto & q = rec[r];
    for (int d = 0; d < dim; d++)
    {
      // extent of this process: the sub-domains tile the domain
      double w_ = (double)(float)(k.c.xmin[d] + k.c.L[d]) - (double)(float)k.c.xmin[d];
      double dx = w_ / (g[d] * l[d]);
      int    n = d == 0 ? q.nx : d == 1 ? q.ny : q.nz;
      if (n != l[d] || q.m[d] != g[d] || q.e[d] != l[d] + 2 * q.gw || q.mn[d] != 0 || q.mx[d] != l[d] + 2 * q.gw - 1)
        return bad("extent", mc::fmt("process %d: %d cells along axis %d (array of %d, indices %d to %d), expected %d", r, n, d, q.e[d], q.mn[d], q.mx[d], l[d]));
      if (std::fabs(q.d[d] - dx) > 1e-14 * dx || q.lo[d] != (double)(float)k.c.xmin[d] || q.hi[d] != (double)(float)(k.c.xmin[d] + k.c.L[d]))
        return bad("spacing", mc::fmt("process %d: axis %d from %.17g to %.17g spacing %.17g, expected spacing %.17g", r, d, q.lo[d], q.hi[d], q.d[d], dx));
      for (int s = 0; s < 2; s++)
      {
        int  f = 2 * d + s;
        bool border = q.pos[d] == (s ? g[d] - 1 : 0);
        bool comm = q.bc[f] == ppkMHD::BC_COPY || q.bc[f] == ppkMHD::BC_PERIODIC;
        if (!border && !comm)
          return bad("inner-side", mc::fmt("process %d at (%d,%d,%d): side %d faces another process but has physical boundary type %d", r, q.pos[0], q.pos[1], q.pos[2], f, q.bc[f]));
        if (border && (bc[f] == ppkMHD::BC_PERIODIC ? !comm : q.bc[f] != bc[f]))
          return bad("outer-side", mc::fmt("process %d at (%d,%d,%d): side %d is on the border of the domain (type %d) but has type %d", r, q.pos[0], q.pos[1], q.pos[2], f, bc[f], q.bc[f]));
        if (!comm)
          continue;
        mc::stats["neighbour_pairs"]++;
        if (q.nb[f] < 0 || q.nb[f] >= np)
          return bad("neighbour", mc::fmt("process %d at (%d,%d,%d): neighbour %d on side %d", r, q.pos[0], q.pos[1], q.pos[2], q.nb[f], f));
        auto & z = rec[by_cart[q.nb[f]]];
        for (int c = 0; c < dim; c++)
        {
          int want = c == d ? (q.pos[c] + (s ? 1 : -1) + g[c]) % g[c] : q.pos[c];
          if (z.pos[c] != want)
            return bad("neighbour", mc::fmt("process %d at (%d,%d,%d): the neighbour on side %d is at (%d,%d,%d)", r, q.pos[0], q.pos[1], q.pos[2], f, z.pos[0], z.pos[1], z.pos[2]));
        }
        if (z.nb[f ^ 1] != q.cart)
          return bad("symmetry", mc::fmt("process %d: neighbour on side %d is rank %d, whose neighbour on the opposite side is rank %d, not %d", r, f, q.nb[f], z.nb[f ^ 1], q.cart));
      }
    }
  }
  mc::stat("topologies");
}

static void
mode_topo()
{
  bool T = mc::A.thorough;
  for (int dim = 2; dim <= 3; dim++)
  {
    int M = dim == 2 ? T ? 7 : 5 : T ? 4 : 3;
    for (int a = 1; a <= M; a++)
      for (int b = 1; b <= M; b++)
        for (int c = 1; c <= (dim == 3 ? M : 1); c++)
        {
          int g[3] = { a, b, c }, np = a * b * c;
          for (int x = 0; x < 5; x++)
          {
            if (!mc::item(mc::fmt("topology %dD %dx%dx%d x-boundaries %d", dim, a, b, c, x)))
              continue;
            for (int y = 0; y < 5; y++)
              for (int z = 0; z < (dim == 3 ? 5 : 1); z++)
              {
                if (T && np > 27 && (x + 2 * y + z) % 5)
                  continue;
                int l[3] = { 2 + (a + x) % 3, 2 + (b + y) % 3, 2 + (c + z) % 3 };
                int ax[3] = { x, y, z }, bc[6];
                for (int d = 0; d < 3; d++)
                  bc[2 * d] = AX[ax[d]][0], bc[2 * d + 1] = AX[ax[d]][1];
                topo(dim, g, l, bc, {}, "topology");
              }
            // the library may number the processes of the grid as it likes
            int  bc[6], l[3] = { 2, 3, 2 };
            for (int d = 0; d < 3; d++)
              bc[2 * d] = AX[(x + d) % 5][0], bc[2 * d + 1] = AX[(x + d) % 5][1];
            auto P = perms(np, T ? 5 : 4);
            for (size_t i = 0; i < P.size(); i++)
              if (np <= 4 || (x == 0 && (i < 4 || T)))
                topo(dim, g, l, bc, P[i], "renumbered");
          }
        }
  }
}

// ---- schedules
static void
mode_sched()
{
  bool T = mc::A.thorough;
  for (int fam = 0; fam < 3; fam++) // hydro, MHD, spectral difference
    for (int dim = 2; dim <= 3; dim++)
      for (auto & g : grids(dim, 8))
      {
        if (g[0] > 3 || g[1] > 3 || g[2] > 3)
          continue;
        for (int b = 0; b < (T ? 5 : 3); b++)
        {
          if (!mc::item(mc::fmt("schedules %s %dD grid %dx%dx%d boundaries %d", fam == 0 ? "hydro" : fam == 1 ? "mhd" : "sdm", dim, g[0], g[1], g[2], b)))
            continue;
          int  gw = fam == 0 ? 2 : fam == 1 ? 3 : 1;
          Case k = base_case(fam == 2, fam == 1, dim, g, { gw, gw, gw });
          for (int d = 0; d < 3; d++)
            for (int e = 0; e < 2; e++)
              k.c.bc[2 * d + e] = b < 2 ? AX[b][e] : AX[(b + d) % 5][e];
          k.field = true;
          k.seed = 11 * b + 3;
          k.amp = 0.3;
          k.steps = 1;
          if (fam == 2)
            k.c.integ = b % 4, k.c.problem = "implode";
          if (fam == 1)
            k.c.impl = b % 3;
          Dist        D(k);
          mpx::Bounds B;
          int         np = k.np();
          B.buffering = np <= (T ? 6 : 4);
          B.cap = T ? 12000000 : 3000000;
          B.deviations = T ? (np <= 2 ? 2 : 1) : np <= 3 ? 1 : 0;
          mpx::explore("schedule", k.desc(), np, {}, D.body(), [&] { return mc::hash_bytes(D.out->p, D.out->n * 8); }, B);
        }
      }
}
