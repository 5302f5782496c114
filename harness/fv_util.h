// shared by the finite-volume harnesses: configurations, shapes, symmetry generators
#ifndef FV_UTIL_H_
#define FV_UTIL_H_
#include "fv.h"
using namespace fv;

static std::vector<int>
shape(int a, int b, int c)
{
  return { a, b, c };
}

static Cfg
base(bool mhd, int dim, const std::vector<int> & n, bool aniso = true)
{
  Cfg c;
  c.mhd = mhd;
  c.dim = dim;
  for (int d = 0; d < 3; d++)
    c.n[d] = n[d];
  if (dim == 2)
    c.n[2] = 1;
  if (aniso)
  {
    c.L[0] = 0.25 * c.n[0];
    c.L[1] = 0.1875 * c.n[1];
    c.L[2] = 0.3125 * c.n[2];
  }
  return c;
}

static std::vector<std::vector<int>>
shapes(bool mhd, int dim)
{
  if (dim == 2)
  {
    if (mhd)
      return { shape(3, 3, 1), shape(5, 3, 1), shape(3, 6, 1), shape(4, 4, 1) };
    return { shape(2, 2, 1), shape(5, 3, 1), shape(2, 7, 1), shape(4, 4, 1) };
  }
  if (mhd)
    return { shape(3, 3, 3), shape(4, 3, 5), shape(3, 5, 4) };
  return { shape(2, 2, 2), shape(4, 3, 2), shape(2, 3, 5), shape(3, 5, 3) };
}

static std::vector<double>
slopes()
{
  return { 0, 1, 2 };
}

struct Opt
{
  Cfg c;
};

//! all scheme options for a dimension/solver
template <class F>
static void
for_options(bool mhd, int dim, F f)
{
  for (auto & r : riemanns(mhd))
    for (double s : slopes())
      for (int im = 0; im < (mhd ? 3 : 2); im++)
        f(r, s, im);
}

static Field
make_field(const Cfg & c, unsigned s, double amp = 1.0)
{
  Field f = pattern(c, s, amp);
  if (c.mhd)
    make_divfree(c, f, s);
  return f;
}

static void
totals(const Cfg & c, const Field & f, long double * t, long double * a)
{
  for (int v = 0; v < f.nv; v++)
  {
    t[v] = a[v] = 0;
    size_t m = f.d.size() / f.nv;
    for (size_t q = 0; q < m; q++)
    {
      t[v] += f.d[v * m + q];
      a[v] += fabsl((long double)f.d[v * m + q]);
    }
  }
}

static const char * VN[] = { "mass", "energy", "mom_x", "mom_y", "mom_z", "B_x", "B_y", "B_z" };

// ---------------------------------------------------------------- symmetries
struct Sym
{
  int  mir = -1;           // axis mirrored
  int  s1 = -1, s2 = -1;   // axes swapped
  int  sh[3] = { 0, 0, 0 }; // cyclic shift
  bool flipB = false;
  std::string name;
};

static Cfg
apply(const Sym & g, Cfg c)
{
  if (g.s1 >= 0)
  {
    std::swap(c.n[g.s1], c.n[g.s2]);
    std::swap(c.L[g.s1], c.L[g.s2]);
    std::swap(c.g[g.s1], c.g[g.s2]);
    for (int e = 0; e < 2; e++)
      std::swap(c.bc[2 * g.s1 + e], c.bc[2 * g.s2 + e]);
  }
  if (g.mir >= 0)
  {
    std::swap(c.bc[2 * g.mir], c.bc[2 * g.mir + 1]);
    c.g[g.mir] = -c.g[g.mir];
  }
  return c;
}

//! transformed field; face-centred magnetic components are moved with their faces
static Field
apply(const Sym & g, const Cfg & c, const Cfg & c2, const Field & f)
{
  Field r(c2);
  bool  periodicB = true;
  (void)periodicB;
  for (int v = 0; v < f.nv; v++)
    for (int k = 0; k < f.n[2]; k++)
      for (int j = 0; j < f.n[1]; j++)
        for (int i = 0; i < f.n[0]; i++)
        {
          int    x[3] = { i, j, k };
          int    w = v;
          double s = 1;
          for (int d = 0; d < 3; d++)
            x[d] = (x[d] + g.sh[d]) % f.n[d];
          if (g.mir >= 0)
          {
            int d = g.mir;
            if (v == 2 + d)
              s = -1;
            bool face = v == 5 + d && (d < 2 || c.dim == 3);
            x[d] = face ? (f.n[d] - x[d]) % f.n[d] : f.n[d] - 1 - x[d];
            if (v >= 5) // axial vector
              s = (v == 5 + d) ? 1 : -1;
          }
          if (g.s1 >= 0)
          {
            std::swap(x[g.s1], x[g.s2]);
            if (v == 2 + g.s1)
              w = 2 + g.s2;
            else if (v == 2 + g.s2)
              w = 2 + g.s1;
            if (v >= 5)
            {
              if (v == 5 + g.s1)
                w = 5 + g.s2;
              else if (v == 5 + g.s2)
                w = 5 + g.s1;
              s = -1; // a swap is a reflection: axial vector changes sign
            }
          }
          if (g.flipB && v >= 5)
            s = -s;
          r(x[0], x[1], x[2], w) = s * f(i, j, k, v);
        }
  return r;
}

static std::vector<Sym>
generators(bool mhd, int dim, bool periodic)
{
  std::vector<Sym> v;
  for (int d = 0; d < dim; d++)
  {
    Sym g;
    g.mir = d;
    g.name = mc::fmt("mirror-%c", "xyz"[d]);
    v.push_back(g);
  }
  for (int a = 0; a < dim; a++)
    for (int b = a + 1; b < dim; b++)
    {
      Sym g;
      g.s1 = a, g.s2 = b;
      g.name = mc::fmt("swap-%c%c", "xyz"[a], "xyz"[b]);
      v.push_back(g);
    }
  if (periodic)
    for (int d = 0; d < dim; d++)
    {
      Sym g;
      g.sh[d] = 1;
      g.name = mc::fmt("shift-%c", "xyz"[d]);
      v.push_back(g);
    }
  if (mhd)
  {
    Sym g;
    g.flipB = true;
    g.name = "B->-B";
    v.push_back(g);
  }
  return v;
}

#endif
