// P18, distributed part: the parameter file read by one process reaches all of
// them, whatever its length and however many they are, and means the same to each.
#include "explore.h"
#include "mainrun.h"
using namespace mr;
#include "params_spec.h"

//! a file of exactly len bytes, and the value of every key it sets
static string
make_text(size_t len, int style, std::map<string, string> & v)
{
  string t = "[s]\n";
  v.clear();
  if (t.size() > len)
    return string(len, '#');
  for (int k = 0; t.size() < len; k++)
  {
    string key = mc::fmt("k%d", k), val = mc::fmt("%d", 7 * k + 1), l = key + "=" + val + (style == 1 ? "\r\n" : style == 2 ? " ; comment\n" : "\n");
    if (t.size() + l.size() > len)
    {
      // the last line: not terminated if there is no room
      size_t room = len - t.size();
      if (room >= key.size() + 1)
      {
        size_t n = std::min(val.size(), room - key.size() - 1);
        t += key + "=" + val.substr(0, n);
        v["s." + key] = val.substr(0, n);
      }
      while (t.size() < len)
        t += style == 1 ? "\n" : " ";
      break;
    }
    t += l;
    v["s." + key] = val;
  }
  return t;
}

struct Mail
{
  int  done, bad;
  long n;
  char msg[400];
};

static void
lengths()
{
  const bool T = mc::A.thorough;
  mpx::Shared<Mail> box(8);
  vector<size_t>    L;
  for (size_t n = 0; n <= (T ? 1100u : 300u); n++)
    L.push_back(n);
  for (size_t c : { 511u, 512u, 513u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 8192u, 65535u, 65536u, 65537u, 200000u })
    L.push_back(c);
  for (int style = 0; style < 3; style++)
    for (size_t b = 0; b < L.size(); b += 25)
    {
      if (!mc::item(mc::fmt("file lengths from %d, style %d", (int)L[b], style)))
        continue;
      string d = scratch("bcast");
      for (size_t q = b; q < std::min(L.size(), b + 25); q++)
        for (int np = 1; np <= 8; np++)
        {
          if (!T && np > 3 && (q + np) % 5 && L[q] < 511)
            continue;
          std::map<string, string> v;
          string                   t = make_text(L[q], style, v), path = d + "/p.ini";
          put(path, t);
          mc::cur_desc = mc::fmt("file of %d bytes, style %d, %d processes", (int)t.size(), style, np);
          memset(box.p, 0, sizeof(Mail) * 8);
          auto body = [&](int r) {
            MPI_Init(nullptr, nullptr);
            Mail & m = box.p[r];
            // only the first process may need the file
            ConfigMap c = broadcast_parameters(r == 0 ? path : d + "/none.ini");
            auto      fail = [&](const string & s) {
              if (!m.bad++)
                snprintf(m.msg, sizeof m.msg, "%s", s.c_str());
            };
            for (auto & kv : v)
            {
              string k = kv.first.substr(2), g = c.getString("s", k, "<none>");
              if (g != kv.second)
                fail("key " + k + " is '" + g + "', the file says '" + kv.second + "'");
              m.n++;
            }
            // nothing more than what the file says
            for (int x = 0; x < 4; x++)
            {
              string k = mc::fmt("k%d", (int)v.size() + x);
              if (c.getString("s", k, "<none>") != "<none>")
                fail("key " + k + " is set, the file does not have it");
            }
            m.done = 1;
            MPI_Finalize();
            return 0;
          };
          mpx::World w(np);
          auto       o = w.run(body);
          mc::stat("transitions", np);
          mc::state(mc::hash_bytes(t.data(), t.size(), np));
          if (!o.error.empty())
            mc::viol("broadcast:" + o.kind, o.error);
          else
            for (int r = 0; r < np; r++)
            {
              if (!box.p[r].done)
                mc::viol("broadcast:lost", mc::fmt("process %d did not finish", r));
              if (box.p[r].bad)
                mc::viol("broadcast:value", mc::fmt("process %d: %s", r, box.p[r].msg));
              mc::stat("lookups", box.p[r].n);
            }
        }
      clean(d);
    }
}

//! every process of a distributed run has the settings of the file
static void
settings()
{
  const bool T = mc::A.thorough;
  const vector<std::pair<const char *, const char *>> S = {
    { "run.nStepmax", "7" }, { "run.tEnd", "0.25" }, { "run.nOutput", "-1" }, { "run.nOutput", "0" }, { "run.nlog", "3" }, { "mesh.nx", "5" }, { "mesh.ny", "6" }, { "mesh.nz", "7" }, { "mesh.xmin", "-2" }, { "mesh.xmax", "2.5" }, { "mesh.ymin", "-0.25" }, { "mesh.ymax", "4" }, { "mesh.zmin", "-8" }, { "mesh.zmax", "16" }, { "hydro.gamma0", "1.666" }, { "hydro.cfl", "0.8" }, { "hydro.iorder", "1" }, { "hydro.slope_type", "1.5" }, { "hydro.smallc", "1e-4" }, { "hydro.smallr", "1e-3" }, { "hydro.cp", "3.5" }, { "hydro.mu", "0.125" }, { "hydro.kappa", "0.375" }, { "hydro.niter_riemann", "4" }, { "hydro.riemann", "llf" }, { "hydro.riemann", "hll" }, { "hydro.riemann", "hllc" }, { "hydro.riemann", "hlld" }, { "OTHER.implementationVersion", "1" }, { "OTHER.implementationVersion", "2" }, { "", "" } };
  static const Fam F[] = { { "Hydro_Muscl_2D", 2, 4, 2, false }, { "Hydro_Muscl_3D", 3, 5, 2, false }, { "MHD_Muscl_2D", 2, 8, 3, true }, { "MHD_Muscl_3D", 3, 8, 3, true }, { "Hydro_SDM_2D_degree3", 2, 4, 1, false }, { "Hydro_SDM_3D_degree2", 3, 5, 1, false } };
  mpx::Shared<Mail> box(8);
  for (auto & f : F)
    for (int a = 1; a <= 4; a++)
      for (int b = 1; a * b <= (T ? 8 : 4); b++)
        for (int c = 1; a * b * c <= (f.dim == 2 ? a * b : T ? 8 : 4); c++)
        {
          if (!mc::item(mc::fmt("settings %s grid %dx%dx%d", f.name, a, b, c)))
            continue;
          string d = scratch("bset");
          for (auto & s : S)
          {
            Map m = { { "run.solver_name", f.name }, { "mpi.mx", std::to_string(a) }, { "mpi.my", std::to_string(b) }, { "mpi.mz", std::to_string(c) } };
            for (const char * x : { "xmin", "xmax", "ymin", "ymax", "zmin", "zmax" })
              m[string("mesh.boundary_type_") + x] = "3";
            if (*s.first)
              m[s.first] = s.second;
            mc::cur_desc = mc::fmt("%s grid %dx%dx%d %s=%s", f.name, a, b, c, s.first, s.second);
            string path = d + "/p.ini";
            put(path, ini_text(m));
            int np = a * b * c;
            memset(box.p, 0, sizeof(Mail) * 8);
            // each process reports its first wrong setting
            auto body = [&](int r) {
              MPI_Init(nullptr, nullptr);
              ConfigMap   cm = broadcast_parameters(path);
              HydroParams p;
              p.setup(cm);
              Mail & q = box.p[r];
              each_wrong(p, m, f, [&](const string &, const string & t) {
                if (!q.bad++)
                  snprintf(q.msg, sizeof q.msg, "%s", t.c_str());
              });
              q.done = 1;
              MPI_Finalize();
              return 0;
            };
            mpx::World w(np);
            auto       o = w.run(body);
            mc::stat("transitions", np);
            if (!o.error.empty())
              mc::viol("settings:" + o.kind, o.error);
            else
              for (int r = 0; r < np; r++)
                if (!box.p[r].done || box.p[r].bad)
                  mc::viol("settings:value", mc::fmt("process %d: %s", r, box.p[r].msg));
            mc::state(mc::hash_bytes(mc::cur_desc.data(), mc::cur_desc.size()));
          }
          clean(d);
        }
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  lengths();
  settings();
  return mc::done();
}
