// Parallel netCDF of the model checker: the calls the writer makes, on top of
// mini-MPI. Creating, defining, writing and closing are collective; the header
// must be the same on all processes, each process writes its own part of a
// variable, parts that overlap must agree. All of it is checked. The file holds
// the header and the variables in a format of its own (read by harness/ncread.h).
#ifndef MCK_PNETCDF_H_
#define MCK_PNETCDF_H_
#include <mpi.h>
#include <map>
#include <string>
#include <vector>
#include <cstring>
#include <stdio.h>
#include <unistd.h>

#define NC_NOERR 0
#define NC_EBADID (-33)
#define NC_EINDEFINE (-39)
#define NC_ENOTINDEFINE (-38)
#define NC_EINVALCOORDS (-40)
#define NC_ENAMEINUSE (-42)
#define NC_EBADTYPE (-45)
#define NC_EBADDIM (-46)
#define NC_ENOTVAR (-49)
#define NC_EEDGE (-57)
#define NC_EDIMSIZE (-63)
#define NC_ECREATE (-203)
#define NC_CLOBBER 0
#define NC_64BIT_DATA 0x20
#define NC_64BIT_OFFSET 0x200
#define NC_CHAR 2
#define NC_INT 4
#define NC_FLOAT 5
#define NC_DOUBLE 6
#define NC_GLOBAL (-1)
typedef int nc_type;

extern "C" void mck_mpi_error(const char * what); // does not return

namespace mcnc
{
struct Var
{
  std::string      name;
  nc_type          type;
  std::vector<int> dims;
};
struct Part
{
  int                     var;
  std::vector<MPI_Offset> start, count;
  std::string             data;
};
struct File
{
  std::string                                     path, log;
  MPI_Comm                                        comm;
  int                                             me, n;
  bool                                            define = true;
  std::vector<std::pair<std::string, MPI_Offset>> dims;
  std::vector<Var>                                vars;
  std::vector<Part>                               parts;
};
inline std::map<int, File> files;
inline int                 next = 1;

inline size_t
size(nc_type t)
{
  return t == NC_DOUBLE ? 8 : t == NC_CHAR ? 1 : 4;
}
inline void
put(std::string & o, const void * p, size_t n)
{
  o.append((const char *)&n, sizeof n);
  o.append((const char *)p, n);
}
inline std::string
take(const std::string & s, size_t & at)
{
  size_t n = 0;
  if (at + sizeof n > s.size())
    mck_mpi_error("pnetcdf: short log");
  memcpy(&n, &s[at], sizeof n);
  at += sizeof n;
  if (n > s.size() - at)
    mck_mpi_error("pnetcdf: short log");
  std::string r = s.substr(at, n);
  at += n;
  return r;
}
inline File *
get(int id)
{
  auto it = files.find(id);
  return it == files.end() ? nullptr : &it->second;
}
inline void
same(File & f, const std::string & s, const char * what)
{
  std::vector<long> h(f.n);
  long              mine = (long)std::hash<std::string>()(s);
  MPI_Allgather(&mine, 1, MPI_LONG, h.data(), 1, MPI_LONG, f.comm);
  for (long x : h)
    if (x != mine)
      mck_mpi_error(what);
}
inline std::string
log_path(const File & f, int r)
{
  return f.path + "." + std::to_string(r) + ".ncpar";
}
inline void
write_file(const std::string & path, const std::string & s)
{
  FILE * o = fopen(path.c_str(), "wb");
  if (!o)
    mck_mpi_error("pnetcdf: cannot write");
  fwrite(s.data(), 1, s.size(), o);
  fclose(o);
}
inline std::string
read_file(const std::string & path)
{
  FILE * i = fopen(path.c_str(), "rb");
  if (!i)
    mck_mpi_error("pnetcdf: log missing");
  std::string s;
  char        b[65536];
  for (size_t n; (n = fread(b, 1, sizeof b, i)) > 0;)
    s.append(b, n);
  fclose(i);
  return s;
}
inline int
att(int id, int var, const char * name, nc_type t, const void * p, size_t bytes)
{
  File * f = get(id);
  if (!f)
    return NC_EBADID;
  if (!f->define)
    return NC_ENOTINDEFINE;
  if (var != NC_GLOBAL)
    return NC_ENOTVAR;
  put(f->log, "att", 3), put(f->log, name, strlen(name)), put(f->log, &t, sizeof t), put(f->log, p, bytes);
  return NC_NOERR;
}
} // namespace mcnc

inline const char *
ncmpi_strerror(int e)
{
  static char b[40];
  snprintf(b, sizeof b, "error %d", e);
  return b;
}
inline int
ncmpi_create(MPI_Comm comm, const char * path, int mode, MPI_Info, int * id)
{
  mcnc::File f;
  f.path = path, f.comm = comm;
  MPI_Comm_rank(comm, &f.me);
  MPI_Comm_size(comm, &f.n);
  mcnc::same(f, std::string(path) + " " + std::to_string(mode), "ncmpi_create: processes do not create the same file");
  int ok = 1, all = 0;
  if (f.me == 0)
  {
    FILE * o = fopen(path, "wb");
    ok = o != nullptr;
    if (o)
      fclose(o);
  }
  MPI_Allreduce(&ok, &all, 1, MPI_INT, MPI_MIN, comm);
  if (!all)
    return NC_ECREATE;
  mcnc::put(f.log, "mode", 4), mcnc::put(f.log, &mode, sizeof mode);
  *id = mcnc::next++;
  mcnc::files[*id] = f;
  return NC_NOERR;
}
inline int
ncmpi_def_dim(int id, const char * name, MPI_Offset n, int * dim)
{
  auto f = mcnc::get(id);
  if (!f)
    return NC_EBADID;
  if (!f->define)
    return NC_ENOTINDEFINE;
  if (n < 0)
    return NC_EDIMSIZE;
  for (auto & d : f->dims)
    if (d.first == name)
      return NC_ENAMEINUSE;
  *dim = f->dims.size();
  f->dims.push_back({ name, n });
  mcnc::put(f->log, "dim", 3), mcnc::put(f->log, name, strlen(name)), mcnc::put(f->log, &n, sizeof n);
  return NC_NOERR;
}
inline int
ncmpi_def_var(int id, const char * name, nc_type t, int nd, const int * dims, int * var)
{
  auto f = mcnc::get(id);
  if (!f)
    return NC_EBADID;
  if (!f->define)
    return NC_ENOTINDEFINE;
  if (t != NC_INT && t != NC_FLOAT && t != NC_DOUBLE)
    return NC_EBADTYPE;
  for (auto & v : f->vars)
    if (v.name == name)
      return NC_ENAMEINUSE;
  for (int d = 0; d < nd; d++)
    if (dims[d] < 0 || dims[d] >= (int)f->dims.size())
      return NC_EBADDIM;
  *var = f->vars.size();
  f->vars.push_back({ name, t, std::vector<int>(dims, dims + nd) });
  mcnc::put(f->log, "var", 3), mcnc::put(f->log, name, strlen(name)), mcnc::put(f->log, &t, sizeof t), mcnc::put(f->log, dims, nd * sizeof(int));
  return NC_NOERR;
}
inline int
ncmpi_put_att_int(int id, int var, const char * name, nc_type t, MPI_Offset n, const int * p)
{
  return mcnc::att(id, var, name, t, p, n * sizeof *p);
}
inline int
ncmpi_put_att_double(int id, int var, const char * name, nc_type t, MPI_Offset n, const double * p)
{
  return mcnc::att(id, var, name, t, p, n * sizeof *p);
}
inline int
ncmpi_put_att_text(int id, int var, const char * name, MPI_Offset n, const char * p)
{
  return mcnc::att(id, var, name, NC_CHAR, p, n);
}
inline int
ncmpi_enddef(int id)
{
  auto f = mcnc::get(id);
  if (!f)
    return NC_EBADID;
  if (!f->define)
    return NC_ENOTINDEFINE;
  mcnc::same(*f, f->log, "netCDF: the header differs between the processes");
  f->define = false;
  return NC_NOERR;
}
inline int
ncmpi_get_file_info(int id, MPI_Info * i)
{
  if (!mcnc::get(id))
    return NC_EBADID;
  return MPI_Info_create(i), NC_NOERR;
}
inline int
ncmpi_put_vara_all(int id, int var, const MPI_Offset * start, const MPI_Offset * count, const void * buf, MPI_Offset n, MPI_Datatype type)
{
  auto f = mcnc::get(id);
  if (!f)
    return NC_EBADID;
  if (f->define)
    return NC_EINDEFINE;
  if (var < 0 || var >= (int)f->vars.size())
    mck_mpi_error("ncmpi_put_vara_all: no such variable");
  auto &     v = f->vars[var];
  mcnc::Part p;
  MPI_Offset items = 1;
  for (size_t d = 0; d < v.dims.size(); d++)
  {
    MPI_Offset len = f->dims[v.dims[d]].second;
    if (start[d] < 0 || start[d] > len)
      mck_mpi_error("ncmpi_put_vara_all: start outside the variable");
    if (count[d] < 0 || start[d] + count[d] > len)
      mck_mpi_error("ncmpi_put_vara_all: part reaches outside the variable");
    p.start.push_back(start[d]), p.count.push_back(count[d]);
    items *= count[d];
  }
  if (items != n)
    mck_mpi_error("ncmpi_put_vara_all: the buffer holds another number of values than the part");
  if ((type == MPI_DOUBLE && v.type != NC_DOUBLE) || (type == MPI_FLOAT && v.type != NC_FLOAT))
    mck_mpi_error("ncmpi_put_vara_all: the variable has another type (conversion is not modelled)");
  p.var = var;
  p.data.assign((const char *)buf, n * mcnc::size(v.type));
  f->parts.push_back(p);
  return NC_NOERR;
}
inline int
ncmpi_close(int id)
{
  auto fp = mcnc::get(id);
  if (!fp)
    return NC_EBADID;
  mcnc::File f = *fp;
  if (f.define)
    mcnc::same(f, f.log, "netCDF: the header differs between the processes");
  if (f.me)
  {
    std::string o;
    size_t      k = f.parts.size();
    mcnc::put(o, &k, sizeof k);
    for (auto & p : f.parts)
      mcnc::put(o, &p.var, sizeof p.var), mcnc::put(o, p.start.data(), p.start.size() * sizeof(MPI_Offset)), mcnc::put(o, p.count.data(), p.count.size() * sizeof(MPI_Offset)), mcnc::put(o, p.data.data(), p.data.size());
    mcnc::write_file(mcnc::log_path(f, f.me), o);
  }
  MPI_Barrier(f.comm);
  if (!f.me)
  {
    std::vector<std::string> data, seen;
    for (auto & v : f.vars)
    {
      size_t n = 1;
      for (int d : v.dims)
        n *= f.dims[d].second;
      data.push_back(std::string(n * mcnc::size(v.type), 0));
      seen.push_back(std::string(n, 0));
    }
    auto add = [&](const mcnc::Part & p) {
      auto &                  v = f.vars[p.var];
      size_t                  sz = mcnc::size(v.type), n = p.data.size() / sz;
      std::vector<MPI_Offset> x(p.start.size(), 0);
      for (size_t c = 0; c < n; c++)
      {
        size_t at = 0;
        for (size_t d = 0; d < x.size(); d++)
          at = at * f.dims[v.dims[d]].second + p.start[d] + x[d];
        if (seen[p.var][at] && memcmp(&data[p.var][at * sz], &p.data[c * sz], sz))
          mck_mpi_error(("netCDF: processes write different values to one element of " + v.name).c_str());
        seen[p.var][at] = 1;
        memcpy(&data[p.var][at * sz], &p.data[c * sz], sz);
        for (int d = (int)x.size() - 1; d >= 0; d--)
        {
          if (++x[d] < p.count[d])
            break;
          x[d] = 0;
        }
      }
    };
    for (auto & p : f.parts)
      add(p);
    for (int r = 1; r < f.n; r++)
    {
      std::string s = mcnc::read_file(mcnc::log_path(f, r)), t = "";
      size_t      at = 0, k;
      t = mcnc::take(s, at);
      memcpy(&k, t.data(), sizeof k);
      if (k != f.parts.size())
        mck_mpi_error("netCDF: processes take part in a different number of collective writes");
      for (size_t i = 0; i < k; i++)
      {
        mcnc::Part p;
        t = mcnc::take(s, at);
        memcpy(&p.var, t.data(), sizeof p.var);
        if (p.var != f.parts[i].var)
          mck_mpi_error("netCDF: processes write different variables in one collective call");
        t = mcnc::take(s, at);
        p.start.assign((const MPI_Offset *)t.data(), (const MPI_Offset *)(t.data() + t.size()));
        t = mcnc::take(s, at);
        p.count.assign((const MPI_Offset *)t.data(), (const MPI_Offset *)(t.data() + t.size()));
        p.data = mcnc::take(s, at);
        add(p);
      }
    }
    std::string o = f.log;
    for (size_t v = 0; v < f.vars.size(); v++)
      mcnc::put(o, "data", 4), mcnc::put(o, seen[v].data(), seen[v].size()), mcnc::put(o, data[v].data(), data[v].size());
    mcnc::write_file(f.path, o);
  }
  mcnc::files.erase(id);
  MPI_Barrier(f.comm);
  if (f.me)
    unlink(mcnc::log_path(f, f.me).c_str());
  return NC_NOERR;
}
#endif
