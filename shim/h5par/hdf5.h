// Parallel HDF5 of the model checker. The serial library does the work; this
// header gives a file that several processes (ranks of mpirt.h) create together
// the semantics of parallel HDF5:
//  - creating, opening and closing a file, and everything that changes its
//    structure (groups, datasets, attributes) is collective: each process must
//    make the same calls with the same arguments, in the same order (checked);
//  - each process writes the part of a dataset it selects; parts that overlap
//    must agree (the outcome is undefined otherwise; checked);
//  - a collective transfer is made by all processes.
// Each process works on a file of its own in memory (process 0: on the real
// one); when the file is closed, process 0 adds what the others wrote.
#ifndef MCK_H5PAR_H_
#define MCK_H5PAR_H_
#include_next <hdf5.h>
#include <mpi.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <string.h>
#include <stdio.h>
#include <unistd.h>

extern "C" void mck_mpi_error(const char * what); // does not return

namespace mch5
{
struct Part
{
  std::string       name, type, space, data;
};
struct File
{
  std::string       path, log;
  MPI_Comm          comm;
  int               me, n;
  bool              write;
  std::vector<Part> parts;
};
inline std::map<hid_t, MPI_Comm> plists;     // access property lists
inline std::set<hid_t>           collective; // transfer property lists
inline std::map<hid_t, File>     files;

//! the shared file an object lies in, or null
inline File *
owner(hid_t obj)
{
  if (files.empty())
    return nullptr;
  H5I_type_t t = H5Iget_type(obj);
  if (t != H5I_FILE && t != H5I_DATASET && t != H5I_GROUP && t != H5I_ATTR)
    return nullptr;
  hid_t f = t == H5I_FILE ? obj : H5Iget_file_id(obj);
  if (t == H5I_FILE)
    H5Iinc_ref(f);
  auto   it = files.find(f);
  File * r = it == files.end() ? nullptr : &it->second;
  if (!r && files.size() == 1)
    r = &files.begin()->second;
  H5Idec_ref(f);
  return r;
}
inline std::string
encode_space(hid_t s)
{
  size_t n = 0;
  H5Sencode(s, nullptr, &n);
  std::string b(n, 0);
  H5Sencode(s, &b[0], &n);
  return b;
}
inline std::string
encode_type(hid_t t)
{
  size_t n = 0;
  H5Tencode(t, nullptr, &n);
  std::string b(n, 0);
  H5Tencode(t, &b[0], &n);
  return b;
}
inline void
note(hid_t obj, const std::string & s)
{
  if (File * f = owner(obj))
    if (f->write)
    {
      size_t n = s.size();
      f->log.append((char *)&n, sizeof n);
      f->log += s;
    }
}
inline std::string
path_of(const File & f, int r)
{
  return f.path + "." + std::to_string(r) + ".h5par";
}
inline void
put(FILE * o, const std::string & s)
{
  size_t n = s.size();
  fwrite(&n, sizeof n, 1, o);
  fwrite(s.data(), 1, n, o);
}
inline std::string
take(FILE * i)
{
  size_t n = 0;
  if (fread(&n, sizeof n, 1, i) != 1)
    mck_mpi_error("h5par: short log");
  std::string s(n, 0);
  if (n && fread(&s[0], 1, n, i) != n)
    mck_mpi_error("h5par: short log");
  return s;
}

inline herr_t
Pset_fapl_mpio(hid_t p, MPI_Comm c, MPI_Info)
{
  plists[p] = c;
  return 0;
}
inline herr_t
Pset_dxpl_mpio(hid_t p, int mode)
{
  if (mode == H5FD_MPIO_COLLECTIVE)
    collective.insert(p);
  else
    collective.erase(p);
  return 0;
}
inline herr_t
Pclose(hid_t p)
{
  plists.erase(p);
  collective.erase(p);
  return H5Pclose(p);
}
inline hid_t
open(const char * name, unsigned flags, hid_t fcpl, hid_t fapl, bool create)
{
  auto it = plists.find(fapl);
  if (it == plists.end())
    return create ? H5Fcreate(name, flags, fcpl, fapl) : H5Fopen(name, flags, fapl);
  File f;
  f.path = name;
  f.comm = it->second;
  MPI_Comm_rank(f.comm, &f.me);
  MPI_Comm_size(f.comm, &f.n);
  f.write = create || (flags & H5F_ACC_RDWR);
  if (!create && f.write)
    mck_mpi_error("h5par: updating an existing file is not modelled");
  // same arguments everywhere
  {
    std::string           s = std::string(create ? "create " : "open ") + name;
    std::vector<long>     h(f.n);
    long                  mine = (long)std::hash<std::string>()(s) + (long)(flags & 7);
    MPI_Allgather(&mine, 1, MPI_LONG, h.data(), 1, MPI_LONG, f.comm);
    for (long x : h)
      if (x != mine)
        mck_mpi_error(("H5F: processes do not open the same file (" + s + ")").c_str());
  }
  hid_t id;
  if (!create)
    id = H5Fopen(name, flags, H5P_DEFAULT);
  else if (f.me == 0)
    id = H5Fcreate(name, flags, fcpl, H5P_DEFAULT);
  else
  {
    hid_t p = H5Pcreate(H5P_FILE_ACCESS);
    H5Pset_fapl_core(p, 65536, 0);
    char own[64];
    snprintf(own, sizeof own, "h5par-%d", (int)getpid());
    id = H5Fcreate(own, H5F_ACC_TRUNC, fcpl, p);
    H5Pclose(p);
  }
  // all processes see the same outcome
  int ok = id >= 0, all = 0;
  MPI_Allreduce(&ok, &all, 1, MPI_INT, MPI_MIN, f.comm);
  if (!all)
  {
    if (id >= 0)
      H5Fclose(id);
    return -1;
  }
  files[id] = f;
  return id;
}
inline hid_t
Fcreate(const char * name, unsigned flags, hid_t fcpl, hid_t fapl)
{
  return open(name, flags, fcpl, fapl, true);
}
inline hid_t
Fopen(const char * name, unsigned flags, hid_t fapl)
{
  return open(name, flags, H5P_DEFAULT, fapl, false);
}
inline void
merge(hid_t id, File & f, int r, std::map<std::string, std::string> & seen)
{
  FILE * i = fopen(path_of(f, r).c_str(), "rb");
  if (!i)
    mck_mpi_error("h5par: log missing");
  if (take(i) != f.log)
    mck_mpi_error("HDF5: processes create different datasets or attributes in one file");
  size_t n = std::stoul(take(i));
  if (n != f.parts.size())
    mck_mpi_error("HDF5: processes take part in a different number of collective transfers");
  for (size_t k = 0; k < n; k++)
  {
    Part p;
    p.name = take(i), p.type = take(i), p.space = take(i), p.data = take(i);
    if (p.name != f.parts[k].name)
      mck_mpi_error("HDF5: processes write different datasets in one collective transfer");
    hid_t    d = H5Dopen2(id, p.name.c_str(), H5P_DEFAULT), t = H5Tdecode(p.type.data()), s = H5Sdecode(p.space.data());
    hssize_t m = H5Sget_select_npoints(s);
    if (m > 0)
    {
      hsize_t     dm = m;
      hid_t       ms = H5Screate_simple(1, &dm, nullptr);
      size_t      sz = H5Tget_size(t);
      std::string old(m * sz, 0);
      // overlap with what was written before must hold the same values
      hid_t       bt = H5Dget_space(d);
      hssize_t    tot = H5Sget_simple_extent_npoints(bt);
      auto &      w = seen[p.name];
      w.resize(tot, 0);
      H5Dread(d, t, ms, s, H5P_DEFAULT, &old[0]);
      {
        // which elements: positions of the selection
        int     nd = H5Sget_simple_extent_ndims(s);
        hsize_t dims[8];
        H5Sget_simple_extent_dims(s, dims, nullptr);
        hsize_t              lo[8], hi[8];
        H5Sget_select_bounds(s, lo, hi);
        hsize_t vol = 1;
        for (int q = 0; q < nd; q++)
          vol *= hi[q] - lo[q] + 1;
        if (vol != (hsize_t)m)
          mck_mpi_error("h5par: selection with holes is not modelled");
        hsize_t x[8];
        memcpy(x, lo, sizeof x);
        for (hssize_t c = 0; c < m; c++)
        {
          hsize_t at = 0;
          for (int q = 0; q < nd; q++)
            at = at * dims[q] + x[q];
          if (w[at] && memcmp(&old[c * sz], &p.data[c * sz], sz))
            mck_mpi_error(("HDF5: processes write different values to one element of " + p.name).c_str());
          w[at] = 1;
          for (int q = nd - 1; q >= 0; q--)
          {
            if (++x[q] <= hi[q])
              break;
            x[q] = lo[q];
          }
        }
      }
      H5Dwrite(d, t, ms, s, H5P_DEFAULT, p.data.data());
      H5Sclose(ms);
      H5Sclose(bt);
    }
    H5Dclose(d);
    H5Tclose(t);
    H5Sclose(s);
  }
  fclose(i);
}
inline void
mark(hid_t, File & f, std::map<std::string, std::string> & seen)
{
  for (auto & p : f.parts)
  {
    hid_t    s = H5Sdecode(p.space.data());
    hssize_t m = H5Sget_select_npoints(s);
    auto &   w = seen[p.name];
    w.resize(H5Sget_simple_extent_npoints(s), 0);
    if (m > 0)
    {
      int     nd = H5Sget_simple_extent_ndims(s);
      hsize_t dims[8], lo[8], hi[8], x[8];
      H5Sget_simple_extent_dims(s, dims, nullptr);
      H5Sget_select_bounds(s, lo, hi);
      memcpy(x, lo, sizeof x);
      for (hssize_t c = 0; c < m; c++)
      {
        hsize_t at = 0;
        for (int q = 0; q < nd; q++)
          at = at * dims[q] + x[q];
        w[at] = 1;
        for (int q = nd - 1; q >= 0; q--)
        {
          if (++x[q] <= hi[q])
            break;
          x[q] = lo[q];
        }
      }
    }
    H5Sclose(s);
  }
}
inline herr_t
Fclose(hid_t id)
{
  auto it = files.find(id);
  if (it == files.end())
    return H5Fclose(id);
  File f = it->second;
  if (f.write)
  {
    if (f.me)
    {
      FILE * o = fopen(path_of(f, f.me).c_str(), "wb");
      if (!o)
        mck_mpi_error("h5par: cannot write the log");
      put(o, f.log);
      put(o, std::to_string(f.parts.size()));
      for (auto & p : f.parts)
        put(o, p.name), put(o, p.type), put(o, p.space), put(o, p.data);
      fclose(o);
    }
    MPI_Barrier(f.comm);
    if (!f.me)
    {
      std::map<std::string, std::string> seen;
      mark(id, f, seen);
      for (int r = 1; r < f.n; r++)
        merge(id, f, r, seen);
    }
  }
  files.erase(id);
  herr_t e = H5Fclose(id);
  MPI_Barrier(f.comm); // process 0 has read the logs
  if (f.write && f.me)
    unlink(path_of(f, f.me).c_str());
  return e;
}
inline hid_t
Dcreate(hid_t loc, const char * name, hid_t type, hid_t space, hid_t lcpl, hid_t dcpl, hid_t dapl)
{
  hid_t s = H5Scopy(space);
  H5Sselect_all(s);
  note(loc, std::string("dataset ") + name + encode_type(type) + encode_space(s));
  H5Sclose(s);
  return H5Dcreate2(loc, name, type, space, lcpl, dcpl, dapl);
}
inline hid_t
Acreate(hid_t loc, const char * name, hid_t type, hid_t space, hid_t acpl, hid_t aapl)
{
  note(loc, std::string("attribute ") + name + encode_type(type) + encode_space(space));
  return H5Acreate2(loc, name, type, space, acpl, aapl);
}
inline herr_t
Awrite(hid_t a, hid_t type, const void * v)
{
  if (owner(a))
  {
    hid_t       s = H5Aget_space(a);
    hssize_t    n = H5Sget_simple_extent_npoints(s);
    std::string raw;
    if (H5Tget_class(type) == H5T_STRING)
      raw = std::string((const char *)v, strnlen((const char *)v, H5Tget_size(type) > 0 ? H5Tget_size(type) - 1 : 0));
    else
      raw = std::string((const char *)v, n * H5Tget_size(type));
    H5Sclose(s);
    note(a, "value " + raw);
  }
  return H5Awrite(a, type, v);
}
inline hid_t
Gcreate(hid_t loc, const char * name, hid_t l, hid_t g, hid_t a)
{
  note(loc, std::string("group ") + name);
  return H5Gcreate2(loc, name, l, g, a);
}
inline herr_t
Dwrite(hid_t d, hid_t type, hid_t ms, hid_t fs, hid_t x, const void * buf)
{
  File * f = owner(d);
  if (!f)
    return H5Dwrite(d, type, ms, fs, x, buf);
  hid_t own = -1, mown = -1;
  hid_t s = fs, m = ms;
  if (s == H5S_ALL)
    s = own = H5Dget_space(d);
  if (m == H5S_ALL)
    m = mown = H5Scopy(s);
  herr_t e = H5Dwrite(d, type, ms, fs, H5P_DEFAULT, buf);
  if (e >= 0)
  {
    Part    p;
    ssize_t n = H5Iget_name(d, nullptr, 0);
    p.name.resize(n);
    H5Iget_name(d, &p.name[0], n + 1);
    p.type = encode_type(type), p.space = encode_space(s);
    hssize_t k = H5Sget_select_npoints(m);
    p.data.resize(k * H5Tget_size(type));
    if (k > 0)
      H5Dgather(m, buf, type, p.data.size(), &p.data[0], nullptr, nullptr);
    f->parts.push_back(p);
  }
  if (own >= 0)
    H5Sclose(own);
  if (mown >= 0)
    H5Sclose(mown);
  return e;
}
inline herr_t
Dread(hid_t d, hid_t type, hid_t ms, hid_t fs, hid_t x, void * buf)
{
  return H5Dread(d, type, ms, fs, owner(d) ? H5P_DEFAULT : x, buf);
}
} // namespace mch5

#undef H5Acreate
#undef H5Dcreate
#undef H5Gcreate
#define H5Acreate mch5::Acreate
#define H5Dcreate mch5::Dcreate
#define H5Gcreate mch5::Gcreate
#define H5Acreate2 mch5::Acreate
#define H5Dcreate2 mch5::Dcreate
#define H5Gcreate2 mch5::Gcreate
#define H5Awrite mch5::Awrite
#define H5Dwrite mch5::Dwrite
#define H5Dread mch5::Dread
#define H5Fcreate mch5::Fcreate
#define H5Fopen mch5::Fopen
#define H5Fclose mch5::Fclose
#define H5Pclose mch5::Pclose
#define H5Pset_fapl_mpio mch5::Pset_fapl_mpio
#define H5Pset_dxpl_mpio mch5::Pset_dxpl_mpio
#endif
