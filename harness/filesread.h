// Readers of the files the code writes (HDF5, VTK XML, XDMF), independent of the
// code under test, and strict about well-formedness.
#ifndef FILESREAD_H_
#define FILESREAD_H_
#include "mainrun.h"
#ifndef FILESREAD_NO_HDF5
#  include <hdf5.h>
#endif

namespace fr
{
using std::string;
using std::vector;

#ifndef FILESREAD_NO_HDF5
// ---------------------------------------------------------------- HDF5
struct H5
{
  bool                                 ok = false;
  std::map<string, vector<hsize_t>>    dims;
  std::map<string, vector<double>>     data;
  std::map<string, double>             attr; // numeric attributes of the root
  std::map<string, string>             type;
};
inline herr_t
h5_link(hid_t g, const char * name, const H5L_info_t *, void * p)
{
  ((vector<string> *)p)->push_back(name);
  return 0;
}
inline herr_t
h5_attr(hid_t g, const char * name, const H5A_info_t *, void * p)
{
  ((vector<string> *)p)->push_back(name);
  return 0;
}
inline H5
read_h5(const string & path)
{
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  H5    r;
  hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0)
    return r;
  r.ok = true;
  vector<string> names, attrs;
  H5Literate(f, H5_INDEX_NAME, H5_ITER_INC, nullptr, h5_link, &names);
  H5Aiterate2(f, H5_INDEX_NAME, H5_ITER_INC, nullptr, h5_attr, &attrs);
  for (auto & n : names)
  {
    hid_t d = H5Dopen2(f, n.c_str(), H5P_DEFAULT);
    if (d < 0)
    {
      r.ok = false;
      continue;
    }
    hid_t           s = H5Dget_space(d), t = H5Dget_type(d);
    int             rank = H5Sget_simple_extent_ndims(s);
    vector<hsize_t> dims(rank);
    H5Sget_simple_extent_dims(s, dims.data(), nullptr);
    size_t tot = 1;
    for (auto x : dims)
      tot *= x;
    r.dims[n] = dims;
    r.type[n] = H5Tget_class(t) == H5T_FLOAT && H5Tget_size(t) == sizeof(ppkMHD::real_t) ? "real" : "other";
    auto & v = r.data[n];
    v.resize(tot);
    if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0)
      r.ok = false;
    H5Tclose(t);
    H5Sclose(s);
    H5Dclose(d);
  }
  for (auto & n : attrs)
  {
    hid_t a = H5Aopen(f, n.c_str(), H5P_DEFAULT), t = H5Aget_type(a);
    auto  c = H5Tget_class(t);
    if (c == H5T_INTEGER || c == H5T_FLOAT)
    {
      double v = 0;
      H5Aread(a, H5T_NATIVE_DOUBLE, &v);
      r.attr[n] = v;
    }
    H5Tclose(t);
    H5Aclose(a);
  }
  H5Fclose(f);
  return r;
}
#endif

// ---------------------------------------------------------------- XML
struct Node
{
  string                   tag, text;
  std::map<string, string> attr;
  vector<Node>             kids;
  const Node *             child(const string & t, int k = 0) const
  {
    for (auto & c : kids)
      if (c.tag == t && k-- == 0)
        return &c;
    return nullptr;
  }
  vector<const Node *> all(const string & t) const
  {
    vector<const Node *> r;
    for (auto & c : kids)
      if (c.tag == t)
        r.push_back(&c);
    return r;
  }
  string get(const string & a, const string & d = "?") const
  {
    auto it = attr.find(a);
    return it == attr.end() ? d : it->second;
  }
};
//! Parses XML. Raw appended data (after "<AppendedData encoding="raw">" and "_")
//! is skipped up to the position told by raw_size(root so far); its place goes to raw_at.
struct Xml
{
  const string & s;
  size_t         p = 0;
  string         err;
  size_t         raw_at = 0;
  // number of raw bytes, from the DataArray offsets and the block headers
  vector<size_t> offsets;
  bool           wide = true; // 8 byte block headers
  explicit Xml(const string & text)
    : s(text)
  {}
  void ws()
  {
    while (p < s.size() && isspace((unsigned char)s[p]))
      p++;
  }
  bool fail(const string & m)
  {
    if (err.empty())
      err = m + mc::fmt(" at byte %d", (int)p);
    return false;
  }
  string name()
  {
    size_t b = p;
    while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr("_:.-", s[p])))
      p++;
    return s.substr(b, p - b);
  }
  bool misc()
  {
    for (;;)
    {
      ws();
      if (s.compare(p, 2, "<?") == 0)
      {
        if (p != 0)
          return fail("XML declaration not at the start");
        p = s.find("?>", p);
        if (p == string::npos)
          return fail("unterminated declaration");
        p += 2;
      }
      else if (s.compare(p, 4, "<!--") == 0)
      {
        p = s.find("-->", p);
        if (p == string::npos)
          return fail("unterminated comment");
        p += 3;
      }
      else if (s.compare(p, 2, "<!") == 0)
      {
        p = s.find('>', p);
        if (p == string::npos)
          return fail("unterminated declaration");
        p++;
      }
      else
        return true;
    }
  }
  bool element(Node & n)
  {
    if (p >= s.size() || s[p] != '<')
      return fail("element expected");
    p++;
    n.tag = name();
    if (n.tag.empty())
      return fail("no element name");
    for (;;)
    {
      size_t b = p;
      ws();
      if (s.compare(p, 2, "/>") == 0)
      {
        p += 2;
        note(n);
        return true;
      }
      if (p < s.size() && s[p] == '>')
      {
        p++;
        break;
      }
      if (b == p)
        return fail("no blank before an attribute");
      string a = name();
      ws();
      if (a.empty() || p >= s.size() || s[p] != '=')
        return fail("bad attribute");
      p++;
      ws();
      if (p >= s.size() || (s[p] != '"' && s[p] != '\''))
        return fail("attribute value not quoted");
      char   q = s[p++];
      size_t e = s.find(q, p);
      if (e == string::npos)
        return fail("unterminated attribute");
      string v = s.substr(p, e - p);
      if (v.find('<') != string::npos)
        return fail("'<' in an attribute");
      if (n.attr.count(a))
        return fail("attribute given twice: " + a);
      n.attr[a] = v;
      p = e + 1;
    }
    note(n);
    if (n.tag == "AppendedData" && n.get("encoding") == "raw")
    {
      ws();
      if (p >= s.size() || s[p] != '_')
        return fail("no '_' before the appended data");
      raw_at = ++p;
      size_t end = 0;
      for (size_t o : offsets)
      {
        uint64_t len = 0;
        if (raw_at + o + (wide ? 8 : 4) > s.size())
          return fail("appended data end before a declared offset");
        memcpy(&len, s.data() + raw_at + o, wide ? 8 : 4);
        size_t e = o + (wide ? 8 : 4) + len;
        if (raw_at + e > s.size())
          return fail("appended data shorter than declared");
        end = std::max(end, e);
      }
      p = raw_at + end;
      ws();
    }
    for (;;)
    {
      size_t e = s.find('<', p);
      if (e == string::npos)
        return fail("element <" + n.tag + "> not closed");
      n.text += s.substr(p, e - p);
      p = e;
      if (s.compare(p, 2, "</") == 0)
      {
        p += 2;
        string t = name();
        ws();
        if (t != n.tag || p >= s.size() || s[p] != '>')
          return fail("<" + n.tag + "> closed by </" + t + ">");
        p++;
        return true;
      }
      if (s.compare(p, 4, "<!--") == 0)
      {
        p = s.find("-->", p);
        if (p == string::npos)
          return fail("unterminated comment");
        p += 3;
        continue;
      }
      n.kids.emplace_back();
      if (!element(n.kids.back()))
        return false;
    }
  }
  void note(const Node & n)
  {
    if (n.tag == "VTKFile")
      wide = n.get("header_type", "UInt32") == "UInt64";
    if (n.tag == "DataArray" && n.get("format") == "appended")
      offsets.push_back(strtoull(n.get("offset").c_str(), nullptr, 10));
  }
  bool parse(Node & root)
  {
    if (!misc() || !element(root) || !misc())
      return false;
    ws();
    if (p != s.size())
      return fail("text after the end");
    return true;
  }
};
inline vector<double>
numbers(const string & t, bool * ok = nullptr)
{
  vector<double> r;
  const char *   c = t.c_str();
  for (;;)
  {
    while (isspace((unsigned char)*c))
      c++;
    if (!*c)
      break;
    char * e;
    double v = strtod(c, &e);
    if (e == c)
    {
      if (ok)
        *ok = false;
      break;
    }
    r.push_back(v);
    c = e;
  }
  return r;
}

//! values of a DataArray (ascii or appended raw)
inline bool
data_array(const Node & n, const string & file, const Xml & x, vector<double> & out, string & err)
{
  string ty = n.get("type");
  out.clear();
  if (n.get("format") == "ascii")
  {
    bool ok = true;
    out = numbers(n.text, &ok);
    if (!ok)
      err = "not a number in " + n.get("Name");
    return ok;
  }
  if (n.get("format") != "appended")
  {
    err = "unknown format " + n.get("format");
    return false;
  }
  size_t   o = x.raw_at + strtoull(n.get("offset").c_str(), nullptr, 10);
  uint64_t len = 0;
  memcpy(&len, file.data() + o, x.wide ? 8 : 4);
  o += x.wide ? 8 : 4;
  auto rd = [&](auto z) {
    size_t k = sizeof z;
    if (len % k)
      err = "length of " + n.get("Name") + " is no multiple of its type";
    for (size_t i = 0; i + k <= len; i += k)
    {
      memcpy(&z, file.data() + o + i, k);
      out.push_back((double)z);
    }
  };
  if (ty == "Float64")
    rd(double());
  else if (ty == "Float32")
    rd(float());
  else if (ty == "Int32")
    rd(int32_t());
  else if (ty == "Int64")
    rd(int64_t());
  else if (ty == "UInt64")
    rd(uint64_t());
  else if (ty == "UInt32")
    rd(uint32_t());
  else if (ty == "UInt8")
    rd(uint8_t());
  else
    err = "unknown type " + ty;
  return err.empty();
}

struct Vti
{
  string         err;
  vector<double> whole, piece, origin, spacing;
  vector<string> names;
  vector<string> types;
  bool           appended = false;
  vector<vector<double>> data;
};
inline Vti
read_vti(const string & text)
{
  Vti  v;
  Xml  x(text);
  Node r;
  if (!x.parse(r))
  {
    v.err = x.err;
    return v;
  }
  const int one = 1;
  if (r.tag != "VTKFile" || r.get("type") != "ImageData" || r.get("byte_order") != (*(const char *)&one ? "LittleEndian" : "BigEndian"))
  {
    v.err = "not a VTK image file of this machine";
    return v;
  }
  auto im = r.child("ImageData");
  auto pc = im ? im->child("Piece") : nullptr;
  auto cd = pc ? pc->child("CellData") : nullptr;
  if (!cd || im->all("Piece").size() != 1)
  {
    v.err = "no ImageData/Piece/CellData";
    return v;
  }
  v.whole = numbers(im->get("WholeExtent"));
  v.origin = numbers(im->get("Origin"));
  v.spacing = numbers(im->get("Spacing"));
  v.piece = numbers(pc->get("Extent"));
  for (auto & a : cd->kids)
  {
    if (a.tag != "DataArray")
    {
      v.err = "unknown element " + a.tag;
      return v;
    }
    v.names.push_back(a.get("Name"));
    v.types.push_back(a.get("type"));
    v.appended = a.get("format") == "appended";
    v.data.emplace_back();
    if (!data_array(a, text, x, v.data.back(), v.err))
      return v;
  }
  return v;
}

inline bool
vtk_root(const string & text, const char * type, Node & r, Xml & x, string & err)
{
  const int one = 1;
  if (!x.parse(r))
    err = x.err;
  else if (r.tag != "VTKFile" || r.get("type") != type || r.get("byte_order") != (*(const char *)&one ? "LittleEndian" : "BigEndian"))
    err = string("not a VTK file of type ") + type + " of this machine";
  return err.empty();
}

//! index of a distributed image or unstructured grid
struct Pvtx
{
  string         err;
  vector<double> whole, origin, spacing;
  vector<string> names, types, sources;
  vector<vector<double>> extents;
};
inline Pvtx
read_pvtx(const string & text, bool image)
{
  Pvtx v;
  Xml  x(text);
  Node r;
  if (!vtk_root(text, image ? "PImageData" : "PUnstructuredGrid", r, x, v.err))
    return v;
  auto g = r.child(image ? "PImageData" : "PUnstructuredGrid");
  auto cd = g ? g->child("PCellData") : nullptr;
  if (!cd)
  {
    v.err = "no PCellData";
    return v;
  }
  if (image)
  {
    v.whole = numbers(g->get("WholeExtent"));
    v.origin = numbers(g->get("Origin"));
    v.spacing = numbers(g->get("Spacing"));
  }
  if (g->get("GhostLevel", "0") != "0")
    v.err = "GhostLevel is not 0";
  for (auto a : cd->all("PDataArray"))
    v.names.push_back(a->get("Name")), v.types.push_back(a->get("type"));
  for (auto a : g->all("Piece"))
    v.sources.push_back(a->get("Source")), v.extents.push_back(image ? numbers(a->get("Extent")) : vector<double>());
  if (!image)
  {
    auto pp = g->child("PPoints");
    auto pa = pp ? pp->child("PDataArray") : nullptr;
    if (!pa || pa->get("NumberOfComponents") != "3")
      v.err = "no points of 3 components declared";
  }
  return v;
}

//! unstructured grid
struct Vtu
{
  string                 err;
  bool                   appended = false;
  vector<double>         points, conn, offs, kinds;
  string                 point_type;
  vector<string>         names, types;
  vector<vector<double>> data;
  double                 cycle = NAN, time = NAN;
};
inline Vtu
read_vtu(const string & text)
{
  Vtu  v;
  Xml  x(text);
  Node r;
  if (!vtk_root(text, "UnstructuredGrid", r, x, v.err))
    return v;
  auto g = r.child("UnstructuredGrid");
  auto pc = g ? g->child("Piece") : nullptr;
  auto cd = pc ? pc->child("CellData") : nullptr;
  auto pt = pc ? pc->child("Points") : nullptr;
  auto ce = pc ? pc->child("Cells") : nullptr;
  auto pa = pt ? pt->child("DataArray") : nullptr;
  if (!cd || !ce || !pa || g->all("Piece").size() != 1)
  {
    v.err = "no UnstructuredGrid/Piece/Points+Cells+CellData";
    return v;
  }
  if (auto fd = g->child("FieldData"))
    for (auto a : fd->all("DataArray"))
    {
      auto n = numbers(a->text);
      if (n.size() == 1)
        (a->get("Name") == "TIME" ? v.time : v.cycle) = n[0];
    }
  v.point_type = pa->get("type");
  v.appended = pa->get("format") == "appended";
  if (pa->get("NumberOfComponents") != "3")
    v.err = "points are not of 3 components";
  if (!v.err.empty() || !data_array(*pa, text, x, v.points, v.err))
    return v;
  for (auto a : ce->all("DataArray"))
  {
    string n = a->get("Name");
    if (!data_array(*a, text, x, n == "connectivity" ? v.conn : n == "offsets" ? v.offs : v.kinds, v.err))
      return v;
  }
  for (auto & a : cd->kids)
  {
    v.names.push_back(a.get("Name"));
    v.types.push_back(a.get("type"));
    if ((a.get("format") == "appended") != v.appended)
      v.err = "encodings are mixed";
    v.data.emplace_back();
    if (!data_array(a, text, x, v.data.back(), v.err))
      return v;
  }
  double np = strtod(pc->get("NumberOfPoints").c_str(), nullptr), nc = strtod(pc->get("NumberOfCells").c_str(), nullptr);
  if (np * 3 != v.points.size() || nc != v.offs.size() || nc != v.kinds.size())
    v.err = mc::fmt("declares %g points and %g cells, has %g, %d and %d", np, nc, v.points.size() / 3.0, (int)v.offs.size(), (int)v.kinds.size());
  return v;
}
} // namespace fr
#endif
