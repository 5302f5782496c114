// P17: parameter files. Every sequence of lines of a small but nasty alphabet, read
// from a file and from a buffer, against an independent reader written from the
// format's description; then every short sequence of set/get operations.
#include "mc.h"
#include "utils/config/ConfigMap.h"
#include <algorithm>
#include <sstream>

using std::string;
using std::vector;

static string lower(string s)
{
  for (auto & c : s)
    if (c >= 'A' && c <= 'Z')
      c = char(c - 'A' + 'a');
  return s;
}
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
static string trim(string s)
{
  while (!s.empty() && blank(s.back()))
    s.pop_back();
  size_t i = 0;
  while (i < s.size() && blank(s[i]))
    i++;
  return s.substr(i);
}
//! text up to an inline comment: a semicolon after a blank
static string uncomment(const string & s)
{
  for (size_t i = 1; i < s.size(); i++)
    if (s[i] == ';' && blank(s[i - 1]))
      return s.substr(0, i);
  return s;
}

struct Ref
{
  std::map<string, string> v;
  int                      error = 0;
  explicit Ref(const string & text)
  {
    string section, key;
    bool   have = false;
    size_t pos = 0;
    int    no = 0;
    while (pos < text.size())
    {
      size_t e = text.find('\n', pos);
      string l = text.substr(pos, e == string::npos ? string::npos : e - pos);
      pos = e == string::npos ? text.size() : e + 1;
      no++;
      string t = trim(l);
      if (t.empty() || t[0] == ';' || t[0] == '#')
        continue;
      if (have && blank(l[0]))
      { // continuation of the previous parameter: a further assignment to it
        v[key] = t;
        continue;
      }
      string u = uncomment(t);
      if (t[0] == '[')
      {
        size_t b = u.find(']');
        if (b == string::npos)
          error = error ? error : no;
        else
        {
          section = u.substr(1, b - 1);
          have = false;
        }
        continue;
      }
      size_t q = u.find('=');
      if (q == string::npos)
      {
        error = error ? error : no;
        continue;
      }
      string name = trim(u.substr(0, q));
      key = lower(section + "." + name);
      have = !name.empty();
      v[key] = trim(uncomment(t.substr(q + 1)));
    }
  }
};

static bool big;
//! integer in base 10 or 16, longest convertible prefix
static bool to_int(const string & s, long & r)
{
  size_t i = 0;
  bool   neg = false;
  while (i < s.size() && blank(s[i]))
    i++;
  if (i < s.size() && (s[i] == '-' || s[i] == '+'))
    neg = s[i++] == '-';
  long v = 0;
  int  n = 0, base = 10;
  if (i + 2 < s.size() + 0 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && isxdigit((unsigned char)s[i + 2]))
  {
    base = 16;
    i += 2;
  }
  for (; i < s.size(); i++, n++)
  {
    int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99;
    if (d >= base)
      break;
    v = v > 100000000000000000L ? v : v * base + d;
  }
  r = neg ? -v : v;
  big = v > 100000000000000000L;
  return n > 0;
}

struct Q
{
  string s, k;
};
static vector<Q> queries;
static uint64_t  lookups = 0;

static void
compare(const char * how, ConfigMap & c, const std::map<string, string> & v, bool check_error, int error)
{
  for (auto & q : queries)
  {
    auto   it = v.find(lower(q.s + "." + q.k));
    bool   has = it != v.end();
    string val = has ? it->second : string();
    lookups += 4;
    string got = c.getString(q.s, q.k, "<default>");
    if (got != (has ? val : "<default>"))
      mc::viol(string("lookup:") + how, mc::fmt("[%s] %s: got '%s', the file says '%s'", q.s.substr(0, 20).c_str(), q.k.substr(0, 20).c_str(), got.substr(0, 60).c_str(), has ? val.substr(0, 60).c_str() : "(absent)"));
    long li;
    bool ok = has && to_int(val, li);
    long gi = c.getInteger(q.s, q.k, -77);
    if (gi != (ok ? li : -77) && !(ok && big))
      mc::viol(string("getInteger:") + how, mc::fmt("'%s' as integer: got %ld", val.c_str(), gi));
    float              lf = 0;
    std::istringstream ss(val);
    bool               hex = val.find('x') != string::npos || val.find('X') != string::npos;
    string             num;
    if (!hex)
    {
      // sign, digits, point, digits, exponent
      size_t n = 0;
      auto   dig = [&](size_t i) { return i < val.size() && isdigit((unsigned char)val[i]); };
      if (n < val.size() && (val[n] == '-' || val[n] == '+'))
        n++;
      while (dig(n))
        n++;
      if (n < val.size() && val[n] == '.')
        n++;
      while (dig(n))
        n++;
      if (n && n < val.size() && (val[n] == 'e' || val[n] == 'E') && (isdigit((unsigned char)val[n - 1]) || n > 1))
      {
        size_t k = n + 1;
        if (k < val.size() && (val[k] == '-' || val[k] == '+'))
          k++;
        if (dig(k))
          for (n = k; dig(n);)
            n++;
      }
      num = val.substr(0, n);
    }
    float gf = c.getFloat(q.s, q.k, -77.5f);
    if (!hex && num.size() < 30)
    {
      bool digits = false;
      for (char ch : num.substr(0, num.find_first_of("eE")))
        digits |= isdigit((unsigned char)ch) != 0;
      float ef = -77.5f;
      if (has && digits)
      {
        std::istringstream is(num);
        is.imbue(std::locale::classic());
        is >> lf;
        ef = lf;
      }
      if (gf != ef)
        mc::viol(string("getFloat:") + how, mc::fmt("'%s' as float: got %g, expected %g", val.c_str(), gf, ef));
    }
    for (int d = 0; d < 2; d++)
    {
      bool e = d != 0;
      if (val == "1" || val == "yes" || val == "true" || val == "on")
        e = true;
      if (val == "0" || val == "no" || val == "false" || val == "off")
        e = false;
      if (c.getBool(q.s, q.k, d != 0) != e)
        mc::viol(string("getBool:") + how, mc::fmt("'%s' as boolean with default %d: got %d", val.c_str(), d, !e));
    }
  }
  if (check_error && c.ParseError() != error)
    mc::viol(string("error-line:") + how, mc::fmt("reported line %d, expected %d", c.ParseError(), error));
}

static string path;

static void
check_text(const string & text)
{
  Ref ref(text);
  {
    FILE * f = fopen(path.c_str(), "wb");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    ConfigMap c(path);
    compare("file", c, ref.v, true, ref.error);
  }
  {
    // exactly as long as the text: nothing may be read behind it
    char * b = new char[text.size() ? text.size() : 1];
    memcpy(b, text.data(), text.size());
    ConfigMap c(b, (int)text.size());
    delete[] b;
    compare("buffer", c, ref.v, true, ref.error);
  }
  mc::stat("executions", 2);
  uint64_t h = mc::hash_bytes(&ref.error, sizeof(int));
  for (auto & kv : ref.v)
    h = mc::hash_bytes(kv.second.data(), kv.second.size(), mc::hash_bytes(kv.first.data(), kv.first.size(), h));
  mc::state(h);
}

int
main(int argc, char ** argv)
{
  mc::init(argc, argv);
  path = mc::fmt("params-%d.ini", (int)getpid());
  const string L60(60, 's'), K60(60, 'k'), V300(300, '7'), pad(230, ' '), pad2(195, 'x');
  // one entry per line of text; the interesting ones are those that could disturb others
  vector<string> A = {
    "[a]",                            //
    "[B]",                            //
    "[b] trailing",                   //
    "[c ; no bracket",                // malformed
    "[" + L60 + "]",                  // long section name
    "k=1",                            //
    "K = 2 ; inline comment",         //
    "k=3;x",                          // no blank: part of the value
    "k=",                             //
    "k = ; only a comment",           //
    "l=0x1F",                         //
    "l = -2.5e1 trailing",            //
    "l=a=b",                          //
    "l = yes",                        //
    "=5",                             // empty name
    "junk",                           // malformed
    "junk ; k=9",                     // malformed: the assignment is in the comment
    "\tmore words",                   // continuation or, first in a section, malformed
    "  k=8",                          // continuation of the previous key, or a key
    "",                               //
    "   \t ",                         //
    "# k=4",                          //
    "; k=5",                          //
    "   ; k=6",                       // indented comment
    "l = off\r",                      // DOS line end
    "# " + pad2 + "xx k=99",          // a long comment with a parameter behind column 200
    "k = " + pad + "17",              // a long line
    K60 + " = 5",                     // a long key
    "l = " + V300,                    //
    "l=00.5",                         //
  };
  queries = { { "a", "k" }, { "A", "K" }, { "b", "k" }, { "", "k" }, { "a", "l" }, { "b", "L" }, { "", "l" }, { L60, "k" }, { L60.substr(0, 49), "k" }, { L60, "l" }, { "a", K60 }, { "", K60 }, { "a", "" }, { "", "" }, { "c", "k" }, { "a", "junk" }, { "", "x k" }, { "zz", "k" } };
  // values whose integer reading is base dependent or overflows are compared as text only
  auto num_ok = [&](const string & l) { return l.find(V300) == string::npos && l.find("00.5") == string::npos; };
  (void)num_ok;
  int       N = (int)A.size();
  const int depth = mc::A.thorough ? 4 : 3;
  vector<Q> all = queries;
  for (int d = 0; d <= depth; d++)
  {
    long count = 1;
    for (int i = 0; i < d; i++)
      count *= N;
    long chunk = 2000;
    for (long c0 = 0; c0 < count; c0 += chunk)
    {
      if (!mc::item(mc::fmt("line sequences of length %d from %ld", d, c0)))
        continue;
      for (long c = c0; c < std::min(count, c0 + chunk); c++)
      {
        string text;
        long   r = c;
        string desc = "lines";
        for (int i = 0; i < d; i++, r /= N)
        {
          text += A[r % N] + "\n";
          desc += " " + std::to_string(r % N) + ":'" + A[r % N].substr(0, 24) + "'";
        }
        mc::cur_desc = desc;
        mc::stat("transitions", d);
        check_text(text);
        if (d && c % 7 == 0)
        { // last line not terminated
          text.pop_back();
          check_text(text);
        }
        if (c == c0)
          mc::sample(desc);
      }
    }
  }
  // conversions: every short string over a number-like alphabet, as a value
  {
    const char * S = "0179-+.eExaF \t;#";
    int          n = (int)strlen(S), len = mc::A.thorough ? 5 : 4;
    queries = { { "s", "v" }, { "s", "w" } };
    for (int a0 = 0; a0 < n; a0++)
    {
      if (!mc::item(mc::fmt("values starting with '%c'", S[a0])))
        continue;
      long count = 1;
      for (int i = 1; i < len; i++)
        count *= n;
      for (long c = 0; c < count; c++)
      {
        string v(1, S[a0]);
        long   r = c;
        for (int i = 1; i < len; i++, r /= n)
          v += S[r % n];
        // octal and exponents out of range are not part of the documented format
        string t = trim(uncomment(v));
        size_t i = t.find_first_of("0123456789");
        if (i != string::npos && t[i] == '0' && i + 1 < t.size() && (isdigit((unsigned char)t[i + 1])))
          continue;
        if (t.find_first_of("xX") != string::npos && (i == string::npos || t[i] != '0'))
          ;
        if (t.find_first_of("eE") != string::npos && t.size() > t.find_first_of("eE") + 2)
          continue;
        mc::cur_desc = "value '" + v + "'";
        mc::stat("transitions", 1);
        check_text("[s]\nv=" + v + "\nw=0x2A\n");
      }
    }
  }
  // set/get histories on one object
  {
    queries = { { "a", "k" }, { "A", "K" }, { "b", "l" } };
    struct Op
    {
      const char * d;
      void (*f)(ConfigMap &);
      const char *key, *val;
    };
    vector<Op> ops = {
      { "setInteger a.k -12", [](ConfigMap & c) { c.setInteger("a", "k", -12); }, "a.k", "-12" },
      { "setFloat A.K 0.25", [](ConfigMap & c) { c.setFloat("A", "K", 0.25f); }, "a.k", "0.25" },
      { "setBool a.K true", [](ConfigMap & c) { c.setBool("a", "K", true); }, "a.k", "true" },
      { "setBool b.l false", [](ConfigMap & c) { c.setBool("b", "l", false); }, "b.l", "false" },
      { "setString b.l x", [](ConfigMap & c) { c.setString("b", "l", "x y"); }, "b.l", "x y" },
      { "setString b.L empty", [](ConfigMap & c) { c.setString("b", "L", ""); }, "b.l", "" },
      { "setInteger b.l 7", [](ConfigMap & c) { c.setInteger("b", "l", 7); }, "b.l", "7" },
      { "setString a.k 3", [](ConfigMap & c) { c.setString("a", "k", "3"); }, "a.k", "3" },
    };
    int  len = mc::A.thorough ? 6 : 4, n = (int)ops.size();
    long count = 1;
    for (int i = 0; i < len; i++)
      count *= n;
    for (long c0 = 0; c0 < count; c0 += 512)
    {
      if (!mc::item(mc::fmt("set/get histories from %ld", c0)))
        continue;
      for (long c = c0; c < std::min(count, c0 + 512); c++)
      {
        string text = "[a]\nk=1\n";
        char * b = const_cast<char *>(text.data());
        ConfigMap                m(b, (int)text.size());
        std::map<string, string> ref = { { "a.k", "1" } };
        long                     r = c;
        mc::cur_desc = "history";
        for (int i = 0; i < len; i++, r /= n)
        {
          mc::cur_desc += string(" ; ") + ops[r % n].d;
          ops[r % n].f(m);
          ref[ops[r % n].key] = ops[r % n].val;
          compare("after set", m, ref, false, 0);
          mc::stat("transitions", 1);
        }
        mc::stat("executions", 1);
      }
    }
  }
  // unreadable files
  if (mc::item("missing file"))
  {
    queries = all;
    ConfigMap c(string("does/not/exist.ini"));
    compare("missing", c, {}, true, -1);
    ConfigMap d(string(""));
    compare("missing", d, {}, true, -1);
    mc::stat("executions", 2);
  }
  mc::stat("lookups", lookups);
  unlink(path.c_str());
  return mc::done();
}
