// Common part of all exhaustive harnesses: work items, sharding, state hashing,
// protocol with lib/mck.py, crash and hang capture.
#ifndef MC_H_
#define MC_H_
#include <malloc.h>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

#include <Kokkos_Core.hpp>

namespace mc
{

struct Args
{
  int                                shard = 0, nshards = 1;
  long                               only = -1;
  bool                               thorough = false;
  unsigned                           seed = 1;
  std::map<std::string, std::string> opt;
  std::string                        get(const std::string & k, const std::string & d = "") const
  {
    auto it = opt.find(k);
    return it == opt.end() ? d : it->second;
  }
};

inline Args                            A;
inline FILE *                          out = nullptr;
inline long                            cur_item = -1;
inline std::string                     cur_desc;
inline std::map<std::string, uint64_t> stats;
inline std::map<std::string, double>   maxstats;
inline std::unordered_set<uint64_t>    seen;
inline unsigned long long model_states = 0; // states of explicit models, counted by their own search
inline std::map<std::string, int>      viol_count;
inline int                             nsamples = 0;
inline unsigned                        hang_s = 120;

inline std::string
fmt(const char * f, ...)
{
  char    b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

inline std::string
oneline(std::string s)
{
  for (auto & c : s)
    if (c == '\n' || c == '\r')
      c = ' ';
  return s;
}

inline void
viol(const std::string & key, const std::string & msg)
{
  int & n = viol_count[key];
  if (++n > 3)
    return;
  fprintf(out, "VIOL %ld %s|%s\n", cur_item, oneline(key).c_str(), oneline("[" + cur_desc + "] " + msg).c_str());
  fflush(out);
}

inline void
stat(const char * k, uint64_t n = 1)
{
  stats[k] += n;
}
inline void
maxstat(const char * k, double v)
{
  double & m = maxstats[k];
  if (v > m)
    m = v;
}
inline void
sample(const std::string & s)
{
  if (nsamples++ < 2)
    fprintf(out, "SAMPLE %s\n", oneline(s).c_str());
}

inline uint64_t
hash_bytes(const void * p, size_t n, uint64_t h = 1469598103934665603ull)
{
  const unsigned char * c = (const unsigned char *)p;
  while (n >= 8)
  {
    uint64_t w;
    memcpy(&w, c, 8);
    h = (h ^ w) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    c += 8;
    n -= 8;
  }
  while (n--)
    h = (h ^ *c++) * 1099511628211ull;
  return h ^ (h >> 32);
}
//! a state reached by the exploration
inline bool
state(uint64_t h)
{
  return seen.insert(h).second;
}

inline std::string crash_key = "crash";

inline void
dump()
{
  for (auto & kv : stats)
    fprintf(out, "STAT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
  for (auto & kv : maxstats)
    fprintf(out, "MAXSTAT %s %.6g\n", kv.first.c_str(), kv.second);
  fprintf(out, "STAT states %llu\n", (unsigned long long)(seen.size() + model_states));
}

inline void
on_signal(int s)
{
  const char * what = s == SIGALRM ? "hang" : "crash";
  fprintf(out, "VIOL %ld %s:sig%d|[%s] signal %d\n", cur_item, what, s, oneline(cur_desc).c_str(), s);
  fflush(out);
  _exit(3);
}
inline void
on_oob(const char * label, int dim, long long idx, long long ext)
{
  fprintf(out, "VIOL %ld out-of-bounds:%s|[%s] index[%d]=%lld of view '%s' out of range [0,%lld)\n", cur_item, label, oneline(cur_desc).c_str(), dim, idx, label, ext);
  fflush(out);
  _exit(3);
}
inline void
on_terminate()
{
  std::string w = "terminate";
  if (auto e = std::current_exception())
  {
    try
    {
      std::rethrow_exception(e);
    }
    catch (std::exception & x)
    {
      w = x.what();
    }
    catch (...)
    {
    }
  }
  fprintf(out, "VIOL %ld exception|[%s] %s\n", cur_item, oneline(cur_desc).c_str(), oneline(w).c_str());
  fflush(out);
  _exit(3);
}

inline void
init(int argc, char ** argv)
{
  mallopt(M_MMAP_THRESHOLD, 1 << 28); // large blocks are reused, not mapped each time
  mallopt(M_TRIM_THRESHOLD, 1 << 28);
  int fd = dup(1);
  out = fdopen(fd, "w");
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  if (!getenv("MC_STDERR"))
    dup2(nul, 2);
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--shard")
      A.shard = atoi(argv[++i]);
    else if (a == "--nshards")
      A.nshards = atoi(argv[++i]);
    else if (a == "--item")
      A.only = atol(argv[++i]);
    else if (a.rfind("--", 0) == 0 && i + 1 < argc)
    {
      A.opt[a.substr(2)] = argv[i + 1];
      i++;
    }
  }
  if (const char * t = getenv("VERIF_TIER"))
    A.thorough = !strcmp(t, "thorough");
  if (const char * t = getenv("VERIF_SEED"))
    A.seed = atoi(t);
  for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
    signal(s, on_signal);
  std::set_terminate(on_terminate);
  mck::rt().on_oob = on_oob;
}

//! next work item: true if this process is to do it
inline long item_counter = 0;
inline bool
item(const std::string & desc)
{
  long k = item_counter++;
  if (A.only >= 0 ? k != A.only : (k % A.nshards) != A.shard)
    return false;
  cur_item = k;
  cur_desc = desc;
  alarm(hang_s);
  stat("items");
  return true;
}
inline int
done()
{
  alarm(0);
  dump();
  fprintf(out, "DONE\n");
  fflush(out);
  _exit(0);
}

} // namespace mc
#endif
