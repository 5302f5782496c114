// footprints of kernel iterations: conflicting accesses between two iterations
#ifndef RACES_H_
#define RACES_H_
#include "mc.h"
#include <unordered_map>
namespace races
{
struct Shadow
{
  long first = -1;      // first iteration that accessed it
  bool shared = false;  // accessed by another one too
  bool written = false; // value changed by a plain access
  bool plain = false;   // accessed non atomically
  bool awrite = false;
};
inline std::unordered_map<const char *, Shadow> shadow;
inline std::string                              kname;
inline long                                     knum;
inline void
k_begin(const char * name, long n)
{
  shadow.clear();
  kname = name;
  knum = n;
}
inline void
k_iter(long it)
{
  mc::stat("iterations");
  for (auto & t : mck::rt().touched)
  {
    Shadow & s = shadow[t.addr];
    if (s.first < 0)
      s.first = it;
    else if (s.first != it)
      s.shared = true;
    bool plain = t.atomics < t.accesses;
    if (plain)
      s.plain = true;
    if (t.atomics)
      s.awrite = true;
    uint64_t now = 0;
    memcpy(&now, t.addr, t.size > 8 ? 8 : t.size);
    if (plain && now != t.before)
      s.written = true;
  }
}
inline void
k_end(const char * name, long n)
{
  mc::stat("kernels");
  mc::stat("pairs", (uint64_t)n * (n - 1) / 2);
  for (auto & kv : shadow)
    if (kv.second.shared && kv.second.plain && (kv.second.written || kv.second.awrite))
      mc::viol("race:" + kname, mc::fmt("kernel '%s' (%ld iterations): an iteration writes memory that another one accesses (first access by iteration %ld)", kname.c_str(), n, kv.second.first));
  shadow.clear();
}
inline void
on(bool track)
{
  auto & rt = mck::rt();
  rt.on_kernel_begin = k_begin, rt.on_iteration_end = k_iter, rt.on_kernel_end = k_end;
  rt.track = track;
}
} // namespace races
#endif
