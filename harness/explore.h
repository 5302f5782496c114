// All schedules of one distributed run: default run, every state of its model,
// and replays of model paths on the real code.
#ifndef EXPLORE_H_
#define EXPLORE_H_
#include "mpimodel.h"

namespace mpx
{
struct Bounds
{
  bool buffering = true;   // explore buffering and early release of collectives (else rendezvous only)
  long cap = 2000000;      // states
  int  deviations = 1;     // replay every schedule with at most this many departures from the default
  int  policies = 6;       // replay this many uniform schedules
  long max_replays = 1 << 30;
};

inline int
policy(int which, int step, const vector<Trans> & e)
{
  int n = e.size();
  auto last = [&](int kind) {
    for (int k = n - 1; k >= 0; k--)
      if (e[k].t == kind)
        return k;
    return -1;
  };
  auto first = [&](int kind) {
    for (int k = 0; k < n; k++)
      if (e[k].t == kind)
        return k;
    return -1;
  };
  switch (which)
  {
    case 0: // last transfer first
      return n - 1;
    case 1: // buffer everything, transfer as late as possible
    {
      int k = first(Trans::BUFFER);
      if (k < 0)
        k = first(Trans::COLL_EARLY);
      if (k < 0)
        k = last(Trans::COLL);
      return k < 0 ? 0 : k;
    }
    case 2: // rendezvous, highest rank first
    {
      int k = last(Trans::MATCH);
      if (k < 0)
        k = last(Trans::COLL);
      return k < 0 ? 0 : k;
    }
    case 3: // collectives released one after the other, early where possible
    {
      int k = last(Trans::COLL_EARLY);
      if (k < 0)
        k = first(Trans::COLL);
      return k < 0 ? 0 : k;
    }
    case 4: // middle
      return n / 2;
    default: // in turn
      return step % n;
  }
}

//! body: what each rank runs; snapshot: digest of the results
inline bool
explore(const string & tag, const string & desc, int np, const vector<int> & perm, const std::function<int(int)> & body, const std::function<uint64_t()> & snapshot, const Bounds & B, bool need_finalize = false,
        const std::function<void()> & reset = {})
{
  auto world = [&]() {
    World w(np);
    w.perm = perm;
    w.record = true;
    w.need_finalize = need_finalize;
    return w;
  };
  auto vio = [&](const string & k, const string & m) {
    mc::viol(tag + ":" + k, desc + ": " + m);
    return false;
  };
  if (reset)
    reset();
  World   w0 = world();
  Outcome o0 = w0.run(body);
  if (!o0.error.empty())
    return vio(o0.kind, o0.error);
  uint64_t h0 = snapshot();
  auto     sigs = [](const Outcome & o) {
    uint64_t h = 0;
    for (auto & t : o.trace)
      for (auto & a : t)
      {
        string s = a.sig();
        h = h * 1099511628211ull + mc::hash_bytes(s.data(), s.size());
      }
    return h;
  };
  uint64_t t0 = sigs(o0);
  Program  P(o0.trace, o0.members);
  bool     modelled = !P.unsupported && P.error.empty();
  if (!modelled)
    mc::stat("runs_without_model");
  auto replay = [&](const string & how, const std::function<int(int, const vector<Trans> &)> & pick) {
    if (reset)
      reset();
    World                   w = world();
    std::shared_ptr<Follow> f;
    int                     step = 0;
    if (modelled)
    {
      f = std::make_shared<Follow>(P, pick);
      w.choose = [f](const Net & n, const vector<Trans> & e) { return (*f)(n, e); };
    }
    else
      w.choose = [&](const Net &, const vector<Trans> & e) {
        vector<Trans> s = e;
        std::sort(s.begin(), s.end());
        int c = pick(step++, s);
        for (size_t k = 0; k < e.size(); k++)
          if (c >= 0 && e[k] == s[c])
            return (int)k;
        return -1;
      };
    Outcome o = w.run(body);
    mc::stat("replays");
    if (f && !f->mismatch.empty())
    {
      if (!P.unsupported)
        return vio("conformance", how + ": " + f->mismatch);
    }
    if (!o.error.empty())
      return vio(o.kind, how + ": " + o.error);
    if (snapshot() != h0)
      return vio("result", how + ": the results depend on the schedule");
    if (modelled && sigs(o) != t0)
      return vio("program", how + ": the calls a process makes depend on the schedule");
    mc::stat("replays_conforming");
    return true;
  };
  if (modelled)
  {
    for (int mode = 0; mode < (B.buffering ? 2 : 1); mode++)
    {
      Model       m(P, mode, mode);
      Model::Res  r = m.search(B.cap);
      const char * nm = mode ? "buffered" : "rendezvous";
      mc::stat(mc::fmt("states_%s", nm).c_str(), r.states);
      mc::stat(mc::fmt("transitions_%s", nm).c_str(), r.trans);
      mc::model_states += r.states;
      mc::maxstat(mc::fmt("largest_%s", nm).c_str(), r.states);
      mc::stat(r.complete ? mc::fmt("models_complete_%s", nm).c_str() : mc::fmt("models_cut_%s", nm).c_str());
      if (r.deadlocks)
      {
        auto path = r.path;
        vio("deadlock", mc::fmt("%ld reachable deadlocks; after %d transfers", r.deadlocks, (int)path.size()) + r.what);
        return false;
      }
    }
  }
  // uniform policies
  for (int p = 0; p < B.policies; p++)
    if (!replay(mc::fmt("schedule policy %d", p), [p](int s, const vector<Trans> & e) { return policy(p, s, e); }))
      return false;
  if (B.deviations < 1)
    return true;
  // the default schedule of replays is the first enabled transition
  vector<int> nch;
  {
    vector<int> * v = &nch;
    if (!replay("default schedule", [v](int, const vector<Trans> & e) {
          v->push_back(e.size());
          return 0;
        }))
      return false;
  }
  long done = 0;
  for (size_t k = 0; k < nch.size(); k++)
    for (int j = 1; j < nch[k]; j++)
    {
      if (++done > B.max_replays)
        return true;
      vector<int> later;
      auto *      v = &later;
      if (!replay(mc::fmt("departure %d at decision %d", j, (int)k), [k, j, v](int s, const vector<Trans> & e) {
            if (s > (int)k)
              v->push_back(e.size());
            return s == (int)k ? std::min<int>(j, e.size() - 1) : 0;
          }))
        return false;
      if (B.deviations >= 2)
        for (size_t q = 0; q < later.size(); q++)
          for (int i = 1; i < later[q]; i++)
          {
            if (++done > B.max_replays)
              return true;
            size_t k2 = k + 1 + q;
            if (!replay(mc::fmt("departures %d at decision %d, %d at decision %d", j, (int)k, i, (int)k2), [k, j, k2, i](int s, const vector<Trans> & e) {
                  return s == (int)k ? std::min<int>(j, e.size() - 1) : s == (int)k2 ? std::min<int>(i, e.size() - 1) : 0;
                }))
              return false;
          }
    }
  return true;
}
} // namespace mpx
#endif
