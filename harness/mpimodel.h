// Explicit-state model of a distributed run: the communication programs of the
// ranks (recorded from the real code) under every interleaving, every choice of
// buffering and every release order of the collectives. Bound to the code by
// replaying its paths (conform): at each decision the transitions the model
// allows must be exactly those of the real execution.
#ifndef MPIMODEL_H_
#define MPIMODEL_H_
#include "mpirt.h"
#include <unordered_map>
#include <unordered_set>

namespace mpx
{
struct Program
{
  struct Pair
  {
    int srank, spos, sreq, swait, rrank, rpos, rreq, rwait, mode, prev;
  };
  struct Coll_
  {
    vector<std::pair<int, int>> at; // (rank, position) of each member
    int                         ck, root;
  };
  int                         n;
  vector<vector<Act>>         tr;
  vector<Pair>                pairs;
  vector<Coll_>               colls;
  vector<vector<int>>         coll_at, seq_at; // rank, position -> collective, its number on the communicator
  vector<vector<vector<int>>> waits;           // rank, position -> pairs (2*pair + side)
  vector<vector<vector<int>>> open_sends, open_recvs; // rank, blocking position -> pairs
  string                      error;
  bool                        unsupported = false;

  Program(const vector<vector<Act>> & traces, const vector<vector<int>> & members)
    : n(traces.size())
    , tr(traces)
  {
    using Key = std::tuple<int, int, int, int>;
    std::map<Key, vector<std::pair<int, int>>> S_, R_; // channel -> (rank, position)
    vector<std::map<int, int>>                 wait_of(n);
    coll_at.resize(n), seq_at.resize(n), waits.resize(n), open_sends.resize(n), open_recvs.resize(n);
    std::map<std::pair<int, int>, int> inst;
    for (int r = 0; r < n; r++)
    {
      auto & T = tr[r];
      coll_at[r].assign(T.size(), -1), seq_at[r].assign(T.size(), -1), waits[r].resize(T.size());
      std::map<int, int> seq;
      for (size_t p = 0; p < T.size(); p++)
      {
        auto & a = T[p];
        if (a.kind == K_SEND)
          S_[Key(r, a.peer, a.ctx, a.tag)].push_back({ r, (int)p });
        else if (a.kind == K_RECV)
        {
          if (a.peer < 0 || a.tag < 0)
            unsupported = true;
          R_[Key(a.peer, r, a.ctx, a.tag)].push_back({ r, (int)p });
        }
        else if (a.kind == K_WAIT)
          for (int q : a.reqs)
            wait_of[r][q] = p;
        else if (a.kind == K_COLL)
        {
          int                 s = seq[a.ctx]++;
          std::pair<int, int> key(a.ctx == 1 ? -1 - r : a.ctx, s);
          if (!inst.count(key))
          {
            inst[key] = colls.size();
            Coll_ c;
            c.ck = a.ck;
            c.root = -1;
            auto m = a.ctx == 1 ? vector<int>{ r } : members[a.ctx];
            for (size_t i = 0; i < m.size(); i++)
              c.at.push_back({ m[i], 1 << 30 });
            c.root = a.root;
            colls.push_back(c);
          }
          int id = inst[key];
          coll_at[r][p] = id;
          seq_at[r][p] = s;
          for (auto & x : colls[id].at)
            if (x.first == r)
              x.second = p;
        }
      }
    }
    auto W = [&](int r, int pos) {
      auto it = wait_of[r].find(tr[r][pos].req);
      return it == wait_of[r].end() ? 1 << 30 : it->second;
    };
    for (auto & kv : S_)
    {
      auto & rv = R_[kv.first];
      int    prev = -1;
      if (rv.size() != kv.second.size())
        error = "unmatched messages";
      for (size_t k = 0; k < kv.second.size() && k < rv.size(); k++)
      {
        auto   s = kv.second[k], d = rv[k];
        auto & a = tr[s.first][s.second];
        Pair   P{ s.first, s.second, a.req, W(s.first, s.second), d.first, d.second, tr[d.first][d.second].req, W(d.first, d.second), a.mode, prev };
        prev = pairs.size();
        if (P.swait < 1 << 30)
          waits[P.srank][P.swait].push_back(2 * prev);
        if (P.rwait < 1 << 30)
          waits[P.rrank][P.rwait].push_back(2 * prev + 1);
        pairs.push_back(P);
      }
    }
    for (int r = 0; r < n; r++)
    {
      open_sends[r].resize(tr[r].size() + 1);
      open_recvs[r].resize(tr[r].size() + 1);
    }
    for (size_t k = 0; k < pairs.size(); k++)
    {
      auto & P = pairs[k];
      for (int p = P.spos + 1; p <= std::min<int>(P.swait, tr[P.srank].size()); p++)
        open_sends[P.srank][p].push_back(k);
    }
  }
};

struct MState
{
  vector<int>        pc;    // blocking call each rank is at (length of its program: ended)
  std::map<int, int> flags; // pair -> 1 buffered, 2 matched
  string             key() const
  {
    string s;
    for (int p : pc)
      s.append((char *)&p, 2);
    for (auto & f : flags)
    {
      uint16_t v = f.first;
      s.append((char *)&v, 2);
      s += (char)f.second;
    }
    return s;
  }
};

struct Model
{
  const Program & P;
  bool            buffering, early;
  Model(const Program & p, bool b = true, bool e = true)
    : P(p)
    , buffering(b)
    , early(e)
  {}
  bool done(const MState & s, int w) const
  {
    auto it = s.flags.find(w / 2);
    int  f = it == s.flags.end() ? 0 : it->second;
    return w & 1 ? f == 2 : f != 0;
  }
  //! run rank r from position p to its next blocking call that cannot complete
  void advance(MState & s, int r, int p) const
  {
    auto & T = P.tr[r];
    for (;; p++)
    {
      s.pc[r] = p;
      if (p >= (int)T.size())
        return;
      if (T[p].kind == K_COLL)
        return;
      if (T[p].kind == K_WAIT)
        for (int w : P.waits[r][p])
          if (!done(s, w))
            return;
    }
  }
  void bsends(MState & s) const
  {
    for (size_t k = 0; k < P.pairs.size(); k++)
      if (P.pairs[k].mode == M_BUF && s.pc[P.pairs[k].srank] > P.pairs[k].spos && !s.flags.count(k) && !was_matched(s, k))
        s.flags[k] = 1;
  }
  MState start() const
  {
    MState s;
    s.pc.assign(P.n, 0);
    for (int r = 0; r < P.n; r++)
      advance(s, r, 0);
    bsends_if(s);
    return s;
  }
  bool was_matched(const MState & s, int k) const
  {
    auto & p = P.pairs[k];
    auto   it = s.flags.find(k);
    if (it != s.flags.end())
      return it->second == 2;
    return s.pc[p.srank] > p.swait && s.pc[p.rrank] > p.rwait;
  }
  vector<Trans> enabled(const MState & s) const
  {
    vector<Trans> e;
    auto          send = [&](int k) {
      auto & p = P.pairs[k];
      auto   it = s.flags.find(k);
      int    f = it == s.flags.end() ? 0 : it->second;
      if (f == 2)
        return;
      if (s.pc[p.rrank] > p.rpos && (p.prev < 0 || was_matched(s, p.prev)))
        e.push_back({ Trans::MATCH, p.srank, p.sreq, p.rrank, p.rreq });
      if (f == 0 && buffering && p.mode != M_SYNC)
        e.push_back({ Trans::BUFFER, p.srank, p.sreq, 0, 0 });
    };
    for (auto & f : s.flags)
      if (f.second == 1)
        send(f.first);
    for (int r = 0; r < P.n; r++)
    {
      for (int k : P.open_sends[r][s.pc[r]])
        if (!s.flags.count(k))
          send(k);
      if (s.pc[r] >= (int)P.tr[r].size() || P.coll_at[r][s.pc[r]] < 0)
        continue;
      auto & c = P.colls[P.coll_at[r][s.pc[r]]];
      bool   all = true, root_in = false;
      for (auto & x : c.at)
      {
        bool in = s.pc[x.first] >= x.second;
        all = all && in;
        if (x.first == c.root)
          root_in = in;
      }
      int q = P.seq_at[r][s.pc[r]];
      if (all)
        e.push_back({ Trans::COLL, r, q, 0, 0 });
      else if (early && (((c.ck == C_BCAST || c.ck == C_SCATTER) && root_in) || ((c.ck == C_REDUCE || c.ck == C_GATHER) && r != c.root)))
        e.push_back({ Trans::COLL_EARLY, r, q, 0, 0 });
    }
    std::sort(e.begin(), e.end());
    return e;
  }
  mutable std::unordered_map<long, int> pair_ix;
  MState fire(MState s, const Trans & t) const
  {
    if (pair_ix.empty())
      for (size_t k = 0; k < P.pairs.size(); k++)
        pair_ix[(long)P.pairs[k].srank << 32 | P.pairs[k].sreq] = k;
    if (t.t == Trans::MATCH || t.t == Trans::BUFFER)
    {
      int    k = pair_ix.at((long)t.a << 32 | t.ra);
      auto & p = P.pairs[k];
      s.flags[k] = t.t == Trans::MATCH ? 2 : 1;
      advance_wait(s, p.srank);
      if (t.t == Trans::MATCH)
        advance_wait(s, p.rrank);
    }
    else
      advance(s, t.a, s.pc[t.a] + 1);
    bsends_if(s);
    for (auto it = s.flags.begin(); it != s.flags.end();)
    {
      auto & p = P.pairs[it->first];
      if (it->second == 2 && s.pc[p.srank] > p.swait && s.pc[p.rrank] > p.rwait)
        it = s.flags.erase(it);
      else
        ++it;
    }
    return s;
  }
  void advance_wait(MState & s, int r) const
  {
    int p = s.pc[r];
    if (p < (int)P.tr[r].size() && P.tr[r][p].kind == K_WAIT)
      advance(s, r, p);
  }
  void bsends_if(MState & s) const
  {
    for (auto & p : P.pairs)
      if (p.mode == M_BUF)
      {
        bsends(s);
        for (int r = 0; r < P.n; r++)
          advance_wait(s, r);
        return;
      }
  }
  bool finished(const MState & s) const
  {
    for (int r = 0; r < P.n; r++)
      if (s.pc[r] < (int)P.tr[r].size())
        return false;
    return true;
  }
  string stuck(const MState & s) const
  {
    string o;
    for (int r = 0; r < P.n; r++)
    {
      o += mc::fmt("; process %d ", r);
      if (s.pc[r] >= (int)P.tr[r].size())
        o += "has ended";
      else if (P.tr[r][s.pc[r]].kind == K_COLL)
        o += "is in " + P.tr[r][s.pc[r]].show();
      else
        for (int w : P.waits[r][s.pc[r]])
          if (!done(s, w))
          {
            auto & p = P.pairs[w / 2];
            o += w & 1 ? mc::fmt("waits for a message of %d ", p.srank) : mc::fmt("waits to send to %d ", p.rrank);
          }
    }
    return o;
  }
  struct Res
  {
    long   states = 0, trans = 0, deadlocks = 0, ends = 0;
    bool   complete = true;
    string what;
    vector<Trans> path;
  };
  //! every reachable state
  Res search(long cap) const
  {
    Res                                   res;
    std::unordered_map<string, long>      seen; // key -> number
    vector<std::pair<long, Trans>>        from; // state -> predecessor
    std::deque<std::pair<long, MState>>   todo;
    MState                                s0 = start();
    seen[s0.key()] = 0;
    from.push_back({ -1, Trans() });
    todo.push_back({ 0, s0 });
    while (!todo.empty())
    {
      auto id = todo.back().first;
      auto s = std::move(todo.back().second);
      todo.pop_back();
      res.states++;
      auto e = enabled(s);
      bool must = false;
      for (auto & t : e)
        must = must || !t.optional();
      if (finished(s))
        res.ends++;
      else if (!must)
      {
        if (!res.deadlocks++)
        {
          res.what = stuck(s);
          for (long i = id; i > 0; i = from[i].first)
            res.path.push_back(from[i].second);
          std::reverse(res.path.begin(), res.path.end());
        }
      }
      for (auto & t : e)
      {
        MState z = fire(s, t);
        res.trans++;
        auto ins = seen.insert({ z.key(), (long)from.size() });
        if (ins.second)
        {
          from.push_back({ id, t });
          todo.push_back({ ins.first->second, std::move(z) });
        }
      }
      if ((long)seen.size() > cap)
      {
        res.complete = false;
        break;
      }
    }
    return res;
  }
};

//! policy following the model; says where the real execution departs from it
struct Follow
{
  Model                                                   m;
  MState                                                  s;
  std::function<int(int step, const vector<Trans> & e)>   pick;
  int                                                     step = 0;
  string                                                  mismatch;
  Follow(const Program & P, std::function<int(int, const vector<Trans> &)> f)
    : m(P)
    , s(m.start())
    , pick(f)
  {}
  int operator()(const Net &, const vector<Trans> & e)
  {
    vector<Trans> real = e, mod = m.enabled(s);
    std::sort(real.begin(), real.end());
    if (!(real == mod))
    {
      auto show = [](const vector<Trans> & v) {
        string o;
        for (auto & t : v)
          o += " [" + t.show() + "]";
        return o;
      };
      mismatch = mc::fmt("decision %d: the real execution allows", step) + show(real) + ", the model" + show(mod);
      return -1;
    }
    int c = pick(step++, real);
    if (c < 0)
      return -1;
    s = m.fire(s, real[c]);
    for (size_t k = 0; k < e.size(); k++)
      if (e[k] == real[c])
        return k;
    return -1;
  }
};

} // namespace mpx
#endif
