// Distributed runs under a controlled scheduler.
//  - rank side: the MPI calls of shim/mpi/mpi.h; each rank is a forked process
//    whose calls become requests to the controller (its parent);
//  - Net: the message-passing semantics. Which message is transferred next,
//    whether a send is buffered or waits for its receiver (rendezvous), and
//    when a collective releases each process are decisions of the explorer;
//  - World: one distributed execution of a given function under a given policy.
// Nothing runs concurrently: exactly one rank computes at any time, so that an
// execution is determined by its sequence of decisions.
#ifndef MPIRT_H_
#define MPIRT_H_
#include "mc.h"
#include <mpi.h>
#include <algorithm>
#include <deque>
#include <functional>
#include <memory>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>

namespace mpx
{
using std::string;
using std::vector;

enum Kind
{
  K_SEND = 1,
  K_RECV,
  K_WAIT,
  K_COLL,
  K_ERROR,   // erroneous use of MPI; text in blobs[0]
  K_ABORT
};
enum Coll
{
  C_BARRIER = 1,
  C_BCAST,
  C_REDUCE,
  C_ALLREDUCE,
  C_SCAN,
  C_GATHER,
  C_ALLGATHER,
  C_SCATTER,
  C_ALLTOALL,
  C_CART,
  C_DUP,
  C_FINALIZE
};
inline const char *
coll_name(int c)
{
  const char * n[] = { "?", "Barrier", "Bcast", "Reduce", "Allreduce", "Scan", "Gather", "Allgather", "Scatter", "Alltoall", "Cart_create", "Comm_dup", "Finalize" };
  return c >= 1 && c <= 12 ? n[c] : n[0];
}
enum Mode
{
  M_STD = 0,
  M_SYNC,
  M_BUF,
  M_READY
};

//! one request of a rank
struct Act
{
  int            kind = 0, req = 0, peer = 0, ctx = 0, tag = 0, type = 0, mode = 0;
  int            ck = 0, root = 0, op = 0;
  long           count = 0;
  vector<int>    reqs;
  vector<string> blobs;
  int            blob_type = 0;
  string         show() const
  {
    switch (kind)
    {
      case K_SEND:
        return mc::fmt("send(to %d, tag %d, %ld of type %x, comm %d%s)", peer, tag, count, type, ctx, mode == M_SYNC ? ", synchronous" : "");
      case K_RECV:
        return mc::fmt("recv(from %d, tag %d, %ld of type %x, comm %d)", peer, tag, count, type, ctx);
      case K_WAIT:
        return "wait";
      case K_COLL:
        return mc::fmt("%s(comm %d, root %d, %ld of type %x, op %d)", coll_name(ck), ctx, root, count, type, op);
      case K_ABORT:
        return "abort";
    }
    return "error: " + (blobs.empty() ? string() : blobs[0]);
  }
  //! everything but the payload
  string sig() const
  {
    string s = mc::fmt("%d/%d/%d/%d/%d/%d/%d/%d/%d/%d/%ld:", kind, req, peer, ctx, tag, type, mode, ck, root, op, count);
    for (int r : reqs)
      s += mc::fmt("%d,", r);
    return s;
  }
};

// ------------------------------------------------------------ wire format
struct Buf
{
  string s;
  size_t p = 0;
  void   i(long v) { s.append((char *)&v, sizeof v); }
  void   b(const string & x)
  {
    i(x.size());
    s += x;
  }
  long gi()
  {
    long v;
    memcpy(&v, s.data() + p, sizeof v);
    p += sizeof v;
    return v;
  }
  string gb()
  {
    long   n = gi();
    string x = s.substr(p, n);
    p += n;
    return x;
  }
};
inline bool
wr(int fd, const char * p, size_t n)
{
  while (n)
  {
    ssize_t k = send(fd, p, n, MSG_NOSIGNAL);
    if (k <= 0)
      return false;
    p += k, n -= k;
  }
  return true;
}
inline bool
rd(int fd, char * p, size_t n)
{
  while (n)
  {
    ssize_t k = read(fd, p, n);
    if (k <= 0)
      return false;
    p += k, n -= k;
  }
  return true;
}
inline bool
put(int fd, const Buf & b)
{
  long n = b.s.size();
  return wr(fd, (char *)&n, sizeof n) && wr(fd, b.s.data(), n);
}
inline bool
take(int fd, Buf & b)
{
  long n;
  b.p = 0;
  if (!rd(fd, (char *)&n, sizeof n))
    return false;
  b.s.resize(n);
  return rd(fd, &b.s[0], n);
}
inline Buf
encode(const Act & a)
{
  Buf b;
  for (long v : { (long)a.kind, (long)a.req, (long)a.peer, (long)a.ctx, (long)a.tag, (long)a.type, (long)a.mode, (long)a.ck, (long)a.root, (long)a.op, a.count, (long)a.blob_type, (long)a.reqs.size() })
    b.i(v);
  for (int r : a.reqs)
    b.i(r);
  b.i(a.blobs.size());
  for (auto & x : a.blobs)
    b.b(x);
  return b;
}
inline Act
decode(Buf & b)
{
  Act a;
  a.kind = b.gi(), a.req = b.gi(), a.peer = b.gi(), a.ctx = b.gi(), a.tag = b.gi(), a.type = b.gi(), a.mode = b.gi();
  a.ck = b.gi(), a.root = b.gi(), a.op = b.gi(), a.count = b.gi(), a.blob_type = b.gi();
  a.reqs.resize(b.gi());
  for (int & r : a.reqs)
    r = b.gi();
  a.blobs.resize(b.gi());
  for (auto & x : a.blobs)
    x = b.gb();
  return a;
}

// ------------------------------------------------------------ rank side
struct CommInfo
{
  bool        valid = false;
  vector<int> world; // world rank of each member
  int         me = -1;
  int         nd = 0; // Cartesian dimensions
  int         dims[8], per[8];
};
struct Rank
{
  int                           fd = -1, rank = -1, size = 0;
  bool                          inited = false, finalized = false;
  vector<CommInfo>              comms;
  int                           nreq = 0;
  std::map<int, std::pair<void *, long>> rbuf; // pending receive buffers
};
inline Rank R;

[[noreturn]] inline void
rank_error(const string & what)
{
  Act a;
  a.kind = K_ERROR;
  a.blobs.push_back(what);
  put(R.fd, encode(a));
  _exit(78);
}
inline CommInfo &
comm(MPI_Comm c, const char * fn)
{
  if (R.fd < 0)
  {
    fprintf(stderr, "%s outside a controlled run\n", fn);
    abort();
  }
  if (!R.inited)
    rank_error(string(fn) + " before MPI_Init");
  if (R.finalized)
    rank_error(string(fn) + " after MPI_Finalize");
  if (c < 0 || c >= (int)R.comms.size() || !R.comms[c].valid)
    rank_error(mc::fmt("%s: invalid communicator %d", fn, c));
  return R.comms[c];
}
inline long
tsize(int t)
{
  long n = t & 0xff;
  if (t < 0x101 || t > 0xeff || n < 1 || n > 8)
    rank_error(mc::fmt("invalid datatype %d", t));
  return n;
}
inline int
world_of(CommInfo & c, int r, const char * fn)
{
  if (r < 0 || r >= (int)c.world.size())
    rank_error(mc::fmt("%s: invalid rank %d in a communicator of %d", fn, r, (int)c.world.size()));
  return c.world[r];
}
inline Buf
call(const Act & a)
{
  if (!put(R.fd, encode(a)))
    _exit(79);
  Buf b;
  if (!take(R.fd, b))
    _exit(79);
  return b;
}
inline int
post_send(const void * buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, int mode, const char * fn)
{
  CommInfo & C = comm(c, fn);
  if (dst == MPI_PROC_NULL)
    return MPI_REQUEST_NULL;
  if (n < 0)
    rank_error(mc::fmt("%s: count %d", fn, n));
  if (tag < 0)
    rank_error(mc::fmt("%s: tag %d", fn, tag));
  Act a;
  a.kind = K_SEND;
  a.req = R.nreq++;
  a.peer = world_of(C, dst, fn);
  a.ctx = c, a.tag = tag, a.type = t, a.count = n, a.mode = mode;
  a.blobs.emplace_back((const char *)buf, n * tsize(t));
  put(R.fd, encode(a));
  return a.req;
}
inline int
post_recv(void * buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, const char * fn)
{
  CommInfo & C = comm(c, fn);
  if (src == MPI_PROC_NULL)
    return MPI_REQUEST_NULL;
  if (n < 0)
    rank_error(mc::fmt("%s: count %d", fn, n));
  Act a;
  a.kind = K_RECV;
  a.req = R.nreq++;
  a.peer = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : world_of(C, src, fn);
  a.ctx = c, a.tag = tag, a.type = t, a.count = n;
  R.rbuf[a.req] = { buf, n * tsize(t) };
  put(R.fd, encode(a));
  return a.req;
}
inline void
wait(const vector<int> & rq, MPI_Status * st = nullptr, MPI_Comm c = 0, int st_index = -1)
{
  vector<int> q;
  for (int r : rq)
    if (r != MPI_REQUEST_NULL)
      q.push_back(r);
  if (st)
    st->MPI_SOURCE = MPI_PROC_NULL, st->MPI_TAG = MPI_ANY_TAG, st->MPI_ERROR = 0, st->count_bytes = 0;
  if (q.empty())
    return;
  Act a;
  a.kind = K_WAIT;
  a.reqs = q;
  Buf b = call(a);
  for (int r : q)
  {
    long   src = b.gi(), tag = b.gi(), ctx = b.gi();
    string d = b.gb();
    auto   it = R.rbuf.find(r);
    if (it != R.rbuf.end())
    {
      memcpy(it->second.first, d.data(), d.size());
      R.rbuf.erase(it);
      if (st)
      {
        auto & w = R.comms[ctx].world;
        st->MPI_SOURCE = std::find(w.begin(), w.end(), (int)src) - w.begin();
        st->MPI_TAG = tag;
        st->count_bytes = d.size();
      }
    }
  }
}
inline vector<string>
coll(int ck, MPI_Comm c, int root, long count, int type, int op, vector<string> blobs, const char * fn)
{
  CommInfo & C = comm(c, fn);
  Act        a;
  a.kind = K_COLL;
  a.ck = ck;
  a.ctx = c;
  a.root = root < 0 ? -1 : world_of(C, root, fn);
  a.count = count, a.type = type, a.op = op;
  a.blobs = std::move(blobs);
  Buf            b = call(a);
  vector<string> r(b.gi());
  for (auto & x : r)
    x = b.gb();
  return r;
}
inline string
S(const void * p, long n)
{
  return string((const char *)p, n);
}

//! combine b into a
template <class T>
void
comb(T * a, const T * b, long n, int op)
{
  for (long i = 0; i < n; i++)
    switch (op)
    {
      case MPI_SUM:
        a[i] = a[i] + b[i];
        break;
      case MPI_PROD:
        a[i] = a[i] * b[i];
        break;
      case MPI_MIN:
        a[i] = b[i] < a[i] ? b[i] : a[i];
        break;
      case MPI_MAX:
        a[i] = b[i] > a[i] ? b[i] : a[i];
        break;
      case MPI_LAND:
        a[i] = a[i] && b[i];
        break;
      case MPI_LOR:
        a[i] = a[i] || b[i];
        break;
      case MPI_BAND:
        a[i] = (T)((long)a[i] & (long)b[i]);
        break;
      case MPI_BOR:
        a[i] = (T)((long)a[i] | (long)b[i]);
        break;
    }
}
inline void
combine(string & a, const string & b, int type, int op)
{
  long n = std::min(a.size(), b.size()) / (type & 0xff);
#define MPX_T(code, T)                                    \
  case code:                                              \
    comb<T>((T *)&a[0], (const T *)b.data(), n, op);      \
    break;
  switch (type)
  {
    MPX_T(MPI_CHAR, char)
    MPX_T(MPI_SIGNED_CHAR, signed char)
    MPX_T(MPI_UNSIGNED_CHAR, unsigned char)
    MPX_T(MPI_BYTE, unsigned char)
    MPX_T(MPI_SHORT, short)
    MPX_T(MPI_INT, int)
    MPX_T(MPI_UNSIGNED, unsigned)
    MPX_T(MPI_LONG, long)
    MPX_T(MPI_UNSIGNED_LONG, unsigned long)
    MPX_T(MPI_LONG_LONG, long long)
    MPX_T(MPI_UNSIGNED_LONG_LONG, unsigned long long)
    MPX_T(MPI_FLOAT, float)
    MPX_T(MPI_DOUBLE, double)
    MPX_T(MPI_C_BOOL, bool)
  }
#undef MPX_T
}

// ------------------------------------------------------------ semantics
struct Pend
{
  int    rank = 0, req = 0, peer = 0, ctx = 0, tag = 0, type = 0, mode = 0;
  bool   send = false, buffered = false, matched = false, waited = false;
  long   count = 0;
  string data;
  int    msrc = -1, mtag = -1;
  bool   done() const { return matched || (send && buffered); }
};
enum RState
{
  RUNNING,
  WAITING,
  INCOLL,
  READY, // blocked call complete, may go on
  EXITED
};
struct RankSt
{
  RState             st = RUNNING;
  vector<int>        reqs;
  std::deque<Pend>   ops;
  std::map<int, int> seq; // collective calls made on each communicator
  int                cctx = 0, cseq = 0;
  vector<string>     result;
  Act                at;
};
struct CollInst
{
  vector<Act>  in;      // by member index
  vector<char> entered, left;
  bool         all() const { return std::all_of(entered.begin(), entered.end(), [](char c) { return c; }); }
};
struct Trans
{
  enum
  {
    MATCH,
    BUFFER,
    COLL,      // everybody has entered: one member leaves
    COLL_EARLY // a member leaves before everybody has entered
  };
  int    t, a, ra, b, rb; // ranks and request numbers
  string show() const
  {
    const char * n[] = { "match", "buffer", "leave", "leave early" };
    if (t == MATCH)
      return mc::fmt("match %d.%d->%d.%d", a, ra, b, rb);
    return mc::fmt("%s %d.%d", n[t], a, ra);
  }
  bool operator<(const Trans & o) const { return std::tie(t, a, ra, b, rb) < std::tie(o.t, o.a, o.ra, o.b, o.rb); }
  bool operator==(const Trans & o) const { return std::tie(t, a, ra, b, rb) == std::tie(o.t, o.a, o.ra, o.b, o.rb); }
  bool optional() const { return t == BUFFER || t == COLL_EARLY; }
};

struct Net
{
  int                                      n;
  vector<RankSt>                           r;
  vector<vector<int>>                      members; // of each communicator; SELF (1) is special
  std::map<std::pair<int, int>, CollInst>  inst;
  vector<int>                              perm; // reordering of Cartesian communicators
  string                                   error;
  bool                                     wildcards = false;
  long                                     finals = 0;

  Net(int n_)
    : n(n_)
    , r(n_)
  {
    vector<int> w(n);
    for (int i = 0; i < n; i++)
      w[i] = i;
    members = { w, {} };
    perm = w;
  }
  void fail(const string & s)
  {
    if (error.empty())
      error = s;
  }
  vector<int> mem(int ctx, int rank) const { return ctx == 1 ? vector<int>{ rank } : members[ctx]; }
  std::pair<int, int> key(int ctx, int rank, int seq) const { return { ctx == 1 ? -1 - rank : ctx, seq }; }

  void post(int rank, const Act & a)
  {
    RankSt & q = r[rank];
    q.at = a;
    if (a.kind == K_SEND || a.kind == K_RECV)
    {
      Pend p;
      p.rank = rank, p.req = a.req, p.peer = a.peer, p.ctx = a.ctx, p.tag = a.tag, p.type = a.type, p.mode = a.mode, p.count = a.count;
      p.send = a.kind == K_SEND;
      if (p.send && !a.blobs.empty())
        p.data = a.blobs[0];
      if (p.peer == MPI_ANY_SOURCE || p.tag == MPI_ANY_TAG)
        wildcards = true;
      if (p.send && p.mode == M_BUF)
        p.buffered = true;
      q.ops.push_back(std::move(p));
      if (a.kind == K_SEND && a.mode == M_READY)
      {
        bool posted = false;
        for (auto & d : r[a.peer].ops)
          posted = posted || (!d.matched && compatible(q.ops.back(), d));
        if (!posted)
          fail(mc::fmt("process %d: ready-mode ", rank) + a.show() + " before its receive is posted");
      }
    }
    else if (a.kind == K_WAIT)
    {
      q.st = WAITING;
      q.reqs = a.reqs;
      settle(rank);
    }
    else if (a.kind == K_COLL)
    {
      q.st = INCOLL;
      q.cctx = a.ctx;
      q.cseq = q.seq[a.ctx]++;
      auto   m = mem(a.ctx, rank);
      auto & I = inst[key(a.ctx, rank, q.cseq)];
      if (I.entered.empty())
      {
        I.in.resize(m.size());
        I.entered.assign(m.size(), 0);
        I.left.assign(m.size(), 0);
      }
      int me = std::find(m.begin(), m.end(), rank) - m.begin();
      for (size_t k = 0; k < m.size(); k++)
        if (I.entered[k])
        {
          const Act & o = I.in[k];
          bool        sized = a.ck == C_BCAST || a.ck == C_REDUCE || a.ck == C_ALLREDUCE || a.ck == C_SCAN || a.ck == C_ALLGATHER;
          if (o.ck != a.ck || o.root != a.root || o.op != a.op || (sized && (o.count != a.count || o.type != a.type)))
            fail(mc::fmt("collective number %d of communicator %d: process %d calls ", q.cseq, a.ctx, m[k]) + o.show() + mc::fmt(", process %d calls ", rank) + a.show());
          break;
        }
      I.entered[me] = 1;
      I.in[me] = a;
    }
    else if (a.kind == K_ERROR)
      fail(mc::fmt("process %d: ", rank) + a.show());
    else
      fail(mc::fmt("process %d calls MPI_Abort", rank));
  }
  Pend * find(int rank, int req)
  {
    for (auto & p : r[rank].ops)
      if (p.req == req)
        return &p;
    return nullptr;
  }
  void settle(int rank)
  {
    RankSt & q = r[rank];
    if (q.st != WAITING)
      return;
    for (int rq : q.reqs)
    {
      Pend * p = find(rank, rq);
      if (!p)
      {
        fail(mc::fmt("process %d waits for an unknown request", rank));
        return;
      }
      if (!p->done())
        return;
    }
    q.st = READY;
  }
  static bool compatible(const Pend & s, const Pend & d)
  {
    return s.send && !d.send && s.peer == d.rank && (d.peer == MPI_ANY_SOURCE || d.peer == s.rank) && s.ctx == d.ctx && (d.tag == MPI_ANY_TAG || d.tag == s.tag);
  }
  vector<Trans> enabled() const
  {
    vector<Trans> e;
    for (int d = 0; d < n; d++)
      for (auto & R_ : r[d].ops)
      {
        if (R_.send || R_.matched)
          continue;
        for (int s = 0; s < n; s++)
        {
          for (auto & S_ : r[s].ops)
          {
            if (!S_.send || S_.matched || !compatible(S_, R_))
              continue;
            // the earliest compatible message of this sender; no earlier receive takes it
            bool first = true;
            for (auto & o : r[d].ops)
            {
              if (&o == &R_)
                break;
              if (!o.send && !o.matched && compatible(S_, o))
                first = false;
            }
            if (first)
              e.push_back({ Trans::MATCH, s, S_.req, d, R_.req });
            break;
          }
        }
      }
    for (int s = 0; s < n; s++)
      for (auto & S_ : r[s].ops)
        if (S_.send && !S_.matched && !S_.buffered && S_.mode != M_SYNC)
          e.push_back({ Trans::BUFFER, s, S_.req, 0, 0 });
    for (int k = 0; k < n; k++)
      if (r[k].st == INCOLL)
      {
        auto   m = mem(r[k].cctx, k);
        auto & I = inst.at(key(r[k].cctx, k, r[k].cseq));
        if (I.all())
          e.push_back({ Trans::COLL, k, r[k].cseq, 0, 0 });
        else
        {
          int  me = std::find(m.begin(), m.end(), k) - m.begin();
          auto root = std::find(m.begin(), m.end(), I.in[me].root) - m.begin();
          int  ck = I.in[me].ck;
          bool ok = false;
          if (ck == C_BCAST || ck == C_SCATTER)
            ok = me == (int)root || I.entered[root];
          if (ck == C_REDUCE || ck == C_GATHER)
            ok = me != (int)root;
          if (ok)
            e.push_back({ Trans::COLL_EARLY, k, r[k].cseq, 0, 0 });
        }
      }
    return e;
  }
  void fire(const Trans & t)
  {
    if (t.t == Trans::MATCH)
    {
      Pend * s = find(t.a, t.ra);
      Pend * d = find(t.b, t.rb);
      if (s->type != d->type || s->count != d->count)
        fail(mc::fmt("message of %ld elements of type %x from process %d (tag %d) received by process %d as %ld elements of type %x", s->count, s->type, t.a, s->tag, t.b, d->count, d->type));
      d->data.swap(s->data);
      d->msrc = t.a;
      d->mtag = s->tag;
      s->matched = d->matched = true;
      settle(t.a);
      settle(t.b);
      gc(t.a);
    }
    else if (t.t == Trans::BUFFER)
    {
      find(t.a, t.ra)->buffered = true;
      settle(t.a);
    }
    else
    {
      RankSt & q = r[t.a];
      auto     m = mem(q.cctx, t.a);
      auto     kk = key(q.cctx, t.a, q.cseq);
      auto &   I = inst.at(kk);
      int      me = std::find(m.begin(), m.end(), t.a) - m.begin();
      q.result = result(I, me, m, q.cctx);
      if (I.in[me].ck == C_FINALIZE)
        finals++;
      q.st = READY;
      I.left[me] = 1;
      if (std::all_of(I.left.begin(), I.left.end(), [](char c) { return c; }))
        inst.erase(kk);
    }
  }
  //! forget messages both sides are done with
  void gc(int rank)
  {
    auto & o = r[rank].ops;
    for (size_t k = 0; k < o.size();)
      if (o[k].matched && o[k].waited)
        o.erase(o.begin() + k);
      else
        k++;
  }
  vector<string> result(CollInst & I, int me, const vector<int> & m, int ctx)
  {
    const Act & a = I.in[me];
    int         root = a.root < 0 ? -1 : std::find(m.begin(), m.end(), a.root) - m.begin();
    if (root >= (int)m.size())
      return {};
    switch (a.ck)
    {
      case C_BCAST:
        return I.in[root].blobs;
      case C_REDUCE:
      case C_ALLREDUCE:
      case C_SCAN:
      {
        if (a.ck == C_REDUCE && me != root)
          return {};
        string x = I.in[0].blobs[0];
        int    last = a.ck == C_SCAN ? me : (int)m.size() - 1;
        for (int k = 1; k <= last; k++)
          combine(x, I.in[k].blobs[0], a.type, a.op);
        return { x };
      }
      case C_GATHER:
      case C_ALLGATHER:
      {
        vector<string> v;
        if (a.ck == C_GATHER && me != root)
          return v;
        for (auto & i : I.in)
          v.push_back(i.blobs[0]);
        return v;
      }
      case C_SCATTER:
        return { (int)I.in[root].blobs.size() > me ? I.in[root].blobs[me] : string() };
      case C_ALLTOALL:
      {
        vector<string> v;
        for (auto & i : I.in)
          v.push_back((int)i.blobs.size() > me ? i.blobs[me] : string());
        return v;
      }
      case C_CART:
      case C_DUP:
      {
        // number of the new communicator (allotted by the first to leave), members in order of the new ranks
        Buf  b;
        long id = -1;
        for (auto & i : I.in)
          if (i.req < 0)
            id = -i.req;
        if (id < 0)
        {
          id = members.size();
          vector<int> w;
          long        cnt = a.ck == C_CART ? std::min<long>(a.count, m.size()) : (long)m.size();
          for (long k = 0; k < cnt; k++)
            w.push_back(m[a.ck == C_CART && a.type ? perm_of(k, cnt) : k]);
          members.push_back(w);
          I.in[0].req = -id;
        }
        b.i(id);
        b.i(members[id].size());
        for (int w : members[id])
          b.i(w);
        return { b.s };
      }
    }
    return {};
  }
  int perm_of(long k, long cnt) const { return (long)perm.size() == cnt ? perm[k] : (int)k; }
  bool finished() const
  {
    for (auto & q : r)
      if (q.st != EXITED)
        return false;
    return true;
  }
  //! messages nobody took
  string leftovers() const
  {
    for (int k = 0; k < n; k++)
      for (auto & p : r[k].ops)
        if (!p.matched)
          return mc::fmt("a %s of process %d (%s %d, tag %d) is never matched", p.send ? "message" : "receive", k, p.send ? "to" : "from", p.peer, p.tag);
    return "";
  }
  string where() const
  {
    string s;
    for (int k = 0; k < n; k++)
    {
      s += mc::fmt("; process %d: ", k);
      if (r[k].st == EXITED)
        s += "ended";
      else if (r[k].st == INCOLL)
        s += "in " + r[k].at.show();
      else if (r[k].st == WAITING)
      {
        s += "waits for";
        for (int q : r[k].reqs)
          for (auto & p : r[k].ops)
            if (p.req == q && !p.done())
              s += mc::fmt(" %s(%s %d, tag %d)", p.send ? "send" : "recv", p.send ? "to" : "from", p.peer, p.tag);
      }
      else
        s += "ready";
    }
    return s;
  }
};

// ------------------------------------------------------------ one execution
//! what happened in one distributed execution
struct Outcome
{
  string              error; // empty: every process ended normally, nothing left over
  string              kind;  // class of error
  vector<vector<Act>> trace; // requests of each rank (payloads dropped)
  vector<Trans>       path;  // decisions taken
  vector<int>         nchoice, chosen;
  bool                wildcards = false;
  vector<vector<int>> members;
  vector<int>         exit_status;
};

struct World
{
  int         n;
  vector<int> perm;
  unsigned    seconds = 60;   // patience with one rank between two calls
  bool        record = false; // keep traces
  bool        need_finalize = false;
  int         expect_exit = 0;
  //! decision: index among the enabled transitions
  std::function<int(const Net &, const vector<Trans> &)> choose;

  World(int n_)
    : n(n_)
  {}

  Outcome run(const std::function<int(int)> & body)
  {
    Outcome       o;
    Net           net(n);
    vector<pid_t> pid(n, -1);
    vector<int>   fd(n, -1);
    if (!perm.empty())
      net.perm = perm;
    o.trace.resize(n);
    o.exit_status.assign(n, 0);
    fflush(mc::out);
    for (int k = 0; k < n; k++)
    {
      int sp[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp))
        abort();
      pid[k] = fork();
      if (pid[k] == 0)
      {
        close(sp[0]);
        for (int j = 0; j < k; j++)
          close(fd[j]);
        for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
          signal(s, SIG_DFL);
        std::set_terminate([] {
          signal(SIGABRT, SIG_DFL);
          abort();
        });
        mck::rt().on_oob = [](const char *, int, long long, long long) { _exit(77); };
        struct rlimit nocore = { 0, 0 };
        setrlimit(RLIMIT_CORE, &nocore);
        alarm(0);
        R = Rank();
        R.fd = sp[1];
        R.rank = k;
        R.size = n;
        CommInfo w, s;
        w.valid = s.valid = true;
        for (int j = 0; j < n; j++)
          w.world.push_back(j);
        w.me = k;
        s.world = { k };
        s.me = 0;
        R.comms = { w, s };
        int rc = body(k);
        _exit(rc);
      }
      close(sp[1]);
      fd[k] = sp[0];
    }
    mc::stat("processes", n);
    auto fail = [&](const string & kind, const string & msg) {
      if (o.error.empty())
        o.kind = kind, o.error = msg;
    };
    // let rank k compute until its next blocking call
    auto advance = [&](int k) {
      while (true)
      {
        struct pollfd pf = { fd[k], POLLIN, 0 };
        int           pr = poll(&pf, 1, seconds * 1000);
        Buf           b;
        if (pr == 0)
        {
          fail("endless", mc::fmt("process %d computes for more than %u s without calling MPI", k, seconds));
          return;
        }
        if (!take(fd[k], b))
        {
          int st = 0;
          waitpid(pid[k], &st, 0);
          pid[k] = -1;
          o.exit_status[k] = st;
          net.r[k].st = EXITED;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == expect_exit))
            fail("crash", mc::fmt("process %d ends with %s", k, WIFEXITED(st) ? (WEXITSTATUS(st) == 77 ? "an access outside an array" : mc::fmt("exit code %d", WEXITSTATUS(st)).c_str()) : mc::fmt("signal %d", WTERMSIG(st)).c_str()));
          return;
        }
        Act a = decode(b);
        net.post(k, a);
        mc::stat("mpi_calls");
        if (record)
        {
          Act t = a;
          if (t.kind != K_ERROR)
            t.blobs.clear();
          o.trace[k].push_back(t);
        }
        if (!net.error.empty())
        {
          fail(a.kind == K_ABORT ? "abort" : a.kind == K_ERROR ? "misuse" : "mismatch", net.error);
          return;
        }
        if (a.kind == K_WAIT || a.kind == K_COLL)
          return;
      }
    };
    auto reply = [&](int k) {
      RankSt & q = net.r[k];
      Buf      b;
      if (q.at.kind == K_WAIT)
      {
        for (int rq : q.reqs)
        {
          Pend * p = net.find(k, rq);
          b.i(p->msrc), b.i(p->mtag), b.i(p->ctx);
          b.b(p->send ? string() : p->data);
          p->waited = true;
        }
        net.gc(k);
      }
      else
      {
        b.i(q.result.size());
        for (auto & s : q.result)
          b.b(s);
        q.result.clear();
      }
      q.st = RUNNING;
      put(fd[k], b);
    };
    for (int k = 0; k < n && o.error.empty(); k++)
      advance(k);
    while (o.error.empty())
    {
      bool moved = false;
      for (int k = 0; k < n && o.error.empty(); k++)
        if (net.r[k].st == READY)
        {
          reply(k);
          advance(k);
          moved = true;
        }
      if (!o.error.empty())
        break;
      if (moved)
        continue;
      if (net.finished())
        break;
      auto e = net.enabled();
      bool must = false;
      for (auto & t : e)
        must = must || !t.optional();
      if (!must)
      {
        // no transfer can happen unless the library buffers: a deadlock
        fail("deadlock", "no process can go on" + net.where());
        break;
      }
      int c = choose ? choose(net, e) : 0;
      if (c < 0)
      {
        fail("divergence", "the run does not follow the prescribed schedule");
        break;
      }
      o.nchoice.push_back(e.size());
      o.chosen.push_back(c);
      o.path.push_back(e[c]);
      mc::stat("transitions");
      net.fire(e[c]);
      if (!net.error.empty())
        fail("mismatch", net.error);
    }
    if (o.error.empty())
    {
      string l = net.leftovers();
      if (!l.empty())
        fail("leftover", l);
      if (need_finalize && net.finals != n)
        fail("finalize", "a process ends without MPI_Finalize");
    }
    for (int k = 0; k < n; k++)
    {
      close(fd[k]);
      if (pid[k] > 0)
      {
        kill(pid[k], SIGKILL);
        int st;
        waitpid(pid[k], &st, 0);
      }
    }
    o.wildcards = net.wildcards;
    o.members = net.members;
    mc::stat("executions");
    return o;
  }
};

//! memory shared by the ranks and the controller
template <class T>
struct Shared
{
  T *    p;
  size_t n;
  Shared(size_t n_)
    : n(n_ ? n_ : 1)
  {
    p = (T *)mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
      abort();
  }
  Shared(const Shared &) = delete;
  ~Shared() { munmap(p, n * sizeof(T)); }
  T & operator[](size_t i) { return p[i]; }
};

} // namespace mpx

// ------------------------------------------------------------ the calls
extern "C"
{
using namespace mpx;
inline double
mpx_now()
{
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + 1e-6 * tv.tv_usec;
}
#define MPX_F __attribute__((used, weak))
//! for models of libraries built on message passing (shim/h5par)
MPX_F void mck_mpi_error(const char * what)
{
  rank_error(what);
}
MPX_F int MPI_Init(int *, char ***)
{
  if (R.fd < 0)
    abort();
  if (R.inited)
    rank_error("MPI_Init called twice");
  R.inited = true;
  return 0;
}
MPX_F int MPI_Init_thread(int * c, char *** v, int q, int * p)
{
  if (p)
    *p = q;
  return MPI_Init(c, v);
}
MPX_F int MPI_Initialized(int * f) { return *f = R.inited, 0; }
MPX_F int MPI_Finalized(int * f) { return *f = R.finalized, 0; }
MPX_F int MPI_Finalize(void)
{
  coll(C_FINALIZE, MPI_COMM_WORLD, -1, 0, 0, 0, {}, "MPI_Finalize");
  R.finalized = true;
  return 0;
}
MPX_F int MPI_Abort(MPI_Comm, int code)
{
  Act a;
  a.kind = K_ABORT;
  a.count = code;
  put(R.fd, encode(a));
  _exit(code ? code : 1);
}
MPX_F int MPI_Get_processor_name(char * s, int * n)
{
  strcpy(s, "node");
  *n = 4;
  return 0;
}
MPX_F int MPI_Get_version(int * a, int * b) { return *a = 3, *b = 1, 0; }
MPX_F int MPI_Query_thread(int * a) { return *a = MPI_THREAD_MULTIPLE, 0; }
MPX_F int MPI_Is_thread_main(int * a) { return *a = 1, 0; }
MPX_F double MPI_Wtime(void) { return mpx_now(); }
MPX_F double MPI_Wtick(void) { return 1e-6; }
MPX_F int MPI_Error_string(int, char * s, int * n)
{
  strcpy(s, "error");
  *n = 5;
  return 0;
}
MPX_F int MPI_Comm_rank(MPI_Comm c, int * r) { return *r = mpx::comm(c, "MPI_Comm_rank").me, 0; }
MPX_F int MPI_Comm_size(MPI_Comm c, int * n) { return *n = (int)mpx::comm(c, "MPI_Comm_size").world.size(), 0; }
MPX_F int MPI_Comm_free(MPI_Comm * c)
{
  mpx::comm(*c, "MPI_Comm_free").valid = false;
  *c = MPI_COMM_NULL;
  return 0;
}
static inline MPI_Comm
mpx_new_comm(const string & s, CommInfo * cart)
{
  Buf b;
  b.s = s;
  int      id = b.gi();
  long     n = b.gi();
  CommInfo C;
  if (cart)
    C = *cart;
  C.valid = true;
  C.world.clear();
  for (long k = 0; k < n; k++)
  {
    C.world.push_back(b.gi());
    if (C.world.back() == R.rank)
      C.me = k;
  }
  if ((int)R.comms.size() <= id)
    R.comms.resize(id + 1);
  if (C.me < 0)
    return MPI_COMM_NULL;
  R.comms[id] = C;
  return id;
}
MPX_F int MPI_Comm_dup(MPI_Comm c, MPI_Comm * o)
{
  CommInfo old = mpx::comm(c, "MPI_Comm_dup");
  auto     r = coll(C_DUP, c, -1, 0, 0, 0, {}, "MPI_Comm_dup");
  *o = mpx_new_comm(r[0], &old);
  return 0;
}
MPX_F int MPI_Comm_get_attr(MPI_Comm, int, void * v, int * f)
{
  static int ub = 1 << 30;
  *(void **)v = &ub;
  *f = 1;
  return 0;
}
MPX_F int MPI_Attr_get(MPI_Comm c, int k, void * v, int * f) { return MPI_Comm_get_attr(c, k, v, f); }
MPX_F int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler * e) { return *e = 1, 0; }
MPX_F int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
MPX_F int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler) { return 0; }
MPX_F int MPI_Errhandler_free(MPI_Errhandler *) { return 0; }
MPX_F int MPI_Info_create(MPI_Info * i) { return *i = 1, 0; }
MPX_F int MPI_Info_free(MPI_Info * i) { return *i = 0, 0; }
MPX_F int MPI_Info_set(MPI_Info, const char *, const char *) { return 0; }
MPX_F int MPI_Info_get(MPI_Info, const char *, int, char *, int * f) { return *f = 0, 0; }
MPX_F int MPI_Type_size(MPI_Datatype t, int * n) { return *n = tsize(t), 0; }
MPX_F int MPI_Get_count(const MPI_Status * s, MPI_Datatype t, int * n) { return *n = s->count_bytes / tsize(t), 0; }
MPX_F int MPI_Cart_create(MPI_Comm c, int nd, const int * dims, const int * per, int reorder, MPI_Comm * out)
{
  CommInfo & C = mpx::comm(c, "MPI_Cart_create");
  long       tot = 1;
  CommInfo   n;
  n.nd = nd;
  for (int k = 0; k < nd; k++)
  {
    if (dims[k] < 1)
      rank_error(mc::fmt("MPI_Cart_create: dimension %d is %d", k, dims[k]));
    tot *= dims[k];
    n.dims[k] = dims[k];
    n.per[k] = per[k] ? 1 : 0;
  }
  if (tot > (long)C.world.size())
    rank_error(mc::fmt("MPI_Cart_create: grid of %ld processes, %d available", tot, (int)C.world.size()));
  Buf b;
  b.i(nd);
  for (int k = 0; k < nd; k++)
    b.i(dims[k]), b.i(n.per[k]);
  // op carries a digest of the arguments, so that differing calls are a mismatch
  int  h = (int)(mc::hash_bytes(b.s.data(), b.s.size()) & 0x7fffffff);
  auto r = coll(C_CART, c, -1, tot, reorder ? 1 : 0, h, { b.s }, "MPI_Cart_create");
  *out = mpx_new_comm(r[0], &n);
  return 0;
}
MPX_F int MPI_Cartdim_get(MPI_Comm c, int * nd) { return *nd = mpx::comm(c, "MPI_Cartdim_get").nd, 0; }
MPX_F int MPI_Cart_rank(MPI_Comm c, const int * x, int * r)
{
  CommInfo & C = mpx::comm(c, "MPI_Cart_rank");
  if (!C.nd)
    rank_error("MPI_Cart_rank: not a Cartesian communicator");
  int k = 0;
  for (int d = 0; d < C.nd; d++)
  {
    int y = x[d];
    if (C.per[d])
      y = ((y % C.dims[d]) + C.dims[d]) % C.dims[d];
    else if (y < 0 || y >= C.dims[d])
      rank_error(mc::fmt("MPI_Cart_rank: coordinate %d out of the grid in the non-periodic dimension %d", x[d], d));
    k = k * C.dims[d] + y;
  }
  *r = k;
  return 0;
}
MPX_F int MPI_Cart_coords(MPI_Comm c, int rank, int maxd, int * x)
{
  CommInfo & C = mpx::comm(c, "MPI_Cart_coords");
  if (!C.nd || maxd < C.nd || rank < 0 || rank >= (int)C.world.size())
    rank_error("MPI_Cart_coords: invalid arguments");
  for (int d = C.nd - 1; d >= 0; d--)
  {
    x[d] = rank % C.dims[d];
    rank /= C.dims[d];
  }
  return 0;
}
MPX_F int MPI_Cart_get(MPI_Comm c, int maxd, int * dims, int * per, int * x)
{
  CommInfo & C = mpx::comm(c, "MPI_Cart_get");
  for (int d = 0; d < C.nd && d < maxd; d++)
    dims[d] = C.dims[d], per[d] = C.per[d];
  return MPI_Cart_coords(c, C.me, maxd, x);
}
MPX_F int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int * src, int * dst)
{
  CommInfo & C = mpx::comm(c, "MPI_Cart_shift");
  if (!C.nd || dir < 0 || dir >= C.nd)
    rank_error("MPI_Cart_shift: invalid direction");
  int x[8];
  for (int s : { -1, 1 })
  {
    MPI_Cart_coords(c, C.me, C.nd, x);
    x[dir] += s * disp;
    int * o = s < 0 ? src : dst;
    if (!C.per[dir] && (x[dir] < 0 || x[dir] >= C.dims[dir]))
      *o = MPI_PROC_NULL;
    else
      MPI_Cart_rank(c, x, o);
  }
  return 0;
}
MPX_F int MPI_Dims_create(int n, int nd, int * dims)
{
  for (int d = 0; d < nd; d++)
    if (dims[d] > 0)
      n /= dims[d];
  for (int d = 0; d < nd; d++)
    if (dims[d] == 0)
    {
      dims[d] = n;
      n = 1;
    }
  return 0;
}
MPX_F int MPI_Barrier(MPI_Comm c)
{
  coll(C_BARRIER, c, -1, 0, 0, 0, {}, "MPI_Barrier");
  return 0;
}
MPX_F int MPI_Bcast(void * p, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  CommInfo & C = mpx::comm(c, "MPI_Bcast");
  if (n < 0)
    rank_error(mc::fmt("MPI_Bcast: count %d", n));
  if (root < 0 || root >= (int)C.world.size())
    rank_error(mc::fmt("MPI_Bcast: root %d", root));
  bool           me = C.me == root;
  vector<string> bl;
  if (me)
    bl.push_back(S(p, n * tsize(t)));
  auto r = coll(C_BCAST, c, root, n, t, 0, bl, "MPI_Bcast");
  if (!me && !r.empty())
    memcpy(p, r[0].data(), std::min<size_t>(r[0].size(), n * tsize(t)));
  return 0;
}
static inline int
mpx_reduce(int ck, const void * in, void * out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, const char * fn)
{
  CommInfo & C = mpx::comm(c, fn);
  if (n < 0 || op < MPI_SUM || op > MPI_BOR)
    rank_error(mc::fmt("%s: count %d operation %d", fn, n, op));
  if (in != MPI_IN_PLACE && in == out && n > 0 && (ck != C_REDUCE || C.me == root))
    rank_error(string(fn) + ": send and receive buffer are the same");
  auto r = coll(ck, c, root, n, t, op, { S(in == MPI_IN_PLACE ? out : in, n * tsize(t)) }, fn);
  if (!r.empty())
    memcpy(out, r[0].data(), r[0].size());
  return 0;
}
MPX_F int MPI_Reduce(const void * i, void * o, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return mpx_reduce(C_REDUCE, i, o, n, t, op, root, c, "MPI_Reduce"); }
MPX_F int MPI_Allreduce(const void * i, void * o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return mpx_reduce(C_ALLREDUCE, i, o, n, t, op, -1, c, "MPI_Allreduce"); }
MPX_F int MPI_Scan(const void * i, void * o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return mpx_reduce(C_SCAN, i, o, n, t, op, -1, c, "MPI_Scan"); }
static inline void
mpx_place(const vector<string> & r, void * out, const int * cnt, const int * dis, int each, MPI_Datatype t, const char * fn)
{
  long sz = tsize(t);
  for (size_t k = 0; k < r.size(); k++)
  {
    long room = (cnt ? cnt[k] : each) * sz;
    if ((long)r[k].size() > room)
      rank_error(mc::fmt("%s: %ld bytes received from process %d, room for %ld", fn, (long)r[k].size(), (int)k, room));
    memcpy((char *)out + (dis ? dis[k] : (long)k * each) * sz, r[k].data(), r[k].size());
  }
}
MPX_F int MPI_Gather(const void * i, int n, MPI_Datatype t, void * o, int m, MPI_Datatype u, int root, MPI_Comm c)
{
  auto r = coll(C_GATHER, c, root, n, t, 0, { S(i, n * tsize(t)) }, "MPI_Gather");
  mpx_place(r, o, nullptr, nullptr, m, u, "MPI_Gather");
  return 0;
}
MPX_F int MPI_Gatherv(const void * i, int n, MPI_Datatype t, void * o, const int * cnt, const int * dis, MPI_Datatype u, int root, MPI_Comm c)
{
  auto r = coll(C_GATHER, c, root, n, t, 0, { S(i, n * tsize(t)) }, "MPI_Gatherv");
  mpx_place(r, o, cnt, dis, 0, u, "MPI_Gatherv");
  return 0;
}
MPX_F int MPI_Allgather(const void * i, int n, MPI_Datatype t, void * o, int m, MPI_Datatype u, MPI_Comm c)
{
  auto r = coll(C_ALLGATHER, c, -1, n, t, 0, { S(i, n * tsize(t)) }, "MPI_Allgather");
  mpx_place(r, o, nullptr, nullptr, m, u, "MPI_Allgather");
  return 0;
}
MPX_F int MPI_Allgatherv(const void * i, int n, MPI_Datatype t, void * o, const int * cnt, const int * dis, MPI_Datatype u, MPI_Comm c)
{
  auto r = coll(C_ALLGATHER, c, -1, 0, t, 0, { S(i, n * tsize(t)) }, "MPI_Allgatherv");
  mpx_place(r, o, cnt, dis, 0, u, "MPI_Allgatherv");
  return 0;
}
MPX_F int MPI_Scatter(const void * i, int n, MPI_Datatype t, void * o, int m, MPI_Datatype u, int root, MPI_Comm c)
{
  CommInfo &     C = mpx::comm(c, "MPI_Scatter");
  vector<string> bl;
  if (C.me == root)
    for (size_t k = 0; k < C.world.size(); k++)
      bl.push_back(S((const char *)i + k * n * tsize(t), n * tsize(t)));
  auto r = coll(C_SCATTER, c, root, m, u, 0, bl, "MPI_Scatter");
  mpx_place(r, o, nullptr, nullptr, m, u, "MPI_Scatter");
  return 0;
}
MPX_F int MPI_Alltoall(const void * i, int n, MPI_Datatype t, void * o, int m, MPI_Datatype u, MPI_Comm c)
{
  CommInfo &     C = mpx::comm(c, "MPI_Alltoall");
  vector<string> bl;
  for (size_t k = 0; k < C.world.size(); k++)
    bl.push_back(S((const char *)i + k * n * tsize(t), n * tsize(t)));
  auto r = coll(C_ALLTOALL, c, -1, n, t, 0, bl, "MPI_Alltoall");
  mpx_place(r, o, nullptr, nullptr, m, u, "MPI_Alltoall");
  return 0;
}
MPX_F int MPI_Alltoallv(const void * i, const int * cnt, const int * dis, MPI_Datatype t, void * o, const int * rc, const int * rd_, MPI_Datatype u, MPI_Comm c)
{
  CommInfo &     C = mpx::comm(c, "MPI_Alltoallv");
  vector<string> bl;
  for (size_t k = 0; k < C.world.size(); k++)
    bl.push_back(S((const char *)i + dis[k] * tsize(t), cnt[k] * tsize(t)));
  auto r = coll(C_ALLTOALL, c, -1, 0, t, 0, bl, "MPI_Alltoallv");
  mpx_place(r, o, rc, rd_, 0, u, "MPI_Alltoallv");
  return 0;
}
#define MPX_SEND(name, mode)                                                                 \
  MPX_F int name(const void * p, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)          \
  {                                                                                          \
    mpx::wait({ post_send(p, n, t, d, tag, c, mode, #name) });                               \
    return 0;                                                                                \
  }
MPX_SEND(MPI_Send, M_STD)
MPX_SEND(MPI_Ssend, M_SYNC)
MPX_SEND(MPI_Bsend, M_BUF)
MPX_SEND(MPI_Rsend, M_READY)
#define MPX_ISEND(name, mode)                                                                              \
  MPX_F int name(const void * p, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r)       \
  {                                                                                                        \
    *r = post_send(p, n, t, d, tag, c, mode, #name);                                                       \
    return 0;                                                                                              \
  }
MPX_ISEND(MPI_Isend, M_STD)
MPX_ISEND(MPI_Ibsend, M_BUF)
MPX_ISEND(MPI_Issend, M_SYNC)
MPX_ISEND(MPI_Irsend, M_READY)
MPX_F int MPI_Irecv(void * p, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request * r)
{
  *r = post_recv(p, n, t, s, tag, c, "MPI_Irecv");
  return 0;
}
MPX_F int MPI_Recv(void * p, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status * st)
{
  mpx::wait({ post_recv(p, n, t, s, tag, c, "MPI_Recv") }, st, c);
  return 0;
}
MPX_F int MPI_Sendrecv(const void * p, int n, MPI_Datatype t, int d, int tag, void * q, int m, MPI_Datatype u, int s, int rtag, MPI_Comm c, MPI_Status * st)
{
  if (d != MPI_PROC_NULL && s != MPI_PROC_NULL && n > 0 && m > 0)
  {
    const char *a = (const char *)p, *b = (const char *)q;
    if (a < b + m * tsize(u) && b < a + n * tsize(t))
      rank_error("MPI_Sendrecv: send and receive buffers overlap");
  }
  int a = post_send(p, n, t, d, tag, c, M_STD, "MPI_Sendrecv");
  int b = post_recv(q, m, u, s, rtag, c, "MPI_Sendrecv");
  mpx::wait({ a, b }, st, c);
  return 0;
}
MPX_F int MPI_Sendrecv_replace(void * p, int n, MPI_Datatype t, int d, int tag, int s, int rtag, MPI_Comm c, MPI_Status * st)
{
  int a = post_send(p, n, t, d, tag, c, M_STD, "MPI_Sendrecv_replace");
  int b = post_recv(p, n, t, s, rtag, c, "MPI_Sendrecv_replace");
  mpx::wait({ a, b }, st, c);
  return 0;
}
MPX_F int MPI_Wait(MPI_Request * r, MPI_Status * st)
{
  mpx::wait({ *r }, st);
  *r = MPI_REQUEST_NULL;
  return 0;
}
MPX_F int MPI_Waitall(int n, MPI_Request * r, MPI_Status * st)
{
  if (st)
  {
    for (int k = 0; k < n; k++)
      MPI_Wait(&r[k], &st[k]);
    return 0;
  }
  mpx::wait(vector<int>(r, r + n));
  for (int k = 0; k < n; k++)
    r[k] = MPI_REQUEST_NULL;
  return 0;
}
MPX_F int MPI_Buffer_attach(void *, int) { return 0; }
MPX_F int MPI_Buffer_detach(void * p, int * n)
{
  *(void **)p = nullptr;
  *n = 0;
  return 0;
}
}
#endif
