// Reference for the distributed runs: the same histories in the single-process
// build. Reads cases on standard input, writes the results on standard output.
#include "dist.h"

static bool
rd(void * p, size_t n)
{
  char * c = (char *)p;
  while (n)
  {
    ssize_t k = read(0, c, n);
    if (k <= 0)
      return false;
    c += k, n -= k;
  }
  return true;
}

int
main(int argc, char ** argv)
{
  int out = dup(1), nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  if (!getenv("MC_STDERR"))
    dup2(nul, 2);
  Kokkos::initialize(argc, argv);
  long n;
  while (rd(&n, sizeof n))
  {
    std::string s(n, 0);
    if (!rd(&s[0], n))
      break;
    ds::Case G = ds::unpack(s);
    for (int & m : G.c.mpi)
      m = 1;
    ds::Run             r(G);
    std::vector<double> f, o((r.block() + 2) * ds::stages(G));
    if (G.field)
      f = ds::global_field(G);
    int off[3] = { 0, 0, 0 };
    ds::history(r, G, f, off, o.data());
    std::string res;
    long        h[5] = { r.e[0], r.e[1], r.e[2], G.nd(), (long)o.size() };
    res.append((char *)h, sizeof h);
    res.append((char *)o.data(), o.size() * 8);
    const char * p = res.data();
    size_t       m = res.size();
    while (m)
    {
      ssize_t k = write(out, p, m);
      if (k <= 0)
        _exit(1);
      p += k, m -= k;
    }
  }
  _exit(0);
}
