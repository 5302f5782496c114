// The real main(), single process, in a given directory: reference of distmain.cpp.
#include "shared/kokkos_shared.h"
#include <unistd.h>
#include <cstdio>
int ppk_main(int argc, char * argv[]);
int
main(int argc, char ** argv)
{
  if (argc < 2 || chdir(argv[1]) || !freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr))
    return 99;
  mck::rt().on_oob = [](const char *, int, long long, long long) { _exit(77); };
  char   a0[] = "ppkMHD", a1[] = "p.ini";
  char * av[] = { a0, a1, nullptr };
  return ppk_main(2, av);
}
