// Running the real main() in child processes inside a scratch directory, and
// reading what it left there.
#ifndef MAINRUN_H_
#define MAINRUN_H_
#include "mc.h"
#include <algorithm>
#include <array>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#define protected public
#include "shared/HydroParams.h"
#include "shared/SolverBase.h"
#include "shared/SolverFactory.h"
#undef protected

int ppk_main(int argc, char * argv[]);

namespace mr
{
using namespace ppkMHD;
using std::string;
using std::vector;
using Map = std::map<string, string>; // "section.key" -> text

inline string
num(double x)
{
  return mc::fmt("%.9g", x);
}
inline string
ini_text(const Map & m)
{
  string text;
  for (auto & kv : m)
  {
    size_t d = kv.first.find('.');
    text += "[" + kv.first.substr(0, d) + "]\n" + kv.first.substr(d + 1) + "=" + kv.second + "\n";
  }
  return text;
}
inline ConfigMap
config(const Map & m)
{
  string t = ini_text(m);
  char * b = const_cast<char *>(t.data());
  return ConfigMap(b, (int)t.size());
}
inline void
put(const string & path, const string & text)
{
  FILE * f = fopen(path.c_str(), "wb");
  if (f)
  {
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
  }
}
inline string
get(const string & path, bool * ok = nullptr)
{
  FILE * f = fopen(path.c_str(), "rb");
  if (ok)
    *ok = f != nullptr;
  string s;
  if (f)
  {
    char   b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
      s.append(b, n);
    fclose(f);
  }
  return s;
}
inline vector<string>
list(const string & dir, const string & suffix = "")
{
  vector<string> r;
  if (DIR * d = opendir(dir.c_str()))
  {
    while (auto e = readdir(d))
    {
      string n = e->d_name;
      if (n != "." && n != ".." && n.size() >= suffix.size() && n.compare(n.size() - suffix.size(), suffix.size(), suffix) == 0)
        r.push_back(n);
    }
    closedir(d);
  }
  std::sort(r.begin(), r.end());
  return r;
}
//! scratch directory of this process, below the current directory
inline string
scratch(const string & name)
{
  string d = mc::fmt("s%d-", (int)getpid()) + name;
  mkdir(d.c_str(), 0755);
  for (auto & f : list(d))
    unlink((d + "/" + f).c_str());
  return d;
}
inline void
clean(const string & d)
{
  for (auto & f : list(d))
    unlink((d + "/" + f).c_str());
  rmdir(d.c_str());
}
//! run main in dir on the given parameters; returns the wait status
inline int
run_main(const string & dir, const Map & m, unsigned seconds = 60)
{
  put(dir + "/p.ini", ini_text(m));
  fflush(mc::out);
  pid_t pid = fork();
  if (pid == 0)
  {
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
      signal(s, SIG_DFL);
    std::set_terminate([] { signal(SIGABRT, SIG_DFL); abort(); });
    mck::rt().on_oob = [](const char *, int, long long, long long) { _exit(77); };
    if (chdir(dir.c_str()))
      _exit(99);
    alarm(seconds);
    char   a0[] = "ppkMHD", a1[] = "p.ini";
    char * av[] = { a0, a1, nullptr };
    int    r = ppk_main(2, av);
    _exit(r);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  mc::stat("executions");
  return st;
}
inline string
status(int st)
{
  if (WIFEXITED(st))
    return WEXITSTATUS(st) == 77 ? "access outside an array" : mc::fmt("exit code %d", WEXITSTATUS(st));
  return mc::fmt("signal %d", WTERMSIG(st));
}
//! false (and a violation) if main did not end normally
inline bool
ran(int st)
{
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return true;
  mc::viol("run-failed", "the run did not end normally: " + status(st));
  return false;
}

struct Solver
{
  ConfigMap                   c;
  HydroParams                 p;
  std::unique_ptr<SolverBase> s;
  explicit Solver(const Map & m)
    : c(config(m))
  {
    p.setup(c);
    s.reset(SolverFactory::Instance().create(m.at("run.solver_name"), p, c));
  }
  SolverBase * operator->() { return s.get(); }
};

} // namespace mr
#endif
