"""Runner shared by all checks: builds /repo's current working tree against the
mini-Kokkos of shim/, runs an exhaustive harness in shards, collects what it
covered, replays and reports violations, writes the evidence file."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MCK_REPO", "/repo")
NPROC = 8

BASE_FLAGS = ["-std=c++17", "-w", "-DUSE_DOUBLE", "-O1", "-g1", "-fopenmp"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def repo_sources(groups):
    """.cpp files of the named groups of source directories (by content of the
    directory, not by a fixed list, so that files may be added or renamed)."""
    src = REPO + "/src"
    out = []

    def g(d, excl=()):
        for f in sorted(glob.glob(f"{src}/{d}/*.cpp")):
            b = os.path.basename(f)
            if not any(re.search(e, b) for e in excl):
                out.append(f)

    for grp in groups:
        if grp == "config":
            g("utils/config", [r"[Tt]est", r"[Ee]xample"]); g("utils/config/inih", [r"[Tt]est", r"[Ee]xample"])
        elif grp == "monitoring":
            g("utils/monitoring", [r"^Papi", r"Cuda"])
        elif grp == "io":
            g("utils/io", [r"SDM", r"PNETCDF", r"HDF5"])
        elif grp == "io_hdf5":
            out.extend(sorted(f for f in glob.glob(f"{src}/utils/io/*HDF5*.cpp") if "SDM" not in f))
        elif grp == "io_sdm":
            out.extend(sorted(glob.glob(f"{src}/utils/io/*SDM*.cpp")))
        elif grp == "shared":
            g("shared", [r"^SolverFactory"])
        elif grp == "factory":
            out.extend(sorted(glob.glob(f"{src}/shared/SolverFactory*.cpp")))
        elif grp == "muscl":
            g("muscl")
        elif grp == "sdm":
            g("sdm"); g("sdm/init")
        elif grp == "mpi":
            g("utils/mpiUtils")
        elif grp == "main":
            out.append(src + "/main.cpp")
        else:
            raise ValueError(grp)
    return out


class Check:
    def __init__(self, pid, argv=None):
        self.pid = pid
        argv = sys.argv[1:] if argv is None else argv
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in argv:
            self.tier = "thorough"
        if "--quick" in argv:
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.keep = "--keep" in argv
        self.replay = None
        for i, a in enumerate(argv):
            if a == "--replay":
                self.replay = json.load(open(argv[i + 1]))
        self.t0 = time.time()
        self.work = f"{VERIF}/.work/{pid}-{os.getpid()}"
        os.makedirs(self.work, exist_ok=True)
        self.stats = {}
        self.maxstats = {}
        self.states = set()
        self.samples = []
        self.hashes = {}
        self.viols = []  # dict(key,msg,cmd,item)
        self.exes = {}
        self.notes = []
        self.level = "model_checking"
        self.assumptions = []
        self.exhaustive = True
        self.rule = None

    # ------------------------------------------------------------ build
    def build(self, name, harness, groups, defs=(), flags=(), shim=("kokkos",), libs=(), incs=(), cxx="g++"):
        """compile harness/*.cpp and repo sources in parallel, link; returns exe"""
        bdir = f"{self.work}/{name}"
        os.makedirs(bdir, exist_ok=True)
        with open(bdir + "/ppkMHD_version.h", "w") as f:
            f.write(VERSION_STUB)
        inc = [f"-I{VERIF}/shim/{s}" for s in shim] + [f"-I{bdir}", f"-I{VERIF}/harness"]
        inc += [f"-I{REPO}/src"] + [f"-I{REPO}/src/{d}" for d in ("utils", "muscl", "utils/config/inih", "shared", "utils/config", "utils/io")] + list(incs)
        srcs = [(VERIF + "/harness/" + h if isinstance(h, str) else h[0], [] if isinstance(h, str) else h[1], None if isinstance(h, str) else h[2]) for h in harness]
        srcs = [(s if s.startswith("/") else VERIF + "/harness/" + s, f, n) for s, f, n in srcs]
        srcs += [(s, [], None) for s in repo_sources(groups)]
        common = [cxx] + BASE_FLAGS + ["-ftrivial-auto-var-init=pattern"] + [f"-D{d}" for d in defs] + list(flags) + inc
        objs, jobs = [], []
        for k, (s, fl, n) in enumerate(srcs):
            o = f"{bdir}/{k}_{n or os.path.basename(s)}.o"
            objs.append(o)
            jobs.append(common + list(fl) + ["-c", s, "-o", o])
        # longest first: harness TUs are listed first already
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(sh, jobs))
        for j, r in zip(jobs, res):
            if r.returncode:
                raise BuildError(" ".join(j) + "\n" + r.stdout[-6000:])
        exe = f"{bdir}/{name}"
        r = sh([cxx] + BASE_FLAGS + objs + ["-o", exe] + list(flags) + list(libs))
        if r.returncode:
            raise BuildError("link\n" + r.stdout[-6000:])
        for o in objs:
            os.remove(o)
        self.exes[name] = exe
        return exe

    # ------------------------------------------------------------ run
    def _run1(self, exe, args, timeout, cwd, env=None):
        e = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, OMP_NUM_THREADS="1")
        if env:
            e.update(env)
        os.makedirs(cwd, exist_ok=True)
        p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e, text=True,
                             errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = -999
        return rc, out, err

    def run(self, name, args=(), shards=NPROC, timeout=600, env=None):
        exe = self.exes[name]
        if self.replay:
            if self.replay["exe"] != name or self.replay["args"] != list(args):
                return
            rc, out, err = self._run1(exe, list(args) + ["--item", str(self.replay["item"])], timeout, self.work + "/cwd", env)
            self._parse(name, args, "replay", rc, out, err)
            return

        def one(s):
            a = list(args) + ["--shard", str(s), "--nshards", str(shards)]
            return s, self._run1(exe, a, timeout, f"{self.work}/cwd_{name}_{s}", env)

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            for s, (rc, out, err) in ex.map(one, range(shards)):
                self._parse(name, args, s, rc, out, err)

    def _parse(self, name, args, shard, rc, out, err):
        done = False
        last_at = "?"
        item = -1
        for ln in out.splitlines():
            if ln.startswith("STAT "):
                _, k, v = ln.split()
                self.stats[k] = self.stats.get(k, 0) + int(v)
            elif ln.startswith("MAXSTAT "):
                _, k, v = ln.split()
                self.maxstats[k] = max(self.maxstats.get(k, 0.0), float(v))
            elif ln.startswith("STATES "):
                self.states.update(int(x, 16) for x in ln[7:].split())
            elif ln.startswith("SAMPLE "):
                if len(self.samples) < 12:
                    self.samples.append(ln[7:])
            elif ln.startswith("VIOL "):
                it, rest = ln[5:].split(" ", 1)
                key, msg = rest.split("|", 1)
                self.viols.append(dict(key=key, msg=msg, exe=name, args=list(args), item=int(it)))
            elif ln.startswith("HASH "):
                _, k, v = ln.split()
                self.hashes.setdefault((name, tuple(args)), {})[int(k)] = v
            elif ln.startswith("AT "):
                last_at = ln[3:]
            elif ln == "DONE":
                done = True
        if not done and not any(v["exe"] == name for v in self.viols):
            # the harness reports crashes itself; this is the last resort
            if rc == -999:
                raise RuntimeError(f"harness {name} {list(args)} shard {shard} timed out at {last_at}\n{err[-2000:]}")
            raise RuntimeError(f"harness {name} {list(args)} shard {shard} ended with {rc} at {last_at}\n{out[-1500:]}\n{err[-2000:]}")

    # ------------------------------------------------------------ result
    def viol(self, key, msg, exe="", args=(), item=-1):
        self.viols.append(dict(key=key, msg=msg, exe=exe, args=list(args), item=item))

    def confirm(self):
        """replay each distinct violating item once more before reporting it"""
        out, seen = [], {}
        for v in self.viols:
            if v["item"] < 0 or v["exe"] not in self.exes:
                out.append(v)
                continue
            t = (v["exe"], tuple(v["args"]), v["item"])
            if t not in seen:
                if len(seen) >= 6:
                    seen[t] = None  # enough replays: trust determinism
                else:
                    rc, o, e = self._run1(self.exes[v["exe"]], v["args"] + ["--item", str(v["item"])], 300, self.work + "/cwd_replay")
                    seen[t] = set(l[5:].split(" ", 1)[1].split("|", 1)[0] for l in o.splitlines() if l.startswith("VIOL "))
            if seen[t] is None or v["key"] in seen[t]:
                out.append(v)
            else:
                self.notes.append(f"not reproduced on replay: {v['key']} {v['msg']}")
        if self.viols and not out:
            raise RuntimeError("violations did not reproduce on replay: " + "; ".join(self.notes[:3]))
        self.viols = out

    def finish(self):
        known = json.load(open(VERIF + "/known_findings.json"))["findings"] if os.path.exists(VERIF + "/known_findings.json") else []
        known = [k for k in known if k.get("property") == self.pid and k.get("status", "known") == "known"]
        if not self.replay:
            self.confirm()
        hit, bad = {}, []
        for v in self.viols:
            for k in known:
                if re.fullmatch(k["key"], v["key"]):
                    hit.setdefault(k["key"], [k, 0])[1] += 1
                    break
            else:
                bad.append(v)
        cov = dict(states=len(self.states) + self.stats.get("states", 0),
                   transitions=self.stats.get("transitions", 0),
                   traces_validated_against_impl=self.stats.get("executions", 0),
                   exhaustive=bool(self.exhaustive),
                   samples=self.samples or ["(none)"])
        if self.level != "model_checking":
            cov = dict(evaluations=self.stats.get("evaluations", 0), distinct_nontrivial=self.stats.get("nontrivial", 0), rule=self.rule or "",
                       exhaustive=bool(self.exhaustive), samples=self.samples or ["(none)"])
        for k, v in self.stats.items():
            if k not in ("states", "transitions", "executions"):
                cov["n_" + k] = v
        for k, v in self.maxstats.items():
            cov["max_" + k] = v
        if self.rule:
            cov["rule"] = self.rule
        if hit:
            cov["known_findings_hit"] = {k: n for k, (_, n) in hit.items()}
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k, (kf, n) in hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {kf['what']} ({n} cases)")
        if bad:
            rd = VERIF + "/replay"
            os.makedirs(rd, exist_ok=True)
            by = {}
            for v in bad:
                by.setdefault(v["key"], []).append(v)
            for n, (key, vs) in enumerate(by.items()):
                if n >= 10:
                    print(f"... and {len(by) - 10} more kinds")
                    break
                v = vs[0]
                path = f"{rd}/{self.pid}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json"
                json.dump(dict(property=self.pid, **v, how=f"python3 checks/{self.pid}.py --replay {path}"), open(path, "w"), indent=1)
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"  {key}: {v['msg']}" + (f"  (+{len(vs) - 1} more)" if len(vs) > 1 else ""))
        else:
            print(f"{self.pid} held: states={cov.get('states')} transitions={cov.get('transitions')} executions={self.stats.get('executions', 0)} wall={ev['wall_s']}s")
        self.cleanup()
        sys.stdout.flush()
        os._exit(1 if bad else 0)

    def cleanup(self):
        if not self.keep:
            shutil.rmtree(self.work, ignore_errors=True)
            try:
                os.rmdir(VERIF + "/.work")
            except OSError:
                pass


H5INC = ["-I/usr/include/hdf5/serial"]
H5LIB = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5"]


def build_main(c, name, harness, sdm=True, extra=(), flags=()):
    """a harness together with the real main(), renamed, with VTK and HDF5 output
    (the solver instantiations without optimisation: they take long to compile)"""
    defs = ["USE_HDF5"] + (["USE_SDM"] if sdm else [])
    hs = [(REPO + "/src/shared/SolverFactory.cpp", ["-O0"], "factory")]
    hs += [harness, (REPO + "/src/main.cpp", ["-Dmain=ppk_main"], "main")] + list(extra)
    return c.build(name, hs, ["monitoring", "config", "io", "io_hdf5", "shared", "muscl"] + (["io_sdm"] if sdm else []), defs=defs, flags=list(flags), libs=H5LIB, incs=H5INC)


VERSION_STUB = """#ifndef PPKMHD_VERSION_STUB
#define PPKMHD_VERSION_STUB
#include <string>
#include <iostream>
namespace ppkMHD { inline void print_version_info() {} }
#endif
"""


def main(pid, body):
    c = Check(pid)
    try:
        body(c)
        c.finish()
    except BuildError as e:
        print(f"BUILD ERROR in check {pid}:\n{e}")
        c.cleanup()
        sys.exit(2)
    except Exception as e:
        import traceback
        traceback.print_exc()
        c.cleanup()
        sys.exit(3)
