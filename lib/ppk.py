# helper of the demonstrations: run ppkMHD in a scratch directory and read its VTK files
import os, re, shutil, struct, subprocess, sys, tempfile

EXE = os.path.abspath("_build/openmp/src/ppkMHD")
EXE_MPI = os.path.abspath("_build/mpi/src/ppkMHD")


class Run:
    def __init__(self, ini, np=0, threads=1, files=()):
        self.dir = tempfile.mkdtemp(prefix="ppkdemo")
        self.run(ini, np, threads)

    def run(self, ini, np=0, threads=1, timeout=120, limit=0):
        with open(self.dir + "/t.ini", "w") as f:
            for s, kv in ini.items():
                f.write("[%s]\n" % s)
                for k, v in kv.items():
                    f.write("%s=%s\n" % (k, v))
        env = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_PROC_BIND="false", OMPI_ALLOW_RUN_AS_ROOT="1",
                   OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
                   OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
                   OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm_rsh_agent="/bin/false",
                   OMPI_MCA_oob_tcp_if_include="lo", HDF5_USE_FILE_LOCKING="FALSE")
        cmd = ["mpirun", "-n", str(np), EXE_MPI, "t.ini"] if np else [EXE, "t.ini"]
        if limit:  # exit code 124 when it does not end
            cmd = ["timeout", "-k", "5", str(limit)] + cmd
        p = subprocess.run(cmd, cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        self.rc, self.out = p.returncode, p.stdout.decode(errors="replace")
        return self

    def files(self, ext=".vti"):
        return sorted(f for f in os.listdir(self.dir) if f.endswith(ext))

    def vti(self, name):
        d = open(self.dir + "/" + name, "rb").read()
        head, _, tail = d.partition(b'<AppendedData encoding="raw">')
        h = head.decode()
        e = [int(x) for x in re.search(r'<Piece Extent="([^"]*)"', h).group(1).split()]
        n = [max(1, e[1] - e[0]), max(1, e[3] - e[2]), max(1, e[5] - e[4])]
        res = {"n": n, "ext": e}
        if tail:
            body = tail[tail.index(b"_") + 1:]
            for m in re.finditer(r'<DataArray type="(\w+)" Name="(\w+)"[^>]*offset="\s*(\d+)"', h):
                o = int(m.group(3))
                nb = struct.unpack_from("<Q", body, o)[0]
                w, c = (8, "d") if m.group(1) == "Float64" else (4, "f")
                res[m.group(2)] = struct.unpack_from("<%d%s" % (nb // w, c), body, o + 8)
        else:
            for m in re.finditer(r'<DataArray type="(\w+)" Name="(\w+)"[^>]*>([^<]*)<', h):
                res[m.group(2)] = [float(x) for x in m.group(3).split()]
        return res

    def last(self):
        return self.vti(self.files()[-1])

    def first(self):
        return self.vti(self.files()[0])

    def done(self):
        shutil.rmtree(self.dir)


def ini(solver, n, problem, L=(1, 1, 1), bc=(3, 3, 3, 3, 3, 3), steps=5, tend=10.0, hydro={}, other={}, **kw):
    d = {"run": {"solver_name": solver, "tEnd": tend, "nStepmax": steps, "nOutput": -1, "nlog": 1000},
         "mesh": {}, "hydro": {"gamma0": 1.4, "cfl": 0.5, "slope_type": 1, "problem": problem, "riemann": "hllc"},
         "output": {"outputDir": "./", "outputPrefix": "o", "outputVtkAscii": "false"},
         "other": {"implementationVersion": 0}}
    for a, x in enumerate("xyz"[:len(n)]):
        d["mesh"]["n" + x] = n[a]
        d["mesh"][x + "min"] = 0.0
        d["mesh"][x + "max"] = float(L[a])
        d["mesh"]["boundary_type_%smin" % x] = bc[2 * a]
        d["mesh"]["boundary_type_%smax" % x] = bc[2 * a + 1]
    d["hydro"].update(hydro)
    d["other"].update(other)
    for k, v in kw.items():
        d.setdefault(k, {}).update(v)
    return d


def fail(msg):
    print("FAILED:", msg)
    sys.exit(1)


def cxx(src, args=(), mpi=False):
    """Compile a program against the headers and libraries of the current build, run it."""
    b = "_build/mpi" if mpi else "_build/openmp"
    d = tempfile.mkdtemp(prefix="ppkdemo")
    open(d + "/t.cpp", "w").write(src)
    rc = subprocess.call(["g++", "-std=c++17", "-O1", "-fopenmp", "-DUSE_DOUBLE", "-w", "-I", "src", "-I", "src/utils",
                          "-I", "src/utils/config/inih", "-I", "src/shared", "-I", ".", d + "/t.cpp", "-o", d + "/t",
                          b + "/src/shared/libshared.a", b + "/src/utils/config/libconfig.a", "-lkokkoscontainers",
                          "-lkokkoscore", "-ldl"])
    if rc:
        sys.exit(0)  # not buildable: nothing is demonstrated
    p = subprocess.run([d + "/t"] + list(args), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    shutil.rmtree(d)
    print(p.stdout.decode(errors="replace"))
    return p.returncode
