"""Builds the simulator and the drivers from /repo's current working tree into /verif/build/<hash>."""
import hashlib, os, shutil, subprocess, sys, sysconfig, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("SIM_REPO", "/repo")
ENG = VERIF + "/sim/engine"
DRV = VERIF + "/sim/drivers"


def files(*roots):
    for r in roots:
        if os.path.isfile(r):
            yield r
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "build", ".git"))
            for f in sorted(fs):
                yield os.path.join(d, f)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(set(paths)):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def par(cmds):
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    for c, p in ps:
        o, _ = p.communicate()
        if p.returncode:
            raise BuildError(" ".join(c) + "\n" + o[-4000:])


def done(d):
    return os.path.exists(d + "/ok")


def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)


CXX = ["g++", "-std=c++17", "-O1", "-g1", "-fPIC", "-fno-gnu-unique", "-w"]


def engine():
    d = VERIF + "/build/engine-" + digest(files(ENG, VERIF + "/sim/abi"))
    if done(d):
        return d
    fresh(d)
    par([["python3", ENG + "/gen_seam.py", VERIF + "/sim/abi/clingo.h", d]])
    src = ["core", "engine", "solve", "ast", "app"]
    par([CXX + ["-I" + ENG, "-I" + d, "-c", f"{ENG}/{f}.cc", "-o", f"{d}/{f}.o"] for f in src]
        + [CXX + ["-I" + ENG, "-I" + d, "-c", f"{d}/gen_seam.cc", "-o", f"{d}/gen_seam.o"]])
    par([["g++", "-shared", "-Wl,-soname,libclingo.so.4", "-Wl,-z,defs", "-Wl,-Bsymbolic", "-fno-gnu-unique", "-o", d + "/libclingo.so.4"]
         + [f"{d}/{f}.o" for f in src + ["gen_seam"]] + ["-lpthread"]])
    os.symlink("libclingo.so.4", d + "/libclingo.so")
    open(d + "/ok", "w").close()
    return d


def cpp():
    e = engine()
    d = VERIF + "/build/cpp-" + digest(list(files(DRV + "/cpp", REPO + "/libclingo/clingo.h", REPO + "/libclingo/clingo.hh")) + [e + "/gen_seam.cc"]) + "-" + e[-16:]
    if done(d):
        return d
    fresh(d)
    fs = sorted(f[:-3] for f in os.listdir(DRV + "/cpp") if f.endswith(".cc"))
    # preemption points go into every basic block of the code under test (a header) and its users
    par([["g++", "-std=c++17", "-O1", "-g1", "-w", "-DNDEBUG"] + (["-fsanitize-coverage=trace-pc"] if f != "common" else [])
         + ["-I" + REPO + "/libclingo", "-I" + e, "-I" + ENG, "-c", f"{DRV}/cpp/{f}.cc", "-o", f"{d}/{f}.o"] for f in fs])
    par([["g++", "-rdynamic", "-o", d + "/driver"] + [f"{d}/{f}.o" for f in fs] + [e + "/libclingo.so.4", "-lpthread", "-Wl,-rpath," + e]])
    open(d + "/ok", "w").close()
    return d


def oracle(e):
    """libsimorc.so: texts of engine objects, beside the engine"""
    d = VERIF + "/build/oracle-" + digest(files(DRV + "/common")) + "-" + e[-16:]
    if done(d):
        return d
    fresh(d)
    par([CXX + ["-I" + ENG, "-I" + e, "-I" + VERIF + "/sim/abi", "-shared", "-o", d + "/libsimorc.so", DRV + "/common/oracle.cc", e + "/libclingo.so.4", "-Wl,-rpath," + e]])
    open(d + "/ok", "w").close()
    return d


def py():
    e = engine()
    o = oracle(e)
    d = VERIF + "/build/py-" + digest([REPO + "/libclingo/clingo.h", REPO + "/app/pyclingo/_clingo.c", e + "/gen_seam.cc"] + list(files(DRV + "/py"))) + "-" + o[-33:]
    if done(d):
        return d
    fresh(d)
    inc = sysconfig.get_paths()["include"]
    par([["gcc", "-O1", "-g0", "-w", "-fPIC", "-shared", "-I" + inc, "-I" + REPO + "/libclingo", "-o", d + "/_clingo" + sysconfig.get_config_var("EXT_SUFFIX"), REPO + "/app/pyclingo/_clingo.c", e + "/libclingo.so.4", "-Wl,-rpath," + e]])
    os.symlink(o + "/libsimorc.so", d + "/libsimorc.so")
    os.symlink(e + "/libclingo.so.4", d + "/libclingo.so.4")
    open(d + "/ok", "w").close()
    return d


def lua():
    """host: an interpreter whose clingo module is /repo's luaclingo.cc"""
    e = engine()
    o = oracle(e)
    src = REPO + "/libluaclingo"
    d = VERIF + "/build/lua-" + digest([REPO + "/libclingo/clingo.h", e + "/gen_seam.cc"] + list(files(src)) + [REPO + "/app/luaclingo/main.cc"] + list(files(DRV + "/lua"))) + "-" + o[-33:]
    if done(d):
        return d
    fresh(d)
    inc = ["-I/usr/include/lua5.4"]
    cx = ["g++", "-std=c++14", "-O1", "-g1", "-w", "-DNDEBUG", "-DCLINGO_WITH_LUA", "-fsanitize-coverage=trace-pc", "-I" + REPO + "/libclingo", "-I" + src] + inc
    par([cx + ["-c", src + "/luaclingo.cc", "-o", d + "/luaclingo.o"], cx + ["-c", REPO + "/app/luaclingo/main.cc", "-o", d + "/main.o"],
         ["g++", "-std=c++17", "-O1", "-g1", "-w", "-I" + ENG] + inc + ["-c", DRV + "/lua/host.cc", "-o", d + "/host.o"],
         ["g++", "-std=c++17", "-O1", "-g1", "-w", "-I" + VERIF + "/sim/abi", "-c", DRV + "/lua/error.cc", "-o", d + "/error.o"]])
    par([["g++", "-rdynamic", "-o", d + "/host", d + "/host.o", d + "/error.o", d + "/luaclingo.o", d + "/main.o", o + "/libsimorc.so", e + "/libclingo.so.4", "-llua5.4", "-lpthread", "-Wl,-rpath," + o, "-Wl,-rpath," + e]])
    open(d + "/ok", "w").close()
    return d


def app():
    """host: the clingo application with Python and Lua embedded, around the Python driver"""
    e = engine()
    o = oracle(e)
    pkg, lsrc, main = REPO + "/libpyclingo", REPO + "/libluaclingo", REPO + "/app/clingo/main.cc"
    own = [pkg + "/" + x for x in ("_clingo.c", "pyclingo.c", "pyclingo.h", "version.h.in")]
    d = VERIF + "/build/app-" + digest([REPO + "/libclingo/clingo.h", e + "/gen_seam.cc", main] + own + list(files(lsrc)) + list(files(DRV + "/app"))) + "-" + o[-33:]
    if done(d):
        return d
    fresh(d)
    with open(pkg + "/version.h.in") as f, open(d + "/version.h", "w") as g:
        g.write(f.read().replace("@Python_VERSION@", sys.version.split()[0]))
    inc = ["-I" + d, "-I" + sysconfig.get_paths()["include"], "-I/usr/include/lua5.4", "-I" + REPO + "/libclingo", "-I" + pkg, "-I" + lsrc, "-I" + ENG]
    cc = ["gcc", "-O1", "-g0", "-w", "-fPIC"] + inc
    cx = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-DCLINGO_WITH_PYTHON", "-DCLINGO_WITH_LUA", "-DNDEBUG"] + inc
    par([cc + ["-c", pkg + "/_clingo.c", "-o", d + "/clingo_py.o"], cc + ["-c", pkg + "/pyclingo.c", "-o", d + "/pyclingo.o"], cx + ["-c", lsrc + "/luaclingo.cc", "-o", d + "/luaclingo.o"],
         cx + ["-Dmain=app_main", "-include", DRV + "/app/main.hh", "-c", main, "-o", d + "/main.o"], cx + ["-c", DRV + "/app/host.cc", "-o", d + "/host.o"]])
    par([["g++", "-rdynamic", "-Wl,--wrap=Py_Finalize", "-o", d + "/host"] + [d + "/" + x + ".o" for x in ("host", "main", "pyclingo", "clingo_py", "luaclingo")]
         + [e + "/libclingo.so.4", "-lpython3.%d" % sys.version_info[1], "-llua5.4", "-lpthread", "-ldl", "-Wl,-rpath," + e]])
    os.symlink(o + "/libsimorc.so", d + "/libsimorc.so")
    os.symlink(e + "/libclingo.so.4", d + "/libclingo.so.4")
    open(d + "/ok", "w").close()
    return d


def command(driver):
    """argv prefix of the worker of a driver, after building it"""
    if driver == "cpp":
        return [cpp() + "/driver"]
    if driver == "py":
        return ["/usr/bin/env", "PYTHONDONTWRITEBYTECODE=1", "/usr/bin/python3", "-s", DRV + "/py/worker.py", py(), REPO + "/libpyclingo"]
    if driver == "app":
        d = app()
        return ["/usr/bin/env", "PYTHONDONTWRITEBYTECODE=1", "PYTHONNOUSERSITE=1", "SIM_EMBED=1", "LC_ALL=C.UTF-8", "PYTHONPATH=" + DRV + "/py:" + REPO + "/libpyclingo", d + "/host", DRV + "/py/worker.py", d, REPO + "/libpyclingo"]
    if driver == "lua":
        return [lua() + "/host", DRV + "/lua/driver.lua"]
    raise BuildError("unknown driver " + driver)


if __name__ == "__main__":
    t = time.time()
    for x in sys.argv[1:] or ["cpp", "py", "lua", "app"]:
        print(x, command(x), "%.1fs" % (time.time() - t))
