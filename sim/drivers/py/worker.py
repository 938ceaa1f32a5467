"""Worker: runs one simulated execution per seed, or replays one. usage: worker.py BUILD PACKAGE --prop N --seeds A B --out FILE --dir DIR ..."""
import ctypes, os, signal, sys
BUILD, PKG = sys.argv[1], sys.argv[2]
EMBED = "SIM_EMBED" in os.environ; HERE = os.path.dirname(os.path.abspath(sys.argv[0])); sys.path[:1] = [HERE, PKG] if EMBED else [HERE, BUILD, PKG]
sys.dont_write_bytecode = True
_exit = os._exit; SAVE = [None]
def exit_now(code):
    if SAVE[0]: import sbase; sbase.save(SAVE[0])
    sys.__stderr__.write(getattr(sys.stderr, "text", "")); sys.__stderr__.flush(); _exit(code)
os._exit = exit_now # the package ends the process on panic: leave the choices for the replay
import gc
import sbase as s
from sbase import W
gc.disable()
s.faults(0) if False else None
if not EMBED: s.begin(1, "faults=0 raises=0 prop=1", None) # the package talks to the engine while it is imported
import clingo, clingo.ast, clingo.script, clingo.application, clingo.theory, clingo.util
from clingo import core, symbol, symbolic_atoms, theory_atoms, configuration, statistics, solving, propagator, backend, control
if EMBED: # the package was imported before
    for m in [m for n, m in sys.modules.items() if n.split(".")[0] == "clingo"]:
        for k, v in list(vars(m).items()):
            if v is s.ffi: setattr(m, k, s.memory)
s.init_symbols(type(symbol.Infimum), symbol.Infimum)
import scontrol, ssolve
FAM = {}
for n in ("sast", "sapp", "sscript", "ssymbols", "slifecycle"):
    if os.path.exists(os.path.join(HERE, n + ".py")): FAM[n[1:]] = __import__(n).family
s.end()
s.watch([m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "clingo" and getattr(m, "__file__", None)])
gc.collect(); gc.freeze()
BP = ((0,), (4,4,4,4,1,1,4,2), (1,4,6,0,2,3,1,1), (1,2,9,0,0,1,1,1), (3,3,5,4,1,1,1,1), (1,6,4,4,4,4,1,0), (6,3,2,6,1,1,1,1), (0,2,8,0,0,6,1,0), (2,4,4,2,0,1,9,3), (3,4,4,2,1,1,3,1), (3,4,4,2,1,1,3,1), (0,2,7,0,0,0,1,7), (3,4,4,2,1,1,3,1), (8,5,4,2,1,1,2,0), (4,4,5,5,2,2,4,3))
FW = ((1,0,0,0,0,0,0), (8,3,2,1,2,1,1), (8,2,1,1,0,3,2), (9,0,0,0,0,1,1), (8,3,2,2,0,4,1), (9,2,1,0,0,0,1), (9,1,0,0,0,0,1), (5,0,0,0,0,0,1), (9,1,0,0,3,0,1), (0,0,1,0,0,0,0), (0,0,0,1,0,0,0), (6,0,0,0,0,0,1), (0,1,0,0,0,0,0), (8,2,2,0,0,0,2), (9,4,2,2,1,2,1))
FN = ("session", "ast", "app", "script", "symbols", "lifecycle", "clients")
def session(env):
    p = env.prop
    for _ in range(1 + W(3) if p == 13 else 1 + (W(5) == 4)):
        u = s.User()
        if scontrol.make_control(u): env.users.append(u)
    if not env.users: return
    if p in (5, 7):
        for u in env.users:
            for _ in range(1 + W(3)): scontrol.add_propagator(u) if p == 7 or W(2) else scontrol.add_observer(u)
    for _ in range(2 + W(10)): act(env.users[W(len(env.users))], BP[p])
    for u in env.users: scontrol.end_control(u)
def act(u, w):
    k = W(sum(w)); f = 0
    while k >= w[f]: k -= w[f]; f += 1
    action(u, f)
def client(env, u):
    """a client with a control of its own, on its own thread"""
    s.client(); p = env.prop
    try:
        for _ in range(1 + (W(4) == 3)):
            if not scontrol.make_control(u): continue
            if p in (5, 7) and W(2): scontrol.add_propagator(u) if W(2) else scontrol.add_observer(u)
            for _ in range(1 + W(6)): act(u, BP[p])
            scontrol.end_control(u); u.nobs = u.nprop = 0
    except BaseException as e: escaped(e)
def clients(env):
    s.G.shared = 1; us = [s.User() for _ in range(2 + W(2))]; cb = [s.TASK(lambda _, u=u: client(env, u)) for u in us]; ts = [s.spawn(c, None, "client") for c in cb]
    for t in ts: s.join(t)
def escaped(e):
    import traceback; tb = "".join(traceback.format_exception(e)); s.violation("exception-escaped-driver", "%s: %s" % s.classify(e) + "\n" + tb[-2500:]); s.strip(e)
def action(u, f):
    if f == 0: scontrol.do_command(u)
    elif f == 1: scontrol.do_ground(u)
    elif f == 2: ssolve.do_solve(u)
    elif f == 3: scontrol.do_backend(u)
    elif f == 4: u.nobs < 3 and scontrol.add_observer(u)
    elif f == 5: u.nprop < 3 and scontrol.add_propagator(u)
    elif f == 6:
        for _ in range(1 + W(3)): scontrol.check_control(u)
    else: ssolve.check_stats(u)
def scenario(env):
    w = FW[env.prop]; o = s.config("family", 0)
    if o: w = tuple(1 if i == o - 1 else 0 for i in range(7))
    k = W(sum(w)); f = 0
    while k >= w[f]: k -= w[f]; f += 1
    s.probe("family:" + FN[f]); s.phase(FN[f])
    if f == 0: session(env)
    elif f == 6: clients(env)
    elif FN[f] in FAM: FAM[FN[f]](env)
def run(seed, cfg, replay, save, always):
    s.fatal_files(OUT, save); SAVE[0] = save; s.crash_file(save); s.reset(); s.begin(seed, cfg, replay); env = s.Env(PROP)
    try: scenario(env)
    except BaseException as e:
        import traceback; tb = "".join(traceback.format_exception(e)); s.violation("exception-escaped-driver", "%s: %s" % s.classify(e) + "\n" + tb[-2500:]); s.strip(e); e = None
    s.faults(0); s.REG.clear(); env.users.clear(); gc.collect()
    v = s.end()
    if v or always: s.save(save)
    with open(OUT, "a", encoding="utf-8", errors="surrogateescape") as f: f.write("RUN\n" + s.report() + "ENDRUN\n")
    if always and s.VERB: pass
    return v
def worker_main(argv):
    global OUT, PROP
    OUT = dir_ = None; PROP = 1; a = b = 1; cfg = ""; replay = None; always = fork = False; i = 0
    while i < len(argv):
        x = argv[i]
        if x == "--prop": PROP = int(argv[i + 1]); i += 1
        elif x == "--seeds": a, b = int(argv[i + 1]), int(argv[i + 2]); i += 2
        elif x == "--out": OUT = argv[i + 1]; i += 1
        elif x == "--dir": dir_ = argv[i + 1]; i += 1
        elif x == "--cfg": cfg = argv[i + 1]; i += 1
        elif x == "--replay": replay = argv[i + 1]; i += 1
        elif x == "--always": always = True
        elif x == "--fork": fork = True
        elif x == "--verbose": s.set_verbose(1)
        i += 1
    if not OUT or not dir_: print("usage", file=sys.stderr); return 2
    cfg += " stat_empty=0%s prop=%d" % (" allocs=2" if PROP == 14 else "", PROP); s.VERB = False
    if replay: run(0, cfg, replay, dir_ + "/replayed.replay", True); return 0
    for n in range(a, b):
        with open(OUT, "a") as f: f.write("START %d\n" % n)
        if not fork: run(n, cfg, None, "%s/seed%d.replay" % (dir_, n), always); continue
        parent = os.getpid(); child = os.fork() # each run starts from the same state of the process
        if child == 0:
            ctypes.CDLL(None).prctl(1, signal.SIGKILL) # PR_SET_PDEATHSIG
            if os.getppid() != parent: _exit(2)
            run(n, cfg, None, "%s/seed%d.replay" % (dir_, n), always); sys.stdout.flush(); sys.stderr.flush(); _exit(0)
        st = os.waitpid(child, 0)[1]
        if os.WIFSIGNALED(st): signal.signal(os.WTERMSIG(st), signal.SIG_DFL); os.kill(parent, os.WTERMSIG(st))
        if st: _exit(os.WEXITSTATUS(st) if os.WIFEXITED(st) else 2)
    with open(OUT, "a") as f: f.write("DONE\n")
    return 0
r = worker_main(sys.argv[3:]); sys.stdout.flush(); sys.stderr.flush(); _exit(r)
