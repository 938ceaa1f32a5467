"""Scripts embedded in programs: registration, execution, external functions, main."""
from sbase import *
from sbase import S as S_
import __main__, ctypes, os, platform, clingo, scontrol, ssolve, sapp
from clingo import script as S
NAMES = ("sf", "sg", "multi", "nosuch", "serr", "sbad", "main")
def told(e):
    """the engine has to be told about the error"""
    cb_fails(int(lib.clingo_error_runtime), etext(e).encode("utf-8", "backslashreplace"), 1)
def fails(kind, force=False):
    if force or cb_wants_raise(kind):
        e = make_exc(kind); c = register(e); note_raised(c, REG[-1][1]); told(e); raise e
class telling: # errors of operations within a script
    def __enter__(self): return self
    def __exit__(self, t, e, tb):
        if e is not None: told(e)
        return False
class Iter:
    def __init__(self, xs): self.xs = xs
    def __iter__(self): return iter(self.xs)
def broken(xs, kind):
    yield from xs
    fails(kind, True)
def answer(env, lang, name, args):
    cb_receive("script:call|%s|%s|%s" % (lang, esc(name), syms(args)))
    with telling():
        if W(6) == 5 and env.users: scontrol.check_control(pick(env.users))
        for x in args: same("type", type(x), clingo.Symbol)
    fails("script:call")
    if name == "serr" and W(4): fails("script:call", True)
    r = [pick(args) if W(3) == 2 and args else rand_sym() for _ in range(Wn(4))]; how = W(8)
    if how == 0: r = [rand_sym()]; res = r[0]
    elif how == 1: res = tuple(r)
    elif how == 2: res = (x for x in r)
    elif how == 3: res = Iter(r)
    elif how == 4 and config("raises", 0) and W(3) == 2: return broken(r, "script:call_end")
    elif how == 5 and config("raises", 0) and W(4) == 3: # no symbols
        note_raised("user:wrong", ""); cb_fails(int(lib.clingo_error_runtime), "Error", 1); return (7, None, r + [1], "text")[W(3) if r else W(4)] if W(2) else r + [3.5]
    elif how == 6 and W(2): r = []; res = ()
    else: res = list(r)
    cb_promise(syms(r)); env.calls.append("script_call|%s|%s|%s|%s" % (lang, esc(name), syms(args), syms(r))); return res
def main_(env, lang, ctl):
    cb_receive("script:main|" + lang); same("type", type(ctl).__name__, "Control")
    u = User(); env.scratch.append(u); G.ids += 1; u.id = G.ids; u.label = env.label; u.logger = env.logger; u.borrowed = True; u.ctl = ctl; u.raw = raw_ctl(ctl); ctl = None
    release_faults(0)
    try:
        with telling():
            for _ in range(W(5)):
                k = W(6)
                if k == 0: scontrol.do_command(u)
                elif k == 1: ground(env, u)
                elif k <= 3: ssolve.do_solve(u)
                elif k == 4: scontrol.check_control(u)
                else: scontrol.do_backend(u)
        fails("script:main")
    finally: scontrol.end_control(u); release_faults(1)
def where(loc): # of the script in the program
    same("script:location", "%s:%d %s" % (loc.begin.filename, loc.begin.line, loc.end.filename), script_location() + " " + script_location().rpartition(":")[0])
class Lang: # a language of its own
    def execute(self, location, code):
        cb_receive("script:execute|%s|%s" % (self.lang, esc(code))); where(location); fails("script:execute"); self.code += 1
    def call(self, location, name, arguments):
        where(location); return answer(self.env, self.lang, name, arguments)
    def callable(self, name):
        cb_receive("script:callable|%s|%s" % (self.lang, esc(name))); fails("script:callable"); r = name in self.names; cb_promise(b(r)); return r
    def main(self, control): main_(self.env, self.lang, control)
def make_lang(env):
    sub = W(4) != 3; d = {k: v for k, v in vars(Lang).items() if not k.startswith("__")}; d["__slots__"] = ("env", "lang", "names", "code")
    x = type("Lang", (S.Script,) if sub else (), d)(); x.env = env; x.lang = pick(("mini", "tiny", "we|rd")); x.names = {n for n in NAMES if W(3)}; x.code = 0; v = weird_string(); dv = W(3) == 2
    if op("register_script", lambda: S.register_script(x.lang, x) if dv else S.register_script(x.lang, x, v) if W(2) else S.register_script(name=x.lang, script=x, version=v), "register_script|%s|%s" % (esc(x.lang), esc("1.0.0" if dv else v))): env.langs.add(x.lang)
    env.scripts.append(x)
def make_python(env):
    if HOST and W(3): return start_app(env)
    if op("enable_python", lambda: S.enable_python(), "register_script|python|" + platform.python_version()): env.langs.add("python")
HOST = ctypes.CDLL(None) if "SIM_EMBED" in os.environ else None
if HOST: HOST.host_args.restype = S_
def start_app(env):
    """the clingo application once more: it registers its languages and then leaves the rest to the engine"""
    av = ["clingo"] + [weird_string() for _ in range(W(4))]; c = [enc(x) for x in av] + [None]; argv = (S_ * len(c))(*c); code = pick((0, 10, 20, 30, 65, 1)); err = ctypes.create_string_buffer(4096); n = HOST.host_starts(); h = []
    def f():
        h.append(HOST.host_run(code, len(av), argv, err, 4096)); t = dec(err.value)
        if HOST.host_starts() == n: same("app:exit-code", h[0], 1); raise (MemoryError if int(lib.clingo_error_code()) == int(lib.clingo_error_bad_alloc) else RuntimeError)(t[:-1])
        same("app:exit-code", h[0], code)
    ok = op("clingo", f); same("app:started", HOST.host_starts() - n, int(ok)); want = ["register_script|python|" + platform.python_version(), "register_script|lua|5.4.6"]; e = [x for x in op_effects().split("\n") if x]
    if e[:1] == want[:1]: env.langs.add("python"); env.starts += 1
    if ok: same("app:languages", e, want); same("app:arguments", dec(HOST.host_args()), "".join(x + "\x1f" for x in av))
    else: same("app:languages", e, want[:len(e)])
SYNTAX = ("def f(:", "1 +", "x = 'abc")
def hook(env):
    def define(name, what):
        n = dict(vars(__main__)); v = vars(__main__)
        if what == 0: v.pop(name, None)
        elif what == 1: v[name] = 5
        else: v[name] = (lambda c: main_(env, "python", c)) if name == "main" else (lambda *a: answer(env, "python", name, list(a)))
        script_define("python", name, int(what == 2))
    def start(code): cb_receive("script:execute|python|" + esc(code))
    def bad(): fails("script:execute", True)
    def syntax():
        try: exec(pick(SYNTAX), {})
        except SyntaxError as e: c = register(e); note_raised(c, REG[-1][1]); cb_fails(int(lib.clingo_error_runtime), "SyntaxError", 1); raise
    __main__.SIM = {"define": define, "start": start, "bad": bad, "syntax": syntax, "fails": fails}
def execute(env, u):
    lang = pick(sorted(env.langs) + ["none"]) if env.langs and W(8) else "none"
    if lang == "python":
        env.n += 1; code = "\nSIM['start'](SIM_CODE)\nSIM['fails']('script:execute')\n"
        for _ in range(W(4)): code += "SIM['define']('%s', %d)\n" % (pick(NAMES), W(5) % 3 if W(2) else 2)
        if config("raises", 0) and W(8) == 7: code += "SIM['%s']()\n" % pick(("bad", "syntax"))
        code += "kept = '%d \u00e4'\n" % env.n; __main__.SIM_CODE = code
    else: code = pick((" code ", "", " a | b, c ", "\nmulti\nline #end\n", " 100%s ", " \u00e4 "))
    m = sum(1 for x in env.scripts if x.lang == lang); old = getattr(__main__, "kept", None)
    ok = op("Control.add(script)", lambda: u.ctl.add("base", [], "#script (%s)%s#end." % (lang, code)) if W(2) else u.ctl.add("#script (%s)%s#end." % (lang, code)), NONE if lang == "none" else "script|%s|%s" % (lang, esc(code)))
    if ok and lang == "python": same("script:namespace", getattr(__main__, "kept", None), "%d \u00e4" % env.n)
def ground(env, u):
    parts = [("base", [])] + [(weird_string(), [rand_sym()]) for _ in range(W(2))]; env.calls = []
    def f(): u.ctl.ground(parts) if W(2) else u.ctl.ground(tuple(parts), context=None)
    if op("Control.ground(script)", f): same("script:calls", [x for x in op_effects().split("\n") if x], ["ground|" + ",".join("%s:%s" % (esc(n), syms(a)) for n, a in parts)] + env.calls)
def run_main(env):
    """an application without a main function runs that of the script"""
    d = {}; G.labels += 1; env.label = 1000 + G.labels; env.logger = bool(W(2)); argv, err = sys.argv, sys.stderr
    if env.logger: d["logger"] = sapp.logger_
    a = type("App", (clingo.Application,), d)(); a.label = env.label
    for k in sapp.KINDS: cb_expect(k, int(k == "message" and env.logger))
    code = []
    def f():
        sys.stderr = sapp.Null()
        try: code.append(clingo.clingo_main(a, ["file.lp"]))
        finally: sys.stderr = err
    ok = op("clingo_main(script)", f)
    for k in sapp.KINDS: cb_expect(k, 1)
    if ok: same("app:exit-code", code[0], app_exit())
def family(env):
    env.langs = set(); env.scripts = []; env.calls = []; env.scratch = []; env.n = env.starts = 0; fin = HOST.host_finalized() if HOST else 0; env.label = 0; env.logger = False; keep = dict(vars(__main__)); hook(env)
    for n in NAMES: script_define("python", n, 0)
    try:
        for _ in range(1 + W(3)): make_python(env) if W(2) else make_lang(env)
        for _ in range(1 + (W(4) == 3)):
            u = User()
            if scontrol.make_control(u): env.users.append(u)
        for _ in range(2 + W(10)):
            if not env.users: break
            u = pick(env.users); k = W(12)
            if k <= 3: execute(env, u)
            elif k <= 7: ground(env, u)
            elif k == 8: run_main(env)
            elif k == 9: make_lang(env) if W(2) else make_python(env)
            elif k == 10: ssolve.do_solve(u)
            else: scontrol.do_command(u)
            if W(6) == 5: gc.collect()
    finally:
        for u in env.users: scontrol.end_control(u)
        script_free(); v = vars(__main__)
        if HOST: same("script:finalized", HOST.host_finalized() - fin, env.starts)
        for n in list(v):
            if n not in keep: del v[n]
        for x in env.scripts: x.env = None
