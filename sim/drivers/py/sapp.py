"""Applications: options, flags, callbacks, exit codes."""
from sbase import *
import platform, runpy, weakref, clingo, scontrol, ssolve
from stheory import theory_hook
from clingo import application as A
KINDS = ("app:message_limit", "app:program_name", "app:version", "message", "app:print_model", "app:register_options", "app:validate_options", "app:main")
LIMIT, NAME, VERS, LOG, PRINT, REGO, VALID, MAIN = (1 << i for i in range(8))
OPTS = ("alpha", "beta", "gamma,g", "delta", "long-option", "alpha")
ARGS = ("--alpha=1", "--beta=a b", "--gamma=", "--delta=%s", "file.lp", "a|b,c", "--long-option=x=y", "--alpha", "--delta", "--beta=no", "--gamma=false", "--unknown", "", "--alpha=\u00e4")
class Null:
    text = ""
    def write(self, x): Null.text = (Null.text + x)[-4000:]; return len(x)
    def flush(self): pass
class printed: # the package prints errors of these callbacks
    def __enter__(self): return self
    def __exit__(self, t, e, tb):
        if e is not None: cb_fails(-1, "", 2)
        return False
class Opt: pass
def check_flags(self):
    want = dict(self.start)
    for a in self.args:
        if a[:2] == "--":
            n, _, v = a[2:].partition("=")
            if n in want: want[n] = v != "no" and v != "false"
    for o in self.opts:
        if o.flag and o.target is None: same("app:flag-memory", [x() is not None for x in o.memory], [True] * len(o.memory))
        elif o.flag: same("app:flag", "%s=%s %s" % (o.key, b(o.target.flag), b(bool(o.target))), "%s=%d %d" % (o.key, want[o.key], want[o.key]))
def parser(self, o):
    def parse(value):
        cb_receive("app:option|%s|%s" % (esc(o.key), esc(value))); r = W(16) != 15; cb_promise(b(r)); return r
    return parse
def main_(self, ctl, files):
    with printed():
        cb_receive("app:main|" + ",".join(esc(f) for f in files)); same("type", (type(ctl).__name__, type(files).__name__), ("Control", "list")); check_flags(self)
        u = User(); self.users.append(u); G.ids += 1; u.id = G.ids; u.label = self.label; u.logger = bool(self.mask & LOG); u.borrowed = True; u.ctl = ctl; u.raw = raw_ctl(ctl); ctl = None
        release_faults(0)
        try:
            for _ in range(W(6)):
                k = W(7)
                if k == 0: scontrol.do_command(u)
                elif k == 1: scontrol.do_ground(u)
                elif k <= 4: ssolve.do_solve(u)
                elif k == 5: scontrol.check_control(u)
                elif self.depth == 0 and W(4) == 3: run_app(self.env, 1, self.mask)
                else: scontrol.do_backend(u)
            maybe_raise("app:main")
        finally: scontrol.end_control(u); release_faults(1)
def print_(self, m, printer):
    with printed():
        cb_receive("app:print_model|" + orc("model", raw_model(m)))
        if W(4) == 3: ssolve.check_model(m, None, False)
        for _ in range(W(3)): op("default_printer", lambda: printer(), "default_print")
        maybe_raise("app:print_model")
def register_(self, options):
    cb_receive("app:register_options|"); theory_hook("register_options", options); todo = [pick(OPTS) for _ in range(W(4))]
    if W(8) != 7:
        for a in self.args:
            for o in OPTS[:5]:
                if a.startswith("--" + o.partition(",")[0]) and o not in todo: todo.append(o)
    G.calm += 1
    for nm in todo:
        o = Opt(); o.key = nm.partition(",")[0]; o.group = "Group" if W(2) else weird_string(); o.desc = "does things" if W(2) else weird_string(); o.arg = ("<arg>" if W(2) else weird_string()) if W(2) else None; o.multi = W(4) != 3; o.flag = W(3) == 2; v = bool(W(2)); o.target = None
        dup = any(x.key == o.key for x in self.opts)
        if o.flag:
            o.target = A.Flag(v) if v or W(2) else A.Flag()
            if W(4) == 3: v = not v; o.target.flag = v
            ok = op("ApplicationOptions.add_flag", lambda: options.add_flag(o.group, nm, o.desc, o.target), NONE if dup else "flag|%s|%s|%s" % (esc(o.group), esc(nm), esc(o.desc)))
        else:
            def f():
                p = parser(self, o)
                if o.arg is None and not o.multi: options.add(o.group, nm, o.desc, p)
                elif o.arg is None: options.add(o.group, nm, o.desc, p, o.multi)
                elif W(2): options.add(o.group, nm, o.desc, p, o.multi, o.arg)
                else: options.add(o.group, option=nm, description=o.desc, parser=p, argument=o.arg, multi=o.multi)
            ok = op("ApplicationOptions.add", f, NONE if dup else "option|%s|%s|%s|%d|%s" % (esc(o.group), esc(nm), esc(o.desc), o.multi, "none" if o.arg is None else esc(o.arg)))
        if ok:
            self.opts.append(o)
            if o.flag: self.start[o.key] = v
            if o.flag and W(4) == 3: # a flag nobody else refers to: the engine still writes to it
                o.memory = [weakref.ref(x) for x in vars(o.target).values() if isinstance(x, ffi.CData)]; o.target = None; gc.collect()
    G.calm -= 1
    if W(3) == 2: gc.collect()
def validate_(self):
    cb_receive("app:validate_options|"); check_flags(self); r = not cb_wants_raise("app:validate_options")
    if not r: note_raised("user:invalid", ""); cb_fails(-1, "", 2)
    return r
def logger_(self, code, message): cb_receive("message|%d|%d|%s" % (self.label, code.value, esc(message)))
def attr_(self, name):
    v = object.__getattribute__(self, name)
    if name in ("program_name", "version", "message_limit") and cb_depth() > self.base: cb_receive("app:%s|" % name); cb_promise(str(v))
    return v
def run_app(env, depth, mask):
    sub = W(4) != 3; name = "prog" if W(2) else weird_string(); vers = "1.2.3" if W(2) else weird_string(); lim = rand_limit(); d = {"__getattribute__": attr_}; own = W(2); vals = []
    for bit, n, v in ((NAME, "program_name", name), (VERS, "version", vers), (LIMIT, "message_limit", lim)):
        if mask & bit: (vals.append((n, v)) if own else d.__setitem__(n, v))
    for bit, n, f in ((LOG, "logger", logger_), (PRINT, "print_model", print_), (REGO, "register_options", register_), (VALID, "validate_options", validate_), (MAIN, "main", main_)):
        if mask & bit: d[n] = f
    a = type("App", (A.Application,) if sub else (), d)(); G.labels += 1; a.label = 1000 + G.labels; a.env = env; a.mask = mask; a.depth = depth; a.users = []; a.opts = []; a.start = {}; a.base = cb_depth(); a.args = []
    for n, v in vals: setattr(a, n, v)
    for _ in range(W(6)):
        k = W(14)
        if k == 11 and W(3): k = 4
        a.args.append(ARGS[k])
    for i, k in enumerate(KINDS): cb_expect(k, mask >> i & 1)
    code = []; how = W(4); argv, err = sys.argv, sys.stderr
    def f():
        if how == 0: sys.argv = ["program"] + a.args
        Null.text = ""; sys.stderr = Null()
        try: code.append(A.clingo_main(a) if how == 0 else A.clingo_main(a, tuple(a.args)) if how == 1 else A.clingo_main(application=a, arguments=a.args) if how == 2 else A.clingo_main(a, a.args))
        finally: sys.argv, sys.stderr = argv, err
    ran = op("clingo_main", f)
    for k in KINDS: cb_expect(k, 1)
    if not ran: return
    same("app:exit-code", code[0], app_exit()); probe("app:failed" if code[0] in (33, 65, 97) else "app:ok")
    same("app:arguments", op_effects().split("\n")[0], "main|" + ",".join(esc(x) for x in a.args)); same("app:name", app_name(), name if mask & NAME else "clingo")
    if mask & VERS: same("app:version", app_version(), vers)
MARGS = ("file.lp", "--enable-python", "missing.lp", "a|b,c", "--enable-python=no", "sub dir/other.lp", "--unknown", "--enable-python=yes", "\u00e4.lp", "-")
def run_module(env):
    """python -m clingo"""
    G.labels += 1; args = [pick(MARGS) if W(6) else MARGS[W(2)] for _ in range(W(5))]; code = []; argv, err, out = sys.argv, sys.stderr, sys.stdout; files = [x for x in args if x[:2] != "--"]; flags = [x for x in args if x.split("=")[0] == "--enable-python"]
    for k in KINDS: cb_expect(k, 0)
    expect_events(0, 0, 0, 0); whole(1, "options_add_flag")
    def f():
        sys.argv = ["clingo"] + args; Null.text = ""; sys.stderr = Null()
        try: runpy.run_module("clingo", run_name="__main__"); code.append(0)
        except SystemExit as e: code.append(0 if e.code is None else e.code)
        finally: sys.argv, sys.stderr = argv, err
    ran = op("python -m clingo", f); whole(0, "")
    for k in KINDS: cb_expect(k, 1)
    if not ran: return
    same("app:exit-code", code[0], app_exit()); want = ["main|" + ",".join(esc(x) for x in args), "flag|Basic Options|enable-python|Enable Python script tags"] + ["flag_set|enable-python" for _ in flags]; ok = code[0] not in (33, 65, 97)
    if flags and flags[-1] != "--enable-python=no": want.append("register_script|python|" + platform.python_version())
    got = [x for x in op_effects().split("\n") if x]; want += ["load|" + esc(x) for x in files or ["-"]] + ["ground|base:", "solve|0|", "close"]
    if ok: same("app:name", app_name(), "pyclingo"); probe("app:module")
    if ok or got != want[:len(got)]: same("app:effects", got, want)
def family(env):
    if W(6) == 5: run_module(env)
    for _ in range(1 + W(3)): run_app(env, 0, 255 if W(3) != 2 else W(256))
