"""The wrapper for theories: a stand-in for a theory library behind the real wrapper."""
from sbase import *
from clingo.theory import Theory
import clingo.symbol as SY
class FakeFFI:
    """cffi of a theory library: the types of the library's own prefix are mapped to what clingo's cffi knows"""
    def __init__(self, lib): self.lib = lib
    def new(self, t, init=None):
        if t == "sim_value_t*":
            class Value: type = 0
            return Value()
        return ffi.new("void**" if t == "sim_theory_t**" else t)
    def cast(self, t, v): return ffi.cast(t, v)
    def new_handle(self, o): return ffi.new_handle(o)
    def from_handle(self, o): return ffi.from_handle(o)
    def def_extern(self, name, onerror):
        def deco(f):
            def call(*a): # like cffi: exceptions go to the handler with the traceback that starts in the callback
                try: return bool(f(*a))
                except BaseException as e: ex = e
                r = onerror(type(ex), ex, ex.__traceback__.tb_next); strip(ex) if False else None; return bool(r)
            setattr(self.lib, name, call); return f
        return deco
class FakeLib:
    def __init__(self, version, values): self.log = []; self.version = version; self.values = values; self.nodes = []; self.emitted = 0
    def sim_create(self, p): p[0] = ffi.cast("void*", 4711); return True
    def sim_destroy(self, t): self.log.append("destroy|%d" % addr(t)); return True
    def sim_version(self, a, b, c): a[0], b[0], c[0] = self.version
    def sim_rewrite_ast(self, t, ast, add, data):
        self.log.append("rewrite|%d" % addr(ast))
        for n in [addr(ast)] + self.nodes:
            self.emitted += 1
            if not add(ffi.cast("void*", n), data): return False
        return True
    def sim_lookup_symbol(self, t, s, p):
        for i, v in enumerate(self.values):
            if v[0] == s: p[0] = i; return True
        return False
    def sim_get_symbol(self, t, i): return self.values[i][0]
    def sim_assignment_begin(self, t, th, p): p[0] = 2 ** 64 - 1
    def sim_assignment_next(self, t, th, p):
        i = (p[0] + 1) % 2 ** 64
        while i < len(self.values) and self.values[i][1 + th] is None: i += 1
        p[0] = i; return i < len(self.values)
    def sim_assignment_has_value(self, t, th, i): return self.values[i][1 + th] is not None
    def sim_assignment_get_value(self, t, th, i, v):
        x = self.values[i][1 + th]
        if isinstance(x, tuple): v.type = 2; v.symbol = x[0]
        elif isinstance(x, float): v.type = 1; v.double_number = x
        else: v.type = 0; v.int_number = x
    fail = None
    def fails(self): # a failing call of the theory library
        if not self.fail: return True
        f = self.fail; self.fail = None; lib.clingo_set_error(f[0], f[1].encode()); return False
    def sim_configure(self, t, k, v): self.log.append("configure|%s|%s" % (dec(k), dec(v))); return self.fails()
def _x(what): return lambda self, t, *a: (self.log.append("|".join([what] + [str(addr(x)) for x in a])), self.fails())[1]
for _w in "register prepare on_model on_statistics validate_options register_options".split(): setattr(FakeLib, "sim_" + _w, _x(_w))
def rval():
    k = W(4)
    return None if k == 0 else weird_number() if k == 1 else float(weird_number()) / 4 if k == 2 else (raw_sym(1),)
def vals(v): return "None" if v is None else "s" + sym(mksym(v[0])) if isinstance(v, tuple) else repr(v)
def api(v): return "s" + sym(v) if isinstance(v, SY.Symbol) else repr(v)
def call(L, name, f):
    """a call into the theory library that may fail"""
    L.fail = e = (pick((1, 2, 3, 4)), pick(("theory failed", "a%sb", "\u00fc"))) if not G.calm and W(5) == 4 else None
    def g():
        r = None
        try: f()
        except (MemoryError, RuntimeError) as x:
            if op_failures(): raise
            r = type(x).__name__ + "|" + str(x)
        same("theory-error", r, None if not e else ("MemoryError|" if e[0] == 3 else "RuntimeError|") + e[1]); L.fail = None
    G.calm += 1; op(name, g, NONE); G.calm -= 1
def theory_hook(what, *objs):
    """a theory that is informed about what clingo passes to a callback"""
    if W(6) < 5: return
    L = FakeLib((1, 2, 3), []); h = []
    G.calm += 1; ok = op("Theory", lambda: h.append(Theory("sim", L, FakeFFI(L))), NONE); G.calm -= 1
    if not ok: return
    call(L, "Theory." + what, lambda: getattr(h[0], what)(*objs)); want = ["|".join([what] + [str(raw_any(o)) for o in objs])]; same("theory-calls", L.log, want)
    h.clear(); [L.__dict__.pop(x) for x in list(L.__dict__) if "rewrite" in x]; gc.collect()
    if L.log != want: same("theory-destroyed", L.log, want + ["destroy|4711"]) # (another client may be collecting)
def do_theory(p, env, text, ptr, Twin):
    reps = []
    for _ in range(W(5)):
        r = raw_sym(1)
        if r not in reps: reps.append(r)
    L = FakeLib((W(9), W(9), W(9)), [(r, rval(), rval()) for r in reps]); h = []; want = []
    if not op("Theory", lambda: h.append(Theory("sim", L, FakeFFI(L))), NONE): return
    t = h[0]
    for _ in range(1 + W(6)):
        k = W(9)
        if k == 0: op("Theory.version", lambda: same("theory-version", t.version(), L.version), NONE)
        elif k == 1: a, v = weird_string(), weird_string(); want.append("configure|%s|%s" % (a, v)); call(L, "Theory.configure", lambda: t.configure(a, v))
        elif k == 2 and env.users:
            u = env.users[W(len(env.users))]; r = W(2); want.append("%s|%d" % ("register" if r else "prepare", u.raw)); call(L, "Theory.register", lambda: t.register(u.ctl) if r else t.prepare(u.ctl))
        elif k == 3: want.append("validate_options"); call(L, "Theory.validate_options", lambda: t.validate_options())
        elif k == 4:
            th = W(2)
            op("Theory.assignment", lambda: same("theory-assignment", ["%s=%s" % (sym(a), api(v)) for a, v in t.assignment(th)], ["%s=%s" % (sym(mksym(x[0])), vals(x[1 + th])) for x in L.values if x[1 + th] is not None]), NONE)
        elif k == 5 and L.values:
            i = W(len(L.values)); th = W(2); s = mksym(L.values[i][0])
            def f():
                same("theory-lookup", t.lookup_symbol(s), i); same("theory-symbol", sym(t.get_symbol(i)), sym(s)); same("theory-has-value", t.has_value(th, i), L.values[i][1 + th] is not None)
                if L.values[i][1 + th] is not None: same("theory-value", api(t.get_value(th, i)), vals(L.values[i][1 + th]))
            op("Theory.value", f, NONE)
        elif k == 6: s = rand_sym(1); op("Theory.lookup_symbol", lambda: same("theory-lookup", t.lookup_symbol(s), reps.index(rep(s)) if rep(s) in reps else None), NONE)
        elif k >= 7 and p.n:
            x = p.any(); tw = [Twin(p.any()) for _ in range(W(3))]; L.nodes = [y.p for y in tw]; L.emitted = 0; got = []; thr = W(3) == 2; at = W(3); exp = [text(x)] + [y.text() for y in tw]; want.append("rewrite|%d" % ptr(x)); inner = W(3) == 2; c = p.any()
            def add(n):
                if thr and len(got) == at: raise_user("rewrite")
                got.append(n)
                if inner: op("AST.str", lambda: str(c), NONE)
            if op("Theory.rewrite_ast", lambda: t.rewrite_ast(x, add), NONE): same("theory-rewrite", [text(n) for n in got], exp)
            L.nodes = []
            for n in got: p.add(n)
            got.clear(); tw = None
    same("theory-calls", L.log, want); h.clear(); t = None; [L.__dict__.pop(x) for x in list(L.__dict__) if "rewrite" in x]; gc.collect(); same("theory-destroyed", L.log, want + ["destroy|4711"])
