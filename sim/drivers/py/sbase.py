"""Shared parts of the Python driver: bindings to the simulator, judged operations, user exceptions, engine texts."""
import ctypes, gc, os, sys
import _clingo
from _clingo import ffi, lib
BUILD, PKG = sys.argv[1], sys.argv[2]
_p = ctypes.PyDLL(BUILD + "/libclingo.so.4"); _c = ctypes.CDLL(BUILD + "/libclingo.so.4"); _o = ctypes.PyDLL(BUILD + "/libsimorc.so")
S, I, U, V, D = ctypes.c_char_p, ctypes.c_int, ctypes.c_uint32, ctypes.c_void_p, ctypes.c_double
WORK, SCHED, FAULT, DATA = 0, 1, 2, 3
def enc(s): return s if s is None or isinstance(s, bytes) else s.encode("utf-8", "surrogatepass").split(b"\0")[0]
def dec(b):
    try: return "" if b is None else b.decode("utf-8", "surrogatepass")
    except UnicodeDecodeError: return b.decode("utf-8", "backslashreplace")
def _fn(name, res, *args, yields=False):
    f = getattr(_c if yields else _p, name); f.restype = res; f.argtypes = list(args)
    si = [i for i, a in enumerate(args) if a is S]
    if not si and res is not S: return f
    def g(*a):
        a = list(a)
        for i in si: a[i] = enc(a[i])
        r = f(*a); return dec(r) if res is S else r
    return g
begin = _fn("sim_begin", None, ctypes.c_uint64, S, S, yields=True); end = _fn("sim_end", I, yields=True)
choose = _fn("sim_choose", U, I, U); sizes = _fn("sim_many", U, I, U); chance = _fn("sim_chance", I, I, U, U); config = _fn("sim_config", I, S, I)
probe = _fn("sim_probe", None, S); _violation = _fn("sim_violation", None, S, S); report = _fn("sim_report", S); clock = _fn("sim_clock", D)
save = _fn("sim_save", None, S); set_verbose = _fn("sim_set_verbose", None, I); phase = _fn("sim_phase", None, S); slog = _fn("sim_log", None, S)
yield_ = _fn("sim_yield", None, yields=True); _preempt = _fn("sim_preempt_point", None, yields=True); join = _fn("sim_join", None, I, yields=True); client = _fn("sim_client", None)
TASK = ctypes.CFUNCTYPE(None, V); spawn = _fn("sim_spawn", I, TASK, V, S, yields=True)
op_begin = _fn("sim_op_begin", None, S, yields=True); op_expect = _fn("sim_op_expect", None, S); op_expect_none = _fn("sim_op_expect_none", None)
op_expect_raise = _fn("sim_op_expect_raise", None, S); op_may_raise = _fn("sim_op_may_raise", None, S); note_raised = _fn("sim_op_note_raised", None, S, S)
_op_end = _fn("sim_op_end", I, S, S, S, yields=True); op_effects = _fn("sim_op_effects", S); last_result = _fn("sim_last_result", S); whole = _fn("sim_whole", None, I, S); release_faults = _fn("sim_release_faults", None, I); _fn("sim_unicode", None, I)(1); op_failures = _fn("sim_op_failures", I); api = _fn("sim_api", None, I); alloc_fails = _fn("sim_alloc_fails", I)
class Memory:
    """the ffi object of the interface, for which memory may run out"""
    def __init__(self):
        for n in dir(ffi):
            if n[:2] != "__": setattr(self, n, self.failing(getattr(ffi, n)) if n in ("new", "new_handle", "string", "unpack", "buffer") else getattr(ffi, n))
    @staticmethod
    def failing(f):
        def g(*a):
            if alloc_fails(): raise MemoryError()
            return f(*a)
        return g
memory = _clingo.ffi = Memory()
cb_receive = _fn("sim_cb_receive", I, S); cb_truth = _fn("sim_cb_truth", S); cb_depth = _fn("sim_cb_depth", I); cb_promise = _fn("sim_cb_promise", None, S)
cb_fails = _fn("sim_cb_fails", None, I, S, I); cb_optional = _fn("sim_cb_optional", None); cb_expect = _fn("sim_cb_expect", None, S, I); cb_wants_raise = _fn("sim_cb_wants_raise", I, S)
faults = _fn("sim_faults", None, I); logger_label = _fn("sim_logger_label", None, I); expect_events = _fn("sim_expect_events", None, I, I, I, I); fatal_files = _fn("sim_fatal_files", None, S, S)
search_models = _fn("sim_search_models", I, V); search_model = _fn("sim_search_model", S, V, I); search_complete = _fn("sim_search_complete", I, V); search_done = _fn("sim_search_done", I, V)
app_exit = _fn("sim_app_exit", I); app_error = _fn("sim_app_error", S); app_name = _fn("sim_app_name", S); app_version = _fn("sim_app_version", S)
script_define = _fn("sim_script_define", None, S, S, I); script_location = _fn("sim_script_location", S); script_main = _fn("sim_script_main", I, S, V, yields=True); script_free = _fn("sim_script_free", None, yields=True)
ast_text = _fn("sim_ast_text", S, V, I); ast_refs = _fn("sim_ast_refs", I, V); ast_live = _fn("sim_ast_live", I)
_orc = _o.orc; _orc.restype = S; _orc.argtypes = [S, V, ctypes.c_int64, ctypes.c_int64, S]
_o.orc_crash.argtypes = [S]
def crash_file(path): _o.orc_crash(enc(path))
def orc(what, p=None, a=0, b=0, s=None):
    if a >= 1 << 63: a -= 1 << 64
    if b >= 1 << 63: b -= 1 << 64
    return dec(_orc(what.encode(), p, a, b, enc(s)))
def violation(oracle, msg): _violation(oracle, str(msg)[:3000])
# {{{ preemption points: every line of the code under test
_tool = 3
def watch(modules):
    mon = sys.monitoring; mon.use_tool_id(_tool, "sim"); seen = set(); last = {}; frame = sys._getframe
    # whether a line counts again after a call within it depends on what the interpreter has specialized so far; hence once per visit
    def line_(code, line):
        k = id(frame(1))
        if last.get(k) == line: return
        last[k] = line; _preempt()
    mon.register_callback(_tool, mon.events.LINE, line_); mon.register_callback(_tool, mon.events.PY_START, lambda code, at: (last.pop(id(frame(1)), None), None)[1])
    def rec(code):
        if code in seen: return
        seen.add(code); mon.set_local_events(_tool, code, mon.events.LINE | mon.events.PY_START)
        for c in code.co_consts:
            if hasattr(c, "co_consts"): rec(c)
    def obj(o, mod, depth):
        f = getattr(o, "__wrapped__", o); c = getattr(f, "__code__", None)
        if c is not None and c.co_filename.startswith(PKG): rec(c)
        if depth and isinstance(o, type) and o.__module__ == mod:
            for x in list(vars(o).values()):
                for y in (x, getattr(x, "fget", None), getattr(x, "fset", None), getattr(x, "__func__", None)): obj(y, mod, depth - 1)
    for m in modules:
        try:
            with open(m.__file__) as f: src = f.read()
        except OSError: continue
        for v in list(vars(m).values()): obj(v, m.__name__, 3)
# }}}
# {{{ workload choices
def W(n): return choose(WORK, n)
def Wn(n): return sizes(WORK, n)
def Wc(a, b): return bool(chance(WORK, a, b))
def pick(xs): return xs[W(len(xs))]
def weird_number(): return pick((0, 1, -1, 2, 3, 7, -7, 42, 2147483647, -2147483648))
def weird_string(): return "y" * (40 + W(260)) if Wc(1, 60) else pick(("x", "", "two words", "quo\"te", "a|b,c", "nl\nnl", "100%s%n", "\u00e4"))
def lit(n): return (pick((127, 128, 255, 256, 32768, 65536, 100000, 1073741824, 2147483647)) if Wc(1, 60) else 1 + W(n)) * (-1 if W(2) else 1)
def rlits(n=9): return [lit(n) for _ in range(Wn(5))]
def rwlits(): return [(lit(9), weird_number()) for _ in range(Wn(4))]
def rand_limit(): v = (20, 0, 1, 2, 3, 20, 21, 50, 1000, 65536, 2147483647, 4294967295); return v[W(5) if W(3) else W(12)] # of messages
def nums(xs): return ",".join(str(int(x)) for x in xs)
def wl(xs): return ",".join("%d@%d" % (x[0], x[1]) for x in xs)
def esc(s): return "<null>" if s is None else s.replace("\\", "\\\\").replace("\n", "\\n").replace("|", "\\p").replace(",", "\\c")
# }}}
# {{{ engine objects
def addr(c): return int(ffi.cast("uintptr_t", c))
_attr = {}
def raw(o, ctype):
    """address of the engine object behind an object of the interface"""
    k = (type(o), ctype); t = ffi.typeof(ctype); n = _attr.get(k)
    if n is not None:
        try: return addr(object.__getattribute__(o, n))
        except (AttributeError, TypeError): pass
    names = list(getattr(o, "__dict__", ())) + [x for c in type(o).__mro__ for x in ([c.__slots__] if isinstance(getattr(c, "__slots__", ()), str) else getattr(c, "__slots__", ()))]
    for n in names:
        try: v = object.__getattribute__(o, n)
        except AttributeError: continue
        if isinstance(v, ffi.CData) and ffi.typeof(v) is t: _attr[k] = n; return addr(v)
    raise LookupError("no %s in %s" % (ctype, type(o)))
def raw_any(o):
    for t in ("clingo_model_t*", "clingo_statistics_t*", "clingo_options_t*", "clingo_control_t*"):
        try: return raw(o, t)
        except LookupError: pass
    raise LookupError("no engine object in %s" % type(o))
def raw_ctl(c): return raw(c, "clingo_control_t*")
def raw_model(m): return raw(m, "clingo_model_t*")
class _Sym: cls = None; slot = None
def init_symbols(cls, inf):
    _Sym.cls = cls; rep = int(orc("mk.inf"))
    for n in [x for c in cls.__mro__ for x in getattr(c, "__slots__", ())] + list(getattr(inf, "__dict__", ())):
        if getattr(inf, n, None) == rep: _Sym.slot = n
    if _Sym.slot is None: raise LookupError("representation of symbols")
def mksym(rep): s = object.__new__(_Sym.cls); object.__setattr__(s, _Sym.slot, rep); return s
def rep(s): return int(getattr(s, _Sym.slot))
def sym(s): return orc("sym", None, rep(s))
def syms(ss): return ";".join(sym(s) for s in ss)
def plain(x):
    """what a value handed to a callback looks like to the user"""
    if type(x).__name__ == "Symbol": return sym(x)
    if isinstance(x, (str, bytes, int, float, bool)) or x is None: return str(x)
    try: return "(" + ",".join(plain(y) for y in x) + ")"
    except TypeError: return str(x)
def keep_value(u, x):
    """values handed over as data of the user are still the same when read again later"""
    if u is None or isinstance(x, (int, float, str)): return
    u.kept.append((x, plain(x))); del u.kept[:-20]
def check_kept(u):
    for x, w in list(u.kept): same("kept-value-changed", plain(x), w)
def raw_sym(depth):
    k = W(7 if depth > 0 else 4)
    if k == 0: return int(orc("mk.number", None, weird_number()))
    if k == 1: return int(orc("mk.string", s=weird_string()))
    if k == 2: n = pick(FN); return mkfun(n, [], W(3) != 0)
    if k == 3: return int(orc("mk.inf")) if W(2) else int(orc("mk.sup"))
    a = [raw_sym(depth - 1) for _ in range(Wn(4))]; tup = W(4) == 3
    return mkfun("" if tup else pick(FN), a, tup or W(3) != 0)
FN = ("a", "p", "q", "f'", "_x")
def mkfun(name, args, pos=True): a = (ctypes.c_uint64 * (len(args) + 1))(*args); return int(orc("mk.fun", ctypes.addressof(a), len(args), int(pos), name))
def rand_sym(depth=2): return mksym(raw_sym(depth))
def some_atom(ctl):
    n = int(orc("satoms.size", ctl))
    if n and W(4): return mksym(int(orc("satoms.nth", ctl, W(n))))
    return mksym(mkfun("unknown_atom", [], W(2) == 0))
# }}}
# {{{ user exceptions
class Custom(Exception):
    def __init__(self, a, b): super().__init__(a, b); self.a = a; self.b = b
    def __str__(self): return "%s/%s" % (self.a, self.b)
class NoArgs(Exception):
    def __init__(self): super().__init__(); self.extra = "kept"
class Base(BaseException): pass
class KeyOnly(Exception):
    def __init__(self, *, code): super().__init__("code %s" % code); self.code = code
REG = []
def register(e, text=None): e.sim_id = len(REG); REG.append((type(e), etext(e), e)); return "user:%d" % e.sim_id
def etext(e):
    try: return str(e)
    except Exception: return "<unprintable>"
def make_exc(kind):
    k = choose(FAULT, 10); t = ("user error", "", "50%s %n done", "two\nlines | here", "\u00e9t\u00e9", "x" * 300)[choose(FAULT, 6)]
    if t: t += " #%d in %s" % (len(REG), kind)
    if k == 0: return RuntimeError(t)
    if k == 1: return MemoryError(t)
    if k == 2: return ValueError(t)
    if k == 3: return KeyError(t)
    if k == 4: return Custom(t, len(REG))
    if k == 5: return NoArgs()
    if k == 6: return Base(t)
    if k == 7: return KeyOnly(code=len(REG))
    if k == 8: return ValueError("lone surrogate \udc80 " + t)
    return RuntimeError()
def raise_user(kind):
    e = make_exc(kind); c = register(e); note_raised(c, REG[-1][1]); raise e
def maybe_raise(kind):
    if cb_wants_raise(kind): raise_user(kind)
def classify(e):
    i = getattr(e, "sim_id", None)
    if i is not None and i < len(REG):
        t, s, o = REG[i]
        return ("user:%d" % i, s) if type(e) is t and etext(e) == s and getattr(e, "__dict__", None) == o.__dict__ and e.args == o.args else ("user-changed:%d:%s" % (i, type(e).__name__), etext(e))
    if type(e) is RuntimeError: return "runtime", etext(e)
    if type(e) is MemoryError: return "bad_alloc", etext(e)
    return "py:" + type(e).__name__, etext(e)
def strip(e):
    n = 0
    while e is not None and n < 20: e.__traceback__ = None; c = e.__context__ or e.__cause__; e.__context__ = None; e.__cause__ = None; e = c; n += 1
# }}}
# {{{ operations
def op_open(name, eff=None, must=None, may=None):
    op_begin(name)
    if eff is not None:
        op_expect_none()
        for x in ([eff] if isinstance(eff, str) else eff): op_expect(x)
    if must: op_expect_raise(must)
    if may: op_may_raise(may)
def op_done(e=None):
    if e is None: _op_end("py", None, ""); return True
    c, m = classify(e); _op_end("py", c, m); return False
NONE = []
def op(name, f, eff=None, must=None, may=None):
    op_open(name, eff, must, may); err = None
    if name[:1] != "~" and name[-6:] != ".close" and name[:11] != "clingo_main" and name != "python -m clingo": api(1) # (finalizers cannot report errors; applications are counted)
    try: f()
    except BaseException as e: err = e
    api(0); f = None
    ok = op_done(err)
    if ok: return True
    strip(err); again(err); return False
def again(err):
    """errors of operations within callbacks may leave the callback, too"""
    if cb_depth() > 0 and not G.calm and chance(FAULT, 1, 2):
        c = classify(err)
        if not c[0].startswith("user"): c = register(err), c[1]
        note_raised(*c)
        try: raise err
        finally: err = None
def same(oracle, got, want):
    if got != want: violation(oracle, "interface says '%s' but the engine has '%s'" % (str(got)[:1400], str(want)[:1400]))
def rel(x, y): return "".join(b(v) for v in (x == y, x != y, x < y, x <= y, x > y, x >= y))
def relw(c): return "".join("%d" % v for v in (c == 0, c != 0, c < 0, c <= 0, c > 0, c >= 0))
def same_result(oracle, got): same(oracle, str(got), last_result())
def b(x):
    if x is not True and x is not False: violation("type", "expected a bool but got %r" % (x,))
    return "1" if x else "0"
# }}}
class User:
    def __init__(self): self.ctl = None; self.raw = 0; self.id = 0; self.label = 0; self.logger = False; self.borrowed = False; self.nobs = 0; self.nprop = 0; self.keep = []; self.kept = []; self.solves = 0; self.open = 0
class Env:
    def __init__(self, prop): self.prop = prop; self.users = []
class G: ids = 0; labels = 0; calm = 0; shared = 0 # (a collection may release what other clients are done with)
def reset(): G.ids = 0; G.labels = 0; G.calm = 0; G.shared = 0; REG.clear()
