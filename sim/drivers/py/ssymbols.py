"""Symbols, parsing of terms and the small value types of the interface."""
from sbase import *
import copy, functools, clingo, scontrol
from clingo import symbol as Y, core, solving, util, propagator, backend
NS = {n: getattr(Y, n) for n in ("Function", "Number", "String", "Tuple_", "Infimum", "Supremum")}
def cmp(a, c): r = orc("sym.cmp", None, a, c); return 0 if r[0] == "1" else -1 if r[1] == "1" else 1
def parts(s):
    """what the interface knows about a symbol; "-" for what it does not have"""
    def g(f):
        try: return f()
        except RuntimeError: return "-"
    return "\x1f".join((g(lambda: str(s.number)), g(lambda: "s" + s.string), g(lambda: "n" + s.name), g(lambda: b(s.positive)), g(lambda: syms(s.arguments))))
class Hashed:
    def __init__(self, h): self.h = h
    def __hash__(self): return self.h
def symbol_ops():
    s = rand_sym(); t = rand_sym() if W(4) else mksym(rep(s)); k = W(14)
    if k == 0: n = weird_number(); op("Number", lambda: (lambda x: same("symbol:number", sym(x) + " %d" % x.number, "%d %d" % (n, n)))(Y.Number(n)), NONE)
    elif k == 1: v = weird_string(); op("String", lambda: same("symbol:string", Y.String(v).string, v), NONE)
    elif k == 2:
        a = [rand_sym(1) for _ in range(Wn(4))]; tup = bool(W(2)); p = tup or bool(W(2)); n = "" if tup else "fun"; w = ",".join(sym(x) for x in a); i = W(5)
        def f():
            x = Y.Tuple_(a) if tup and i else Y.Function(n, a, p) if i <= 1 or not p else Y.Function(n, tuple(a)) if i == 2 else Y.Function(name=n, arguments=a) if a or W(2) else Y.Function(n)
            same("symbol:function", sym(x), ("" if p else "-") + n + ("(" + w + ("," if tup and len(a) == 1 else "") + ")" if a or tup else "")); same("symbol:arguments", syms(x.arguments), syms(a)); same("symbol:name", x.name, n)
            same("symbol:match", b(x.match(n, len(a), p)) + b(x.match(n, len(a) + 1, p)) + b(x.match("other", len(a), p)) + b(x.match(n, len(a), not p)) + b(x.match(n, len(a))), "1000%d" % p)
        op("Function", f, NONE)
    elif k == 3: op("Infimum/Supremum", lambda: same("symbol:inf", sym(Y.Infimum) + sym(Y.Supremum), "#inf#sup"), NONE)
    elif k <= 5: op("Symbol compare", lambda: same("symbol:compare", rel(s, t), relw(cmp(rep(s), rep(t)))), NONE)
    elif k == 6:
        def f():
            same("symbol:hash", hash(s), hash(Hashed(int(orc("sym.hash", None, rep(s))))))
            if s == t: same("symbol:hash", hash(s), hash(t))
            same("symbol:in-set", t in {s}, cmp(rep(s), rep(t)) == 0); same("symbol:other-type", (s == 1, s != "x"), (False, True))
        op("Symbol hash", f, NONE)
    elif k == 7: op("Symbol str", lambda: same("symbol:print", str(s), sym(s)), NONE)
    elif k == 8: op("Symbol repr", lambda: same("symbol:repr", sym(eval(repr(s), NS)), sym(s)), NONE)
    elif k == 9: op("Symbol type", lambda: same("symbol:type", str(s.type.value), orc("sym.type", None, rep(s))), NONE)
    elif k == 10:
        n = pick(("number", "string", "name", "positive", "negative", "arguments"))
        def f():
            v = getattr(s, n); w = orc("sym.parts", None, rep(s)).split("\x1f"); i = ("number", "string", "name", "positive", "arguments").index(n if n != "negative" else "positive")
            same("symbol:" + n, str(v) if i == 0 else n[0] + v if i in (1, 2) else b(v if n == "positive" else not v) if i == 3 else syms(v), w[i])
            if i == 3: same("type", type(v), bool)
        op("Symbol." + n, f, NONE)
    elif k == 11:
        faults(0)
        try: same("symbol:parts", parts(s), orc("sym.parts", None, rep(s)))
        finally: faults(1)
    elif k == 12:
        v = [rand_sym(1) for _ in range(W(8))]
        def f(): same("symbol:sort", syms(sorted(v)), ";".join(orc("sym", None, x) for x in sorted([rep(x) for x in v], key=functools.cmp_to_key(cmp)))); same("symbol:set", len(set(v)), len({orc("sym", None, rep(x)) for x in v})); same("symbol:minmax", not v or (sym(min(v)) + sym(max(v)) == sym(sorted(v)[0]) + sym(sorted(v)[-1])), True)
        op("Symbol sort", f, NONE)
    else: op("Symbol match", lambda: same("symbol:match", b(s.match("p", 1)) + b(s.match("p", 1, False)), "".join("%d" % (orc("sym", None, rep(s)).startswith(x) and orc("sym.type", None, rep(s)) == "%d" % Y.SymbolType.Function.value and s.name == "p" and len(s.arguments) == 1) for x in ("p(", "-p("))), NONE)
def parse_ops(n):
    s = rand_sym(); t = sym(s); bad = W(4) == 3
    if bad: t = pick(("", "p(", "p(x", "1 2", "\"", "%s", "p(1/0)"))
    label = 500 + n % 400; lg = W(2); logger_label(label if lg else -9); lim = rand_limit(); how = W(3)
    def f():
        l = scontrol.Logger(label) if lg else None
        x = Y.parse_term(t, l, lim) if how == 0 else Y.parse_term(t, logger=l) if how == 1 else Y.parse_term(string=t, message_limit=lim, logger=l)
        if not bad: same("parse-limit", last_result(), "limit|%d" % (20 if how == 1 else lim)); same("parse-term", sym(x), t)
    op("parse_term", f, None if bad else NONE); logger_label(0)
def value_ops():
    k = W(8)
    if k == 0:
        r = W(16)
        def f():
            x = solving.SolveResult(r); same("solve-result", (x.satisfiable, x.unsatisfiable, x.unknown, x.exhausted, x.interrupted), (True if r & 1 else False if r & 2 else None, False if r & 1 and not r & 2 else True if r & 2 else None, not r & 3, bool(r & 4), bool(r & 8))); same("print:solve-result", str(x), "SAT" if r & 1 else "UNSAT" if r & 2 else "UNKNOWN")
        r = r if r & 3 != 3 else r & ~2; op("SolveResult", f, NONE)
    elif k == 1: op("version", lambda: same("version", "%d.%d.%d" % core.version(), clingo.__version__), NONE)
    elif k == 2:
        e = pick((core.MessageCode, core.TruthValue, Y.SymbolType, solving.ModelType, propagator.PropagatorCheckMode, propagator.PropagatorUndoMode, backend.HeuristicType, backend.TheorySequenceType, clingo.ast.ASTType, clingo.theory_atoms.TheoryTermType)); m = list(e); x, y = pick(m), pick(m)
        def f(): same("enum:order", rel(x, y), relw((x.value > y.value) - (x.value < y.value))); z = pick((1, None, "a", core.TruthValue.True_, core.MessageCode.Other) if e not in (core.TruthValue, core.MessageCode) else (1, None)); same("enum:other", [x == y.value] + [r(x, z) for r in (e.__lt__, e.__le__, e.__gt__, e.__ge__)], [False] + 4 * [NotImplemented])
        op("OrderedEnum", f, NONE)
    elif k == 3: # slices of slices against lists
        n = W(7); l = list(range(n)); x = util.SlicedSequence(l, util.Slice(slice(None))); w = l
        def sl(): return slice(pick((None, 0, 1, -1, 2, -3, n, n + 3)), pick((None, 0, 1, n, -1, -2, n + 4)), pick((None, 1, 2, -1, -2, 3)))
        for _ in range(W(4)): c = sl(); x = x[c]; w = w[c]
        def f():
            same("slice", (list(x), len(x), str(x), repr(x), list(reversed(x))), (w, len(w), str(w), repr(w), w[::-1])); i = W(2 * len(w) + 3) - len(w) - 1; g = e = IndexError
            try: g = x[i]
            except IndexError: pass
            try: e = w[i]
            except IndexError: pass
            same("slice:index", g, e); same("slice:contains", [v in x for v in l], [v in w for v in l])
            if w: same("slice:find", (x.index(w[0]), x.count(w[-1])), (0, 1))
            l.append(n); same("slice:grown", len(x), len(list(x)))
        op("SlicedSequence", f, NONE)
    elif k == 4: # changes through slices
        n = W(7); l = list(range(n)); x = util.SlicedMutableSequence(l, util.Slice(slice(pick((None, 0, 1, -2)), pick((None, n, -1, 3)), pick((None, 1, 2, -1, -2))))); c = x._rng if hasattr(x, "_rng") else None
        def f():
            w = list(x)
            if not w: return
            i = W(2 * len(w)) - len(w); v = w[i]; j = W(2)
            if j: x[i] = 99; same("slice:set", (l[v], list(x)[i], sum(1 for y in l if y == 99), len(l)), (99, 99, 1, n))
            else: del x[i]; same("slice:delete", (v in l, len(l)), (False, n - 1))
            g = None
            try: x[0:1] = [1]
            except TypeError: g = TypeError
            same("slice:assign-slice", g, TypeError)
        op("SlicedMutableSequence", f, NONE)
    elif k == 5:
        s = rand_sym()
        def f(): c = copy.copy(s), copy.deepcopy(s); same("symbol:copy", [sym(x) for x in c], [sym(s)] * 2); same("symbol:dict", {s: 1}.get(c[1]), 1)
        op("Symbol copy", f, NONE)
    elif k == 6: op("Symbol deep", lambda: (lambda x: same("symbol:deep", sym(x), "f(" * 40 + "1" + ")" * 40))(functools.reduce(lambda a, _: Y.Function("f", [a]), range(40), Y.Number(1))), NONE)
    else:
        def f():
            for bad in (lambda: Y.Number("x"), lambda: Y.String(1), lambda: Y.Function("f", [1]), lambda: Y.Number(2**40)):
                e = None
                try: bad()
                except (TypeError, AttributeError, OverflowError) as x: e = x
                same("symbol:bad-input", e is None, False); strip(e); e = None
        op("Symbol bad input", f, NONE)
def family(env):
    n = 0
    for _ in range(3 + W(20)):
        k = W(8)
        if k <= 4: symbol_ops()
        elif k == 5: parse_ops(n); n += 1
        else: value_ops()
