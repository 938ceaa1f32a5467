"""AST handles, sequences, transformers, parsing, unpooling, and program builders."""
from sbase import *
import copy
import clingo.symbol as SY, clingo.ast as A
import scontrol as C
from scontrol import make_control, end_control, Logger, leave
from stheory import do_theory
N = lib
T = {k: getattr(lib, "clingo_ast_attribute_type_" + k) for k in "number symbol location string ast optional_ast string_array ast_array".split()}
KIND = {v: k for k, v in T.items()}
CONS = []
for _i in range(N.g_clingo_ast_constructors.size):
    _c = N.g_clingo_ast_constructors.constructors[_i]
    CONS.append((ffi.string(_c.name).decode(), [(ffi.string(N.g_clingo_ast_attribute_names.names[_c.arguments[j].attribute]).decode(), _c.arguments[j].attribute, KIND[_c.arguments[j].type]) for j in range(_c.size)]))
PY = {t.value: t.name for t in A.ASTType}
STRS = ("x", "", "two words", "%s%n", "q\"uote", "<=")
# {{{ texts
def ptr(n): return raw(n, "clingo_ast_t*")
def text(n, loc=1): return ast_text(ptr(n), loc)
def loctext(l): return "%s:%d:%d-%s:%d:%d" % (l.begin.filename, l.begin.line, l.begin.column, l.end.filename, l.end.line, l.end.column)
def vtext(v):
    if v is None: return "none"
    if isinstance(v, A.AST): return api_text(v)
    if isinstance(v, str): return "'%s'" % v
    if isinstance(v, bool) or isinstance(v, int): return str(int(v))
    if isinstance(v, SY.Symbol): return sym(v)
    if isinstance(v, A.Location): return loctext(v)
    return "[" + ", ".join(vtext(x) for x in v) + "]"
def api_text(n):
    k = W(3); items = n.items() if k == 0 else zip(n.keys(), n.values()) if k == 1 else [(x, getattr(n, x)) for x in n.keys()]
    return CONS[n.ast_type.value][0] + "(" + ", ".join("%s=%s" % (a, vtext(v)) for a, v in items) + ")"
def otext(v): # the engine's text of a value given to the interface
    if isinstance(v, A.AST): return text(v)
    if v is None or isinstance(v, (str, int, SY.Symbol, A.Location)): return vtext(v)
    return "[" + ", ".join(otext(x) for x in v) + "]"
def make_text(t, vs): return CONS[t][0] + "(" + ", ".join("%s=%s" % (a[0], v) for a, v in zip(CONS[t][1], vs)) + ")"
def attrs(p, *kinds): return [a for a in CONS[int(orc("ast.type", p))][1] if not kinds or a[2] in kinds]
def elements(p, at): return [int(orc("ast.at", p, at | i << 8)) for i in range(int(orc("ast.size", p, at, 0)))]
def strings(p, at): return [orc("ast.sat", p, at | i << 8) for i in range(int(orc("ast.size", p, at, 1)))]
def children(p):
    r = []
    for n, at, k in attrs(p):
        if k == "ast": r.append(int(orc("ast.get", p, at, 0)))
        elif k == "optional_ast": r += [x for x in [int(orc("ast.get", p, at, 1))] if x]
        elif k == "ast_array": r += elements(p, at)
    return r
def reaches(p, q): return p == q or any(reaches(x, q) for x in children(p))
# }}}
class Pool:
    def __init__(self): self.n = []
    def any(self): return self.n[W(len(self.n))]
    def add(self, x):
        if len(self.n) < 24: self.n.append(x)
def rloc():
    f = ("<string>", "a.lp", "b%s"); l = 1 + W(50); c = 1 + W(9); a = f[W(3)]
    return A.Location(A.Position(a, l, c), A.Position(a if W(4) else f[W(3)], l + W(2), c + 1 + W(7)))
def rvalue(p, kind):
    if kind == "number": return W(3)
    if kind == "symbol": return rand_sym(1)
    if kind == "location": return rloc()
    if kind == "string": return STRS[W(6)]
    if kind == "ast": return p.any()
    if kind == "optional_ast": return p.any() if W(2) else None
    v = [STRS[W(6)] if kind == "string_array" else p.any() for _ in range(Wn(4))]
    return tuple(v) if W(4) == 3 else v
# {{{ construction
LEAF = [i for i, c in enumerate(CONS) if not any(a[2] in ("ast", "optional_ast", "ast_array") for a in c[1])]
def do_build(p):
    t = LEAF[W(len(LEAF))] if not p.n or W(3) == 2 else W(len(CONS)); vs = [rvalue(p, a[2]) for a in CONS[t][1]]; ts = [otext(v) for v in vs]
    if p.n and W(4) == 3: # a sequence of another node
        for i, a in enumerate(CONS[t][1]):
            if a[2] in ("ast_array", "string_array"):
                x = p.any(); y = attrs(ptr(x), a[2])
                if y: seq_of(x, y[W(len(y))], vs, ts, i)
    want = make_text(t, ts)
    def f(): n = getattr(A, PY[t])(*vs); same("ast-build", text(n), want); same("ast-type", n.ast_type.value, t); p.add(n)
    op("ast." + PY[t], f, "ast_build|" + esc(want))
def seq_of(x, a, vs, ts, i):
    def f(): vs[i] = getattr(x, a[0]); ts[i] = raw_value(ptr(x), a)
    op("AST.sequence", f, NONE)
def do_update(p, x):
    q = ptr(x); before = text(x); cs = attrs(q); kw = {}; vals = {}
    for a in cs:
        if W(4) == 0: kw[a[0]] = rvalue(p, a[2])
    want = before; t = int(orc("ast.type", q))
    if kw: want = make_text(t, [otext(kw[a[0]]) if a[0] in kw else raw_value(q, a) for a in cs])
    def f():
        y = x.update(**kw); same("ast-update", text(y), want); same("ast-update-identity", y is x, not kw); same("ast-update-original", text(x), before)
        if kw: p.add(y)
    op("AST.update", f, "ast_build|" + esc(want) if kw else NONE)
def raw_value(q, a): # text of one attribute
    if a[2] == "ast": return ast_text(int(orc("ast.get", q, a[1], 0)), 1)
    if a[2] == "optional_ast": c = int(orc("ast.get", q, a[1], 1)); return ast_text(c, 1) if c else "none"
    if a[2] == "ast_array": return "[" + ", ".join(ast_text(c, 1) for c in elements(q, a[1])) + "]"
    if a[2] == "string_array": return "[" + ", ".join("'%s'" % c for c in strings(q, a[1])) + "]"
    # scalar: blank out everything else
    full = ast_text(q, 1); cs = attrs(q); i = [c[1] for c in cs].index(a[1]); head = CONS[int(orc("ast.type", q))][0] + "("; pos = len(head)
    for j, c in enumerate(cs):
        pos += len(c[0]) + 1
        if j == i:
            rest = full[pos:]; tail = ")"
            # the text of the attributes behind this one is known exactly unless they are scalars, so search for the next separator
            if j + 1 < len(cs): tail = ", %s=" % cs[j + 1][0]
            return rest[:rest.index(tail)] if j + 1 < len(cs) else rest[:-1]
        pos += len(raw_value(q, c)) + 2
# }}}
# {{{ attributes and sequences: the oracle applies the same change with the engine's own functions to a deep copy
class Twin:
    def __init__(self, n): self.p = int(orc("ast.deep", ptr(n)))
    def __del__(self): orc("ast.release", self.p)
    def text(self): return ast_text(self.p, 1)
def mutate(name, x, atomic, api, change):
    t = Twin(x); before = text(x); ok = op(name, api)
    if ok: change(t.p); same("ast-mutation", text(x), t.text())
    elif atomic: same("ast-changed-by-failed-operation", text(x), before)
    return ok
def safe_child(p, x):
    for _ in range(4):
        v = p.any()
        if not reaches(ptr(v), ptr(x)): return v
    return A.AST(ffi.cast("clingo_ast_t*", int(orc("ast.deep", ptr(x)))))
def put(p, at, kind, vals):
    """replace a sequence of a node by the given values using the engine only"""
    s = kind == "string_array"
    if s: vals = list(vals)
    n = int(orc("ast.size", p, at, int(s)))
    keep = [int(orc("ast.deep", v)) for v in vals] if not s else [] # deep copies have the same text
    for i in range(n, 0, -1): orc("ast.del", p, at | (i - 1) << 8, s="x" if s else None)
    for i, v in enumerate(vals if s else keep): orc("ast.ins", p, at | i << 8, 0 if s else v, v if s else None)
    for v in keep: orc("ast.release", v)
def do_set(p, x):
    q = ptr(x); cs = attrs(q)
    if not cs: return
    n, at, k = cs[W(len(cs))]
    if W(12) == 11: # wrong kind of value or unknown attribute
        before = text(x); j = W(4); names = [a[0] for a in cs]; u = pick([z for z in ("name", "body", "terms", "location", "value", "term", "nothing") if z not in names])
        if j == 0: op("AST.set(unknown)", lambda: setattr(x, u, 1), must="py:AttributeError")
        elif j == 1: op("AST.get(unknown)", lambda: getattr(x, u), must="py:AttributeError")
        elif k == "number": op("AST.set(wrong type)", lambda: setattr(x, n, "s"), must="py:TypeError")
        elif k in ("ast", "string", "symbol", "optional_ast", "location"): op("AST.set(wrong type)", lambda: setattr(x, n, 7), must="py:AttributeError")
        same("ast-changed-by-failed-operation", text(x), before); return
    def change(what, b=0, s=None): return lambda y: orc(what, y, at, b, s)
    if k == "number": v = W(5) - 1; mutate("AST.set(number)", x, True, lambda: setattr(x, n, v), change("ast.set.number", v))
    elif k == "symbol": v = rand_sym(1); mutate("AST.set(symbol)", x, True, lambda: setattr(x, n, v), change("ast.set.symbol", rep(v)))
    elif k == "location": v = rloc(); mutate("AST.set(location)", x, True, lambda: setattr(x, n, v), change("ast.set.location", 0, "\x1f".join(str(y) for z in v for y in z)))
    elif k == "string": v = STRS[W(6)]; mutate("AST.set(string)", x, True, lambda: setattr(x, n, v), change("ast.set.string", 0, v))
    elif k == "ast":
        v = safe_child(p, x)
        if mutate("AST.set(ast)", x, True, lambda: setattr(x, n, v), change("ast.set.ast", ptr(v))): same("ast-shared-child", orc("ast.get", q, at, 0), str(ptr(v)))
    elif k == "optional_ast":
        v = safe_child(p, x) if W(2) else None
        if mutate("AST.set(optional)", x, True, lambda: setattr(x, n, v), change("ast.set.optional", ptr(v) if v is not None else 0)): same("ast-shared-child", orc("ast.get", q, at, 1), str(ptr(v)) if v is not None else "0")
    else:
        src = x if W(5) == 4 else safe_child(p, x); bs = attrs(ptr(src), k)
        if not bs or W(4) == 3: # plain values
            vs = [STRS[W(6)] if k == "string_array" else safe_child(p, x) for _ in range(Wn(4))]; how = W(4)
            mutate("AST.set(values)", x, False, lambda: setattr(x, n, vs if how < 2 else tuple(vs) if how == 2 else (y for y in vs)), lambda y: put(y, at, k, vs if k == "string_array" else [ptr(z) for z in vs])); return
        m = bs[W(len(bs))]; sl = W(4) == 3; vs = strings(ptr(src), m[1]) if k == "string_array" else elements(ptr(src), m[1])
        if src is x: probe("ast-assign-own-sequence")
        if k == "ast_array" and any(reaches(c, q) for c in vs): return
        if sl: vs = vs[1:]
        keep = Twin(src) # keeps copies of the elements
        ks = vs if k == "string_array" else elements(keep.p, m[1])[1 if sl else 0:]
        def f(): s = getattr(src, m[0]); setattr(x, n, s[1:] if sl else s)
        mutate("AST.set(sequence)", x, False, f, lambda y: put(y, at, k, ks))
        del keep
def same_seq(got, want): # compares the elements of sequences without exposing addresses in messages
    if got != want: same("ast-sequence", "%d elements, different from the engine's" % len(got), "%d elements" % len(want))
def do_seq(p, x):
    q = ptr(x); st = W(5) > 2; k = "string_array" if st else "ast_array"; cs = attrs(q, k)
    if not cs: return
    n, at, _ = cs[W(len(cs))]; h = []; views = []
    cur = lambda: strings(q, at) if st else elements(q, at)
    ident = (lambda y: y) if st else ptr
    if not op("AST.get(sequence)", lambda: h.append(getattr(x, n)), NONE): return
    s = h.pop()
    for _ in range(1 + W(7)):
        want = cur(); v = STRS[W(6)] if st else safe_child(p, x); sz = len(want); model = list(want); j = W(18); i = W(sz) - (sz if W(3) == 2 else 0) if sz else 0; e = ident(v)
        def chg(name, api, atomic=True):
            """api was applied to the Python list `model` as well"""
            t = Twin(x); before = text(x); ok = op("Sequence." + name, api)
            if ok: same_seq(cur(), model); put(t.p, at, k, model); same("ast-mutation", text(x), t.text())
            elif atomic: same("ast-changed-by-failed-operation", text(x), before)
        if j == 0: model.append(e); chg("append", lambda: s.append(v))
        elif j == 1 and sz: model.pop(i); chg("pop", lambda: same("ast-sequence", ident(s.pop(i)) == want[i], True))
        elif j == 2: i = pick((0, sz, i, -1, sz + 3, -sz - 2)); model.insert(i, e); chg("insert", lambda: s.insert(i, v))
        elif j == 3 and sz: del model[i]; chg("del", lambda: s.__delitem__(i))
        elif j == 4 and sz: model[i] = e; chg("set", lambda: s.__setitem__(i, v))
        elif j == 5 and sz and W(2): model.clear(); chg("clear", lambda: s.clear(), False)
        elif j == 6: vs = [v, v][:W(3)]; model += [e, e][:len(vs)]; chg("extend", lambda: s.extend(vs) if W(2) else s.__iadd__(iter(vs)), False)
        elif j == 7 and sz: model.reverse(); chg("reverse", lambda: s.reverse(), False)
        elif j == 8:
            for m in range(3): i = pick((sz, sz + 2, -sz - 1)); op("Sequence.out of range", lambda: s[i] if m == 0 else s.__delitem__(i) if m == 1 else s.__setitem__(i, v), must="py:IndexError")
            m = W(12); a = rslice(sz); y = s[a] if m > 8 else s # assigning to slices is not supported and has no effect
            if m > 5: op("Sequence.assign slice", lambda: y.__delitem__(a) if m & 1 else y.__setitem__(a, [v]), must="py:TypeError"); same_seq(cur(), want)
        elif j == 9 and sz: # changes through slices
            a = rslice(sz); r = range(sz)[a]; up = r.step > 0
            if W(4) == 3: w = (r[-1] + up if len(r) else max(r.start, 0)); model.insert(w, e); chg("slice.append", lambda: s[a].append(v) if W(2) else s[a].insert(len(r) + W(3), v))
            elif len(r):
                i = W(len(r)); m = W(3); w = r[i]
                if m == 0: model[w] = e; chg("slice.set", lambda: s[a].__setitem__(i, v))
                elif m == 1: del model[w]; chg("slice.del", lambda: s[a].__delitem__(i))
                else: model.insert(w + (not up), e); chg("slice.insert", lambda: s[a].insert(i, v))
        else: read_seq(s, want, st, j)
        want = cur(); op("Sequence.size", lambda: same("ast-sequence-size", len(s), len(want)), NONE)
        for a, c, y in views: op("Sequence.view", lambda: view_is(y, want[a][c], ident)) # slices show what the sequence has now
        if W(3) == 2: a = rslice(sz); c = rslice(sz) if W(3) == 2 else slice(None); y = s[a] if c == slice(None) and W(2) else s[a][c]; views.append((a, c, y)); op("Sequence.view", lambda: view_is(y, want[a][c], ident))
def view_is(y, w, ident): same("ast-sequence-size", len(y), len(w)); same_seq([ident(z) for z in y], w)
def rslice(n): return slice(pick((None, 0, 1, -1, 2, n)), pick((None, 0, n, -1, 1, n + 4)), pick((None, 1, 2, -1, -2)))
def read_seq(s, want, st, j):
    ident = (lambda y: y) if st else ptr; n = len(want)
    def f():
        if j == 10: same_seq([ident(y) for y in s], want)
        elif j == 11: same_seq([ident(s[i]) for i in range(n)], want)
        elif j == 12: same_seq([ident(s[i - n]) for i in range(n)], want)
        elif j == 13: same_seq([ident(y) for y in reversed(s)], want[::-1])
        elif j == 14:
            a = rslice(n); y = s[a]; w = want[a]
            if W(2): c = rslice(len(w)); y = y[c]; w = w[c]
            same_seq([ident(z) for z in y], w); same("ast-sequence-size", len(y), len(w))
        elif j == 15 and st: same("ast-sequence", str(s) + repr(s), str(want) + repr(want)); same("ast-sequence", [x in s for x in STRS] + [s.count(x) for x in STRS], [x in want for x in STRS] + [want.count(x) for x in STRS])
        elif j == 15: same("ast-sequence", str(s), "[" + ", ".join(repr(y) for y in s) + "]")
        elif j == 16 and not st: same("ast-sequence", (s == list(s), s != list(s), hash(s) == hash(tuple(s)), s < s, s == list(s)[1:]), (True, False, True, False, n == 0))
        elif n: i = W(n); same("ast-sequence", ident(s[i]) == want[i], True)
    op("Sequence.read", f)
# }}}
# {{{ whole trees
def do_copy(p, x):
    deep = W(2); before = text(x); q = ptr(x)
    def f():
        y = copy.deepcopy(x) if deep else copy.copy(x); same("ast-copy", text(y), before); same("ast-copy-identity", ptr(y) == q, False); same("ast-copy-equal", (y == x, y != x), (True, False))
        a = children(q); c = children(ptr(y))
        if deep: same("ast-deep-separate", any(z in c for z in a), False)
        else: same("ast-shallow-shares", a == c, True)
        p.add(y)
    op("AST.deepcopy" if deep else "AST.copy", f, NONE)
def do_compare(x, y):
    c = orc("ast.cmp", ptr(x), 0, ptr(y)); d = orc("ast.cmp", ptr(y), 0, ptr(x)); eq = c[0] == "1"; lt = c[1] == "1"; gt = d[1] == "1"
    def f():
        same("ast-compare", (x == y, x != y, x < y, x > y, x <= y, x >= y), (eq, not eq, lt, gt, not gt, not lt))
        if eq: same("ast-hash", hash(x) == hash(y), True)
        same("ast-compare", (x == 3, x != 3), (False, True))
        try: x < 3; violation("ast-compare", "comparing a node with a number succeeded")
        except TypeError: pass
    op("AST.compare", f, NONE)
NS = {"ast": A, "Location": A.Location, "Position": A.Position, "Function": SY.Function, "Number": SY.Number, "String": SY.String, "Infimum": SY.Infimum, "Supremum": SY.Supremum, "Tuple_": SY.Tuple_}
def do_print(x):
    w = text(x, 0); t = int(orc("ast.type", ptr(x)))
    def f(): same("ast-to-string", str(x), w); same("ast-type", (x.ast_type.value, x.ast_type.name), (t, PY[t])); same("ast-keys", (x.keys(), x.child_keys), ([a[0] for a in CONS[t][1]], [a[0] for a in CONS[t][1] if a[2] in ("ast", "optional_ast", "ast_array")]))
    op("AST.print", f, NONE)
def do_read(x): op("AST.read", lambda: same("ast-read", api_text(x), text(x)), NONE)
def do_repr(x):
    w = text(x)
    op("AST.repr", lambda: same("ast-repr", text(eval(repr(x), NS)), w))
def replace_vars(s, w):
    r = []; p = 0
    while True:
        q = s.find("variable(location=", p)
        if q < 0: return "".join(r) + s[p:], bool(r)
        e = s.index("name='", q); e = s.index("'", e + 6); e = s.index(")", e); r += [s[p:q], w if isinstance(w, str) else w(s[q:e + 1])]; p = e + 1
class Trans(A.Transformer):
    def __init__(self, repl, thr): self.repl = repl; self.n = 0; self.thr = thr
    def visit_Variable(self, x, *args, **kw):
        self.n += 1
        if self.thr and self.n == 2: raise_user("transform")
        if args != ("arg",) or kw != {"key": 1}: violation("ast-transform-arguments", "the arguments are not passed on: %r %r" % (args, kw))
        return self.repl
class TransLoc(Trans): # the new nodes are equal to the old ones (nodes compare equal up to their locations)
    def visit_Variable(self, x, *args, **kw): super().visit_Variable(x, *args, **kw); return x.update(location=self.repl)
class TransLit(Trans): # handles literals itself
    def visit_Literal(self, x, *args, **kw): return x.update(**self.visit_children(x, *args, **kw))
def do_transform(p, x):
    thr = W(6) == 5; h = []; l = rloc(); s = rand_sym(0)
    if not op("ast.SymbolicTerm", lambda: h.append(A.SymbolicTerm(l, s))): return
    repl = h.pop(); before = text(x); want, anyv = replace_vars(before, text(repl)); twin = Twin(x)
    where = W(4) == 3
    if where: want, anyv = replace_vars(before, lambda v: "variable(location=" + loctext(l) + v[v.index(", name="):])
    def f():
        t = TransLoc(l, thr) if where else Trans(repl, thr) if W(2) else TransLit(repl, thr); y = t(x, "arg", key=1) if W(2) else t.visit(x, "arg", key=1)
        same("ast-transform", text(y), want); same("ast-transform-identity", y is x, not anyv); probe("ast-transform-changed" if anyv else "ast-transform-same")
        if anyv: p.add(y)
    op("Transformer.visit", f, None if anyv else NONE); same("ast-transform-original", text(x), before); same("ast-transform-original", twin.text(), before)
def want_visit(t): return t % 3 != 0
def do_visit(x):
    class V(A.Transformer):
        def __init__(self): self.g = []
        def visit(self, n):
            self.g.append(ptr(n))
            if want_visit(n.ast_type.value): self.visit_children(n)
            return n
    w = []
    def r(q):
        w.append(q)
        if want_visit(int(orc("ast.type", q))):
            for c in children(q): r(c)
    r(ptr(x))
    def f(): v = V(); v(x); same("ast-visit", v.g == w, True)
    op("Transformer.visit_children", f, NONE)
# }}}
def emitted(): return [l[l.index("ast_emit|") + 9:] for l in op_effects().split("\n") if "ast_emit|" in l]
def tolist(v): return [esc(text(n)) for n in v]
def do_unpool(p, x):
    o = W(4) != 0; c = W(4) != 0; d = o and c and W(2); fl = (N.clingo_ast_unpool_type_condition if c else 0) | (N.clingo_ast_unpool_type_other if o else 0); r = []
    def f(): r.extend(x.unpool() if d else x.unpool(o, c) if W(2) else x.unpool(condition=c, other=o))
    cb_expect("ast", 0); ok = op("AST.unpool", f); cb_expect("ast", 1)
    if ok:
        e = op_effects(); same("ast-unpool-flags", "|%d" % fl in e and "unpool|" in e, True); same("ast-unpool", tolist(r), emitted())
        for n in r: p.add(n)
def do_parse(p, env):
    u = env.users[W(len(env.users))] if env.users and W(2) else None; lg = W(3); lim = rand_limit(); files = W(3) == 2; label = 930 + W(5); got = []; dl = W(3) == 2
    if dl: lim = 20
    src = pick(("a :- b.", "", "p(1..3). % c", "syntax error", "x|y\nz")); fs = []
    if files: fs = [("syntax error" if W(5) == 4 else STRS[W(6)]) for _ in range(Wn(3))]; src = ";".join(fs)
    logger_label(label if lg else -3)
    if not lg: cb_expect("message", 0)
    bld = [None]
    def cb(n):
        cb_receive("ast|" + esc(text(n))); maybe_raise("ast")
        if W(5) == 4: do_read(n)
        if bld[0] is not None: x = bld[0]; op("ProgramBuilder.add", lambda: x.add(n), "builder_add|" + esc(text(n)))
        got.append(n); maybe_raise("ast_end")
    what = src if not files else (tuple(fs) if W(4) == 3 else fs); fn = A.parse_files if files else A.parse_string
    def f():
        l = Logger(label) if lg else None
        if dl and not lg: fn(what, cb, u.ctl) if u else fn(what, cb)
        elif dl: fn(what, cb, u.ctl if u else None, l)
        elif W(2): fn(what, cb, u.ctl if u else None, l, lim)
        else: fn(what, message_limit=lim, logger=l, control=u.ctl if u else None, callback=cb)
    if u and W(3) == 2: # statements go straight into a program
        h = []
        if op("ProgramBuilder", lambda: h.append(A.ProgramBuilder(u.ctl)), NONE) and op("ProgramBuilder.enter", lambda: h[0].__enter__(), "builder_begin"): bld[0] = h[0]
    ok = op("parse_files" if files else "parse_string", f); eff = op_effects(); em = emitted()
    cb_expect("message", 1); logger_label(-1)
    if bld[0] is not None: x = bld[0]; bld[0] = None; op("ProgramBuilder.exit", lambda: x.__exit__(None, None, None), "builder_end")
    if ok:
        same("ast-parsed", tolist(got), em); want = "parse_files|" if files else "parse_string|"; head = [l[l.index(want):] for l in eff.split("\n") if want in l][0]
        same("ast-parse-arguments", (head.endswith("|%s|%d" % (esc(src), lim)), head[len(want):].startswith("none|")), (True, u is None))
    for n in got: p.add(n)
def add_nodes(p, b):
    for _ in range(W(5)): x = p.any(); op("ProgramBuilder.add", lambda: b.add(x), "builder_add|" + esc(text(x)))
def do_builder(p, u):
    how = W(3)
    if how == 0:
        release_faults(0); op_open("with ProgramBuilder(scope)"); err = None
        try:
            with A.ProgramBuilder(u.ctl) as b: add_nodes(p, b); leave(u)
        except BaseException as e: err = e
        op_done(err); strip(err); b = None; err = None; release_faults(1); return
    if how == 1:
        def f():
            with A.ProgramBuilder(u.ctl) as b: add_nodes(p, b)
        op("with ProgramBuilder", f); return
    h = []
    if not op("ProgramBuilder", lambda: h.append(A.ProgramBuilder(u.ctl)), NONE): return
    for _ in range(1 + (W(3) == 2)):
        if not op("ProgramBuilder.enter", lambda: same("builder-enter", h[0].__enter__() is h[0], True), "builder_begin"): return
        add_nodes(p, h[0]); op("ProgramBuilder.exit", lambda: h[0].__exit__(None, None, None), "builder_end")
def family(env):
    for _ in range(W(3)):
        u = User()
        if make_control(u): env.users.append(u)
    p = Pool(); do_build(p)
    for _ in range(3 + W(14)):
        if not p.n:
            if W(2): do_build(p)
            else: do_parse(p, env)
            continue
        k = W(17); x = p.any()
        if k <= 1: do_build(p)
        elif k == 2: do_parse(p, env)
        elif k <= 4: do_set(p, x)
        elif k <= 6: do_seq(p, x)
        elif k == 7: do_copy(p, x)
        elif k == 8: do_compare(x, p.any())
        elif k == 9: do_print(x); do_read(x)
        elif k == 10: do_visit(x)
        elif k == 11: do_transform(p, x)
        elif k == 12: do_unpool(p, x)
        elif k == 13: do_update(p, x)
        elif k == 14: do_repr(x)
        elif k == 15: do_theory(p, env, text, ptr, Twin)
        elif env.users: do_builder(p, env.users[W(len(env.users))])
    x = None; p.n.clear(); p = None
    for u in env.users: end_control(u)
