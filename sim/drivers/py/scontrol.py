"""Controls: creation, commands, grounding, backend, observers, propagators, queries."""
from sbase import *
import clingo
from clingo import backend as B, propagator as P, symbol as SY, configuration as CF
from clingo.control import Control, BackendType
from clingo.core import TruthValue
# {{{ observers
OBS = "init_program begin_step end_step rule weight_rule minimize project output_atom output_term external assume heuristic acyc_edge theory_term_number theory_term_string theory_term_compound theory_element theory_atom theory_atom_with_guard".split()
def _got(self, fn, t, a):
    for x in a: keep_value(self.u, x)
    cb_receive("observer:%s|%d|%s" % (fn, self.idx, t))
    if W(24) == 23 and self.u.ctl is not None: check_control(self.u)
    maybe_raise("observer")
def _obs():
    d = {}
    def m(fn, f): d[fn] = lambda self, *a: _got(self, fn, f(*a), a)
    m("init_program", lambda i: b(i)); m("begin_step", lambda: ""); m("end_step", lambda: "")
    m("rule", lambda ch, h, l: "%s|%s|%s" % (b(ch), nums(h), nums(l))); m("weight_rule", lambda ch, h, lb, l: "%s|%s|%d|%s" % (b(ch), nums(h), lb, wl(l)))
    m("minimize", lambda p, l: "%d|%s" % (p, wl(l))); m("project", lambda a: nums(a)); m("output_atom", lambda s, a: "%s|%d" % (sym(s), a)); m("output_term", lambda s, c: "%s|%s" % (sym(s), nums(c)))
    m("external", lambda a, t: "%d|%d" % (a, TruthValue(t).value)); m("assume", lambda l: nums(l)); m("heuristic", lambda a, t, bias, pr, c: "%d|%d|%d|%d|%s" % (a, B.HeuristicType(t).value, bias, pr, nums(c)))
    m("acyc_edge", lambda x, y, c: "%d|%d|%s" % (x, y, nums(c))); m("theory_term_number", lambda t, n: "%d|%d" % (t, n)); m("theory_term_string", lambda t, n: "%d|%s" % (t, esc(n)))
    m("theory_term_compound", lambda t, n, a: "%d|%d|%s" % (t, n, nums(a))); m("theory_element", lambda e, t, c: "%d|%s|%s" % (e, nums(t), nums(c))); m("theory_atom", lambda a, t, e: "%d|%d|%s" % (a, t, nums(e)))
    m("theory_atom_with_guard", lambda a, t, e, o, r: "%d|%d|%s|%d|%d" % (a, t, nums(e), o, r))
    return d
OBSF = _obs()
def add_observer(u):
    how = W(4); names = OBS if how != 3 else [n for n in OBS if W(3)]; d = {n: OBSF[n] for n in names}
    o = type("Obs", (B.Observer,) if how != 2 else (), d)(); o.u = u; o.idx = u.nobs; r = bool(W(2)); u.keep.append(o)
    mask = "".join("1" if n in d else "0" for n in OBS)
    def f():
        if r or W(2): u.ctl.register_observer(o, r)
        else: u.ctl.register_observer(o)
    if op("Control.register_observer", f, "register_observer|%s|%d" % (mask, r)): u.nobs += 1
# }}}
# {{{ propagators
def seq_read(s, want, what):
    """a sequence of the interface reads like the list of the engine's elements"""
    n = len(want); k = W(8)
    if k == 0: same(what + ".iterate", list(s), want)
    elif k == 1: same(what + ".size", len(s), n)
    elif k == 2: same(what + ".index", [s[i] for i in range(n)], want)
    elif k == 3: same(what + ".negative-index", [s[i - n] for i in range(n)], want)
    elif k == 4:
        i = pick((n, n + 3, -n - 1)); r = "nothing"
        try: r = s[i]
        except IndexError: r = IndexError
        same(what + ".out-of-range", r, IndexError)
    else:
        def rs(): return slice(pick((None, 0, 1, -1, 2, -3, n)), pick((None, 0, n, -1, 1, -2, n + 4)), pick((None, 1, 2, -1, -2)))
        a = rs(); x = s[a]; w = want[a]
        if k == 6 or k == 7: c = rs(); x = x[c]; w = w[c]
        same(what + ".slice", list(x), w); same(what + ".slice-size", len(x), len(w))
        if w: i = W(2 * len(w)) - len(w); same(what + ".slice-index", x[i], w[i])
def ints(t): return [int(x) for x in t.split(",") if x]
def check_assignment(a):
    p = raw(a, "clingo_assignment_t*"); n = int(orc("ass.size", p))
    for _ in range(1 + W(4)):
        l = lit(n or 1); k = W(14)
        if k == 0: op("Assignment.value", lambda: same("query:assignment.value", str(a.value(l)), orc("ass.value", p, l)), NONE)
        elif k == 1: op("Assignment.level", lambda: same("query:assignment.level", str(a.level(l)), orc("ass.level", p, l)), NONE)
        elif k == 2: lv = W(int(orc("ass.dl", p)) + 1); op("Assignment.decision", lambda: same("query:assignment.decision", str(a.decision(lv)), orc("ass.decision", p, lv)), NONE)
        elif k == 3: op("Assignment.is_fixed", lambda: same("query:assignment.is_fixed", b(a.is_fixed(l)), orc("ass.fixed", p, l)), NONE)
        elif k == 4: op("Assignment.is_true", lambda: same("query:assignment.is_true", b(a.is_true(l)), orc("ass.true", p, l)), NONE)
        elif k == 5: op("Assignment.is_false", lambda: same("query:assignment.is_false", b(a.is_false(l)), orc("ass.false", p, l)), NONE)
        elif k == 6: op("Assignment.is_free", lambda: same("query:assignment.is_free", a.is_free(l), orc("ass.value", p, l) == "None"), NONE)
        elif k == 7: op("Assignment.info", lambda: same("query:assignment.info", "%d,%d,%s,%d,%s,%s,%s" % (a.decision_level, a.root_level, b(a.has_conflict), len(a), b(a.is_total), b(a.has_literal(l)), b(a.has_literal(n + 5))), orc("ass.info", p, l, n + 5)), NONE)
        elif k == 8: op("Assignment.read", lambda: seq_read(a, ints(orc("ass.list", p)), "query:assignment"), NONE)
        elif k == 9: op("Trail.read", lambda: seq_read(a.trail, ints(orc("trail", p)), "query:trail"), NONE)
        elif k == 10:
            lv = W(int(orc("ass.dl", p)) + 1)
            def f(): t = a.trail; same("query:trail.level", "%d-%d" % (t.begin(lv), t.end(lv)), orc("trail.level", p, lv))
            op("Trail.level", f, NONE)
        elif k == 11: op("Assignment.bad literal", lambda: a.is_true(n + 7))
        elif k == 12: op("Assignment.contains", lambda: same("query:assignment.contains", b(l in a), "1" if str(l) in orc("ass.list", p).split(",") else "0"), NONE)
        elif k == 13:
            def f(): t = a.trail; x = [list(t[t.begin(i):t.end(i)]) for i in range(a.decision_level + 1)]; same("query:trail.levels", sum(x, []), ints(orc("trail", p)))
            op("Trail.levels", f, NONE)
def p_init(self, i):
    u = self.u; p = raw(i, "clingo_propagate_init_t*")
    cb_receive("init|%d|%d|%d" % (self.idx, i.number_of_threads, i.check_mode.value)); maybe_raise("init"); nt = int(orc("init.threads", p))
    for _ in range(1 + W(9)):
        k = W(19); l = lit(6)
        if k <= 2: op("PropagateInit.add_watch", lambda: i.add_watch(l), "add_watch|%d" % l)
        elif k == 3: t = W(nt + (W(8) == 7)); op("PropagateInit.add_watch(thread)", lambda: i.add_watch(l, t) if W(2) else i.add_watch(l, thread_id=t), "add_watch|%d|%d" % (l, t))
        elif k == 4: op("PropagateInit.remove_watch", lambda: i.remove_watch(l), "remove_watch|%d" % l)
        elif k == 5: t = W(nt); op("PropagateInit.remove_watch(thread)", lambda: i.remove_watch(l, t), "remove_watch|%d|%d" % (l, t))
        elif k == 6: op("PropagateInit.freeze_literal", lambda: i.freeze_literal(l), "freeze|%d" % l)
        elif k == 7:
            m = pick(list(P.PropagatorCheckMode))
            def f(): i.check_mode = m; same("query:check_mode", str(i.check_mode.value), orc("init.check_mode", p)); same("query:check_mode", i.check_mode, m)
            op("PropagateInit.check_mode", f, "check_mode|%d" % m.value)
        elif k == 8:
            m = pick(list(P.PropagatorUndoMode))
            def f(): i.undo_mode = m; same("query:undo_mode", str(i.undo_mode.value), orc("init.undo_mode", p)); same("query:undo_mode", i.undo_mode, m)
            op("PropagateInit.undo_mode", f, "undo_mode|%d" % m.value)
        elif k == 9: fr = W(3); op("PropagateInit.add_literal", lambda: same_result("add_literal-result", i.add_literal() if fr == 2 else i.add_literal(bool(fr))), "add_literal|%d" % (1 if fr else 0))
        elif k == 10: c = rlits(); op("PropagateInit.add_clause", lambda: same_result("add_clause-result", b(i.add_clause(c))), "clause|" + nums(c))
        elif k == 11:
            w = rwlits(); bd = weird_number(); t = W(3) - 1; eq = W(3)
            op("PropagateInit.add_weight_constraint", lambda: same_result("add_weight_constraint-result", b(i.add_weight_constraint(l, w, bd) if eq == 2 and t == 0 else i.add_weight_constraint(l, w, bd, t) if eq == 2 else i.add_weight_constraint(l, w, bd, t, bool(eq)))), "weight_constraint|%d|%s|%d|%d|%d" % (l, wl(w), bd, t, eq == 1))
        elif k == 12: w = weird_number(); pr = weird_number() if W(3) else 0; d = pr == 0 and W(2); op("PropagateInit.add_minimize", lambda: i.add_minimize(l, w) if d else i.add_minimize(l, w, pr), "add_minimize|%d|%d|%d" % (l, w, pr))
        elif k == 13: op("PropagateInit.propagate", lambda: same_result("init-propagate-result", b(i.propagate())), "propagate")
        elif k == 14: op("PropagateInit.solver_literal", lambda: same("query:solver_literal", str(i.solver_literal(l)), orc("init.solver_literal", p, l)), NONE)
        elif k == 15: check_assignment(i.assignment)
        elif k == 16: op("PropagateInit.symbolic_atoms", lambda: same("query:init.symbolic_atoms", "".join("%d," % x.literal for x in i.symbolic_atoms), orc("satoms.lits", u.raw)), NONE)
        elif k == 17: op("PropagateInit.theory_atoms", lambda: same("query:init.theory_atoms", "".join(api_tatom(x) + "\n" for x in i.theory_atoms), orc("tatoms", u.raw, 1)), NONE)
        else: maybe_raise("init")
def p_act(self, c):
    p = raw(c, "clingo_propagate_control_t*"); t = int(orc("ctl.thread", p)); go = []
    for _ in range(W(5)):
        k = W(9); l = lit(6)
        if k == 0:
            ls = rlits(6); tag = bool(W(2)); lock = bool(W(2)); ng = W(3) == 2; d = W(3) == 2; ty = 0 if d else (2 if tag else 0) | (1 if lock else 0); go.clear()
            def f():
                fn = c.add_nogood if ng else c.add_clause; a = [-x for x in ls] if ng else ls
                r = fn(a) if d else fn(a, tag, lock) if W(2) else fn(a, lock=lock, tag=tag); same_result("add_clause-result", b(r)); go.append(r)
            op("PropagateControl.add_clause", f, "T%d|clause|%d|%s" % (t, ty, nums(ls)))
            if go and not go[0]: probe("clause-conflict"); return
        elif k == 1:
            go.clear()
            def f(): r = c.propagate(); same_result("propagate-result", b(r)); go.append(r)
            op("PropagateControl.propagate", f, "T%d|propagate" % t)
            if go and not go[0]: return
        elif k == 2: op("PropagateControl.add_literal", lambda: same_result("add_literal-result", c.add_literal()), "T%d|add_literal" % t)
        elif k == 3: op("PropagateControl.add_watch", lambda: c.add_watch(l), "T%d|add_watch|%d" % (t, l)); op("PropagateControl.has_watch", lambda: same("query:has_watch", b(c.has_watch(l)), orc("ctl.has_watch", p, l)), NONE)
        elif k == 4: op("PropagateControl.remove_watch", lambda: c.remove_watch(l), "T%d|remove_watch|%d" % (t, l))
        elif k == 5: check_assignment(c.assignment)
        elif k == 6: yield_()
        elif k == 7: maybe_raise("propagator")
        elif k == 8: op("PropagateControl.thread_id", lambda: same("query:thread_id", c.thread_id, t), NONE)
def p_propagate(self, c, ch):
    t = c.thread_id; cb_receive("propagate|%d|%d|%s|%d" % (self.idx, t, nums(ch), c.assignment.decision_level)); n = list(ch); keep_value(self.u, ch)
    maybe_raise("propagate"); p_act(self, c); maybe_raise("propagate_end"); same("kept-value-changed", list(ch), n)
def p_undo(self, t, a, ch): cb_receive("undo|%d|%d|%s|%d" % (self.idx, t, nums(ch), a.decision_level)); keep_value(self.u, ch); yield_()
def p_check(self, c): cb_receive("check|%d|%d|%d" % (self.idx, c.thread_id, c.assignment.decision_level)); maybe_raise("check"); p_act(self, c)
def p_decide(self, t, a, f):
    cb_receive("decide|%d|%d|%d" % (self.idx, t, f)); maybe_raise("decide")
    if W(3) == 2: check_assignment(a)
    r = f if W(3) == 0 else 0 if W(3) == 0 else lit(5); cb_promise(str(r)); return r
PROP = (("init", p_init), ("propagate", p_propagate), ("undo", p_undo), ("check", p_check), ("decide", p_decide))
def add_propagator(u):
    how = W(4); d = {n: f for n, f in PROP if (how != 3 and n != "decide") or W(2)}
    o = type("Prop", (P.Propagator,) if how != 2 else (), d)(); o.u = u; o.idx = u.nprop; u.keep.append(o)
    if op("Control.register_propagator", lambda: u.ctl.register_propagator(o), "register_propagator|" + "".join("1" if n in d else "0" for n, _ in PROP)): u.nprop += 1
# }}}
# {{{ queries
def api_term(t):
    y = t.type.value; n = t.type.name
    if n == "Number": return "%d:%d" % (y, t.number)
    if n == "Symbol": return "%d:%s" % (y, t.name)
    return "%d:%s(%s)" % (y, t.name if n == "Function" else "", "".join(api_term(x) + "," for x in t.arguments))
def api_tatom(a):
    r = api_term(a.term) + "~%s{" % a.term
    for e in a.elements: r += "".join(api_term(x) + "," for x in e.terms) + ":" + "".join("%d," % l for l in e.condition) + "/%d=%s;" % (e.condition_id, e)
    r += "}"; g = a.guard
    if g is not None: r += g[0] + api_term(g[1]) + "~%s" % g[1]
    return r + "@%d=%s" % (a.literal, a)
def api_satom(x): return "%s/%d%s%s," % (sym(x.symbol), x.literal, b(x.is_fact), b(x.is_external))
def api_conf(c):
    r = ""
    if c.is_array: r += "[" + "".join(api_conf(c[i]) + "," for i in range(len(c))) + "]"
    ks = c.keys
    if ks is not None:
        r += "{"
        for k in ks: v = getattr(c, k); r += "%s(%s)=%s," % (k, c.description(k), "<None>" if v is None else "<%s>" % v if isinstance(v, str) else api_conf(v))
        r += "}"
    return r
def check_config(u, mutate):
    op("Configuration.walk", lambda: same("query:configuration", api_conf(u.ctl.configuration), orc("conf", u.raw)), NONE)
    if not mutate: return
    for _ in range(1 + W(3)):
        v = pick(("1", "", "3,compete", "invalid value", "-1", "a|b\\c", "100%s", 7, True)); w = W(5); s = str(v)
        def f():
            c = u.ctl.configuration
            if w == 0: c.solve.models = v
            elif w == 1: setattr(getattr(c, "solve"), "parallel_mode", v)
            elif w == 2: c.solver.heuristic = v
            elif w == 3: c.stats = v
            else: c.tester = v
        op("Configuration.set", f, NONE if s == "invalid value" else "config|%s|%s" % (("solve.models", "solve.parallel_mode", "solver.heuristic", "stats", "tester")[w], esc(s)))
        if W(3) == 2:
            k = W(5); err = ("AttributeError", "AttributeError", "IndexError", "IndexError", None)[k]
            def f():
                c = u.ctl.configuration
                if k == 0: c.nosuch
                elif k == 1: c.nosuch = 1
                elif k == 2: c.solver[77]
                elif k == 3: c.solver[-1]
                else: c.description("nosuch")
            op("Configuration.bad", f, NONE, must="py:" + err if err else "runtime")
        if W(4) == 3:
            m = int(orc("conf.solvers", u.raw))
            if m:
                i = W(m)
                def f(): u.ctl.configuration.solver[i].seed = 5
                op("Configuration.set(array)", f, "config|solver[%d].seed|5" % i)
def check_control(u, what=-1):
    c = u.ctl; k = what if what >= 0 else W(10)
    if k == 0:
        def f():
            a = c.symbolic_atoms; g = "".join(api_satom(x) for x in a); same("query:symbolic_atoms.iterate", g, orc("satoms", u.raw)); same("query:symbolic_atoms.size", str(len(a)), orc("satoms.size", u.raw))
        op("SymbolicAtoms.iterate", f, NONE)
    elif k == 1:
        s = some_atom(u.raw)
        def f():
            a = c.symbolic_atoms; x = a[s]; same("query:symbolic_atoms.lookup", "" if x is None else api_satom(x), orc("satom", u.raw, rep(s))); same("query:symbolic_atoms.contains", b(s in a), "1" if orc("satom", u.raw, rep(s)) else "0")
            if W(4) == 3: same("query:symbolic_atoms.contains", b("no symbol" in a), "0")
        op("SymbolicAtoms.lookup", f, NONE)
    elif k == 2:
        def f():
            a = c.symbolic_atoms; g = a.signatures; same("query:symbolic_atoms.signatures", "".join("%s/%d%s," % (n, r, b(p)) for n, r, p in g), orc("satoms.sigs", u.raw))
            for n, r, p in g[:3]: same("query:symbolic_atoms.by_signature", "".join(api_satom(x) for x in (a.by_signature(n, r, p) if W(2) or not p else a.by_signature(n, r))), orc("satoms.sig", u.raw, r, int(p), n))
            for x in a: s = x.symbol; same("query:symbolic_atom.match", b(x.match(s.name, len(s.arguments), s.positive)) + b(x.match("zz", 0)) + b(x.match(s.name, len(s.arguments), not s.positive)), "100"); break
        op("SymbolicAtoms.signatures", f, NONE)
    elif k == 3 and W(3) == 2:
        def f(): # terms and elements are values
            for get in (lambda: [x for a in c.theory_atoms for x in [a.term] + [y for e in a.elements for y in e.terms]], lambda: [e for a in c.theory_atoms for e in a.elements]):
                l, again = get(), get()
                if not l: continue
                i = W(len(l)); x, y, z = l[i], again[i], l[W(len(l))]; same("query:theory.identity", [rel(x, y), hash(x) == hash(y), {x: 1}.get(y)], [relw(0), True, 1])
                r = rel(x, z); same("query:theory.order", r in (relw(0), relw(1), relw(-1)), True); same("query:theory.order", rel(z, x), {relw(0): relw(0), relw(1): relw(-1), relw(-1): relw(1)}[r])
                if str(x) != str(z): same("query:theory.identity", x == z, False)
        op("Control.theory_atoms(values)", f, NONE)
    elif k == 3: op("Control.theory_atoms", lambda: same("query:theory_atoms", "".join(api_tatom(x) + "\n" for x in c.theory_atoms), orc("tatoms", u.raw, 1)), NONE)
    elif k == 4:
        n = pick(("n", "c", "nosuch", ""))
        def f(): x = c.get_const(n); same("query:get_const", "" if x is None else sym(x), orc("const", u.raw, 0, 0, n))
        op("Control.get_const", f, NONE)
    elif k == 5: op("Control.flags", lambda: same("query:flags", b(c.is_conflicting) + b(c.enable_cleanup) + b(c.enable_enumeration_assumption), orc("flags", u.raw)), NONE)
    elif k == 6: check_config(u, False)
    elif k == 7:
        check_kept(u)
    elif k == 8: # atoms and iterators that are used later
        def f(): a = c.symbolic_atoms; l = list(a); same("query:symbolic_atoms.kept", "".join(api_satom(x) for x in l), orc("satoms", u.raw)); i, j = iter(a), iter(a); same("query:symbolic_atoms.two-iterators", "".join(api_satom(x) + api_satom(y) for x, y in zip(i, j)), "".join(x + "," + x + "," for x in orc("satoms", u.raw).split(",")[:-1]) if all("," not in sym(x.symbol) for x in l) else "".join(api_satom(x) * 2 for x in l))
        op("SymbolicAtoms.kept", f, NONE)
    elif k == 9:
        def f():
            ts = [a for a in c.theory_atoms]; n = len(ts)
            if n: i, j = W(n), W(n); x, y = ts[i], ts[j]; same("query:theory_atom.order", "%d%d%d%d" % (x == y, x < y, x > y, hash(x) == hash(y)), "%d%d%d%d" % (i == j, i < j, i > j, i == j)); t = x.term; same("query:theory_term.identity", t == x.term and hash(t) == hash(x.term), True)
        op("TheoryAtoms.order", f, NONE)
# }}}
# {{{ creation, commands
class Logger:
    def __init__(self, label): self.label = label
    def __call__(self, code, message): cb_receive("message|%d|%d|%s" % (self.label, code.value, esc(message)))
def make_control(u):
    G.ids += 1; u.id = G.ids; u.label = 10 + u.id % 900; u.logger = W(4) != 0; args = []
    for _ in range(W(4)):
        k = W(8)
        if k == 2 and W(3): k = 0
        args.append(("-c", "n=3", "--invalid", "0", "a b", "", "100%", "-t2")[k])
    lim = rand_limit(); dl = W(4) == 3
    if dl: lim = 20
    logger_label(u.label if u.logger else -7); bad = "--invalid" in args; ar = tuple(args) if W(4) == 3 else args
    def f():
        lg = Logger(u.label) if u.logger else None
        if dl and not args and not u.logger: u.ctl = Control()
        elif dl: u.ctl = Control(ar, lg)
        elif W(2): u.ctl = Control(ar, lg, lim)
        else: u.ctl = Control(arguments=ar, message_limit=lim, logger=lg)
        lg = None
    ok = op("Control", f, NONE if bad else "new|%s|%d" % (",".join(esc(x) for x in args), lim))
    if ok: u.raw = raw_ctl(u.ctl)
    else: u.ctl = None; gc.collect()
    return ok
def end_control(u):
    if u.ctl is None: return
    check_kept(u)
    for r in REG: strip(r[2])
    def f(): u.ctl = None; gc.collect()
    op("~Control", f, NONE if u.borrowed else None if G.shared else "free"); u.raw = 0
def lookup(u, s): l = orc("satom.lit", u.raw, rep(s)); return int(l) if l else 0
PROGRAMS = ("a. b :- a.", "", "{a;b}. #show a/0.", "syntax error", "p(@f(1)).\n#const c=\"x|y\".", "%s%n %* comment *%", "p(\"\u00e4\").")
def do_command(u):
    c = u.ctl; k = W(18)
    if k <= 1:
        ps = ["p%d" % i if W(3) else weird_string() for i in range(Wn(3))]; p = pick(PROGRAMS); n = "base" if W(2) else weird_string(); how = W(5)
        if how >= 3: n = "base"; ps = []
        def f():
            if how == 0: c.add(n, ps, p)
            elif how == 1: c.add(name=n, parameters=ps, program=p)
            elif how == 2: c.add(n, tuple(ps), program=p)
            elif how == 3: c.add(p)
            else: c.add(program=p)
        op("Control.add", f, NONE if p == "syntax error" else "add|%s|%s|%s" % (esc(n), ",".join(esc(x) for x in ps), esc(p)))
    elif k == 2: x = "file.lp" if W(3) else "missing.lp" if W(2) else weird_string(); op("Control.load", lambda: c.load(x), NONE if x == "missing.lp" else "load|" + esc(x))
    elif k <= 5:
        s = some_atom(u.raw) if k > 3 else lit(9); l = lookup(u, s) if k > 3 else s; v = pick((None, True, False)); rel = W(3) == 2
        if rel: op("Control.release_external", lambda: c.release_external(s), "release_external|%d" % l)
        else: op("Control.assign_external", lambda: c.assign_external(s, v) if W(2) else c.assign_external(external=s, truth=v), "assign_external|%d|%d" % (l, 0 if v is None else 1 if v else 2))
    elif k == 6: op("Control.cleanup", lambda: c.cleanup(), "cleanup")
    elif k == 7:
        v = bool(W(2))
        def f(): c.enable_cleanup = v
        op("Control.enable_cleanup", f, "enable_cleanup|%d" % v)
    elif k == 8:
        v = bool(W(2))
        def f(): c.enable_enumeration_assumption = v
        op("Control.enable_enumeration_assumption", f, "enumeration_assumption|%d" % v)
    elif k == 9: op("Control.interrupt", lambda: c.interrupt(), "interrupt")
    elif k == 10: check_config(u, True)
    elif k == 11: parse_term(pick(("f(1,\"x\")", "a", "((1,2),x)", "f(", "-p(3)", "", "#inf")), 950)
    elif k == 12: op("Control.remove_minimize", lambda: c.remove_minimize(), "remove_minimize")
    elif k == 13:
        w = W(3); a = [1 + W(9) if W(2) else some_atom(u.raw) for _ in range(Wn(4))]; t = [x if isinstance(x, int) else lookup(u, x) for x in a]; neg = any(x < 0 for x in t)
        if neg: return
        if w == 0: op("Control.add_project", lambda: c.add_project(a), "update_project|%s|1" % nums(t))
        elif w == 1: op("Control.replace_project", lambda: c.replace_project(a), "update_project|%s|0" % nums(t))
        else: op("Control.remove_project", lambda: c.remove_project(), "update_project||0")
    elif k == 14:
        t = pick(list(BackendType)); r, s1, s2 = bool(W(2)), bool(W(2)), bool(W(2)); x = weird_string(); v = t.value | (lib.clingo_backend_type_reify_sccs if s1 else 0) | (lib.clingo_backend_type_reify_steps if s2 else 0)
        op("Control.register_backend", lambda: c.register_backend(t, x, r, s1, s2) if W(2) else c.register_backend(t, x, replace=r, reify_steps=s2, reify_sccs=s1), "register_backend|%d|%s|%d" % (v, esc(x), r))
    elif k == 15: x = [weird_string() for _ in range(Wn(3))]; op("Control.load_aspif", lambda: c.load_aspif(x), "load_aspif|" + ",".join(esc(y) for y in x))
    else: check_control(u)
def parse_term(t, label):
    lg = W(2); logger_label(label if lg else -3); lim = rand_limit(); how = W(4)
    def f():
        l = Logger(label) if lg else None
        s = SY.parse_term(t, l, lim) if how < 2 else SY.parse_term(string=t, logger=l, message_limit=lim) if l or how == 2 else SY.parse_term(t)
        same("parse-limit", last_result(), "limit|%d" % (lim if how < 3 or l else 20))
        w = orc("parse_term", s=t)
        if w: same("query:parse_term", sym(s), w)
    op("parse_term", f, NONE); logger_label(-1)
class Falsy: # a context may look empty
    def __len__(self): return 0
class Loc: pass
def ground_cb(self, name, args):
    u = self.u; t = cb_truth().split("|"); pre = "|".join(t[1:7] if t[0] == "ground" else t[0:6])
    cb_receive("ground|%s|%s|%s" % (pre, name, syms(args)))
    keep_value(u, args)
    maybe_raise("ground")
    if W(8) == 7: check_control(u)
    r = [pick(args) if W(3) == 2 and args else rand_sym() for _ in range(Wn(4))]; how = W(5)
    maybe_raise("ground_end")
    if how == 0 and len(r) == 1: res = r[0]
    elif how == 1: res = tuple(r)
    elif how == 2: res = (x for x in r)
    elif how == 3: r = [rand_sym()]; res = r[0]
    else: res = r
    cb_promise(syms(r)); return res
def make_context(u):
    def __getattr__(self, name):
        if name.startswith("__") or name in ("u",): raise AttributeError(name)
        if name == "nosuch" and W(4) == 0:
            e = AttributeError(name); c = register(e); cb_receive(cb_truth()); note_raised(c, REG[-1][1]); raise e
        return lambda *args: ground_cb(self, name, list(args))
    o = type("Context", (Falsy,) if W(3) == 2 else (), {"__getattr__": __getattr__})(); o.u = u; return o
def do_ground(u):
    parts = [("base" if W(2) else weird_string(), [rand_sym() for _ in range(Wn(3))]) for _ in range(Wn(4))]; ctx = make_context(u) if W(4) else None; dflt = not parts and W(2)
    e = ",".join("%s:%s" % (esc(n), syms(a)) for n, a in parts)
    if dflt: e = "base:"
    def f():
        if dflt: u.ctl.ground(context=ctx) if ctx is not None else u.ctl.ground()
        elif W(2): u.ctl.ground(parts, ctx)
        else: u.ctl.ground(parts=[(n, tuple(a)) for n, a in parts], context=ctx)
    if ctx is None and W(6): # without a context the main module answers; it has no functions here
        import __main__
    cb_expect("with ground", int(ctx is not None))
    try: op("Control.ground", f, "ground|" + e)
    finally: cb_expect("with ground", 0)
# }}}
# {{{ backend
def backend_op(u, bk):
    def atoms(): return [2147483647 if W(6) == 5 else 1 + W(9) for _ in range(Wn(4))]
    k = W(18)
    if k == 0:
        ch = bool(W(2)); h = atoms(); l = rlits(); how = W(3)
        if how == 2: ch = False
        op("Backend.add_rule", lambda: bk.add_rule(h, l, ch) if how == 0 else bk.add_rule(h, body=l, choice=ch) if how == 1 else bk.add_rule(h, l), "rule|%d|%s|%s" % (ch, nums(h), nums(l)))
    elif k == 1: ch = bool(W(2)); h = atoms(); l = rwlits(); lb = weird_number(); op("Backend.add_weight_rule", lambda: bk.add_weight_rule(h, lb, l, ch) if ch or W(2) else bk.add_weight_rule(h, lb, l), "weight_rule|%d|%s|%d|%s" % (ch, nums(h), lb, wl(l)))
    elif k == 2: l = rwlits(); p = weird_number(); op("Backend.add_minimize", lambda: bk.add_minimize(p, l), "minimize|%d|%s" % (p, wl(l)))
    elif k == 3: h = atoms(); op("Backend.add_project", lambda: bk.add_project(h), "project|" + nums(h))
    elif k == 4: a = 1 + W(9); t = pick(list(TruthValue)); d = t.name == "False_" and W(2); op("Backend.add_external", lambda: bk.add_external(a) if d else bk.add_external(a, t), "external|%d|%d" % (a, t.value))
    elif k == 5: l = rlits(); op("Backend.add_assume", lambda: bk.add_assume(l), "assume|" + nums(l))
    elif k == 6: a = 1 + W(9); t = pick(list(B.HeuristicType)); bias = weird_number(); pr = W(9) if W(4) else 4294967295; l = rlits(); op("Backend.add_heuristic", lambda: bk.add_heuristic(a, t, bias, pr, l), "heuristic|%d|%d|%d|%d|%s" % (a, t.value, bias, pr, nums(l)))
    elif k == 7: x = weird_number(); y = weird_number(); l = rlits(); op("Backend.add_acyc_edge", lambda: bk.add_acyc_edge(x, y, l), "acyc_edge|%d|%d|%s" % (x, y, nums(l)))
    elif k == 8: op("Backend.add_atom", lambda: same_result("add_atom-result", bk.add_atom()), "add_atom|")
    elif k <= 10: s = some_atom(u.raw) if W(4) else rand_sym(1); fun = orc("sym.type", None, rep(s)) == str(lib.clingo_symbol_type_function); op("Backend.add_atom(symbol)", lambda: same_result("add_atom-result", bk.add_atom(s)), "add_atom|" + sym(s) if fun else NONE)
    elif k == 11: n = weird_number(); op("Backend.add_theory_term_number", lambda: same_result("theory-id", bk.add_theory_term_number(n)), "theory_term_number|%d" % n)
    elif k == 12: s = weird_string(); op("Backend.add_theory_term_string", lambda: same_result("theory-id", bk.add_theory_term_string(s)), "theory_term_string|" + esc(s))
    elif k == 13: s = rand_sym(1); op("Backend.add_theory_term_symbol", lambda: same_result("theory-id", bk.add_theory_term_symbol(s)), "theory_term_symbol|" + sym(s))
    elif k == 14:
        ids = []
        for i in range(1 + W(3)):
            if not op("Backend.add_theory_term_number", lambda: ids.append(bk.add_theory_term_number(i)), "theory_term_number|%d" % i): return
        ty = pick(list(B.TheorySequenceType)); op("Backend.add_theory_term_sequence", lambda: same_result("theory-id", bk.add_theory_term_sequence(ty, ids)), "theory_term_sequence|%d|%s" % (ty.value, nums(ids)))
        op("Backend.add_theory_term_function", lambda: same_result("theory-id", bk.add_theory_term_function("f g", ids)), "theory_term_function|f g|" + nums(ids)); l = rlits(); el = []
        def f(): el.append(bk.add_theory_element(ids, l)); same_result("theory-id", el[0])
        if not op("Backend.add_theory_element", f, "theory_element|%s|%s" % (nums(ids), nums(l))): return
        els = el * W(3); tm = ids[0]; rhs = ids[-1]; at = 1 + W(9) if W(3) else 0; d = W(2); e = "|%d|%d|%s" % (4294967295 if d else at, tm, nums(els))
        if W(2): op("Backend.add_theory_atom_with_guard", lambda: same_result("theory-atom", bk.add_theory_atom_with_guard(tm, els, "<=", rhs) if d else bk.add_theory_atom_with_guard(tm, els, "<=", rhs, at)), "theory_atom_with_guard%s|<=|%d" % (e, rhs))
        else: op("Backend.add_theory_atom", lambda: same_result("theory-atom", bk.add_theory_atom(tm, els) if d else bk.add_theory_atom(tm, els, at)), "theory_atom" + e)
    elif W(3) == 2: check_control(u, W(6))
def leave(x):
    e = make_exc("scope"); note_raised(register(e), REG[-1][1]); raise e
def do_backend(u):
    how = W(4)
    if cb_depth() > 0: how %= 2 # errors may leave the callback
    if how == 0: # scope left by an exception
        release_faults(0); op_open("with backend(scope)"); err = None
        try:
            with u.ctl.backend() as bk:
                for _ in range(W(5)): backend_op(u, bk)
                leave(u)
        except BaseException as e: err = e
        op_done(err); strip(err); bk = None; release_faults(1)
        try: err is None or again(err)
        finally: err = None
        return
    if how == 1:
        def f():
            with u.ctl.backend() as bk:
                for _ in range(W(5)): backend_op(u, bk)
        op("with backend", f); return
    h = []
    def f(): h.append(u.ctl.backend()); h[0].__enter__()
    if not op("Control.backend", f, "backend_begin"): return
    bk = h[0]
    for _ in range(1 + W(8)): backend_op(u, bk)
    op("Backend.__exit__", lambda: bk.__exit__(None, None, None), "backend_end")
    if how == 3: # the same object once more
        if op("Backend.__enter__", lambda: bk.__enter__(), "backend_begin"):
            for _ in range(W(3)): backend_op(u, bk)
            op("Backend.__exit__", lambda: bk.__exit__(None, None, None), "backend_end")
# }}}
