"""Solving: handlers, handles, models, statistics."""
from sbase import *
from scontrol import seq_read, lookup, check_control
from stheory import theory_hook
import clingo
# {{{ models
SHOW = (("shown", "clingo_show_type_shown"), ("atoms", "clingo_show_type_atoms"), ("terms", "clingo_show_type_terms"), ("theory", "clingo_show_type_theory"), ("complement", "clingo_show_type_complement"))
def check_model(m, u, extend):
    p = raw_model(m)
    for _ in range(W(5)):
        k = W(14); t = orc("model", p).split("|")
        if k == 0: op("Model.number", lambda: same("query:model.number", str(m.number), t[0]), NONE)
        elif k == 1: op("Model.type", lambda: same("query:model.type", str(m.type.value), t[1]), NONE)
        elif k == 2: op("Model.thread_id", lambda: same("query:model.thread_id", str(m.thread_id), t[2]), NONE)
        elif k == 3: op("Model.optimality_proven", lambda: same("query:model.optimality_proven", b(m.optimality_proven), t[3]), NONE)
        elif k == 4: op("Model.cost", lambda: same("query:model.cost", nums(m.cost), orc("model.cost", p)), NONE)
        elif k == 5: op("Model.priority", lambda: same("query:model.priority", nums(m.priority), orc("model.priority", p)), NONE)
        elif k <= 8:
            kw = {n: True for n, _ in SHOW if W(2)}; mask = 0
            for n, c in SHOW:
                if n in kw: mask |= getattr(lib, c)
            def f():
                s = m.symbols(**kw); w = orc("model.symbols", p, mask); same("query:model.symbols", syms(s), w); l = list(s); seq_read(s, l, "query:model.symbols"); same("query:model.symbols.str", [str(s), repr(s)], ["[%s]" % ", ".join(str(x) for x in l), "[%s]" % ", ".join(repr(x) for x in l)])
                keep_value(u, l)
            op("Model.symbols", f, NONE)
        elif k == 9:
            n = []
            def f(): n.extend(m.symbols(atoms=True, complement=bool(W(2))))
            if not op("Model.symbols", f, NONE): continue
            a = pick(n) if n else rand_sym(1); op("Model.contains", lambda: same("query:model.contains", b(m.contains(a)), orc("model.contains", p, rep(a))), NONE)
        elif k == 10: l = lit(30); op("Model.is_true", lambda: same("query:model.is_true", b(m.is_true(l)), orc("model.is_true", p, l)), NONE)
        elif k == 11: l = lit(30); op("Model.is_consequence", lambda: same("query:model.is_consequence", str(m.is_consequence(l)), orc("model.consequence", p, l)), NONE)
        elif k == 12: op("Model.__str__", lambda: same("query:model.str", str(m), orc("model.symbols", p, lib.clingo_show_type_shown).replace(";", " ") if ";" not in "".join(x for x in t[4] if x == '"') and '"' not in t[4] else str(m)), NONE)
        elif k == 13 and u is not None:
            ls = [lit(9) if W(2) else (some_atom(u.raw), bool(W(2))) for _ in range(Wn(4))]; ng = W(2)
            def val(x): return x if isinstance(x, int) else (lookup(u, x[0]) or -1) * (1 if x[1] else -1)
            w = [val(x) * (-1 if ng else 1) for x in ls]
            op("SolveControl.add_clause", lambda: m.context.add_nogood(ls) if ng else m.context.add_clause(ls), "model_clause|" + nums(w))
            if W(3) == 2: op("SolveControl.symbolic_atoms", lambda: same("query:context.symbolic_atoms", "".join("%d," % x.literal for x in m.context.symbolic_atoms), orc("satoms.lits", u.raw)), NONE)
    if extend and Wc(1, 5):
        s = [rand_sym(1) for _ in range(Wn(4))]; op("Model.extend", lambda: m.extend(s), "extend|" + syms(s))
        sh = bool(W(2)); op("Model.symbols", lambda: same("query:model.symbols", syms(m.symbols(theory=True, shown=sh)), orc("model.symbols", p, lib.clingo_show_type_theory | (lib.clingo_show_type_shown if sh else 0))), NONE)
# }}}
# {{{ statistics
def stat_text(x):
    if isinstance(x, dict): return "{" + ",".join("%s:%s" % (k, stat_text(v)) for k, v in x.items()) + "}"
    if isinstance(x, list): return "[" + ",".join(stat_text(v) for v in x) + "]"
    return "%.17g" % x
def check_stats(u): op("Control.statistics", lambda: same("query:statistics", stat_text(u.ctl.statistics), orc("stats", u.raw)), NONE)
def parse_stat(t, i=0):
    if t[i] == "{":
        r = {}; i += 1
        while t[i] != "}":
            j = t.index(":", i); k = t[i:j]; r[k], i = parse_stat(t, j + 1)
            if t[i] == ",": i += 1
        return r, i + 1
    if t[i] == "[":
        r = []; i += 1
        while t[i] != "]":
            v, i = parse_stat(t, i); r.append(v)
            if t[i] == ",": i += 1
        return r, i + 1
    j = i
    while j < len(t) and t[j] not in ",]}": j += 1
    return float(t[i:j]), j
class Bad(Exception): pass
def kind(v):
    if isinstance(v, str): raise Bad
    return list if isinstance(v, (list, tuple)) else dict if isinstance(v, dict) else float
def m_set(old, ty, v, update): # new value of an entry, with the effects of a wrong update kept
    if ty is dict:
        if not isinstance(v, dict): raise Bad
        m_update(old, v); return old
    if ty is list:
        if isinstance(v, dict): v = list(v)
        if not isinstance(v, (list, tuple, str)): raise Bad
        for i, x in enumerate(v):
            if i < len(old): old[i] = m_set(old[i], type(old[i]), x, True)
            else: m_append(old, x)
        return old
    if callable(v): v = v(old if update else None)
    if not isinstance(v, (int, float)): raise Bad
    return float(v)
def m_append(a, v): t = kind(v); a.append(t()); a[-1] = m_set(a[-1], t, v, False)
def m_update(d, vs):
    for k, v in vs.items(): m_item(d, k, v)
def m_item(d, k, v):
    if k in d: d[k] = m_set(d[k], type(d[k]), v, True)
    else: t = kind(v); d[k] = t(); d[k] = m_set(d[k], t, v, False)
NAMES = ("a", "b", "key with space", "50%", "a.b", "\u00e4")
def rand_value(depth):
    k = W(7 if depth else 4)
    if k == 0: return pick((0, 1.5, -3, 1e300, 0.1, True))
    if k == 1: return pick((lambda x: 1 if x is None else x + 1, lambda x: -1.0 if x is None else 2 * x))
    if k == 2: return W(100)
    if k == 3: return "text" if W(6) == 5 else 0.25
    if k == 4: return [rand_value(depth - 1) for _ in range(Wn(4))]
    if k == 5: return {pick(NAMES): rand_value(depth - 1) for _ in range(Wn(4))}
    return tuple(rand_value(depth - 1) for _ in range(W(3)))
def user_stats(root):
    p = raw(root, "clingo_statistics_t*"); st = [parse_stat(orc("ustats", p))[0]]
    def step(name, api, model):
        exp = []; got = []
        def f():
            try: api()
            except (TypeError, AttributeError, ValueError) as e: got.append(type(e).__name__)
        if not op(name, f): st[0] = parse_stat(orc("ustats", p))[0]; return False
        try: model()
        except Bad: exp.append(1)
        if bool(got) != bool(exp): violation("user-statistics-error", "an update %s but should %s: %s" % ("raised " + got[0] if got else "succeeded", "raise" if exp else "succeed", stat_text(st[0])))
        same("user-statistics", orc("ustats", p), stat_text(st[0])); return True
    def walk(s, m, path, depth):
        for _ in range(1 + W(3)):
            if isinstance(m, dict):
                k = W(8); n = pick(NAMES); v = rand_value(2)
                if k <= 2:
                    def f(): s[n] = v
                    if not step("StatisticsMap.__setitem__", f, lambda: m_item(m, n, v)): return False
                elif k == 3:
                    vs = {pick(NAMES): rand_value(1) for _ in range(Wn(4))}
                    if not step("StatisticsMap.update", lambda: s.update(vs), lambda: m_update(m, vs)): return False
                elif k == 4:
                    def f():
                        same("query:user_stats.has", b(n in s) + str(len(s)), ("1" if n in m else "0") + str(len(m))); same("query:user_stats.keys", list(s.keys()), list(m)); same("query:user_stats.iter", list(s), list(m)); r = "x"
                        same("query:user_stats.items", [x for x, _ in s.items()], list(m)); same("query:user_stats.values", [x for x in s.values() if isinstance(x, float)], [x for x in m.values() if isinstance(x, float)])
                        if n not in m:
                            try: s[n]
                            except KeyError: r = KeyError
                            same("query:user_stats.missing", r, KeyError)
                    op("StatisticsMap.read", f, NONE)
                elif depth:
                    ks = [x for x in m if not isinstance(m[x], float)]
                    if ks:
                        x = pick(ks); h = []
                        if op("StatisticsMap.__getitem__", lambda: h.append(s[x]), NONE) and not walk(h[0], m[x], path, depth - 1): return False
                    elif m: x = pick(list(m)); op("StatisticsMap.__getitem__", lambda: same("query:user_stats.value", stat_text(s[x]), stat_text(m[x])), NONE)
            else:
                k = W(7); v = rand_value(2)
                if k == 0:
                    if not step("StatisticsArray.append", lambda: s.append(v), lambda: m_append(m, v)): return False
                elif k == 1:
                    vs = [rand_value(1) for _ in range(Wn(3))]; how = W(2)
                    def f():
                        x = s
                        if how: x.extend(vs)
                        else: x += vs
                    def g():
                        for y in vs: m_append(m, y)
                    if not step("StatisticsArray.extend", f, g): return False
                elif k == 2 and m:
                    i = W(len(m))
                    def f(): s[i] = v
                    def g(): m[i] = m_set(m[i], type(m[i]), v, True)
                    if not step("StatisticsArray.__setitem__", f, g): return False
                elif k == 3:
                    vs = [rand_value(1) for _ in range(Wn(4))]
                    if not step("StatisticsArray.update", lambda: s.update(vs), lambda: m_set(m, list, vs, True)): return False
                elif k == 4:
                    def f():
                        same("query:user_stats.size", len(s), len(m)); same("query:user_stats.values", [x for x in s if isinstance(x, float)], [x for x in m if isinstance(x, float)])
                        for g in ((lambda: s.insert(0, 1), lambda: s.__delitem__(0), lambda: s + [1]) if W(3) == 2 else ()): # not supported
                            r = "x"
                            try: g()
                            except NotImplementedError: r = NotImplementedError
                            same("query:user_stats.unsupported", r, NotImplementedError)
                        for i in (-1, len(m)):
                            r = "x"
                            try: s[i]
                            except IndexError: r = IndexError
                            same("query:user_stats.index", r, IndexError)
                    op("StatisticsArray.read", f, NONE)
                elif k == 5 and m and depth:
                    i = W(len(m)); h = []
                    if op("StatisticsArray.__getitem__", lambda: h.append(s[i]), NONE):
                        if isinstance(m[i], float): same("query:user_stats.value", stat_text(h[0]), stat_text(m[i]))
                        elif not walk(h[0], m[i], path, depth - 1): return False
        return True
    walk(root, st[0], "", 3)
# }}}
# {{{ events
class Handler:
    def __init__(self, u): self.u = u
    def on_model(self, m):
        cb_receive("event:model|" + orc("model", raw_model(m))); maybe_raise("on_model"); theory_hook("on_model", m); check_model(m, self.u, True); go = not Wc(1, 8); maybe_raise("on_model_end"); cb_promise("1" if go else "0")
        return pick((True, None, 1)) if go else pick((False, 0))
    def on_unsat(self, lb): cb_receive("event:unsat|" + nums(lb)); keep_value(self.u, lb); maybe_raise("on_unsat"); cb_promise("1")
    def on_statistics(self, step, accu):
        cb_receive("event:statistics|%s|%s" % tuple(orc("ustats.root", raw(x, "clingo_statistics_t*")) for x in (step, accu))); maybe_raise("on_statistics"); theory_hook("on_statistics", step, accu)
        if W(2): user_stats(step)
        if W(2): user_stats(accu)
        cb_promise("1")
    def on_finish(self, r): cb_receive("event:finish|%d" % bits(r)); maybe_raise("on_finish"); cb_promise("1")
def bits(r): return (1 if r.satisfiable else 0) | (2 if r.unsatisfiable else 0) | (4 if r.exhausted else 0) | (8 if r.interrupted else 0)
def check_result(r):
    v = int(last_result()); same("solve-result", bits(r), v & 15); w = True if v & 1 else False if v & 2 else None
    same("solve-result-flags", "%s%s%s%s" % (r.satisfiable, r.unsatisfiable, r.unknown, r), "%s%s%s%s" % (w, None if w is None else not w, w is None, "SAT" if v & 1 else "UNSAT" if v & 2 else "UNKNOWN"))
# }}}
class Side: pass
def side_body(s):
    for _ in range(s.n): yield_()
    if s.kind == 0: op("Control.interrupt", lambda: s.u.ctl.interrupt(), "interrupt")
    elif s.kind == 1: op("SolveHandle.cancel", lambda: s.h.cancel(), "cancel")
    else: op("SolveHandle.wait(other)", lambda: same_result("wait-result", b(s.h.wait(0.01))), "wait|0.01")
def use_handle(u, h, async_, yld):
    hraw = raw(h, "clingo_solve_handle_t*"); got = []; st = dict(stopped=False, failed=False, ended=False, current=False); t = -1; sd = None
    if Wc(1, 3):
        sd = Side(); sd.u = u; sd.h = h; sd.kind = (0 if W(2) else 2) if yld else W(3); sd.n = W(30)
        def body(_):
            try: side_body(sd)
            except BaseException as e: violation("exception-escaped-driver", repr(e))
        sd.cb = TASK(body); t = spawn(sd.cb, None, "client2"); probe("second-client")
        if sd.kind < 2 or yld: st["stopped"] = True # (waiting also lets resume drop a model)
    try: _use(u, h, hraw, async_, yld, got, st)
    finally:
        if t >= 0: join(t)
        if sd is not None: sd.h = None; sd.cb = None
    if yld: # models come in the order they were found, each once
        k = 0
        for i in range(search_models(hraw)): k += k < len(got) and got[k] == search_model(hraw, i)
        if k < len(got): violation("models-order-to-client", "model %d handed to the client (%s) is not a model that follows the one before" % (k, got[k]))
    if yld and st["ended"] and not st["stopped"] and not st["failed"] and search_complete(hraw):
        same("models-delivered-to-client", "\n".join(got), "\n".join(search_model(hraw, i) for i in range(search_models(hraw))))
def _use(u, h, hraw, async_, yld, got, st):
    def deliver(m):
        s = last_result(); same("model-identity", "none" if m is None else orc("model", raw_model(m)), s)
        if m is None: st["ended"] = True
        elif not got or got[-1] != s: got.append(s)
        st["current"] = True
    how = W(3) if yld else 2
    if how == 0:
        lim = 1000 if W(3) else W(4)
        def f():
            for m in h:
                s = last_result(); same("model-identity", orc("model", raw_model(m)), s); got.append(s); check_model(m, u, False)
                if len(got) >= lim: st["stopped"] = True; break
            if not st["stopped"]: st["ended"] = True
        if not op("iterate", f): st["failed"] = True
    else:
        for _ in range(1 + W(14)):
            if st["failed"] or st["ended"]: break
            a = W(9 if yld else 6); ok = True
            if a <= 1:
                w = pick((0, 0.002, 0.5, 3, -1, -0.25)); t0 = clock()
                def f():
                    r = h.wait(w); same_result("wait-result", b(r))
                    if not r and w > 0 and clock() < t0 + w: violation("wait-early", "wait reported a timeout too early")
                ok = op("SolveHandle.wait(t)", f, "wait|%.6g" % w)
            elif a == 2:
                def f(): r = h.wait(); same("wait-result", b(r), last_result()); same("wait-result", b(r), "1")
                ok = op("SolveHandle.wait()", f, "wait|-1")
            elif a == 3: ok = op("SolveHandle.get", lambda: check_result(h.get()), NONE)
            elif a == 4: ok = op("SolveHandle.core", lambda: same_result("solve-core", nums(h.core())), NONE)
            elif a == 5:
                def f(): m = h.last(); s = last_result(); same("solve-last", "none" if m is None else orc("model", raw_model(m)), s)
                ok = op("SolveHandle.last", f, NONE)
            elif a == 6:
                def f():
                    m = h.model(); deliver(m)
                    if m is not None: check_model(m, u, False)
                ok = op("SolveHandle.model", f, NONE)
            elif a == 7:
                if not st["current"]: st["stopped"] = True
                def f():
                    h.resume(); m = h.model(); deliver(m)
                    if m is not None: check_model(m, u, False)
                ok = op("SolveHandle.next", f, "resume")
            elif a == 8:
                if Wc(1, 3): ok = op("SolveHandle.cancel", lambda: h.cancel(), "cancel")
                else: ok = op("SolveHandle.resume", lambda: h.resume(), "resume")
                st["stopped"] = True
            if not ok: st["failed"] = True
    if yld and not st["stopped"] and not st["failed"] and not st["ended"] and W(2):
        def f():
            while True:
                m = h.model()
                if m is None: break
                deliver(m); h.resume(); st["current"] = False
            st["ended"] = True
        st["failed"] = not op("drain", f)
def do_solve(u, style=0):
    H = Handler(u); evs = [W(3) != 0 for _ in range(4)] if W(3) else [False] * 4; kw = {}
    for n, e in zip(("on_model", "on_unsat", "on_statistics", "on_finish"), evs):
        if e: kw[n] = getattr(H, n)
    mode = style or W(4); yld = mode in (1, 3); asy = mode in (2, 3)
    ls = [lit(9) if W(2) else (some_atom(u.raw), bool(W(2))) for _ in range(Wn(4))]
    def val(x): return x if isinstance(x, int) else (lookup(u, x[0]) or -1) * (1 if x[1] else -1)
    w = [val(x) for x in ls]; e = "solve|%d|%s" % ((2 if yld else 0) | (1 if asy else 0), nums(w)); expect_events(*[int(x) for x in evs])
    if ls or W(2): kw["assumptions"] = ls
    u.solves += 1
    if mode == 0: # everything within one call
        core = W(2); last = W(2); calls = []; r = []
        def on_core(c): calls.append(("core", c)); same_result("solve-core", nums(c)); user_raise("on_core")
        def on_last(m): calls.append(("last", None)); same("solve-last", orc("model", raw_model(m)), last_result()); check_model(m, None, False); user_raise("on_last")
        def user_raise(k):
            if chance(FAULT, 1, 12): raise_user(k)
        if core: kw["on_core"] = on_core
        if last: kw["on_last"] = on_last
        if core or last: release_faults(0) # they may leave the scope of the handle
        def f(): r.append(u.ctl.solve(**kw))
        try: ok = op("Control.solve", f, [e, "close"])
        finally:
            if core or last: release_faults(1)
            expect_events(1, 1, 1, 1)
        if ok:
            v = bits(r[0])
            if core: same("solve:on_core", [x[0] for x in calls if x[0] == "core"], ["core"] if v & 2 else [])
        return
    hs = []
    def f(): hs.append(u.ctl.solve(yield_=yld, async_=asy, **kw))
    if style == 0 and (cb_depth() > 0 or W(5) == 4): # scope of the handle left in any way
        release_faults(0); op_open("with solve"); err = None
        try:
            with u.ctl.solve(yield_=yld, async_=asy, **kw) as h:
                use_handle(u, h, asy, yld)
                if W(2): leave()
        except BaseException as x: err = x
        done = op_done(err); strip(err); h = None; release_faults(1); expect_events(1, 1, 1, 1)
        try: done or again(err)
        finally: err = None
    elif op("Control.solve", f, e):
        h = hs[0]; op("SolveHandle.__enter__", lambda: same("handle-enter", h.__enter__() is h, True), NONE)
        use_handle(u, h, asy, yld)
        op("SolveHandle.__exit__", lambda: h.__exit__(None, None, None), "close")
    expect_events(1, 1, 1, 1)
def leave(): e = make_exc("scope"); note_raised(register(e), REG[-1][1]); raise e
