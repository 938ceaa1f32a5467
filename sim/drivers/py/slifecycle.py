"""Scopes of several controls left in any order and by exceptions; the ledger of the engine has to balance."""
from sbase import *
import contextlib, clingo, scontrol, ssolve
from clingo import ast as AST
class Part(Exception): pass
class scope:
    """a block of user code that may be left by an exception"""
    def __init__(self, name): self.name = name
    def __enter__(self): release_faults(0); op_open(self.name); return self
    def __exit__(self, t, e, tb):
        op_done(e)
        if e is not None: strip(e)
        release_faults(1); return True
def leave():
    if W(3) == 2: ssolve.leave()
def must(name, f, eff=None):
    """an error leaves the scope"""
    op_open(name, eff); r = err = None
    try: r = f()
    except BaseException as e: err = e
    f = None
    if op_done(err): return r
    note_raised(*classify(err))
    try: raise err
    finally: err = None
def backends(us):
    x, y = pick(us), pick(us)
    with scope("backends"), contextlib.ExitStack() as st:
        p = must("Control.backend", lambda: x.ctl.backend(), NONE); st.enter_context(p); q = None
        if x is not y and W(4): q = y.ctl.backend(); st.enter_context(q)
        for _ in range(W(5)):
            t = p if q is None or W(2) else q; a = must("Backend.add_atom", lambda: t.add_atom(clingo.Function("lc", [clingo.Number(1)]))); must("Backend.add_rule", lambda: t.add_rule([a]), "rule|0|%d|" % a)
        leave()
        if W(2): st.close(); leave()
    p = q = None
def builders(us):
    x, y = pick(us), pick(us)
    if x is y: y = None
    with scope("builders"), contextlib.ExitStack() as st:
        p = AST.ProgramBuilder(x.ctl); st.enter_context(p); q = None
        if y is not None: q = AST.ProgramBuilder(y.ctl); st.enter_context(q)
        leave()
        if q is not None and W(2): st.pop_all().close(); leave()
    p = q = None
def handles(us):
    x, y = pick(us), pick(us); hs = []; ev = W(2); kw = {}
    def on_model(m): cb_receive("event:model|" + orc("model", raw_model(m))); maybe_raise("on_model"); cb_promise("1"); return True
    if ev: kw["on_model"] = on_model
    expect_events(ev, 0, 0, 0)
    with scope("solve handles"), contextlib.ExitStack() as st:
        hs.append(st.enter_context(x.ctl.solve(yield_=True, async_=bool(W(2)), **kw)))
        if x is not y: leave(); hs.append(st.enter_context(y.ctl.solve(yield_=True, async_=bool(W(2)), **kw)))
        its = [iter(h) for h in hs]
        for _ in range(W(6)):
            i = W(len(hs)); h = hs[i]; k = W(5)
            if k == 0: next(its[i], None)
            elif k == 1: must("SolveHandle.get", lambda: same_result("solve-result", ssolve.bits(h.get())))
            elif k == 2: must("SolveHandle.cancel", lambda: h.cancel(), "cancel")
            elif k == 3: must("SolveHandle.wait", lambda: h.wait(0.5))
            else: leave()
        if W(3) == 2: its = None # an abandoned iteration
        if W(3) == 2 and len(hs) == 2: st.pop_all().close()
    its = None; h = None; hs.clear(); expect_events(1, 1, 1, 1)
def controls(us):
    u = pick(us); k = W(5)
    if k == 0:
        def f(): c = clingo.Control(ffi.cast("clingo_control_t*", u.raw)); same("borrowed-control", raw_ctl(c), u.raw); same("query:conflicting", b(c.is_conflicting), orc("flags", u.raw)[0]); c = None; gc.collect()
        op("Control(borrowed)", f, NONE)
    elif k == 1:
        n = User()
        if not scontrol.make_control(n): return
        for _ in range(W(4)): scontrol.do_command(n) if W(2) else ssolve.do_solve(n)
        scontrol.end_control(n)
    elif k == 2: # a control only reachable through a cycle
        n = User()
        if not scontrol.make_control(n): return
        scontrol.add_propagator(n) if W(2) else scontrol.add_observer(n); n.keep.append(n); n.cyc = n.ctl
        def f(): n.ctl = n.cyc = None; n.keep.clear(); gc.collect()
        for r in REG: strip(r[2])
        op("~Control(cycle)", f, "free")
    elif k == 3: # garbage collected at any time
        op("gc", lambda: gc.collect() and None, NONE)
    else: scontrol.do_command(u)
def family(env):
    us = env.users
    for _ in range(1 + W(3)):
        u = User()
        if scontrol.make_control(u): us.append(u)
    if not us: return
    for _ in range(2 + W(8)):
        k = W(8)
        if k <= 1: controls(us)
        elif k == 2: backends(us)
        elif k == 3: builders(us)
        elif k <= 5: handles(us)
        elif k == 6: scontrol.do_backend(pick(us)) if W(2) else scontrol.do_ground(pick(us))
        else: ssolve.do_solve(pick(us))
    for u in us: scontrol.end_control(u)
