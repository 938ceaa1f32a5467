-- User code of the Lua driver: clients of the Lua interface, judged operation by operation.
local S = require "sim"
local c = package.preload.clingo and require "clingo" or clingo
local M = {}
local WORK, SCHED, FAULT, DATA = 0, 1, 2, 3
local fmt, insert, concat = string.format, table.insert, table.concat
local function W(n) return S.choose(WORK, n) end
local function Wn(n) return S.many(WORK, n) end
local function Wc(a, b) return S.chance(WORK, a, b) end
local function pick(t) return t[1 + W(#t)] end
local orc = S.orc
-- {{{ texts
local function esc(s) return (s:gsub("[\\\n|,]", {["\\"] = "\\\\", ["\n"] = "\\n", ["|"] = "\\p", [","] = "\\c"})) end
local function d(x) return fmt("%d", x) end
local function nums(t) local r = {}; for i = 1, #t do r[i] = d(t[i]) end; return concat(r, ",") end
local function wl(t) local r = {}; for i = 1, #t do r[i] = fmt("%d@%d", t[i][1], t[i][2]) end; return concat(r, ",") end
local function rep(s) return S.rep(s) end
local function sym(s) return orc("sym", nil, rep(s)) end
local function syms(t, sep) local r = {}; for i = 1, #t do r[i] = sym(t[i]) end; return concat(r, sep or ";") end
local function b(x) if x ~= true and x ~= false then S.violation("type", "expected a boolean but got " .. type(x)) end; return x and "1" or "0" end
local function i01(x) return x and 1 or 0 end
local function split(s, sep) local r, i = {}, 1; while true do local j = s:find(sep, i, true); if not j then r[#r + 1] = s:sub(i); return r end; r[#r + 1] = s:sub(i, j - 1); i = j + #sep end end
local function ints(s) local r = {}; for x in s:gmatch("[^,]+") do r[#r + 1] = math.tointeger(tonumber(x)) end; return r end
local function map(t, f) local r = {}; for i = 1, #t do r[i] = f(t[i]) end; return r end
local function same(oracle, got, want) if got ~= want then S.violation(oracle, fmt("interface says '%s' but the engine has '%s'", tostring(got):sub(1, 1400), tostring(want):sub(1, 1400))) end end
local function same_result(oracle, got) same(oracle, tostring(got), S.last_result()) end
-- }}}
-- {{{ random values
local WN = {0, 1, -1, 2, 3, 7, -7, 42, 2147483647, -2147483648}
local WS = {"x", "", "two words", "quo\"te", "a|b,c", "nl\nnl", "100%s%n", "\u{e4}"}
local FN = {"a", "p", "q", "f'", "_x"}
local function weird_number() return pick(WN) end
local function weird_string() if Wc(1, 60) then return ("y"):rep(40 + W(260)) end; return pick(WS) end
local function lit(n) return (Wc(1, 60) and pick({127, 128, 255, 256, 32768, 65536, 100000, 1073741824, 2147483647}) or 1 + W(n)) * (W(2) == 1 and -1 or 1) end
local function rand_limit() local v = {20, 0, 1, 2, 3, 20, 21, 50, 1000, 65536, 2147483647, 4294967295}; return v[1 + (W(3) > 0 and W(5) or W(12))] end -- of messages
-- the same list, sometimes kept in the hash part of its table, where next does not visit the elements in order
local function stored(t)
    if #t < 2 or #t > 4 or not Wc(1, 8) then return t end
    local a, b, c, d = t[1], t[2], t[3], t[4]; if W(2) == 1 then return {[4] = d, [3] = c, [2] = b, [1] = a} end; return {[1] = a, [2] = b, [3] = c, [4] = d}
end
local function many(n, f) local r = {}; for i = 1, n do r[i] = f(i) end; return stored(r) end
-- numbers the engine cannot get as they are
local function wide() return pick({1 << 31, -(1 << 31) - 1, (1 << 32) + 1, 1 - (1 << 32), 1.5, 1 << 40, 1e300, (1 << 63) + 1}) end
local function rlits(n) return many(Wn(5), function() return lit(n or 9) end) end
local function rwlits() return many(Wn(4), function() return stored{lit(9), weird_number()} end) end
local function mksym(r) return S.mksym(c.Infimum, r) end
local function raw_sym(depth)
    local k = W(depth > 0 and 7 or 4)
    if k == 0 then return S.u64(orc("mk.number", nil, weird_number())) end
    if k == 1 then return S.u64(orc("mk.string", nil, 0, 0, weird_string())) end
    if k == 2 then local n = pick(FN); return S.mkfun(n, {}, W(3) ~= 0) end
    if k == 3 then return S.u64(orc(W(2) == 1 and "mk.inf" or "mk.sup")) end
    local a = many(Wn(4), function() return raw_sym(depth - 1) end); local tup = W(4) == 3
    return S.mkfun(tup and "" or pick(FN), a, tup or W(3) ~= 0)
end
local function rand_sym(depth) return mksym(raw_sym(depth or 2)) end
local function some_atom(ctl)
    local n = tonumber(orc("satoms.size", ctl))
    if n > 0 and W(4) ~= 0 then return mksym(S.u64(orc("satoms.nth", ctl, W(n)))) end
    return mksym(S.mkfun("unknown_atom", {}, W(2) == 0))
end
-- }}}
-- {{{ errors and operations
local G = {ids = 0, labels = 0, errs = 0, calm = 0, shared = false}
local TEXTS = {"user error", "", "50%s %n done", "two\nlines | here", "\u{e9}t\u{e9}", ("x"):rep(300)}
local function etext(e) if type(e) == "string" then return e end; return "<" .. type(e) .. ">" end
local function raise_user(kind)
    local k = S.choose(FAULT, 8); local t = TEXTS[1 + S.choose(FAULT, #TEXTS)]; G.errs = G.errs + 1
    if t ~= "" then t = fmt("%s #%d in %s", t, G.errs, kind) end
    local function told(t) S.note_raised("user:" .. G.errs, t); S.cb_fails(1, t, 1) end
    if k <= 2 then told(t); error(t, 0)
    elseif k == 3 then told(t); error(t)
    elseif k == 4 then told("attempt to index a nil value"); local x; return x.y
    elseif k == 5 then told(""); error({code = 1})
    elseif k == 6 then told(""); error()
    else told("4711"); error(4711, 0) end
end
local function maybe_raise(kind) if S.cb_wants_raise(kind) then raise_user(kind) end end
local function again(e) -- errors of operations within callbacks may leave the callback, too
    if S.cb_depth() > 0 and G.calm == 0 and S.chance(FAULT, 1, 2) then local t = etext(e); S.note_raised("again", t); if t == "not enough memory" then S.cb_fails(3, "ran out of memory", 1) else S.cb_fails(1, t, 1) end; error(e, 0) end
end
local function op_open(name, eff, must, may)
    S.op_begin(name)
    if eff then S.op_expect_none(); if type(eff) == "string" then S.op_expect(eff) else for i = 1, #eff do S.op_expect(eff[i]) end end end
    if must then S.op_expect_raise("lua") end
    if may then S.op_may_raise("lua") end
end
local NONE = {}
local function closing(ok, e, f) -- closes an object, possibly while its scope is left by an error
    if ok then return f() end
    G.calm = G.calm + 1; S.release_faults(0); f(); S.release_faults(1); G.calm = G.calm - 1; error(e, 0)
end
local function op(name, f, eff, must, may)
    S.api(0); op_open(name, eff, must, may); if name:sub(1, 1) ~= "~" and name:sub(-6) ~= ".close" then S.api(1) end -- errors of finalizers are not reported
    local ok, e = pcall(f); S.api(0)
    if ok then S.op_end(nil); return true end
    S.op_end("lua", etext(e)); f = nil; again(e); return false
end
-- }}}
-- {{{ enumerations
local CODES = {OperationUndefined = 0, RuntimeError = 1, AtomUndefined = 2, FileIncluded = 3, VariableUnbounded = 4, GlobalVariable = 5, Other = 6}
local EXT = {Free = 0, True = 1, False = 2, Release = 3}
local HEU = {Level = 0, Sign = 1, Factor = 2, Init = 3, True = 4, False = 5}
local MOD = {StableModel = 0, BraveConsequences = 1, CautiousConsequences = 2}
local CHK = {Off = 0, Total = 1, Fixpoint = 2, Both = 3}
local TTT = {Tuple = 0, List = 1, Set = 2, Function = 3, Number = 4, Symbol = 5}
local SYT = {Infimum = 0, Number = 1, String = 4, Function = 5, Supremum = 7}
local function enum(e, kind, names) local n = tostring(e); if c[kind][n] ~= e then S.violation("type", fmt("expected a %s but got %s", kind, n)) end; return names[n] or -1 end
-- }}}
-- {{{ observers
local OBS = {"init_program", "begin_step", "end_step", "rule", "weight_rule", "minimize", "project", "output_atom", "output_term", "external", "assume", "heuristic", "acyc_edge", "theory_term_number", "theory_term_string", "theory_term_compound", "theory_element", "theory_atom", "theory_atom_with_guard"}
local OBSF = {
    init_program = function(i) return b(i) end, begin_step = function() return "" end, end_step = function() return "" end,
    rule = function(ch, h, l) return fmt("%s|%s|%s", b(ch), nums(h), nums(l)) end,
    weight_rule = function(ch, h, lb, l) return fmt("%s|%s|%d|%s", b(ch), nums(h), lb, wl(l)) end,
    minimize = function(p, l) return fmt("%d|%s", p, wl(l)) end, project = function(a) return nums(a) end,
    output_atom = function(s, a) return fmt("%s|%d", sym(s), a) end, output_term = function(s, l) return fmt("%s|%s", sym(s), nums(l)) end,
    external = function(a, t) return fmt("%d|%d", a, enum(t, "ExternalType", EXT)) end, assume = function(l) return nums(l) end,
    heuristic = function(a, t, bias, p, l) return fmt("%d|%d|%d|%d|%s", a, enum(t, "HeuristicType", HEU), bias, p, nums(l)) end,
    acyc_edge = function(u, v, l) return fmt("%d|%d|%s", u, v, nums(l)) end,
    theory_term_number = function(t, n) return fmt("%d|%d", t, n) end, theory_term_string = function(t, n) return fmt("%d|%s", t, esc(n)) end,
    theory_term_compound = function(t, n, a) return fmt("%d|%d|%s", t, n, nums(a)) end, theory_element = function(e, t, l) return fmt("%d|%s|%s", e, nums(t), nums(l)) end,
    theory_atom = function(a, t, e) return fmt("%d|%d|%s", a, t, nums(e)) end, theory_atom_with_guard = function(a, t, e, o, r) return fmt("%d|%d|%s|%d|%d", a, t, nums(e), o, r) end,
}
local check_control
local function add_observer(u)
    local some = W(4) == 3; local o = {u = u, idx = u.nobs}
    for _, n in ipairs(OBS) do
        if not some or W(3) ~= 0 then
            o[n] = function(self, ...)
                local t = OBSF[n](...); S.cb_receive(fmt("observer:%s|%d|%s", n, self.idx, t)); same("type", self, o)
                if W(24) == 23 and u.ctl then check_control(u) end
                maybe_raise("observer")
            end
        end
    end
    if some then for _, n in ipairs(OBS) do if not o[n] then u.skip[fmt("observer:%s|%d", n, u.nobs)] = true end end end
    local r = W(2) == 1; insert(u.keep, o)
    if some then -- events without a method are ignored
        for _, n in ipairs(OBS) do if not o[n] then local m = n; o[m] = nil end end
        setmetatable(o, {__index = function(_, n) if OBSF[n] then S.cb_optional() end; return nil end})
    end
    if op("Control.register_observer", function() if r or W(2) == 1 then u.ctl:register_observer(o, r) else u.ctl:register_observer(o) end end, fmt("register_observer|%s|%d", ("1"):rep(19), i01(r))) then u.nobs = u.nobs + 1 end
end
-- }}}
-- {{{ propagators
local function seq_read(s, want, what) -- a sequence of the interface reads like the list of the engine's elements
    local n, k, g = #want, W(5), {}
    if k == 0 then for x in s:iter() do g[#g + 1] = x end; same(what .. ".iterate", nums(g), nums(want))
    elseif k == 1 then same(what .. ".size", #s, n)
    elseif k == 2 then for i = 1, n do g[i] = s[i] end; same(what .. ".index", nums(g), nums(want))
    elseif k == 3 then for i, x in pairs(s) do same(what .. ".pairs-index", math.tointeger(i), #g + 1); g[#g + 1] = x end; same(what .. ".pairs", nums(g), nums(want))
    else same(what .. ".out-of-range", s[(1 << 32) + 1], nil); same(what .. ".out-of-range", s[n + 1], nil); same(what .. ".out-of-range", s[0], nil) end
end
local function trinary(x) if x == nil then return "None" end; return b(x) == "1" and "True" or "False" end
local function check_assignment(a)
    local p = S.ptr("assignment", a); local n = tonumber(orc("ass.size", p))
    for _ = 1, 1 + W(4) do
        local l, k = lit(n > 0 and n or 1), W(12)
        if k == 0 then op("Assignment.value", function() same("query:assignment.value", trinary(a:value(l)), orc("ass.value", p, l)) end, NONE)
        elseif k == 1 then op("Assignment.level", function() same("query:assignment.level", d(a:level(l)), orc("ass.level", p, l)) end, NONE)
        elseif k == 2 then local lv = W(tonumber(orc("ass.dl", p)) + 1); op("Assignment.decision", function() same("query:assignment.decision", d(a:decision(lv)), orc("ass.decision", p, lv)) end, NONE)
        elseif k == 3 then op("Assignment.is_fixed", function() same("query:assignment.is_fixed", b(a:is_fixed(l)), orc("ass.fixed", p, l)) end, NONE)
        elseif k == 4 then op("Assignment.is_true", function() same("query:assignment.is_true", b(a:is_true(l)), orc("ass.true", p, l)) end, NONE)
        elseif k == 5 then op("Assignment.is_false", function() same("query:assignment.is_false", b(a:is_false(l)), orc("ass.false", p, l)) end, NONE)
        elseif k == 6 then op("Assignment.info", function() same("query:assignment.info", fmt("%d,%d,%s,%d,%s,%s,%s", a.decision_level, a.root_level, b(a.has_conflict), #a, b(a.is_total), b(a:has_lit(l)), b(a:has_lit(n + 5))), orc("ass.info", p, l, n + 5)) end, NONE)
        elseif k == 7 then op("Assignment.read", function() seq_read(a, ints(orc("ass.list", p)), "query:assignment") end, NONE)
        elseif k == 8 then op("Trail.read", function() seq_read(a.trail, ints(orc("trail", p)), "query:trail") end, NONE)
        elseif k == 9 then local lv = W(tonumber(orc("ass.dl", p)) + 1); op("Trail.level", function() local t = a.trail; same("query:trail.level", fmt("%d-%d", t:first(lv) - 1, t:last(lv)), orc("trail.level", p, lv)) end, NONE)
        elseif k == 10 then if W(2) == 1 then op("Assignment.bad literal", function() a:is_true(n + 7) end)
            else local x, w = wide(), W(7); op("Assignment.bad number", function() if w == 0 then a:is_true(x) elseif w == 1 then a:is_false(x) elseif w == 2 then a:value(x) elseif w == 3 then a:level(x) elseif w == 4 then a:is_fixed(x) elseif w == 5 then a:has_lit(x) else a:decision(x == 1 << 31 and -1 or x) end end, NONE, true) end
        else op("Trail.levels", function() local t, x = a.trail, {}; for i = 0, a.decision_level do for j = t:first(i), t:last(i) do x[#x + 1] = t[j] end end; same("query:trail.levels", nums(x), nums(ints(orc("trail", p)))) end, NONE) end
    end
end
local api_tatom
local function init_act(u, self, i)
    local p = S.ptr("propagate-init", i); local nt = tonumber(orc("init.threads", p))
    for t = 1, nt do if self.states then self.states[t] = {}; i:set_state(t, self.states[t]) end end
    for _ = 1, 1 + W(9) do
        local k, l = W(16), lit(6)
        if k <= 2 then op("PropagateInit.add_watch", function() i:add_watch(l) end, "add_watch|" .. l)
        elseif k == 3 then local t = 1 + W(nt + i01(W(8) == 7)); op("PropagateInit.add_watch(thread)", function() i:add_watch(l, t) end, fmt("add_watch|%d|%d", l, t - 1))
        elseif k == 4 then
            local m = pick({"Off", "Total", "Fixpoint", "Both"})
            op("PropagateInit.check_mode", function() i.check_mode = c.PropagatorCheckMode[m]; same("query:check_mode", d(CHK[m]), orc("init.check_mode", p)); same("query:check_mode", i.check_mode, c.PropagatorCheckMode[m]) end, "check_mode|" .. CHK[m])
        elseif k == 5 then local fr = W(3); op("PropagateInit.add_literal", function() local r; if fr == 2 then r = i:add_literal() else r = i:add_literal(fr == 1) end; same_result("add_literal-result", d(r)) end, "add_literal|" .. i01(fr ~= 0))
        elseif k == 6 then local x = rlits(); op("PropagateInit.add_clause", function() same_result("add_clause-result", b(i:add_clause(x))) end, "clause|" .. nums(x))
        elseif k == 7 then
            local w, bd, t, eq = rwlits(), weird_number(), W(3) - 1, W(3)
            op("PropagateInit.add_weight_constraint", function() local r; if eq == 2 then r = i:add_weight_constraint(l, w, bd, t) else r = i:add_weight_constraint(l, w, bd, t, eq == 1) end; same_result("add_weight_constraint-result", b(r)) end, fmt("weight_constraint|%d|%s|%d|%d|%d", l, wl(w), bd, t, i01(eq == 1)))
        elseif k == 8 then local w = weird_number(); local pr = W(3) > 0 and weird_number() or 0; local df = pr == 0 and W(2) == 1; op("PropagateInit.add_minimize", function() if df then i:add_minimize(l, w) else i:add_minimize(l, w, pr) end end, fmt("add_minimize|%d|%d|%d", l, w, pr))
        elseif k == 9 then op("PropagateInit.propagate", function() same_result("init-propagate-result", b(i:propagate())) end, "propagate")
        elseif k == 10 then op("PropagateInit.solver_literal", function() same("query:solver_literal", d(i:solver_literal(l)), orc("init.solver_literal", p, l)) end, NONE)
        elseif k == 11 then check_assignment(i.assignment)
        elseif k == 12 then op("PropagateInit.symbolic_atoms", function() local r = ""; for x in i.symbolic_atoms:iter() do r = r .. d(x.literal) .. "," end; same("query:init.symbolic_atoms", r, orc("satoms.lits", u.raw)) end, NONE)
        elseif k == 13 then op("PropagateInit.theory_atoms", function() local r = ""; for x in i.theory_atoms do r = r .. api_tatom(x) .. "\n" end; same("query:init.theory_atoms", r, orc("tatoms", u.raw, 1)) end, NONE)
        elseif k == 14 then
            local w, x = W(16), wide()
            op("PropagateInit.bad use", function()
                if w == 7 then i:add_watch(x) elseif w == 8 then i:add_watch(1, x == 1 << 31 and -1 or x) elseif w == 9 then i:add_clause{1, x} elseif w == 10 then i:add_minimize(x, 1) elseif w == 11 then i:add_minimize(1, x) elseif w == 12 then i:add_minimize(1, 1, x)
                elseif w == 13 then i:solver_literal(x) elseif w == 14 then i:add_weight_constraint(1, {{2, x}}, 3) elseif w == 15 then i:add_weight_constraint(x, {}, 1)
                elseif w == 0 then i:set_state(0, {}) elseif w == 1 then i:set_state(nt + 1, {}) elseif w == 2 then i.nosuch = 1 elseif w == 3 then i.check_mode = 5 elseif w == 4 then i:set_state(1) elseif w == 5 then i:add_clause(7) else i:add_watch("x") end
            end, NONE, true)
        else maybe_raise("init") end
    end
end
local function p_act(self, ctl)
    local p = S.ptr("propagate-control", ctl); local t = tonumber(orc("ctl.thread", p))
    for _ = 1, W(5) do
        local k, l = W(9), lit(6)
        if k == 0 then
            local ls = rlits(6); local tag, lock, ng, df = W(2) == 1, W(2) == 1, W(3) == 2, W(3) == 2; local ty = df and 0 or (tag and 2 or 0) + (lock and 1 or 0); local go
            op("PropagateControl.add_clause", function()
                local a = ng and map(ls, function(x) return -x end) or ls; local arg = {a}
                if not df then arg.tag = tag; arg.lock = lock end
                local r; if ng then r = ctl:add_nogood(arg) else r = ctl:add_clause(arg) end
                same_result("add_clause-result", b(r)); go = r
            end, fmt("T%d|clause|%d|%s", t, ty, nums(ls)))
            if go == false then S.probe("clause-conflict"); return end
        elseif k == 1 then local go; op("PropagateControl.propagate", function() go = ctl:propagate(); same_result("propagate-result", b(go)) end, fmt("T%d|propagate", t)); if go == false then return end
        elseif k == 2 then op("PropagateControl.add_literal", function() same_result("add_literal-result", d(ctl:add_literal())) end, fmt("T%d|add_literal", t))
        elseif k == 3 then op("PropagateControl.add_watch", function() ctl:add_watch(l) end, fmt("T%d|add_watch|%d", t, l)); op("PropagateControl.has_watch", function() same("query:has_watch", b(ctl:has_watch(l)), orc("ctl.has_watch", p, l)) end, NONE)
        elseif k == 4 then op("PropagateControl.remove_watch", function() ctl:remove_watch(l) end, fmt("T%d|remove_watch|%d", t, l))
        elseif k == 5 then check_assignment(ctl.assignment)
        elseif k == 6 then S.yield()
        elseif k == 7 then maybe_raise("propagator")
        elseif W(4) == 3 then local x, w = wide(), W(4); op("PropagateControl.bad number", function() if w == 0 then ctl:add_clause{{1, x}} elseif w == 1 then ctl:add_watch(x) elseif w == 2 then ctl:remove_watch(x) else ctl:has_watch(x) end end, NONE, true)
        else op("PropagateControl.thread_id", function() same("query:thread_id", d(ctl.thread_id), d(t + 1)) end, NONE) end
    end
end
local function check_state(self, t, st) if self.states then same("propagator-state", st, self.states[t]) else same("propagator-state", st, nil) end end
-- sequential propagators and events of a control never overlap
local function enter(u, what) if u.inside then S.violation("sequential-overlap", fmt("%s entered while %s is active", what, u.inside)) end; u.inside = what end
local function guard(u, what, f) return function(...)
    S.api(0); enter(u, what); local r = table.pack(pcall(f, ...)); u.inside = nil
    if not r[1] then error(r[2], 0) end
    return table.unpack(r, 2, r.n)
end end
local PROP = {"init", "propagate", "undo", "check", "decide"}
local function add_propagator(u)
    local o = {idx = u.nprop}; local has = {}; local all = W(4) ~= 3; local st = W(3) ~= 0
    for _, n in ipairs(PROP) do has[n] = (all and n ~= "decide") or W(2) == 1 end
    if st and has.init then o.states = {} end
    if has.init then o.init = guard(u, "init", function(self, i)
        S.cb_receive(fmt("init|%d|%d|%d", self.idx, i.number_of_threads, enum(i.check_mode, "PropagatorCheckMode", CHK))); same("type", self, o)
        for t = 1, i.number_of_threads do if self.states then self.states[t] = {}; i:set_state(t, self.states[t]) end end
        maybe_raise("init"); init_act(u, self, i)
    end) end
    if has.propagate then o.propagate = guard(u, "propagate", function(self, ctl, ch, s)
        local t = ctl.thread_id; S.cb_receive(fmt("propagate|%d|%d|%s|%d", self.idx, t - 1, nums(ch), ctl.assignment.decision_level)); check_state(self, t, s); same("type", self, o); local n = nums(ch)
        maybe_raise("propagate"); p_act(self, ctl); maybe_raise("propagate_end"); same("kept-value-changed", nums(ch), n); check_state(self, t, s)
    end) end
    if has.undo then o.undo = guard(u, "undo", function(self, t, a, ch, s) S.cb_receive(fmt("undo|%d|%d|%s|%d", self.idx, t - 1, nums(ch), a.decision_level)); check_state(self, t, s); S.yield() end) end
    if has.check then o.check = guard(u, "check", function(self, ctl, s) local t = ctl.thread_id; S.cb_receive(fmt("check|%d|%d|%d", self.idx, t - 1, ctl.assignment.decision_level)); check_state(self, t, s); maybe_raise("check"); p_act(self, ctl) end) end
    if has.decide then o.decide = guard(u, "decide", function(self, t, a, f, s)
        S.cb_receive(fmt("decide|%d|%d|%d", self.idx, t - 1, f)); check_state(self, math.tointeger(t), s); maybe_raise("decide")
        if W(3) == 2 then check_assignment(a) end
        local r = W(3) == 0 and f or W(3) == 0 and 0 or lit(5); S.cb_promise(d(r)); return r
    end) end
    insert(u.keep, o)
    if not has.init then setmetatable(o, {__index = function(_, n) if n == "init" and S.cb_depth() > 0 then S.cb_optional() end; return nil end}) end
    if op("Control.register_propagator", function() u.ctl:register_propagator(o) end, "register_propagator|" .. concat(map(PROP, function(n) return (has[n] or n == "init") and "1" or "0" end))) then u.nprop = u.nprop + 1 end
end
-- }}}
-- {{{ queries
local function api_term(t)
    local n = tostring(t.type); local y = enum(t.type, "TheoryTermType", TTT)
    if n == "Number" then return fmt("%d:%d", y, t.number) end
    if n == "Symbol" then return fmt("%d:%s", y, t.name) end
    return fmt("%d:%s(%s)", y, n == "Function" and t.name or "", concat(map(t.arguments, function(x) return api_term(x) .. "," end)))
end
api_tatom = function(a)
    local r = api_term(a.term) .. "~" .. tostring(a.term) .. "{"
    for _, e in ipairs(a.elements) do r = r .. concat(map(e.terms, function(x) return api_term(x) .. "," end)) .. ":" .. concat(map(e.condition, function(l) return d(l) .. "," end)) .. fmt("/%d=%s;", e.condition_id, e) end
    r = r .. "}"; local g = a.guard
    if g ~= nil then r = r .. g[1] .. api_term(g[2]) .. "~" .. tostring(g[2]) end
    return r .. fmt("@%d=%s", a.literal, a)
end
local function api_satom(x) return fmt("%s/%d%s%s,", sym(x.symbol), x.literal, b(x.is_fact), b(x.is_external)) end
local function api_conf(x)
    local r = ""; local n = #x; local k = 0
    if x.keys == nil or n > 0 then r = r .. "["; for e in x:iter() do k = k + 1; r = r .. api_conf(e) .. "," end; r = r .. "]"; same("query:configuration.size", k, n) end
    local ks = x.keys
    if ks ~= nil then
        r = r .. "{"
        for _, k in ipairs(ks) do local v = x[k]; r = r .. fmt("%s(%s)=%s,", k, x:description(k), v == nil and "<None>" or type(v) == "string" and "<" .. v .. ">" or api_conf(v)); same("query:configuration.desc", x["__desc_" .. k], x:description(k)) end
        r = r .. "}"
    end
    return r
end
local function check_config(u, mutate)
    op("Configuration.walk", function() same("query:configuration", api_conf(u.ctl.configuration), (orc("conf", u.raw):gsub("%[%]{", "{"))) end, NONE)
    if not mutate then return end
    for _ = 1, 1 + W(3) do
        local v = pick({"1", "", "3,compete", "invalid value", "-1", "a|b\\c", "100%s", 7}); local w = W(5); local s = tostring(v)
        op("Configuration.set", function()
            local x = u.ctl.configuration
            if w == 0 then x.solve.models = v elseif w == 1 then x.solve.parallel_mode = v elseif w == 2 then x.solver.heuristic = v elseif w == 3 then x.stats = v else x.tester = v end
        end, s == "invalid value" and NONE or fmt("config|%s|%s", ({"solve.models", "solve.parallel_mode", "solver.heuristic", "stats", "tester"})[w + 1], esc(s)))
        if W(3) == 2 then
            local k = W(3)
            op("Configuration.bad", function()
                local x = u.ctl.configuration
                if k == 0 then same("query:configuration.unknown", x.nosuch, nil) elseif k == 1 then x.nosuch = 1 else x:description("nosuch") end
            end, NONE, k == 2)
        end
        if W(4) == 3 then
            local m = tonumber(orc("conf.solvers", u.raw))
            if m > 0 then
                local i = 1 + W(m)
                op("Configuration.set(array)", function() local k = 0; for x in u.ctl.configuration.solver:iter() do k = k + 1; if k == i then x.seed = 5 end end end, fmt("config|solver[%d].seed|5", i - 1))
            end
        end
    end
end
-- compares a table with the engine's statistics "{key:value,...}", "[value,...]", number
local function stat_text(x, t, i)
    local f = t:sub(i, i)
    if f == "{" or f == "[" then
        if type(x) ~= "table" then error("statistics: table expected", 0) end
        local r, n, close = f, 0, f == "{" and "}" or "]"; i = i + 1
        while t:sub(i, i) ~= close do
            n = n + 1; local k = n
            if f == "{" then local j = t:find(":", i, true); k = t:sub(i, j - 1); r = r .. k .. ":"; i = j + 1 end
            local y; if x[k] == nil then error("statistics: no entry " .. k, 0) end
            y, i = stat_text(x[k], t, i); r = r .. y
            if t:sub(i, i) == "," then r = r .. ","; i = i + 1 end
        end
        local m = 0; for _ in next, x do m = m + 1 end
        if m ~= n then error(fmt("statistics: %d entries instead of %d", m, n), 0) end
        return r .. close, i + 1
    end
    local j = i; while j <= #t and not t:sub(j, j):find("[],}]") do j = j + 1 end
    if type(x) ~= "number" then error("statistics: number expected", 0) end
    return fmt("%.17g", x), j
end
local function check_stats(u)
    op("Control.statistics", function()
        local s = u.ctl.statistics; local t = orc("stats", u.raw); local ok, r = pcall(stat_text, s, t, 1); same("query:statistics", r, t)
        if W(3) == 2 then same("query:statistics.again", select(2, pcall(stat_text, u.ctl.statistics, t, 1)), t) end
    end, NONE)
end
check_control = function(u, what)
    local x = u.ctl; local k = what or W(10)
    if k == 0 then
        op("SymbolicAtoms.iterate", function()
            local a, r = x.symbolic_atoms, ""; for y in a:iter() do r = r .. api_satom(y) end
            same("query:symbolic_atoms.iterate", r, orc("satoms", u.raw)); same("query:symbolic_atoms.size", d(#a), orc("satoms.size", u.raw))
        end, NONE)
    elseif k == 1 then
        local s = some_atom(u.raw)
        op("SymbolicAtoms.lookup", function() local y = x.symbolic_atoms:lookup(s); same("query:symbolic_atoms.lookup", y == nil and "" or api_satom(y), orc("satom", u.raw, rep(s))) end, NONE)
    elseif k == 2 then
        op("SymbolicAtoms.signatures", function()
            local a = x.symbolic_atoms; local g = a.signatures
            same("query:symbolic_atoms.signatures", concat(map(g, function(y) return fmt("%s/%d%s,", y[1], y[2], b(y[3])) end)), orc("satoms.sigs", u.raw))
            for i = 1, math.min(#g, 3) do local r, y = "", g[i]; for z in ((W(2) == 1 or not y[3]) and a:by_signature(y[1], y[2], y[3]) or a:by_signature(y[1], y[2])) do r = r .. api_satom(z) end; same("query:symbolic_atoms.by_signature", r, orc("satoms.sig", u.raw, math.tointeger(y[2]), i01(y[3]), y[1])) end
        end, NONE)
    elseif k == 3 and W(3) == 2 then op("TheoryAtoms.compare", function()
        local a, t = {}, {}; for y in x.theory_atoms do a[#a + 1] = y; t[#t + 1] = y.term; if y.guard then t[#t + 1] = y.guard[2] end; for _, e in ipairs(y.elements) do for _, z in ipairs(e.terms) do t[#t + 1] = z end end end
        if #a == 0 then return end
        local i, j = 1 + W(#a), 1 + W(#a); same("query:theory_atoms.order", b(a[i] == a[j]) .. b(a[i] < a[j]) .. b(a[i] <= a[j]), i01(i == j) .. i01(i < j) .. i01(i <= j))
        local p, q = pick(t), pick(t); same("query:theory_terms.order", i01(p < q) + i01(p == q) + i01(q < p), 1); same("query:theory_terms.order", b(p <= q), b(not (q < p))); if p == q then same("query:theory_terms.equal", api_term(p), api_term(q)) end
        local e, f = a[i].elements, a[i].elements; for k = 1, #e do same("query:theory_elements.order", b(e[k] == f[k]) .. b(e[k] < f[k]) .. b(e[k] <= f[k]), "101") end
        for _, z in ipairs({a[i], p, e[1]}) do local ok, m = pcall(function() return z.nosuch end); same("query:unknown-field", ok, false) end
    end, NONE)
    elseif k == 3 then op("Control.theory_atoms", function() local r = ""; for y in x.theory_atoms do r = r .. api_tatom(y) .. "\n" end; same("query:theory_atoms", r, orc("tatoms", u.raw, 1)) end, NONE)
    elseif k == 4 then local n = pick({"n", "c", "nosuch", ""}); op("Control.get_const", function() local y = x:get_const(n); same("query:get_const", y == nil and "" or sym(y), orc("const", u.raw, 0, 0, n)) end, NONE)
    elseif k == 5 then op("Control.flags", function() same("query:flags", b(x.is_conflicting) .. b(x.enable_cleanup) .. b(x.enable_enumeration_assumption), orc("flags", u.raw)) end, NONE)
    elseif k == 6 then check_config(u, false)
    elseif k == 7 then for i = 1, #u.kept do same("kept-value-changed", syms(u.kept[i][1], " "), u.kept[i][2]) end
    elseif k == 8 then op("SymbolicAtoms.kept", function() local a, l, r = x.symbolic_atoms, {}, ""; for y in a:iter() do l[#l + 1] = y end; for i = 1, #l do r = r .. api_satom(l[i]) end; same("query:symbolic_atoms.kept", r, orc("satoms", u.raw)) end, NONE)
    else
        op("TheoryAtoms.order", function()
            local ts = {}; for y in x.theory_atoms do ts[#ts + 1] = y end
            if #ts > 0 then local i, j = 1 + W(#ts), 1 + W(#ts); local y, z = ts[i], ts[j]; same("query:theory_atom.order", b(y == z) .. b(y < z) .. b(y <= z), b(i == j) .. b(i < j) .. b(i <= j)); same("query:theory_term.identity", y.term == y.term, true) end
        end, NONE)
    end
end
-- }}}
-- {{{ models
local SHOW = {{"shown", 2}, {"atoms", 4}, {"terms", 8}, {"theory", 16}, {"complement", 32}}
local function lookup(u, s) local l = orc("satom.lit", u.raw, rep(s)); return l ~= "" and math.tointeger(tonumber(l)) or nil end
local function check_model(m, u, extend)
    local p = S.ptr("model", m)
    for _ = 1, W(5) do
        local k, t = W(13), split(orc("model", p), "|")
        if k == 0 then op("Model.number", function() same("query:model.number", d(m.number), t[1]) end, NONE)
        elseif k == 1 then op("Model.type", function() same("query:model.type", d(enum(m.type, "ModelType", MOD)), t[2]) end, NONE)
        elseif k == 2 then op("Model.thread_id", function() same("query:model.thread_id", d(m.thread_id), d(tonumber(t[3]) + 1)) end, NONE)
        elseif k == 3 then op("Model.optimality_proven", function() same("query:model.optimality_proven", b(m.optimality_proven), t[4]) end, NONE)
        elseif k == 4 then op("Model.cost", function() same("query:model.cost", nums(m.cost), orc("model.cost", p)) end, NONE)
        elseif k <= 7 then
            local kw, mask = {}, 0; for i = 1, #SHOW do if W(2) == 1 then kw[SHOW[i][1]] = true; mask = mask | SHOW[i][2] end end
            op("Model.symbols", function()
                local s = m:symbols(kw); same("query:model.symbols", syms(s), orc("model.symbols", p, mask))
                if u and #s > 0 then insert(u.kept, {s, syms(s, " ")}); if #u.kept > 20 then table.remove(u.kept, 1) end end
            end, NONE)
        elseif k == 8 then op("Model.symbols(nothing)", function() same("query:model.symbols", syms(m:symbols{}), orc("model.symbols", p, 0)) end, NONE)
        elseif k == 9 then
            local n = {}; op("Model.symbols", function() n = m:symbols{atoms = true, complement = W(2) == 1} end, NONE)
            local a = #n > 0 and pick(n) or rand_sym(1); op("Model.contains", function() same("query:model.contains", b(m:contains(a)), orc("model.contains", p, rep(a))) end, NONE)
        elseif k == 10 then local l = lit(30); op("Model.is_true", function() same("query:model.is_true", b(m:is_true(l)), orc("model.is_true", p, l)) end, NONE)
        elseif k == 11 then op("Model.tostring", function() local r = tostring(m); local w = orc("model.symbols", p, 2); if not w:find('["$]') then same("query:model.str", r, (w:gsub(";", " "))) end end, NONE)
        elseif u then
            local ng = W(2) == 1; local ls, w, skip = {}, {}, false
            for i = 1, W(4) do
                if W(2) == 1 then ls[i] = lit(9); w[#w + 1] = ng and -ls[i] or ls[i]
                else
                    local a, pos = some_atom(u.raw), W(2) == 1; ls[i] = stored{a, pos}; local l = lookup(u, a); local eff = pos ~= ng
                    if l then w[#w + 1] = eff and l or -l elseif not eff then skip = true end
                end
            end
            op("SolveControl.add_clause", function() if ng then m.context:add_nogood(ls) else m.context:add_clause(ls) end end, skip and NONE or "model_clause|" .. nums(w))
            if W(3) == 2 then op("SolveControl.symbolic_atoms", function() local r = ""; for x in m.context.symbolic_atoms:iter() do r = r .. d(x.literal) .. "," end; same("query:context.symbolic_atoms", r, orc("satoms.lits", u.raw)) end, NONE) end
        end
    end
    if extend and Wc(1, 5) then
        local s = many(Wn(4), function() return rand_sym(1) end); op("Model.extend", function() m:extend(s) end, "extend|" .. syms(s))
        local kw, mask = {theory = true}, 16; if W(2) == 1 then kw.shown = true; mask = 18 end; op("Model.symbols", function() same("query:model.symbols", syms(m:symbols(kw)), orc("model.symbols", p, mask)) end, NONE)
    end
    if not extend and Wc(1, 12) then op("Model.extend(too late)", function() m:extend({}) end, NONE, true) end
end
-- }}}
-- {{{ creation, commands
local function logger(label) return function(code, msg) S.cb_receive(fmt("message|%d|%d|%s", label, enum(code, "MessageCode", CODES), esc(msg))) end end
local function collect() collectgarbage() end
local function new_user() return {id = 0, label = 0, nobs = 0, nprop = 0, keep = {}, kept = {}, skip = {}} end
local function make_control(u)
    G.ids = G.ids + 1; u.id = G.ids; u.label = 10 + u.id % 900; u.logger = W(4) ~= 0; local args = {}
    for i = 1, Wn(4) do local k = W(8); if k == 2 and W(3) > 0 then k = 0 end; args[i] = ({"-c", "n=3", "--invalid", "0", "a b", "", "100%", "-t2"})[k + 1] end
    local lim = rand_limit(); local df = W(4) == 3; if df then lim = 20 end
    local bad = false; for _, a in ipairs(args) do bad = bad or a == "--invalid" end
    S.logger_label(u.logger and u.label or -7)
    local ok = op("Control", function()
        local lg = u.logger and logger(u.label) or nil
        if df and #args == 0 and not u.logger then u.ctl = c.Control() elseif df then u.ctl = c.Control(args, lg) else u.ctl = c.Control(args, lg, lim) end
    end, bad and NONE or fmt("new|%s|%d", concat(map(args, esc), ","), lim))
    if ok then u.raw = S.ptr("control", u.ctl) else u.ctl = nil; collect() end
    return ok
end
local function end_control(u)
    if not u.ctl then return end
    for i = 1, #u.kept do same("kept-value-changed", syms(u.kept[i][1], " "), u.kept[i][2]) end
    local eff; if u.borrowed then eff = NONE elseif not G.shared then eff = "free" end
    u.keep = {}; u.kept = {}
    op("~Control", function() u.ctl = nil; collect() end, eff); u.raw = nil
end
local PROGRAMS = {"a. b :- a.", "", "{a;b}. #show a/0.", "syntax error", "p(@f(1)).\n#const c=\"x|y\".", "%s%n %* comment *%", "p(\"\u{e4}\")."}
local function api_parse_term(t, label)
    local lg = W(2) == 1; S.logger_label(lg and label or -3); local lim = rand_limit()
    op("parse_term", function()
        local s; if lg then s = c.parse_term(t, logger(label), lim) elseif W(2) == 1 then s = c.parse_term(t, nil, lim) else s = c.parse_term(t); lim = 20 end
        same("parse-limit", S.last_result(), "limit|" .. lim)
        local w = orc("parse_term", nil, 0, 0, t); if w ~= "" then same("query:parse_term", sym(s), w) end
    end, NONE); S.logger_label(-1)
end
local function do_command(u)
    local x, k = u.ctl, W(14)
    if k <= 1 then
        local ps = many(Wn(3), function(i) return W(3) > 0 and "p" .. i or weird_string() end); local p = pick(PROGRAMS); local n = W(2) == 1 and "base" or weird_string()
        op("Control.add", function() x:add(n, ps, p) end, p == "syntax error" and NONE or fmt("add|%s|%s|%s", esc(n), concat(map(ps, esc), ","), esc(p)))
    elseif k == 2 then local f = W(3) > 0 and "file.lp" or W(2) == 1 and "missing.lp" or weird_string(); op("Control.load", function() x:load(f) end, f == "missing.lp" and NONE or "load|" .. esc(f))
    elseif k <= 5 then
        local s, l; if k > 3 then s = some_atom(u.raw); l = lookup(u, s) or 0 else s = lit(9); l = s end
        local v = pick({1, 2, 3}); local truth; if v == 2 then truth = true elseif v == 3 then truth = false end
        if W(3) == 2 then op("Control.release_external", function() x:release_external(s) end, "release_external|" .. l)
        else op("Control.assign_external", function() x:assign_external(s, truth) end, fmt("assign_external|%d|%d", l, truth == nil and 0 or truth and 1 or 2)) end
    elseif k == 6 then op("Control.cleanup", function() x:cleanup() end, "cleanup")
    elseif k == 7 then local v = W(2) == 1; op("Control.enable_cleanup", function() x.enable_cleanup = v end, "enable_cleanup|" .. i01(v))
    elseif k == 8 then local v = W(2) == 1; op("Control.enable_enumeration_assumption", function() x.enable_enumeration_assumption = v end, "enumeration_assumption|" .. i01(v))
    elseif k == 9 then op("Control.interrupt", function() x:interrupt() end, "interrupt")
    elseif k == 10 then check_config(u, true)
    elseif k == 11 then api_parse_term(pick({"f(1,\"x\")", "a", "((1,2),x)", "f(", "-p(3)", "", "#inf"}), 950)
    elseif k == 12 then
        local w, n = W(24), wide() -- wrong uses change nothing
        op("Control.bad use " .. w, function()
            if w == 16 then c.Number(n) elseif w == 17 then c.Function("f", {c.Number(1), n}) elseif w == 18 then x:solve{assumptions = {1, n}} elseif w == 19 then x:assign_external(n, true) elseif w == 20 then x:release_external(n) elseif w == 21 then x.symbolic_atoms:by_signature("a", n)
            elseif w == 22 then x:ground{{"base", {n}}} elseif w == 23 then c.parse_term("a", nil, n == 1 << 31 and -1 or n)
            elseif w == 8 then x:solve{assumptions = {{c.Function("a", {}), true, 3}}} elseif w == 9 then x:ground({{"base", {}, 3}}) elseif w == 10 then x.solve({}) elseif w == 11 then x:ground({5}) elseif w == 12 then x.backend(c.Infimum) elseif w == 13 then x:add({}, {}, "a.")
            elseif w == 14 then x:solve{assumptions = {c.Function("a", {})}} elseif w == 15 then local y = x.symbolic_atoms:by_signature({}, 1)
            elseif w == 6 then x:assign_external(x.symbolic_atoms, true) elseif w == 7 then x:release_external(x.configuration)
            elseif w == 0 then x.nosuch = 1 elseif w == 1 then x:add("base", nil, "a.") elseif w == 2 then x:ground("base") elseif w == 3 then x:assign_external({}, true) elseif w == 4 then x:solve(7) else x:ground({{"base"}}) end
        end, NONE, true)
    else check_control(u) end
end
local function make_context(u)
    return setmetatable({}, {__index = function(self, name)
        if name == "nosuch" and W(4) == 0 then S.cb_receive(S.cb_truth()); S.note_raised("user:nosuch", ""); S.cb_fails(1, "attempt to call a nil value", 1); return nil end
        return function(this, ...)
            local args = {...}; local t = split(S.cb_truth(), "|"); same("type", this, self)
            S.cb_receive(fmt("ground|%s|%s|%s", concat(t, "|", 2, 7), name, syms(args)))
            if #args > 0 then insert(u.kept, {args, syms(args, " ")}) end
            maybe_raise("ground")
            if W(8) == 7 then check_control(u) end
            local r = many(Wn(4), function() return W(3) == 2 and #args > 0 and pick(args) or rand_sym() end); local how = W(4)
            maybe_raise("ground_end")
            if how == 0 then r = {rand_sym()}; S.cb_promise(syms(r)); return r[1] end
            if how == 1 then local n = weird_number(); r = {mksym(S.u64(orc("mk.number", nil, n)))}; S.cb_promise(syms(r)); return n end
            if how == 2 then local s = weird_string(); r = {mksym(S.u64(orc("mk.string", nil, 0, 0, s)))}; S.cb_promise(syms(r)); return {s} end
            S.cb_promise(syms(r)); return r
        end
    end})
end
local function do_ground(u)
    local parts = many(Wn(4), function() return stored{W(2) == 1 and "base" or weird_string(), many(Wn(3), function() return rand_sym() end)} end); local ctx = W(4) > 0 and make_context(u) or nil
    local e = concat(map(parts, function(p) return esc(p[1]) .. ":" .. syms(p[2]) end), ",")
    S.cb_expect("with ground", i01(ctx))
    local ok, err = pcall(op, "Control.ground", function() if ctx or W(2) == 1 then u.ctl:ground(parts, ctx) else u.ctl:ground(parts) end end, "ground|" .. e)
    S.cb_expect("with ground", 0); if not ok then error(err, 0) end
end
-- }}}
-- {{{ backend
local function backend_op(u, bk)
    local function atoms() return many(Wn(4), function() return W(6) == 5 and 2147483647 or 1 + W(9) end) end
    local k = W(9); local kw = W(2) == 1
    if k <= 1 then
        local ch, h, l, how = W(2) == 1, atoms(), rlits(), W(3); if how == 2 then ch = false end
        op("Backend.add_rule", function()
            if how == 0 then if kw then bk:add_rule{head = h, body = l, choice = ch} else bk:add_rule{h, l, ch} end
            elseif how == 1 then bk:add_rule{h, body = l, choice = ch}
            elseif #l == 0 then bk:add_rule{h} else bk:add_rule{head = h, body = l} end
        end, fmt("rule|%d|%s|%s", i01(ch), nums(h), nums(l)))
    elseif k == 2 then
        local ch, h, l, lb = W(2) == 1, atoms(), rwlits(), weird_number()
        op("Backend.add_weight_rule", function()
            if kw then bk:add_weight_rule{head = h, lower = lb, body = l, choice = ch} elseif ch or W(2) == 1 then bk:add_weight_rule{h, lb, l, ch} else bk:add_weight_rule{h, lb, l} end
        end, fmt("weight_rule|%d|%s|%d|%s", i01(ch), nums(h), lb, wl(l)))
    elseif k == 3 then local l, p = rwlits(), weird_number(); op("Backend.add_minimize", function() if kw then bk:add_minimize{priority = p, body = l} else bk:add_minimize{p, l} end end, fmt("minimize|%d|%s", p, wl(l)))
    elseif k == 4 then local a, t = 1 + W(9), pick({"Free", "True", "False", "Release"}); local df = t == "False" and W(2) == 1; op("Backend.add_external", function() if df then bk:add_external(a) else bk:add_external(a, c.ExternalType[t]) end end, fmt("external|%d|%d", a, EXT[t]))
    elseif k == 5 then op("Backend.add_atom", function() same_result("add_atom-result", d(bk:add_atom())) end, "add_atom|")
    elseif k == 6 then local s = W(4) > 0 and some_atom(u.raw) or rand_sym(1); local fun = orc("sym.type", nil, rep(s)) == "5"; op("Backend.add_atom(symbol)", function() same_result("add_atom-result", d(bk:add_atom(s))) end, fun and "add_atom|" .. sym(s) or NONE)
    elseif k == 7 then
        local w, n = W(12), wide()
        op("Backend.bad use", function()
            if w == 5 then bk:add_rule{{1, W(2) == 1 and n ~= 1 << 31 and n or -1}} elseif w == 6 then bk:add_rule{{1}, {n}} elseif w == 7 then bk:add_weight_rule{{1}, n, {}} elseif w == 8 then bk:add_weight_rule{{1}, 1, {{2, n}}} elseif w == 9 then bk:add_minimize{n, {}} elseif w == 10 then bk:add_minimize{1, {{n, 2}}} elseif w == 11 then bk:add_external(n == 1 << 31 and -1 or n)
            elseif w == 0 then bk:add_rule{} elseif w == 1 then bk:add_rule{{1}, head = {1}} elseif w == 2 then bk:add_weight_rule{{1}, 1} elseif w == 3 then bk:add_external("a") else bk:add_minimize{1, {{1}}} end
        end, NONE, true)
    elseif W(3) == 2 then check_control(u, W(6)) end
end
local function do_backend(u)
    local bk
    if not op("Control.backend", function() bk = u.ctl:backend() end, "backend_begin") then return end
    local ok, e = pcall(function() for _ = 1, 1 + W(8) do backend_op(u, bk) end end)
    closing(ok, e, function() op("Backend.close", function() bk:close() end, "backend_end") end)
end
-- }}}
-- {{{ solving
local function bits(r) return i01(r.satisfiable) + (r.unsatisfiable and 2 or 0) + (r.exhausted and 4 or 0) + (r.interrupted and 8 or 0) end
local function check_result(r)
    local v = math.tointeger(tonumber(S.last_result())); if W(8) == 7 then if pcall(function() return r.nosuch end) then S.violation("unknown-field", "a result has a field nosuch") end end
    same("solve-result", bits(r), v & 15); local w = v & 1 > 0 and "SAT" or v & 2 > 0 and "UNSAT" or "UNKNOWN"
    local sat; if v & 1 > 0 then sat = true elseif v & 2 > 0 then sat = false end; local uns; if sat ~= nil then uns = not sat end
    same("solve-result-flags", fmt("%s%s%s%s", r.satisfiable, r.unsatisfiable, r.unknown, r), fmt("%s%s%s%s", sat, uns, sat == nil, w))
end
local function use_handle(u, h)
    local hraw = S.ptr("solve-handle", h); local got, ended, stopped, failed, current = {}, false, false, false, false; local t
    if Wc(1, 3) then
        local kind, n = W(2), W(30); S.probe("second-client"); stopped = true
        t = S.spawn(function() for _ = 1, n do S.yield() end; if kind == 0 then op("Control.interrupt", function() u.ctl:interrupt() end, "interrupt") end end, "client2")
    end
    local function step(it)
        local m = it(); local s = S.last_result(); same("model-identity", m == nil and "none" or orc("model", S.ptr("model", m)), s)
        if m == nil then ended = true else if got[#got] ~= s then got[#got + 1] = s end; check_model(m, u, false) end
        current = true
    end
    local ok, err = pcall(function()
        if W(3) == 0 then
            local lim = W(3) > 0 and 1000 or W(4)
            failed = not op("iterate", function()
                for m in h:iter() do
                    local s = S.last_result(); same("model-identity", orc("model", S.ptr("model", m)), s); got[#got + 1] = s; check_model(m, u, false)
                    if #got >= lim then stopped = true; break end
                end
                if not stopped then ended = true end
            end)
        else
            local it
            for _ = 1, 1 + W(14) do
                if failed or ended then break end
                local a, good = W(6), true
                if a == 0 then stopped = true; good = op("SolveHandle.get", function() check_result(h:get()) end, NONE)
                elseif a == 1 then stopped = true; good = op("SolveHandle.core", function() local x = h:core(); same_result("solve-core", x == nil and "" or nums(x)) end, NONE)
                elseif a <= 3 then
                    if not it then op("SolveHandle.iter", function() it = h:iter() end, NONE) end
                    if it then if #got > 0 and not current then stopped = true end; good = op("SolveHandle.next", function() step(it) end, "resume") end
                elseif Wc(1, 3) then good = op("SolveHandle.cancel", function() h:cancel() end, "cancel"); stopped = true
                else good = op("SolveHandle.resume", function() h:resume() end, "resume"); stopped = true end
                if not good then failed = true end
            end
        end
        if not stopped and not failed and not ended and W(2) == 1 then failed = not op("drain", function() for m in h:iter() do got[#got + 1] = S.last_result() end; ended = true end) end
    end)
    if t then S.join(t) end
    if not ok then error(err, 0) end
    local k = 1; for i = 0, S.search_models(hraw) - 1 do if got[k] == S.search_model(hraw, i) then k = k + 1 end end -- models come in the order they were found, each once
    if k <= #got then S.violation("models-order-to-client", fmt("model %d handed to the client (%s) is not a model that follows the one before", k, got[k])) end
    if ended and not stopped and not failed and S.search_complete(hraw) then local r = {}; for i = 0, S.search_models(hraw) - 1 do r[#r + 1] = S.search_model(hraw, i) end; same("models-delivered-to-client", concat(got, "\n"), concat(r, "\n")) end
end
local function do_solve(u, style)
    local kw = {}; local mode = style or W(3); local yld = mode == 1; local mh, fh = W(3) > 0, W(3) > 0; if yld then mh = false; fh = false end
    if mh then kw.on_model = guard(u, "on_model", function(m)
        S.cb_receive("event:model|" .. orc("model", S.ptr("model", m))); maybe_raise("on_model"); check_model(m, u, true); local go = not Wc(1, 8); maybe_raise("on_model_end"); S.cb_promise(go and "1" or "0")
        if go then return pick({true, 1, "x"}) end
        return false
    end) end
    if mh and W(3) == 2 then local f = kw.on_model; kw.on_model = function(m) if f(m) == false then return false end end end -- nothing returned: go on
    if fh then kw.on_finish = guard(u, "on_finish", function(r) S.cb_receive("event:finish|" .. bits(r)); maybe_raise("on_finish"); S.cb_promise("1") end) end
    local ls, w = {}, {}
    for i = 1, W(4) do
        if W(2) == 1 then ls[i] = lit(9); w[#w + 1] = ls[i]
        else local a, pos = some_atom(u.raw), W(2) == 1; ls[i] = stored{a, pos}; local l = lookup(u, a); if l then w[#w + 1] = pos and l or -l elseif pos then w.never = true end end
    end
    if #ls > 0 or W(2) == 1 then kw.assumptions = ls end
    if yld then kw.yield = true elseif W(3) == 2 then kw.yield = false end
    local e = M.solve_effect(yld and 2 or 0, ls, w)
    S.expect_events(i01(mh), 0, 0, i01(fh)); u.solves = (u.solves or 0) + 1
    local ok, err = pcall(function()
        if W(12) == 11 then -- not supported
            if not op("Control.solve(unsupported)", function() if W(2) == 1 then u.ctl:solve{async = true} else u.ctl:solve{yield = true, on_model = function() end} end end, NONE, true) then return end
        end
        if not yld then
            op("Control.solve", function() local r; if next(kw) == nil and W(2) == 1 then r = u.ctl:solve() else r = u.ctl:solve(kw) end; M.last = r end, {e, "close"}); if M.last then bits(M.last); M.last = nil end
        else
            local h
            if op("Control.solve(yield)", function() h = u.ctl:solve(kw) end, e) then
                local how = W(3); local ok, err = pcall(use_handle, u, h)
                if how == 2 and not G.shared and ok then S.release_faults(0); op("~SolveHandle", function() h = nil; kw = nil; collect() end, "close"); S.release_faults(1)
                else closing(ok, err, function() op("SolveHandle.close", function() h:close() end, "close") end) end
            end
        end
    end)
    S.expect_events(1, 1, 1, 1); if not ok then error(err, 0) end
end
-- the literals the engine gets for the assumptions
function M.solve_effect(mode, ls, w)
    if w.never then return fmt("solve|%d|1,-1", mode) end
    return fmt("solve|%d|%s", mode, nums(w))
end
-- }}}
-- {{{ families
local BP = {{4,4,4,4,1,1,4,2}, {1,4,6,0,2,3,1,1}, {1,2,9,0,0,1,1,1}, {3,3,5,4,1,1,1,1}, {1,6,4,4,4,4,1,0}, {6,3,2,6,1,1,1,1}, {0,2,8,0,0,6,1,0}, {2,4,4,2,0,1,9,3}, {3,4,4,2,1,1,3,1}, {3,4,4,2,1,1,3,1}, {0,2,7,0,0,0,1,7}, {3,4,4,2,1,1,3,1}, {8,5,4,2,1,1,2,0}, {4,4,5,5,2,2,4,3}}
local function choice(w) local n = 0; for i = 1, #w do n = n + w[i] end; local k, f = W(n), 1; while k >= w[f] do k = k - w[f]; f = f + 1 end; return f end
local function act(u, p)
    local f = choice(BP[p])
    if f == 1 then do_command(u) elseif f == 2 then do_ground(u) elseif f == 3 then do_solve(u) elseif f == 4 then do_backend(u)
    elseif f == 5 then if u.nobs < 3 then add_observer(u) end elseif f == 6 then if u.nprop < 3 then add_propagator(u) end
    elseif f == 7 then for _ = 1, 1 + W(3) do check_control(u) end else check_stats(u) end
    if W(8) == 7 then collect() end
end
local function session(p)
    local us = {}
    for _ = 1, p == 13 and 1 + W(3) or 1 + i01(W(5) == 4) do local u = new_user(); if make_control(u) then insert(us, u) end end
    if #us == 0 then return end
    if p == 5 or p == 7 then for i = 1, #us do for _ = 1, 1 + W(3) do if p == 7 or W(2) == 1 then add_propagator(us[i]) else add_observer(us[i]) end end end end
    for _ = 1, 2 + W(10) do act(pick(us), p) end
    for i = 1, #us do end_control(us[i]) end
end
function M.client(p) -- a client with an interpreter of its own, on its own thread
    S.client()
    for _ = 1, 1 + i01(W(4) == 3) do
        local u = new_user()
        if make_control(u) then
            if (p == 5 or p == 7) and W(2) == 1 then if W(2) == 1 then add_propagator(u) else add_observer(u) end end
            for _ = 1, 1 + W(6) do act(u, p) end
            end_control(u)
        end
    end
end
local function clients(p)
    local ts = {}
    for i = 1, 2 + W(2) do local t, st = S.spawn_state("client", "client", p); ts[i] = {t, st} end
    for i = 1, #ts do S.join(ts[i][1]) end
    for i = 1, #ts do S.close_state(ts[i][2]) end
end
local ENUMS = {ExternalType = EXT, HeuristicType = HEU, ModelType = MOD, PropagatorCheckMode = CHK, TheoryTermType = TTT, SymbolType = SYT, MessageCode = CODES}
local function enums() -- enumeration values compare like the engine's
    local kn = pick({"ExternalType", "HeuristicType", "ModelType", "PropagatorCheckMode", "TheoryTermType", "SymbolType", "MessageCode"})
    local ns = {}; for n in pairs(ENUMS[kn]) do ns[#ns + 1] = n end; table.sort(ns)
    local x, y = pick(ns), pick(ns); local i, j = ENUMS[kn][x], ENUMS[kn][y]
    op("enumeration", function()
        local p, q = c[kn][x], c[kn][y]; same("enum:" .. kn, b(p == q) .. b(p < q) .. b(p <= q) .. b(p ~= q) .. tostring(p), i01(i == j) .. i01(i < j) .. i01(i <= j) .. i01(i ~= j) .. x)
    end, NONE)
end
local function symbols()
    local function step(name, f) op(name, f, NONE) end
    for _ = 1, 3 + W(12) do
        local k = W(10)
        if k == 0 then local n = weird_number(); step("Number", function() same("symbol:number", rep(c.Number(n)), S.u64(orc("mk.number", nil, n))) end)
        elseif k == 1 then local s = weird_string(); step("String", function() same("symbol:string", rep(c.String(s)), S.u64(orc("mk.string", nil, 0, 0, s))) end)
        elseif k == 2 then
            local n, a, pos = pick(FN), many(Wn(4), function() return rand_sym(1) end), W(3) > 0
            step("Function", function() local x; if not pos then x = c.Function(n, a, false) elseif #a == 0 and W(2) == 1 then x = c.Function(n) elseif W(2) == 1 then x = c.Function(n, a, true) else x = c.Function(n, a) end; same("symbol:function", rep(x), S.mkfun(n, map(a, rep), pos)) end)
        elseif k == 3 then local a = many(Wn(4), function() return rand_sym(1) end); step("Tuple", function() same("symbol:tuple", rep(c.Tuple(a)), S.mkfun("", map(a, rep), true)) end)
        elseif k == 4 then local n, s = weird_number(), weird_string(); step("Tuple(mixed)", function() same("symbol:tuple", rep(c.Tuple{n, s, c.Tuple{n, c.Tuple{s}}}), S.mkfun("", {S.u64(orc("mk.number", nil, n)), S.u64(orc("mk.string", nil, 0, 0, s)), S.mkfun("", {S.u64(orc("mk.number", nil, n)), S.mkfun("", {S.u64(orc("mk.string", nil, 0, 0, s))}, true)}, true)}, true)) end)
        elseif k <= 6 then
            local s = rand_sym()
            step("Symbol.parts", function()
                local p = split(orc("sym.parts", nil, rep(s)), "\x1f"); local ty = tonumber(orc("sym.type", nil, rep(s))); local fun = ty == 5
                same("symbol:type", enum(s.type, "SymbolType", SYT), ty); same("symbol:text", tostring(s), sym(s))
                same("symbol:number", s.number, ty == 1 and math.tointeger(tonumber(p[1])) or nil); same("symbol:string", s.string, ty == 4 and p[2]:sub(2) or nil)
                if fun then
                    same("symbol:name", s.name, p[3]:sub(2)); same("symbol:arguments", syms(s.arguments), p[5]); same("symbol:sign", b(s.positive) .. b(s.negative), p[4] == "1" and "10" or "01")
                    same("symbol:rebuilt", rep(s.name == "" and c.Tuple(s.arguments) or c.Function(s.name, s.arguments, s.positive)), rep(s))
                else same("symbol:none", fmt("%s%s%s%s", s.name, s.arguments, s.positive, s.negative), "nilnilnilnil") end
            end)
        elseif k == 7 then
            local s, t = rand_sym(), rand_sym(); if W(3) == 2 then t = mksym(rep(s)) end
            step("Symbol.compare", function() local o = orc("sym.cmp", nil, rep(s), rep(t)); local eq, lt = o:sub(1, 1) == "1", o:sub(2, 2) == "1"; same("symbol:order", b(s == t) .. b(s < t) .. b(s <= t) .. b(s > t), b(eq) .. b(lt) .. b(eq or lt) .. b(not eq and not lt)) end)
        elseif k == 8 then api_parse_term(pick({"f(1,\"x\")", "a", "((1,2),x)", "f(", "-p(3)", "", "#inf", "\"a\\nb\""}), 950)
        elseif W(2) == 1 then enums()
        else
            local w = W(7); local bad = pick({c.SymbolType.Number, c.TruthValue and c.TruthValue.True or c.ExternalType.Free, c.HeuristicType.Level}); op("symbols.bad use", function() if w == 4 then c.Function("f", {bad}) elseif w == 5 then c.Tuple{1, {bad}} elseif w == 6 then local m = getmetatable(c.Infimum).__lt; if m then m(c.Infimum, bad) else error("no order") end elseif w == 0 then c.Number("x") elseif w == 1 then c.Function("f", {function() end}) elseif w == 2 then c.Function("", {}, false) else c.String(nil) end end, NONE, true)
        end
    end
end
local function lifecycle(p)
    local us, n = {}, 0
    for _ = 1, 3 + W(8) do
        local k = W(7)
        if k <= 1 or #us == 0 then local u = new_user(); if make_control(u) then insert(us, u) end
        elseif k == 2 then local i = 1 + W(#us); end_control(us[i]); table.remove(us, i)
        elseif k == 3 then local u = pick(us); if u.nprop < 3 then add_propagator(u) end
        elseif k == 4 then local u = pick(us); if u.nobs < 3 then add_observer(u) end
        elseif k == 5 then do_solve(pick(us))
        else collect() end
    end
    while #us > 0 do local i = 1 + W(#us); end_control(us[i]); table.remove(us, i) end
end
-- }}}
-- {{{ scripts
local NAMES = {"sf", "sg", "multi", "nosuch", "serr", "sbad", "main"}
local function called(s) S.store("calls", "\n" .. s, true) end
local function told(e) local t = etext(e); S.note_raised("script", t); if t == "not enough memory" then S.cb_fails(3, "ran out of memory", 1) else S.cb_fails(1, t, 1) end end
local function answer(name, args)
    S.cb_receive(fmt("script:call|lua|%s|%s", esc(name), syms(args)))
    maybe_raise("script:call")
    if name == "serr" and W(4) > 0 and S.config("raises", 0) > 0 then raise_user("script:call") end
    local r = many(Wn(4), function() return W(3) == 2 and #args > 0 and pick(args) or rand_sym() end); local how = W(6)
    if how == 0 then r = {rand_sym()}; S.cb_promise(syms(r)); called(fmt("script_call|lua|%s|%s|%s", esc(name), syms(args), syms(r))); return r[1] end
    if how == 1 then local n = weird_number(); r = {mksym(S.u64(orc("mk.number", nil, n)))}; S.cb_promise(syms(r)); called(fmt("script_call|lua|%s|%s|%s", esc(name), syms(args), syms(r))); return n end
    if how == 2 and S.config("raises", 0) > 0 and W(4) == 3 then S.note_raised("user:wrong", ""); S.cb_fails(1, "cannot convert to value", 1); if W(2) == 1 then return nil end; return function() end end
    S.cb_promise(syms(r)); called(fmt("script_call|lua|%s|%s|%s", esc(name), syms(args), syms(r))); return r
end
local function main_(ctl)
    S.cb_receive("script:main|lua"); local u = new_user(); G.ids = G.ids + 1; u.id = G.ids; u.label = M.label or -7; u.logger = M.logger; u.borrowed = true; u.ctl = ctl; u.raw = S.ptr("control", ctl)
    for _ = 1, W(5) do
        local k = W(6)
        if k == 0 then do_command(u) elseif k == 1 then M.ground(u) elseif k <= 3 then do_solve(u) elseif k == 4 then check_control(u) else do_backend(u) end
    end
    maybe_raise("script:main"); end_control(u)
end
-- what the code of scripts uses
function M.define(name, what)
    if what == 0 then _G[name] = nil elseif what == 1 then _G[name] = 5
    elseif name == "main" then _G[name] = main_ else _G[name] = function(...) return answer(name, {...}) end end
    S.script_define("lua", name, i01(what == 2))
end
function M.start() S.cb_receive("script:execute|lua|" .. esc(S.fetch("code"))); maybe_raise("script:execute") end
function M.bad() if S.config("raises", 0) > 0 then raise_user("script:execute") end end
local SYNTAX = {"local = 1\n", "x = = 2\n", "f(\n", "y = 'abc\n"}
local function execute(u)
    if W(8) == 7 then -- no such language
        op("Control.add(script)", function() u.ctl:add("base", {}, "#script (none)" .. pick({" code ", "", " a | b, c "}) .. "#end.") end, NONE); return
    end
    G.codes = (G.codes or 0) + 1; local code = "\nlocal d = require('simdriver')\nd.start()\n"; local bad = S.config("raises", 0) > 0 and W(10) == 9 and pick(SYNTAX)
    for _ = 1, W(4) do code = code .. fmt("d.define('%s', %d)\n", pick(NAMES), W(2) == 1 and W(5) % 3 or 2) end
    if W(8) == 7 then code = code .. "d.bad()\n" end
    code = code .. fmt("KEPT = '%d \u{e4} |'\n", G.codes); if bad then code = code .. bad end
    S.store("code", code); S.store("syntax", bad and "1" or ""); S.cb_expect("script:execute", bad and 2 or 1)
    local ok, e = pcall(op, "Control.add(script)", function() u.ctl:add("base", {}, "#script (lua)" .. code .. "#end.") end, "script|lua|" .. esc(code), bad)
    S.cb_expect("script:execute", 1); if not ok then error(e, 0) end
    if e and M.own == false then same("script:namespace", KEPT, fmt("%d \u{e4} |", G.codes)) end
end
function M.ground(u)
    local parts = {{"base", {}}}; for i = 1, W(2) do parts[i + 1] = {weird_string(), {rand_sym()}} end; S.store("calls", "")
    if op("Control.ground(script)", function() u.ctl:ground(parts) end) then
        local r = {}; for _, x in ipairs(split(S.op_effects(), "\n")) do if x ~= "" then r[#r + 1] = x end end
        same("script:calls", concat(r, "\n"), "ground|" .. concat(map(parts, function(p) return esc(p[1]) .. ":" .. syms(p[2]) end), ",") .. S.fetch("calls"))
    end
end
function M.script(p)
    local us = {}; for _, n in ipairs(NAMES) do S.script_define("lua", n, 0); _G[n] = nil end
    S.cb_expect("script:callable", 0); M.own = W(2) == 0; S.probe(M.own and "script-state:own" or "script-state:host")
    local mod = not M.own and W(2) == 1 -- what require "clingo" does
    if not op(mod and "require clingo" or "register_script", function()
        if mod then
            local c = S.open_module(); for k, v in pairs(clingo) do if type(v) ~= type(c[k]) then S.violation("module", "clingo." .. k .. " is missing") end end
        else S.register_script(not M.own) end
    end, "register_script|lua|" .. S.release()) then return end
    for _ = 1, 1 + i01(W(4) == 3) do local u = new_user(); if make_control(u) then insert(us, u) end end
    for _ = 1, 2 + W(10) do
        if #us == 0 then break end
        local u, k = pick(us), W(12)
        if k <= 3 then execute(u) elseif k <= 7 then M.ground(u) elseif k == 8 then
            op("script main", function() if S.script_main("lua", u.raw) == 0 then error(S.last_error(), 0) end end)
        elseif k == 9 then do_solve(u) elseif k == 10 then do_command(u) else collect() end
    end
    for i = 1, #us do end_control(us[i]) end
    S.script_free()
end
-- }}}
local FW = {{8,2,1,1,2}, {8,2,0,3,1}, {9,0,0,1,0}, {8,2,0,4,1}, {9,1,0,0,0}, {9,1,0,1,0}, {5,1,0,0,0}, {9,1,3,1,0}, {1,0,0,0,0}, {0,0,0,0,1}, {6,1,0,0,0}, {1,0,0,0,0}, {8,2,2,2,1}, {9,1,1,2,2}}
local FNAMES = {"session", "clients", "symbols", "lifecycle", "script"}
function M.scenario(p)
    local w, o = FW[p], S.config("family", 0); local f
    if o > 0 then f = o else f = choice(w) end
    S.probe("family:" .. FNAMES[f]); S.phase(FNAMES[f])
    if f == 1 then session(p) elseif f == 2 then clients(p) elseif f == 3 then symbols() elseif f == 4 then lifecycle(p) else M.script(p) end
end
return M
