// Symbols, signatures, strings, atoms, theory, configuration, statistics, control basics, backend
#include "engine.hh"
#include <algorithm>
#include <cmath>
#include <limits>
#include <unordered_map>
namespace sim {
std::vector<Keeper> g_keep;
vector<Control*> g_controls;
static std::unordered_map<void const*, Rec> g_ledger; static int g_nextid = 0;
char const *intern(string const &s) { static std::set<string> tab; return tab.insert(s).first->c_str(); }
// {{{ symbols
struct Sym { int type; int num; string str; vector<clingo_symbol_t> args; bool pos; };
static std::deque<Sym> g_syms; static std::unordered_map<string, clingo_symbol_t> g_symix;
static clingo_symbol_t const SBASE = 0x51000000ull;
static Sym &sym(clingo_symbol_t s) {
    uint64_t i = (s - SBASE) / 8; if (s < SBASE || (s - SBASE) % 8 || i >= g_syms.size()) { violation("garbage-symbol", fmt("the engine was given the value %llx which is no symbol", (unsigned long long)s)); static Sym bad{clingo_symbol_type_number, 0, "", {}, true}; return bad; }
    return g_syms[i];
}
string symstr(clingo_symbol_t s) {
    Sym &x = sym(s);
    switch (x.type) {
        case clingo_symbol_type_infimum: return "#inf"; case clingo_symbol_type_supremum: return "#sup"; case clingo_symbol_type_number: return std::to_string(x.num);
        case clingo_symbol_type_string: { string r = "\""; for (char c : x.str) { if (c == '\n') r += "\\n"; else if (c == '\\' || c == '"') { r += '\\'; r += c; } else r += c; } return r + "\""; }
        default: { string r = x.pos ? "" : "-"; r += x.str; if (!x.args.empty() || x.str.empty()) { r += '('; for (size_t i = 0; i < x.args.size(); ++i) { if (i) r += ','; r += symstr(x.args[i]); } if (x.args.size() == 1 && x.str.empty()) r += ','; r += ')'; } return r; }
    }
}
string symlist(clingo_symbol_t const *s, size_t n) { string r; for (size_t i = 0; i < n; ++i) { if (i) r += ';'; r += symstr(s[i]); } return r; }
static clingo_symbol_t mk(Sym x) {
    string key = std::to_string(x.type) + ":" + std::to_string(x.num) + ":" + std::to_string(x.pos) + ":" + std::to_string(x.str.size()) + ":" + x.str; for (auto a : x.args) key += ":" + std::to_string(a);
    auto i = g_symix.find(key); if (i != g_symix.end()) return i->second;
    clingo_symbol_t r = SBASE + 8 * g_syms.size(); g_syms.push_back(std::move(x)); g_symix[key] = r; return r;
}
clingo_symbol_t mknum(int n) { return mk({clingo_symbol_type_number, n, "", {}, true}); }
clingo_symbol_t mkfun(string const &n, vector<clingo_symbol_t> const &a, bool pos) { return mk({clingo_symbol_type_function, 0, n, a, pos}); }
static int torder(int t) { return t == clingo_symbol_type_infimum ? 0 : t == clingo_symbol_type_number ? 1 : t == clingo_symbol_type_string ? 2 : t == clingo_symbol_type_function ? 3 : 4; }
static int scmp(clingo_symbol_t a, clingo_symbol_t b) {
    if (a == b) return 0; Sym &x = sym(a), &y = sym(b);
    if (torder(x.type) != torder(y.type)) return torder(x.type) < torder(y.type) ? -1 : 1;
    if (x.type == clingo_symbol_type_number) return x.num < y.num ? -1 : 1;
    if (x.type == clingo_symbol_type_string) return x.str < y.str ? -1 : 1;
    if (x.pos != y.pos) return x.pos ? -1 : 1;
    if (x.args.size() != y.args.size()) return x.args.size() < y.args.size() ? -1 : 1;
    if (x.str != y.str) return x.str < y.str ? -1 : 1;
    for (size_t i = 0; i < x.args.size(); ++i) if (int c = scmp(x.args[i], y.args[i])) return c;
    return 0;
}
static int const weirdnum[] = {0, 1, -1, 2, 7, -7, 42, 2147483647, (-2147483647 - 1), 1000000};
int32_t pick_weird(int s) { return weirdnum[choose(s, 10)]; }
uint32_t wideid(uint32_t n) { static uint32_t const v[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 100000, 16777217, 1073741824, 2147483647}; return chance(SIM_DATA, 1, 25) ? v[choose(SIM_DATA, 12)] : 1 + choose(SIM_DATA, n); } // an id, an atom or a position
string longer(char const *s) { return chance(SIM_DATA, 1, 60) ? string(60 + choose(SIM_DATA, 3000), 'L') : string(s); }
static char const *const fnames[] = {"a", "p", "q", "long_name", "f'", "_x"};
static clingo_symbol_t deep_symbol(int s) { clingo_symbol_t x = mknum(7); for (uint32_t n = 10 + choose(s, 60); n > 0; --n) x = mkfun(choose(s, 2) ? "" : fnames[choose(s, 6)], {x}, true); return x; }
clingo_symbol_t rand_symbol(int s, int depth) {
    if (depth > 0 && chance(s, 1, 150)) return deep_symbol(s);
    uint32_t k = choose(s, depth > 0 ? 8 : 5);
    switch (k) {
        case 0: return mknum(choose(s, 5)); case 1: return mknum(pick_weird(s)); case 2: { static char const *const st[] = {"s", "", "two words", "quo\"te", "back\\slash", "nl\n", "100%d"}; return mk({clingo_symbol_type_string, 0, st[choose(s, 7)], {}, true}); }
        case 3: return mkfun(fnames[choose(s, 6)], {}, !chance(s, 1, 4)); case 4: return mk({choose(s, 2) ? (int)clingo_symbol_type_supremum : (int)clingo_symbol_type_infimum, 0, "", {}, true});
        case 5: { vector<clingo_symbol_t> a; for (uint32_t i = 0, n = many(s, 4); i < n; ++i) a.push_back(rand_symbol(s, depth - 1)); return mkfun("", a, true); }
        default: { vector<clingo_symbol_t> a; for (uint32_t i = 0, n = 1 + choose(s, 3); i < n; ++i) a.push_back(rand_symbol(s, depth - 1)); return mkfun(fnames[choose(s, 6)], a, !chance(s, 1, 4)); }
    }
}
clingo_symbol_t rand_atom(int s) { vector<clingo_symbol_t> a; static char const *const n[] = {"a", "b", "p", "q", "r"}; for (uint32_t i = 0, m = many(s, 3); i < m; ++i) a.push_back(choose(s, 3) ? mknum(choose(s, 4)) : rand_symbol(s, 1)); return mkfun(n[choose(s, 5)], a, !chance(s, 1, 5)); }
// term parser
struct TP { char const *p; bool bad = false; void ws() { while (*p == ' ' || *p == '\n' || *p == '\t') ++p; }
    clingo_symbol_t term() {
        ws(); bool neg = false; while (*p == '-') { neg = !neg; ++p; ws(); }
        if (isdigit((unsigned char)*p)) { long v = strtol(p, const_cast<char**>(&p), 10); return mknum(neg ? -v : v); }
        if (*p == '"') { string r; ++p; while (*p && *p != '"') { if (*p == '\\') { ++p; r += *p == 'n' ? '\n' : *p; } else r += *p; if (*p) ++p; } if (*p != '"') bad = true; else ++p; return mk({clingo_symbol_type_string, 0, r, {}, true}); }
        if (!strncmp(p, "#inf", 4)) { p += 4; return mk({clingo_symbol_type_infimum, 0, "", {}, true}); } if (!strncmp(p, "#sup", 4)) { p += 4; return mk({clingo_symbol_type_supremum, 0, "", {}, true}); }
        string n; while (isalnum((unsigned char)*p) || *p == '_' || *p == '\'') n += *p++;
        ws(); vector<clingo_symbol_t> a; if (n.empty() && *p != '(') { bad = true; return mknum(0); }
        if (*p == '(') { ++p; ws(); while (*p && *p != ')') { a.push_back(term()); if (bad) return mknum(0); ws(); if (*p == ',') { ++p; ws(); } else if (*p != ')') { bad = true; return mknum(0); } } if (*p != ')') bad = true; else ++p; }
        return mkfun(n, a, !neg);
    } };
// }}}
// {{{ ledger
int track(void const *p, string const &kind) { int id = ++g_nextid; g_ledger[p] = Rec{kind, id, true, 1}; return id; }
void untrack(void const *p) { auto i = g_ledger.find(p); if (i != g_ledger.end()) i->second.alive = false; }
Rec *lookup(void const *p) { auto i = g_ledger.find(p); return i == g_ledger.end() ? nullptr : &i->second; }
string objname(void const *p) { Rec *r = lookup(p); return r ? r->kind + "#" + std::to_string(r->id) : "?"; }
void check(void const *p, char const *kind, char const *fn) {
    Rec *r = lookup(p);
    if (!p || !r) { violation(string("invalid-object:") + fn, fmt("%s was called with %s", fn, p ? "an object the engine never handed out" : "a null object")); fail(clingo_error_logic, "invalid object"); }
    if (r->kind != kind) { violation(string("invalid-object:") + fn, fmt("%s was called with a %s instead of a %s", fn, r->kind.c_str(), kind)); fail(clingo_error_logic, "invalid object"); }
    if (!r->alive) { violation(string("use-after-release:") + fn, fmt("%s uses %s#%d after it was released", fn, kind, r->id)); fail(clingo_error_logic, "released object"); }
}
// }}}
// {{{ messages
void emit(Msg &l, int force, string const &text) {
    if (!l.fn) { if (l.id > 0) violation("callback-absent:message", fmt("no logger was passed to the engine although there is one (%d)", l.id)); return; }
    if (force < 0 && !chance(SIM_DATA, 1, 6)) return;
    if (l.limit <= 0) { return; }
    --l.limit; int code = force >= 0 ? force : (int)choose(SIM_DATA, 7);
    static char const *const t[] = {"info: something", "", "100%s %n", "<cmd>:1:2-3: error: multi\n  line", "atom does not occur in any rule head:\n  a|b,c", "\xc3\xa4", "caf\xe9 \xff!"};
    string m = force >= 0 ? text : longer(t[choose(SIM_DATA, 7)]);
    char *b = Poison::str(m);
    callback_void("message", fmt("%d|%d|", l.id, code) + esc(sim::g_unicode ? readable(m) : m), [&]() { Armed a(conf("allocs", 0) != 2); l.fn(code, b, l.data); });
    Poison::kills(b);
}
// }}}
int take_label() { int l = cur->cl->label; cur->cl->label = -1; return l; }
// {{{ theory strings
string Theory::term(clingo_id_t i) {
    if (i >= terms.size()) return "?"; TTerm &t = terms[i]; string a; for (size_t k = 0; k < t.args.size(); ++k) { if (k) a += ','; a += term(t.args[k]); }
    switch (t.type) { case clingo_theory_term_type_number: return std::to_string(t.num); case clingo_theory_term_type_symbol: return t.name; case clingo_theory_term_type_tuple: return "(" + a + (t.args.size() == 1 ? ",)" : ")"); case clingo_theory_term_type_list: return "[" + a + "]"; case clingo_theory_term_type_set: return "{" + a + "}"; default: return t.name + "(" + a + ")"; }
}
string Theory::elem(clingo_id_t i) { if (i >= elems.size()) return "?"; string r; for (auto t : elems[i].tuple) { if (!r.empty()) r += ','; r += term(t); } if (!elems[i].cond.empty()) { r += ": #aux(" + std::to_string(elems[i].condid) + ")"; } return r; }
string Theory::atom(clingo_id_t i) { if (i >= atoms.size()) return "?"; TAtom &a = atoms[i]; string r = "&" + term(a.term) + "{"; for (size_t k = 0; k < a.elems.size(); ++k) { if (k) r += "; "; r += elem(a.elems[k]); } r += "}"; if (a.guard) r += a.op + term(a.rhs); return r; }
static void grow_theory(Control *c) {
    Theory &t = c->th; int base = t.terms.size();
    static char const *const nm[] = {"sum", "x", "diff", "+", "<=", "*"};
    for (uint32_t i = 0, n = many(SIM_DATA, 5); i < n; ++i) {
        TTerm x; x.type = choose(SIM_DATA, 6); x.num = 0; vector<clingo_id_t> prev;
        if (x.type == clingo_theory_term_type_number) x.num = pick_weird(SIM_DATA); else if (x.type == clingo_theory_term_type_symbol) x.name = nm[choose(SIM_DATA, 6)];
        else { if (x.type == clingo_theory_term_type_function) x.name = nm[choose(SIM_DATA, 6)]; size_t have = t.terms.size(); for (uint32_t k = 0, m = many(SIM_DATA, 4); k < m && have; ++k) { auto y = choose(SIM_DATA, have); if (x.size + t.terms[y].size > 400) break; x.size += t.terms[y].size; x.args.push_back(y); } }
        t.terms.push_back(x);
    }
    if (t.terms.empty()) t.terms.push_back(TTerm{clingo_theory_term_type_symbol, 0, "t", {}});
    (void)base;
    for (uint32_t i = 0, n = many(SIM_DATA, 4); i < n; ++i) { TElem e; for (uint32_t k = 0, m = many(SIM_DATA, 3); k < m; ++k) e.tuple.push_back(choose(SIM_DATA, t.terms.size())); for (uint32_t k = 0, m = many(SIM_DATA, 3); k < m; ++k) e.cond.push_back((int)(1 + choose(SIM_DATA, 9)) * (choose(SIM_DATA, 2) ? -1 : 1)); e.condid = (int)(1 + choose(SIM_DATA, 50)) * (choose(SIM_DATA, 2) ? -1 : 1); t.elems.push_back(e); }
    for (uint32_t i = 0, n = many(SIM_DATA, 4); i < n; ++i) { TAtom a; a.term = choose(SIM_DATA, t.terms.size()); if (!t.elems.empty()) for (uint32_t k = 0, m = many(SIM_DATA, 4); k < m; ++k) a.elems.push_back(choose(SIM_DATA, t.elems.size())); a.guard = choose(SIM_DATA, 2); a.rhs = 0; if (a.guard) { a.op = nm[3 + choose(SIM_DATA, 3)]; a.rhs = choose(SIM_DATA, t.terms.size()); } a.lit = (int)choose(SIM_DATA, 20) - 5; t.atoms.push_back(a); }
}
// }}}
// {{{ configuration, statistics
static clingo_id_t cadd(Control *c, clingo_id_t parent, char const *name, int type, char const *val = nullptr) {
    Conf &f = c->conf; clingo_id_t k = f.add(type, f.n[parent].path.empty() ? name : f.n[parent].path + "." + name); f.n[parent].map.emplace_back(name, k); if (val) { f.n[k].val = val; f.n[k].assigned = true; } return k;
}
static void build_conf(Control *c) {
    Conf &f = c->conf; f.next = choose(SIM_DATA, 7); f.root = f.add(clingo_configuration_type_map, ""); int V = clingo_configuration_type_value;
    auto so = cadd(c, f.root, "solve", clingo_configuration_type_map); cadd(c, so, "models", V, "-1"); cadd(c, so, "parallel_mode", V, "1,compete"); cadd(c, so, "opt_mode", V, "opt"); cadd(c, so, "project", V);
    cadd(c, f.root, "configuration", V, "auto"); cadd(c, f.root, "share", V, "auto\nwith|odd,chars"); cadd(c, f.root, "learn_explicit", V);
    auto sv = cadd(c, f.root, "solver", clingo_configuration_type_map | clingo_configuration_type_array); cadd(c, sv, "heuristic", V, ""); cadd(c, sv, "seed", V, "1");
    for (uint32_t i = 0, n = choose(SIM_DATA, 4); i < n; ++i) { clingo_id_t k = f.add(clingo_configuration_type_map, "solver[" + std::to_string(i) + "]"); f.n[sv].arr.push_back(k); cadd(c, k, "heuristic", V, i & 1 ? "Vsids,92" : "Berkmin"); cadd(c, k, "seed", V); }
    cadd(c, f.root, "stats", V, "0");
    auto te = cadd(c, f.root, "tester", clingo_configuration_type_map | V, "x"); cadd(c, te, "eq", V, "3");
}
static double sval(uint64_t a, uint64_t b) { static double const v[] = {0, 1, -1, 0.5, 1e300, 123456789, 3.25}; uint64_t h = (a * 31 + b) * 0x9e3779b97f4a7c15ull; return v[(h >> 40) % 7] + (double)((h >> 20) % 5); }
void build_stats(Control *c) {
    Stat &s = c->stat; uint64_t base = (c->step % 3) * 100 + 1; uint64_t us = 0, ua = 0; Stat old; old = s; s = Stat(); s.next = base; s.root = s.add(clingo_statistics_type_map, false, "");
    (void)us; (void)ua; uint64_t cnt = 0;
    auto addm = [&](uint64_t p, string n, int type) { uint64_t k = s.add(type, false, s.n[p].path.empty() ? n : s.n[p].path + "." + n); s.n[p].map.emplace_back(n, k); if (type == clingo_statistics_type_value) s.n[k].val = sval(c->step, ++cnt); return k; };
    int M = clingo_statistics_type_map, V = clingo_statistics_type_value, A = clingo_statistics_type_array;
    auto su = addm(s.root, "summary", M); auto ca = addm(su, "call", V); s.n[ca].val = (double)c->step - 1; auto mo = addm(su, "models", M); addm(mo, "enumerated", V); addm(mo, "optimal", V); auto cs = addm(su, "costs", A);
    for (uint64_t i = 0; i < c->step % 4; ++i) { auto k = s.add(V, false, "summary.costs[" + std::to_string(i) + "]"); s.n[k].val = sval(c->step, 50 + i); s.n[cs].arr.push_back(k); }
    auto so = addm(s.root, "solving", M); auto sr = addm(so, "solvers", M); addm(sr, "choices", V); addm(sr, "conflicts", V); auto ar = addm(so, "threads", A);
    for (int i = 0; i < c->nthreads; ++i) { auto k = s.add(M, false, "solving.threads[" + std::to_string(i) + "]"); s.n[ar].arr.push_back(k); auto x = s.add(V, false, ""); s.n[x].val = sval(c->step, 80 + i); s.n[k].map.emplace_back("choices", x); }
    addm(s.root, "problem", M); if (sim_config("stat_empty", 1)) addm(s.root, "empty", clingo_statistics_type_empty);
}
static Stat &stat_of(clingo_statistics_t const *s, char const *fn) { check(s, "statistics", fn); return *const_cast<Stat*>(reinterpret_cast<Stat const*>(s)); }
static SNode &snode(Stat &s, uint64_t k, char const *fn) { auto i = s.n.find(k); if (i == s.n.end()) { violation(string("invalid-object:") + fn, fmt("%s got the statistics key %llu which does not exist", fn, (unsigned long long)k)); fail(clingo_error_logic, "invalid key"); } return i->second; }
// }}}
static Control *ctl_of(clingo_control_t const *c, char const *fn) { check(c, "control", fn); return const_cast<Control*>(reinterpret_cast<Control const*>(c)); }
static Control *atoms_of(clingo_symbolic_atoms_t const *a, char const *fn) { check(a, "symbolic-atoms", fn); return reinterpret_cast<Handle const*>(a)->c; }
static Theory &theory_of(clingo_theory_atoms_t const *a, char const *fn) { check(a, "theory-atoms", fn); return reinterpret_cast<Handle const*>(a)->c->th; }
static Control *backend_of(clingo_backend_t const *b, char const *fn, bool open = true) { check(b, "backend", fn); Control *c = reinterpret_cast<Handle const*>(b)->c; if (open && !c->backendOpen) { violation(string("use-after-release:") + fn, fmt("%s on a backend that is not open", fn)); fail(clingo_error_runtime, "backend not open"); } return c; }
Control *new_control(vector<string> args, Msg log) {
    Control *c = make<Control>(); c->args = std::move(args); c->log = log; c->id = track(c, "control"); track(&c->hAtoms, "symbolic-atoms"); track(&c->hTheory, "theory-atoms"); track(&c->hBackend, "backend"); track(&c->hBuilder, "builder"); track(&c->conf, "configuration"); track(&c->stat, "statistics"); track(&c->hSolve, "solve-control");
    c->nv = chance(SIM_DATA, 1, 40) ? 30 + choose(SIM_DATA, 200) : 3 + choose(SIM_DATA, 7); c->nthreads = conf("threads", 0) ? conf("threads", 0) : chance(SIM_DATA, 1, 20) ? 4 + choose(SIM_DATA, 6) : 1 + choose(SIM_DATA, 3); c->nextAtom = 2;
    c->consts["n"] = mknum(3); c->consts["c"] = rand_symbol(SIM_DATA, 1); build_conf(c); build_stats(c); g_controls.push_back(c); return c;
}
void free_control(Control *c) {
    if (c->search && !c->search->closed) violation("control-freed-early:solve-handle", "control freed while a solve handle of it is still open");
    if (c->backendOpen) violation("control-freed-early:backend", "control freed while its backend is still open");
    if (c->builderOpen) violation("control-freed-early:builder", "control freed while its program builder is still open");
    for (void *p : {(void*)c, (void*)&c->hAtoms, (void*)&c->hTheory, (void*)&c->hBackend, (void*)&c->hBuilder, (void*)&c->conf, (void*)&c->stat, (void*)&c->hSolve}) untrack(p);
    c->dead = true;
}
void observers(Control *c, std::function<void(Obs&)> f) { for (size_t i = 0; i < c->obs.size(); ++i) f(*c->obs[i]); }
#define OBS(fn, truth, call) observers(c, [&](Obs &o) { if (!o.o.fn) return; callback("observer:" #fn, fmt("%d|", o.idx) + (truth), [&]() { return armed([&]() { return call; }); }); })
static vector<clingo_atom_t> ratoms() { vector<clingo_atom_t> v; for (uint32_t i = 0, n = many(SIM_DATA, 4); i < n; ++i) v.push_back(chance(SIM_DATA, 1, 8) ? 2147483647u : wideid(9)); return v; }
static vector<clingo_literal_t> rlits() { vector<clingo_literal_t> v; for (uint32_t i = 0, n = many(SIM_DATA, 4); i < n; ++i) v.push_back((chance(SIM_DATA, 1, 8) ? 2147483647 : (int)wideid(9)) * (choose(SIM_DATA, 2) ? -1 : 1)); return v; }
static vector<clingo_weighted_literal_t> rwlits() { vector<clingo_weighted_literal_t> v; for (uint32_t i = 0, n = many(SIM_DATA, 4); i < n; ++i) v.push_back({(int)wideid(9) * (choose(SIM_DATA, 2) ? -1 : 1), pick_weird(SIM_DATA)}); return v; }
static string wl(clingo_weighted_literal_t const *w, size_t n) { string r; for (size_t i = 0; i < n; ++i) { if (i) r += ','; r += fmt("%d@%d", w[i].literal, w[i].weight); } return r; }
template <class T> struct Buf { T *p; size_t n; Buf(T const *a, size_t n) : p(Poison::copy(a, n)), n(n) {} Buf(vector<T> const &v) : Buf(v.data(), v.size()) {} ~Buf() { Poison::kill(p, n); } T const *get() const { return n ? p : nullptr; } };
static void obs_rule(Control *c, bool ch, clingo_atom_t const *h, size_t hn, clingo_literal_t const *b, size_t bn) { OBS(rule, fmt("%d|", ch) + joinn(h, hn) + "|" + joinn(b, bn), ([&]() { Buf<clingo_atom_t> x(h, hn); Buf<clingo_literal_t> y(b, bn); return o.o.rule(ch, x.get(), hn, y.get(), bn, o.data); }())); }
static void obs_weight_rule(Control *c, bool ch, clingo_atom_t const *h, size_t hn, int lb, clingo_weighted_literal_t const *b, size_t bn) { OBS(weight_rule, fmt("%d|", ch) + joinn(h, hn) + fmt("|%d|", lb) + wl(b, bn), ([&]() { Buf<clingo_atom_t> x(h, hn); Buf<clingo_weighted_literal_t> y(b, bn); return o.o.weight_rule(ch, x.get(), hn, lb, y.get(), bn, o.data); }())); }
static void obs_minimize(Control *c, int p, clingo_weighted_literal_t const *b, size_t bn) { OBS(minimize, fmt("%d|", p) + wl(b, bn), ([&]() { Buf<clingo_weighted_literal_t> y(b, bn); return o.o.minimize(p, y.get(), bn, o.data); }())); }
static void obs_project(Control *c, clingo_atom_t const *h, size_t hn) { OBS(project, joinn(h, hn), ([&]() { Buf<clingo_atom_t> x(h, hn); return o.o.project(x.get(), hn, o.data); }())); }
static void obs_external(Control *c, clingo_atom_t a, int t) { OBS(external, fmt("%u|%d", a, t), (o.o.external(a, t, o.data))); }
static void obs_assume(Control *c, clingo_literal_t const *b, size_t bn) { OBS(assume, joinn(b, bn), ([&]() { Buf<clingo_literal_t> y(b, bn); return o.o.assume(y.get(), bn, o.data); }())); }
static void obs_heuristic(Control *c, clingo_atom_t a, int t, int bias, unsigned pr, clingo_literal_t const *b, size_t bn) { OBS(heuristic, fmt("%u|%d|%d|%u|", a, t, bias, pr) + joinn(b, bn), ([&]() { Buf<clingo_literal_t> y(b, bn); return o.o.heuristic(a, t, bias, pr, y.get(), bn, o.data); }())); }
static void obs_acyc(Control *c, int u, int v, clingo_literal_t const *b, size_t bn) { OBS(acyc_edge, fmt("%d|%d|", u, v) + joinn(b, bn), ([&]() { Buf<clingo_literal_t> y(b, bn); return o.o.acyc_edge(u, v, y.get(), bn, o.data); }())); }
static void random_event(Control *c) {
    static int const types[] = {0, 1, 2, 3};
    switch (choose(SIM_DATA, 17)) {
        case 0: { auto h = ratoms(); auto b = rlits(); bool ch = choose(SIM_DATA, 2); obs_rule(c, ch, h.data(), h.size(), b.data(), b.size()); break; }
        case 1: { auto h = ratoms(); auto b = rwlits(); bool ch = choose(SIM_DATA, 2); obs_weight_rule(c, ch, h.data(), h.size(), pick_weird(SIM_DATA), b.data(), b.size()); break; }
        case 2: { auto b = rwlits(); obs_minimize(c, pick_weird(SIM_DATA), b.data(), b.size()); break; }
        case 3: { auto h = ratoms(); obs_project(c, h.data(), h.size()); break; }
        case 4: { auto s = rand_atom(SIM_DATA); auto a = choose(SIM_DATA, 12) ? wideid(11) : 0; OBS(output_atom, symstr(s) + fmt("|%u", a), (o.o.output_atom(s, a, o.data))); break; }
        case 5: { auto s = rand_symbol(SIM_DATA); auto b = rlits(); OBS(output_term, symstr(s) + "|" + joinn(b.data(), b.size()), ([&]() { Buf<clingo_literal_t> y(b); return o.o.output_term(s, y.get(), b.size(), o.data); }())); break; }
        case 6: obs_external(c, wideid(9), types[choose(SIM_DATA, 4)]); break;
        case 7: { auto b = rlits(); obs_assume(c, b.data(), b.size()); break; }
        case 8: { auto b = rlits(); auto a = wideid(9); int t = choose(SIM_DATA, 6); int bias = pick_weird(SIM_DATA); unsigned pr = chance(SIM_DATA, 1, 5) ? 4294967295u : choose(SIM_DATA, 9); obs_heuristic(c, a, t, bias, pr, b.data(), b.size()); break; }
        case 9: { auto b = rlits(); int u = pick_weird(SIM_DATA), v = pick_weird(SIM_DATA); obs_acyc(c, u, v, b.data(), b.size()); break; }
        case 10: { unsigned t = choose(SIM_DATA, 9) ? wideid(8) : 0; int n = pick_weird(SIM_DATA); OBS(theory_term_number, fmt("%u|%d", t, n), (o.o.theory_term_number(t, n, o.data))); break; }
        case 11: { unsigned t = choose(SIM_DATA, 9) ? wideid(8) : 0; static char const *const n[] = {"x", "", "a b", "%s", "\xc3\xa4"}; string s = longer(n[choose(SIM_DATA, 5)]); OBS(theory_term_string, fmt("%u|", t) + esc(s), ([&]() { char *b = Poison::str(s); bool r = o.o.theory_term_string(t, b, o.data); Poison::kills(b); return r; }())); break; }
        case 12: { unsigned t = choose(SIM_DATA, 9) ? wideid(8) : 0; int n = choose(SIM_DATA, 8) > 3 ? (int)wideid(4) : (int)choose(SIM_DATA, 4) - 3; auto a = ratoms(); OBS(theory_term_compound, fmt("%u|%d|", t, n) + joinn(a.data(), a.size()), ([&]() { Buf<clingo_id_t> y(a); return o.o.theory_term_compound(t, n, y.get(), a.size(), o.data); }())); break; }
        case 13: { unsigned t = choose(SIM_DATA, 9) ? wideid(8) : 0; auto a = ratoms(); auto b = rlits(); OBS(theory_element, fmt("%u|", t) + joinn(a.data(), a.size()) + "|" + joinn(b.data(), b.size()), ([&]() { Buf<clingo_id_t> x(a); Buf<clingo_literal_t> y(b); return o.o.theory_element(t, x.get(), a.size(), y.get(), b.size(), o.data); }())); break; }
        case 14: { unsigned t = choose(SIM_DATA, 9) ? wideid(8) : 0, u = choose(SIM_DATA, 9) ? wideid(8) : 0; auto a = ratoms(); OBS(theory_atom, fmt("%u|%u|", t, u) + joinn(a.data(), a.size()), ([&]() { Buf<clingo_id_t> x(a); return o.o.theory_atom(t, u, x.get(), a.size(), o.data); }())); break; }
        case 15: { unsigned t = choose(SIM_DATA, 9) ? wideid(8) : 0, u = choose(SIM_DATA, 9) ? wideid(8) : 0, v = choose(SIM_DATA, 9) ? wideid(8) : 0, w = choose(SIM_DATA, 9) ? wideid(8) : 0; auto a = ratoms(); OBS(theory_atom_with_guard, fmt("%u|%u|", t, u) + joinn(a.data(), a.size()) + fmt("|%u|%u", v, w), ([&]() { Buf<clingo_id_t> x(a); return o.o.theory_atom_with_guard(t, u, x.get(), a.size(), v, w, o.data); }())); break; }
        case 16: { auto s = rand_atom(SIM_DATA); OBS(output_atom, symstr(s) + "|0", (o.o.output_atom(s, 0, o.data))); break; }
    }
}
static string qpart(clingo_part_t const &p) { string r = esc(p.name); r += ':'; return r + symlist(p.params, p.size); }
static int add_atom_to(Control *c, clingo_symbol_t s, bool fact, bool ext) {
    for (auto &a : c->atoms) if (a.sym == s) return a.lit;
    int l = c->nextAtom++; c->atoms.push_back({s, l, fact, ext}); return l;
}
static clingo_signature_t sig_of(clingo_symbol_t s);
// {{{ signatures
struct Sig { string name; uint32_t ar; bool pos; }; static std::deque<Sig> g_sigs; static std::map<std::tuple<string, uint32_t, bool>, clingo_signature_t> g_sigix;
static clingo_signature_t const GBASE = 0x77000000ull;
static Sig &sig(clingo_signature_t s) { uint64_t i = (s - GBASE) / 4; if (s < GBASE || i >= g_sigs.size()) { violation("garbage-signature", fmt("the engine was given the value %llx which is no signature", (unsigned long long)s)); static Sig bad{"?", 0, true}; return bad; } return g_sigs[i]; }
static clingo_signature_t mksig(string n, uint32_t a, bool p) { auto k = std::make_tuple(n, a, p); auto i = g_sigix.find(k); if (i != g_sigix.end()) return i->second; clingo_signature_t r = GBASE + 4 * g_sigs.size(); g_sigs.push_back({n, a, p}); g_sigix[k] = r; return r; }
static clingo_signature_t sig_of(clingo_symbol_t s) { Sym &x = sym(s); return mksig(x.str, x.args.size(), x.pos); }
string siglist_str(clingo_signature_t s) { Sig &x = sig(s); return fmt("%s%s/%u", x.pos ? "" : "-", x.name.c_str(), x.ar); }
// }}}
static uint64_t const NOIT = 0xffffffffull;
static uint64_t mkit(uint64_t idx, uint64_t sigp) { return (sigp << 32) | idx; }
static uint64_t findnext(Control *c, uint64_t idx, uint64_t sp) { for (; idx < c->atoms.size(); ++idx) if (!sp || (sig_of(c->atoms[idx].sym) - GBASE) / 4 + 1 == sp) return idx; return NOIT; }
static Atom &it_atom(Control *c, uint64_t it, char const *fn) { uint64_t i = it & NOIT; if (i >= c->atoms.size()) { violation(string("invalid-object:") + fn, fmt("%s dereferences an invalid atom iterator", fn)); fail(clingo_error_logic, "invalid iterator"); } return c->atoms[i]; }
static void putstr(char *dst, size_t n, string const &s, char const *fn) { if (n < s.size() + 1) fail(clingo_error_runtime, "string too long"); memcpy(dst, s.c_str(), s.size() + 1); (void)fn; }

namespace impl {
void signature_create(char const *name, uint32_t arity, bool positive, clingo_signature_t *s) { *s = mksig(name, arity, positive); }
char const *signature_name(clingo_signature_t s) { return sig(s).name.c_str(); }
uint32_t signature_arity(clingo_signature_t s) { return sig(s).ar; }
bool signature_is_positive(clingo_signature_t s) { return sig(s).pos; }
bool signature_is_negative(clingo_signature_t s) { return !sig(s).pos; }
bool signature_is_equal_to(clingo_signature_t a, clingo_signature_t b) { return a == b; }
bool signature_is_less_than(clingo_signature_t a, clingo_signature_t b) { Sig &x = sig(a), &y = sig(b); return std::make_tuple(!x.pos, x.ar, x.name) < std::make_tuple(!y.pos, y.ar, y.name); }
size_t signature_hash(clingo_signature_t s) { return std::hash<string>()(sig(s).name) * 31 + sig(s).ar * 2 + sig(s).pos; }
void symbol_create_number(int n, clingo_symbol_t *s) { *s = mknum(n); }
void symbol_create_supremum(clingo_symbol_t *s) { *s = mk({clingo_symbol_type_supremum, 0, "", {}, true}); }
void symbol_create_infimum(clingo_symbol_t *s) { *s = mk({clingo_symbol_type_infimum, 0, "", {}, true}); }
void symbol_create_string(char const *x, clingo_symbol_t *s) { *s = mk({clingo_symbol_type_string, 0, x, {}, true}); }
void symbol_create_id(char const *n, bool p, clingo_symbol_t *s) { *s = mkfun(n, {}, p); }
void symbol_create_function(char const *n, clingo_symbol_t const *a, size_t k, bool p, clingo_symbol_t *s) { for (size_t i = 0; i < k; ++i) sym(a[i]); *s = mkfun(n, vector<clingo_symbol_t>(a, a + k), p); }
static Sym &symt(clingo_symbol_t s, int type) { Sym &x = sym(s); if (x.type != type) fail(clingo_error_runtime, "unexpected"); return x; }
void symbol_number(clingo_symbol_t s, int *n) { *n = symt(s, clingo_symbol_type_number).num; }
void symbol_name(clingo_symbol_t s, char const **n) { *n = symt(s, clingo_symbol_type_function).str.c_str(); }
void symbol_string(clingo_symbol_t s, char const **n) { *n = symt(s, clingo_symbol_type_string).str.c_str(); }
void symbol_is_positive(clingo_symbol_t s, bool *p) { *p = symt(s, clingo_symbol_type_function).pos; }
void symbol_is_negative(clingo_symbol_t s, bool *p) { *p = !symt(s, clingo_symbol_type_function).pos; }
void symbol_arguments(clingo_symbol_t s, clingo_symbol_t const **a, size_t *n) { Sym &x = symt(s, clingo_symbol_type_function); *a = x.args.data(); *n = x.args.size(); }
clingo_symbol_type_t symbol_type(clingo_symbol_t s) { return sym(s).type; }
void symbol_to_string_size(clingo_symbol_t s, size_t *n) { *n = symstr(s).size() + 1; }
void symbol_to_string(clingo_symbol_t s, char *b, size_t n) { putstr(b, n, symstr(s), "symbol_to_string"); }
bool symbol_is_equal_to(clingo_symbol_t a, clingo_symbol_t b) { return a == b; }
bool symbol_is_less_than(clingo_symbol_t a, clingo_symbol_t b) { return scmp(a, b) < 0; }
size_t symbol_hash(clingo_symbol_t s) { return std::hash<string>()(symstr(s)); }
void add_string(char const *s, char const **r) { *r = intern(s); }
void parse_term(char const *s, clingo_logger_t l, void *d, unsigned lim, clingo_symbol_t *r) {
    Msg m; m.fn = l; m.data = d; m.limit = lim; m.id = take_label(); emit(m); TP p{s}; clingo_symbol_t x = p.term(); p.ws();
    if (p.bad || *p.p) { emit(m, clingo_warning_runtime_error, string("<string>:1:1: error: syntax error, near ") + p.p); fail(clingo_error_runtime, "parsing failed"); }
    emit(m); *r = x; result(fmt("limit|%u", lim));
}
// symbolic atoms
void symbolic_atoms_size(clingo_symbolic_atoms_t const *a, size_t *n) { *n = atoms_of(a, "symbolic_atoms_size")->atoms.size(); }
void symbolic_atoms_begin(clingo_symbolic_atoms_t const *a, clingo_signature_t const *s, clingo_symbolic_atom_iterator_t *it) { Control *c = atoms_of(a, "symbolic_atoms_begin"); uint64_t sp = s ? (sig(*s), (*s - GBASE) / 4 + 1) : 0; *it = mkit(findnext(c, 0, sp), sp); }
void symbolic_atoms_end(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t *it) { atoms_of(a, "symbolic_atoms_end"); *it = NOIT; }
void symbolic_atoms_find(clingo_symbolic_atoms_t const *a, clingo_symbol_t s, clingo_symbolic_atom_iterator_t *it) { Control *c = atoms_of(a, "symbolic_atoms_find"); sym(s); *it = NOIT; for (size_t i = 0; i < c->atoms.size(); ++i) if (c->atoms[i].sym == s) *it = i; }
void symbolic_atoms_iterator_is_equal_to(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t x, clingo_symbolic_atom_iterator_t y, bool *e) { atoms_of(a, "symbolic_atoms_iterator_is_equal_to"); *e = (x & NOIT) == (y & NOIT); }
void symbolic_atoms_symbol(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t i, clingo_symbol_t *s) { *s = it_atom(atoms_of(a, "symbolic_atoms_symbol"), i, "symbolic_atoms_symbol").sym; }
void symbolic_atoms_is_fact(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t i, bool *s) { *s = it_atom(atoms_of(a, "symbolic_atoms_is_fact"), i, "symbolic_atoms_is_fact").fact; }
void symbolic_atoms_is_external(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t i, bool *s) { *s = it_atom(atoms_of(a, "symbolic_atoms_is_external"), i, "symbolic_atoms_is_external").external; }
void symbolic_atoms_literal(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t i, clingo_literal_t *s) { *s = it_atom(atoms_of(a, "symbolic_atoms_literal"), i, "symbolic_atoms_literal").lit; }
static vector<clingo_signature_t> sigs(Control *c) { vector<clingo_signature_t> r; for (auto &a : c->atoms) { auto s = sig_of(a.sym); if (std::find(r.begin(), r.end(), s) == r.end()) r.push_back(s); } return r; }
void symbolic_atoms_signatures_size(clingo_symbolic_atoms_t const *a, size_t *n) { *n = sigs(atoms_of(a, "symbolic_atoms_signatures_size")).size(); }
void symbolic_atoms_signatures(clingo_symbolic_atoms_t const *a, clingo_signature_t *s, size_t n) { auto v = sigs(atoms_of(a, "symbolic_atoms_signatures")); if (n < v.size()) fail(clingo_error_logic, "not enough space"); std::copy(v.begin(), v.end(), s); }
void symbolic_atoms_next(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t i, clingo_symbolic_atom_iterator_t *n) { Control *c = atoms_of(a, "symbolic_atoms_next"); it_atom(c, i, "symbolic_atoms_next"); *n = mkit(findnext(c, (i & NOIT) + 1, i >> 32), i >> 32); }
void symbolic_atoms_is_valid(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t i, bool *v) { *v = (i & NOIT) < atoms_of(a, "symbolic_atoms_is_valid")->atoms.size(); }
// theory atoms
static TTerm &tt(clingo_theory_atoms_t const *a, clingo_id_t i, char const *fn) { auto &t = theory_of(a, fn); if (i >= t.terms.size()) { violation(string("invalid-object:") + fn, fmt("theory term %u does not exist", i)); fail(clingo_error_runtime, "no such term"); } return t.terms[i]; }
static TElem &te(clingo_theory_atoms_t const *a, clingo_id_t i, char const *fn) { auto &t = theory_of(a, fn); if (i >= t.elems.size()) { violation(string("invalid-object:") + fn, fmt("theory element %u does not exist", i)); fail(clingo_error_runtime, "no such element"); } return t.elems[i]; }
static TAtom &ta(clingo_theory_atoms_t const *a, clingo_id_t i, char const *fn) { auto &t = theory_of(a, fn); if (i >= t.atoms.size()) { violation(string("invalid-object:") + fn, fmt("theory atom %u does not exist", i)); fail(clingo_error_runtime, "no such atom"); } return t.atoms[i]; }
void theory_atoms_term_type(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_theory_term_type_t *t) { *t = tt(a, i, "theory_atoms_term_type").type; }
void theory_atoms_term_number(clingo_theory_atoms_t const *a, clingo_id_t i, int *n) { auto &t = tt(a, i, "theory_atoms_term_number"); if (t.type != clingo_theory_term_type_number) fail(clingo_error_runtime, "not a number"); *n = t.num; }
void theory_atoms_term_name(clingo_theory_atoms_t const *a, clingo_id_t i, char const **n) { auto &t = tt(a, i, "theory_atoms_term_name"); if (t.type != clingo_theory_term_type_symbol && t.type != clingo_theory_term_type_function) fail(clingo_error_runtime, "no name"); *n = intern(t.name); }
void theory_atoms_term_arguments(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_id_t const **x, size_t *n) { auto &t = tt(a, i, "theory_atoms_term_arguments"); if (t.type == clingo_theory_term_type_symbol || t.type == clingo_theory_term_type_number) fail(clingo_error_runtime, "no arguments"); *x = t.args.data(); *n = t.args.size(); }
void theory_atoms_term_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t i, size_t *n) { tt(a, i, "theory_atoms_term_to_string_size"); *n = theory_of(a, "").term(i).size() + 1; }
void theory_atoms_term_to_string(clingo_theory_atoms_t const *a, clingo_id_t i, char *s, size_t n) { tt(a, i, "theory_atoms_term_to_string"); putstr(s, n, theory_of(a, "").term(i), ""); }
void theory_atoms_element_tuple(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_id_t const **x, size_t *n) { auto &e = te(a, i, "theory_atoms_element_tuple"); *x = e.tuple.data(); *n = e.tuple.size(); }
void theory_atoms_element_condition(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_literal_t const **x, size_t *n) { auto &e = te(a, i, "theory_atoms_element_condition"); *x = e.cond.data(); *n = e.cond.size(); }
void theory_atoms_element_condition_id(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_literal_t *l) { *l = te(a, i, "theory_atoms_element_condition_id").condid; }
void theory_atoms_element_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t i, size_t *n) { te(a, i, "theory_atoms_element_to_string_size"); *n = theory_of(a, "").elem(i).size() + 1; }
void theory_atoms_element_to_string(clingo_theory_atoms_t const *a, clingo_id_t i, char *s, size_t n) { te(a, i, "theory_atoms_element_to_string"); putstr(s, n, theory_of(a, "").elem(i), ""); }
void theory_atoms_size(clingo_theory_atoms_t const *a, size_t *n) { *n = theory_of(a, "theory_atoms_size").atoms.size(); }
void theory_atoms_atom_term(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_id_t *t) { *t = ta(a, i, "theory_atoms_atom_term").term; }
void theory_atoms_atom_elements(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_id_t const **x, size_t *n) { auto &t = ta(a, i, "theory_atoms_atom_elements"); *x = t.elems.data(); *n = t.elems.size(); }
void theory_atoms_atom_has_guard(clingo_theory_atoms_t const *a, clingo_id_t i, bool *g) { *g = ta(a, i, "theory_atoms_atom_has_guard").guard; }
void theory_atoms_atom_guard(clingo_theory_atoms_t const *a, clingo_id_t i, char const **c, clingo_id_t *t) { auto &x = ta(a, i, "theory_atoms_atom_guard"); if (!x.guard) fail(clingo_error_runtime, "no guard"); *c = intern(x.op); *t = x.rhs; }
void theory_atoms_atom_literal(clingo_theory_atoms_t const *a, clingo_id_t i, clingo_literal_t *l) { *l = ta(a, i, "theory_atoms_atom_literal").lit; }
void theory_atoms_atom_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t i, size_t *n) { ta(a, i, "theory_atoms_atom_to_string_size"); *n = theory_of(a, "").atom(i).size() + 1; }
void theory_atoms_atom_to_string(clingo_theory_atoms_t const *a, clingo_id_t i, char *s, size_t n) { ta(a, i, "theory_atoms_atom_to_string"); putstr(s, n, theory_of(a, "").atom(i), ""); }
// configuration
static Conf &conf_of(clingo_configuration_t const *c, char const *fn) { check(c, "configuration", fn); return *const_cast<Conf*>(reinterpret_cast<Conf const*>(c)); }
static CNode &cn(clingo_configuration_t const *c, clingo_id_t k, char const *fn) { Conf &f = conf_of(c, fn); auto i = f.n.find(k); if (i == f.n.end()) { violation(string("invalid-object:") + fn, fmt("configuration key %u does not exist", k)); fail(clingo_error_runtime, "invalid key"); } return i->second; }
static void need(bool x, char const *m) { if (!x) fail(clingo_error_runtime, m); }
void configuration_root(clingo_configuration_t const *c, clingo_id_t *k) { *k = conf_of(c, "configuration_root").root; }
void configuration_type(clingo_configuration_t const *c, clingo_id_t k, clingo_configuration_type_bitset_t *t) { *t = cn(c, k, "configuration_type").type; }
void configuration_description(clingo_configuration_t const *c, clingo_id_t k, char const **d) { *d = cn(c, k, "configuration_description").desc.c_str(); }
void configuration_array_size(clingo_configuration_t const *c, clingo_id_t k, size_t *n) { auto &x = cn(c, k, "configuration_array_size"); need(x.type & clingo_configuration_type_array, "not an array"); *n = x.arr.size(); }
void configuration_array_at(clingo_configuration_t const *c, clingo_id_t k, size_t i, clingo_id_t *s) { auto &x = cn(c, k, "configuration_array_at"); need(x.type & clingo_configuration_type_array, "not an array"); need(i < x.arr.size(), "invalid index"); *s = x.arr[i]; }
void configuration_map_size(clingo_configuration_t const *c, clingo_id_t k, size_t *n) { auto &x = cn(c, k, "configuration_map_size"); need(x.type & clingo_configuration_type_map, "not a map"); *n = x.map.size(); }
void configuration_map_has_subkey(clingo_configuration_t const *c, clingo_id_t k, char const *n, bool *r) { auto &x = cn(c, k, "configuration_map_has_subkey"); *r = false; for (auto &m : x.map) *r = *r || m.first == n; }
void configuration_map_subkey_name(clingo_configuration_t const *c, clingo_id_t k, size_t i, char const **n) { auto &x = cn(c, k, "configuration_map_subkey_name"); need(i < x.map.size(), "invalid index"); *n = intern(x.map[i].first); }
void configuration_map_at(clingo_configuration_t const *c, clingo_id_t k, char const *n, clingo_id_t *s) { auto &x = cn(c, k, "configuration_map_at"); for (auto &m : x.map) if (m.first == n) { *s = m.second; return; } fail(clingo_error_runtime, string("invalid key: ") + n); }
void configuration_value_is_assigned(clingo_configuration_t const *c, clingo_id_t k, bool *a) { auto &x = cn(c, k, "configuration_value_is_assigned"); need(x.type & clingo_configuration_type_value, "not a value"); *a = x.assigned; }
void configuration_value_get_size(clingo_configuration_t const *c, clingo_id_t k, size_t *n) { auto &x = cn(c, k, "configuration_value_get_size"); need(x.type & clingo_configuration_type_value, "not a value"); *n = x.val.size() + 1; }
void configuration_value_get(clingo_configuration_t const *c, clingo_id_t k, char *v, size_t n) { auto &x = cn(c, k, "configuration_value_get"); need(x.type & clingo_configuration_type_value, "not a value"); putstr(v, n, x.val, ""); }
void configuration_value_set(clingo_configuration_t *c, clingo_id_t k, char const *v) { auto &x = cn(c, k, "configuration_value_set"); need(x.type & clingo_configuration_type_value, "not a value"); need(strncmp(v, "invalid", 7) != 0, "invalid value"); x.val = v; x.assigned = true; effect("config|" + x.path + "|" + esc(v)); }
// statistics
void statistics_root(clingo_statistics_t const *s, uint64_t *k) { *k = stat_of(s, "statistics_root").root; }
void statistics_type(clingo_statistics_t const *s, uint64_t k, clingo_statistics_type_t *t) { *t = snode(stat_of(s, "statistics_type"), k, "statistics_type").type; }
static SNode &sn(clingo_statistics_t const *s, uint64_t k, int t, char const *fn) { SNode &x = snode(stat_of(s, fn), k, fn); if (x.type != t) fail(clingo_error_logic, "unexpected statistics type"); return x; }
void statistics_array_size(clingo_statistics_t const *s, uint64_t k, size_t *n) { *n = sn(s, k, clingo_statistics_type_array, "statistics_array_size").arr.size(); }
void statistics_array_at(clingo_statistics_t const *s, uint64_t k, size_t o, uint64_t *r) { auto &x = sn(s, k, clingo_statistics_type_array, "statistics_array_at"); if (o >= x.arr.size()) fail(clingo_error_logic, "invalid index"); *r = x.arr[o]; }
void statistics_array_push(clingo_statistics_t *s, uint64_t k, clingo_statistics_type_t t, uint64_t *r) { auto &x = sn(s, k, clingo_statistics_type_array, "statistics_array_push"); if (!x.mut) fail(clingo_error_logic, "not writable"); string p = x.path + "[" + std::to_string(x.arr.size()) + "]"; uint64_t n = stat_of(s, "").add(t, true, p); snode(stat_of(s, ""), k, "").arr.push_back(n); *r = n; effect(fmt("stat_push|%s|%d", p.c_str(), t)); }
void statistics_map_size(clingo_statistics_t const *s, uint64_t k, size_t *n) { *n = sn(s, k, clingo_statistics_type_map, "statistics_map_size").map.size(); }
void statistics_map_has_subkey(clingo_statistics_t const *s, uint64_t k, char const *n, bool *r) { auto &x = sn(s, k, clingo_statistics_type_map, "statistics_map_has_subkey"); *r = false; for (auto &m : x.map) *r = *r || m.first == n; }
void statistics_map_subkey_name(clingo_statistics_t const *s, uint64_t k, size_t o, char const **n) { auto &x = sn(s, k, clingo_statistics_type_map, "statistics_map_subkey_name"); if (o >= x.map.size()) fail(clingo_error_logic, "invalid index"); *n = intern(x.map[o].first); }
void statistics_map_at(clingo_statistics_t const *s, uint64_t k, char const *n, uint64_t *r) { auto &x = sn(s, k, clingo_statistics_type_map, "statistics_map_at"); for (auto &m : x.map) if (m.first == n) { *r = m.second; return; } fail(clingo_error_logic, string("key not found: ") + n); }
void statistics_map_add_subkey(clingo_statistics_t *s, uint64_t k, char const *n, clingo_statistics_type_t t, uint64_t *r) {
    auto &x = sn(s, k, clingo_statistics_type_map, "statistics_map_add_subkey"); if (!x.mut) fail(clingo_error_logic, "not writable");
    for (auto &m : x.map) if (m.first == n) { if (snode(stat_of(s, ""), m.second, "").type != t) fail(clingo_error_logic, "redefinition error"); *r = m.second; return; }
    string p = x.path.empty() ? n : x.path + "." + n; string name = n; uint64_t nk = stat_of(s, "").add(t, true, p); snode(stat_of(s, ""), k, "").map.emplace_back(name, nk); *r = nk; effect(fmt("stat_add|%s|%d", p.c_str(), t)); }
void statistics_value_get(clingo_statistics_t const *s, uint64_t k, double *v) { *v = sn(s, k, clingo_statistics_type_value, "statistics_value_get").val; }
void statistics_value_set(clingo_statistics_t *s, uint64_t k, double v) { auto &x = sn(s, k, clingo_statistics_type_value, "statistics_value_set"); if (!x.mut) fail(clingo_error_logic, "not writable"); x.val = v; effect(fmt("stat_set|%s|%.17g", x.path.c_str(), v)); }
// control
void control_new(char const *const *a, size_t n, clingo_logger_t l, void *d, unsigned lim, clingo_control_t **c) {
    vector<string> args; for (size_t i = 0; i < n; ++i) { args.push_back(a[i]); }
    string e; for (auto &x : args) e += (&x == args.data() ? "" : ",") + esc(x);
    Msg m; m.fn = l; m.data = d; m.limit = lim; m.id = take_label();
    for (auto &x : args) if (x == "--invalid") { emit(m, clingo_warning_other, "unknown option: '--invalid'"); fail(clingo_error_runtime, "In context '<libclingo>': unknown option: '--invalid'"); }
    Control *r = new_control(args, m); effect("new|" + e + fmt("|%u", lim)); emit(r->log); *c = reinterpret_cast<clingo_control_t*>(r);
}
void control_free(clingo_control_t *c) {
    if (!c) return;
    Rec *r = lookup(c); if (!r || r->kind != "control") { violation("invalid-object:control_free", "an object that is no control was freed"); return; }
    if (!r->alive) { violation("double-release:control", "a control was freed twice"); return; }
    Control *x = reinterpret_cast<Control*>(c); if (x->borrowed) { violation("borrowed-freed:control", "a borrowed control was freed"); return; }
    effect(fmt("free")); free_control(x);
}
void control_load(clingo_control_t *c, char const *f) { Control *x = ctl_of(c, "control_load"); emit(x->log); string s = f; if (s.find("missing") != string::npos) fail(clingo_error_runtime, "file could not be opened"); x->parts.push_back("file:" + s); effect("load|" + esc(s)); emit(x->log); if (!x->obs.empty()) for (uint32_t i = choose(SIM_DATA, 3); i > 0; --i) random_event(x); }
void control_load_aspif(clingo_control_t *c, char const **f, size_t n) { Control *x = ctl_of(c, "control_load_aspif"); string e; for (size_t i = 0; i < n; ++i) e += (i ? "," : "") + esc(f[i]); x->parts.push_back("aspif:" + e); effect("load_aspif|" + e); emit(x->log); }
void control_add(clingo_control_t *c, char const *name, char const *const *p, size_t n, char const *prg) { Control *x = ctl_of(c, "control_add"); emit(x->log); string e; for (size_t i = 0; i < n; ++i) e += (i ? "," : "") + esc(p[i]); if (strstr(prg, "syntax error")) { emit(x->log, clingo_warning_runtime_error, "<block>:1:1-2: error: syntax error"); fail(clingo_error_runtime, "parsing failed"); } if (script_add(x, prg)) return; effect("add|" + esc(name) + "|" + e + "|" + esc(prg)); x->parts.push_back(name); emit(x->log); }
struct GCtx { vector<clingo_symbol_t> syms; bool bad = false; bool failNow = false; Failure f; };
static bool symcb(clingo_symbol_t const *s, size_t n, void *d) {
    auto *g = static_cast<GCtx*>(d); sim::log(fmt("SYMCB %zu", n));
    EngineError e; if (should_fail("symbol_callback", e)) { Failure f; f.fn = "symbol_callback"; f.code = e.code; f.msg = e.msg; f.hasmsg = e.hasmsg; add_failure(f); set_error(e.code, e.hasmsg ? e.msg.c_str() : nullptr); return false; }
    for (size_t i = 0; i < n; ++i) { sym(s[i]); g->syms.push_back(s[i]); } return true;
}
void ground_call(Control *x, clingo_ground_callback_t cb, void *data) {
    static char const *const nm[] = {"f", "g", "h", "nosuch", "multi"}; string name = nm[choose(SIM_DATA, 5)]; vector<clingo_symbol_t> args; for (uint32_t i = 0, n = many(SIM_DATA, 4); i < n; ++i) args.push_back(rand_symbol(SIM_DATA));
    size_t bl = wideid(30), bc = wideid(9); size_t el = bl + choose(SIM_DATA, 2), ec = bc + 1 + choose(SIM_DATA, 9); string file = choose(SIM_DATA, 2) ? "<block>" : "pa th/x%s.lp", file2 = chance(SIM_DATA, 1, 4) ? "other.lp" : file;
    GCtx g; (void)x;
    callback("ground", esc(file) + "|" + esc(file2) + fmt("|%zu|%zu|%zu|%zu|", bl, el, bc, ec) + name + "|" + symlist(args.data(), args.size()), [&]() {
        char *f = Poison::str(file), *f2 = Poison::str(file2), *n = Poison::str(name); clingo_location_t loc{f, f2, bl, el, bc, ec}; Buf<clingo_symbol_t> a(args);
        bool r = cb(&loc, n, a.get(), args.size(), data, symcb, &g); memset(&loc, 0xCD, sizeof loc); Poison::kills(f); Poison::kills(f2); Poison::kills(n); return r; }, true, [&]() { return symlist(g.syms.data(), g.syms.size()); });
}
void control_ground(clingo_control_t *c, clingo_part_t const *p, size_t n, clingo_ground_callback_t cb, void *data) {
    Control *x = ctl_of(c, "control_ground"); string e; for (size_t i = 0; i < n; ++i) e += (i ? "," : "") + qpart(p[i]);
    effect("ground|" + e); emit(x->log);
    if (!x->groundedAfterSolve) { x->groundedAfterSolve = true; if (x->step) x->th = Theory(); bool inc = true; { auto *c = x; if (x->step == 0) OBS(init_program, fmt("%d", inc), (o.o.init_program(inc, o.data))); OBS(begin_step, "", (o.o.begin_step(o.data))); } }
    int events = choose(SIM_DATA, 6);
    for (int i = 0; i < events; ++i) {
        yield_point("ground");
        switch (choose(SIM_DATA, 4)) {
            case 0: if (cb) ground_call(x, cb, data); else if (expects("with ground", false)) violation("callback-absent:ground", "external functions should be passed to a callback but there is none"); break;
            case 1: random_event(x); break;
            case 2: for (uint32_t k = 0, m = many(SIM_DATA, 4); k < m; ++k) add_atom_to(x, rand_atom(SIM_DATA), chance(SIM_DATA, 1, 4), chance(SIM_DATA, 1, 3)); break;
            case 3: emit(x->log); break;
        }
    }
    script_exec(x);
    if (choose(SIM_DATA, 2)) grow_theory(x);
}
void control_cleanup(clingo_control_t *c) { ctl_of(c, "control_cleanup"); effect("cleanup"); }
void control_assign_external(clingo_control_t *c, clingo_literal_t l, clingo_truth_value_t v) { Control *x = ctl_of(c, "control_assign_external"); x->externals[l] = v; effect(fmt("assign_external|%d|%d", l, v)); obs_external(x, std::abs((int64_t)l), l < 0 && v ? 3 - v : v); }
void control_release_external(clingo_control_t *c, clingo_literal_t l) { Control *x = ctl_of(c, "control_release_external"); x->externals.erase(l); effect(fmt("release_external|%d", l)); obs_external(x, std::abs((int64_t)l), clingo_external_type_release); }
void control_remove_minimize(clingo_control_t *c) { ctl_of(c, "control_remove_minimize"); effect("remove_minimize"); }
void control_update_project(clingo_control_t *c, clingo_atom_t const *a, size_t n, bool app) { Control *x = ctl_of(c, "control_update_project"); effect("update_project|" + joinn(a, n) + fmt("|%d", app)); obs_project(x, a, n); }
void control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *data, bool seq) { Control *x = ctl_of(c, "control_register_propagator"); Prop *q = make<Prop>(); q->p = *p; q->data = data; q->sequential = seq; q->idx = x->props.size(); x->props.push_back(q); effect(fmt("register_propagator|%d%d%d%d%d", p->init != nullptr, p->propagate != nullptr, p->undo != nullptr, p->check != nullptr, p->decide != nullptr)); }
bool control_is_conflicting(clingo_control_t const *c) { try { return ctl_of(c, "control_is_conflicting")->conflicting; } catch (EngineError &) { return false; } }
void control_statistics(clingo_control_t const *c, clingo_statistics_t const **s) { Control *x = ctl_of(c, "control_statistics"); *s = reinterpret_cast<clingo_statistics_t const*>(&x->stat); }
void control_clasp_facade(clingo_control_t *c, void **f) { ctl_of(c, "control_clasp_facade"); *f = reinterpret_cast<char*>(c) + 1; }
void control_configuration(clingo_control_t *c, clingo_configuration_t **f) { Control *x = ctl_of(c, "control_configuration"); *f = reinterpret_cast<clingo_configuration_t*>(&x->conf); }
void control_set_enable_enumeration_assumption(clingo_control_t *c, bool e) { ctl_of(c, "control_set_enable_enumeration_assumption")->enumAssume = e; effect(fmt("enumeration_assumption|%d", e)); }
bool control_get_enable_enumeration_assumption(clingo_control_t *c) { return ctl_of(c, "control_get_enable_enumeration_assumption")->enumAssume; }
void control_set_enable_cleanup(clingo_control_t *c, bool e) { ctl_of(c, "control_set_enable_cleanup")->cleanup = e; effect(fmt("enable_cleanup|%d", e)); }
bool control_get_enable_cleanup(clingo_control_t *c) { return ctl_of(c, "control_get_enable_cleanup")->cleanup; }
void control_get_const(clingo_control_t const *c, char const *n, clingo_symbol_t *s) { Control *x = ctl_of(c, "control_get_const"); auto i = x->consts.find(n); *s = i == x->consts.end() ? mkfun(n, {}, true) : i->second; }
void control_has_const(clingo_control_t const *c, char const *n, bool *e) { *e = ctl_of(c, "control_has_const")->consts.count(n) > 0; }
void control_symbolic_atoms(clingo_control_t const *c, clingo_symbolic_atoms_t const **a) { *a = reinterpret_cast<clingo_symbolic_atoms_t const*>(&ctl_of(c, "control_symbolic_atoms")->hAtoms); }
void control_theory_atoms(clingo_control_t const *c, clingo_theory_atoms_t const **a) { *a = reinterpret_cast<clingo_theory_atoms_t const*>(&ctl_of(c, "control_theory_atoms")->hTheory); }
void control_register_observer(clingo_control_t *c, clingo_ground_program_observer_t const *o, bool rep, void *data) { Control *x = ctl_of(c, "control_register_observer"); Obs *b = make<Obs>(); b->o = *o; b->data = data; b->replace = rep; b->idx = x->obs.size(); x->obs.push_back(b);
    string m; for (bool v : {o->init_program != nullptr, o->begin_step != nullptr, o->end_step != nullptr, o->rule != nullptr, o->weight_rule != nullptr, o->minimize != nullptr, o->project != nullptr, o->output_atom != nullptr, o->output_term != nullptr, o->external != nullptr, o->assume != nullptr, o->heuristic != nullptr, o->acyc_edge != nullptr, o->theory_term_number != nullptr, o->theory_term_string != nullptr, o->theory_term_compound != nullptr, o->theory_element != nullptr, o->theory_atom != nullptr, o->theory_atom_with_guard != nullptr}) m += v ? '1' : '0';
    effect("register_observer|" + m + fmt("|%d", rep)); }
void control_register_backend(clingo_control_t *c, clingo_backend_type_t t, char const *f, bool r) { ctl_of(c, "control_register_backend"); effect(fmt("register_backend|%d|", (int)t) + esc(f) + fmt("|%d", r)); }
void control_backend(clingo_control_t *c, clingo_backend_t **b) { *b = reinterpret_cast<clingo_backend_t*>(&ctl_of(c, "control_backend")->hBackend); }
// backend
void backend_begin(clingo_backend_t *b) { Control *c = backend_of(b, "backend_begin", false); if (c->backendOpen) { violation("double-open:backend", "backend opened twice"); fail(clingo_error_runtime, "backend already open"); } c->backendOpen = true; effect("backend_begin"); }
void backend_end(clingo_backend_t *b) { Control *c = backend_of(b, "backend_end", false); if (!c->backendOpen) { violation("double-release:backend", "backend closed although it is not open"); fail(clingo_error_runtime, "backend not open"); } c->backendOpen = false; effect("backend_end"); if (chance(SIM_DATA, 1, 3)) random_event(c); }
void backend_rule(clingo_backend_t *b, bool ch, clingo_atom_t const *h, size_t hn, clingo_literal_t const *l, size_t n) { Control *c = backend_of(b, "backend_rule"); effect(fmt("rule|%d|", ch) + joinn(h, hn) + "|" + joinn(l, n)); obs_rule(c, ch, h, hn, l, n); }
void backend_weight_rule(clingo_backend_t *b, bool ch, clingo_atom_t const *h, size_t hn, clingo_weight_t lb, clingo_weighted_literal_t const *l, size_t n) { Control *c = backend_of(b, "backend_weight_rule"); effect(fmt("weight_rule|%d|", ch) + joinn(h, hn) + fmt("|%d|", lb) + wl(l, n)); obs_weight_rule(c, ch, h, hn, lb, l, n); }
void backend_minimize(clingo_backend_t *b, clingo_weight_t p, clingo_weighted_literal_t const *l, size_t n) { Control *c = backend_of(b, "backend_minimize"); effect(fmt("minimize|%d|", p) + wl(l, n)); obs_minimize(c, p, l, n); }
void backend_project(clingo_backend_t *b, clingo_atom_t const *a, size_t n) { Control *c = backend_of(b, "backend_project"); effect("project|" + joinn(a, n)); obs_project(c, a, n); }
void backend_external(clingo_backend_t *b, clingo_atom_t a, clingo_external_type_t t) { Control *c = backend_of(b, "backend_external"); effect(fmt("external|%u|%d", a, (int)t)); obs_external(c, a, t); }
void backend_assume(clingo_backend_t *b, clingo_literal_t const *l, size_t n) { Control *c = backend_of(b, "backend_assume"); effect("assume|" + joinn(l, n)); obs_assume(c, l, n); }
void backend_heuristic(clingo_backend_t *b, clingo_atom_t a, clingo_heuristic_type_t t, int bias, unsigned pr, clingo_literal_t const *l, size_t n) { Control *c = backend_of(b, "backend_heuristic"); effect(fmt("heuristic|%u|%d|%d|%u|", a, (int)t, bias, pr) + joinn(l, n)); obs_heuristic(c, a, t, bias, pr, l, n); }
void backend_acyc_edge(clingo_backend_t *b, int u, int v, clingo_literal_t const *l, size_t n) { Control *c = backend_of(b, "backend_acyc_edge"); effect(fmt("acyc_edge|%d|%d|", u, v) + joinn(l, n)); obs_acyc(c, u, v, l, n); }
void backend_add_atom(clingo_backend_t *b, clingo_symbol_t *s, clingo_atom_t *a) { Control *c = backend_of(b, "backend_add_atom"); if (s) { if (sym(*s).type != clingo_symbol_type_function) fail(clingo_error_runtime, "function expected"); *a = add_atom_to(c, *s, false, false); effect("add_atom|" + symstr(*s)); result(std::to_string(*a)); } else { *a = c->nextAtom++; effect("add_atom|"); result(std::to_string(*a)); } }
static clingo_id_t addterm(Control *c, TTerm t) { c->th.terms.push_back(std::move(t)); return c->th.terms.size() - 1; }
void backend_theory_term_number(clingo_backend_t *b, int n, clingo_id_t *t) { Control *c = backend_of(b, "backend_theory_term_number"); *t = addterm(c, {clingo_theory_term_type_number, n, "", {}}); effect(fmt("theory_term_number|%d", n)); result(std::to_string(*t)); }
void backend_theory_term_string(clingo_backend_t *b, char const *s, clingo_id_t *t) { Control *c = backend_of(b, "backend_theory_term_string"); *t = addterm(c, {clingo_theory_term_type_symbol, 0, s, {}}); effect("theory_term_string|" + esc(s)); result(std::to_string(*t)); }
void backend_theory_term_sequence(clingo_backend_t *b, clingo_theory_sequence_type_t y, clingo_id_t const *a, size_t n, clingo_id_t *t) { Control *c = backend_of(b, "backend_theory_term_sequence"); *t = addterm(c, {y == clingo_theory_sequence_type_tuple ? (int)clingo_theory_term_type_tuple : y == clingo_theory_sequence_type_set ? (int)clingo_theory_term_type_set : (int)clingo_theory_term_type_list, 0, "", vector<clingo_id_t>(a, a + n)}); effect(fmt("theory_term_sequence|%d|", (int)y) + joinn(a, n)); result(std::to_string(*t)); }
void backend_theory_term_function(clingo_backend_t *b, char const *s, clingo_id_t const *a, size_t n, clingo_id_t *t) { Control *c = backend_of(b, "backend_theory_term_function"); *t = addterm(c, {clingo_theory_term_type_function, 0, s, vector<clingo_id_t>(a, a + n)}); effect("theory_term_function|" + esc(s) + "|" + joinn(a, n)); result(std::to_string(*t)); }
void backend_theory_term_symbol(clingo_backend_t *b, clingo_symbol_t s, clingo_id_t *t) { Control *c = backend_of(b, "backend_theory_term_symbol"); *t = addterm(c, {clingo_theory_term_type_symbol, 0, symstr(s), {}}); effect("theory_term_symbol|" + symstr(s)); result(std::to_string(*t)); }
void backend_theory_element(clingo_backend_t *b, clingo_id_t const *u, size_t un, clingo_literal_t const *l, size_t n, clingo_id_t *e) { Control *c = backend_of(b, "backend_theory_element"); c->th.elems.push_back({vector<clingo_id_t>(u, u + un), vector<clingo_literal_t>(l, l + n), (int)c->th.elems.size() + 1}); *e = c->th.elems.size() - 1; effect("theory_element|" + joinn(u, un) + "|" + joinn(l, n)); result(std::to_string(*e)); }
void backend_theory_atom(clingo_backend_t *b, clingo_atom_t at, clingo_id_t t, clingo_id_t const *e, size_t n, clingo_atom_t *r) { Control *c = backend_of(b, "backend_theory_atom"); *r = at == 0xffffffffu ? c->nextAtom++ : at; c->th.atoms.push_back({t, vector<clingo_id_t>(e, e + n), false, "", 0, (int)*r}); effect(fmt("theory_atom|%u|%u|", at, t) + joinn(e, n)); result(std::to_string(*r)); }
void backend_theory_atom_with_guard(clingo_backend_t *b, clingo_atom_t at, clingo_id_t t, clingo_id_t const *e, size_t n, char const *op, clingo_id_t rhs, clingo_atom_t *r) { Control *c = backend_of(b, "backend_theory_atom_with_guard"); *r = at == 0xffffffffu ? c->nextAtom++ : at; c->th.atoms.push_back({t, vector<clingo_id_t>(e, e + n), true, op, rhs, (int)*r}); effect(fmt("theory_atom_with_guard|%u|%u|", at, t) + joinn(e, n) + "|" + esc(op) + fmt("|%u", rhs)); result(std::to_string(*r)); }
} // namespace impl
void end_step(Control *c) { OBS(end_step, "", (o.o.end_step(o.data))); }
void engine_reset() { g_ledger.clear(); g_nextid = 0; g_controls.clear(); g_keep.clear(); ast_reset(); app_reset(); }
void engine_final() {
    app_final();
    for (auto *c : g_controls) {
        if (c->search && !c->search->closed) violation("leak:solve-handle", "a solve handle was never closed");
        if (c->backendOpen && !c->dead) violation("leak:backend", "a backend was never closed");
        if (c->builderOpen && !c->dead) violation("leak:builder", "a program builder was never closed");
        if (!c->dead) violation("leak:control", fmt("control #%d was never freed", c->id));
    }
    ast_final();
}
} // namespace sim
using namespace sim;
extern "C" {
clingo_error_t clingo_error_code() { return cur->code; }
char const *clingo_error_message() { if (cur->code == 0 || !cur->hasmsg) return nullptr; sim::Quiet q; cur->msgout = cur->msg; return cur->msgout.c_str(); }
void clingo_set_error(clingo_error_t c, char const *m) { sim::Quiet q; sim::log(fmt("SETERR %d ", c) + esc(m)); set_error(c, m); }
char const *clingo_error_string(clingo_error_t c) { switch (c) { case 0: return "success"; case 1: return "runtime error"; case 2: return "logic error"; case 3: return "bad allocation"; case 4: return "unknown error"; } return nullptr; }
char const *clingo_warning_string(clingo_warning_t c) { static char const *const n[] = {"operation undefined", "runtime error", "atom undefined", "file included", "variable unbounded", "global variable", "other"}; return c >= 0 && c < 7 ? n[c] : "unknown message code"; }
void clingo_version(int *a, int *b, int *c) { *a = CLINGO_VERSION_MAJOR; *b = CLINGO_VERSION_MINOR; *c = CLINGO_VERSION_REVISION; }
}

extern "C" int sim_is(char const *k, void const *p) { sim::Rec *r = sim::lookup(p); return r && r->alive && r->kind == k; }
extern "C" void sim_logger_label(int l) { sim::cur->cl->label = l; }
