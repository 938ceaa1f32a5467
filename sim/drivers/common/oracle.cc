// The engine's own view of its objects as text, for the drivers that are not written in C++.
#include "clingo.h"
#include "sim.h"
#include "sim_raw.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <execinfo.h>
#include <unistd.h>
#include <functional>
#include <string>
#include <vector>
using std::string; using std::vector;
static string fmt(char const *f, ...) { char b[4096]; va_list a, c; va_start(a, f); va_copy(c, a); int n = vsnprintf(b, sizeof b, f, a); va_end(a); string r; if (n < (int)sizeof b) r = b; else { r.resize(n + 1); vsnprintf(&r[0], n + 1, f, c); r.resize(n); } va_end(c); return r; }
static string sym(clingo_symbol_t s) { size_t n = 0; if (!raw_clingo_symbol_to_string_size(s, &n) || !n) return "?"; vector<char> b(n); raw_clingo_symbol_to_string(s, b.data(), n); return b.data(); }
template <class S> static string nums(S const &s) { string r; for (auto x : s) { if (!r.empty()) r += ','; r += std::to_string(x); } return r; }
static string model(clingo_model_t const *m) {
    if (!m) return "none"; uint64_t n = 0; clingo_model_type_t t = 0; clingo_id_t th = 0; bool p = false; raw_clingo_model_number(m, &n); raw_clingo_model_type(m, &t); raw_clingo_model_thread_id(m, &th); raw_clingo_model_optimality_proven(m, &p);
    size_t k = 0; raw_clingo_model_symbols_size(m, clingo_show_type_shown, &k); vector<clingo_symbol_t> s(k + 1); raw_clingo_model_symbols(m, clingo_show_type_shown, s.data(), k); s.resize(k); string sy; for (size_t i = 0; i < k; ++i) sy += (i ? ";" : "") + sym(s[i]);
    size_t cn = 0; raw_clingo_model_cost_size(m, &cn); vector<int64_t> c(cn + 1); raw_clingo_model_cost(m, c.data(), cn); c.resize(cn);
    return fmt("%llu|%d|%u|%d|", (unsigned long long)n, t, th, p) + sy + "|" + nums(c);
}
static string terms(clingo_theory_atoms_t const *t, clingo_id_t const *a, size_t n);
static string term(clingo_theory_atoms_t const *t, clingo_id_t id) {
    clingo_theory_term_type_t y; raw_clingo_theory_atoms_term_type(t, id, &y); char const *nm = ""; clingo_id_t const *a; size_t n;
    switch (y) { case clingo_theory_term_type_number: { int x; raw_clingo_theory_atoms_term_number(t, id, &x); return fmt("%d:%d", y, x); }
        case clingo_theory_term_type_symbol: raw_clingo_theory_atoms_term_name(t, id, &nm); return fmt("%d:%s", y, nm);
        case clingo_theory_term_type_function: raw_clingo_theory_atoms_term_name(t, id, &nm); break; default: break; }
    raw_clingo_theory_atoms_term_arguments(t, id, &a, &n); return fmt("%d:%s(", y, nm) + terms(t, a, n) + ")";
}
static string terms(clingo_theory_atoms_t const *t, clingo_id_t const *a, size_t n) { string r; for (size_t i = 0; i < n; ++i) r += term(t, a[i]) + ","; return r; }
template <class P, class S> static string str(clingo_theory_atoms_t const *t, clingo_id_t i, S size, P print) { size_t n = 0; size(t, i, &n); vector<char> b(n + 1); print(t, i, b.data(), n); return b.data(); }
static string tatom(clingo_theory_atoms_t const *t, clingo_id_t i, bool condid) {
    clingo_id_t tm; raw_clingo_theory_atoms_atom_term(t, i, &tm); string r = term(t, tm) + "~" + str(t, tm, raw_clingo_theory_atoms_term_to_string_size, raw_clingo_theory_atoms_term_to_string) + "{"; clingo_id_t const *e; size_t n; raw_clingo_theory_atoms_atom_elements(t, i, &e, &n);
    for (size_t k = 0; k < n; ++k) { clingo_id_t const *a; size_t m; raw_clingo_theory_atoms_element_tuple(t, e[k], &a, &m); r += terms(t, a, m) + ":"; clingo_literal_t const *c; raw_clingo_theory_atoms_element_condition(t, e[k], &c, &m); for (size_t j = 0; j < m; ++j) r += fmt("%d,", c[j]); clingo_literal_t id = 0; if (condid) raw_clingo_theory_atoms_element_condition_id(t, e[k], &id); r += fmt("/%d", id) + "=" + str(t, e[k], raw_clingo_theory_atoms_element_to_string_size, raw_clingo_theory_atoms_element_to_string) + ";"; }
    bool g; raw_clingo_theory_atoms_atom_has_guard(t, i, &g); r += "}"; if (g) { char const *o; clingo_id_t x; raw_clingo_theory_atoms_atom_guard(t, i, &o, &x); r += string(o) + term(t, x) + "~" + str(t, x, raw_clingo_theory_atoms_term_to_string_size, raw_clingo_theory_atoms_term_to_string); } clingo_literal_t l; raw_clingo_theory_atoms_atom_literal(t, i, &l);
    return r + fmt("@%d=", l) + str(t, i, raw_clingo_theory_atoms_atom_to_string_size, raw_clingo_theory_atoms_atom_to_string);
}
// configurations as scripts see them: a value hides the entries below it
static string cval(clingo_configuration_t const *c, clingo_id_t k) { bool a = false; raw_clingo_configuration_value_is_assigned(c, k, &a); if (!a) return "<None>"; size_t n; raw_clingo_configuration_value_get_size(c, k, &n); vector<char> b(n + 1); raw_clingo_configuration_value_get(c, k, b.data(), n); return string("<") + b.data() + ">"; }
static string conf(clingo_configuration_t const *c, clingo_id_t k, bool top) {
    clingo_configuration_type_bitset_t t; raw_clingo_configuration_type(c, k, &t); string r; if (!top && t & clingo_configuration_type_value) return cval(c, k);
    if (t & clingo_configuration_type_array) { size_t n; raw_clingo_configuration_array_size(c, k, &n); r += "["; for (size_t i = 0; i < n; ++i) { clingo_id_t x; raw_clingo_configuration_array_at(c, k, i, &x); r += conf(c, x, true) + ","; } r += "]"; }
    if (t & clingo_configuration_type_map) { size_t n; raw_clingo_configuration_map_size(c, k, &n); r += "{"; for (size_t i = 0; i < n; ++i) { char const *nm; raw_clingo_configuration_map_subkey_name(c, k, i, &nm); string name = nm; clingo_id_t x; raw_clingo_configuration_map_at(c, k, name.c_str(), &x); char const *d; raw_clingo_configuration_description(c, x, &d); string desc = d; r += name + "(" + desc + ")=" + conf(c, x, false) + ","; } r += "}"; }
    return r;
}
static string stat(clingo_statistics_t const *s, uint64_t k) {
    clingo_statistics_type_t t = 0; if (!raw_clingo_statistics_type(s, k, &t)) return "?";
    switch (t) {
        case clingo_statistics_type_value: { double v; raw_clingo_statistics_value_get(s, k, &v); return fmt("%.17g", v); }
        case clingo_statistics_type_array: { size_t n; raw_clingo_statistics_array_size(s, k, &n); string r = "["; for (size_t i = 0; i < n; ++i) { uint64_t x; raw_clingo_statistics_array_at(s, k, i, &x); r += (i ? "," : "") + stat(s, x); } return r + "]"; }
        case clingo_statistics_type_map: { size_t n; raw_clingo_statistics_map_size(s, k, &n); string r = "{"; for (size_t i = 0; i < n; ++i) { char const *nm; raw_clingo_statistics_map_subkey_name(s, k, i, &nm); string name = nm; uint64_t x; raw_clingo_statistics_map_at(s, k, name.c_str(), &x); r += (i ? "," : "") + name + ":" + stat(s, x); } return r + "}"; }
    }
    return "-";
}
static string satom(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t it) { clingo_symbol_t s; clingo_literal_t l; bool f, e; raw_clingo_symbolic_atoms_symbol(a, it, &s); raw_clingo_symbolic_atoms_literal(a, it, &l); raw_clingo_symbolic_atoms_is_fact(a, it, &f); raw_clingo_symbolic_atoms_is_external(a, it, &e); return sym(s) + fmt("/%d%d%d,", l, f, e); }
static void each(clingo_symbolic_atoms_t const *a, clingo_signature_t const *s, std::function<bool(clingo_symbolic_atom_iterator_t)> f) { clingo_symbolic_atom_iterator_t it; raw_clingo_symbolic_atoms_begin(a, s, &it); for (;;) { bool v; raw_clingo_symbolic_atoms_is_valid(a, it, &v); if (!v || !f(it)) break; raw_clingo_symbolic_atoms_next(a, it, &it); } }
static string oracle_ast(string const &w, clingo_ast_t *n, int64_t a, int64_t b, char const *s) { // a: attribute | index << 8
    int at = (int)(a & 255); size_t i = (size_t)(a >> 8); clingo_ast_t *x = reinterpret_cast<clingo_ast_t *>(b); clingo_ast_type_t ty = 0; raw_clingo_ast_get_type(n, &ty); auto const &c = g_clingo_ast_constructors.constructors[ty];
    auto p = [](clingo_ast_t *y) { string r = fmt("%llu", (unsigned long long)(uintptr_t)y); raw_clingo_ast_release(y); return r; };
    if (w == "ast.type") return fmt("%d", ty);
    if (w == "ast.attrs") { string r; for (size_t k = 0; k < c.size; ++k) r += fmt("%s%s:%d:%d", k ? "," : "", g_clingo_ast_attribute_names.names[c.arguments[k].attribute], (int)c.arguments[k].attribute, (int)c.arguments[k].type); return r; }
    if (w == "ast.size") { size_t k = 0; if (b) raw_clingo_ast_attribute_size_string_array(n, at, &k); else raw_clingo_ast_attribute_size_ast_array(n, at, &k); return fmt("%zu", k); }
    if (w == "ast.at") { clingo_ast_t *y = nullptr; raw_clingo_ast_attribute_get_ast_at(n, at, i, &y); return p(y); }
    if (w == "ast.sat") { char const *y = ""; raw_clingo_ast_attribute_get_string_at(n, at, i, &y); return y; }
    if (w == "ast.get") { clingo_ast_t *y = nullptr; if (b) raw_clingo_ast_attribute_get_optional_ast(n, at, &y); else raw_clingo_ast_attribute_get_ast(n, at, &y); return y ? p(y) : "0"; }
    if (w == "ast.deep") { clingo_ast_t *y = nullptr; raw_clingo_ast_deep_copy(n, &y); return fmt("%llu", (unsigned long long)(uintptr_t)y); }
    if (w == "ast.release") { raw_clingo_ast_release(n); return ""; }
    if (w == "ast.cmp") return fmt("%d%d", raw_clingo_ast_equal(n, x), raw_clingo_ast_less_than(n, x));
    if (w == "ast.hash") return fmt("%zu", raw_clingo_ast_hash(n));
    bool ok = false;
    if (w == "ast.set.number") ok = raw_clingo_ast_attribute_set_number(n, at, (int)b); else if (w == "ast.set.symbol") ok = raw_clingo_ast_attribute_set_symbol(n, at, (clingo_symbol_t)b); else if (w == "ast.set.string") ok = raw_clingo_ast_attribute_set_string(n, at, s);
    else if (w == "ast.set.location") { vector<string> v(1); for (char const *q = s; *q; ++q) if (*q == '\x1f') v.emplace_back(); else v.back() += *q; clingo_location_t l{v[0].c_str(), v[3].c_str(), std::stoul(v[1]), std::stoul(v[4]), std::stoul(v[2]), std::stoul(v[5])}; ok = raw_clingo_ast_attribute_set_location(n, at, &l); }
    else if (w == "ast.set.ast") ok = raw_clingo_ast_attribute_set_ast(n, at, x); else if (w == "ast.set.optional") ok = raw_clingo_ast_attribute_set_optional_ast(n, at, x);
    else if (w == "ast.del") ok = s ? raw_clingo_ast_attribute_delete_string_at(n, at, i) : raw_clingo_ast_attribute_delete_ast_at(n, at, i); else if (w == "ast.ins") ok = s ? raw_clingo_ast_attribute_insert_string_at(n, at, i, s) : raw_clingo_ast_attribute_insert_ast_at(n, at, i, x);
    else return "unknown oracle " + w;
    return ok ? "1" : "0";
}
static string oracle(string const &w, void *p, int64_t a, int64_t b, char const *s) {
    auto *ctl = static_cast<clingo_control_t *>(p); auto *m = static_cast<clingo_model_t *>(p); auto *as = static_cast<clingo_assignment_t *>(p); auto *in = static_cast<clingo_propagate_init_t *>(p); auto *pc = static_cast<clingo_propagate_control_t *>(p);
    if (w.compare(0, 4, "ast.") == 0) return oracle_ast(w, static_cast<clingo_ast_t *>(p), a, b, s);
    if (w == "sym") return sym((clingo_symbol_t)a);
    if (w == "sym.type") return fmt("%d", raw_clingo_symbol_type((clingo_symbol_t)a));
    if (w == "sym.hash") return fmt("%zu", raw_clingo_symbol_hash((clingo_symbol_t)a));
    if (w == "sym.cmp") return fmt("%d%d", raw_clingo_symbol_is_equal_to((clingo_symbol_t)a, (clingo_symbol_t)b), raw_clingo_symbol_is_less_than((clingo_symbol_t)a, (clingo_symbol_t)b));
    if (w.compare(0, 3, "mk.") == 0) {
        clingo_symbol_t r = 0;
        if (w == "mk.number") raw_clingo_symbol_create_number((int)a, &r); else if (w == "mk.string") raw_clingo_symbol_create_string(s, &r); else if (w == "mk.inf") raw_clingo_symbol_create_infimum(&r); else if (w == "mk.sup") raw_clingo_symbol_create_supremum(&r); else raw_clingo_symbol_create_function(s, static_cast<clingo_symbol_t const *>(p), (size_t)a, b != 0, &r);
        return fmt("%llu", (unsigned long long)r);
    }
    if (w == "sym.parts") { // number|string|name|sign|arguments of a symbol, "-" where it has none
        int n; char const *t; bool pos; clingo_symbol_t const *x; size_t k; string r = raw_clingo_symbol_number((clingo_symbol_t)a, &n) ? fmt("%d", n) : "-"; r += "\x1f"; r += raw_clingo_symbol_string((clingo_symbol_t)a, &t) ? string("s") + t : "-"; r += "\x1f"; r += raw_clingo_symbol_name((clingo_symbol_t)a, &t) ? string("n") + t : "-"; r += "\x1f"; r += raw_clingo_symbol_is_positive((clingo_symbol_t)a, &pos) ? (pos ? "1" : "0") : "-"; r += "\x1f";
        if (raw_clingo_symbol_arguments((clingo_symbol_t)a, &x, &k)) for (size_t i = 0; i < k; ++i) r += (i ? ";" : "") + sym(x[i]); else r += "-"; return r;
    }
    if (w == "parse_term") { clingo_symbol_t r = 0; sim_logger_label(-9); if (!raw_clingo_parse_term(s, nullptr, nullptr, 0, &r)) return ""; return sym(r); }
    if (w.compare(0, 5, "satom") == 0) {
        clingo_symbolic_atoms_t const *t; raw_clingo_control_symbolic_atoms(ctl, &t); string r;
        if (w == "satoms") { each(t, nullptr, [&](clingo_symbolic_atom_iterator_t i) { r += satom(t, i); return true; }); return r; }
        if (w == "satoms.lits") { each(t, nullptr, [&](clingo_symbolic_atom_iterator_t i) { clingo_literal_t l; raw_clingo_symbolic_atoms_literal(t, i, &l); r += fmt("%d,", l); return true; }); return r; }
        if (w == "satoms.sig") { clingo_signature_t g; if (!raw_clingo_signature_create(s, (uint32_t)a, b != 0, &g)) return "?"; each(t, &g, [&](clingo_symbolic_atom_iterator_t i) { r += satom(t, i); return true; }); return r; }
        if (w == "satoms.size") { size_t n; raw_clingo_symbolic_atoms_size(t, &n); return fmt("%zu", n); }
        if (w == "satoms.nth") { int64_t k = 0; each(t, nullptr, [&](clingo_symbolic_atom_iterator_t i) { if (k++ < a) return true; clingo_symbol_t x; raw_clingo_symbolic_atoms_symbol(t, i, &x); r = fmt("%llu", (unsigned long long)x); return false; }); return r; }
        if (w == "satoms.sigs") { size_t n; raw_clingo_symbolic_atoms_signatures_size(t, &n); vector<clingo_signature_t> v(n + 1); raw_clingo_symbolic_atoms_signatures(t, v.data(), n); v.resize(n); for (auto x : v) r += fmt("%s/%u%d,", raw_clingo_signature_name(x), raw_clingo_signature_arity(x), raw_clingo_signature_is_positive(x)); return r; }
        clingo_symbolic_atom_iterator_t j; bool v; raw_clingo_symbolic_atoms_find(t, (clingo_symbol_t)a, &j); raw_clingo_symbolic_atoms_is_valid(t, j, &v); if (!v) return "";
        if (w == "satom") return satom(t, j);
        if (w == "satom.lit") { clingo_literal_t l; raw_clingo_symbolic_atoms_literal(t, j, &l); return fmt("%d", l); }
    }
    if (w.compare(0, 5, "tatom") == 0) {
        clingo_theory_atoms_t const *t; raw_clingo_control_theory_atoms(ctl, &t); size_t n; raw_clingo_theory_atoms_size(t, &n); if (w == "tatoms.size") return fmt("%zu", n);
        string r; for (size_t i = 0; i < n; ++i) r += tatom(t, i, a != 0) + "\n"; return r;
    }
    if (w == "const") { bool h; raw_clingo_control_has_const(ctl, s, &h); clingo_symbol_t r; if (!h) return ""; raw_clingo_control_get_const(ctl, s, &r); return sym(r); }
    if (w == "const.any") { clingo_symbol_t r; raw_clingo_control_get_const(ctl, s, &r); return sym(r); }
    if (w == "flags") return fmt("%d%d%d", raw_clingo_control_is_conflicting(ctl), raw_clingo_control_get_enable_cleanup(ctl), raw_clingo_control_get_enable_enumeration_assumption(ctl));
    if (w == "conf") { clingo_configuration_t *c; raw_clingo_control_configuration(ctl, &c); clingo_id_t k; raw_clingo_configuration_root(c, &k); return conf(c, k, true); }
    if (w == "conf.solvers") { clingo_configuration_t *c; raw_clingo_control_configuration(ctl, &c); clingo_id_t k, x; raw_clingo_configuration_root(c, &k); raw_clingo_configuration_map_at(c, k, "solver", &x); size_t n = 0; raw_clingo_configuration_array_size(c, x, &n); return fmt("%zu", n); }
    if (w == "stats") { clingo_statistics_t const *r = nullptr; if (!raw_clingo_control_statistics(ctl, &r)) return "?"; uint64_t k; raw_clingo_statistics_root(r, &k); return stat(r, k); }
    if (w == "ustats") { auto *r = static_cast<clingo_statistics_t *>(p); uint64_t k; raw_clingo_statistics_root(r, &k); return stat(r, k); }
    if (w == "ustats.root") { uint64_t k; raw_clingo_statistics_root(static_cast<clingo_statistics_t *>(p), &k); return fmt("%llu", (unsigned long long)k); }
    if (w == "model") return model(m);
    if (w == "model.symbols") { size_t n = 0; raw_clingo_model_symbols_size(m, (clingo_show_type_bitset_t)a, &n); vector<clingo_symbol_t> v(n + 1); raw_clingo_model_symbols(m, (clingo_show_type_bitset_t)a, v.data(), n); string r; for (size_t i = 0; i < n; ++i) r += (i ? ";" : "") + sym(v[i]); return r; }
    if (w == "model.contains") { bool r; raw_clingo_model_contains(m, (clingo_symbol_t)a, &r); return fmt("%d", r); }
    if (w == "model.is_true") { bool r; raw_clingo_model_is_true(m, (int)a, &r); return fmt("%d", r); }
    if (w == "model.consequence") { clingo_consequence_t r; raw_clingo_model_is_consequence(m, (int)a, &r); return r == clingo_consequence_true ? "True" : r == clingo_consequence_false ? "False" : "None"; }
    if (w == "model.priority") { size_t n = 0; raw_clingo_model_cost_size(m, &n); vector<clingo_weight_t> v(n + 1); raw_clingo_model_priority(m, v.data(), n); v.resize(n); return nums(v); }
    if (w == "model.cost") { size_t n = 0; raw_clingo_model_cost_size(m, &n); vector<int64_t> v(n + 1); raw_clingo_model_cost(m, v.data(), n); v.resize(n); return nums(v); }
    if (w == "ass.size") return fmt("%zu", raw_clingo_assignment_size(as));
    if (w == "ass.dl") return fmt("%u", raw_clingo_assignment_decision_level(as));
    if (w == "ass.value") { clingo_truth_value_t y = 0; raw_clingo_assignment_truth_value(as, (int)a, &y); return y == clingo_truth_value_true ? "True" : y == clingo_truth_value_false ? "False" : "None"; }
    if (w == "ass.level") { uint32_t y = 0; raw_clingo_assignment_level(as, (int)a, &y); return fmt("%u", y); }
    if (w == "ass.decision") { clingo_literal_t y = 0; raw_clingo_assignment_decision(as, (uint32_t)a, &y); return fmt("%d", y); }
    if (w == "ass.fixed") { bool y; raw_clingo_assignment_is_fixed(as, (int)a, &y); return fmt("%d", y); }
    if (w == "ass.true") { bool y; raw_clingo_assignment_is_true(as, (int)a, &y); return fmt("%d", y); }
    if (w == "ass.false") { bool y; raw_clingo_assignment_is_false(as, (int)a, &y); return fmt("%d", y); }
    if (w == "ass.list") { string r; size_t n = raw_clingo_assignment_size(as); for (size_t i = 0; i < n; ++i) { clingo_literal_t y; raw_clingo_assignment_at(as, i, &y); r += fmt("%d,", y); } return r; }
    if (w == "ass.info") return fmt("%u,%u,%d,%zu,%d,%d,%d", raw_clingo_assignment_decision_level(as), raw_clingo_assignment_root_level(as), raw_clingo_assignment_has_conflict(as), raw_clingo_assignment_size(as), raw_clingo_assignment_is_total(as), raw_clingo_assignment_has_literal(as, (int)a), raw_clingo_assignment_has_literal(as, (int)b));
    if (w == "trail") { string r; uint32_t n; raw_clingo_assignment_trail_size(as, &n); for (uint32_t i = 0; i < n; ++i) { clingo_literal_t y; raw_clingo_assignment_trail_at(as, i, &y); r += fmt("%d,", y); } return r; }
    if (w == "trail.level") { string r; uint32_t x = 0, e = 0; raw_clingo_assignment_trail_begin(as, (uint32_t)a, &x); raw_clingo_assignment_trail_end(as, (uint32_t)a, &e); return fmt("%u-%u", x, e); }
    if (w == "init.threads") return fmt("%d", raw_clingo_propagate_init_number_of_threads(in));
    if (w == "init.check_mode") return fmt("%d", (int)raw_clingo_propagate_init_get_check_mode(in));
    if (w == "init.undo_mode") return fmt("%d", (int)raw_clingo_propagate_init_get_undo_mode(in));
    if (w == "init.solver_literal") { clingo_literal_t y = 0; raw_clingo_propagate_init_solver_literal(in, (int)a, &y); return fmt("%d", y); }
    if (w == "ctl.thread") return fmt("%u", raw_clingo_propagate_control_thread_id(pc));
    if (w == "ctl.has_watch") return fmt("%d", raw_clingo_propagate_control_has_watch(pc, (int)a));
    return "unknown oracle " + w;
}
extern "C" char const *orc(char const *what, void *p, int64_t a, int64_t b, char const *s) { thread_local string r; r = oracle(what, p, a, b, s); return r.c_str(); }
// leaves the choices made so far for the replay when the worker crashes
static string g_save;
static void crashed(int sig) {
    static int once = 0; if (once++) _exit(128 + sig);
    void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2);
    if (!g_save.empty()) sim_save(g_save.c_str());
    signal(sig, SIG_DFL); raise(sig); _exit(128 + sig);
}
extern "C" void orc_crash(char const *save) { g_save = save; for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, crashed); }
