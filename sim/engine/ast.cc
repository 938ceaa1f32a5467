// AST nodes: reference counted engine objects with a ledger
#include "engine.hh"
#include <algorithm>
#include <cstdarg>
namespace sim {
struct Node;
struct Loc { string bf, ef; size_t bl, el, bc, ec; };
struct Val { int type = 0; int num = 0; clingo_symbol_t sym = 0; Loc loc; string str; Node *ast = nullptr; vector<string> strs; vector<Node*> asts; };
struct Node { int type; int refs = 1; bool dead = false; int id; vector<std::pair<int, Val>> at; };
static vector<std::unique_ptr<Node>> g_nodes; static std::set<Node const*> g_live, g_all; static std::set<void const*> g_builders;
static clingo_ast_t *C(Node *n) { return reinterpret_cast<clingo_ast_t*>(n); }
static Node *mknode(int type) { g_nodes.push_back(std::make_unique<Node>()); Node *n = g_nodes.back().get(); n->type = type; n->id = g_nodes.size(); g_live.insert(n); g_all.insert(n); return n; }
static void inc(Node *n) { if (n) n->refs++; }
static void dec(Node *n) {
    if (!n) return; if (n->dead) { violation("double-release:ast", fmt("ast node #%d was released more often than acquired", n->id)); return; }
    if (--n->refs == 0) { n->dead = true; g_live.erase(n); for (auto &a : n->at) { dec(a.second.ast); for (auto *c : a.second.asts) dec(c); a.second.ast = nullptr; a.second.asts.clear(); } }
}
static Node *node_of(clingo_ast_t *a, char const *fn, bool null = false) {
    if (!a && null) return nullptr; Node *n = reinterpret_cast<Node*>(a);
    if (!n || !g_all.count(n)) { violation(string("invalid-object:") + fn, fmt("%s was called with %s instead of an ast node", fn, n ? "an object that is none" : "a null pointer")); fail(clingo_error_logic, "invalid ast"); }
    if (n->dead) { violation(string("use-after-release:") + fn, fmt("%s uses ast node #%d after it was released", fn, n->id)); fail(clingo_error_logic, "released ast"); }
    return n;
}
static string nodestr(Node const *n, bool loc) {
    if (!n) return "none"; string r = string(g_clingo_ast_constructors.constructors[n->type].name) + "("; bool first = true;
    for (auto &a : n->at) {
        if (a.second.type == clingo_ast_attribute_type_location && !loc) continue;
        if (!first) r += ", "; first = false; r += g_clingo_ast_attribute_names.names[a.first]; r += '='; Val const &v = a.second;
        switch (v.type) {
            case clingo_ast_attribute_type_number: r += std::to_string(v.num); break; case clingo_ast_attribute_type_symbol: r += symstr(v.sym); break;
            case clingo_ast_attribute_type_location: r += v.loc.bf + fmt(":%zu:%zu-", v.loc.bl, v.loc.bc) + v.loc.ef + fmt(":%zu:%zu", v.loc.el, v.loc.ec); break;
            case clingo_ast_attribute_type_string: r += "'" + v.str + "'"; break;
            case clingo_ast_attribute_type_ast: case clingo_ast_attribute_type_optional_ast: r += nodestr(v.ast, loc); break;
            case clingo_ast_attribute_type_string_array: { r += '['; for (size_t i = 0; i < v.strs.size(); ++i) r += (i ? ", '" : "'") + v.strs[i] + "'"; r += ']'; break; }
            default: { r += '['; for (size_t i = 0; i < v.asts.size(); ++i) { if (i) r += ", "; r += nodestr(v.asts[i], loc); } r += ']'; }
        }
    }
    return r + ")";
}
static Loc rand_loc() { static char const *const f[] = {"<string>", "a b.lp", "x%s"}; Loc l; l.bf = f[choose(SIM_DATA, 3)]; l.ef = chance(SIM_DATA, 1, 4) ? f[choose(SIM_DATA, 3)] : l.bf; l.bl = wideid(99); l.bc = wideid(30); l.el = l.bl + choose(SIM_DATA, 3); l.ec = l.bc + 1 + choose(SIM_DATA, 9); return l; }
static int rterm() { static int const t[] = {clingo_ast_type_symbolic_term, clingo_ast_type_variable, clingo_ast_type_function, clingo_ast_type_binary_operation, clingo_ast_type_unary_operation, clingo_ast_type_pool, clingo_ast_type_interval}; return t[choose(SIM_DATA, 7)]; }
static Node *rand_node(int type, int depth, Loc const &loc);
static Node *rand_child(int parent, int attr, int depth, Loc const &loc) {
    int t;
    if (depth <= 0) { t = choose(SIM_DATA, 2) ? clingo_ast_type_variable : clingo_ast_type_symbolic_term; return rand_node(t, 0, loc); }
    switch (attr) {
        case clingo_ast_attribute_body: case clingo_ast_attribute_head: case clingo_ast_attribute_condition: case clingo_ast_attribute_literal: { static int const b[] = {clingo_ast_type_literal, clingo_ast_type_literal, clingo_ast_type_aggregate, clingo_ast_type_theory_atom, clingo_ast_type_conditional_literal}; t = attr == clingo_ast_attribute_literal ? (int)clingo_ast_type_literal : b[choose(SIM_DATA, 5)]; break; }
        case clingo_ast_attribute_atom: t = choose(SIM_DATA, 3) ? clingo_ast_type_symbolic_atom : choose(SIM_DATA, 2) ? clingo_ast_type_comparison : clingo_ast_type_boolean_constant; break;
        case clingo_ast_attribute_guards: case clingo_ast_attribute_left_guard: case clingo_ast_attribute_right_guard: t = clingo_ast_type_guard; break;
        case clingo_ast_attribute_guard: t = parent == clingo_ast_type_theory_atom_definition ? clingo_ast_type_theory_guard_definition : clingo_ast_type_theory_guard; break;
        case clingo_ast_attribute_parameters: t = clingo_ast_type_id; break;
        case clingo_ast_attribute_symbol: t = clingo_ast_type_function; break;
        case clingo_ast_attribute_elements: t = parent == clingo_ast_type_theory_atom ? clingo_ast_type_theory_atom_element : parent == clingo_ast_type_body_aggregate ? clingo_ast_type_body_aggregate_element : parent == clingo_ast_type_theory_unparsed_term ? clingo_ast_type_theory_unparsed_term_element : clingo_ast_type_conditional_literal; break;
        case clingo_ast_attribute_terms: t = parent == clingo_ast_type_theory_atom_element ? (choose(SIM_DATA, 2) ? clingo_ast_type_theory_function : clingo_ast_type_theory_unparsed_term) : parent == clingo_ast_type_theory_definition ? clingo_ast_type_theory_term_definition : rterm(); break;
        case clingo_ast_attribute_atoms: t = clingo_ast_type_theory_atom_definition; break;
        case clingo_ast_attribute_operators: t = clingo_ast_type_theory_operator_definition; break;
        default: t = rterm();
    }
    return rand_node(t, depth - 1, loc);
}
static Node *rand_node(int type, int depth, Loc const &loc) {
    auto const &c = g_clingo_ast_constructors.constructors[type]; vector<std::pair<int, Val>> at;
    static char const *const names[] = {"p", "x", "", "long_name", "%s%n", "\xc3\xa4"};
    for (size_t i = 0; i < c.size; ++i) {
        Val v; v.type = c.arguments[i].type; int a = c.arguments[i].attribute;
        switch (v.type) {
            case clingo_ast_attribute_type_number: v.num = choose(SIM_DATA, 3); break; case clingo_ast_attribute_type_symbol: v.sym = rand_symbol(SIM_DATA, 1); break; case clingo_ast_attribute_type_location: v.loc = loc; break;
            case clingo_ast_attribute_type_string: v.str = names[choose(SIM_DATA, 6)]; break; case clingo_ast_attribute_type_ast: v.ast = rand_child(type, a, depth, loc); break;
            case clingo_ast_attribute_type_optional_ast: if (choose(SIM_DATA, 2)) v.ast = rand_child(type, a, depth, loc); break;
            case clingo_ast_attribute_type_string_array: for (uint32_t k = 0, n = many(SIM_DATA, 4); k < n; ++k) v.strs.push_back(names[choose(SIM_DATA, 6)]); break;
            default: for (uint32_t k = 0, n = depth > 0 ? many(SIM_DATA, 4) : 0; k < n; ++k) v.asts.push_back(rand_child(type, a, depth, loc));
        }
        at.emplace_back(a, std::move(v));
    }
    Node *n = mknode(type); n->at = std::move(at); return n;
}
static Val &attr(clingo_ast_t *a, int at, int type, char const *fn) {
    Node *n = node_of(a, fn); for (auto &x : n->at) if (x.first == at) { if (type >= 0 && x.second.type != type) fail(clingo_error_runtime, "bad_variant_access"); return x.second; }
    fail(clingo_error_runtime, fmt("ast '%s' does not have attribute '%s'", g_clingo_ast_constructors.constructors[n->type].name, at >= 0 && (size_t)at < g_clingo_ast_attribute_names.size ? g_clingo_ast_attribute_names.names[at] : "?"));
}
static Node *deepcopy(Node *n) { if (!n) return nullptr; vector<std::pair<int, Val>> at = n->at; for (auto &x : at) { if (x.second.ast) x.second.ast = deepcopy(x.second.ast); for (auto *&c : x.second.asts) c = deepcopy(c); } Node *r = mknode(n->type); r->at = std::move(at); return r; }
static Node *shallow(Node *n) { Node *r = mknode(n->type); r->at = n->at; for (auto &x : r->at) { inc(x.second.ast); for (auto *c : x.second.asts) inc(c); } return r; }
static clingo_location_t cloc(Loc const &l) { return clingo_location_t{intern(l.bf), intern(l.ef), l.bl, l.el, l.bc, l.ec}; }
static Loc lloc(clingo_location_t const *l) { return Loc{l->begin_file, l->end_file, l->begin_line, l->end_line, l->begin_column, l->end_column}; }
static string nid(clingo_ast_t *a) { return std::to_string(reinterpret_cast<Node*>(a)->id); }
static void bounds(size_t i, size_t n, char const *fn) { if (i >= n) { violation(string("out-of-range:") + fn, fmt("%s was called with index %zu of a sequence of length %zu", fn, i, n)); fail(clingo_error_logic, "index out of range"); } }
namespace impl {
void ast_acquire(clingo_ast_t *a) { try { inc(node_of(a, "ast_acquire")); } catch (EngineError &) {} }
void ast_release(clingo_ast_t *a) { Node *n = reinterpret_cast<Node*>(a); if (!n || !g_all.count(n)) { violation("invalid-object:ast_release", "an object that is no ast node was released"); return; } dec(n); }
void ast_copy(clingo_ast_t *a, clingo_ast_t **c) { *c = C(shallow(node_of(a, "ast_copy"))); }
void ast_deep_copy(clingo_ast_t *a, clingo_ast_t **c) { *c = C(deepcopy(node_of(a, "ast_deep_copy"))); }
bool ast_less_than(clingo_ast_t *a, clingo_ast_t *b) { try { return nodestr(node_of(a, "ast_less_than"), false) < nodestr(node_of(b, "ast_less_than"), false); } catch (EngineError &) { return false; } }
bool ast_equal(clingo_ast_t *a, clingo_ast_t *b) { try { return nodestr(node_of(a, "ast_equal"), false) == nodestr(node_of(b, "ast_equal"), false); } catch (EngineError &) { return false; } }
size_t ast_hash(clingo_ast_t *a) { try { return std::hash<string>()(nodestr(node_of(a, "ast_hash"), false)); } catch (EngineError &) { return 0; } }
void ast_to_string_size(clingo_ast_t *a, size_t *n) { *n = nodestr(node_of(a, "ast_to_string_size"), false).size() + 1; }
void ast_to_string(clingo_ast_t *a, char *s, size_t n) { string r = nodestr(node_of(a, "ast_to_string"), false); if (n < r.size() + 1) fail(clingo_error_runtime, "string too long"); memcpy(s, r.c_str(), r.size() + 1); }
void ast_get_type(clingo_ast_t *a, clingo_ast_type_t *t) { *t = node_of(a, "ast_get_type")->type; }
void ast_has_attribute(clingo_ast_t *a, clingo_ast_attribute_t at, bool *h) { *h = false; for (auto &x : node_of(a, "ast_has_attribute")->at) *h = *h || x.first == at; }
void ast_attribute_type(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_ast_attribute_type_t *t) { *t = attr(a, at, -1, "ast_attribute_type").type; }
#define T(x) clingo_ast_attribute_type_##x
#define EFF(what, ...) effect("ast_" what "|" + nid(a) + "|" + g_clingo_ast_attribute_names.names[at] + fmt(__VA_ARGS__))
void ast_attribute_get_number(clingo_ast_t *a, clingo_ast_attribute_t at, int *v) { *v = attr(a, at, T(number), "ast_attribute_get_number").num; }
void ast_attribute_set_number(clingo_ast_t *a, clingo_ast_attribute_t at, int v) { attr(a, at, T(number), "ast_attribute_set_number").num = v; EFF("set", "|%d", v); }
void ast_attribute_get_symbol(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_symbol_t *v) { *v = attr(a, at, T(symbol), "ast_attribute_get_symbol").sym; }
void ast_attribute_set_symbol(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_symbol_t v) { auto &x = attr(a, at, T(symbol), "ast_attribute_set_symbol"); symstr(v); x.sym = v; EFF("set", "|") ; }
void ast_attribute_get_location(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_location_t *v) { *v = cloc(attr(a, at, T(location), "ast_attribute_get_location").loc); }
void ast_attribute_set_location(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_location_t const *v) { attr(a, at, T(location), "ast_attribute_set_location").loc = lloc(v); EFF("set", "|"); }
void ast_attribute_get_string(clingo_ast_t *a, clingo_ast_attribute_t at, char const **v) { *v = intern(attr(a, at, T(string), "ast_attribute_get_string").str); }
void ast_attribute_set_string(clingo_ast_t *a, clingo_ast_attribute_t at, char const *v) { attr(a, at, T(string), "ast_attribute_set_string").str = v; EFF("set", "|"); }
void ast_attribute_get_ast(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_ast_t **v) { auto &x = attr(a, at, T(ast), "ast_attribute_get_ast"); inc(x.ast); *v = C(x.ast); }
void ast_attribute_set_ast(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_ast_t *v) { if (!v) fail(clingo_error_runtime, "ast must not be null"); auto &x = attr(a, at, T(ast), "ast_attribute_set_ast"); Node *n = node_of(v, "ast_attribute_set_ast"); inc(n); dec(x.ast); x.ast = n; EFF("set", "|"); }
void ast_attribute_get_optional_ast(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_ast_t **v) { auto &x = attr(a, at, T(optional_ast), "ast_attribute_get_optional_ast"); inc(x.ast); *v = C(x.ast); }
void ast_attribute_set_optional_ast(clingo_ast_t *a, clingo_ast_attribute_t at, clingo_ast_t *v) { auto &x = attr(a, at, T(optional_ast), "ast_attribute_set_optional_ast"); Node *n = node_of(v, "ast_attribute_set_optional_ast", true); inc(n); dec(x.ast); x.ast = n; EFF("set", "|"); }
void ast_attribute_get_string_at(clingo_ast_t *a, clingo_ast_attribute_t at, size_t i, char const **v) { auto &x = attr(a, at, T(string_array), "ast_attribute_get_string_at"); if (i >= x.strs.size()) fail(clingo_error_logic, "vector::at"); *v = intern(x.strs[i]); }
void ast_attribute_set_string_at(clingo_ast_t *a, clingo_ast_attribute_t at, size_t i, char const *v) { auto &x = attr(a, at, T(string_array), "ast_attribute_set_string_at"); bounds(i, x.strs.size(), "ast_attribute_set_string_at"); x.strs[i] = v; EFF("set", "|%zu", i); }
void ast_attribute_delete_string_at(clingo_ast_t *a, clingo_ast_attribute_t at, size_t i) { auto &x = attr(a, at, T(string_array), "ast_attribute_delete_string_at"); bounds(i, x.strs.size(), "ast_attribute_delete_string_at"); x.strs.erase(x.strs.begin() + i); EFF("del", "|%zu", i); }
void ast_attribute_size_string_array(clingo_ast_t *a, clingo_ast_attribute_t at, size_t *n) { *n = attr(a, at, T(string_array), "ast_attribute_size_string_array").strs.size(); }
void ast_attribute_insert_string_at(clingo_ast_t *a, clingo_ast_attribute_t at, size_t i, char const *v) { auto &x = attr(a, at, T(string_array), "ast_attribute_insert_string_at"); bounds(i, x.strs.size() + 1, "ast_attribute_insert_string_at"); x.strs.insert(x.strs.begin() + i, v); EFF("ins", "|%zu", i); }
void ast_attribute_get_ast_at(clingo_ast_t *a, clingo_ast_attribute_t at, size_t i, clingo_ast_t **v) { auto &x = attr(a, at, T(ast_array), "ast_attribute_get_ast_at"); if (i >= x.asts.size()) fail(clingo_error_logic, "vector::at"); inc(x.asts[i]); *v = C(x.asts[i]); }
void ast_attribute_set_ast_at(clingo_ast_t *a, clingo_ast_attribute_t at, size_t i, clingo_ast_t *v) { if (!v) fail(clingo_error_runtime, "ast must not be null"); auto &x = attr(a, at, T(ast_array), "ast_attribute_set_ast_at"); bounds(i, x.asts.size(), "ast_attribute_set_ast_at"); Node *n = node_of(v, "ast_attribute_set_ast_at"); inc(n); dec(x.asts[i]); x.asts[i] = n; EFF("set", "|%zu", i); }
void ast_attribute_delete_ast_at(clingo_ast_t *a, clingo_ast_attribute_t at, size_t i) { auto &x = attr(a, at, T(ast_array), "ast_attribute_delete_ast_at"); bounds(i, x.asts.size(), "ast_attribute_delete_ast_at"); dec(x.asts[i]); x.asts.erase(x.asts.begin() + i); EFF("del", "|%zu", i); }
void ast_attribute_size_ast_array(clingo_ast_t *a, clingo_ast_attribute_t at, size_t *n) { *n = attr(a, at, T(ast_array), "ast_attribute_size_ast_array").asts.size(); }
void ast_attribute_insert_ast_at(clingo_ast_t *a, clingo_ast_attribute_t at, size_t i, clingo_ast_t *v) { if (!v) fail(clingo_error_runtime, "ast must not be null"); auto &x = attr(a, at, T(ast_array), "ast_attribute_insert_ast_at"); bounds(i, x.asts.size() + 1, "ast_attribute_insert_ast_at"); Node *n = node_of(v, "ast_attribute_insert_ast_at"); inc(n); x.asts.insert(x.asts.begin() + i, n); EFF("ins", "|%zu", i); }
static void deliver(Node *n, clingo_ast_callback_t cb, void *d) { string t = nodestr(n, true); effect("ast_emit|" + esc(t)); callback("ast", esc(t), [&]() { Armed a; return cb(C(n), d); }); }
static void parse(string const &text, clingo_ast_callback_t cb, void *d, clingo_control_t *ctl, clingo_logger_t l, void *ld, unsigned lim, string const &what) {
    if (ctl) { check(ctl, "control", "ast_parse"); }
    effect(what + "|" + (ctl ? std::to_string(reinterpret_cast<Control*>(ctl)->id) : string("none")) + "|" + esc(text) + fmt("|%u", lim));
    Msg m; m.fn = l; m.data = ld; m.limit = lim; m.id = take_label(); emit(m);
    uint32_t n = choose(SIM_DATA, 6); bool bad = text.find("syntax error") != string::npos; uint32_t at = bad ? choose(SIM_DATA, n + 1) : n;
    for (uint32_t i = 0; i <= n; ++i) {
        if (bad && i == at) { emit(m, clingo_warning_runtime_error, text + ":1:1-2: error: syntax error, unexpected x\n"); fail(clingo_error_runtime, "syntax error"); }
        if (i == n) break;
        yield_point("parse"); emit(m);
        static int const st[] = {clingo_ast_type_rule, clingo_ast_type_rule, clingo_ast_type_program, clingo_ast_type_external, clingo_ast_type_show_signature, clingo_ast_type_minimize, clingo_ast_type_theory_definition, clingo_ast_type_script, clingo_ast_type_heuristic, clingo_ast_type_comment, clingo_ast_type_definition, clingo_ast_type_edge, clingo_ast_type_show_term, clingo_ast_type_project_atom, clingo_ast_type_defined};
        Node *x = rand_node(st[choose(SIM_DATA, 15)], 3, rand_loc()); struct G { Node *n; ~G() { dec(n); } } g{x}; deliver(x, cb, d);
    }
}
void ast_parse_string(char const *p, clingo_ast_callback_t cb, void *d, clingo_control_t *c, clingo_logger_t l, void *ld, unsigned lim) { parse(p, cb, d, c, l, ld, lim, "parse_string"); }
void ast_parse_files(char const *const *f, size_t n, clingo_ast_callback_t cb, void *d, clingo_control_t *c, clingo_logger_t l, void *ld, unsigned lim) { string t; for (size_t i = 0; i < n; ++i) t += (i ? ";" : "") + string(f[i]); parse(t, cb, d, c, l, ld, lim, "parse_files"); }
void ast_unpool(clingo_ast_t *a, clingo_ast_unpool_type_bitset_t t, clingo_ast_callback_t cb, void *d) {
    Node *n = node_of(a, "ast_unpool"); effect("unpool|" + std::to_string(n->id) + fmt("|%d", (int)t)); uint32_t k = choose(SIM_DATA, 4);
    if (k == 1) { inc(n); struct G { Node *n; ~G() { dec(n); } } g{n}; deliver(n, cb, d); return; }
    for (uint32_t i = 0; i < k; ++i) { Node *x = choose(SIM_DATA, 2) ? deepcopy(n) : rand_node(n->type, 2, rand_loc()); struct G { Node *n; ~G() { dec(n); } } g{x}; deliver(x, cb, d); }
}
static Control *bld(clingo_program_builder_t *b, char const *fn, bool open) { check(b, "builder", fn); Control *c = reinterpret_cast<Handle*>(b)->c; if (open && !c->builderOpen) { violation(string("use-after-release:") + fn, fmt("%s on a program builder that is not open", fn)); fail(clingo_error_runtime, "builder not open"); } return c; }
void control_program_builder(clingo_control_t *c, clingo_program_builder_t **b) { check(c, "control", "control_program_builder"); *b = reinterpret_cast<clingo_program_builder_t*>(&reinterpret_cast<Control*>(c)->hBuilder); }
void program_builder_init(clingo_control_t *c, clingo_program_builder_t **b) { control_program_builder(c, b); }
void program_builder_begin(clingo_program_builder_t *b) { Control *c = bld(b, "program_builder_begin", false); if (c->builderOpen) { violation("double-open:builder", "program builder opened twice"); fail(clingo_error_runtime, "builder already open"); } c->builderOpen = true; effect("builder_begin"); }
void program_builder_end(clingo_program_builder_t *b) { Control *c = bld(b, "program_builder_end", false); if (!c->builderOpen) { violation("double-release:builder", "program builder closed although it is not open"); fail(clingo_error_runtime, "builder not open"); } c->builderOpen = false; emit(c->log); effect("builder_end"); }
void program_builder_add(clingo_program_builder_t *b, clingo_ast_t *a) { Control *c = bld(b, "program_builder_add", true); Node *n = node_of(a, "program_builder_add"); emit(c->log); if (chance(SIM_DATA, 1, 40)) { emit(c->log, clingo_warning_runtime_error, "bad statement"); fail(clingo_error_runtime, "bad statement"); } c->parts.push_back("ast:" + nodestr(n, true)); effect("builder_add|" + esc(nodestr(n, true))); }
} // namespace impl
void ast_reset() { g_nodes.clear(); g_live.clear(); g_all.clear(); }
void ast_final() { if (!g_live.empty()) { int id = 1 << 30; Node const *f = nullptr; for (auto *n : g_live) if (n->id < id) { id = n->id; f = n; } violation("leak:ast", fmt("%zu ast nodes are still referenced, e.g. %s", g_live.size(), nodestr(f, false).c_str())); } }
} // namespace sim
using namespace sim;
extern "C" {
static bool build(clingo_ast_type_t type, clingo_ast_t **ast, va_list args) {
        Node *n = mknode(type); struct G { Node *n; ~G() { if (n) dec(n); } } g{n}; auto const &c = g_clingo_ast_constructors.constructors[type];
        for (size_t i = 0; i < c.size; ++i) {
            Val v; v.type = c.arguments[i].type;
            switch (v.type) {
                case T(number): v.num = va_arg(args, int); break; case T(symbol): v.sym = va_arg(args, clingo_symbol_t); symstr(v.sym); break; case T(location): v.loc = lloc(va_arg(args, clingo_location_t*)); break; case T(string): v.str = va_arg(args, char const*); break;
                case T(ast): v.ast = node_of(va_arg(args, clingo_ast_t*), "ast_build"); inc(v.ast); break; case T(optional_ast): v.ast = node_of(va_arg(args, clingo_ast_t*), "ast_build", true); inc(v.ast); break;
                case T(string_array): { auto **d = va_arg(args, char const **); size_t k = va_arg(args, size_t); for (size_t j = 0; j < k; ++j) v.strs.push_back(d[j]); break; }
                default: { auto **d = va_arg(args, clingo_ast_t **); size_t k = va_arg(args, size_t); for (size_t j = 0; j < k; ++j) { v.asts.push_back(node_of(d[j], "ast_build")); inc(v.asts.back()); } }
            }
            n->at.emplace_back(c.arguments[i].attribute, std::move(v));
        }
        effect("ast_build|" + esc(nodestr(n, true))); g.n = nullptr; *ast = C(n); return true;
}
bool clingo_ast_build(clingo_ast_type_t type, clingo_ast_t **ast, ...) {
    va_list args; va_start(args, ast); bool r = false;
    try { Seam s("ast_build", false); EngineError e; if (should_fail("ast_build", e)) throw e; r = build(type, ast, args); } catch (EngineError &) { seam_catch("ast_build", true); }
    va_end(args); return r;
}
/* oracle: full text of a node including locations */
char const *sim_ast_text(void *a, int loc) { cur->api = false; static string r; Node *n = reinterpret_cast<Node*>(a); r = n && g_all.count(n) && !n->dead ? nodestr(n, loc != 0) : "<dead>"; return r.c_str(); }
int sim_ast_refs(void *a) { Node *n = reinterpret_cast<Node*>(a); return n && g_all.count(n) && !n->dead ? n->refs : 0; }
int sim_ast_live(void) { return g_live.size(); }
}
#undef T
#undef EFF
// constructor tables of the pinned interface
#include "ast_tables.inc"
