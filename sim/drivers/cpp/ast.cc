// AST handles, sequences, parsing, unpooling, and program builders
#include "common.hh"
#include "views.hh"
#include <algorithm>
#include <functional>
#include <sstream>
namespace A = C::AST;
using A::Node; using A::NodeValue; using A::Attribute; using A::NodeVector; using A::StringVector;
// {{{ text of nodes
static string raw_text(clingo_ast_t *a, bool loc = true) { return sim_ast_text(a, loc); }
static string text(Node const &n, bool loc = true) { return n.to_c() ? raw_text(n.to_c(), loc) : string("<null>"); }
static char const *aname(int a) { return g_clingo_ast_attribute_names.names[a]; }
static string loctext(clingo_location_t const &l) { return string(l.begin_file) + fmt(":%zu:%zu-", l.begin_line, l.begin_column) + l.end_file + fmt(":%zu:%zu", l.end_line, l.end_column); }
static string api_text(Node const &n); // read through the interface only
static string value_text(NodeValue v) {
    if (v.is<int>()) return fmt("%d", v.get<int>());
    if (v.is<C::Symbol>()) return sym(v.get<C::Symbol>());
    if (v.is<C::Location>()) return loctext(v.get<C::Location>());
    if (v.is<char const *>()) return string("'") + v.get<char const *>() + "'";
    if (v.is<Node>()) return api_text(v.get<Node>());
    if (v.is<C::Optional<Node>>()) { auto *p = v.get<C::Optional<Node>>().get(); return p ? api_text(*p) : string("none"); }
    string r;
    if (v.is<StringVector>()) { auto const &s = v.get<StringVector>(); for (auto x : s) { if (!r.empty()) r += ", "; r += string("'") + x + "'"; } return "[" + r + "]"; }
    auto const &s = v.get<NodeVector>(); for (auto x : s) { if (!r.empty()) r += ", "; r += api_text(x); } return "[" + r + "]";
}
static string api_text(Node const &n) { string r; n.visit_attribute([&](Attribute a, NodeValue v) { string t = value_text(std::move(v)); if (!r.empty()) r += ", "; r += aname((int)a) + ("=" + t); }); return string(g_clingo_ast_constructors.constructors[(int)n.type()].name) + "(" + r + ")"; }
static string make_text(int type, vector<string> const &v) { auto const &c = g_clingo_ast_constructors.constructors[type]; string r; for (size_t i = 0; i < c.size; ++i) r += (i ? ", " : "") + string(aname(c.arguments[i].attribute)) + "=" + (i < v.size() ? v[i] : "?"); return string(c.name) + "(" + r + ")"; }
static string list_text(vector<Node> const &v) { string r; for (auto &x : v) r += (r.empty() ? "" : ", ") + text(x); return "[" + r + "]"; }
static string slist_text(vector<char const *> const &v) { string r; for (auto *x : v) r += (r.empty() ? "'" : ", '") + string(x) + "'"; return "[" + r + "]"; }
// raw views
static int raw_type(clingo_ast_t *a) { clingo_ast_type_t t; raw_clingo_ast_get_type(a, &t); return t; }
static bool raw_has(clingo_ast_t *a, int at, int *type = nullptr) { bool h = false; raw_clingo_ast_has_attribute(a, at, &h); if (h && type) { clingo_ast_attribute_type_t t; raw_clingo_ast_attribute_type(a, at, &t); *type = t; } return h; }
static void raw_children(clingo_ast_t *a, std::function<void(int, clingo_ast_t *)> f) {
    auto const &c = g_clingo_ast_constructors.constructors[raw_type(a)];
    for (size_t i = 0; i < c.size; ++i) { int at = c.arguments[i].attribute, t = c.arguments[i].type; clingo_ast_t *x = nullptr;
        if (t == clingo_ast_attribute_type_ast) { raw_clingo_ast_attribute_get_ast(a, at, &x); f(at, x); raw_clingo_ast_release(x); }
        else if (t == clingo_ast_attribute_type_optional_ast) { raw_clingo_ast_attribute_get_optional_ast(a, at, &x); if (x) { f(at, x); raw_clingo_ast_release(x); } }
        else if (t == clingo_ast_attribute_type_ast_array) { size_t n; raw_clingo_ast_attribute_size_ast_array(a, at, &n); for (size_t k = 0; k < n; ++k) { raw_clingo_ast_attribute_get_ast_at(a, at, k, &x); f(at, x); raw_clingo_ast_release(x); } } }
}
static bool reaches(clingo_ast_t *a, clingo_ast_t *b) { if (a == b) return true; bool r = false; raw_children(a, [&](int, clingo_ast_t *x) { r = r || reaches(x, b); }); return r; }
static vector<int> attrs_of(clingo_ast_t *a, int type = -1) { vector<int> r; auto const &c = g_clingo_ast_constructors.constructors[raw_type(a)]; for (size_t i = 0; i < c.size; ++i) if (type < 0 || (int)c.arguments[i].type == type) r.push_back(c.arguments[i].attribute); return r; }
// }}}
struct Pool { vector<Node> n; Node const &any() { return n[W(n.size())]; } void add(Node x) { if (x.to_c() && n.size() < 24) n.push_back(std::move(x)); } };
static char const *const g_strs[] = {"x", "", "two words", "%s%n", "q\"uote", "<="};
static C::Location rloc() { static char const *const f[] = {"<string>", "a.lp", "b%s"}; size_t l = 1 + W(50), c = 1 + W(9); char const *a = f[W(3)]; return C::Location(a, W(4) ? a : f[W(3)], l, l + W(2), c, c + 1 + W(7)); }
// {{{ construction
template <class... Args> static bool build(Pool &p, int type, vector<string> txt, Args const &...args) {
    string want = make_text(type, txt); bool bad = g_clingo_ast_constructors.constructors[type].size != sizeof...(Args);
    return op("Node::Node", bad ? raises("runtime") : eff("ast_build|" + esc(want)), [&]() { Node n(static_cast<A::Type>(type), args...); same("ast-build", text(n), want); p.add(std::move(n)); });
}
static void do_build(Pool &p) {
    using O = C::Optional<Node>; C::Location l = rloc(); string lt = loctext(l); C::Symbol s = rand_sym(1); int num = W(3); char const *str = g_strs[W(6)]; vector<Node> v; for (uint32_t i = 0, n = W(4); i < n && !p.n.empty(); ++i) v.push_back(p.any()); vector<char const *> sv; for (uint32_t i = 0, n = Wn(4); i < n; ++i) sv.push_back(g_strs[W(6)]);
    string nt = fmt("%d", num), st = string("'") + str + "'", vt = list_text(v), svt = slist_text(sv);
    uint32_t k = W(p.n.empty() ? 4 : 15);
    if (k < 4) switch (k) {
        case 0: build(p, clingo_ast_type_symbolic_term, {lt, sym(s)}, l, s); return;
        case 1: build(p, clingo_ast_type_variable, {lt, st}, l, str); return;
        case 2: build(p, clingo_ast_type_function, {lt, st, vt, nt}, l, str, v, num); return;
        case 3: build(p, clingo_ast_type_boolean_constant, {nt}, num); return;
    }
    Node a = p.any(), b = p.any(); string at = text(a), bt = text(b); O o; if (W(2)) o = O(b); string ot = o ? bt : "none"; O o2; if (W(2)) o2 = O(a); string o2t = o2 ? at : "none";
    switch (k) {
        case 4: build(p, clingo_ast_type_rule, {lt, at, vt}, l, a, v); break;
        case 5: build(p, clingo_ast_type_theory_atom, {lt, at, vt, ot}, l, a, v, o); break;
        case 6: build(p, clingo_ast_type_theory_guard_definition, {svt, st}, sv, str); break;
        case 7: build(p, clingo_ast_type_body_aggregate, {lt, ot, nt, vt, o2t}, l, o, num, v, o2); break;
        case 8: build(p, clingo_ast_type_theory_unparsed_term_element, {svt, at}, sv, a); break;
        case 9: build(p, clingo_ast_type_binary_operation, {lt, nt, at, bt}, l, num, a, b); break;
        case 10: build(p, clingo_ast_type_conditional_literal, {lt, at, vt}, l, a, v); break;
        case 11: build(p, clingo_ast_type_program, {lt, st, vt}, l, str, v); break;
        case 12: build(p, clingo_ast_type_theory_atom_definition, {lt, nt, st, nt, st, ot}, l, num, str, num, str, o); break;
        case 13: // wrong arguments are rejected before the engine is asked
            switch (W(6)) { case 0: op("Node::Node(bad)", raises("runtime"), [&]() { Node n(A::Type::Variable, l); }); break; case 1: op("Node::Node(bad)", raises("runtime"), [&]() { Node n(A::Type::Variable, l, num); }); break; case 2: op("Node::Node(bad)", raises("runtime"), [&]() { Node n(A::Type::Rule, l, v, a); }); break;
                case 3: op("Node::Node(bad)", raises("runtime"), [&]() { Node n(A::Type::Variable, l, str, num); }); break; case 4: op("Node::Node(bad)", raises("runtime"), [&]() { Node n(A::Type::TheoryAtom, l, a, v, a); }); break; case 5: op("Node::Node(bad)", raises("runtime"), [&]() { Node n(A::Type::Literal, l, str, o); }); break; } break;
        case 14: build(p, clingo_ast_type_body_aggregate_element, {vt, list_text(p.n)}, v, p.n); break;
    }
}
// }}}
// {{{ attributes and sequences: the oracle applies the same change with the engine's own functions to a deep copy
struct Twin { clingo_ast_t *t = nullptr; Twin(Node const &n) { raw_clingo_ast_deep_copy(n.to_c(), &t); } ~Twin() { raw_clingo_ast_release(t); } string text() { return raw_text(t); } };
template <class F, class R> static void mutate(char const *name, Node &x, bool atomic, F api, R raw) {
    Twin t(x); string before = text(x); bool ok = op(name, any(), api);
    if (ok) { raw(t.t); same("ast-mutation", text(x), t.text()); } else if (atomic) same("ast-changed-by-failed-operation", text(x), before);
}
static Node safe_child(Pool &p, Node const &x) { for (int i = 0; i < 4; ++i) { Node const &v = p.any(); if (!reaches(v.to_c(), x.to_c())) return v; } clingo_ast_t *c = nullptr; NoFaults nf; raw_clingo_ast_deep_copy(x.to_c(), &c); return Node(c); }
static void do_set(Pool &p, Node x) {
    auto as = attrs_of(x.to_c()); if (as.empty()) return; int a = as[W(as.size())], t = 0; raw_has(x.to_c(), a, &t); auto at = (Attribute)a;
    if (W(12) == 11) { // wrong kind of value or unknown attribute
        if (W(2)) { int u = a; while (raw_has(x.to_c(), u)) u = (u + 1) % clingo_ast_attribute_comment_type; op("Node::set(unknown)", raises("runtime"), [&]() { x.set((Attribute)u, 1); }); op("Node::get(unknown)", raises("runtime"), [&]() { x.get((Attribute)u); }); }
        else { string before = text(x); op("Node::set(wrong type)", raises("std:St8bad_cast"), [&]() { if (t == clingo_ast_attribute_type_number) x.set(at, static_cast<char const *>("string")); else x.set(at, 7); }); same("ast-changed-by-failed-operation", text(x), before); }
        return;
    }
    switch (t) {
        case clingo_ast_attribute_type_number: { int v = (int)W(5) - 1; mutate("Node::set(number)", x, true, [&]() { x.set(at, v); }, [&](clingo_ast_t *y) { raw_clingo_ast_attribute_set_number(y, a, v); }); break; }
        case clingo_ast_attribute_type_symbol: { C::Symbol v = rand_sym(1); mutate("Node::set(symbol)", x, true, [&]() { x.set(at, v); }, [&](clingo_ast_t *y) { raw_clingo_ast_attribute_set_symbol(y, a, v.to_c()); }); break; }
        case clingo_ast_attribute_type_location: { C::Location v = rloc(); mutate("Node::set(location)", x, true, [&]() { x.set(at, v); }, [&](clingo_ast_t *y) { raw_clingo_ast_attribute_set_location(y, a, &v); }); break; }
        case clingo_ast_attribute_type_string: { char const *v = g_strs[W(6)]; mutate("Node::set(string)", x, true, [&]() { x.set(at, v); }, [&](clingo_ast_t *y) { raw_clingo_ast_attribute_set_string(y, a, v); }); break; }
        case clingo_ast_attribute_type_ast: { Node v = safe_child(p, x); mutate("Node::set(ast)", x, true, [&]() { x.set(at, v); }, [&](clingo_ast_t *y) { bool s = false; raw_children(x.to_c(), [&](int i, clingo_ast_t *c) { s = s || (i == a && c == v.to_c()); }); same("ast-shared-child", fmt("%d", s), "1"); raw_clingo_ast_attribute_set_ast(y, a, v.to_c()); }); break; }
        case clingo_ast_attribute_type_optional_ast: { Node v = safe_child(p, x); bool some = W(2); mutate("Node::set(optional)", x, true, [&]() { x.set(at, some ? C::Optional<Node>(v) : C::Optional<Node>()); }, [&](clingo_ast_t *y) { raw_clingo_ast_attribute_set_optional_ast(y, a, some ? v.to_c() : nullptr); }); break; }
        case clingo_ast_attribute_type_string_array: case clingo_ast_attribute_type_ast_array: {
            bool strs = t == clingo_ast_attribute_type_string_array; Node src = safe_child(p, x); bool self = W(6) == 5; if (self) src = x; auto bs = attrs_of(src.to_c(), t); if (bs.empty()) { src = x; bs = attrs_of(x.to_c(), t); } int b = bs[W(bs.size())]; if (src.to_c() == x.to_c()) sim_probe("ast-assign-own-sequence");
            mutate("Node::set(sequence)", x, false, [&]() { x.set(at, src.get((Attribute)b)); }, [&](clingo_ast_t *y) {
                size_t n; Twin s(src);
                if (strs) { vector<string> v; raw_clingo_ast_attribute_size_string_array(s.t, b, &n); for (size_t i = 0; i < n; ++i) { char const *c; raw_clingo_ast_attribute_get_string_at(s.t, b, i, &c); v.push_back(c); } raw_clingo_ast_attribute_size_string_array(y, a, &n); while (n) raw_clingo_ast_attribute_delete_string_at(y, a, --n); for (auto &c : v) raw_clingo_ast_attribute_insert_string_at(y, a, n++, c.c_str()); if (src.to_c() == x.to_c()) { /* source was read before */ } }
                else { vector<Node> v; if (src.to_c() == x.to_c()) { /* the twin still has the old sequence */ raw_clingo_ast_attribute_size_ast_array(y, b, &n); for (size_t i = 0; i < n; ++i) { clingo_ast_t *c; raw_clingo_ast_attribute_get_ast_at(y, b, i, &c); v.emplace_back(c); } } else { raw_clingo_ast_attribute_size_ast_array(s.t, b, &n); for (size_t i = 0; i < n; ++i) { clingo_ast_t *c; raw_clingo_ast_attribute_get_ast_at(s.t, b, i, &c); v.emplace_back(c); } }
                    raw_clingo_ast_attribute_size_ast_array(y, a, &n); while (n) raw_clingo_ast_attribute_delete_ast_at(y, a, --n); for (auto &c : v) raw_clingo_ast_attribute_insert_ast_at(y, a, n++, c.to_c()); } });
            break; }
    }
}
template <class Seq, class Val, class Ins, class Set, class Del>
static void seq_op(Node &x, int a, Seq &s, size_t n, Val val, Ins ins, Set set, Del del) {
    (void)a; auto d = [](size_t i) { return (std::ptrdiff_t)i; };
    switch (W(8)) {
        case 0: mutate("Sequence::push_back", x, true, [&]() { s.push_back(val); }, [&](clingo_ast_t *y) { ins(y, n); }); break;
        case 1: if (n) mutate("Sequence::pop_back", x, true, [&]() { s.pop_back(); }, [&](clingo_ast_t *y) { del(y, n - 1); }); break;
        case 2: { size_t i = W(n + 1); mutate("Sequence::insert", x, true, [&]() { auto it = s.insert(s.begin() + d(i), val); same("ast-iterator", fmt("%td", it - s.begin()), fmt("%zu", i)); }, [&](clingo_ast_t *y) { ins(y, i); }); break; }
        case 3: if (n) { size_t i = W(n); mutate("Sequence::erase", x, true, [&]() { auto it = s.erase(s.begin() + d(i)); same("ast-iterator", fmt("%td", it - s.begin()), fmt("%zu", i)); }, [&](clingo_ast_t *y) { del(y, i); }); } break;
        case 4: if (n) { size_t i = W(n); mutate("Sequence::set", x, true, [&]() { s.set(s.begin() + d(i), val); }, [&](clingo_ast_t *y) { set(y, i); }); } break;
        case 5: if (n) { size_t i = W(n); mutate("Sequence::ref=", x, true, [&]() { if (W(2)) s[i] = val; else { auto it = s.end(); it -= d(n - i); *it = val; } }, [&](clingo_ast_t *y) { set(y, i); }); } break;
        case 6: if (W(3) == 2) mutate("Sequence::clear", x, false, [&]() { s.clear(); same("ast-empty", fmt("%d%zu", s.empty(), s.size()), "10"); }, [&](clingo_ast_t *y) { for (size_t i = n; i > 0; --i) del(y, i - 1); }); break;
        case 7: op("Sequence::out of range", any(), [&]() { auto const &c = s; auto y = c[n + W(3)]; (void)y; sim_violation("ast-out-of-range", "reading past the end of a sequence succeeded"); }); break;
    }
}
static void read_nodes(NodeVector &s, Node const &x, int a, size_t n) {
    op("NodeVector::read", none(), [&]() {
        NodeVector const &c = s; string g, w; for (size_t i = 0; i < n; ++i) { clingo_ast_t *y; raw_clingo_ast_attribute_get_ast_at(x.to_c(), a, i, &y); w += fmt("%p,", (void *)y); raw_clingo_ast_release(y); }
        switch (W(6)) { case 0: for (auto y : c) g += fmt("%p,", (void *)Node(y).to_c()); break; case 1: for (auto it = s.begin(), e = s.end(); it != e; it++) g += fmt("%p,", (void *)it->get().to_c()); break; case 2: for (size_t i = 0; i < c.size(); ++i) g += fmt("%p,", (void *)(i % 2 ? c[i] : *c.at(i)).to_c()); break;
            case 3: { vector<string> r; for (auto it = c.end(); it > c.begin();) { --it; r.push_back(fmt("%p,", (void *)(*it).to_c())); } for (auto i = r.rbegin(); i != r.rend(); ++i) g += *i; break; }
            case 4: for (auto it = c.begin(); it < c.end(); it += 1) { Node y = *it; g += fmt("%p,", (void *)y.to_c()); } break; case 5: for (size_t i = 0; i < s.size(); ++i) { Node y = s[i]; g += fmt("%p,", (void *)(i % 2 ? y : s.at(i)->get()).to_c()); } break; }
        same("ast-sequence", g, w); same("ast-sequence-size", fmt("%zu%d", s.size(), s.empty()), fmt("%zu%d", n, n == 0)); same("ast-sequence-owner", fmt("%d%d", s.ast().to_c() == x.to_c(), c.ast().to_c() == x.to_c()), "11"); });
}
template <class S, class T> static void seq_views(S &s, vector<string> const &w, T text) { // both kinds of iterators
    op("Sequence::views", none(), [&]() { S const &c = s; if (W(2)) { walk("ast-sequence-walk", c.begin(), c.end(), w, text); arrows("ast-sequence-arrow", c.begin(), w, [&](auto v) { return text(*v.operator->()); }); } else { walk("ast-sequence-walk", s.begin(), s.end(), w, [&](auto v) { return text(v.get()); }); arrows("ast-sequence-arrow", s.begin(), w, [&](auto v) { return text(v->get()); }); } });
}
static void do_seq(Pool &p, Node x) {
    bool strs = W(3) == 2; auto as = attrs_of(x.to_c(), strs ? clingo_ast_attribute_type_string_array : clingo_ast_attribute_type_ast_array); if (as.empty()) return; int a = as[W(as.size())]; size_t n;
    if (strs) {
        raw_clingo_ast_attribute_size_string_array(x.to_c(), a, &n); char const *v = g_strs[W(6)];
        op("Node::get(strings)", any(), [&]() { auto s = x.get<StringVector>((Attribute)a); seq_op(x, a, s, n, v, [&](clingo_ast_t *y, size_t i) { raw_clingo_ast_attribute_insert_string_at(y, a, i, v); }, [&](clingo_ast_t *y, size_t i) { raw_clingo_ast_attribute_set_string_at(y, a, i, v); }, [&](clingo_ast_t *y, size_t i) { raw_clingo_ast_attribute_delete_string_at(y, a, i); });
            { vector<string> w; raw_clingo_ast_attribute_size_string_array(x.to_c(), a, &n); for (size_t i = 0; i < n; ++i) { char const *y; raw_clingo_ast_attribute_get_string_at(x.to_c(), a, i, &y); w.push_back(y); } seq_views(s, w, [](char const *y) { return string(y); }); }
            op("StringVector::read", none(), [&]() { StringVector const &c = s; string g, w; raw_clingo_ast_attribute_size_string_array(x.to_c(), a, &n); for (size_t i = 0; i < n; ++i) { char const *y; raw_clingo_ast_attribute_get_string_at(x.to_c(), a, i, &y); w += string(y) + ","; } switch (W(3)) { case 0: for (auto y : c) g += string(y) + ","; break; case 1: for (auto it = s.begin(); it != s.end(); ++it) g += string((*it).get()) + ","; break; case 2: for (size_t i = 0; i < s.size(); ++i) g += string(i % 2 ? c[i] : s.at(i)->get()) + ","; break; } same("ast-sequence", g, w); same("ast-sequence-size", fmt("%zu%d", s.size(), c.empty()), fmt("%zu%d", n, n == 0)); }); });
        return;
    }
    raw_clingo_ast_attribute_size_ast_array(x.to_c(), a, &n); Node v = safe_child(p, x);
    op("Node::get(nodes)", any(), [&]() { auto s = x.get<NodeVector>((Attribute)a); seq_op(x, a, s, n, v, [&](clingo_ast_t *y, size_t i) { raw_clingo_ast_attribute_insert_ast_at(y, a, i, v.to_c()); }, [&](clingo_ast_t *y, size_t i) { raw_clingo_ast_attribute_set_ast_at(y, a, i, v.to_c()); }, [&](clingo_ast_t *y, size_t i) { raw_clingo_ast_attribute_delete_ast_at(y, a, i); });
        raw_clingo_ast_attribute_size_ast_array(x.to_c(), a, &n); read_nodes(s, x, a, n); vector<string> w; for (size_t i = 0; i < n; ++i) { clingo_ast_t *y; raw_clingo_ast_attribute_get_ast_at(x.to_c(), a, i, &y); w.push_back(fmt("%p", (void *)y)); raw_clingo_ast_release(y); } seq_views(s, w, [](Node const &y) { return fmt("%p", (void *)y.to_c()); }); });
}
// }}}
// {{{ whole trees
static void do_copy(Pool &p, Node const &x) {
    bool deep = W(2); string before = text(x);
    op(deep ? "Node::deep_copy" : "Node::copy", none(), [&]() {
        Node y = deep ? x.deep_copy() : x.copy(); same("ast-copy", text(y), before); same("ast-copy-identity", fmt("%d", y.to_c() == x.to_c()), "0"); same("ast-copy-equal", fmt("%d%d", y == x, y != x), "10");
        string g, w; raw_children(x.to_c(), [&](int, clingo_ast_t *c) { w += fmt("%p,", (void *)c); }); raw_children(y.to_c(), [&](int, clingo_ast_t *c) { g += fmt("%p,", (void *)c); });
        if (!deep) same("ast-shallow-shares", g, w); else raw_children(x.to_c(), [&](int, clingo_ast_t *c) { bool s = false; raw_children(y.to_c(), [&](int, clingo_ast_t *d) { s = s || c == d; }); same("ast-deep-separate", fmt("%d", s), "0"); });
        p.add(std::move(y)); });
}
static void do_compare(Node const &a, Node const &b) {
    op("Node::compare", none(), [&]() { bool lt = raw_clingo_ast_less_than(a.to_c(), b.to_c()), gt = raw_clingo_ast_less_than(b.to_c(), a.to_c()), eq = raw_clingo_ast_equal(a.to_c(), b.to_c()); same("ast-compare", fmt("%d%d%d%d%d%d", a < b, a > b, a <= b, a >= b, a == b, a != b), fmt("%d%d%d%d%d%d", lt, gt, !gt, !lt, eq, !eq)); same("ast-hash", fmt("%zu", std::hash<Node>()(a)), fmt("%zu", raw_clingo_ast_hash(a.to_c()))); });
}
static void do_print(Node const &a) {
    op("Node::to_string", none(), [&]() { string w = text(a, false); same("ast-to-string", a.to_string(), w); std::ostringstream o; o << a; whole(o); same("ast-to-string", o.str(), w); same("ast-type", fmt("%d", (int)a.type()), fmt("%d", raw_type(a.to_c()))); });
}
static void do_read(Node const &a) { op("Node::read", none(), [&]() { same("ast-read", api_text(a), text(a)); }); }
static bool want_visit(int type) { return type % 3 != 0; }
static void raw_visit(clingo_ast_t *a, string &w) { w += fmt("%p,", (void *)a); if (want_visit(raw_type(a))) raw_children(a, [&](int, clingo_ast_t *c) { raw_visit(c, w); }); }
static void do_visit(Node const &a) {
    bool thr = W(5) == 4; int n = 0;
    op("Node::visit_ast", any(), [&]() { string g, w; a.visit_ast([&](Node const &x) { g += fmt("%p,", (void *)x.to_c()); if (thr && ++n == 3) raise_user("visit"); return want_visit(raw_type(x.to_c())); }); raw_visit(a.to_c(), w); same("ast-visit", g, w); });
}
static string replace_vars(string s, string const &with, bool &any) {
    string r; size_t p = 0; for (;;) { size_t q = s.find("variable(location=", p); if (q == string::npos) break; size_t e = s.find("name='", q); e = s.find('\'', e + 6); e = s.find(')', e); r += s.substr(p, q - p) + with; p = e + 1; any = true; } return r + s.substr(p);
}
static void do_transform(Pool &p, Node const &a) {
    bool thr = W(6) == 5; int n = 0; clingo_ast_t *c = nullptr; C::Location l = rloc(); string st = "Variable(";
    raw_clingo_ast_deep_copy(a.to_c(), &c); Node keep(c); (void)st;
    clingo_ast_t *fn = nullptr; { NoFaults nf; clingo_ast_build(clingo_ast_type_symbolic_term, &fn, &l, rand_sym(0).to_c()); } if (!fn) return; Node repl(fn); string before = text(a), rt = text(repl); bool any = false; string want = replace_vars(before, rt, any); if (raw_type(a.to_c()) == clingo_ast_type_variable) return;
    op("Node::transform_ast", any ? ::any() : none(), [&]() {
        std::function<Node(Node const &)> f = [&](Node const &x) -> Node { if (thr && ++n == 4) raise_user("transform"); if (raw_type(x.to_c()) == clingo_ast_type_variable) return repl; return x.transform_ast(f); };
        Node y = a.transform_ast(f); same("ast-transform", text(y), want); same("ast-transform-original", text(a), before); same("ast-transform-identity", fmt("%d", y.to_c() == a.to_c()), any ? "0" : "1"); sim_probe(any ? "ast-transform-changed" : "ast-transform-same"); p.add(std::move(y)); });
    same("ast-transform-original", text(a), text(keep));
}
static void do_handle(Pool &p) { // values: copies, moves, swaps
    op("Node::handles", none(), [&]() { Node a = p.any(), b = p.any(); auto *x = a.to_c(), *y = b.to_c(); int rx = sim_ast_refs(x), ry = sim_ast_refs(y);
        switch (W(8)) { case 7: { Node c(std::move(a)), e(a), f(b); same("ast-empty-copy", fmt("%d%d", e.to_c() == nullptr, f.to_c() == y), "11"); if (W(2)) f = a; else f = e; if (W(2)) e = std::move(a); same("ast-empty-assign", fmt("%d%d%d", f.to_c() == nullptr, e.to_c() == nullptr, a.to_c() == nullptr), "111"); if (W(2)) a = c; else a = std::move(c); same("ast-empty-refill", fmt("%d%d", a.to_c() == x, c.to_c() == nullptr || c.to_c() == x), "11"); f = a; e = std::move(f); same("ast-empty-refill", fmt("%d%d", f.to_c() == nullptr, e.to_c() == x), "11"); break; } case 0: { Node c(a); b = c; break; } case 1: { using std::swap; swap(a, b); same("ast-swap", fmt("%d%d", a.to_c() == y, b.to_c() == x), "11"); break; } case 2: a = a; same("ast-self", fmt("%d", a.to_c() == x), "1"); break; case 3: { Node c(std::move(a)); same("ast-move", fmt("%d%d", a.to_c() == nullptr, c.to_c() == x), "11"); int bad = 0; try { bad += a == b ? 1 : 2; } catch (std::runtime_error const &) { } try { bad += b == a ? 1 : 2; } catch (std::runtime_error const &) { } if (bad) sim_violation("ast-compare-invalid", "an AST node that was moved away from is compared"); a = std::move(c); a = Node(a); break; } case 4: { vector<Node> v; for (int i = 0; i < 5; ++i) v.push_back(i % 2 ? a : b); std::sort(v.begin(), v.end()); v.erase(v.begin()); break; }
            case 5: { NodeValue v(a), w(b), z(v); v = w; w = std::move(z); v = 3; v = b; same("ast-variant", fmt("%d%d", v.get<Node>().to_c() == y, w.get<Node>().to_c() == x), "11"); break; } case 6: { C::Optional<Node> o(a), q; q = o; o = C::Optional<Node>(b); q = std::move(o); same("ast-optional", fmt("%d", q.get()->to_c() == y), "1"); q.clear(); break; } }
        (void)rx; (void)ry; });
}
// }}}
static vector<string> emitted() { vector<string> r; string e = sim_op_effects(); std::istringstream in(e); string l; while (std::getline(in, l)) { size_t p = l.find("ast_emit|"); if (p != string::npos) r.push_back(l.substr(p + 9)); } return r; }
static string tolist(vector<Node> const &v) { string r; for (auto &x : v) r += esc(text(x)) + "\n"; return r; }
static string joinl(vector<string> const &v) { string r; for (auto &x : v) r += x + "\n"; return r; }
static void do_unpool(Pool &p, Node const &x) {
    bool o = W(4) != 0, c = W(4) != 0, d = o && c && W(2); int fl = (c ? clingo_ast_unpool_type_condition : 0) | (o ? clingo_ast_unpool_type_other : 0); vector<Node> r; bool done = false; sim_cb_expect("ast", 0);
    op("Node::unpool", any(), [&]() { if (d) r = x.unpool(); else r = x.unpool(o, c); done = true; });
    sim_cb_expect("ast", 1); if (done) { string e = sim_op_effects(); same("ast-unpool-flags", fmt("%d", e.find(fmt("|%d", fl)) != string::npos && e.find("unpool|") != string::npos), "1"); same("ast-unpool", tolist(r), joinl(emitted())); for (auto &n : r) p.add(n); }
}
struct ALog { int label; void operator()(C::WarningCode c, char const *m) { sim_cb_receive(fmt("message|%d|%d|", label, (int)c).append(esc(m)).c_str()); if (sim_cb_wants_raise("logger")) { if (sim_choose(SIM_FAULT, 2)) throw 5; throw std::runtime_error("logger failed"); } } };
static void do_parse(Pool &p, Env &env) {
    User *u = !env.users.empty() && W(2) ? env.users[W(env.users.size())].get() : nullptr; uint32_t lg = W(3); unsigned lim = rand_limit(); bool files = W(3) == 2, dl = lg != 2; if (dl) lim = 20; int label = 930 + W(5); vector<Node> got;
    static char const *const pr[] = {"a :- b.", "", "p(1..3). % c", "syntax error", "x|y\nz"}; string src = pr[W(5)]; vector<string> fs; vector<char const *> fp; if (files) { src.clear(); for (uint32_t i = 0, n = Wn(3); i < n; ++i) { fs.push_back(W(5) == 4 ? "syntax error" : g_strs[W(6)]); src += (i ? ";" : "") + fs.back(); } for (auto &x : fs) fp.push_back(x.c_str()); }
    sim_logger_label(lg ? label : -3); if (!lg) sim_cb_expect("message", 0);
    auto cb = [&](Node n) { sim_cb_receive(("ast|" + esc(text(n))).c_str()); maybe_raise("ast"); if (W(5) == 4) do_read(n); got.push_back(std::move(n)); maybe_raise("ast_end"); };
    C::Logger l; if (lg) l = ALog{label};
    bool ok = op(files ? "parse_files" : "parse_string", any(), [&]() {
        C::StringSpan f(fp.data(), fp.size());
        if (files) { if (u) { if (!lg) A::parse_files(f, cb, *u->ctl); else if (dl) A::parse_files(f, cb, *u->ctl, l); else A::parse_files(f, cb, *u->ctl, l, lim); } else { if (!lg) A::parse_files(f, cb); else if (dl) A::parse_files(f, cb, l); else A::parse_files(f, cb, l, lim); } }
        else { if (u) { if (!lg) A::parse_string(src.c_str(), cb, *u->ctl); else if (dl) A::parse_string(src.c_str(), cb, *u->ctl, l); else A::parse_string(src.c_str(), cb, *u->ctl, l, lim); } else { if (!lg) A::parse_string(src.c_str(), cb); else if (dl) A::parse_string(src.c_str(), cb, l); else A::parse_string(src.c_str(), cb, l, lim); } } });
    sim_cb_expect("message", 1); sim_logger_label(-1);
    if (ok) { same("ast-parsed", tolist(got), joinl(emitted())); string want = string(files ? "parse_files|" : "parse_string|"), e = sim_op_effects(); size_t q = e.find(want); string head = q == string::npos ? "" : e.substr(q, e.find('\n', q) - q); 
        static int idc = 0; (void)idc; string tail = "|" + esc(src) + fmt("|%u", lim); bool cok = u ? head.find("none") != want.size() : head.find("none") == want.size(); same("ast-parse-arguments", fmt("%d%d", head.size() >= tail.size() && head.compare(head.size() - tail.size(), tail.size(), tail) == 0, cok), "11"); }
    for (auto &n : got) p.add(n);
}
static void add_nodes(Pool &p, A::ProgramBuilder &b) { for (uint32_t n = W(5); n > 0; --n) { Node x = p.any(); op("ProgramBuilder::add", eff("builder_add|" + esc(text(x))), [&]() { b.add(x); }); } }
static void do_builder(Pool &p, User &u) {
    uint32_t how = W(4);
    if (how == 0) { sim_release_faults(0); op_open("with_builder(scope)", any()); Outcome o; try { A::with_builder(*u.ctl, [&](A::ProgramBuilder &b) { add_nodes(p, b); sim_op_note_raised("user:int", "79"); throw 79; }); } catch (...) { o = classify(std::current_exception()); } op_done(o); sim_release_faults(1); return; }
    if (how == 1) { op("with_builder", any(), [&]() { A::with_builder(*u.ctl, [&](A::ProgramBuilder &b) { add_nodes(p, b); }); }); return; }
    std::unique_ptr<A::ProgramBuilder> b; bool ok = op("ProgramBuilder", eff("builder_begin"), [&]() { if (W(3) == 2) { clingo_program_builder_t *r; raw_clingo_program_builder_init(u.raw, &r); b.reset(new A::ProgramBuilder(r)); } else b.reset(new A::ProgramBuilder(*u.ctl)); }); if (!ok) return;
    add_nodes(p, *b); if (W(2)) op("ProgramBuilder(move)", any(), [&]() { A::ProgramBuilder x(std::move(*b)); same("builder-moved", fmt("%d", b->to_c() == nullptr), "1"); add_nodes(p, x); b.reset(new A::ProgramBuilder(std::move(x))); }); if (!b || !b->to_c()) return;
    if (how == 2) { op("ProgramBuilder::close", eff("builder_end"), [&]() { b->close(); }); op("~ProgramBuilder(closed)", none(), [&]() { delete b.release(); }); } else op("~ProgramBuilder", eff("builder_end"), [&]() { delete b.release(); });
}
void fam_ast(Env &env) {
    { uint32_t nu = W(3); for (uint32_t i = 0; i < nu; ++i) { auto u = std::make_unique<User>(); if (make_control(*u)) env.users.push_back(std::move(u)); } }
    {
        Pool p; do_build(p); for (uint32_t n = 3 + W(14); n > 0; --n) {
            if (p.n.empty()) { if (W(2)) do_build(p); else do_parse(p, env); continue; }
            switch (W(14)) {
                case 0: case 1: do_build(p); break; case 2: do_parse(p, env); break; case 3: case 4: do_set(p, p.any()); break; case 5: case 6: do_seq(p, p.any()); break; case 7: do_copy(p, Node(p.any())); break; case 8: do_compare(p.any(), p.any()); break;
                case 9: do_print(p.any()); do_read(p.any()); break; case 10: do_visit(p.any()); break; case 11: do_transform(p, Node(p.any())); break; case 12: do_handle(p); do_unpool(p, Node(p.any())); break; case 13: if (!env.users.empty()) do_builder(p, *env.users[W(env.users.size())]); break;
            }
        }
    }
    for (auto &u : env.users) end_control(*u);
}
