// Symbols, signatures, parsing of terms and the small value types of the interface
#include "common.hh"
#include "views.hh"
#include <list>
#include <algorithm>
#include <set>
#include <sstream>
#include <unordered_set>
namespace {
template <class T> string out(T const &x) { std::ostringstream o; o << x; whole(o); return o.str(); }
int cmp(clingo_symbol_t a, clingo_symbol_t b) { return raw_clingo_symbol_is_equal_to(a, b) ? 0 : raw_clingo_symbol_is_less_than(a, b) ? -1 : 1; }
template <class T> string rel(T const &a, T const &b) { return fmt("%d%d%d%d%d%d", a == b, a != b, a < b, a <= b, a > b, a >= b); }
string relw(int c) { return fmt("%d%d%d%d%d%d", c == 0, c != 0, c < 0, c <= 0, c > 0, c >= 0); }
struct TermLogger { int label; void operator()(C::WarningCode c, char const *m) { sim_cb_receive(fmt("message|%d|%d|", label, (int)c).append(esc(m)).c_str()); if (sim_cb_wants_raise("logger")) throw std::runtime_error("logger failed"); } };
void symbol_ops() {
    C::Symbol s = rand_sym(), t = W(4) ? rand_sym() : s; auto c = s.to_c(), d = t.to_c();
    switch (W(16)) {
        case 0: { int n = weird_number(); op("Number", none(), [&]() { C::Symbol x = C::Number(n); same("symbol:number", sym(x), fmt("%d", n)); same("symbol:number", fmt("%d", x.number()), fmt("%d", n)); }); break; }
        case 1: { string v = weird_string(); op("String", none(), [&]() { C::Symbol x = C::String(v.c_str()); same("symbol:string", x.string(), v); }); break; }
        case 2: { bool p = W(2); op("Id", none(), [&]() { C::Symbol x = C::Id("name", p); same("symbol:id", sym(x), p ? "name" : "-name"); same("symbol:positive", fmt("%d%d", x.is_positive(), x.is_negative()), p ? "10" : "01"); }); break; }
        case 3: { vector<C::Symbol> a; string w; for (uint32_t i = Wn(4); i > 0; --i) { a.push_back(rand_sym(1)); w += (w.empty() ? "" : ",") + sym(a.back()); } bool tup = W(2), p = tup || W(2);
            op("Function", none(), [&]() { C::Symbol x = p && W(2) ? C::Function(tup ? "" : "fun", a) : C::Function(tup ? "" : "fun", a, p); string want = (p ? "" : "-") + string(tup ? "" : "fun") + (a.empty() && !tup ? "" : "(" + w + (tup && a.size() == 1 ? "," : "") + ")"); same("symbol:function", sym(x), want); same("symbol:arguments", syms(x.arguments()), syms(a)); same("symbol:name", x.name(), tup ? "" : "fun"); same("symbol:match", fmt("%d%d%d", x.match(tup ? "" : "fun", a.size()), x.match("fun", a.size() + 1), x.match("other", a.size())), "100"); }); break; }
        case 4: op("Infimum/Supremum", none(), [&]() { same("symbol:inf", sym(C::Infimum()), "#inf"); same("symbol:sup", sym(C::Supremum()), "#sup"); same("symbol:default", sym(C::Symbol()), "0"); }); break;
        case 5: case 6: op("Symbol compare", none(), [&]() { same("symbol:compare", rel(s, t), relw(cmp(c, d))); }); break;
        case 7: op("Symbol hash", none(), [&]() { same("symbol:hash", fmt("%zu", std::hash<C::Symbol>()(s)), fmt("%zu", raw_clingo_symbol_hash(c))); if (s == t && s.hash() != t.hash()) sim_violation("symbol:hash", "equal symbols have different hashes"); }); break;
        case 8: op("Symbol::to_string", none(), [&]() { same("symbol:to_string", s.to_string(), sym(c)); }); break;
        case 9: op("Symbol <<", none(), [&]() { same("symbol:print", out(s), sym(c)); }); break;
        case 10: op("Symbol::type", none(), [&]() { same("symbol:type", fmt("%d", (int)s.type()), fmt("%d", (int)raw_clingo_symbol_type(c))); }); break;
        case 11: { bool ok; int n = 0; ok = raw_clingo_symbol_number(c, &n); op("Symbol::number", any(), [&]() { int x = s.number(); same("symbol:number", fmt("%d %d", 1, x), fmt("%d %d", ok, n)); }); break; }
        case 12: { char const *n = nullptr; bool ok = raw_clingo_symbol_name(c, &n); op("Symbol::name", any(), [&]() { string x = s.name(); same("symbol:name", x, ok ? n : "<error>"); }); break; }
        case 13: { bool p = false, q = false; bool ok = raw_clingo_symbol_is_positive(c, &p); raw_clingo_symbol_is_negative(c, &q); op("Symbol::sign", any(), [&]() { bool x = s.is_positive(), y = s.is_negative(); same("symbol:sign", fmt("1%d%d", x, y), fmt("%d%d%d", ok, p, q)); }); break; }
        case 14: { clingo_symbol_t const *a = nullptr; size_t n = 0; bool ok = raw_clingo_symbol_arguments(c, &a, &n); op("Symbol::arguments", any(), [&]() { auto x = s.arguments(); string w; for (size_t i = 0; i < n; ++i) w += (i ? ";" : "") + sym(a[i]); same("symbol:arguments", "1" + syms(x), (ok ? "1" : "0") + w); same("symbol:argcount", fmt("%zu%d", x.size(), x.empty()), fmt("%zu%d", n, n == 0)); if (n) same("symbol:args", sym(x.front()) + sym(x[n - 1]) + sym(x.back()), sym(a[0]) + sym(a[n - 1]) + sym(a[n - 1])); same("symbol:printspan", out(x), [&]() { string r = "{"; for (size_t i = 0; i < n; ++i) r += (i ? ", " : " ") + sym(a[i]); return r + " }"; }()); }); break; }
        case 15: { vector<C::Symbol> v; for (uint32_t i = Wn(8); i > 0; --i) v.push_back(rand_sym(1)); op("Symbol sort", none(), [&]() { auto a = v; std::sort(a.begin(), a.end()); auto b = v; std::sort(b.begin(), b.end(), [](C::Symbol x, C::Symbol y) { return cmp(x.to_c(), y.to_c()) < 0; }); same("symbol:sort", syms(a), syms(b)); std::unordered_set<C::Symbol> h(v.begin(), v.end()); std::set<C::Symbol> o(v.begin(), v.end()); same("symbol:set", fmt("%zu", h.size()), fmt("%zu", o.size())); }); break; }
    }
}
string sigtext(clingo_signature_t s) { return string(raw_clingo_signature_is_negative(s) ? "-" : "") + raw_clingo_signature_name(s) + fmt("/%u", raw_clingo_signature_arity(s)); }
void signature_ops() {
    static char const *const names[] = {"a", "b", "", "q'"}; string n = names[W(4)]; uint32_t k = W(4) == 3 ? 4000000000u : W(3); bool p = W(2);
    std::list<C::Signature> l; if (!op("Signature", none(), [&]() { if (p && W(2)) l.emplace_back(n.c_str(), k); else l.emplace_back(n.c_str(), k, p); })) return;
    clingo_signature_t raw; raw_clingo_signature_create(names[W(4)], W(3), W(2), &raw); C::Signature s = l.front(), t = W(4) ? C::Signature(raw) : s;
    op("Signature queries", none(), [&]() {
        same("signature:fields", fmt("%s/%u/%d%d", s.name(), s.arity(), s.positive(), s.negative()), fmt("%s/%u/%d%d", n.c_str(), k, p, !p)); same("signature:print", out(s), (p ? "" : "-") + n + fmt("/%u", k)); same("signature:text", out(t), sigtext(t.to_c()));
        auto a = s.to_c(), b = t.to_c(); same("signature:compare", rel(s, t), relw(raw_clingo_signature_is_equal_to(a, b) ? 0 : raw_clingo_signature_is_less_than(a, b) ? -1 : 1)); same("signature:hash", fmt("%zu", std::hash<C::Signature>()(s)), fmt("%zu", raw_clingo_signature_hash(a))); });
}
void parse_ops(int &labels) {
    C::Symbol s = rand_sym(); string t = sym(s); bool bad = W(4) == 3; if (bad) { static char const *const b[] = {"", "p(", "p(x", "1 2", "\"", "%s", "p(1/0)"}; t = b[W(7)]; }
    bool lg = W(2), lim = W(2); unsigned limit = rand_limit(); C::Logger f; int label = 500 + labels++ % 400; if (lg) { f = TermLogger{label}; sim_logger_label(label); } else { sim_cb_expect("message", 0); sim_logger_label(-9); }
    Expect e = none(); if (bad) e = any();
    op("parse_term", e, [&]() { C::Symbol x = lim ? C::parse_term(t.c_str(), f, limit) : lg || W(2) ? C::parse_term(t.c_str(), f) : C::parse_term(t.c_str()); if (!bad) { same("parse-limit", sim_last_result(), fmt("limit|%u", lim ? limit : 20)); same("parse-term", sym(x), t); } });
    sim_cb_expect("message", 1); sim_logger_label(0);
}
void value_ops() {
    switch (W(12)) {
        case 9: { vector<C::Symbol> v; vector<string> w; string j; for (uint32_t i = Wn(5); i > 0; --i) { v.push_back(rand_sym(1)); w.push_back(sym(v.back())); j += (j.empty() ? " " : ", ") + w.back(); } string nm = weird_string();
            op("Part", none(), [&]() { C::SymbolSpan s(v); auto t = [](C::Symbol x) { return sym(x); }; span("span:symbols", s, w, t); same("print:span", out(s), "{" + j + " }"); C::Part a(nm.c_str(), s); C::Part b(a.to_c()); same("part:name", b.name(), nm); span("part:params", b.params(), w, t); same("part:raw", fmt("%zu%d", const_cast<C::Part const &>(a).to_c().size, a.to_c().name == nm.c_str()), fmt("%zu1", v.size())); }); break; }
        case 10: { int l = (int)W(9) - 4, g = weird_number(); op("WeightedLiteral", none(), [&]() { C::WeightedLiteral a(l, g), b(clingo_weighted_literal_t{l, g}); same("weighted-literal", fmt("%d@%d %d@%d %d@%d", a.literal(), a.weight(), b.literal(), b.weight(), a.to_c().literal, const_cast<C::WeightedLiteral const &>(b).to_c().weight), fmt("%d@%d %d@%d %d@%d", l, g, l, g, l, g)); same("span:initializer", wlits(C::Span<C::WeightedLiteral>{a, b}), fmt("%d@%d,%d@%d", l, g, l, g)); }); break; }
        case 11: { uint32_t k = W(4); op("ClauseType <<", none(), [&]() { static char const *const w[] = {"Learnt", "Volatile", "Static", nullptr}; (void)w; same("print:clause-type", out(C::ClauseType::Learnt) + "|" + out(C::ClauseType::Static) + "|" + out(C::ClauseType::Volatile) + "|" + out(C::ClauseType::VolatileStatic), "Learnt|Static|Volatile|VolatileStatic"); C::Optional<int> o(5), q(o), e, f(e); C::Optional<int> const co(o), ce(co); same("optional:copies", fmt("%d%d%d%d%d%d", *q, *ce, (bool)e, (bool)f, *co.get(), (bool)o), "550051"); o.emplace(7); q.clear(); same("optional:changed", fmt("%d%d%d", *o, (bool)q, *co), "705"); (void)k; }); break; }
        case 0: { string v = weird_string(); op("add_string", none(), [&]() { char const *p = C::add_string(v.c_str()); same("add_string", p, v); if (C::add_string(v.c_str()) != p) sim_violation("add_string", "equal strings are stored twice"); }); break; }
        case 1: op("version", none(), [&]() { int a, b, c; clingo_version(&a, &b, &c); auto v = C::version(); same("version", fmt("%d.%d.%d", std::get<0>(v), std::get<1>(v), std::get<2>(v)), fmt("%d.%d.%d", a, b, c)); }); break;
        case 2: { uint32_t r = W(16); op("SolveResult <<", none(), [&]() { C::SolveResult x(r); string w = r & 1 ? string("SATISFIABLE") + (r & 4 ? "" : "+") : r & 2 ? "UNSATISFIABLE" : "UNKNOWN"; if (r & 8) w += "/INTERRUPTED"; same("print:solve-result", out(x), w); same("solve-result:flags", fmt("%d%d%d%d%d", x.is_satisfiable(), x.is_unsatisfiable(), x.is_unknown(), x.is_exhausted(), x.is_interrupted()), fmt("%d%d%d%d%d", (r & 1) != 0, (r & 2) != 0, !(r & 3), (r & 4) != 0, (r & 8) != 0)); C::SolveResult y(r ^ (W(2) << W(4))); same("solve-result:compare", fmt("%d%d", x == y, x != y), fmt("%d%d", x.to_c() == y.to_c(), x.to_c() != y.to_c())); }); break; }
        case 3: { size_t bl = 1 + W(2), el = 1 + W(2), bc = 1 + W(3), ec = 1 + W(3); bool sf = W(3) != 2; op("Location <<", none(), [&]() { C::Location l("f.lp", sf ? "f.lp" : "g.lp", bl, el, bc, ec); string w = fmt("f.lp:%zu:%zu", bl, bc); if (!sf) w += fmt("-g.lp:%zu:%zu", el, ec); else if (bl != el) w += fmt("-%zu:%zu", el, ec); else if (bc != ec) w += fmt("-%zu", ec); same("print:location", out(l), w); same("location", fmt("%s %s %zu %zu %zu %zu", l.begin_file(), l.end_file(), l.begin_line(), l.end_line(), l.begin_column(), l.end_column()), fmt("f.lp %s %zu %zu %zu %zu", sf ? "f.lp" : "g.lp", bl, el, bc, ec)); }); break; }
        case 4: op("enumerations <<", none(), [&]() {
            same("print:truth", out(C::TruthValue::Free) + out(C::TruthValue::True) + out(C::TruthValue::False), "FreeTrueFalse"); same("print:external", out(C::ExternalType::Free) + out(C::ExternalType::True) + out(C::ExternalType::False) + out(C::ExternalType::Release), "FreeTrueFalseRelease");
            same("print:heuristic", out(C::HeuristicType::Level) + out(C::HeuristicType::Sign) + out(C::HeuristicType::Factor) + out(C::HeuristicType::Init) + out(C::HeuristicType::True) + out(C::HeuristicType::False), "LevelSignFactorInitTrueFalse"); same("print:clause", out(C::ClauseType::Learnt) + out(C::ClauseType::Static) + out(C::ClauseType::Volatile), "LearntStaticVolatile");
            for (int i = 1; i < 5; ++i) same("print:error-code", out((C::ErrorCode)i), clingo_error_string(i)); for (int i = 0; i < 7; ++i) same("print:warning-code", out((C::WarningCode)i), clingo_warning_string(i)); }); break;
        case 5: { C::Symbol s = rand_sym(), t = W(3) ? rand_sym() : s; bool p = W(2), q = W(2); op("SymbolicLiteral", none(), [&]() { C::SymbolicLiteral a(s, p), b(t, q); same("print:symbolic-literal", out(a), (p ? "" : "~") + sym(s)); same("symbolic-literal", fmt("%d%d", a.is_positive(), a.is_negative()), p ? "10" : "01"); same("symbolic-literal:compare", fmt("%d%d", a == b, a != b), p == q && raw_clingo_symbol_is_equal_to(s.to_c(), t.to_c()) ? "10" : "01"); same("symbolic-literal:relations", rel(a, b), relw(a == b ? 0 : a < b ? -1 : 1)); if (a == b ? (a < b || b < a) : !((a < b) != (b < a))) sim_violation("symbolic-literal:order", "no total order"); }); break; }
        case 6: { vector<int> v; for (uint32_t i = Wn(5); i > 0; --i) v.push_back(weird_number()); op("Span", none(), [&]() { C::Span<int> s(v), t(v.data(), v.size()), u; same("span", nums(s) + "|" + nums(t) + fmt("|%zu%d%d", s.size(), s == t, s == u), nums(v) + "|" + nums(v) + fmt("|%zu1%d", v.size(), v.empty())); string w = "{"; for (size_t i = 0; i < v.size(); ++i) w += fmt(i ? ", %d" : " %d", v[i]); same("print:span", out(s), w + " }"); C::Span<int> il{1, 2, 3}; (void)il; }); break; }
        case 7: op("Optional", none(), [&]() { C::Optional<string> a, b(string("some value that is long enough for the heap")); a = b; same("optional:copy", *a, *b); a = *a; same("optional:own-value", *a, *b); auto &r = a; a = r; same("optional:self", a ? *a : "<none>", *b); C::Optional<string> c(std::move(a)); same("optional:move", fmt("%d", (bool)a) + *c, "0" + *b); a.emplace("x"); same("optional:emplace", *a, "x"); a.clear(); if (a) sim_violation("optional:clear", "not empty"); b = a; if (b) sim_violation("optional:empty", "assigning an empty one keeps the value"); }); break;
        case 8: op("Variant", none(), [&]() { using V = C::Variant<int, string, double>; V a(5), b(string("text")), c(a); same("variant:is", fmt("%d%d%d %d%d%d", a.is<int>(), a.is<string>(), a.is<double>(), b.is<int>(), b.is<string>(), b.is<double>()), "100 010"); same("variant:get", fmt("%d %s %d", a.get<int>(), b.get<string>().c_str(), c.get<int>()), "5 text 5"); bool bad = false; try { a.get<string>(); } catch (std::bad_cast const &) { bad = true; } if (!bad) sim_violation("variant:get", "wrong type accepted"); a.swap(b); same("variant:swap", a.get<string>() + fmt("%d", b.get<int>()), "text5"); b = a; same("variant:assign", out(b), "text"); a.emplace<double>(1.5); same("variant:emplace", out(a), "1.5"); a = 7; same("variant:assign-value", out(a), "7"); V d(std::move(b)); same("variant:move", out(d), "text"); c = c; same("variant:self", out(c), "5"); }); break;
    }
}
} // namespace
void fam_symbols(Env &) { int labels = 0; for (uint32_t n = 3 + W(20); n > 0; --n) switch (W(8)) { case 0: case 1: case 2: case 3: symbol_ops(); break; case 4: case 5: signature_ops(); break; case 6: parse_ops(labels); break; case 7: value_ops(); break; } }
