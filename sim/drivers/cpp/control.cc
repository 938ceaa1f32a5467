// Controls: creation, commands, grounding, backend, observers, propagators, queries
#include "common.hh"
#include "views.hh"
#include <algorithm>
#include <sstream>
#include <climits>
// {{{ observers
struct Obs : C::GroundProgramObserver {
    User *u; int idx; bool partial = false;
    void got(char const *fn, string const &t) { sim_cb_receive((string("observer:") + fn + "|" + fmt("%d|", idx) + t).c_str()); if (W(24) == 23) check_control(*u); maybe_raise("observer"); }
    void init_program(bool inc) override { C::GroundProgramObserver::init_program(inc); got("init_program", fmt("%d", inc)); }
    void begin_step() override { C::GroundProgramObserver::begin_step(); got("begin_step", ""); }
    void end_step() override { C::GroundProgramObserver::end_step(); got("end_step", ""); }
    void rule(bool ch, C::AtomSpan h, C::LiteralSpan b) override { C::GroundProgramObserver::rule(ch, h, b); got("rule", fmt("%d|", ch) + nums(h) + "|" + nums(b)); }
    void weight_rule(bool ch, C::AtomSpan h, C::weight_t lb, C::WeightedLiteralSpan b) override { C::GroundProgramObserver::weight_rule(ch, h, lb, b); got("weight_rule", fmt("%d|", ch) + nums(h) + fmt("|%d|", lb) + wlits(b)); }
    void minimize(C::weight_t p, C::WeightedLiteralSpan l) override { C::GroundProgramObserver::minimize(p, l); got("minimize", fmt("%d|", p) + wlits(l)); }
    void project(C::AtomSpan a) override { C::GroundProgramObserver::project(a); got("project", nums(a)); }
    void output_atom(C::Symbol s, C::atom_t a) override { C::GroundProgramObserver::output_atom(s, a); got("output_atom", sym(s) + fmt("|%u", a)); }
    void output_term(C::Symbol s, C::LiteralSpan c) override { C::GroundProgramObserver::output_term(s, c); got("output_term", sym(s) + "|" + nums(c)); }
    void external(C::atom_t a, C::ExternalType t) override { C::GroundProgramObserver::external(a, t); got("external", fmt("%u|%d", a, (int)t)); }
    void assume(C::LiteralSpan l) override { C::GroundProgramObserver::assume(l); got("assume", nums(l)); }
    void heuristic(C::atom_t a, C::HeuristicType t, int bias, unsigned pr, C::LiteralSpan c) override { C::GroundProgramObserver::heuristic(a, t, bias, pr, c); got("heuristic", fmt("%u|%d|%d|%u|", a, (int)t, bias, pr) + nums(c)); }
    void acyc_edge(int x, int y, C::LiteralSpan c) override { C::GroundProgramObserver::acyc_edge(x, y, c); got("acyc_edge", fmt("%d|%d|", x, y) + nums(c)); }
    void theory_term_number(C::id_t t, int n) override { C::GroundProgramObserver::theory_term_number(t, n); got("theory_term_number", fmt("%u|%d", t, n)); }
    void theory_term_string(C::id_t t, char const *n) override { C::GroundProgramObserver::theory_term_string(t, n); got("theory_term_string", fmt("%u|", t) + esc(n)); }
    void theory_term_compound(C::id_t t, int n, C::IdSpan a) override { C::GroundProgramObserver::theory_term_compound(t, n, a); got("theory_term_compound", fmt("%u|%d|", t, n) + nums(a)); }
    void theory_element(C::id_t e, C::IdSpan t, C::LiteralSpan c) override { C::GroundProgramObserver::theory_element(e, t, c); got("theory_element", fmt("%u|", e) + nums(t) + "|" + nums(c)); }
    void theory_atom(C::id_t a, C::id_t t, C::IdSpan e) override { C::GroundProgramObserver::theory_atom(a, t, e); got("theory_atom", fmt("%u|%u|", a, t) + nums(e)); }
    void theory_atom_with_guard(C::id_t a, C::id_t t, C::IdSpan e, C::id_t o, C::id_t r) override { C::GroundProgramObserver::theory_atom_with_guard(a, t, e, o, r); got("theory_atom_with_guard", fmt("%u|%u|", a, t) + nums(e) + fmt("|%u|%u", o, r)); }
};
void add_observer(User &u) {
    auto o = std::make_unique<Obs>(); o->u = &u; bool rep = W(2); auto *p = o.get(); u.obs.push_back(std::move(o)); p->idx = u.nobs;
    if (op("Control::register_observer", eff(fmt("register_observer|1111111111111111111|%d", rep)), [&]() { u.ctl->register_observer(*p, rep); })) u.nobs++;
}
// }}}
// {{{ propagators
static int lit(int n) { static int const big[] = {127, 128, 255, 256, 32768, 65536, 100000, 1073741824, 2147483647}; return (Wc(1, 60) ? big[W(9)] : (int)(1 + W(n))) * (W(2) ? -1 : 1); }
static vector<C::literal_t> rlits(int n = 9) { vector<C::literal_t> r; for (uint32_t i = 0, k = Wn(5); i < k; ++i) r.push_back(lit(n)); return r; }
static vector<C::WeightedLiteral> rwlits() { vector<C::WeightedLiteral> r; for (uint32_t i = 0, k = W(4); i < k; ++i) { clingo_weighted_literal_t w{lit(9), weird_number()}; r.emplace_back(w); } return r; }
static void check_assignment(C::Assignment a) {
    auto *p = a.to_c(); int n = (int)raw_clingo_assignment_size(p);
    for (uint32_t k = 1 + W(4); k > 0; --k) {
        C::literal_t l = lit(n ? n : 1);
        switch (W(14)) {
            case 12: op("Assignment::walk", none(), [&]() { vector<string> w; for (int i = 0; i < n; ++i) { clingo_literal_t y; raw_clingo_assignment_at(p, i, &y); w.push_back(fmt("%d", y)); } auto t = [](C::literal_t l) { return fmt("%d", l); }; walk("query:assignment.walk", a.begin(), a.end(), w, t); size_t i = n ? W(n) : 0; if (n) same("query:assignment.index", t(a[i]), w[i]); same("query:assignment.to_c", fmt("%d%d", a.to_c() == p, a.trail().to_c() == p), "11"); }); break;
            case 13: op("Trail::walk", none(), [&]() { vector<string> w; uint32_t m; raw_clingo_assignment_trail_size(p, &m); for (uint32_t i = 0; i < m; ++i) { clingo_literal_t y; raw_clingo_assignment_trail_at(p, i, &y); w.push_back(fmt("%d", y)); } auto f = [](C::literal_t l) { return fmt("%d", l); }; auto t = a.trail(); walk("query:trail.walk", t.begin(), t.end(), w, f); if (m) { uint32_t i = W(m); same("query:trail.index", f(t[i]), w[i]); }
                uint32_t lv = W(raw_clingo_assignment_decision_level(p) + 1), b, e; raw_clingo_assignment_trail_begin(p, lv, &b); raw_clingo_assignment_trail_end(p, lv, &e); same("query:trail.offsets", fmt("%u-%u", t.begin_offset(lv), t.end_offset(lv)), fmt("%u-%u", b, e)); walk("query:trail.walk-level", t.begin(lv), t.end(lv), vector<string>(w.begin() + b, w.begin() + e), f); }); break;
            case 0: op("Assignment::truth_value", none(), [&]() { auto x = a.truth_value(l); clingo_truth_value_t y; raw_clingo_assignment_truth_value(p, l, &y); same("query:assignment.truth_value", fmt("%d", (int)x), fmt("%d", y)); }); break;
            case 1: op("Assignment::level", none(), [&]() { auto x = a.level(l); uint32_t y; raw_clingo_assignment_level(p, l, &y); same("query:assignment.level", fmt("%u", x), fmt("%u", y)); }); break;
            case 2: { uint32_t lv = W(raw_clingo_assignment_decision_level(p) + 1); op("Assignment::decision", none(), [&]() { auto x = a.decision(lv); clingo_literal_t y; raw_clingo_assignment_decision(p, lv, &y); same("query:assignment.decision", fmt("%d", x), fmt("%d", y)); }); break; }
            case 3: op("Assignment::is_fixed", none(), [&]() { bool x = a.is_fixed(l), y; raw_clingo_assignment_is_fixed(p, l, &y); same("query:assignment.is_fixed", fmt("%d", x), fmt("%d", y)); }); break;
            case 4: op("Assignment::is_true", none(), [&]() { bool x = a.is_true(l), y; raw_clingo_assignment_is_true(p, l, &y); same("query:assignment.is_true", fmt("%d", x), fmt("%d", y)); }); break;
            case 5: op("Assignment::is_false", none(), [&]() { bool x = a.is_false(l), y; raw_clingo_assignment_is_false(p, l, &y); same("query:assignment.is_false", fmt("%d", x), fmt("%d", y)); }); break;
            case 6: op("Assignment::iterate", none(), [&]() { string g, w; for (auto x : a) g += fmt("%d,", x); for (int i = 0; i < n; ++i) { clingo_literal_t y; raw_clingo_assignment_at(p, i, &y); w += fmt("%d,", y); } same("query:assignment.iterate", g, w); }); break;
            case 7: op("Assignment::info", none(), [&]() { same("query:assignment.info", fmt("%u,%u,%d,%zu,%d,%d,%d", a.decision_level(), a.root_level(), a.has_conflict(), a.size(), a.is_total(), a.has_literal(l), a.has_literal(n + 5)), fmt("%u,%u,%d,%zu,%d,%d,%d", raw_clingo_assignment_decision_level(p), raw_clingo_assignment_root_level(p), raw_clingo_assignment_has_conflict(p), raw_clingo_assignment_size(p), raw_clingo_assignment_is_total(p), raw_clingo_assignment_has_literal(p, l), raw_clingo_assignment_has_literal(p, n + 5))); }); break;
            case 8: op("Trail::iterate", none(), [&]() { string g, w; auto t = a.trail(); for (auto x : t) g += fmt("%d,", x); uint32_t m; raw_clingo_assignment_trail_size(p, &m); for (uint32_t i = 0; i < m; ++i) { clingo_literal_t y; raw_clingo_assignment_trail_at(p, i, &y); w += fmt("%d,", y); } same("query:trail.iterate", g, w); same("query:trail.size", fmt("%u", t.size()), fmt("%u", m)); }); break;
            case 9: { uint32_t lv = W(raw_clingo_assignment_decision_level(p) + 1); op("Trail::level", none(), [&]() { string g, w; auto t = a.trail(); for (auto i = t.begin(lv), e = t.end(lv); i != e; ++i) g += fmt("%d,", *i); uint32_t b, e; raw_clingo_assignment_trail_begin(p, lv, &b); raw_clingo_assignment_trail_end(p, lv, &e); for (; b < e; ++b) { clingo_literal_t y; raw_clingo_assignment_trail_at(p, b, &y); w += fmt("%d,", y); } same("query:trail.level", g, w); }); break; }
            case 10: { size_t o = W(n + 2); op("Assignment::at", any(), [&]() { auto x = a.at(o); clingo_literal_t y = 0; raw_clingo_assignment_at(p, o, &y); same("query:assignment.at", fmt("%d", x), fmt("%d", y)); }); break; }
            case 11: op("Assignment::bad literal", any(), [&]() { static_cast<void>(a.is_true(n + 7)); }); break;
        }
    }
}
struct Prop : C::Heuristic {
    User *u; int idx; bool seq; int active = 0; vector<vector<std::pair<uint32_t, vector<int>>>> stack; bool haswatch = false;
    struct In { Prop &p; In(Prop &p, char const *what) : p(p) { if (p.active++ && p.seq) sim_violation("sequential-overlap", fmt("%s callback of a sequential propagator overlaps another one", what).c_str()); } ~In() { p.active--; } };
    void init(C::PropagateInit &i) override {
        In in(*this, "init"); C::Heuristic::init(i); sim_cb_receive(fmt("init|%d|%d|%d", idx, i.number_of_threads(), (int)i.get_check_mode()).c_str()); maybe_raise("init"); auto *p = i.to_c(); int nt = raw_clingo_propagate_init_number_of_threads(p);
        for (uint32_t k = 1 + W(9); k > 0; --k) switch (W(19)) {
            case 0: case 1: case 2: { int l = lit(6); op("PropagateInit::add_watch", eff(fmt("add_watch|%d", l)), [&]() { i.add_watch(l); }); break; }
            case 3: { int l = lit(6); uint32_t t = W(nt + (W(8) == 7)); op("PropagateInit::add_watch(thread)", eff(fmt("add_watch|%d|%u", l, t)), [&]() { i.add_watch(l, t); }); break; }
            case 4: { int l = lit(6); op("PropagateInit::remove_watch", eff(fmt("remove_watch|%d", l)), [&]() { i.remove_watch(l); }); break; }
            case 5: { int l = lit(6); uint32_t t = W(nt); op("PropagateInit::remove_watch(thread)", eff(fmt("remove_watch|%d|%u", l, t)), [&]() { i.remove_watch(l, t); }); break; }
            case 6: { int l = lit(6); op("PropagateInit::freeze_literal", eff(fmt("freeze|%d", l)), [&]() { i.freeze_literal(l); }); break; }
            case 7: { int m = W(4); op("PropagateInit::set_check_mode", eff(fmt("check_mode|%d", m)), [&]() { i.set_check_mode((C::PropagatorCheckMode)m); }); break; }
            case 8: { int m = W(2); op("PropagateInit::set_undo_mode", eff(fmt("undo_mode|%d", m)), [&]() { i.set_undo_mode((C::PropagatorUndoMode)m); }); op("PropagateInit::get_undo_mode", none(), [&]() { same("query:undo_mode", fmt("%d", (int)i.get_undo_mode()), fmt("%d", (int)raw_clingo_propagate_init_get_undo_mode(p))); }); break; }
            case 9: { bool f = W(2), d = W(3) == 2; op("PropagateInit::add_literal", eff(fmt("add_literal|%d", d ? 1 : f)), [&]() { auto l = d ? i.add_literal() : i.add_literal(f); same_result("add_literal-result", fmt("%d", l)); }); break; }
            case 10: { auto c = rlits(); op("PropagateInit::add_clause", eff("clause|" + nums(c)), [&]() { bool r = i.add_clause(c); same_result("add_clause-result", fmt("%d", r)); }); break; }
            case 11: { auto w = rwlits(); int l = lit(6), b = weird_number(), t = (int)W(3) - 1; int eq = W(3); op("PropagateInit::add_weight_constraint", eff(fmt("weight_constraint|%d|", l) + wlits(w) + fmt("|%d|%d|%d", b, t, eq == 1)), [&]() { bool r = eq == 2 ? i.add_weight_constraint(l, w, b, (C::WeightConstraintType)t) : i.add_weight_constraint(l, w, b, (C::WeightConstraintType)t, eq); same_result("add_weight_constraint-result", fmt("%d", r)); }); break; }
            case 12: { int l = lit(6), w = weird_number(), pr = W(3) ? weird_number() : 0; bool d = pr == 0 && W(2); op("PropagateInit::add_minimize", eff(fmt("add_minimize|%d|%d|%d", l, w, pr)), [&]() { if (d) i.add_minimize(l, w); else i.add_minimize(l, w, pr); }); break; }
            case 13: op("PropagateInit::propagate", eff("propagate"), [&]() { bool r = i.propagate(); same_result("init-propagate-result", fmt("%d", r)); }); break;
            case 14: { int l = lit(9); op("PropagateInit::solver_literal", none(), [&]() { auto x = i.solver_literal(l); clingo_literal_t y; raw_clingo_propagate_init_solver_literal(p, l, &y); same("query:solver_literal", fmt("%d", x), fmt("%d", y)); }); break; }
            case 15: check_assignment(i.assignment()); break;
            case 16: op("PropagateInit::symbolic_atoms", none(), [&]() { string g, w; for (auto &x : i.symbolic_atoms()) g += fmt("%d,", x.literal()); clingo_symbolic_atoms_t const *a; raw_clingo_control_symbolic_atoms(u->raw, &a); clingo_symbolic_atom_iterator_t it; raw_clingo_symbolic_atoms_begin(a, nullptr, &it); for (;;) { bool v; raw_clingo_symbolic_atoms_is_valid(a, it, &v); if (!v) break; clingo_literal_t l; raw_clingo_symbolic_atoms_literal(a, it, &l); w += fmt("%d,", l); raw_clingo_symbolic_atoms_next(a, it, &it); } same("query:init.symbolic_atoms", g, w); }); break;
            case 17: op("PropagateInit::theory_atoms", none(), [&]() { clingo_theory_atoms_t const *t; raw_clingo_control_theory_atoms(u->raw, &t); size_t n; raw_clingo_theory_atoms_size(t, &n); same("query:init.theory_atoms", fmt("%zu", i.theory_atoms().size()), fmt("%zu", n)); }); break;
            case 18: maybe_raise("init"); break;
        }
    }
    void act(C::PropagateControl &c) {
        uint32_t t = raw_clingo_propagate_control_thread_id(c.to_c());
        for (uint32_t k = W(5); k > 0; --k) switch (W(8)) {
            case 0: { auto l = rlits(6); int ty = W(4); bool go = true; bool d = W(3) == 2; op("PropagateControl::add_clause", eff(fmt("T%u|clause|%d|", t, d ? 0 : ty) + nums(l)), [&]() { bool r = d ? c.add_clause(l) : c.add_clause(l, (C::ClauseType)ty); same_result("add_clause-result", fmt("%d", r)); go = r; }); if (!go) { sim_probe("clause-conflict"); return; } break; }
            case 1: { bool go = true; op("PropagateControl::propagate", eff(fmt("T%u|propagate", t)), [&]() { bool r = c.propagate(); same_result("propagate-result", fmt("%d", r)); go = r; }); if (!go) return; break; }
            case 2: op("PropagateControl::add_literal", eff(fmt("T%u|add_literal", t)), [&]() { auto l = c.add_literal(); same_result("add_literal-result", fmt("%d", l)); }); break;
            case 3: { int l = lit(6); op("PropagateControl::add_watch", eff(fmt("T%u|add_watch|%d", t, l)), [&]() { c.add_watch(l); }); op("PropagateControl::has_watch", none(), [&]() { same("query:has_watch", fmt("%d", c.has_watch(l)), fmt("%d", raw_clingo_propagate_control_has_watch(c.to_c(), l))); }); break; }
            case 4: { int l = lit(6); op("PropagateControl::remove_watch", eff(fmt("T%u|remove_watch|%d", t, l)), [&]() { c.remove_watch(l); }); break; }
            case 5: check_assignment(c.assignment()); break;
            case 6: if (seq) break; sim_yield(); break;
            case 7: maybe_raise("propagator"); break;
        }
    }
    void propagate(C::PropagateControl &c, C::LiteralSpan ch) override {
        In in(*this, "propagate"); uint32_t t = c.thread_id(); if (W(8) == 7) C::Heuristic::propagate(c, ch); sim_cb_receive(fmt("propagate|%d|%u|", idx, t).append(nums(ch)).append(fmt("|%u", c.assignment().decision_level())).c_str());
        maybe_raise("propagate"); act(c); maybe_raise("propagate_end");
    }
    void undo(C::PropagateControl const &c, C::LiteralSpan ch) noexcept override {
        In in(*this, "undo"); C::Heuristic::undo(c, ch); sim_cb_receive(fmt("undo|%d|%u|", idx, c.thread_id()).append(nums(ch)).append(fmt("|%u", c.assignment().decision_level())).c_str()); sim_yield();
    }
    void check(C::PropagateControl &c) override { In in(*this, "check"); C::Heuristic::check(c); sim_cb_receive(fmt("check|%d|%u|%u", idx, c.thread_id(), c.assignment().decision_level()).c_str()); maybe_raise("check"); act(c); }
    C::literal_t decide(C::id_t t, C::Assignment const &a, C::literal_t f) override {
        In in(*this, "decide"); same("default-callback:decide", fmt("%d", C::Heuristic::decide(t, a, f)), "0"); sim_cb_receive(fmt("decide|%d|%u|%d", idx, t, f).c_str()); maybe_raise("decide"); if (W(3) == 2) check_assignment(a); C::literal_t r = W(3) == 0 ? f : W(3) == 0 ? 0 : lit(5); sim_cb_promise(fmt("%d", r).c_str()); return r;
    }
};
struct PropW : C::Propagator { // forwards to a full one: registered without heuristic
    Prop *p;
    void init(C::PropagateInit &i) override { p->init(i); }
    void propagate(C::PropagateControl &c, C::LiteralSpan ch) override { p->propagate(c, ch); }
    void undo(C::PropagateControl const &c, C::LiteralSpan ch) noexcept override { p->undo(c, ch); }
    void check(C::PropagateControl &c) override { p->check(c); }
};
void add_propagator(User &u) {
    auto o = std::make_unique<Prop>(); auto *p = o.get(); p->u = &u; p->seq = W(2); p->idx = u.nprop; u.props.push_back(std::move(o)); bool heur = W(2), d = !p->seq && W(2); bool ok;
    if (heur) ok = op("Control::register_propagator(heuristic)", eff("register_propagator|11111"), [&]() { if (d) u.ctl->register_propagator(*p); else u.ctl->register_propagator(*p, p->seq); });
    else { auto w = std::make_unique<PropW>(); w->p = p; auto *q = w.get(); u.props.push_back(std::move(w)); ok = op("Control::register_propagator", eff("register_propagator|11110"), [&]() { if (d) u.ctl->register_propagator(*q); else u.ctl->register_propagator(*q, p->seq); }); }
    if (ok) u.nprop++;
}
// }}}
// {{{ queries
static string raw_terms(clingo_theory_atoms_t const *t, clingo_id_t const *a, size_t n);
static string raw_term(clingo_theory_atoms_t const *t, clingo_id_t id) {
    clingo_theory_term_type_t y; raw_clingo_theory_atoms_term_type(t, id, &y); char const *nm = ""; clingo_id_t const *a; size_t n;
    switch (y) { case clingo_theory_term_type_number: { int x; raw_clingo_theory_atoms_term_number(t, id, &x); return fmt("%d:%d", y, x); }
        case clingo_theory_term_type_symbol: raw_clingo_theory_atoms_term_name(t, id, &nm); return fmt("%d:%s", y, nm);
        case clingo_theory_term_type_function: raw_clingo_theory_atoms_term_name(t, id, &nm); break; default: break; }
    raw_clingo_theory_atoms_term_arguments(t, id, &a, &n); return fmt("%d:%s(", y, nm) + raw_terms(t, a, n) + ")";
}
static string raw_terms(clingo_theory_atoms_t const *t, clingo_id_t const *a, size_t n) { string r; for (size_t i = 0; i < n; ++i) r += raw_term(t, a[i]) + ","; return r; }
static string api_term(C::TheoryTerm t);
template <class S> static string api_terms(S const &s) { string r; for (auto x : s) r += api_term(x) + ","; return r; }
static string api_term(C::TheoryTerm t) {
    int y = (int)t.type();
    switch (y) { case clingo_theory_term_type_number: return fmt("%d:%d", y, t.number()); case clingo_theory_term_type_symbol: return fmt("%d:%s", y, t.name());
        case clingo_theory_term_type_function: { string n = t.name(); return fmt("%d:%s(", y, n.c_str()) + api_terms(t.arguments()) + ")"; } default: return fmt("%d:(", y) + api_terms(t.arguments()) + ")"; }
}
template <class P, class S> static string raw_str(clingo_theory_atoms_t const *t, clingo_id_t i, S size, P print) { size_t n = 0; size(t, i, &n); vector<char> b(n + 1); print(t, i, b.data(), n); return b.data(); }
static string raw_tatom(clingo_theory_atoms_t const *t, clingo_id_t i) {
    clingo_id_t term; raw_clingo_theory_atoms_atom_term(t, i, &term); string r = raw_term(t, term) + "~" + raw_str(t, term, raw_clingo_theory_atoms_term_to_string_size, raw_clingo_theory_atoms_term_to_string) + "{"; clingo_id_t const *e; size_t n; raw_clingo_theory_atoms_atom_elements(t, i, &e, &n);
    for (size_t k = 0; k < n; ++k) { clingo_id_t const *a; size_t m; raw_clingo_theory_atoms_element_tuple(t, e[k], &a, &m); r += raw_terms(t, a, m) + ":"; clingo_literal_t const *c; raw_clingo_theory_atoms_element_condition(t, e[k], &c, &m); for (size_t j = 0; j < m; ++j) r += fmt("%d,", c[j]); clingo_literal_t id; raw_clingo_theory_atoms_element_condition_id(t, e[k], &id); r += fmt("/%d", id) + "=" + raw_str(t, e[k], raw_clingo_theory_atoms_element_to_string_size, raw_clingo_theory_atoms_element_to_string) + ";"; }
    bool g; raw_clingo_theory_atoms_atom_has_guard(t, i, &g); r += "}"; if (g) { char const *o; clingo_id_t x; raw_clingo_theory_atoms_atom_guard(t, i, &o, &x); r += string(o) + raw_term(t, x) + "~" + raw_str(t, x, raw_clingo_theory_atoms_term_to_string_size, raw_clingo_theory_atoms_term_to_string); } clingo_literal_t l; raw_clingo_theory_atoms_atom_literal(t, i, &l);
    return r + fmt("@%d=", l) + raw_str(t, i, raw_clingo_theory_atoms_atom_to_string_size, raw_clingo_theory_atoms_atom_to_string);
}
static string api_tatom(C::TheoryAtom a) {
    string r = api_term(a.term()) + "~" + a.term().to_string() + "{"; for (auto e : a.elements()) { r += api_terms(e.tuple()) + ":"; for (auto l : e.condition()) r += fmt("%d,", l); r += fmt("/%d", e.condition_id()) + "=" + e.to_string() + ";"; }
    r += "}"; if (a.has_guard()) { auto g = a.guard(); r += string(g.first) + api_term(g.second) + "~" + g.second.to_string(); } int l = a.literal(); return r + fmt("@%d=", l) + a.to_string();
}
static string raw_conf(clingo_configuration_t const *c, clingo_id_t k) {
    clingo_configuration_type_bitset_t t; raw_clingo_configuration_type(c, k, &t); string r; char const *d; raw_clingo_configuration_description(c, k, &d); r += string("(") + d + ")";
    if (t & clingo_configuration_type_value) { bool a; raw_clingo_configuration_value_is_assigned(c, k, &a); size_t n; raw_clingo_configuration_value_get_size(c, k, &n); vector<char> b(n + 1); raw_clingo_configuration_value_get(c, k, b.data(), n); r += fmt("<%d:", a) + b.data() + ">"; }
    if (t & clingo_configuration_type_array) { size_t n; raw_clingo_configuration_array_size(c, k, &n); r += "["; for (size_t i = 0; i < n; ++i) { clingo_id_t x; raw_clingo_configuration_array_at(c, k, i, &x); r += raw_conf(c, x) + ","; } r += "]"; }
    if (t & clingo_configuration_type_map) { size_t n; raw_clingo_configuration_map_size(c, k, &n); r += "{"; for (size_t i = 0; i < n; ++i) { char const *nm; raw_clingo_configuration_map_subkey_name(c, k, i, &nm); string name = nm; clingo_id_t x; raw_clingo_configuration_map_at(c, k, nm, &x); r += name + "=" + raw_conf(c, x) + ","; } r += "}"; }
    return r;
}
static string api_conf(C::Configuration c) {
    string r = string("(") + c.decription() + ")";
    if (c.is_value()) { int a = c.is_assigned(); r += fmt("<%d:", a) + c.value() + ">"; }
    if (c.is_array()) { r += "["; size_t n = 0; for (auto x : c) { r += api_conf(x) + ","; ++n; } r += "]"; size_t s = c.size(); if (s != n) r += "size?"; if (c.empty() != (n == 0)) r += "empty?"; }
    if (c.is_map()) { r += "{"; for (auto *k : c.keys()) { string name = k; r += name + "=" + api_conf(c[name.c_str()]) + ","; } r += "}"; }
    return r;
}
void check_config(User &u, bool mutate) {
    op("Configuration::walk", none(), [&]() { auto c = u.ctl->configuration(); string g = api_conf(c); clingo_configuration_t *p; raw_clingo_control_configuration(u.raw, &p); clingo_id_t k; raw_clingo_configuration_root(p, &k); same("query:configuration", g, raw_conf(p, k)); });
    if (mutate) for (uint32_t n = 1 + W(3); n > 0; --n) {
        static char const *const vals[] = {"1", "", "3,compete", "invalid value", "-1", "a|b\\c", "100%s"}; string v = vals[W(7)]; uint32_t w = W(6); bool bad = v == "invalid value";
        static char const *const paths[] = {"solve.models", "solve.parallel_mode", "solver.heuristic", "stats", "tester", "tester.eq"};
        op("Configuration::set", bad ? none() : eff(string("config|") + paths[w] + "|" + esc(v)), [&]() { auto c = u.ctl->configuration(); switch (w) { case 0: c["solve"]["models"] = v.c_str(); break; case 1: c.get("solve").get("parallel_mode") = v.c_str(); break; case 2: c["solver"]["heuristic"] = v.c_str(); break; case 3: c["stats"] = v.c_str(); break; case 4: c["tester"] = v.c_str(); break; case 5: c["tester"]["eq"] = v.c_str(); break; } });
        if (W(3) == 2) op("Configuration::bad", any(), [&]() { auto c = u.ctl->configuration(); if (W(2)) static_cast<void>(c["nosuch"]); else static_cast<void>(c["solver"][77]); });
        if (W(4) == 3) { clingo_configuration_t *p; raw_clingo_control_configuration(u.raw, &p); clingo_id_t k, s; raw_clingo_configuration_root(p, &k); raw_clingo_configuration_map_at(p, k, "solver", &s); size_t m; raw_clingo_configuration_array_size(p, s, &m); if (m) { size_t i = W(m); op("Configuration::set(array)", eff(fmt("config|solver[%zu].seed|5", i)), [&]() { u.ctl->configuration()["solver"].at(i)["seed"] = "5"; }); } }
    }
}
static string raw_satom(clingo_symbolic_atoms_t const *a, clingo_symbolic_atom_iterator_t it) { clingo_symbol_t s; clingo_literal_t l; bool f, e; raw_clingo_symbolic_atoms_symbol(a, it, &s); raw_clingo_symbolic_atoms_literal(a, it, &l); raw_clingo_symbolic_atoms_is_fact(a, it, &f); raw_clingo_symbolic_atoms_is_external(a, it, &e); return sym(s) + fmt("/%d%d%d,", l, f, e); }
static string api_satom(C::SymbolicAtom const &x) { int l = x.literal(); bool f = x.is_fact(), e = x.is_external(); return sym(x.symbol()) + fmt("/%d%d%d,", l, f, e); }
static string raw_satoms(clingo_symbolic_atoms_t const *a, clingo_signature_t const *s) { string w; clingo_symbolic_atom_iterator_t it; raw_clingo_symbolic_atoms_begin(a, s, &it); for (;;) { bool v; raw_clingo_symbolic_atoms_is_valid(a, it, &v); if (!v) break; w += raw_satom(a, it); raw_clingo_symbolic_atoms_next(a, it, &it); } return w; }
static string oss(std::function<void(std::ostream &)> f) { std::ostringstream o; f(o); whole(o); return o.str(); }
static void term_views(clingo_theory_atoms_t const *t, C::TheoryTerm x, int depth) {
    clingo_id_t const *a; size_t m; int ty = (int)x.type(); if (ty > clingo_theory_term_type_function) return; raw_clingo_theory_atoms_term_arguments(t, x.to_c(), &a, &m); vector<string> w; for (size_t i = 0; i < m; ++i) w.push_back(raw_term(t, a[i]));
    auto s = x.arguments(); span("query:theory_terms.span", s, w, api_term); walk("query:theory_terms.walk", s.begin(), s.end(), w, api_term); arrows("query:theory_terms.arrow", s.begin(), w, [](C::TheoryTerm *y) { return api_term(*y); }); if (m && depth) term_views(t, s[W((uint32_t)m)], depth - 1);
}
static void tatom_views(User &u, clingo_theory_atoms_t const *t) {
    auto ta = u.ctl->theory_atoms(); vector<string> w; size_t n; raw_clingo_theory_atoms_size(t, &n); for (size_t i = 0; i < n; ++i) w.push_back(raw_tatom(t, i));
    walk("query:theory_atoms.walk", ta.begin(), ta.end(), w, api_tatom); arrows("query:theory_atoms.arrow", ta.begin(), w, [](C::TheoryAtom *a) { return api_tatom(*a); }); same("query:theory_atoms.to_c", fmt("%d", ta.to_c() == t), "1"); if (!n) return;
    C::TheoryAtom a = *(ta.begin() + W((uint32_t)n)); same("query:theory_atom.stream", oss([&](std::ostream &o) { o << a; }), raw_str(t, a.to_c(), raw_clingo_theory_atoms_atom_to_string_size, raw_clingo_theory_atoms_atom_to_string));
    C::TheoryTerm x = a.term(); same("query:theory_term.stream", oss([&](std::ostream &o) { o << x; }), raw_str(t, x.to_c(), raw_clingo_theory_atoms_term_to_string_size, raw_clingo_theory_atoms_term_to_string)); term_views(t, x, 2);
    auto el = [t](C::TheoryElement e) { return fmt("%u=", e.to_c()) + e.to_string(); }; clingo_id_t const *ei; size_t k; raw_clingo_theory_atoms_atom_elements(t, a.to_c(), &ei, &k); vector<string> ew; for (size_t i = 0; i < k; ++i) ew.push_back(fmt("%u=", ei[i]) + raw_str(t, ei[i], raw_clingo_theory_atoms_element_to_string_size, raw_clingo_theory_atoms_element_to_string));
    auto es = a.elements(); span("query:theory_elements.span", es, ew, el); walk("query:theory_elements.walk", es.begin(), es.end(), ew, el); arrows("query:theory_elements.arrow", es.begin(), ew, [&](C::TheoryElement *e) { return el(*e); });
    if (!k) return; C::TheoryElement e = es[W((uint32_t)k)]; same("query:theory_element.stream", oss([&](std::ostream &o) { o << e; }), raw_str(t, e.to_c(), raw_clingo_theory_atoms_element_to_string_size, raw_clingo_theory_atoms_element_to_string));
    vector<string> tw, cw; clingo_literal_t const *c; size_t m; raw_clingo_theory_atoms_element_tuple(t, e.to_c(), &ei, &m); for (size_t i = 0; i < m; ++i) tw.push_back(raw_term(t, ei[i])); raw_clingo_theory_atoms_element_condition(t, e.to_c(), &c, &m); for (size_t i = 0; i < m; ++i) cw.push_back(fmt("%d", c[i]));
    span("query:theory_tuple.span", e.tuple(), tw, api_term); span("query:theory_condition.span", e.condition(), cw, [](C::literal_t l) { return fmt("%d", l); });
}
static void conf_views(C::Configuration c, clingo_configuration_t *p, clingo_id_t k, int depth) {
    clingo_configuration_type_bitset_t t; raw_clingo_configuration_type(p, k, &t); same("query:configuration.to_c", fmt("%d", c.to_c() == p), "1");
    if (t & clingo_configuration_type_value) { size_t n; raw_clingo_configuration_value_get_size(p, k, &n); vector<char> b(n + 1); raw_clingo_configuration_value_get(p, k, b.data(), n); string s = c; same("query:configuration.string", s, b.data()); }
    size_t n; vector<clingo_id_t> sub;
    if (t & clingo_configuration_type_array) { vector<string> w; raw_clingo_configuration_array_size(p, k, &n); for (size_t i = 0; i < n; ++i) { clingo_id_t x; raw_clingo_configuration_array_at(p, k, i, &x); w.push_back(raw_conf(p, x)); sub.push_back(x); } walk("query:configuration.walk", c.begin(), c.end(), w, api_conf); arrows("query:configuration.arrow", c.begin(), w, [](C::ValuePointer<C::Configuration> v) { return api_conf(W(2) ? *v : *v.operator->()); }); if (n && depth) { size_t i = W((uint32_t)n); return conf_views(c[i], p, sub[i], depth - 1); } }
    if (t & clingo_configuration_type_map) { vector<string> w; raw_clingo_configuration_map_size(p, k, &n); for (size_t i = 0; i < n; ++i) { char const *nm; raw_clingo_configuration_map_subkey_name(p, k, i, &nm); w.push_back(nm); } auto f = [](char const *s) { return string(s); }; range("query:configuration.keys", c.keys(), w, f); auto r = c.keys(); arrows("query:configuration.keys.arrow", r.begin(), w, [](C::ValuePointer<char const *> v) { return string(*v); }); if (n && depth) { size_t i = W((uint32_t)n); clingo_id_t x; raw_clingo_configuration_map_at(p, k, w[i].c_str(), &x); conf_views(c[w[i].c_str()], p, x, depth - 1); } }
}
void check_control(User &u, int what) {
    clingo_symbolic_atoms_t const *a; raw_clingo_control_symbolic_atoms(u.raw, &a); clingo_theory_atoms_t const *t; raw_clingo_control_theory_atoms(u.raw, &t);
    switch (what >= 0 ? what : (int)W(11)) {
        case 9: op("theory views", none(), [&]() { tatom_views(u, t); }); break;
        case 10: op("configuration views", none(), [&]() { clingo_configuration_t *p; raw_clingo_control_configuration(u.raw, &p); clingo_id_t k; raw_clingo_configuration_root(p, &k); conf_views(u.ctl->configuration(), p, k, 3); }); break;
        case 0: op("SymbolicAtoms::iterate", none(), [&]() { string g; bool post = W(2); auto at = u.ctl->symbolic_atoms(); if (post) { for (auto i = at.begin(), e = at.end(); i != e;) { g += api_satom(*i); i++; } } else for (auto &x : at) g += api_satom(x); same("query:symbolic_atoms.iterate", g, raw_satoms(a, nullptr)); same("query:symbolic_atoms.length", std::to_string(at.length()), std::to_string(std::count(g.begin(), g.end(), '/'))); }); break;
        case 1: { C::Symbol s = some_atom(u.raw); op("SymbolicAtoms::find", none(), [&]() { auto at = u.ctl->symbolic_atoms(); auto it = at.find(s); bool x = (bool)it; bool x2 = it != at.end(); clingo_symbolic_atom_iterator_t j; bool v; raw_clingo_symbolic_atoms_find(a, s.to_c(), &j); raw_clingo_symbolic_atoms_is_valid(a, j, &v); same("query:symbolic_atoms.find", fmt("%d%d", x, x2), fmt("%d%d", v, v)); if (v && x) same("query:symbolic_atoms.find", api_satom(*it) + api_satom(at[s]), raw_satom(a, j) + raw_satom(a, j)); }); break; }
        case 2: op("SymbolicAtoms::signatures", none(), [&]() { auto at = u.ctl->symbolic_atoms(); string g, w; auto sg = at.signatures(); for (auto s : sg) g += fmt("%s/%u%d%d,", s.name(), s.arity(), s.positive(), s.negative()); size_t n; raw_clingo_symbolic_atoms_signatures_size(a, &n); vector<clingo_signature_t> v(n + 1); raw_clingo_symbolic_atoms_signatures(a, v.data(), n); v.resize(n); for (auto s : v) w += fmt("%s/%u%d%d,", raw_clingo_signature_name(s), raw_clingo_signature_arity(s), raw_clingo_signature_is_positive(s), raw_clingo_signature_is_negative(s)); same("query:symbolic_atoms.signatures", g, w);
            for (size_t k = 0; k < n && k < 3; ++k) { C::Signature s(raw_clingo_signature_name(v[k]), raw_clingo_signature_arity(v[k]), raw_clingo_signature_is_positive(v[k])); string gg; for (auto i = at.begin(s), e = at.end(); i != e; ++i) gg += api_satom(*i); same("query:symbolic_atoms.signature-range", gg, raw_satoms(a, &v[k])); }
            for (auto &x : at) { auto s = x.symbol(); auto na = s.name(); bool m1 = x.match(na, (unsigned)s.arguments().size()), m2 = x.match("zz", 0); same("query:symbolic_atom.match", fmt("%d%d", m1, m2), "10"); break; } }); break;
        case 3: op("TheoryAtoms::iterate", none(), [&]() { string g, w; auto ta = u.ctl->theory_atoms(); for (auto x : ta) g += api_tatom(x) + "\n"; size_t n; raw_clingo_theory_atoms_size(t, &n); for (size_t i = 0; i < n; ++i) w += raw_tatom(t, i) + "\n"; same("query:theory_atoms", g, w); same("query:theory_atoms.size", std::to_string(ta.size()), std::to_string(n)); }); break;
        case 4: { static char const *const nm[] = {"n", "c", "nosuch"}; char const *n = nm[W(3)]; op("Control::get_const", none(), [&]() { bool x = u.ctl->has_const(n), y; raw_clingo_control_has_const(u.raw, n, &y); same("query:has_const", fmt("%d", x), fmt("%d", y)); auto s = u.ctl->get_const(n); clingo_symbol_t r; raw_clingo_control_get_const(u.raw, n, &r); same("query:get_const", sym(s), sym(r)); }); break; }
        case 5: op("Control::flags", none(), [&]() { same("query:flags", fmt("%d%d%d", u.ctl->is_conflicting(), u.ctl->enable_cleanup(), u.ctl->enable_enumeration_assumption()), fmt("%d%d%d", raw_clingo_control_is_conflicting(u.raw), raw_clingo_control_get_enable_cleanup(u.raw), raw_clingo_control_get_enable_enumeration_assumption(u.raw))); }); break;
        case 6: check_config(u, false); break;
        case 7: op("Control::claspFacade", none(), [&]() { void *r; raw_clingo_control_clasp_facade(u.raw, &r); same("query:claspFacade", fmt("%d", u.ctl->claspFacade() == r), "1"); }); break;
        case 8: for (auto &k : u.kept) same("kept-value-changed", k.first, k.second); break;
    }
}
// }}}
// {{{ creation, commands
struct LoggerFn {
    User *u; int label;
    void operator()(C::WarningCode c, char const *m) { sim_cb_receive(fmt("message|%d|%d|", label, (int)c).append(esc(m)).c_str()); { NoPre np; u->messages.push_back(m); } if (sim_cb_wants_raise("logger")) { if (sim_choose(SIM_FAULT, 2)) throw 5; throw std::runtime_error("logger failed"); } }
};
bool make_control(User &u) {
    u.id = ++g_ids; u.label = 10 + u.id % 900; u.logger = W(4) != 0; vector<string> args; for (uint32_t i = 0, n = W(4); i < n; ++i) { static char const *const av[] = {"-c", "n=3", "--invalid", "0", "a b", "", "100%", "-t2"}; uint32_t k = W(8); if (k == 2 && W(3)) k = 0; args.push_back(av[k]); }
    vector<char const *> ca; string e; for (auto &x : args) { ca.push_back(x.c_str()); e += (&x == args.data() ? "" : ",") + esc(x); } bool bad = std::find(args.begin(), args.end(), "--invalid") != args.end(); unsigned lim = rand_limit(); bool dl = W(4) == 3; if (dl) lim = 20;
    if (u.logger) sim_logger_label(u.label); else sim_logger_label(-7);
    bool ok = op("Control", bad ? none() : eff("new|" + e + fmt("|%u", lim)), [&]() { C::Logger lg; if (u.logger) lg = LoggerFn{&u, u.label}; if (args.empty() && !u.logger && dl) u.ctl = std::make_unique<C::Control>(); else if (dl) u.ctl = std::make_unique<C::Control>(C::StringSpan(ca.data(), ca.size()), lg); else u.ctl = std::make_unique<C::Control>(C::StringSpan(ca.data(), ca.size()), lg, lim); });
    if (ok) u.raw = u.ctl->to_c(); else u.ctl.reset();
    return ok;
}
void end_control(User &u) {
    if (!u.ctl) return; for (auto &k : u.kept) same("kept-value-changed", k.first, k.second);
    op("~Control", u.borrowed ? none() : eff("free"), [&]() { u.ctl.reset(); }); u.raw = nullptr;
}
void do_command(User &u) {
    auto &c = *u.ctl;
    switch (W(14)) {
        case 0: case 1: { static char const *const pr[] = {"a. b :- a.", "", "{a;b}. #show a/0.", "syntax error", "p(@f(1)).\n#const c=\"x|y\".", "%s%n %* comment *%"}; vector<string> ps; for (uint32_t i = 0, n = Wn(3); i < n; ++i) ps.push_back(W(3) ? fmt("p%u", i) : weird_string()); vector<char const *> pc; string e; for (auto &x : ps) { pc.push_back(x.c_str()); e += (e.empty() ? "" : ","); e += esc(x); } if (!ps.empty()) { e.clear(); for (size_t i = 0; i < ps.size(); ++i) e += (i ? "," : "") + esc(ps[i]); } string p = pr[W(6)], n = W(2) ? "base" : weird_string();
            op("Control::add", p == "syntax error" ? none() : eff("add|" + esc(n) + "|" + e + "|" + esc(p)), [&]() { c.add(n.c_str(), C::StringSpan(pc.data(), pc.size()), p.c_str()); }); break; }
        case 2: { string f = W(3) ? "file.lp" : W(2) ? "missing.lp" : weird_string(); op("Control::load", f == "missing.lp" ? none() : eff("load|" + esc(f)), [&]() { c.load(f.c_str()); }); break; }
        case 3: { int l = lit(9); int v = W(3); op("Control::assign_external", eff(fmt("assign_external|%d|%d", l, v)), [&]() { c.assign_external(l, (C::TruthValue)v); }); break; }
        case 4: case 5: { C::Symbol s = some_atom(u.raw); int v = W(3); bool rel = W(3) == 2; clingo_symbolic_atoms_t const *a; raw_clingo_control_symbolic_atoms(u.raw, &a); clingo_symbolic_atom_iterator_t j; bool ok; raw_clingo_symbolic_atoms_find(a, s.to_c(), &j); raw_clingo_symbolic_atoms_is_valid(a, j, &ok); clingo_literal_t l = 0; if (ok) raw_clingo_symbolic_atoms_literal(a, j, &l);
            if (rel) op("Control::release_external(symbol)", ok ? eff(fmt("release_external|%d", l)) : none(), [&]() { c.release_external(s); }); else op("Control::assign_external(symbol)", ok ? eff(fmt("assign_external|%d|%d", l, v)) : none(), [&]() { c.assign_external(s, (C::TruthValue)v); }); break; }
        case 6: { int l = lit(9); op("Control::release_external", eff(fmt("release_external|%d", l)), [&]() { c.release_external(l); }); break; }
        case 7: op("Control::cleanup", eff("cleanup"), [&]() { c.cleanup(); }); break;
        case 8: { bool b = W(2); op("Control::enable_cleanup", eff(fmt("enable_cleanup|%d", b)), [&]() { c.enable_cleanup(b); }); break; }
        case 9: { bool b = W(2); op("Control::enable_enumeration_assumption", eff(fmt("enumeration_assumption|%d", b)), [&]() { c.enable_enumeration_assumption(b); }); break; }
        case 10: op("Control::interrupt", eff("interrupt"), [&]() { c.interrupt(); }); break;
        case 11: check_config(u, true); break;
        case 12: { // terms with a logger of their own
            static char const *const tx[] = {"f(1,\"x\")", "a", "((1,2),x)", "f(", "-p(3)", "", "#inf"}; string t = tx[W(7)]; bool lg = W(2); int label = 950; unsigned lim = rand_limit(); sim_logger_label(lg ? label : -3);
            if (!lg) sim_cb_expect("message", 0); // an empty logger is handed on as one that always fails
            op("parse_term", none(), [&]() { C::Symbol s = lg ? C::parse_term(t.c_str(), LoggerFn{&u, label}, lim) : C::parse_term(t.c_str()); NoPre np; same("parse-limit", sim_last_result(), fmt("limit|%u", lg ? lim : 20)); clingo_symbol_t r = 0; sim_logger_label(-9); if (raw_clingo_parse_term(t.c_str(), nullptr, nullptr, 0, &r)) same("query:parse_term", sym(s), sym(r)); });
            sim_cb_expect("message", 1); sim_logger_label(-1); break; }
        case 13: check_control(u); break;
    }
}
void do_ground(User &u) {
    vector<vector<C::Symbol>> ps; vector<string> ns; vector<C::Part> parts; string e; uint32_t n = W(4); ps.resize(n);
    for (uint32_t i = 0; i < n; ++i) { ns.push_back(W(2) ? "base" : weird_string()); for (uint32_t k = 0, m = Wn(3); k < m; ++k) ps[i].push_back(rand_sym()); e += (i ? "," : "") + part_text(ns[i], ps[i]); }
    for (uint32_t i = 0; i < n; ++i) parts.emplace_back(ns[i].c_str(), C::SymbolSpan(ps[i]));
    bool ctx = W(4) != 0;
    auto cb = [&](C::Location loc, char const *name, C::SymbolSpan args, C::SymbolSpanCallback ret) {
        string t = syms(args); sim_cb_receive(("ground|" + esc(loc.begin_file()) + "|" + esc(loc.end_file()) + fmt("|%zu|%zu|%zu|%zu|", loc.begin_line(), loc.end_line(), loc.begin_column(), loc.end_column()) + name + "|" + t).c_str());
        { NoPre np; if (args.size()) u.kept.emplace_back(t, sym(args[0])); u.kept.clear(); }
        maybe_raise("ground"); if (W(8) == 7) check_control(u);
        vector<C::Symbol> all; uint32_t calls = W(4) ? 1 : W(3);
        for (uint32_t k = 0; k < calls; ++k) { vector<C::Symbol> r; for (uint32_t i = 0, m = Wn(4); i < m; ++i) r.push_back(W(3) == 2 && args.size() ? args[W(args.size())] : rand_sym()); for (auto &x : r) all.push_back(x); ret(C::SymbolSpan(r)); }
        maybe_raise("ground_end"); sim_cb_promise(syms(all).c_str());
    };
    sim_cb_expect("with ground", ctx); op("Control::ground", eff("ground|" + e), [&]() { if (ctx) u.ctl->ground(C::PartSpan(parts), cb); else u.ctl->ground(C::PartSpan(parts)); }); sim_cb_expect("with ground", 0);
}
// }}}
// {{{ backend
static void backend_op(User &u, C::Backend &b) {
    auto atoms = [&]() { vector<C::atom_t> v; for (uint32_t i = 0, n = Wn(4); i < n; ++i) v.push_back(W(6) == 5 ? 2147483647u : 1 + W(9)); return v; };
    clingo_theory_atoms_t const *t; raw_clingo_control_theory_atoms(u.raw, &t); uint32_t nt = 0, ne = 0; { clingo_theory_term_type_t y; sim_faults(0); (void)y; sim_faults(1); } (void)nt; (void)ne;
    switch (W(20)) {
        case 0: { bool ch = W(2); auto h = atoms(); auto l = rlits(); op("Backend::rule", eff(fmt("rule|%d|", ch) + nums(h) + "|" + nums(l)), [&]() { b.rule(ch, h, l); }); break; }
        case 1: { bool ch = W(2); auto h = atoms(); auto l = rwlits(); int lb = weird_number(); op("Backend::weight_rule", eff(fmt("weight_rule|%d|", ch) + nums(h) + fmt("|%d|", lb) + wlits(l)), [&]() { b.weight_rule(ch, h, lb, l); }); break; }
        case 2: { auto l = rwlits(); int p = weird_number(); op("Backend::minimize", eff(fmt("minimize|%d|", p) + wlits(l)), [&]() { b.minimize(p, l); }); break; }
        case 3: { auto h = atoms(); op("Backend::project", eff("project|" + nums(h)), [&]() { b.project(h); }); break; }
        case 4: { uint32_t a = 1 + W(9); int ty = W(4); op("Backend::external", eff(fmt("external|%u|%d", a, ty)), [&]() { b.external(a, (C::ExternalType)ty); }); break; }
        case 5: { auto l = rlits(); op("Backend::assume", eff("assume|" + nums(l)), [&]() { b.assume(l); }); break; }
        case 6: { uint32_t a = 1 + W(9); int ty = W(6), bias = weird_number(); unsigned pr = W(4) ? W(9) : UINT_MAX; auto l = rlits(); op("Backend::heuristic", eff(fmt("heuristic|%u|%d|%d|%u|", a, ty, bias, pr) + nums(l)), [&]() { b.heuristic(a, (C::HeuristicType)ty, bias, pr, l); }); break; }
        case 7: { int x = weird_number(), y = weird_number(); auto l = rlits(); op("Backend::acyc_edge", eff(fmt("acyc_edge|%d|%d|", x, y) + nums(l)), [&]() { b.acyc_edge(x, y, l); }); break; }
        case 8: op("Backend::add_atom", eff("add_atom|"), [&]() { auto a = b.add_atom(); same_result("add_atom-result", fmt("%u", a)); }); break;
        case 9: case 10: { C::Symbol s = W(4) ? some_atom(u.raw) : rand_sym(1); bool fun = raw_clingo_symbol_type(s.to_c()) == clingo_symbol_type_function; op("Backend::add_atom(symbol)", fun ? eff("add_atom|" + sym(s)) : none(), [&]() { auto a = b.add_atom(s); same_result("add_atom-result", fmt("%u", a)); }); break; }
        case 11: { int n = weird_number(); op("Backend::add_theory_term_number", eff(fmt("theory_term_number|%d", n)), [&]() { auto a = b.add_theory_term_number(n); same_result("theory-id", fmt("%u", a)); }); break; }
        case 12: { string s = weird_string(); op("Backend::add_theory_term_string", eff("theory_term_string|" + esc(s)), [&]() { auto a = b.add_theory_term_string(s.c_str()); same_result("theory-id", fmt("%u", a)); }); break; }
        case 13: { C::Symbol s = rand_sym(1); op("Backend::add_theory_term_symbol", eff("theory_term_symbol|" + sym(s)), [&]() { auto a = b.add_theory_term_symbol(s); same_result("theory-id", fmt("%u", a)); }); break; }
        case 14: { // a small structure using the ids the engine returned
            vector<C::id_t> ids; bool ok = true; for (uint32_t i = 0, n = 1 + W(3); i < n && ok; ++i) ok = op("Backend::add_theory_term_number", any(), [&]() { ids.push_back(b.add_theory_term_number((int)i)); });
            if (!ok) break; int ty = W(3); op("Backend::add_theory_term_sequence", eff(fmt("theory_term_sequence|%d|", ty) + nums(ids)), [&]() { auto a = b.add_theory_term_sequence((C::TheorySequenceType)ty, ids); same_result("theory-id", fmt("%u", a)); });
            op("Backend::add_theory_term_function", eff("theory_term_function|f g|" + nums(ids)), [&]() { auto a = b.add_theory_term_function("f g", ids); same_result("theory-id", fmt("%u", a)); });
            auto l = rlits(); C::id_t el = 0; ok = op("Backend::add_theory_element", eff("theory_element|" + nums(ids) + "|" + nums(l)), [&]() { el = b.add_theory_element(ids, l); same_result("theory-id", fmt("%u", el)); });
            if (!ok) break; vector<C::id_t> els(W(3), el); C::id_t tm = ids[0], rhs = ids.back(); C::id_t at = W(3) ? 1 + W(9) : 0; bool guard = W(2), dflt = W(2); string e = fmt("|%u|%u|", dflt ? UINT_MAX : at, tm) + nums(els);
            if (guard) op("Backend::theory_atom(guard)", eff("theory_atom_with_guard" + e + fmt("|<=|%u", rhs)), [&]() { auto a = dflt ? b.theory_atom(tm, els, "<=", rhs) : b.theory_atom(at, tm, els, "<=", rhs); same_result("theory-atom", fmt("%u", a)); });
            else op("Backend::theory_atom", eff("theory_atom" + e), [&]() { auto a = dflt ? b.theory_atom(tm, els) : b.theory_atom(at, tm, els); same_result("theory-atom", fmt("%u", a)); });
            break; }
        default: if (W(3) == 2) check_control(u, W(6)); break;
    }
}
void do_backend(User &u) {
    uint32_t how = W(4);
    if (how == 0) { // scope left by an exception
        sim_release_faults(0); op_open("with_backend(scope)", any()); Outcome o; try { u.ctl->with_backend([&](C::Backend &b) { for (uint32_t n = W(5); n > 0; --n) backend_op(u, b); sim_op_note_raised("user:int", "78"); throw 78; }); } catch (...) { o = classify(std::current_exception()); } op_done(o); sim_release_faults(1); return;
    }
    if (how == 1) { op("with_backend", any(), [&]() { u.ctl->with_backend([&](C::Backend &b) { for (uint32_t n = W(5); n > 0; --n) backend_op(u, b); }); }); return; }
    bool own = u.nobs == 0 && W(3) == 2; std::unique_ptr<C::Backend> b; bool ok = op("Control::backend", eff("backend_begin"), [&]() { if (own) { clingo_backend_t *r; raw_clingo_control_backend(u.raw, &r); b.reset(new C::Backend(r)); } else b.reset(new C::Backend(u.ctl->backend())); });
    if (!ok) return;
    for (uint32_t n = 1 + W(8); n > 0; --n) backend_op(u, *b);
    if (how == 2) { op("Backend(move)", any(), [&]() { C::Backend x(std::move(*b)); b.reset(); backend_op(u, x); C::Backend *y = new C::Backend(std::move(x)); b.reset(y); }); if (!b) return; }
    if (W(2)) { op("Backend::close", eff("backend_end"), [&]() { b->close(); }); op("~Backend(closed)", any(), [&]() { delete b.release(); }); }
    else op("~Backend", eff("backend_end"), [&]() { delete b.release(); });
}
// }}}
