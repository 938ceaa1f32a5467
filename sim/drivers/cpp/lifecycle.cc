// Objects moved, swapped, borrowed, left by exceptions; the ledger of the engine has to balance
#include "common.hh"
#include <algorithm>
#include <list>
namespace {
using Users = vector<std::unique_ptr<User>>;
template <class F> void scope(char const *name, F f) { // runs f in a scope that may be left by an exception
    sim_release_faults(0); op_open(name, any()); Outcome o; try { f(); if (W(2)) { sim_op_note_raised("user:int", "80"); throw 80; } } catch (...) { o = classify(std::current_exception()); } op_done(o); sim_release_faults(1);
}
void pass(Outcome const &o) { sim_op_note_raised(o.cls.c_str(), o.msg.c_str()); std::rethrow_exception(o.p); }
template <class F> void must(char const *name, Expect const &e, F f) { // an error leaves the scope
    op_open(name, e); Outcome o; try { f(); } catch (...) { o = classify(std::current_exception()); } if (!op_done(o)) pass(o);
}
void backends(Users &us) {
    User &a = *us[W(us.size())], &b = *us[W(us.size())];
    if (&a == &b) { scope("one backend", [&]() {
        std::list<C::Backend> l; must("Control::backend", eff("backend_begin"), [&]() { l.push_back(a.ctl->backend()); }); C::Backend x(std::move(l.front()));
        if (l.front().to_c()) sim_violation("moved-backend", "a moved-from backend still owns the engine's backend");
        if (W(2)) must("Backend::close (moved-from)", none(), [&]() { l.front().close(); });
        must("Backend::add_atom", any(), [&]() { x.add_atom(); }); if (W(2)) l.front() = std::move(x); if (W(2)) l.clear(); if (W(3) == 2 && x.to_c()) must("Backend::close", eff("backend_end"), [&]() { x.close(); }); });
    }
    else scope("two backends", [&]() {
        std::list<C::Backend> x, y; must("Control::backend", eff("backend_begin"), [&]() { x.push_back(a.ctl->backend()); }); auto *p = x.front().to_c(); must("Control::backend", eff("backend_begin"), [&]() { y.push_back(b.ctl->backend()); }); auto *q = y.front().to_c();
        uint32_t k = W(4); if (k == 0) std::swap(x.front(), y.front()); else if (k == 1) { C::Backend z(std::move(x.front())); x.front() = std::move(y.front()); y.front() = std::move(z); } else if (k == 2) x.swap(y);
        same("backend-identity", fmt("%d%d", x.front().to_c() == p, y.front().to_c() == q), k == 3 ? "11" : "00"); must("Backend::add_atom", any(), [&]() { y.front().add_atom(C::Id("lc")); }); });
}
void builders(Users &us) {
    User &a = *us[W(us.size())], &b = *us[W(us.size())]; if (&a == &b) return;
    scope("two builders", [&]() {
        std::list<C::AST::ProgramBuilder> x, y; must("ProgramBuilder", eff("builder_begin"), [&]() { x.emplace_back(*a.ctl); }); auto *p = x.front().to_c(); must("ProgramBuilder", eff("builder_begin"), [&]() { y.emplace_back(*b.ctl); }); auto *q = y.front().to_c();
        uint32_t k = W(3); if (k == 0) std::swap(x.front(), y.front()); else if (k == 1) x.front() = std::move(y.front()); // either way both sessions have to end once
        if (k == 0) same("builder-identity", fmt("%d%d", x.front().to_c() == q, y.front().to_c() == p), "11"); else if (k == 1) same("builder-identity", fmt("%d", x.front().to_c() == q), "1");
        if (W(2) && x.front().to_c()) must("ProgramBuilder::close", eff("builder_end"), [&]() { x.front().close(); }); });
}
struct Failing : C::SolveEventHandler { bool on_model(C::Model &m) override { sim_cb_receive(("event:model|" + model_text(m.to_c())).c_str()); maybe_raise("on_model"); sim_cb_promise("1"); return true; } };
void handles(Users &us) {
    User &a = *us[W(us.size())], &b = *us[W(us.size())]; bool two = &a != &b;
    scope("solve handles", [&]() {
        bool ev = W(2); Failing f, g; C::SolveEventHandler *hf = ev ? &f : nullptr, *hg = ev ? &g : nullptr; // handlers outlive the handles
        sim_expect_events(ev, 0, 0, 0); struct E { ~E() { sim_expect_events(1, 1, 1, 1); } } e; bool as = W(2);
        C::SolveHandle x, y; must("Control::solve", any(), [&]() { x = a.ctl->solve(C::LiteralSpan{}, hf, as, true); }); auto *p = x.to_c();
        if (two) must("Control::solve", any(), [&]() { y = b.ctl->solve(C::LiteralSpan{}, hg, W(2) != 0, true); }); auto *q = y.to_c();
        uint32_t k = W(5); if (k == 0) std::swap(x, y); else if (k == 1) { C::SolveHandle z(std::move(x)); x = std::move(y); y = std::move(z); } else if (k == 2) x = std::move(y);
        same("handle-identity", fmt("%d%d", x.to_c() == (k < 3 ? q : p), y.to_c() == (k < 3 ? p : q)), "11"); bool hy = (k < 2) == (W(3) != 0); if (hy ? !y.to_c() : !x.to_c()) hy = !hy; C::SolveHandle &h = hy ? y : x;
        for (uint32_t n = W(4); n > 0; --n) switch (W(4)) {
            case 0: must("SolveHandle::next", any(), [&]() { h.next(); }); break; case 1: must("SolveHandle::get", any(), [&]() { same_result("solve-result", fmt("%u", h.get().to_c())); }); break; case 2: must("SolveHandle::cancel", eff("cancel"), [&]() { h.cancel(); }); break; case 3: must("SolveHandle::wait", any(), [&]() { h.wait(0.5); }); break;
        }
        if (W(3) == 2) { must("SolveHandle::close", eff("close"), [&]() { h.close(); }); must("SolveHandle::close again", none(), [&]() { h.close(); }); }
    });
}
void controls(Users &us, Users &keep) {
    User &a = *us[W(us.size())];
    switch (W(7)) {
        case 0: op("Control(move)", none(), [&]() { auto n = std::make_unique<C::Control>(std::move(*a.ctl)); same("moved-control", fmt("%d", n->to_c() == a.raw), "1"); a.ctl = std::move(n); }); break;
        case 1: { User &b = *us[W(us.size())]; if (&a == &b || a.nobs || a.nprop || b.nobs || b.nprop) break; op("swap(Control)", none(), [&]() { std::swap(*a.ctl, *b.ctl); }); same("swapped-control", fmt("%d%d", a.ctl->to_c() == b.raw, b.ctl->to_c() == a.raw), "11"); std::swap(a.ctl, b.ctl); break; }
        case 2: { // borrowed
            bool ok = op("Control(borrowed)", none(), [&]() { C::Control x(a.raw, false); C::Control y(std::move(x)); same("borrowed-control", fmt("%d", y.to_c() == a.raw), "1"); same("query:control.conflicting", fmt("%d", y.is_conflicting()), fmt("%d", raw_clingo_control_is_conflicting(a.raw))); }); (void)ok; break; }
        case 3: { // adopted
            clingo_control_t *r = nullptr; sim_logger_label(-3); raw_clingo_control_new(nullptr, 0, nullptr, nullptr, 20, &r); if (!r) break; op("Control(adopted)", eff("free"), [&]() { sim_api(0); C::Control x(r, true); if (W(2)) { C::Control y(std::move(x)); } }); break; }
        case 4: { // a control replaced by a new one
            auto u = std::make_unique<User>(); if (!make_control(*u)) break; clingo_control_t *n = u->raw;
            if (a.nobs || a.nprop) { end_control(*u); break; }
            op("Control::operator=", any(), [&]() { *a.ctl = std::move(*u->ctl); }); same("assigned-control", fmt("%d", a.ctl->to_c() == n), "1"); op("~Control(moved-from)", any(), [&]() { u->ctl.reset(); });
            a.raw = n; a.label = u->label; a.logger = u->logger; a.known = u->known; a.kept.clear(); keep.push_back(std::move(u)); /* its logger is in use */ break; }
        case 5: scope("short-lived control", [&]() { auto u = std::make_unique<User>(); if (!make_control(*u)) return; struct End { User &u; ~End() { if (u.ctl) end_control(u); } } e{*u}; for (uint32_t n = W(4); n > 0; --n) { if (W(2)) do_command(*u); else do_solve(*u, 0); } }); break;
        case 6: do_command(a); break;
    }
}
} // namespace
void fam_lifecycle(Env &env) {
    Users us; for (uint32_t i = 1 + W(3); i > 0; --i) { auto u = std::make_unique<User>(); if (make_control(*u)) us.push_back(std::move(u)); }
    if (us.empty()) return; Users keep;
    for (uint32_t n = 2 + W(8); n > 0; --n) switch (W(8)) {
        case 0: case 1: controls(us, keep); break; case 2: backends(us); break; case 3: builders(us); break; case 4: handles(us); break;
        case 5: do_solve(*us[W(us.size())], 0); break; case 6: do_backend(*us[W(us.size())]); break; case 7: do_ground(*us[W(us.size())]); break;
    }
    for (auto &u : us) end_control(*u);
    for (auto &u : us) env.users.push_back(std::move(u));
    for (auto &u : keep) env.users.push_back(std::move(u));
}
