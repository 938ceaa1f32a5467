// Solving: handlers, handles, models, user statistics
#include "common.hh"
#include "views.hh"
#include <sstream>
#include <algorithm>
#include <cmath>
// {{{ models
static vector<clingo_symbol_t> raw_symbols(clingo_model_t const *m, unsigned s) { size_t k = 0; raw_clingo_model_symbols_size(m, s, &k); vector<clingo_symbol_t> r(k + 1); raw_clingo_model_symbols(m, s, r.data(), k); r.resize(k); return r; }
static string raw_syms(vector<clingo_symbol_t> const &v) { string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? ";" : "") + sym(v[i]); return r; }
void check_model(C::Model const &m, User *u, bool extend) {
    auto *p = m.to_c();
    for (uint32_t n = W(5); n > 0; --n) switch (W(14)) {
        case 12: op("Model::stream", none(), [&]() { std::ostringstream o; o << m; whole(o); auto s = raw_symbols(p, clingo_show_type_shown); string w; for (auto x : s) w += (w.empty() ? " " : ", ") + sym(x); same("query:model.stream", o.str(), "{" + w + " }"); }); break;
        case 13: op("Model::context", none(), [&]() { auto c = m.context(); clingo_solve_control_t *k; raw_clingo_model_context(p, &k); clingo_symbolic_atoms_t const *a, *b; raw_clingo_solve_control_symbolic_atoms(k, &a); b = c.symbolic_atoms().to_c(); same("query:model.context", fmt("%d%d", c.to_c() == k, a == b), "11"); }); break;
        case 0: op("Model::number", none(), [&]() { auto x = m.number(); uint64_t y; raw_clingo_model_number(p, &y); same("query:model.number", std::to_string(x), std::to_string(y)); }); break;
        case 1: op("Model::type", none(), [&]() { auto x = m.type(); clingo_model_type_t y; raw_clingo_model_type(p, &y); same("query:model.type", fmt("%d", (int)x), fmt("%d", y)); }); break;
        case 2: op("Model::thread_id", none(), [&]() { auto x = m.thread_id(); clingo_id_t y; raw_clingo_model_thread_id(p, &y); same("query:model.thread_id", fmt("%u", x), fmt("%u", y)); }); break;
        case 3: op("Model::optimality_proven", none(), [&]() { bool x = m.optimality_proven(), y; raw_clingo_model_optimality_proven(p, &y); same("query:model.optimality_proven", fmt("%d", x), fmt("%d", y)); }); break;
        case 4: op("Model::cost", none(), [&]() { auto x = m.cost(); size_t k; raw_clingo_model_cost_size(p, &k); vector<int64_t> y(k + 1); raw_clingo_model_cost(p, y.data(), k); y.resize(k); same("query:model.cost", nums(x), nums(y)); }); break;
        case 5: op("Model::priorities", none(), [&]() { auto x = m.priorities(); size_t k; raw_clingo_model_cost_size(p, &k); vector<clingo_weight_t> y(k + 1); raw_clingo_model_priority(p, y.data(), k); y.resize(k); same("query:model.priorities", nums(x), nums(y)); }); break;
        case 6: case 7: { static unsigned const sh[] = {C::ShowType::Shown, C::ShowType::Atoms, C::ShowType::Terms, C::ShowType::Theory, C::ShowType::All, C::ShowType::Atoms | C::ShowType::Complement, C::ShowType::Shown | C::ShowType::Terms}; unsigned s = sh[W(7)]; op("Model::symbols", none(), [&]() { auto x = m.symbols(s); same("query:model.symbols", syms(x), raw_syms(raw_symbols(p, s))); if (u) { NoPre np; u->kept.emplace_back(syms(x), raw_syms(raw_symbols(p, s))); } }); break; }
        case 8: { auto s = raw_symbols(p, C::ShowType::Atoms | (W(2) ? C::ShowType::Complement : 0u)); C::Symbol a = s.empty() ? rand_sym(1) : C::Symbol(s[W(s.size())]); op("Model::contains", none(), [&]() { bool x = m.contains(a), y; raw_clingo_model_contains(p, a.to_c(), &y); same("query:model.contains", fmt("%d", x), fmt("%d", y)); }); break; }
        case 9: { C::literal_t l = (int)(1 + W(30)) * (W(2) ? -1 : 1); op("Model::is_true", none(), [&]() { bool x = m.is_true(l), y; raw_clingo_model_is_true(p, l, &y); same("query:model.is_true", fmt("%d", x), fmt("%d", y)); }); break; }
        case 10: { C::literal_t l = (int)(1 + W(30)) * (W(2) ? -1 : 1); op("Model::is_consequence", none(), [&]() { auto x = m.is_consequence(l); clingo_consequence_t y; raw_clingo_model_is_consequence(p, l, &y); same("query:model.is_consequence", fmt("%d", (int)x), fmt("%d", y)); }); break; }
        case 11: {
            auto *uc = u ? u->raw : nullptr; if (!uc) break;
            if (W(2)) { vector<C::literal_t> l; for (uint32_t i = 0, k = Wn(4); i < k; ++i) l.push_back((int)(1 + W(9)) * (W(2) ? -1 : 1)); op("SolveControl::add_clause(lits)", eff("model_clause|" + nums(l)), [&]() { m.context().add_clause(C::LiteralSpan(l)); }); }
            else { vector<C::SymbolicLiteral> l; vector<int> want; clingo_symbolic_atoms_t const *at; raw_clingo_control_symbolic_atoms(uc, &at);
                bool drop = false; for (uint32_t i = 0, k = Wn(4); i < k; ++i) { C::Symbol a = some_atom(uc); bool pos = W(2); l.emplace_back(a, pos); clingo_symbolic_atom_iterator_t it; bool v; raw_clingo_symbolic_atoms_find(at, a.to_c(), &it); raw_clingo_symbolic_atoms_is_valid(at, it, &v); if (v) { clingo_literal_t x; raw_clingo_symbolic_atoms_literal(at, it, &x); want.push_back(pos ? x : -x); } else if (!pos) drop = true; }
                op("SolveControl::add_clause(symbols)", drop ? none() : eff("model_clause|" + nums(want)), [&]() { m.context().add_clause(C::SymbolicLiteralSpan(l)); }); }
            break; }
    }
    if (extend && Wc(1, 5)) { vector<C::Symbol> s; for (uint32_t i = 0, k = Wn(4); i < k; ++i) s.push_back(rand_sym(1)); op("Model::extend", eff("extend|" + syms(s)), [&]() { const_cast<C::Model &>(m).extend(s); });
        unsigned sh = C::ShowType::Theory | (W(2) ? C::ShowType::Shown : 0u); op("Model::symbols(extended)", none(), [&]() { auto x = m.symbols(sh); same("query:model.symbols", syms(x), raw_syms(raw_symbols(p, sh))); }); }
}
// }}}
// {{{ user statistics
static string raw_stat(clingo_statistics_t const *s, uint64_t k) {
    clingo_statistics_type_t t; if (!raw_clingo_statistics_type(s, k, &t)) return "?";
    switch (t) {
        case clingo_statistics_type_value: { double v; raw_clingo_statistics_value_get(s, k, &v); return fmt("%.17g", v); }
        case clingo_statistics_type_array: { size_t n; raw_clingo_statistics_array_size(s, k, &n); string r = "["; for (size_t i = 0; i < n; ++i) { uint64_t x; raw_clingo_statistics_array_at(s, k, i, &x); r += (i ? "," : "") + raw_stat(s, x); } return r + "]"; }
        case clingo_statistics_type_map: { size_t n; raw_clingo_statistics_map_size(s, k, &n); string r = "{"; for (size_t i = 0; i < n; ++i) { char const *nm; raw_clingo_statistics_map_subkey_name(s, k, i, &nm); string name = nm; uint64_t x; raw_clingo_statistics_map_at(s, k, name.c_str(), &x); r += (i ? "," : "") + name + ":" + raw_stat(s, x); } return r + "}"; }
    }
    return "-";
}
template <class S> static string api_stat(S s) {
    switch (static_cast<int>(s.type())) {
        case clingo_statistics_type_value: return fmt("%.17g", static_cast<double>(s.value()));
        case clingo_statistics_type_array: { string r = "["; bool f = true; for (auto x : s) { if (!f) r += ","; f = false; r += api_stat(x); } return r + "]"; }
        case clingo_statistics_type_map: { string r = "{"; bool f = true; for (auto const *k : s.keys()) { if (!f) r += ","; f = false; string n = k; r += n + ":" + api_stat(s[n.c_str()]); } return r + "}"; }
    }
    return "-";
}
static void stat_views(C::Statistics s, clingo_statistics_t const *r, uint64_t k, int depth) {
    clingo_statistics_type_t t = 0; raw_clingo_statistics_type(r, k, &t); size_t n; vector<string> w; vector<uint64_t> sub; auto text = [](C::Statistics x) { return api_stat(x); }; same("query:statistics.to_c", fmt("%d", s.to_c() == r), "1");
    if (t == clingo_statistics_type_array) { raw_clingo_statistics_array_size(r, k, &n); for (size_t i = 0; i < n; ++i) { uint64_t x; raw_clingo_statistics_array_at(r, k, i, &x); w.push_back(raw_stat(r, x)); sub.push_back(x); } walk("query:statistics.walk", s.begin(), s.end(), w, text); same("query:statistics.size", fmt("%zu", s.size()), fmt("%zu", n)); if (n && depth) { size_t i = W((uint32_t)n); stat_views(W(2) ? s[i] : s.at(i), r, sub[i], depth - 1); } }
    if (t == clingo_statistics_type_map) { raw_clingo_statistics_map_size(r, k, &n); for (size_t i = 0; i < n; ++i) { char const *nm; raw_clingo_statistics_map_subkey_name(r, k, i, &nm); w.push_back(nm); } range("query:statistics.keys", s.keys(), w, [](char const *x) { return string(x); }); if (n && depth) { size_t i = W((uint32_t)n); uint64_t x; raw_clingo_statistics_map_at(r, k, w[i].c_str(), &x); stat_views(W(2) ? s[w[i].c_str()] : s.at(w[i].c_str()), r, x, depth - 1); } }
}
void check_stats(User &u) {
    op("statistics views", none(), [&]() { auto s = u.ctl->statistics(); clingo_statistics_t const *r; raw_clingo_control_statistics(u.raw, &r); uint64_t k; raw_clingo_statistics_root(r, &k); stat_views(s, r, k, 4); });
    op("Control::statistics", none(), [&]() {
        auto s = u.ctl->statistics(); string got = api_stat(s); clingo_statistics_t const *r; raw_clingo_control_statistics(u.raw, &r); uint64_t k; raw_clingo_statistics_root(r, &k); same("query:statistics", got, raw_stat(r, k));
        if (!u.solves || !W(2)) return;
        double c = s["summary"]["call"]; double w = 0; uint64_t x; raw_clingo_statistics_map_at(r, k, "summary", &x); uint64_t y; raw_clingo_statistics_map_at(r, x, "call", &y); raw_clingo_statistics_value_get(r, y, &w); same("query:statistics.call", fmt("%g", c), fmt("%g", w));
        same("query:statistics.has", fmt("%d%d", s.has_subkey("summary"), s.has_subkey("nosuch")), "10");
    });
    op("Statistics(unknown key)", none(), [&]() { auto s = u.ctl->statistics(); if (!W(3)) { static_cast<void>(s["no such key"]); } });
}
// expected state of a user statistics tree is kept in a small model next to it
struct UNode { int type; double v = 0; vector<std::pair<string, UNode>> map; vector<UNode> arr; };
static UNode snapshot(clingo_statistics_t const *s, uint64_t k) {
    UNode n; clingo_statistics_type_t t = 0; raw_clingo_statistics_type(s, k, &t); n.type = t;
    if (t == clingo_statistics_type_value) raw_clingo_statistics_value_get(s, k, &n.v);
    if (t == clingo_statistics_type_array) { size_t m; raw_clingo_statistics_array_size(s, k, &m); for (size_t i = 0; i < m; ++i) { uint64_t x; raw_clingo_statistics_array_at(s, k, i, &x); n.arr.push_back(snapshot(s, x)); } }
    if (t == clingo_statistics_type_map) { size_t m; raw_clingo_statistics_map_size(s, k, &m); for (size_t i = 0; i < m; ++i) { char const *nm; raw_clingo_statistics_map_subkey_name(s, k, i, &nm); string name = nm; uint64_t x; raw_clingo_statistics_map_at(s, k, name.c_str(), &x); n.map.emplace_back(name, snapshot(s, x)); } }
    return n;
}
static string utext(UNode const &n) {
    string r; if (n.type == clingo_statistics_type_value) return fmt("%.17g", n.v);
    if (n.type == clingo_statistics_type_array) { for (auto &x : n.arr) r += (r.empty() ? "" : ",") + utext(x); return "[" + r + "]"; }
    if (n.type == clingo_statistics_type_map) { for (auto &x : n.map) r += (r.empty() ? "" : ",") + x.first + ":" + utext(x.second); return "{" + r + "}"; }
    return "-";
}
static void mutate(C::UserStatistics s, UNode &n, int depth) {
    static char const *const names[] = {"a", "b", "key with space", "50%", "a.b"}; if (n.type == -1) return; static int const types[] = {clingo_statistics_type_value, clingo_statistics_type_map, clingo_statistics_type_array};
    for (uint32_t k = W(4); k > 0; --k) {
        if (n.type == clingo_statistics_type_value) { static double const vs[] = {0, 1.5, -3, 1e300, 0.1}; double v = W(2) ? vs[W(5)] : n.v + 1; op("UserStatistics::set_value", any(), [&]() { s.set_value(v); n.v = v; }); }
        else if (n.type == clingo_statistics_type_map) {
            string name = names[W(5)]; int t = types[W(3)]; auto it = std::find_if(n.map.begin(), n.map.end(), [&](std::pair<string, UNode> &x) { return x.first == name; });
            if (it == n.map.end()) { op("UserStatistics::has_subkey", none(), [&]() { same("query:user_stats.has", fmt("%d", s.has_subkey(name.c_str())), "0"); }); }
            if (it != n.map.end()) t = W(6) ? it->second.type : t;
            bool clash = it != n.map.end() && it->second.type != t;
            op("UserStatistics::add_subkey", any(), [&]() { auto x = s.add_subkey(name.c_str(), (C::StatisticsType)t); sim_api(0); if (clash) return; if (it == n.map.end()) { UNode c; c.type = t; n.map.emplace_back(name, c); it = n.map.end() - 1; }
                if (depth > 0) mutate(x, it->second, depth - 1); });
        }
        else {
            uint32_t w = W(4);
            if (w == 0) { int t = types[W(3)]; size_t sz = n.arr.size() + W(3); n.type = -1; /* partial growth is possible */ bool ok = op("UserStatistics::ensure_size", any(), [&]() { s.ensure_size(sz, (C::StatisticsType)t); n.type = clingo_statistics_type_array; }); if (ok) while (n.arr.size() < sz) { UNode c; c.type = t; n.arr.push_back(c); } else { /* partial growth is possible */ uint64_t dummy; (void)dummy; n.arr.clear(); n.type = -1; return; } }
            else if (w == 1) { int t = types[W(3)]; op("UserStatistics::push", any(), [&]() { auto x = s.push((C::StatisticsType)t); sim_api(0); UNode c; c.type = t; n.arr.push_back(c); if (depth > 0) mutate(x, n.arr.back(), depth - 1); }); }
            else if (!n.arr.empty()) { size_t i = W(n.arr.size()); op("UserStatistics::at", any(), [&]() { auto x = s[i]; if (depth > 0) mutate(x, n.arr[i], depth - 1); }); }
        }
        if (n.type == -1) return;
    }
}
static bool broken(UNode const &n) { if (n.type == -1) return true; for (auto &x : n.map) if (broken(x.second)) return true; for (auto &x : n.arr) if (broken(x)) return true; return false; }
void user_stats(C::UserStatistics s, char const *name) {
    (void)name; uint64_t k; raw_clingo_statistics_root(s.to_c(), &k); UNode n = snapshot(s.to_c(), k);
    struct Check { C::UserStatistics &s; UNode &n; uint64_t k; ~Check() { if (!broken(n)) same("user-statistics", raw_stat(s.to_c(), k), utext(n)); } } c{s, n, k};
    mutate(s, n, 3);
}
// }}}
// {{{ events
struct Handler : C::SolveEventHandler {
    User *u; bool wantstats = true;
    bool on_model(C::Model &m) override { sim_cb_receive(("event:model|" + model_text(m.to_c())).c_str()); maybe_raise("on_model"); same("default-callback:on_model", fmt("%d", SolveEventHandler::on_model(m)), "1"); check_model(m, u, true); bool go = !Wc(1, 8); maybe_raise("on_model_end"); sim_cb_promise(go ? "1" : "0"); return go; }
    void on_unsat(C::Span<int64_t> lb) override { SolveEventHandler::on_unsat(lb); sim_cb_receive(("event:unsat|" + nums(lb)).c_str()); maybe_raise("on_unsat"); sim_cb_promise("1"); }
    void on_statistics(C::UserStatistics step, C::UserStatistics accu) override { SolveEventHandler::on_statistics(step, accu); { uint64_t k[2]; raw_clingo_statistics_root(step.to_c(), k); raw_clingo_statistics_root(accu.to_c(), k + 1); sim_cb_receive(fmt("event:statistics|%llu|%llu", (unsigned long long)k[0], (unsigned long long)k[1]).c_str()); } maybe_raise("on_statistics"); if (W(2)) user_stats(step, "step"); if (W(2)) user_stats(accu, "accu"); sim_cb_promise("1"); }
    void on_finish(C::SolveResult r) override { SolveEventHandler::on_finish(r); sim_cb_receive(fmt("event:finish|%u", r.to_c()).c_str()); maybe_raise("on_finish"); sim_cb_promise("1"); }
};
struct PartHandler : C::SolveEventHandler { // overrides only the model handler
    User *u;
    bool on_model(C::Model &m) override { sim_cb_receive(("event:model|" + model_text(m.to_c())).c_str()); maybe_raise("on_model"); bool go = !Wc(1, 8); sim_cb_promise(go ? "1" : "0"); return go; }
};
// }}}
struct Side { User *u; C::SolveHandle *h; uint32_t kind; int n; };
static void side_task(void *p) {
    auto *s = static_cast<Side *>(p);
    for (int i = 0; i < s->n; ++i) sim_yield();
    if (s->kind == 0) op("Control::interrupt", eff("interrupt"), [&]() { s->u->ctl->interrupt(); });
    else if (s->kind == 1) op("SolveHandle::cancel", eff("cancel"), [&]() { s->h->cancel(); });
    else op("SolveHandle::wait(other)", eff("wait|0.01"), [&]() { bool r = s->h->wait(0.01); same_result("wait-result", fmt("%d", r)); });
}
static void use_handle(User &u, C::SolveHandle &h, bool async, bool yield) {
    void const *raw = h.to_c(); vector<string> got; bool stopped = false, failed = false, ended = false, current = false; Side side{&u, &h, 0, 0}; int t = -1;
    if (Wc(1, 3)) { side.kind = yield ? (W(2) ? 0 : 2) : W(3); side.n = W(30); t = sim_spawn(side_task, &side, "client2"); if (side.kind < 2) stopped = true; sim_probe("second-client"); }
    struct Join { int &t; ~Join() { if (t >= 0) sim_join(t); } } join{t};
    auto deliver = [&](C::Model const &m) { string s = sim_last_result(); same("model-identity", model_text(m.to_c()), s); if (m) { if (got.empty() || got.back() != s) got.push_back(s); } else ended = true; current = true; };
    uint32_t how = yield ? W(3) : 2;
    if (how == 0 && Wc(1, 3)) { // explicit iterators
        bool ok = op("iterators", any(), [&]() { auto i = begin(h), e = end(h); bool post = W(2), arrow = W(2); C::ModelIterator d; same("model-iterator", fmt("%d%d", e == d, e != d), "10"); while (i != e) { string s = sim_last_result(); auto *m = arrow ? i.operator->() : &*i; same("model-identity", model_text(m->to_c()), s); got.push_back(s); check_model(*m, &u, false); if (post) i++; else ++i; } ended = true; });
        if (!ok) failed = true;
    }
    else if (how == 0) { // range based iteration
        int lim = W(3) ? 1000 : (int)W(4);
        bool ok = op("iterate", any(), [&]() { for (auto &m : h) { string s = sim_last_result(); same("model-identity", model_text(m.to_c()), s); got.push_back(s); check_model(m, &u, false); if ((int)got.size() >= lim) { stopped = true; break; } } if (!stopped) ended = true; });
        if (!ok) failed = true;
    }
    else for (uint32_t n = 1 + W(14); n > 0 && !failed && !ended; --n) {
        uint32_t a = W(yield ? 9 : 6); bool ok = true;
        static double const ts[] = {0, 0.002, 0.5, 3, -1, -0.25};
        switch (a) {
            case 0: case 1: { double w = ts[W(6)]; double t0 = sim_clock(); ok = op("SolveHandle::wait(t)", eff(fmt("wait|%.6g", w)), [&]() { bool r = h.wait(w); same_result("wait-result", fmt("%d", r)); if (!r && w > 0 && sim_clock() < t0 + w) sim_violation("wait-early", "wait reported a timeout too early"); }); break; }
            case 2: ok = op("SolveHandle::wait()", eff("wait|-1"), [&]() { h.wait(); same("wait-result", sim_last_result(), "1"); }); break;
            case 3: ok = op("SolveHandle::get", none(), [&]() { auto r = h.get(); same_result("solve-result", fmt("%u", r.to_c())); auto b = r.to_c(); same("solve-result-flags", fmt("%d%d%d%d%d", r.is_satisfiable(), r.is_unsatisfiable(), r.is_unknown(), r.is_exhausted(), r.is_interrupted()), fmt("%d%d%d%d%d", (b & 1) != 0, (b & 2) != 0, (b & 3) == 0, (b & 4) != 0, (b & 8) != 0)); }); break;
            case 4: ok = op("SolveHandle::core", none(), [&]() { auto c = h.core(); same_result("solve-core", nums(c)); }); break;
            case 5: ok = op("SolveHandle::last", none(), [&]() { auto *m = h.last(); string s = sim_last_result(); same("solve-last", m ? model_text(m->to_c()) : "none", s); }); break;
            case 6: ok = op("SolveHandle::model", none(), [&]() { auto &m = h.model(); deliver(m); if (m) check_model(m, &u, false); }); break;
            case 7: if (!current) stopped = true; /* an unseen model may be skipped */ ok = op("SolveHandle::next", eff("resume"), [&]() { auto &m = h.next(); deliver(m); if (m) check_model(m, &u, false); }); break;
            case 8: if (Wc(1, 3)) { ok = op("SolveHandle::cancel", eff("cancel"), [&]() { h.cancel(); }); stopped = true; } else { ok = op("SolveHandle::resume", eff("resume"), [&]() { h.resume(); }); stopped = true; } break;
        }
        if (!ok) failed = true;
    }
    if (yield && !stopped && !failed && !ended && W(2)) { // drain
        failed = !op("drain", any(), [&]() { for (;;) { auto &m = h.model(); if (!m) break; deliver(m); h.resume(); current = false; } ended = true; });
    }
    (void)async;
    if (t >= 0) { sim_join(t); t = -1; }
    // models come in the order they were found, each once
    if (yield) { size_t k = 0; int i = 0; for (; k < got.size() && i < sim_search_models(raw); ++i) if (got[k] == sim_search_model(raw, i)) ++k; if (k < got.size()) sim_violation("models-order-to-client", fmt("model %zu handed to the client (%s) is not a model that follows the one before among %d: %s", k, got[k].c_str(), sim_search_models(raw), sim_search_models(raw) ? sim_search_model(raw, 0) : "").c_str()); }
    // every model the search produced was seen exactly once by the client
    if (yield && ended && !stopped && !failed && sim_search_complete(raw)) {
        string a, b; for (auto &x : got) a += x + " / "; for (int i = 0; i < sim_search_models(raw); ++i) b += string(sim_search_model(raw, i)) + " / "; same("models-delivered-to-client", a, b); sim_probe("all-models-seen");
    }
}
void do_solve(User &u, int style) {
    Handler h; h.u = &u; PartHandler ph; ph.u = &u; C::SolveEventHandler *hp = nullptr; uint32_t hk = W(4); if (hk == 0) hp = nullptr; else if (hk == 1) { hp = &ph; } else hp = &h;
    sim_expect_events(hk >= 1, hk >= 2, hk >= 2, hk >= 2);
    bool async = W(2), yield = W(2); (void)style;
    vector<C::literal_t> lits; vector<C::SymbolicLiteral> sl; bool symbolic = W(2);
    if (symbolic) { clingo_symbolic_atoms_t const *at; raw_clingo_control_symbolic_atoms(u.raw, &at);
        for (uint32_t i = 0, n = Wn(4); i < n; ++i) { C::Symbol a = some_atom(u.raw); bool pos = W(2); sl.emplace_back(a, pos); clingo_symbolic_atom_iterator_t it; bool v; raw_clingo_symbolic_atoms_find(at, a.to_c(), &it); raw_clingo_symbolic_atoms_is_valid(at, it, &v); if (v) { clingo_literal_t x; raw_clingo_symbolic_atoms_literal(at, it, &x); lits.push_back(pos ? x : -x); } else if (pos) { lits.push_back(1); lits.push_back(-1); } } }
    else for (uint32_t i = 0, n = Wn(4); i < n; ++i) lits.push_back((int)(1 + W(9)) * (W(2) ? -1 : 1));
    string want = fmt("solve|%u|", (async ? 1u : 0u) | (yield ? 2u : 0u)) + nums(lits); bool deflt = lits.empty() && !async && yield && !hp && W(2);
    C::SolveHandle sh; u.solves++;
    bool ok = op("Control::solve", eff(want), [&]() { sh = deflt ? u.ctl->solve() : symbolic ? u.ctl->solve(C::SymbolicLiteralSpan(sl), hp, async, yield) : u.ctl->solve(C::LiteralSpan(lits), hp, async, yield); });
    sim_expect_events(1, 1, 1, 1);
    if (!ok) { return; }
    uint32_t life = W(4);
    if (life == 0) { // moved around
        C::SolveHandle other(std::move(sh)); if (sh.to_c()) sim_violation("moved-handle", "a moved-from solve handle still owns the search");
        use_handle(u, other, async, yield); sh = std::move(other);
    }
    else if (life == 1) { // scope left by an exception
        sim_release_faults(0); op_open("scope", any()); Outcome o; try { C::SolveHandle inner(std::move(sh)); use_handle(u, inner, async, yield); sim_op_note_raised("user:int", "77"); throw 77; } catch (...) { o = classify(std::current_exception()); } op_done(o); sim_release_faults(1); return;
    }
    else use_handle(u, sh, async, yield);
    if (W(2)) { op("SolveHandle::close", eff("close"), [&]() { sh.close(); }); if (W(2)) op("SolveHandle::close again", none(), [&]() { sh.close(); }); }
    else op("~SolveHandle", eff("close"), [&]() { C::SolveHandle x(std::move(sh)); });
    if (sh.to_c()) { op("SolveHandle::close retry", any(), [&]() { sh.close(); }); }
}
