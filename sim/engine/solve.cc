// Search, models, solve handles, propagators
#include "engine.hh"
#include <algorithm>
#include <cstdlib>
namespace sim {
static Search *search_of(clingo_solve_handle_t const *h, char const *fn) { check(h, "solve-handle", fn); return const_cast<Search*>(reinterpret_cast<Search const*>(h)); }
static Model *model_of(clingo_model_t const *m, char const *fn) { check(m, "model", fn); return const_cast<Model*>(reinterpret_cast<Model const*>(m)); }
static Assign &as_of(clingo_assignment_t const *a, char const *fn) { check(a, "assignment", fn); return *const_cast<Assign*>(reinterpret_cast<Assign const*>(a)); }
static PInit *init_of(clingo_propagate_init_t const *p, char const *fn) { check(p, "propagate-init", fn); return const_cast<PInit*>(reinterpret_cast<PInit const*>(p)); }
static PCtl *pctl_of(clingo_propagate_control_t const *p, char const *fn) { check(p, "propagate-control", fn); return const_cast<PCtl*>(reinterpret_cast<PCtl const*>(p)); }
string Model::text() { string c; for (auto x : cost) c += (c.empty() ? "" : ",") + std::to_string(x); return fmt("%llu|%d|%d|%d|", (unsigned long long)number, type, thread, proven) + symlist(shown.data(), shown.size()) + "|" + c; }
static string lits(vector<clingo_literal_t> const &v) { return joinn(v.data(), v.size()); }
template <class T> struct Buf2 { T *p; size_t n; Buf2(vector<T> const &v) : p(Poison::copy(v.data(), v.size())), n(v.size()) {} ~Buf2() { Poison::kill(p, n); } };
// one lock per control for the callbacks of its sequential propagators, and for events while there are such propagators
struct PLock {
    Control *c = nullptr; explicit PLock(Control *k, bool on) { if (on) { block([k]() { return !k->propLocked; }); c = k; c->propLocked = true; } } ~PLock() { if (c) c->propLocked = false; }
    PLock(Control *k, Prop *p) : PLock(k, p->sequential) {} explicit PLock(Control *k) : PLock(k, any(k)) {}
    static bool any(Control *k) { for (auto *p : k->props) if (p->sequential) return true; return false; }
};
// {{{ worker
struct Stop {};
static void record_error(Search *s, Failure const &f) {
    if (!s->error) { s->error = std::make_unique<Failure>(f); probe("search-error"); }
    else { s->error->emsg += ""; probe("search-error-second"); s->th.front().as.root = s->th.front().as.root; }
    s->stop = true;
}
static std::map<Search*, vector<Failure>> g_errs;
static void note_error(Search *s, CallbackFailed &c) { g_errs[s].push_back(c.f); record_error(s, c.f); }
static bool is_watched(Prop *p, int t, clingo_literal_t l) { return p->watches[t].count(l) > 0; }
static void with_pctl(Search *s, Thread &t, Prop *p, std::function<void(clingo_propagate_control_t*)> f, bool *failed = nullptr) {
    PLock lock(s->ctl, p); PCtl *c = make<PCtl>(); c->s = s; c->thread = t.id; c->prop = p; c->as = &t.as; track(c, "propagate-control");
    struct G { PCtl *c; ~G() { untrack(c); } } g{c};
    f(reinterpret_cast<clingo_propagate_control_t*>(c)); if (failed) *failed = c->failed || t.as.conflict;
}
static bool propagate_lits(Search *s, Thread &t, size_t from) { // notify propagators about trail[from..]
    Control *c = s->ctl;
    for (size_t k = 0; k < c->props.size(); ++k) {
        Prop *p = c->props[k]; if (!p->p.propagate) continue;
        vector<clingo_literal_t> ch; for (size_t i = from; i < t.as.trail.size(); ++i) if (is_watched(p, t.id, t.as.trail[i])) ch.push_back(t.as.trail[i]);
        if (ch.empty()) continue;
        if (t.lev[k].size() <= t.as.level()) t.lev[k].resize(t.as.level() + 1);
        auto &L = t.lev[k][t.as.level()]; L.insert(L.end(), ch.begin(), ch.end());
        bool failed = false;
        with_pctl(s, t, p, [&](clingo_propagate_control_t *pc) { callback("propagate", fmt("%d|%d|", p->idx, t.id) + lits(ch) + fmt("|%u", t.as.level()), [&]() { Buf2<clingo_literal_t> b(ch); return armed([&]() { return p->p.propagate(pc, b.p, ch.size(), p->data); }); }); }, &failed);
        if (failed) return false;
    }
    return true;
}
static void undo_level(Search *s, Thread &t) {
    Control *c = s->ctl; uint32_t l = t.as.level();
    for (size_t k = c->props.size(); k-- > 0;) {
        Prop *p = c->props[k]; vector<clingo_literal_t> ch; if (t.lev[k].size() > l) { ch = t.lev[k][l]; t.lev[k][l].clear(); }
        bool chk = t.checked[k].size() > l && t.checked[k][l]; if (t.checked[k].size() > l) t.checked[k][l] = false;
        if (!p->p.undo || (ch.empty() && !(chk && p->undo_mode == clingo_propagator_undo_mode_always))) continue;
        with_pctl(s, t, p, [&](clingo_propagate_control_t *pc) { callback_void("undo", fmt("%d|%d|", p->idx, t.id) + lits(ch) + fmt("|%u", l), [&]() { Buf2<clingo_literal_t> b(ch); p->p.undo(pc, b.p, ch.size(), p->data); }); });
    }
    t.as.pop(); t.as.conflict = false;
}
static bool check_cb(Search *s, Thread &t, int mode) {
    Control *c = s->ctl;
    for (size_t k = 0; k < c->props.size(); ++k) {
        Prop *p = c->props[k]; if (!p->p.check || !(p->check_mode & mode)) continue;
        if (t.checked[k].size() <= t.as.level()) t.checked[k].resize(t.as.level() + 1);
        t.checked[k][t.as.level()] = true; bool failed = false;
        with_pctl(s, t, p, [&](clingo_propagate_control_t *pc) { callback("check", fmt("%d|%d|%u", p->idx, t.id, t.as.level()), [&]() { Armed a; return p->p.check(pc, p->data); }); }, &failed);
        if (failed) return false;
    }
    return true;
}
static void pump(Search *s, char const *w) { // a worker's scheduling point
    yield_point(w);
    if (s->sync && !s->driving) block([s]() { return s->driving > 0 || s->stop; });
    if (s->ctl->interruptPending && !s->done) { s->interrupted = true; s->stop = true; }
    if (s->stop) throw Stop();
}
static void send_event(Search *s, char const *kind, string const &truth, clingo_solve_event_type_t type, void *ev, bool must, bool *goon) {
    if (!s->notify) return;
    *goon = true; bool g = true;
    callback(kind, truth, [&]() { Armed a; return s->notify(type, ev, s->data, &g); }, must, [&]() { return string(g ? "1" : "0"); });
    *goon = g;
}
static void found_model(Search *s, Thread &t) {
    block([s]() { return !s->modelLock || s->stop; }); if (s->stop) throw Stop();
    s->modelLock = 1; struct U { Search *s; ~U() { s->modelLock = 0; } } u{s};
    Control *c = s->ctl; Model *m = make<Model>(); track(m, "model"); s->models.push_back(m);
    m->s = s; m->number = ++s->nmodels; if (chance(SIM_DATA, 1, 20)) m->number += 4294967296ull; m->type = choose(SIM_DATA, 3); m->thread = t.id; m->proven = choose(SIM_DATA, 2);
    for (auto &a : c->atoms) (choose(SIM_DATA, 2) ? m->atoms : m->compl_).push_back(a.sym);
    for (uint32_t i = 0, n = many(SIM_DATA, 3); i < n; ++i) m->terms.push_back(rand_symbol(SIM_DATA));
    for (auto a : m->atoms) if (choose(SIM_DATA, 2)) m->shown.push_back(a);
    for (auto a : m->terms) if (choose(SIM_DATA, 2)) m->shown.push_back(a);
    static int64_t const cv[] = {0, 1, -1, 7, 4294967297ll, 9223372036854775807ll, -9223372036854775807ll - 1}; for (uint32_t i = 0, n = many(SIM_DATA, 4); i < n; ++i) { m->cost.push_back(cv[choose(SIM_DATA, 7)]); m->prio.push_back(pick_weird(SIM_DATA)); }
    for (int i = 0; i <= 40; ++i) m->truth.push_back((int)choose(SIM_DATA, 3));
    probe("model"); if (m->number > 4294967295ull) probe("model-number-64bit");
    m->extendable = true; bool goon = true; s->produced.push_back(m->text());
    if (s->last && s->last != m) untrack(s->last);
    s->last = nullptr;
    try { PLock lock(c); if (app_printer(c)) app_print(c, m); send_event(s, "event:model", m->text(), clingo_solve_event_type_model, m, s->expModel, &goon); }
    catch (...) { m->extendable = false; untrack(m); throw; }
    m->extendable = false;
    s->result |= clingo_solve_result_satisfiable; s->last = m;
    if (s->mode & clingo_solve_mode_yield) {
        s->model = m; s->ready = true; s->seen = false; s->resumed = false; log(fmt("MODEL READY %llu", (unsigned long long)m->number));
        block([s]() { return s->resumed || s->cancelled; });
        s->model = nullptr; s->ready = false;
        if (s->stop) throw Stop();
    }
    if (!goon) { s->wantStop = true; s->stop = true; throw Stop(); }
    if (s->nmodels >= (uint64_t)s->limit) { s->exhausted = true; s->stop = true; throw Stop(); }
}
static void run_worker(Search *s, Thread &t) {
    Control *c = s->ctl; Assign &as = t.as;
    try {
        pump(s, "start");
        int budget = 3 + choose(SIM_DATA, 14);
        if (chance(SIM_DATA, 1, 10)) budget += 40;
        while (budget-- > 0) {
            pump(s, "search");
            uint32_t act = choose(SIM_DATA, 9);
            vector<clingo_literal_t> free_; for (int i = 1; i <= as.nv; ++i) if (as.val[i] == 0) free_.push_back(i);
            if (act <= 2) {
                if (free_.empty()) { if (as.level()) undo_level(s, t); continue; }
                clingo_literal_t d = free_[choose(SIM_DATA, free_.size())] * (choose(SIM_DATA, 2) ? -1 : 1);
                for (auto *p : c->props) if (p->p.decide) { clingo_literal_t dec = 0; callback("decide", fmt("%d|%d|%d", p->idx, t.id, d), [&]() { PLock lock(c, p); Armed a; return p->p.decide(t.id, reinterpret_cast<clingo_assignment_t*>(&as), d, p->data, &dec); }, true, [&]() { return std::to_string(dec); }); if (dec && as.has(dec) && as.value(dec) == 0) { d = dec; break; } }
                size_t from = as.trail.size(); as.push(d);
                for (uint32_t i = 0, n = choose(SIM_DATA, 3); i < n; ++i) { vector<clingo_literal_t> f2; for (int v = 1; v <= as.nv; ++v) if (as.val[v] == 0) f2.push_back(v); if (f2.empty()) break; as.assign(f2[choose(SIM_DATA, f2.size())] * (choose(SIM_DATA, 2) ? -1 : 1)); }
                if (!propagate_lits(s, t, from)) { probe("conflict"); if (as.level()) undo_level(s, t); }
                else if (!check_cb(s, t, clingo_propagator_check_mode_fixpoint)) { probe("conflict"); if (as.level()) undo_level(s, t); }
            }
            else if (act == 3) { if (as.level()) undo_level(s, t); }
            else if (act == 4) { if (as.level() && choose(SIM_DATA, 2)) { while (as.level()) undo_level(s, t); } }
            else if (act <= 6) {
                if (!check_cb(s, t, clingo_propagator_check_mode_total)) { if (as.level()) undo_level(s, t); continue; }
                found_model(s, t);
            }
            else if (act == 7 && t.id == 0) {
                vector<int64_t> lb; static int64_t const cv[] = {0, 1, -1, 4294967297ll, 9223372036854775807ll, -9223372036854775807ll - 1}; for (uint32_t i = 0, n = many(SIM_DATA, 4); i < n; ++i) lb.push_back(cv[choose(SIM_DATA, 6)]);
                string tx; for (auto x : lb) tx += (tx.empty() ? "" : ",") + std::to_string(x);
                block([s]() { return !s->modelLock || s->stop; }); if (s->stop) throw Stop(); s->modelLock = 1; struct U { Search *s; ~U() { s->modelLock = 0; } } u{s}; PLock lock(c);
                bool goon = true; Buf2<int64_t> b(lb); std::pair<int64_t const *, size_t> span{b.p, lb.size()}; send_event(s, "event:unsat", tx, clingo_solve_event_type_unsat, &span, s->expUnsat, &goon); if (!goon) { s->wantStop = true; s->stop = true; }
            }
        }
        s->exhausted = true; s->stop = true;
    }
    catch (Stop &) {}
    catch (CallbackFailed &f) { note_error(s, f); }
    try { while (t.as.level()) undo_level(s, t); } catch (Stop &) {} catch (CallbackFailed &f) { note_error(s, f); }
    if (--s->running == 0) { // last one finishes the search
        if (s->nmodels && s->exhausted && !s->interrupted && !s->cancelled) s->result |= clingo_solve_result_exhausted;
        if (!s->nmodels) { if (s->exhausted && !s->interrupted && !s->cancelled) s->result |= clingo_solve_result_unsatisfiable | clingo_solve_result_exhausted; }
        if (s->interrupted) s->result |= clingo_solve_result_interrupted;
        else if (s->cancelled && !s->exhausted && !s->wantStop) s->result |= clingo_solve_result_interrupted;
        if (!s->nmodels && s->result & clingo_solve_result_unsatisfiable) for (uint32_t i = 0, n = s->assume.size(); i < n; ++i) if (choose(SIM_DATA, 2)) { if (!s->core) s->core = Poison::copy(s->assume.data(), s->assume.size()); s->core[s->ncore++] = s->assume[i]; }
        try {
            c->step++; build_stats(c); bool goon;
            if (s->notify) {
                if (c->evstats.empty()) { for (int i = 0; i < 2; ++i) { c->evstats.push_back(std::make_unique<Stat>()); c->evstats[i]->next = 1000 * (i + 1); c->evstats[i]->root = c->evstats[i]->add(clingo_statistics_type_map, true, i ? "accu" : "step"); track(c->evstats[i].get(), "statistics"); } }
                else { Stat &st = *c->evstats[0]; st = Stat(); st.next = 1000 + 7 * c->step; st.root = st.add(clingo_statistics_type_map, true, "step"); }
                clingo_statistics_t *st[2] = {reinterpret_cast<clingo_statistics_t*>(c->evstats[0].get()), reinterpret_cast<clingo_statistics_t*>(c->evstats[1].get())};
                send_event(s, "event:statistics", fmt("%llu|%llu", (unsigned long long)c->evstats[0]->root, (unsigned long long)c->evstats[1]->root), clingo_solve_event_type_statistics, st, s->expStats, &goon);
            }
            clingo_solve_result_bitset_t r = s->result; send_event(s, "event:finish", fmt("%u", r), clingo_solve_event_type_finish, &r, s->expFin, &goon); 
        } catch (CallbackFailed &f) { note_error(s, f); }
        c->conflicting = (s->result & clingo_solve_result_unsatisfiable) && s->assume.empty();
        s->done = true; c->interruptPending = false; c->groundedAfterSolve = false; log(fmt("SEARCH DONE result=%u models=%llu", s->result, (unsigned long long)s->nmodels));
    }
}
struct Drive { Search *s; Drive(Search *s) : s(s) { s->driving++; } ~Drive() { s->driving--; } };
static void throw_error(Search *s) {
    if (s->error && s->done) {
        Failure f = *s->error; f.ecode = f.ecode ? f.ecode : (int)clingo_error_unknown;
        // the solver library transports errors of asynchronous searches as text
        if (!s->sync || s->th.size() > 1) { f.ecode = clingo_error_runtime; if (f.ehas && s->th.size() > 1) f.emsg = "[1]: " + f.emsg; }
        vector<Failure> &all = g_errs[s]; for (auto &x : all) {
            Failure y = x;
            if (!x.callback) { if (!s->sync || s->th.size() > 1) { y.code = clingo_error_runtime; if (y.hasmsg && s->th.size() > 1) y.msg = "[1]: " + y.msg; } } // known to the engine only
            else { y.callback = true; y.ecode = f.ecode; y.emsg = f.emsg; y.ehas = f.ehas; }
            add_failure(y); }
        throw CallbackFailed{f};
    }
}
// }}}
namespace impl {
void control_solve(clingo_control_t *cc, clingo_solve_mode_bitset_t mode, clingo_literal_t const *a, size_t n, clingo_solve_event_callback_t notify, void *data, clingo_solve_handle_t **h) {
    check(cc, "control", "control_solve"); Control *c = reinterpret_cast<Control*>(cc);
    if (c->search && !c->search->closed) { violation("overlapping-solve", "a new solve started while the previous handle is open"); fail(clingo_error_runtime, "solving already in progress"); }
    if (c->backendOpen) { violation("solve-with-open-backend", "solve called while the backend is open"); }
    effect(fmt("solve|%u|", mode) + joinn(a, n)); c->interruptPending = false;
    Search *s = make<Search>(); s->ctl = c; s->mode = mode; s->notify = notify; s->data = data; s->assume.assign(a, a + n); s->sync = !(mode & clingo_solve_mode_async); s->expModel = cur->cl->em; s->expUnsat = cur->cl->eu; s->expStats = cur->cl->es; s->expFin = cur->cl->ef;
    emit(c->log); end_step(c);
    s->limit = 1 + choose(SIM_DATA, 5); if (chance(SIM_DATA, 1, 6)) s->limit = 0x7fffffff;
    int nt = c->nthreads; Assign *ia = make<Assign>(); ia->init(c->nv); track(ia, "assignment");
    struct G { Assign *a; ~G() { untrack(a); } } g{ia};
    for (auto *p : c->props) {
        p->watches.resize(std::max<size_t>(p->watches.size(), nt));
        if (p->p.init) { PInit *pi = make<PInit>(); pi->ctl = c; pi->prop = p; pi->nthreads = nt; pi->as = ia; track(pi, "propagate-init"); struct G2 { PInit *p; ~G2() { untrack(p); } } g2{pi}; PLock lock(c, p);
            callback("init", fmt("%d|%d|%d", p->idx, nt, p->check_mode), [&]() { Armed a; return p->p.init(reinterpret_cast<clingo_propagate_init_t*>(pi), p->data); }); }
    }
    c->nv = ia->nv;
    for (int i = 0; i < nt; ++i) { s->th.emplace_back(); Thread &t = s->th.back(); t.id = i; t.as = *ia; t.lev.resize(c->props.size()); t.checked.resize(c->props.size()); track(&t.as, "assignment"); }
    s->id = track(s, "solve-handle"); search_open(1); c->search = s; s->running = nt; *h = reinterpret_cast<clingo_solve_handle_t*>(s);
    for (int i = 0; i < nt; ++i) { Thread *t = &s->th[i]; s->tasks.push_back(spawn([s, t]() { cur->frames.emplace_back(); cur->frames.back().name = "root"; run_worker(s, *t); }, fmt("solver%d", i))); }
    if (s->sync && !(mode & clingo_solve_mode_yield) && choose(SIM_DATA, 2)) { Drive d(s); block([s]() { return s->done; }); }
}
void solve_handle_get(clingo_solve_handle_t *h, clingo_solve_result_bitset_t *r) { Search *s = search_of(h, "solve_handle_get"); { Drive d(s); block([s]() { return s->done || (s->ready && (s->mode & clingo_solve_mode_yield)); }); } s->seen = true; throw_error(s); *r = s->result; result(std::to_string(s->result)); }
void solve_handle_wait(clingo_solve_handle_t *h, double timeout, bool *r) {
    Search *s; try { s = search_of(h, "solve_handle_wait"); } catch (EngineError &) { *r = true; return; } effect(fmt("wait|%.6g", timeout)); Drive d(s); auto ready = [s]() { return s->done || s->ready; };
    if (timeout == 0) *r = ready(); else if (timeout < 0) { block(ready); *r = true; } else { double t0 = now(); *r = block(ready, now() + timeout); if (!*r && now() < t0 + timeout) violation("internal", "wait returned early"); }
    if (*r) s->seen = true;
    result(*r ? "1" : "0");
}
void solve_handle_model(clingo_solve_handle_t *h, clingo_model_t const **m) { Search *s = search_of(h, "solve_handle_model"); { Drive d(s); block([s]() { return s->done || s->ready; }); } s->seen = true; throw_error(s); *m = reinterpret_cast<clingo_model_t const*>(s->model); result(s->model ? s->model->text() : string("none")); if (s->model) { string t = s->model->text(); if (s->yielded.empty() || s->yielded.back() != t) s->yielded.push_back(t); } }
void solve_handle_core(clingo_solve_handle_t *h, clingo_literal_t const **c, size_t *n) { Search *s = search_of(h, "solve_handle_core"); { Drive d(s); block([s]() { return s->done || s->ready; }); } throw_error(s); *c = s->core; *n = s->ncore; result(joinn(s->core, s->ncore)); }
void solve_handle_last(clingo_solve_handle_t *h, clingo_model_t const **m) { Search *s = search_of(h, "solve_handle_last"); { Drive d(s); block([s]() { return s->done || s->ready; }); } throw_error(s); *m = reinterpret_cast<clingo_model_t const*>(s->done ? s->last : nullptr); result(*m ? const_cast<Model*>(reinterpret_cast<Model const*>(*m))->text() : string("none")); }
void solve_handle_resume(clingo_solve_handle_t *h) { Search *s = search_of(h, "solve_handle_resume"); effect("resume"); if (s->ready && s->seen) { if (s->model && (s->yielded.empty() || s->yielded.back() != s->model->text())) { probe("model-skipped-by-client"); s->yielded.push_back(s->model->text()); } s->model = nullptr; s->ready = false; s->resumed = true; } }
static void stop_search(Search *s) { if (!s->done) { s->cancelled = true; s->stop = true; Drive d(s); block([s]() { return s->done; }); } }
void solve_handle_cancel(clingo_solve_handle_t *h) { Search *s = search_of(h, "solve_handle_cancel"); effect("cancel"); stop_search(s); }
void solve_handle_close(clingo_solve_handle_t *h) {
    if (!h) return;
    Rec *r = lookup(h); if (r && r->kind == "solve-handle" && !r->alive) { violation("double-release:solve-handle", "a solve handle was closed twice"); return; }
    Search *s = search_of(h, "solve_handle_close"); effect("close"); stop_search(s); s->closed = true; search_open(-1); for (int t : s->tasks) sim::join(t);
    untrack(s); for (auto *m : s->models) untrack(m); for (auto &t : s->th) untrack(&t.as); if (s->core) { Poison::kill(s->core, s->assume.size()); s->core = nullptr; } if (s->ctl->search == s) s->ctl->search = nullptr; g_errs.erase(s);
}
void control_interrupt(clingo_control_t *c) { try { check(c, "control", "control_interrupt"); } catch (EngineError &) { return; } effect("interrupt"); Control *x = reinterpret_cast<Control*>(c); if (x->search && !x->search->done) { x->interruptPending = true; probe("interrupt-live"); } }
// models
void model_type(clingo_model_t const *m, clingo_model_type_t *t) { *t = model_of(m, "model_type")->type; }
void model_number(clingo_model_t const *m, uint64_t *n) { *n = model_of(m, "model_number")->number; }
static vector<clingo_symbol_t> msyms(Model *m, unsigned show) {
    vector<clingo_symbol_t> r; bool compl_ = show & clingo_show_type_complement;
    if (show & clingo_show_type_atoms) { auto &v = compl_ ? m->compl_ : m->atoms; r.insert(r.end(), v.begin(), v.end()); } else if ((show & clingo_show_type_shown) && !compl_) r.insert(r.end(), m->shown.begin(), m->shown.end());
    if ((show & clingo_show_type_terms) && !compl_) r.insert(r.end(), m->terms.begin(), m->terms.end());
    if ((show & clingo_show_type_theory) && !compl_) r.insert(r.end(), m->theory.begin(), m->theory.end());
    return r;
}
void model_symbols_size(clingo_model_t const *m, clingo_show_type_bitset_t s, size_t *n) { *n = msyms(model_of(m, "model_symbols_size"), s).size(); }
void model_symbols(clingo_model_t const *m, clingo_show_type_bitset_t s, clingo_symbol_t *b, size_t n) { auto v = msyms(model_of(m, "model_symbols"), s); if (n < v.size()) fail(clingo_error_logic, "not enough space"); std::copy(v.begin(), v.end(), b); }
void model_contains(clingo_model_t const *m, clingo_symbol_t a, bool *c) { Model *x = model_of(m, "model_contains"); *c = std::find(x->atoms.begin(), x->atoms.end(), a) != x->atoms.end(); }
void model_is_true(clingo_model_t const *m, clingo_literal_t l, bool *r) { Model *x = model_of(m, "model_is_true"); bool v = x->truth[std::abs((int64_t)l) % 41] == 1; *r = l < 0 ? !v : v; }
void model_is_consequence(clingo_model_t const *m, clingo_literal_t l, clingo_consequence_t *r) { Model *x = model_of(m, "model_is_consequence"); *r = x->truth[(std::abs((int64_t)l) + (l < 0)) % 41]; }
void model_cost_size(clingo_model_t const *m, size_t *n) { *n = model_of(m, "model_cost_size")->cost.size(); }
void model_cost(clingo_model_t const *m, int64_t *c, size_t n) { Model *x = model_of(m, "model_cost"); if (n < x->cost.size()) fail(clingo_error_logic, "not enough space"); std::copy(x->cost.begin(), x->cost.end(), c); }
void model_priority(clingo_model_t const *m, clingo_weight_t *c, size_t n) { Model *x = model_of(m, "model_priority"); if (n < x->prio.size()) fail(clingo_error_logic, "not enough space"); std::copy(x->prio.begin(), x->prio.end(), c); }
void model_optimality_proven(clingo_model_t const *m, bool *p) { *p = model_of(m, "model_optimality_proven")->proven; }
void model_thread_id(clingo_model_t const *m, clingo_id_t *i) { *i = model_of(m, "model_thread_id")->thread; }
void model_extend(clingo_model_t *m, clingo_symbol_t const *s, size_t n) { Model *x = model_of(m, "model_extend"); effect("extend|" + symlist(s, n)); x->theory.assign(s, s + n); }
void model_context(clingo_model_t const *m, clingo_solve_control_t **c) { *c = reinterpret_cast<clingo_solve_control_t*>(&model_of(m, "model_context")->s->ctl->hSolve); }
void solve_control_symbolic_atoms(clingo_solve_control_t const *c, clingo_symbolic_atoms_t const **a) { check(c, "solve-control", "solve_control_symbolic_atoms"); *a = reinterpret_cast<clingo_symbolic_atoms_t const*>(&reinterpret_cast<Handle const*>(c)->c->hAtoms); }
void solve_control_add_clause(clingo_solve_control_t *c, clingo_literal_t const *l, size_t n) { check(c, "solve-control", "solve_control_add_clause"); effect("model_clause|" + joinn(l, n)); }
// assignments
uint32_t assignment_decision_level(clingo_assignment_t const *a) { return as_of(a, "assignment_decision_level").level(); }
uint32_t assignment_root_level(clingo_assignment_t const *a) { return as_of(a, "assignment_root_level").root; }
bool assignment_has_conflict(clingo_assignment_t const *a) { return as_of(a, "assignment_has_conflict").conflict; }
bool assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) { return as_of(a, "assignment_has_literal").has(l); }
static Assign &al(clingo_assignment_t const *a, clingo_literal_t l, char const *fn) { Assign &x = as_of(a, fn); if (!x.has(l)) fail(clingo_error_runtime, "invalid literal"); return x; }
void assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) { *r = al(a, l, "assignment_level").lev[std::abs(l)]; }
void assignment_decision(clingo_assignment_t const *a, uint32_t l, clingo_literal_t *r) { Assign &x = as_of(a, "assignment_decision"); if (l >= x.dec.size()) fail(clingo_error_runtime, "invalid level"); *r = x.dec[l]; }
void assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { Assign &x = al(a, l, "assignment_is_fixed"); *r = x.value(l) != 0 && x.lev[std::abs(l)] == 0; }
void assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = al(a, l, "assignment_is_true").value(l) > 0; }
void assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = al(a, l, "assignment_is_false").value(l) < 0; }
void assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) { int v = al(a, l, "assignment_truth_value").value(l); *r = v == 0 ? clingo_truth_value_free : v > 0 ? clingo_truth_value_true : clingo_truth_value_false; }
size_t assignment_size(clingo_assignment_t const *a) { return as_of(a, "assignment_size").nv; }
void assignment_at(clingo_assignment_t const *a, size_t o, clingo_literal_t *r) { Assign &x = as_of(a, "assignment_at"); if (o >= (size_t)x.nv) fail(clingo_error_runtime, "invalid offset"); *r = o + 1; }
bool assignment_is_total(clingo_assignment_t const *a) { Assign &x = as_of(a, "assignment_is_total"); return (int)x.trail.size() == x.nv; }
void assignment_trail_size(clingo_assignment_t const *a, uint32_t *n) { *n = as_of(a, "assignment_trail_size").trail.size(); }
void assignment_trail_begin(clingo_assignment_t const *a, uint32_t l, uint32_t *r) { Assign &x = as_of(a, "assignment_trail_begin"); if (l > x.level()) fail(clingo_error_runtime, "invalid level"); *r = x.begin[l]; }
void assignment_trail_end(clingo_assignment_t const *a, uint32_t l, uint32_t *r) { Assign &x = as_of(a, "assignment_trail_end"); if (l > x.level()) fail(clingo_error_runtime, "invalid level"); *r = l < x.level() ? x.begin[l + 1] : x.trail.size(); }
void assignment_trail_at(clingo_assignment_t const *a, uint32_t o, clingo_literal_t *r) { Assign &x = as_of(a, "assignment_trail_at"); if (o >= x.trail.size()) fail(clingo_error_runtime, "invalid offset"); *r = x.trail[o]; }
// propagate init
static int slit(clingo_literal_t l, int nv) { int v = (std::abs((int64_t)l) * 3 + 1) % nv + 1; bool neg = (l < 0) ^ ((std::abs((int64_t)l) % 5) == 3); return neg ? -v : v; }
void propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t l, clingo_literal_t *r) { *r = slit(l, init_of(i, "propagate_init_solver_literal")->ctl->nv); }
void propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) { PInit *p = init_of(i, "propagate_init_add_watch"); effect(fmt("add_watch|%d", l)); for (auto &w : p->prop->watches) if (!w.count(l)) w.insert(l); }
void propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t t) { PInit *p = init_of(i, "propagate_init_add_watch_to_thread"); if ((int)t >= p->nthreads) fail(clingo_error_runtime, "invalid thread"); effect(fmt("add_watch|%d|%u", l, t)); if (!p->prop->watches[t].count(l)) p->prop->watches[t].insert(l); }
void propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) { PInit *p = init_of(i, "propagate_init_remove_watch"); effect(fmt("remove_watch|%d", l)); for (auto &w : p->prop->watches) w.erase(l); }
void propagate_init_remove_watch_from_thread(clingo_propagate_init_t *i, clingo_literal_t l, uint32_t t) { PInit *p = init_of(i, "propagate_init_remove_watch_from_thread"); if ((int)t >= p->nthreads) fail(clingo_error_runtime, "invalid thread"); effect(fmt("remove_watch|%d|%u", l, t)); p->prop->watches[t].erase(l); }
void propagate_init_freeze_literal(clingo_propagate_init_t *i, clingo_literal_t l) { init_of(i, "propagate_init_freeze_literal"); effect(fmt("freeze|%d", l)); }
void propagate_init_symbolic_atoms(clingo_propagate_init_t const *i, clingo_symbolic_atoms_t const **a) { *a = reinterpret_cast<clingo_symbolic_atoms_t const*>(&init_of(i, "propagate_init_symbolic_atoms")->ctl->hAtoms); }
void propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **a) { *a = reinterpret_cast<clingo_theory_atoms_t const*>(&init_of(i, "propagate_init_theory_atoms")->ctl->hTheory); }
int propagate_init_number_of_threads(clingo_propagate_init_t const *i) { return init_of(i, "propagate_init_number_of_threads")->nthreads; }
void propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) { init_of(i, "propagate_init_set_check_mode")->prop->check_mode = m; effect(fmt("check_mode|%d", (int)m)); }
clingo_propagator_check_mode_t propagate_init_get_check_mode(clingo_propagate_init_t const *i) { return init_of(i, "propagate_init_get_check_mode")->prop->check_mode; }
void propagate_init_set_undo_mode(clingo_propagate_init_t *i, clingo_propagator_undo_mode_t m) { init_of(i, "propagate_init_set_undo_mode")->prop->undo_mode = m; effect(fmt("undo_mode|%d", (int)m)); }
clingo_propagator_undo_mode_t propagate_init_get_undo_mode(clingo_propagate_init_t const *i) { return init_of(i, "propagate_init_get_undo_mode")->prop->undo_mode; }
clingo_assignment_t const *propagate_init_assignment(clingo_propagate_init_t const *i) { return reinterpret_cast<clingo_assignment_t const*>(init_of(i, "propagate_init_assignment")->as); }
static clingo_literal_t newvar(Assign &a) { a.nv++; a.val.push_back(0); a.lev.push_back(0); return a.nv; }
void propagate_init_add_literal(clingo_propagate_init_t *i, bool freeze, clingo_literal_t *r) { PInit *p = init_of(i, "propagate_init_add_literal"); effect(fmt("add_literal|%d", freeze)); *r = newvar(*p->as); result(std::to_string(*r)); }
void propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *c, size_t n, bool *r) { init_of(i, "propagate_init_add_clause"); effect("clause|" + joinn(c, n)); *r = !chance(SIM_DATA, 1, 4); result(*r ? "1" : "0"); }
void propagate_init_add_weight_constraint(clingo_propagate_init_t *i, clingo_literal_t l, clingo_weighted_literal_t const *w, size_t n, clingo_weight_t b, clingo_weight_constraint_type_t t, bool eq, bool *r) { init_of(i, "propagate_init_add_weight_constraint"); string e; for (size_t k = 0; k < n; ++k) e += fmt("%s%d@%d", k ? "," : "", w[k].literal, w[k].weight); effect(fmt("weight_constraint|%d|", l) + e + fmt("|%d|%d|%d", b, (int)t, eq)); *r = !chance(SIM_DATA, 1, 4); result(*r ? "1" : "0"); }
void propagate_init_add_minimize(clingo_propagate_init_t *i, clingo_literal_t l, clingo_weight_t w, clingo_weight_t p) { init_of(i, "propagate_init_add_minimize"); effect(fmt("add_minimize|%d|%d|%d", l, w, p)); }
void propagate_init_propagate(clingo_propagate_init_t *i, bool *r) { init_of(i, "propagate_init_propagate"); effect("propagate"); *r = !chance(SIM_DATA, 1, 4); result(*r ? "1" : "0"); }
// propagate control
clingo_id_t propagate_control_thread_id(clingo_propagate_control_t const *p) { return pctl_of(p, "propagate_control_thread_id")->thread; }
clingo_assignment_t const *propagate_control_assignment(clingo_propagate_control_t const *p) { return reinterpret_cast<clingo_assignment_t const*>(pctl_of(p, "propagate_control_assignment")->as); }
static void own(PCtl *p, char const *fn) { if (p->failed) { violation(string("propagator-continues-after-conflict:") + fn, fmt("%s was called after the engine told the propagator to return", fn)); } }
void propagate_control_add_literal(clingo_propagate_control_t *p, clingo_literal_t *r) { PCtl *c = pctl_of(p, "propagate_control_add_literal"); effect(fmt("T%d|add_literal", c->thread)); *r = newvar(*c->as); result(std::to_string(*r)); }
void propagate_control_add_watch(clingo_propagate_control_t *p, clingo_literal_t l) { PCtl *c = pctl_of(p, "propagate_control_add_watch"); effect(fmt("T%d|add_watch|%d", c->thread, l)); if (!c->prop->watches[c->thread].count(l)) c->prop->watches[c->thread].insert(l); }
bool propagate_control_has_watch(clingo_propagate_control_t const *p, clingo_literal_t l) { PCtl *c = pctl_of(p, "propagate_control_has_watch"); return c->prop->watches[c->thread].count(l) > 0; }
void propagate_control_remove_watch(clingo_propagate_control_t *p, clingo_literal_t l) { PCtl *c = pctl_of(p, "propagate_control_remove_watch"); effect(fmt("T%d|remove_watch|%d", c->thread, l)); c->prop->watches[c->thread].erase(l); }
void propagate_control_add_clause(clingo_propagate_control_t *p, clingo_literal_t const *l, size_t n, clingo_clause_type_t t, bool *r) { PCtl *c = pctl_of(p, "propagate_control_add_clause"); own(c, "propagate_control_add_clause"); effect(fmt("T%d|clause|%d|", c->thread, (int)t) + joinn(l, n)); *r = !chance(SIM_DATA, 1, 3); result(*r ? "1" : "0"); if (!*r) { c->failed = true; c->as->conflict = true; } }
void propagate_control_propagate(clingo_propagate_control_t *p, bool *r) { PCtl *c = pctl_of(p, "propagate_control_propagate"); own(c, "propagate_control_propagate"); effect(fmt("T%d|propagate", c->thread)); *r = !chance(SIM_DATA, 1, 3); result(*r ? "1" : "0"); if (!*r) { c->failed = true; c->as->conflict = true; } }
} // namespace impl
} // namespace sim
extern "C" void sim_expect_events(int m, int u, int s, int f) { auto &c = *sim::cur->cl; c.em = m; c.eu = u; c.es = s; c.ef = f; }
extern "C" char const *sim_search_model(void const *h, int i) { auto *s = reinterpret_cast<sim::Search const*>(h); return s->produced.at(i).c_str(); }
extern "C" int sim_search_complete(void const *h) { auto *s = reinterpret_cast<sim::Search const*>(h); return s->done && !s->cancelled && !s->interrupted && !s->error && !s->wantStop; }
extern "C" int sim_search_done(void const *h) { return reinterpret_cast<sim::Search const*>(h)->done; }
extern "C" int sim_search_models(void const *h) { auto *s = reinterpret_cast<sim::Search const*>(h); return (int)s->produced.size(); }
