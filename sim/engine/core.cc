#include <cxxabi.h>
#include "core.hh"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <algorithm>
#include <sstream>
namespace sim {
string fmt(char const *f, ...) { char b[4096]; va_list a, c; va_start(a, f); va_copy(c, a); int n = vsnprintf(b, sizeof b, f, a); va_end(a); string r; if (n < (int)sizeof b) r = b; else { r.resize(n + 1); vsnprintf(&r[0], n + 1, f, c); r.resize(n); } va_end(c); return r; }
string esc(char const *s) {
    if (!s) return "<null>";
    string r; for (; *s; ++s) { unsigned char c = *s; if (c == '\n') r += "\\n"; else if (c == '|') r += "\\p"; else if (c == ',') r += "\\c"; else if (c == '\\') r += "\\\\"; else r += (char)c; } return r;
}
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } };
struct State {
    uint64_t seed = 0; Rng rng[SIM_STREAMS]; vector<uint32_t> rec[SIM_STREAMS]; vector<uint32_t> rep[SIM_STREAMS]; bool replay = false;
    std::map<string, int> cfg; uint64_t hash = 0, shash = 0; bool verbose = false; vector<string> text; size_t logged = 0;
    vector<std::pair<string, string>> viol; Stats st; double clock = 0; vector<std::unique_ptr<Task>> tasks; string report; bool active = false;
    int swnum = 1, swden = 4; uint64_t maxsteps = 20000; int64_t preempt = 0; int frate = 0, arate = 0; int fmask = 0; string phase; int raisenum = 0; uint32_t preempt_span = 0; bool ending=false; int maxfaults = 1000, nfaults = 0; vector<void*> quarantine;
};
static State *S = new State();
Task *cur = nullptr;
static bool g_verbose = false;
static void hmix(uint64_t &h, char const *s) { for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; } h ^= 0x1f; h *= 1099511628211ull; }
void log(string const &s) {
    string l = cur ? std::to_string(cur->id) + " " + s : s; hmix(S->hash, l.c_str()); ++S->logged;
    if (g_verbose) { if (S->text.size() < 200000) S->text.push_back(l); if (getenv("SIM_TRACE")) { fprintf(stderr, "[%s]\n", l.c_str()); } }
}
uint32_t choose(int s, uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v; size_t i = S->rec[s].size();
    if (S->replay) v = i < S->rep[s].size() ? S->rep[s][i] % n : 0;
    else v = (uint32_t)(S->rng[s].next() >> 16) % n;
    S->rec[s].push_back(v); return v;
}
bool chance(int s, uint32_t num, uint32_t den) { return choose(s, den) >= den - std::min(num, den); }
uint32_t many(int s, uint32_t n) { if (!chance(s, 1, 80)) return choose(s, n); return choose(s, 4) ? n + choose(s, 40) : n + 40 + choose(s, 300); }
int conf(char const *k, int d) { auto i = S->cfg.find(k); return i == S->cfg.end() ? d : i->second; }
double now() { return S->clock; }
void advance(double dt) { S->clock += dt; }
void probe(string const &s) { S->st.probes[s]++; }
bool violated() { return !S->viol.empty(); }
static string noaddr(string const &s) { // messages are the same in every run
    string r; for (size_t i = 0; i < s.size();) {
        size_t j = i; if (s.compare(i, 2, "0x") == 0) for (j = i + 2; j < s.size() && isxdigit((unsigned char)s[j]); ++j) { }
        if (j > i + 6) { r += "0x?"; i = j; } else r += s[i++];
    }
    return r;
}
void violation(string const &o, string const &mm) {
    string m = noaddr(mm);
    log("VIOLATION " + o + ": " + m);
    if (S->viol.size() < 8) S->viol.emplace_back(o, m);
}
static void write_fatal();
void fatal(string const &o, string const &m) {
    violation(o, m); write_fatal(); fflush(stdout); fflush(stderr); _exit(77);
}
void effect(string const &s) {
    log("E " + s);
    if (cur && !cur->frames.empty()) cur->frames.back().effects.push_back(s);
}
void result(string const &s) { if (cur) cur->lastres = s; log("= " + s); }
void fail(int code, string msg) { throw EngineError{code, std::move(msg), true}; }
static bool in_callback() { if (cur) for (auto &f : cur->frames) if (f.cbactive) return true; return false; }
void search_open(int d) { cur->cl->open_searches += d; }
void add_failure(Failure f) { if (in_callback()) cur->cl->pending.emplace_back(f, false); if (cur && !cur->frames.empty()) cur->frames.back().fails.push_back(std::move(f)); }
void set_error(int code, char const *msg) { Task *t = cur; t->code = code; t->hasmsg = msg != nullptr; t->msg = msg ? msg : ""; }
// {{{ scheduling
static void wait_turn(Task *t) { while (sem_wait(&t->sem) != 0) {} }
static bool can_run(Task *t) { return t->st == Task::Ready || (t->st == Task::Blocked && ((t->pred && t->pred()) || (t->deadline >= 0 && S->clock >= t->deadline))); }
static void switch_to(Task *t) {
    if (t == cur) return;
    Task *me = cur; S->st.switches++; hmix(S->shash, std::to_string(t->id).c_str()); log("S>" + std::to_string(t->id));
    cur = t; sem_post(&t->sem); if (me->st != Task::Done) wait_turn(me);
}
static void step() {
    S->st.steps++; S->clock += 0.001;
    if (S->st.steps > S->maxsteps) fatal("progress:step-bound", fmt("no end of the run within %llu scheduling steps (phase %s)", (unsigned long long)S->maxsteps, S->phase.c_str()));
}
void yield_point(char const *what) {
    if (!cur) return;
    step();
    if (S->tasks.size() < 2) return;
    vector<Task*> r; for (auto &t : S->tasks) if (t.get() != cur && can_run(t.get())) r.push_back(t.get());
    if (r.empty()) return;
    if (!chance(SIM_SCHED, S->swnum, S->swden)) return;
    hmix(S->shash, what);
    switch_to(r[choose(SIM_SCHED, r.size())]);
}
static void run_other() { // current task cannot run
    for (;;) {
        step();
        vector<Task*> r; for (auto &t : S->tasks) if (t.get() != cur && can_run(t.get())) r.push_back(t.get());
        if (!r.empty()) { switch_to(r[choose(SIM_SCHED, r.size())]); return; }
        if (can_run(cur)) return;
        double best = -1; for (auto &t : S->tasks) if (t->st == Task::Blocked && t->deadline >= 0 && (best < 0 || t->deadline < best)) best = t->deadline;
        if (best < 0) { string d; for (auto &t : S->tasks) d += fmt(" %d:%s/%s", t->id, t->role.c_str(), t->st == Task::Done ? "done" : t->st == Task::Ready ? "ready" : "blocked"); fatal("progress:deadlock", "no task can run:" + d); }
        S->clock = best;
        if (can_run(cur)) return;
    }
}
bool block(std::function<bool()> pred, double deadline) {
    for (;;) {
        if (pred()) return true;
        if (deadline >= 0 && S->clock >= deadline) return false;
        cur->st = Task::Blocked; cur->pred = pred; cur->deadline = deadline;
        run_other();
        cur->st = Task::Ready; cur->pred = nullptr; cur->deadline = -1;
    }
}
static void finish_task() {
    cur->st = Task::Done; log("T done");
    vector<Task*> r; for (;;) {
        r.clear(); for (auto &t : S->tasks) if (t.get() != cur && can_run(t.get())) r.push_back(t.get());
        if (!r.empty()) break;
        double best = -1; for (auto &t : S->tasks) if (t->st == Task::Blocked && t->deadline >= 0 && (best < 0 || t->deadline < best)) best = t->deadline;
        if (best < 0) fatal("progress:deadlock", "a task ended and no task can run");
        S->clock = best;
    }
    switch_to(r[choose(SIM_SCHED, r.size())]);
}
static void *task_main(void *p) { Task *t = static_cast<Task*>(p); wait_turn(t); t->fn(); finish_task(); return nullptr; }
int spawn(std::function<void()> fn, string role) {
    auto t = std::make_unique<Task>(); t->id = S->tasks.size(); t->role = std::move(role); t->fn = std::move(fn); t->cl = cur->cl; sem_init(&t->sem, 0, 0); t->faults_off = 0;
    Task *p = t.get(); S->tasks.push_back(std::move(t)); log("T+ " + p->role);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 21);
    if (pthread_create(&p->th, &a, task_main, p) != 0) { fprintf(stderr, "pthread_create failed\n"); _exit(70); }
    pthread_attr_destroy(&a);
    return p->id;
}
Task *task(int id) { return S->tasks.at(id).get(); }
void join(int id) { Task *t = task(id); block([t]() { return t->st == Task::Done; }); if (!t->joined) { t->joined = true; pthread_join(t->th, nullptr); } }
// }}}
// {{{ faults, callbacks
// how text that is no UTF-8 is shown to a language whose strings are Unicode
bool g_unicode = false;
string readable(string const &m) {
    string r;
    for (size_t i = 0; i < m.size(); ++i) {
        unsigned char c = m[i], d = i + 1 < m.size() ? m[i + 1] : 0;
        if (c < 0x80) r += (char)c; else if (c >= 0xc2 && c < 0xe0 && (d & 0xc0) == 0x80) { r += (char)c; r += (char)d; ++i; } else r += fmt("\\x%02x", c);
    }
    return r;
}
static char const *const weird[] = {"boom", "", "100%s%d%n of %%", "multi\nline, with | bar", "\xc3\xa4\xc3\xb6 unicode", "x"};
bool should_fail(char const *fn, EngineError &e) {
    if (!cur || cur->faults_off || S->frate <= 0 || S->ending || (!cur->cl->exempt.empty() && cur->cl->exempt == fn)) return false;
    if (S->nfaults >= S->maxfaults || (cur->norelease && cur->inrelease)) return false;
    // right after user code failed, another failure is much more likely: an error kept from the first must not be taken for the second
    bool hot = cur->cl->hot > 0; if (hot) --cur->cl->hot;
    if (!chance(SIM_FAULT, 1, hot ? std::min<uint32_t>(4, (uint32_t)S->frate) : (uint32_t)S->frate)) return false;
    uint32_t k = choose(SIM_FAULT, 4); if (hot && chance(SIM_FAULT, 1, 2)) k = 3; if (hot) S->st.faults["engine:after-user-error"]++;
    static int const codes[] = {clingo_error_runtime, clingo_error_logic, clingo_error_bad_alloc, clingo_error_unknown};
    e.code = codes[k]; uint32_t m = choose(SIM_FAULT, 10); e.hasmsg = true;
    if (m < 6) e.msg = weird[m]; else if (m == 6) e.msg = string(2000, 'L'); else if (m == 9) e.msg = "caf\xe9 \xff!"; else if (m == 7 && conf("nullmsg", 1)) { e.hasmsg = false; e.msg = ""; } else e.msg = fmt("injected failure #%d in the engine", S->nfaults + 1);
    S->nfaults++; static char const *const kn[] = {"runtime", "logic", "bad_alloc", "unknown"};
    S->st.faults[string("engine:") + kn[k]]++; if (m == 7) S->st.faults["message:missing"]++; else if ((m >= 1 && m < 7) || m == 9) S->st.faults["message:odd"]++;
    log(fmt("FAULT %s code=%d msg=%d", fn, e.code, (int)m));
    return true;
}
static bool isalloc(Failure const &f) { return !f.callback && f.fn == "allocation"; }
bool expects(string const &kind, bool def) { auto i = cur->cl->cbexp.find(kind); return i == cur->cl->cbexp.end() ? def : i->second; }
static void callback_impl(string const &kind, string const &truth, std::function<bool()> f, bool must, std::function<string()> result, bool isvoid) {
    yield_point("cb");
    Task *me = cur; size_t depth = me->frames.size();
    me->frames.emplace_back(); { Frame &fr = me->frames.back(); fr.name = "cb:" + kind; fr.kind = kind; fr.truth = kind + "|" + truth; fr.must = must && expects(kind); fr.cbactive = true;
        if (auto i = cur->cl->cbexp.find(kind); i != cur->cl->cbexp.end() && i->second == 2) { Failure x; x.cls = "its input"; fr.must = false; fr.raised.push_back(x); fr.failset = true; fr.failmode = 1; } }
    log("CB " + kind + "|" + truth);
    probe("cb:" + kind);
    bool ret = false;
    try { ret = f(); } catch (...) { violation("exception-crosses-engine:" + kind, "a C++ exception left the callback for " + kind + " into the engine"); }
    if (cur != me) fatal("internal", "callback returned on the wrong task");
    if (me->frames.size() != depth + 1) { violation("frames-unbalanced:" + kind, fmt("callback %s left by a non-local jump", kind.c_str())); while (me->frames.size() > depth + 1) me->frames.pop_back(); }
    Frame fr = std::move(me->frames.back()); me->frames.pop_back();
    if (me->cl->spill && !me->frames.empty()) for (auto &x : fr.effects) me->frames.back().effects.push_back(x);
    log(fmt("CBR %s %d", kind.c_str(), (int)ret));
    for (auto &x : fr.raised) fr.fails.push_back(x);
    bool alloc = false; for (auto &x : fr.fails) alloc = alloc || isalloc(x);
    if (isvoid) { if (fr.must && fr.received != 1 && !alloc) violation("callback-delivery:" + kind, fmt("engine event '%s' reached user code %d times", fr.truth.c_str(), fr.received)); return; }
    if (ret) {
        if (result && fr.promised && fr.fails.empty()) { string r = result(); if (r != fr.promise) violation("callback-result:" + kind, fmt("user code answered '%s' to '%s' but the engine got '%s'", fr.promise.c_str(), fr.truth.c_str(), r.c_str())); }
        if (!fr.fails.empty()) violation("callback-error-lost:" + kind, fmt("callback %s had an error (%s: %s) but reported success to the engine", kind.c_str(), fr.fails[0].cls.empty() ? fr.fails[0].fn.c_str() : fr.fails[0].cls.c_str(), fr.fails[0].msg.c_str()));
        else if (fr.must && fr.received != 1) violation("callback-delivery:" + kind, fmt("engine event '%s' reached user code %d times", fr.truth.c_str(), fr.received));
    } else {
        if (fr.fails.empty()) {
            violation("callback-spurious-failure:" + kind, fmt("callback for '%s' failed although nothing failed (error code %d: %s)", fr.truth.c_str(), me->code, me->msg.c_str()));
            Failure x; x.fn = kind; x.code = x.ecode = me->code; x.msg = x.emsg = me->msg; x.hasmsg = x.ehas = me->hasmsg; x.callback = true; x.cls = "?"; throw CallbackFailed{x};
        }
        CallbackFailed cf{fr.fails[0]}; cf.f.callback = true; cf.f.fn = "cb:" + kind;
        // the engine keeps the error code and message the callback left behind
        cf.f.ecode = me->code; cf.f.emsg = me->msg; cf.f.ehas = me->hasmsg;
        if (fr.failset) { // what the engine must be told about the error
            bool ok = (fr.failcode < 0 || fr.failcode == me->code) && (fr.failmode == 0 ? me->hasmsg && me->msg == fr.failtext : fr.failmode == 1 ? me->hasmsg && me->msg.find(fr.failtext) != string::npos : true);
            if (!ok) violation("callback-error-text:" + kind, fmt("callback %s failed with '%s' (%d) but the engine was told '%s' (%d)", kind.c_str(), fr.failtext.c_str(), fr.failcode, me->hasmsg ? me->msg.c_str() : "<null>", me->code));
            // from here on it is an error of the engine
            cf.f.callback = false; cf.f.cls.clear(); cf.f.code = me->code; cf.f.msg = me->msg; cf.f.hasmsg = me->hasmsg;
        }
        throw cf;
    }
}
void callback(string const &kind, string const &truth, std::function<bool()> f, bool must, std::function<string()> result) { callback_impl(kind, truth, std::move(f), must, std::move(result), false); }
void callback_void(string const &kind, string const &truth, std::function<void()> f, bool must) { callback_impl(kind, truth, [&f]() { f(); return true; }, must, nullptr, true); }
void Poison::quarantine(void *p) { S->quarantine.push_back(p); }
Seam::Seam(char const *fn, bool yields) : fn(fn) {
    if (!cur) { fprintf(stderr, "engine call %s outside of a simulated task\n", fn); _exit(71); }
    S->st.calls++; log(string("A ") + fn); hmix(S->shash, fn);
    if (yields) yield_point(fn);
}
bool alloc_failed() { for (auto &f : cur->frames) for (auto &x : f.fails) if (isalloc(x)) return true; return false; }
void arm() { // the allocations from here on may fail
    Task *t = cur; t->api = false;
    if (S->arate && !t->faults_off && !(t->inrelease && (t->norelease || alloc_failed())) && !S->ending && S->nfaults < S->maxfaults && chance(SIM_FAULT, 1, S->arate)) { static uint32_t const ns[] = {6, 1, 40}; t->allocs = 1 + choose(SIM_FAULT, ns[choose(SIM_FAULT, 3)]); t->api = true; }
}
int seam_catch(char const *fn, bool record) {
    Quiet q;
    try { throw; }
    catch (CallbackFailed &c) { // error code/message set by the callback stay as they are (same task) or are restored
        if (record) add_failure(c.f);
        if (c.f.callback) cur->cl->hot = 6;
        set_error(c.f.ecode ? c.f.ecode : (int)clingo_error_unknown, c.f.ehas ? c.f.emsg.c_str() : nullptr);
        log(string("F ") + fn + " cb " + c.f.cls);
        return 0;
    }
    catch (EngineError &e) {
        if (record) { Failure f; f.fn = fn; f.code = e.code; f.msg = e.msg; f.hasmsg = e.hasmsg; add_failure(f); }
        set_error(e.code, e.hasmsg ? e.msg.c_str() : nullptr);
        log(string("F ") + fn + " " + std::to_string(e.code));
        return 0;
    }
}
// }}}
} // namespace sim
using namespace sim;
extern "C" {
static void load_replay(char const *path) {
    FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot read replay %s\n", path); _exit(72); }
    S->replay = true; char key[64];
    while (fscanf(f, "%63s", key) == 1) {
        if (!strcmp(key, "seed")) { unsigned long long x; if (fscanf(f, "%llu", &x) != 1) break; S->seed = x; }
        else if (!strcmp(key, "cfg")) { char k[64]; int v; if (fscanf(f, "%63s %d", k, &v) != 2) break; S->cfg[k] = v; }
        else if (!strcmp(key, "stream")) { int s; size_t n; if (fscanf(f, "%d %zu", &s, &n) != 2) break; S->rep[s].resize(n); for (auto &x : S->rep[s]) if (fscanf(f, "%u", &x) != 1) break; }
        else { int c; while ((c = fgetc(f)) != '\n' && c != EOF) {} }
    }
    fclose(f);
}
void sim_set_verbose(int v) { g_verbose = v; }
void sim_begin(uint64_t seed, char const *config, char const *replay) {
    for (auto &t : S->tasks) if (t->id) sem_destroy(&t->sem);
    for (auto p : S->quarantine) free(p);
    cur = nullptr; delete S; S = new State(); S->seed = seed; S->hash = S->shash = 1469598103934665603ull;
    std::istringstream is(config ? config : ""); string w;
    while (is >> w) { auto p = w.find('='); if (p != string::npos) S->cfg[w.substr(0, p)] = atoi(w.c_str() + p + 1); }
    if (replay && *replay) load_replay(replay);
    for (int i = 0; i < SIM_STREAMS; ++i) { S->rng[i].s = S->seed * 0x2545F4914F6CDD1Dull + 0x1234567ull * (i + 1); S->rng[i].next(); S->rng[i].next(); }
    auto t = std::make_unique<Task>(); t->id = 0; t->role = "main"; t->cl = std::make_shared<Client>(); sem_init(&t->sem, 0, 0); cur = t.get(); S->tasks.push_back(std::move(t));
    cur->frames.emplace_back(); cur->frames.back().name = "root";
    S->active = true;
    // swarm: per-run knobs
    S->maxsteps = conf("maxsteps", 60000);
    static int const dens[] = {4, 2, 8, 30}; S->swnum = 1; S->swden = dens[choose(SIM_SCHED, 4)];
    static uint32_t const spans[] = {0, 300, 60, 2000}; S->preempt_span = spans[choose(SIM_SCHED, 4)]; S->preempt = S->preempt_span ? 1 + choose(SIM_SCHED, S->preempt_span) : 0;
    int fa = conf("faults", 0);
    if (fa) { static int const rates[] = {0, 60, 20, 200, 8}; S->frate = rates[choose(SIM_FAULT, 5)]; static int const mf[] = {1, 2, 1000}; S->maxfaults = mf[choose(SIM_FAULT, 3)]; }
    if (fa && conf("allocs", 0)) { static int const rates[] = {4, 2, 16, 8}; S->arate = rates[choose(SIM_FAULT, 4)]; if (choose(SIM_FAULT, 2)) { S->frate = 0; } if (!S->frate) { S->maxfaults = 1 + choose(SIM_FAULT, 3); } }
    int ra = conf("raises", 0);
    if (ra) { static int const rn[] = {0, 30, 10, 4}; S->raisenum = rn[choose(SIM_FAULT, 4)]; }
    log(fmt("BEGIN seed=%llu", (unsigned long long)S->seed));
    engine_reset();
}
static void build_report() {
    std::ostringstream o;
    o << "seed " << S->seed << "\nhash " << S->hash << "\nshash " << S->shash << "\nsteps " << S->st.steps << "\ncalls " << S->st.calls << "\nswitches " << S->st.switches << "\ntasks " << S->tasks.size() << "\nclock " << S->clock << "\n";
    for (auto &x : S->st.faults) o << "fault " << x.first << " " << x.second << "\n";
    for (auto &x : S->st.probes) o << "probe " << x.first << " " << x.second << "\n";
    for (auto &x : S->viol) { string m = x.second; for (auto &c : m) if (c == '\n') c = ' '; if (m.size() > 1500) m = m.substr(0, 1500) + "..."; o << "viol " << x.first << " " << m << "\n"; }
    S->report = o.str();
}
static char const *g_outfile = nullptr; static char const *g_savefile = nullptr;
int sim_end(void) { cur->api = false;
    S->ending = true;
    for (size_t i = 1; i < S->tasks.size(); ++i) sim::join(i);
    if (cur->frames.size() != 1) violation("frames-unbalanced:end", "driver frames unbalanced at the end of the run");
    engine_final();
    log("END");
    build_report(); S->active = false;
    return S->viol.size();
}
uint64_t sim_seed(void) { return S->seed; }
uint32_t sim_choose(int s, uint32_t n) { Quiet q_; return choose(s, n); }
uint32_t sim_many(int s, uint32_t n) { Quiet q_; return many(s, n); }
int sim_chance(int s, uint32_t a, uint32_t b) { Quiet q_; return chance(s, a, b); }
int sim_config(char const *k, int d) { Quiet q_; return conf(k, d); }
void sim_config_set(char const *k, int v) { cur->api = false; S->cfg[k] = v; }
void sim_log(char const *l) { cur->api = false; sim::log(string("D ") + l); }
void sim_probe(char const *n) { cur->api = false; probe(n); }
void sim_violation(char const *o, char const *m) { cur->api = false; violation(o, m); }
int sim_violated(void) { return violated(); }
char const *sim_report(void) { cur->api = false; if (S->report.empty()) build_report(); return S->report.c_str(); }
uint64_t sim_hash(void) { return S->hash; }
uint64_t sim_schedule_hash(void) { return S->shash; }
double sim_clock(void) { return S->clock; }
void sim_phase(char const *p) { cur->api = false; S->phase = p; sim::log(string("PHASE ") + p); }
void sim_save(char const *path) { cur->api = false;
    FILE *f = fopen(path, "w"); if (!f) return;
    fprintf(f, "seed %llu\n", (unsigned long long)S->seed);
    for (auto &c : S->cfg) fprintf(f, "cfg %s %d\n", c.first.c_str(), c.second);
    for (int i = 0; i < SIM_STREAMS; ++i) { fprintf(f, "stream %d %zu", i, S->rec[i].size()); for (auto x : S->rec[i]) fprintf(f, " %u", x); fprintf(f, "\n"); }
    for (auto &x : S->viol) fprintf(f, "# %s %s\n", x.first.c_str(), esc(x.second).c_str());
    if (g_verbose) for (auto &l : S->text) fprintf(f, "# %s\n", esc(l).c_str());
    fclose(f);
}
void sim_yield(void) { Quiet q_; yield_point("user"); }
void sim_preempt_point(void) { Quiet q_;
    if (!S->preempt || !cur || S->tasks.size() < 2 || S->ending) return;
    if (--S->preempt > 0) return;
    S->preempt = 1 + choose(SIM_SCHED, S->preempt_span);
    vector<Task*> r; for (auto &t : S->tasks) if (t.get() != cur && can_run(t.get())) r.push_back(t.get());
    if (r.empty()) return;
    step(); probe("preempt-inside-binding"); hmix(S->shash, "pp"); switch_to(r[choose(SIM_SCHED, r.size())]);
}
int sim_spawn(void (*fn)(void *), void *data, char const *role) { cur->api = false; return spawn([fn, data]() { cur->frames.emplace_back(); cur->frames.back().name = "root"; fn(data); }, role); }
void sim_client(void) { cur->api = false; cur->cl = std::make_shared<Client>(); }
void sim_join(int t) { cur->api = false; sim::join(t); }
int sim_task(void) { return cur ? cur->id : -1; }
int sim_tasks_alive(void) { int n = 0; for (auto &t : S->tasks) n += t->st != Task::Done; return n; }
struct SimMutex { int owner = -1; };
void *sim_mutex_new(void) { cur->api = false; return new SimMutex(); }
void sim_mutex_lock(void *p) { cur->api = false; auto m = static_cast<SimMutex*>(p); sim::block([m]() { return m->owner < 0; }); m->owner = cur->id; }
int sim_mutex_trylock(void *p) { auto m = static_cast<SimMutex*>(p); if (m->owner >= 0) return 0; m->owner = cur->id; return 1; }
void sim_mutex_unlock(void *p) { cur->api = false; auto m = static_cast<SimMutex*>(p); m->owner = -1; yield_point("unlock"); }
void sim_block_on(int *flag) { cur->api = false; sim::block([flag]() { return *flag != 0; }); }
// operations
void sim_op_begin(char const *name) { cur->api = false; yield_point("op"); if (cur->frames.size() == 1 && cur->cl->open_searches == 0) { cur->cl->pending.clear(); cur->cl->reported = 0; } cur->frames.emplace_back(); Frame &f = cur->frames.back(); f.name = name; f.op = true; sim::log(string("OP ") + name); }
void sim_op_expect(char const *e) { cur->api = false; Frame &f = cur->frames.back(); f.expect_set = true; f.expect.push_back(e); }
void sim_op_expect_none(void) { cur->api = false; cur->frames.back().expect_set = true; }
void sim_op_expect_raise(char const *c) { cur->api = false; cur->frames.back().expraise.emplace_back(c, true); }
void sim_op_may_raise(char const *c) { cur->api = false; cur->frames.back().expraise.emplace_back(c, false); }
void sim_op_note_raised(char const *cls, char const *msg) { cur->api = false;
    Failure f; f.cls = cls; f.msg = msg ? msg : ""; f.callback = true; f.code = clingo_error_unknown;
    S->st.faults["callback:raise"]++; sim::log(string("RAISE ") + cls);
    f.fn = cur->frames.back().name; // an operation passing the error on notes it again for the next frame
    if (in_callback()) cur->cl->pending.emplace_back(f, false);
    cur->frames.back().raised.push_back(f);
}
char const *sim_last_result(void) { cur->api = false; return cur->lastres.c_str(); }
/* operations whose user code is not the driver's: effects of callbacks count as the operation's, calls of one function do not fail */
void sim_whole(int on, char const *exempt) { cur->api = false; cur->cl->spill = on != 0; cur->cl->exempt = exempt; }
void sim_api(int on) { if (!cur) return; cur->api = false; if (on) arm(); }
int sim_alloc_fails(void) {
    Task *t = cur; if (!t || !t->api || --t->allocs > 0) return 0;
    t->api = false; S->nfaults++; S->st.faults["memory:allocation"]++; sim::log("FAULT allocation");
    Failure f; f.fn = "allocation"; f.code = clingo_error_bad_alloc; f.hasmsg = false; add_failure(f); return 1;
}
void sim_unicode(int on) { sim::g_unicode = on != 0; }
void sim_release_faults(int on) { if (on) cur->norelease--; else cur->norelease++; }
int sim_op_failures(void) { return (int)cur->frames.back().fails.size(); }
static string allowed_cls(string const &lang, Failure const &f) {
    if (f.callback && !f.cls.empty()) return f.cls;
    if (lang == "cpp") return f.code == clingo_error_bad_alloc ? "bad_alloc" : f.code == clingo_error_logic ? "logic" : "runtime";
    if (lang == "py") return f.code == clingo_error_bad_alloc ? "bad_alloc" : "runtime";
    return "error";
}
static bool msg_ok(string const &lang, Failure const &f, string const &cls, string const &msg) {
    if (lang == "lua") {
        if (!f.hasmsg) return true;
        if (f.code == clingo_error_bad_alloc && !f.callback) return msg.find(f.msg) != string::npos || msg.find("not enough memory") != string::npos || msg.find("bad_alloc") != string::npos;
        return msg.find(f.msg) != string::npos;
    }
    if (!f.hasmsg) return true;
    if (lang == "cpp" && cls == "bad_alloc") return true; // std::bad_alloc carries no message
    return msg == f.msg || (lang == "py" && msg == sim::readable(f.msg));
}
static bool others_failing() { // another client is about to report a failure and may have taken the recorded error
    for (auto &t : S->tasks) if (t.get() != cur && t->cl == cur->cl) for (auto &f : t->frames) if (f.op && !f.fails.empty()) return true;
    return false;
}
int sim_op_end(char const *lang_, char const *cls_, char const *msg_) { cur->api = false;
    string lang = lang_; bool raised = cls_ != nullptr; string cls = cls_ ? cls_ : "", msg = msg_ ? msg_ : "";
    if (cur->frames.size() < 2 || !cur->frames.back().op) fatal("internal", "op_end without op_begin (" + cur->frames.back().name + ")");
    Frame f = std::move(cur->frames.back()); cur->frames.pop_back();
    sim::log("OPR " + f.name + (raised ? " raised " + cls : " ok"));
    for (auto &x : f.raised) f.fails.push_back(x);
    bool musts = false; for (auto &e : f.expraise) musts = musts || e.second;
    if (raised) {
        bool ok = false; string want;
        for (auto &e : f.expraise) if (e.first == cls) ok = true;
        for (auto &x : f.fails) {
            string c = allowed_cls(lang, x);
            if (c == cls || (lang == "lua")) { if (msg_ok(lang, x, cls, msg)) ok = true; }
            want += fmt(" [%s: %s]", c.c_str(), x.msg.c_str());
            // once an error of the search was reported, the engine's own report of it may follow
            if (!ok && x.callback && (cur->cl->reported || others_failing() || (lang == "py" && x.ecode == (int)clingo_error_runtime))) { // (documented: the Python API reports errors of asynchronous searches as text)
                Failure y = x; y.callback = false; y.cls.clear(); y.code = x.ecode; y.msg = x.emsg; y.hasmsg = x.ehas; if ((allowed_cls(lang, y) == cls || lang == "lua") && msg_ok(lang, y, cls, msg)) ok = true; }
        }
        // an operation failing for another reason may report the error a callback of the running search recorded, once
        bool handle = false; for (auto &x : f.fails) handle = handle || x.fn.compare(0, 12, "solve_handle") == 0; // further failures on the handle of that search may repeat it
        if (!ok && !f.fails.empty()) for (auto &x : cur->cl->pending) if ((handle || !x.second) && (allowed_cls(lang, x.first) == cls || lang == "lua") && msg_ok(lang, x.first, cls, msg)) { ok = true; sim::probe("pending-error-reported-by-other-failure"); break; }
        if (ok && !in_callback()) for (auto &x : cur->cl->pending) if (!x.second && (allowed_cls(lang, x.first) == cls || lang == "lua") && msg_ok(lang, x.first, cls, msg)) { x.second = true; cur->cl->reported++; break; }
        if (!ok) {
            if (f.fails.empty() && !musts) violation("spurious-error:" + f.name, fmt("operation %s raised %s: %s although the engine reported no failure", f.name.c_str(), cls.c_str(), msg.c_str()));
            else { bool cb = false; for (auto &x : f.fails) cb = cb || x.callback;
                violation(string(cb ? "wrong-callback-error:" : "wrong-error:") + f.name, fmt("operation %s raised %s: %s but should raise%s%s", f.name.c_str(), cls.c_str(), msg.c_str(), want.c_str(), musts ? (" " + f.expraise[0].first).c_str() : "")); }
        }
    } else {
        if (!f.fails.empty()) violation(string(f.fails[0].callback ? "callback-error-lost:" : "error-lost:") + f.name, fmt("operation %s returned normally although the engine reported '%s' in %s", f.name.c_str(), f.fails[0].callback ? (f.fails[0].cls + ": " + f.fails[0].msg).c_str() : f.fails[0].msg.c_str(), f.fails[0].fn.c_str()));
        else if (musts) violation("missing-error:" + f.name, fmt("operation %s should have raised %s", f.name.c_str(), f.expraise[0].first.c_str()));
    }
    if (f.expect_set) {
        bool ok = f.effects.size() <= f.expect.size() && std::equal(f.effects.begin(), f.effects.end(), f.expect.begin());
        if (!raised && f.effects.size() != f.expect.size()) ok = false;
        if (raised && f.fails.empty() && musts && !f.effects.empty() && f.effects.size() > f.expect.size()) ok = false;
        if (!ok) { string a, b; for (auto &x : f.effects) a += " {" + x + "}"; for (auto &x : f.expect) b += " {" + x + "}"; violation("effect:" + f.name, fmt("operation %s changed the engine by%s but should by%s", f.name.c_str(), a.c_str(), b.c_str())); }
    }
    cur->cl->opeffects.clear(); for (auto &x : f.effects) cur->cl->opeffects += x + "\n";
    return (int)f.fails.size();
}
char const *sim_op_effects(void) { return cur->cl->opeffects.c_str(); }
static Frame *cbframe() { for (auto i = cur->frames.rbegin(); i != cur->frames.rend(); ++i) if (i->cbactive) return &*i; return nullptr; }
int sim_cb_receive(char const *text) { cur->api = false;
    Frame *f = cbframe(); sim::log(string("R ") + text);
    if (!f) { violation("callback-delivery:none", fmt("user code was called with '%s' outside of any engine callback", text)); return 0; }
    f->received++;
    if (f->truth != text) { violation("callback-data:" + f->kind, fmt("engine sent '%s' but user code got '%s'", f->truth.c_str(), text)); return 0; }
    return 1;
}
char const *sim_cb_truth(void) { cur->api = false; Frame *f = cbframe(); return f ? f->truth.c_str() : ""; }
int sim_cb_depth(void) { int n = 0; for (auto &f : cur->frames) n += f.cbactive; return n; }
void sim_cb_promise(char const *text) { cur->api = false; if (Frame *f = cbframe()) { f->promised = true; f->promise = text; } }
void sim_cb_fails(int code, char const *text, int mode) { cur->api = false; if (Frame *f = cbframe()) { f->failset = true; f->failcode = code; f->failtext = text; f->failmode = mode; } }
void sim_cb_optional(void) { if (Frame *f = cbframe()) f->must = false; }
void sim_cb_expect(char const *kind, int e) { cur->api = false; cur->cl->cbexp[kind] = e; }
int sim_cb_wants_raise(char const *kind) { cur->api = false;
    if (!S->raisenum || S->ending || cur->faults_off || (cur->norelease && cur->inrelease)) return 0;
    if (!chance(SIM_FAULT, 1, S->raisenum)) return 0;
    S->st.faults[string("raise:") + kind]++; return 1;
}
void sim_faults(int on) { if (on) cur->faults_off--; else cur->faults_off++; }
}
namespace sim {
static void write_fatal() {
    build_report();
    if (g_savefile) sim_save(g_savefile);
    FILE *f = g_outfile ? fopen(g_outfile, "a") : nullptr;
    if (f) { fprintf(f, "RUN\n%sENDRUN fatal\n", S->report.c_str()); fclose(f); }
}
}
extern "C" void sim_fatal_files(char const *out, char const *save) { free((void*)g_outfile); free((void*)g_savefile); g_outfile = out && *out ? strdup(out) : nullptr; g_savefile = save && *save ? strdup(save) : nullptr; }
// objects initialized on first use: a task that comes meanwhile waits under the simulator's scheduler
namespace __cxxabiv1 { extern "C" {
int __cxa_guard_acquire(__guard *g) { auto *b = reinterpret_cast<char volatile *>(g); while (b[0] == 0 && b[1] != 0) sim_yield(); if (b[0]) return 0; b[1] = 1; return 1; }
void __cxa_guard_release(__guard *g) { auto *b = reinterpret_cast<char volatile *>(g); b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(__guard *g) { reinterpret_cast<char volatile *>(g)[1] = 0; }
} }
