#pragma once
#include "gen_impl.hh"
namespace sim {
char const *intern(string const &s);
string symstr(clingo_symbol_t s);
string symlist(clingo_symbol_t const *s, size_t n);
string siglist_str(clingo_signature_t s);
clingo_symbol_t rand_symbol(int stream, int depth = 2);
clingo_symbol_t rand_atom(int stream);
clingo_symbol_t mkfun(string const &n, vector<clingo_symbol_t> const &a, bool pos = true);
clingo_symbol_t mknum(int n);
// ledger of opaque engine objects
struct Rec { string kind; int id; bool alive; int refs; };
int track(void const *p, string const &kind);
void untrack(void const *p);
Rec *lookup(void const *p);
void check(void const *p, char const *kind, char const *fn); // throws EngineError on misuse after recording a violation
string objname(void const *p);
struct Msg { clingo_logger_t fn = nullptr; void *data = nullptr; int64_t limit = 20; int id = 0; };
int take_label(); uint32_t wideid(uint32_t n); string longer(char const *s);
void emit(Msg &l, int force = -1, string const &text = "");
struct Keeper { std::shared_ptr<void> p; };
template <class T> T *make() { auto p = std::make_shared<T>(); extern std::vector<Keeper> g_keep; g_keep.push_back({p}); return p.get(); }
struct Atom { clingo_symbol_t sym; clingo_literal_t lit; bool fact, external; };
struct TTerm { int type; int num; string name; vector<clingo_id_t> args; size_t size = 1; };
struct TElem { vector<clingo_id_t> tuple; vector<clingo_literal_t> cond; clingo_literal_t condid; };
struct TAtom { clingo_id_t term; vector<clingo_id_t> elems; bool guard; string op; clingo_id_t rhs; clingo_literal_t lit; };
struct Theory { vector<TTerm> terms; vector<TElem> elems; vector<TAtom> atoms; string term(clingo_id_t), elem(clingo_id_t), atom(clingo_id_t); };
struct SNode { int type = 0; double val = 0; vector<std::pair<string, uint64_t>> map; vector<uint64_t> arr; bool mut = false; string path; };
struct Stat { std::map<uint64_t, SNode> n; uint64_t root = 0, next = 0; uint64_t add(int type, bool mut, string path) { uint64_t k = next += 3; n[k].type = type; n[k].mut = mut; n[k].path = std::move(path); return k; } };
struct CNode { int type = 0; string desc, val, path; bool assigned = false; vector<std::pair<string, clingo_id_t>> map; vector<clingo_id_t> arr; };
struct Conf { std::map<clingo_id_t, CNode> n; clingo_id_t root = 0, next = 0; clingo_id_t add(int type, string path) { clingo_id_t k = next += 5; n[k].type = type; n[k].desc = "describes " + path; n[k].path = std::move(path); return k; } };
struct Control; struct Search;
struct Assign { int nv = 0; vector<int> val; vector<uint32_t> lev; vector<clingo_literal_t> trail; vector<uint32_t> begin{0}; vector<clingo_literal_t> dec{1}; bool conflict = false; uint32_t root = 0;
    void init(int n) { nv = n; val.assign(n + 1, 0); lev.assign(n + 1, 0); trail.clear(); begin.assign(1, 0); dec.assign(1, 1); conflict = false; val[1] = 1; trail.push_back(1); }
    bool has(clingo_literal_t l) const { return l != 0 && std::abs((int64_t)l) <= nv; }
    int value(clingo_literal_t l) const { int v = val[std::abs(l)]; return l < 0 ? -v : v; }
    uint32_t level() const { return begin.size() - 1; }
    void assign(clingo_literal_t l) { val[std::abs(l)] = l > 0 ? 1 : -1; lev[std::abs(l)] = level(); trail.push_back(l); }
    void push(clingo_literal_t d) { begin.push_back(trail.size()); dec.push_back(d); assign(d); }
    void pop() { uint32_t b = begin.back(); for (size_t i = b; i < trail.size(); ++i) { val[std::abs(trail[i])] = 0; lev[std::abs(trail[i])] = 0; } trail.resize(b); begin.pop_back(); dec.pop_back(); }
};
struct Prop { clingo_propagator_t p; void *data; bool sequential; int idx; int check_mode = 1, undo_mode = 0; vector<std::multiset<clingo_literal_t>> watches; };
struct PInit { Control *ctl; Prop *prop; int nthreads; Assign *as; };
struct PCtl { Search *s; int thread; Prop *prop; Assign *as; bool failed = false; };
struct Obs { clingo_ground_program_observer_t o; void *data; bool replace; int idx; };
struct Model { Search *s; uint64_t number; int type, thread; vector<clingo_symbol_t> atoms, terms, theory, shown, compl_; vector<int64_t> cost; vector<int> prio; bool proven; vector<int> truth; bool extendable = false; string text(); };
struct Thread { int id; Assign as; vector<vector<vector<clingo_literal_t>>> lev; /* [prop][level] */ vector<vector<bool>> checked; };
struct Search {
    Control *ctl; unsigned mode; clingo_solve_event_callback_t notify; void *data; std::deque<Thread> th; vector<clingo_literal_t> assume; int id;
    bool stop = false, done = false, sync = false, cancelled = false, interrupted = false; int driving = 0, running = 0; std::unique_ptr<Failure> error; bool errored = false;
    Model *model = nullptr; Model *last = nullptr; bool ready = false, seen = false, resumed = false, closed = false, more = true; int modelLock = 0; uint64_t nmodels = 0; unsigned result = 0; clingo_literal_t *core = nullptr; size_t ncore = 0; vector<int> tasks; int limit = 0; vector<string> yielded; std::deque<string> produced; /* read by clients while the search goes on */ bool unsatSent = false; bool wantStop = false; bool exhausted = false; bool expModel, expUnsat, expStats, expFin; vector<Model*> models; bool finished_cb = false;
};
struct Handle { Control *c; };
struct Control {
    char tag[16] = "control"; Handle hAtoms{this}, hTheory{this}, hBackend{this}, hBuilder{this}, hSolve{this};
    Msg log; vector<string> args; int id; bool dead = false; vector<string> parts; vector<Atom> atoms; Theory th; vector<Prop*> props; vector<Obs*> obs; Conf conf; Stat stat; bool conflicting = false, enumAssume = true, cleanup = true; Search *search = nullptr; uint64_t step = 0; int nextAtom = 2; int nv = 4; int nthreads = 1; bool backendOpen = false; int borrowed = 0; bool propLocked = false; bool builderOpen = false; std::map<int,int> externals; std::map<string, clingo_symbol_t> consts; bool interruptPending = false; vector<std::unique_ptr<Stat>> evstats; bool clone = false; bool groundedAfterSolve = false;
};
extern vector<Control*> g_controls;
Control *new_control(vector<string> args, Msg log);
void free_control(Control *c);
void build_stats(Control *c);
void observers(Control *c, std::function<void(Obs&)> f);
void script_exec(Control *c);
void end_step(Control *c); void search_open(int d);
bool app_printer(Control *c); void app_print(Control *c, Model *m); bool script_add(Control *c, string const &prg);
void app_reset(); void app_final(); void ast_reset(); void ast_final();
} // namespace sim
