// Shared parts of the C++ driver: operations judged by the simulated engine, user exceptions, text of engine values.
#pragma once
#include <clingo.hh>
#include "sim.h"
#include "sim_raw.h"
#include <functional>
#include <memory>
#include <string>
#include <typeinfo>
#include <vector>
#include <cstdio>
#include <cstring>
using std::string; using std::vector;
namespace C = Clingo;
extern int g_ids; void driver_reset();
extern int g_nop; // >0: no preemption inside driver bookkeeping
struct NoPre { NoPre() { ++g_nop; } ~NoPre() { --g_nop; } };
struct NoFaults { NoFaults() { sim_faults(0); } ~NoFaults() { sim_faults(1); } };
string fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));
string esc(string const &s);
inline string esc(char const *s) { return s ? esc(string(s)) : string("<null>"); }
string sym(clingo_symbol_t s);
inline string sym(C::Symbol s) { return sym(s.to_c()); }
template <class S> string syms(S const &s) { string r; bool f = true; for (auto x : s) { if (!f) r += ';'; f = false; r += sym(C::Symbol(x)); } return r; }
template <class S> string nums(S const &s) { string r; for (auto x : s) { if (!r.empty()) r += ','; r += std::to_string(x); } return r; }
template <class S> string wlits(S const &s) { string r; for (auto x : s) { if (!r.empty()) r += ','; r += fmt("%d@%d", x.literal(), x.weight()); } return r; }
string model_text(clingo_model_t const *m); // number|type|thread|proven|shown|costs, straight from the engine
// user exceptions
struct Plain { int id; string text; };
struct Derived : std::runtime_error { Derived(string const &s, int id) : std::runtime_error(s), id(id) {} int id; };
void raise_user(char const *kind);       // raises (and notes) one of several exception types
void maybe_raise(char const *kind);      // if the fault stream says so
struct Outcome { bool raised = false; string cls, msg; std::exception_ptr p; };
Outcome classify(std::exception_ptr p);
// one operation of the API under test
struct Expect { vector<string> eff; bool set = false; string must, may; };
inline Expect none() { Expect e; e.set = true; return e; }
inline Expect eff(string const &s) { Expect e; e.set = true; e.eff.push_back(s); return e; }
inline Expect effs(vector<string> s) { Expect e; e.set = true; e.eff = std::move(s); return e; }
inline Expect any() { return Expect(); }
inline Expect raises(string cls) { Expect e = none(); e.must = std::move(cls); return e; }
inline Expect may_raise(string cls) { Expect e; e.may = std::move(cls); return e; }
void op_open(char const *name, Expect const &e);
bool op_done(Outcome const &o);
template <class F> bool op(char const *name, Expect const &e, F &&f) {
    sim_api(0); op_open(name, e); Outcome o; try { sim_api(1); f(); sim_api(0); } catch (...) { sim_api(0); o.raised = true; o.p = std::current_exception(); }
    if (o.raised) o = classify(o.p);
    bool ok = op_done(o);
    if (!ok && sim_cb_depth() > 0 && sim_chance(SIM_FAULT, 1, 2)) { sim_op_note_raised(o.cls.c_str(), o.msg.c_str()); std::rethrow_exception(o.p); }
    return ok;
}
void same(char const *oracle, string const &got, string const &want);
inline void same_result(char const *oracle, string const &got) { same(oracle, got, sim_last_result()); }
inline void whole(std::ostream &o) { if (!o) throw std::bad_alloc(); } // streams keep exceptions to themselves
// workload choices
inline uint32_t W(uint32_t n) { return sim_choose(SIM_WORK, n); }
inline uint32_t Wn(uint32_t n) { return sim_many(SIM_WORK, n); } // sizes
inline unsigned rand_limit() { static unsigned const v[] = {20, 0, 1, 2, 3, 20, 21, 50, 1000, 65536, 2147483647u, 4294967295u}; return v[W(3) ? W(5) : W(12)]; } // of messages
inline bool Wc(uint32_t a, uint32_t b) { return sim_chance(SIM_WORK, a, b); }
int weird_number();
string weird_string();
C::Symbol rand_sym(int depth = 2);
C::Symbol some_atom(clingo_control_t *c); // often one the engine knows
string part_text(string const &name, vector<C::Symbol> const &p);
struct User; // user objects around one control
struct Env { int prop; vector<std::unique_ptr<User>> users; };
struct User {
    std::unique_ptr<C::Control> ctl; clingo_control_t *raw = nullptr; int label = 0, id = 0; int nobs = 0, nprop = 0; bool logger = false, borrowed = false;
    vector<std::unique_ptr<C::GroundProgramObserver>> obs; vector<std::unique_ptr<C::Propagator>> props; vector<string> messages; vector<clingo_symbol_t> known; vector<std::pair<string,string>> kept; int solves = 0;
};
// families
void check_control(User &u, int what = -1);
void check_config(User &u, bool mutate);
void check_stats(User &u);
void check_model(C::Model const &m, User *u, bool extend);
void user_stats(C::UserStatistics s, char const *name);
bool make_control(User &u);
void end_control(User &u);
void do_command(User &u);
void do_ground(User &u);
void do_solve(User &u, int style);
void do_backend(User &u);
void add_observer(User &u);
void add_propagator(User &u);
void observer_callback_filter(bool backend);
void fam_ast(Env &);
void fam_app(Env &);
void fam_script(Env &);
void fam_symbols(Env &);
void fam_lifecycle(Env &);
