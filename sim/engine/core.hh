#pragma once
#include "sim.h"
#include "../abi/clingo.h"
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <semaphore.h>
#include <pthread.h>
namespace sim {
using std::string; using std::vector;
string fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));
string esc(char const *s);
inline string esc(string const &s) { return esc(s.c_str()); }
template <class It, class F> string joinf(It b, It e, F f) { string r; for (; b != e; ++b) { if (!r.empty() ) r += ','; r += f(*b); } return r; }
template <class T> string joinn(T const *a, size_t n) { string r; for (size_t i = 0; i < n; ++i) { if (i) r += ','; r += std::to_string(a[i]); } return r; }

struct EngineError { int code; string msg; bool hasmsg = true; };
bool alloc_failed(); // and the operation is being left
struct Failure { string fn; int code = 0; string msg; bool hasmsg = true; bool callback = false; string cls; /* callback: class of the user's exception */
    int ecode = 0; string emsg; bool ehas = false; /* error state the callback left behind */ };
struct Frame {
    string name; bool op = false; vector<Failure> fails; vector<string> effects; vector<string> expect; bool expect_set = false; vector<std::pair<string,bool>> expraise; int cbdepth = 0;
    // callback frames
    string kind, truth; int received = 0; bool must = false; bool cbactive = false; vector<Failure> raised; string promise; bool promised = false; bool failset = false; int failcode = -1, failmode = 0; string failtext;
};
struct Client { // what belongs to one client of the engine and the tasks that work for it
    std::map<string, int> cbexp; int label = -1; int em = 1, eu = 1, es = 1, ef = 1; string opeffects; vector<std::pair<Failure, bool>> pending; int reported = 0, open_searches = 0, hot = 0; bool spill = false; string exempt;
};
struct Task {
    std::shared_ptr<Client> cl;
    int id; string role; pthread_t th{}; sem_t sem; enum State { Ready, Blocked, Done } st = Ready;
    std::function<bool()> pred; double deadline = -1; std::function<void()> fn; std::deque<Frame> frames;
    int code = 0; string msg, msgout; bool hasmsg = false; int faults_off = 0; bool joined = false;
    string lastres; int norelease = 0; int inrelease = 0; bool api = false; int allocs = 0; /* code of the interface runs; allocations until one fails */
};
extern Task *cur;
struct Stats { std::map<string, uint64_t> faults, probes; uint64_t calls = 0, switches = 0, steps = 0; };
// scheduling
void yield_point(char const *what);
bool block(std::function<bool()> pred, double deadline = -1);
int spawn(std::function<void()> fn, string role);
void join(int id);
Task *task(int id);
void advance(double dt);
double now();
// choices
uint32_t choose(int s, uint32_t n);
uint32_t many(int s, uint32_t n); // 0..n-1, sometimes a lot more
bool chance(int s, uint32_t num, uint32_t den);
int32_t pick_weird(int s);
// records
void log(string const &s);
string readable(string const &m);
extern bool g_unicode; // the language's strings are Unicode
void effect(string const &s);
void result(string const &s); // value the engine returned from the last call of this task
void violation(string const &oracle, string const &msg);
bool violated();
void probe(string const &s);
int conf(char const *k, int d);
[[noreturn]] void fail(int code, string msg);
[[noreturn]] void fatal(string const &oracle, string const &msg);
void add_failure(Failure f);
void set_error(int code, char const *msg);
bool should_fail(char const *fn, EngineError &e);
bool expects(string const &kind, bool def = true);
// callback guard: pushes a callback frame; returns after running f() (result of the C callback)
// returns true if callback succeeded; on failure throws CallbackFailed
struct CallbackFailed { Failure f; };
void callback(string const &kind, string const &truth, std::function<bool()> f, bool must = true, std::function<string()> result = nullptr);
void callback_void(string const &kind, string const &truth, std::function<void()> f, bool must = true);
void handover(Failure const &f);
struct Poison { // buffers handed to callbacks, overwritten afterwards
    template <class T> static T *copy(T const *a, size_t n) { T *p = static_cast<T*>(malloc(sizeof(T) * (n + 1))); if (n) memcpy((void*)p, a, sizeof(T) * n); memset((void*)(p + n), 0xAB, sizeof(T)); return p; }
    static char *str(string const &s) { return copy(s.c_str(), s.size() + 1); }
    template <class T> static void kill(T *p, size_t n) { memset((void*)p, 0xCD, sizeof(T) * (n + 1)); quarantine((void*)p); }
    static void kills(char *p) { size_t n = strlen(p); memset(p, 'Z', n); quarantine(p); }
    static void quarantine(void *p);
};
struct Quiet { Task *t = cur; bool a; Quiet() : a(t && t->api) { if (t) t->api = false; } ~Quiet() { if (t) t->api = a; } Quiet(Quiet const &) = delete; }; // no allocation fails meanwhile
void arm();
struct Armed { explicit Armed(bool on = true) { if (on) arm(); } ~Armed() { cur->api = false; } Armed(Armed const &) = delete; }; // a callback of the interface runs: its allocations may fail
template <class F> auto armed(F &&f) { Armed a; return f(); }
struct Seam { // one engine call at the seam
    Quiet q; char const *fn; Seam(char const *fn, bool yields); };
int seam_catch(char const *fn, bool record); // to be used in catch(...)
// engine hooks run by sim_begin / sim_end
void engine_reset();
void engine_final();
} // namespace sim
