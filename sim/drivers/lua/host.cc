// Worker: runs one simulated execution per seed, or replays one, with the user code in Lua (driver.lua) and
// the Lua interface of /repo (luaclingo.cc) on top of the simulated engine.
#include "sim.h"
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <cerrno>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <lua.hpp>
using std::string;
static struct { bool set; void *p; size_t old, n; } g_again; // the request for memory that failed, in case it is made again
extern "C" {
int clingo_init_lua_(lua_State *L);
int luaopen_clingo(lua_State *L);
bool clingo_register_lua_(lua_State *L);
char const *orc(char const *what, void *p, int64_t a, int64_t b, char const *s);
void orc_crash(char const *save);
void __sanitizer_cov_trace_pc() { g_again.set = false; sim_preempt_point(); }
}
static string g_code; // the driver, compiled
static std::vector<lua_State *> g_states;
// {{{ memory of the interpreters
// memory of the interface's own containers may run out (see sim_api)
void *operator new(size_t n) { if (sim_alloc_fails()) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return ::operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
static bool g_quiet = false; // a state is set up
struct Mem { void *strings = nullptr; bool first = true; };
static void *alloc(void *ud, void *p, size_t old, size_t n) {
    if (n == 0) { free(p); return nullptr; }
    auto &m = *static_cast<Mem *>(ud);
    // a failed request is made again after a collection; running out of memory for a larger table of strings is no error
    if (!p || n > old) {
        bool again = g_again.set && g_again.p == p && g_again.old == old && g_again.n == n; g_again.set = false;
        if (again) return nullptr;
        if (!(p && p == m.strings) && !g_quiet && sim_alloc_fails()) { g_again = {true, p, old, n}; return nullptr; }
    }
    void *r = realloc(p, n); if (!r) abort();
    if ((m.first && !p && n == 128 * sizeof(void *)) || (p && p == m.strings)) { m.strings = r; m.first = false; }
    return r;
}
static int panic(lua_State *L) { // an error nobody catches
    char const *m = lua_tostring(L, -1); sim_violation("lua-panic", (string("unprotected error in call to Lua API: ") + (m ? m : "?")).c_str()); fprintf(stderr, "PANIC: %s\n", m ? m : "?"); abort();
}
// }}}
// {{{ module sim
static char const *str(lua_State *L, int i) { return lua_isnoneornil(L, i) ? nullptr : luaL_checkstring(L, i); }
#define F(name) static int f_##name(lua_State *); static int l_##name(lua_State *L) { sim_api(0); g_again.set = false; return f_##name(L); } static int f_##name(lua_State *L) // memory fails in the interface only
F(choose) { lua_pushinteger(L, sim_choose((int)luaL_checkinteger(L, 1), (uint32_t)luaL_checkinteger(L, 2))); return 1; }
F(many) { lua_pushinteger(L, sim_many((int)luaL_checkinteger(L, 1), (uint32_t)luaL_checkinteger(L, 2))); return 1; }
F(chance) { lua_pushboolean(L, sim_chance((int)luaL_checkinteger(L, 1), (uint32_t)luaL_checkinteger(L, 2), (uint32_t)luaL_checkinteger(L, 3))); return 1; }
F(config) { lua_pushinteger(L, sim_config(luaL_checkstring(L, 1), (int)luaL_optinteger(L, 2, 0))); return 1; }
F(probe) { sim_probe(luaL_checkstring(L, 1)); return 0; }
F(phase) { sim_phase(luaL_checkstring(L, 1)); return 0; }
F(log) { sim_log(luaL_checkstring(L, 1)); return 0; }
F(violation) { sim_violation(luaL_checkstring(L, 1), luaL_checkstring(L, 2)); return 0; }
F(yield) { sim_yield(); return 0; }
F(client) { sim_client(); return 0; }
F(task) { lua_pushinteger(L, sim_task()); return 1; }
F(join) { sim_join((int)luaL_checkinteger(L, 1)); return 0; }
F(api) { sim_api((int)luaL_checkinteger(L, 1)); return 0; }
F(op_begin) { sim_op_begin(luaL_checkstring(L, 1)); return 0; }
F(op_expect) { sim_op_expect(luaL_checkstring(L, 1)); return 0; }
F(op_expect_none) { sim_op_expect_none(); return 0; }
F(op_expect_raise) { sim_op_expect_raise(luaL_checkstring(L, 1)); return 0; }
F(op_may_raise) { sim_op_may_raise(luaL_checkstring(L, 1)); return 0; }
F(note_raised) { sim_op_note_raised(luaL_checkstring(L, 1), luaL_checkstring(L, 2)); return 0; }
F(op_end) { lua_pushinteger(L, sim_op_end("lua", str(L, 1), luaL_optstring(L, 2, ""))); return 1; }
F(op_effects) { lua_pushstring(L, sim_op_effects()); return 1; }
F(op_failures) { lua_pushinteger(L, sim_op_failures()); return 1; }
F(last_result) { lua_pushstring(L, sim_last_result()); return 1; }
F(release_faults) { sim_release_faults((int)luaL_checkinteger(L, 1)); return 0; }
F(cb_receive) { lua_pushinteger(L, sim_cb_receive(luaL_checkstring(L, 1))); return 1; }
F(cb_truth) { lua_pushstring(L, sim_cb_truth()); return 1; }
F(cb_depth) { lua_pushinteger(L, sim_cb_depth()); return 1; }
F(cb_promise) { sim_cb_promise(luaL_checkstring(L, 1)); return 0; }
F(cb_fails) { sim_cb_fails((int)luaL_checkinteger(L, 1), luaL_checkstring(L, 2), (int)luaL_checkinteger(L, 3)); return 0; }
F(cb_optional) { sim_cb_optional(); return 0; }
F(cb_expect) { sim_cb_expect(luaL_checkstring(L, 1), (int)luaL_checkinteger(L, 2)); return 0; }
F(cb_wants_raise) { lua_pushboolean(L, sim_cb_wants_raise(luaL_checkstring(L, 1))); return 1; }
F(faults) { sim_faults((int)luaL_checkinteger(L, 1)); return 0; }
F(logger_label) { sim_logger_label((int)luaL_checkinteger(L, 1)); return 0; }
F(expect_events) { sim_expect_events((int)luaL_checkinteger(L, 1), (int)luaL_checkinteger(L, 2), (int)luaL_checkinteger(L, 3), (int)luaL_checkinteger(L, 4)); return 0; }
F(script_define) { sim_script_define(luaL_checkstring(L, 1), luaL_checkstring(L, 2), (int)luaL_checkinteger(L, 3)); return 0; }
F(script_location) { lua_pushstring(L, sim_script_location()); return 1; }
static std::map<string, string> g_store; // shared by all interpreters of a run
F(store) { string &x = g_store[luaL_checkstring(L, 1)]; x = string(lua_toboolean(L, 3) ? x : "") + luaL_checkstring(L, 2); return 0; }
F(fetch) { lua_pushstring(L, g_store[luaL_checkstring(L, 1)].c_str()); return 1; }
F(script_free) { sim_script_free(); return 0; }
// {{{ engine objects behind values of the interface
static void *find(lua_State *L, char const *kind, int i) {
    if (lua_islightuserdata(L, i)) return lua_touserdata(L, i);
    if (lua_istable(L, i)) { lua_rawgeti(L, i, 1); void *r = lua_isuserdata(L, -1) ? find(L, kind, lua_gettop(L)) : nullptr; lua_pop(L, 1); return r; }
    if (lua_type(L, i) != LUA_TUSERDATA) return nullptr;
    void **p = static_cast<void **>(lua_touserdata(L, i));
    for (size_t k = 0; k < lua_rawlen(L, i) / sizeof(void *); ++k) if (sim_is(kind, p[k])) return p[k];
    return nullptr;
}
F(ptr) { void *p = find(L, luaL_checkstring(L, 1), 2); if (!p) return luaL_error(L, "no engine object of kind %s", lua_tostring(L, 1)); lua_pushlightuserdata(L, p); return 1; }
F(orc) { void *p = lua_isnoneornil(L, 2) ? nullptr : lua_touserdata(L, 2); lua_pushstring(L, orc(luaL_checkstring(L, 1), p, luaL_optinteger(L, 3, 0), luaL_optinteger(L, 4, 0), str(L, 5))); return 1; }
F(u64) { lua_pushinteger(L, (lua_Integer)strtoull(luaL_checkstring(L, 1), nullptr, 10)); return 1; }
F(mkfun) {
    size_t n = lua_rawlen(L, 2); uint64_t *a = static_cast<uint64_t *>(lua_newuserdata(L, sizeof(uint64_t) * (n + 1)));
    for (size_t k = 0; k < n; ++k) { lua_rawgeti(L, 2, (lua_Integer)k + 1); a[k] = (uint64_t)luaL_checkinteger(L, -1); lua_pop(L, 1); }
    lua_pushinteger(L, (lua_Integer)strtoull(orc("mk.fun", a, (int64_t)n, lua_toboolean(L, 3), luaL_checkstring(L, 1)), nullptr, 10)); return 1;
}
// symbols are userdata holding their representation
F(rep) { if (lua_type(L, 1) != LUA_TUSERDATA || lua_rawlen(L, 1) < 8) return luaL_error(L, "symbol expected, got %s", luaL_typename(L, 1)); lua_Integer r; memcpy(&r, lua_touserdata(L, 1), 8); lua_pushinteger(L, r); return 1; }
F(mksym) { size_t n = lua_rawlen(L, 1); lua_Integer r = luaL_checkinteger(L, 2); void *p = lua_newuserdata(L, n); memcpy(p, lua_touserdata(L, 1), n); memcpy(p, &r, 8); lua_getmetatable(L, 1); lua_setmetatable(L, -2); return 1; }
// }}}
F(search_models) { lua_pushinteger(L, sim_search_models(lua_touserdata(L, 1))); return 1; }
F(search_model) { lua_pushstring(L, sim_search_model(lua_touserdata(L, 1), (int)luaL_checkinteger(L, 2))); return 1; }
F(search_complete) { lua_pushboolean(L, sim_search_complete(lua_touserdata(L, 1))); return 1; }
F(search_done) { lua_pushboolean(L, sim_search_done(lua_touserdata(L, 1))); return 1; }
F(is) { lua_pushboolean(L, sim_is(luaL_checkstring(L, 1), lua_touserdata(L, 2))); return 1; }
char const *last_error();
F(release) { lua_pushstring(L, LUA_RELEASE + 4); return 1; }
F(last_error) { lua_pushstring(L, last_error()); return 1; }
F(register_script) { if (clingo_register_lua_(lua_toboolean(L, 1) ? L : nullptr)) return 0; return luaL_error(L, "%s", last_error()); }
F(open_module) { lua_pushcfunction(L, luaopen_clingo); lua_pushstring(L, "clingo"); lua_call(L, 1, 1); return 1; }
F(script_main) { lua_pushinteger(L, sim_script_main(luaL_checkstring(L, 1), lua_touserdata(L, 2))); return 1; }
F(main_state) { lua_pushboolean(L, !g_states.empty() && lua_topointer(L, LUA_REGISTRYINDEX) == lua_topointer(g_states[0], LUA_REGISTRYINDEX)); return 1; }
// tasks: a function of this state on a thread of its own, or a state of its own
struct Job { lua_State *L; int fn; };
static void traceback(lua_State *L) { char const *m = lua_tostring(L, -1); sim_violation("exception-escaped-driver", m ? m : luaL_typename(L, -1)); }
static int handler(lua_State *L) { if (lua_isstring(L, 1)) luaL_traceback(L, L, lua_tostring(L, 1), 1); return 1; }
static void run_job(void *p) {
    Job *j = static_cast<Job *>(p); lua_State *L = j->L;
    lua_pushcfunction(L, handler); lua_insert(L, 1);
    if (lua_pcall(L, lua_gettop(L) - 2, 0, 1)) traceback(L);
    lua_settop(L, 0); delete j;
}
F(spawn) { char const *role = luaL_checkstring(L, 2); luaL_checktype(L, 1, LUA_TFUNCTION); lua_State *T = lua_newthread(L); lua_pushvalue(L, -1); luaL_ref(L, LUA_REGISTRYINDEX); lua_pushvalue(L, 1); lua_xmove(L, T, 1); lua_pushinteger(L, sim_spawn(run_job, new Job{T, 0}, role)); return 1; }
static lua_State *new_state(bool driver);
static int env_close(lua_State *L) { // end of a client's state
    lua_State *S = static_cast<lua_State *>(lua_touserdata(L, 1)); lua_close(S); return 0;
}
F(spawn_state) { // spawn_state(name, role, prop): runs a function of the driver in a state of its own
    lua_State *S = new_state(true); if (!S) return luaL_error(L, "no state");
    lua_settop(S, 0); lua_getglobal(S, "SIMDRIVER"); lua_getfield(S, -1, luaL_checkstring(L, 1)); lua_remove(S, 1); lua_pushinteger(S, luaL_checkinteger(L, 3));
    int t = sim_spawn(run_job, new Job{S, 0}, luaL_checkstring(L, 2)); lua_pushinteger(L, t); lua_pushlightuserdata(L, S); return 2;
}
F(close_state) { return env_close(L); }
#undef F
#define R(name) {#name, l_##name}
static luaL_Reg const g_funs[] = {R(choose), R(many), R(chance), R(config), R(probe), R(phase), R(log), R(violation), R(yield), R(client), R(task), R(join), R(api), R(op_begin), R(op_expect), R(op_expect_none), R(op_expect_raise), R(op_may_raise), R(note_raised), R(op_end), R(op_effects), R(op_failures), R(last_result), R(release_faults), R(cb_receive), R(cb_truth), R(cb_depth), R(cb_promise), R(cb_fails), R(cb_optional), R(cb_expect), R(cb_wants_raise), R(faults), R(logger_label), R(expect_events), R(script_define), R(script_location), R(script_free), R(store), R(fetch), R(last_error), R(release), R(ptr), R(orc), R(u64), R(mkfun), R(rep), R(mksym), R(search_models), R(search_model), R(search_complete), R(search_done), R(is), R(register_script), R(open_module), R(script_main), R(main_state), R(spawn), R(spawn_state), R(close_state), {nullptr, nullptr}};
static int open_sim(lua_State *L) { luaL_newlib(L, g_funs); return 1; }
static int open_driver(lua_State *L) { if (luaL_loadbuffer(L, g_code.data(), g_code.size(), "=driver.lua")) return lua_error(L); lua_call(L, 0, 1); return 1; }
// }}}
// {{{ states
extern "C" lua_State *luaL_newstate() { // also called by the Lua script of the interface
    auto *m = static_cast<Mem *>(malloc(sizeof(Mem))); if (!m) abort();
    lua_State *L = lua_newstate(alloc, new (m) Mem); if (!L) return nullptr;
    g_quiet = true; lua_atpanic(L, panic); lua_gc(L, LUA_GCSTOP);
    luaL_openlibs(L);
    { luaL_Buffer b; luaL_buffinitsize(L, &b, 1 << 16); luaL_pushresultsize(&b, 0); lua_pop(L, 1); } // Lua itself cannot run out of memory here and go on
    lua_getfield(L, LUA_REGISTRYINDEX, LUA_PRELOAD_TABLE); lua_pushcfunction(L, open_sim); lua_setfield(L, -2, "sim"); lua_pushcfunction(L, open_driver); lua_setfield(L, -2, "simdriver"); lua_pop(L, 1);
    g_quiet = false; return L;
}
static lua_State *new_state(bool driver) {
    lua_State *L = luaL_newstate(); if (!L) return nullptr;
    lua_getfield(L, LUA_REGISTRYINDEX, LUA_PRELOAD_TABLE); lua_pushcfunction(L, clingo_init_lua_); lua_setfield(L, -2, "clingo"); lua_pop(L, 1);
    sim_faults(0);
    lua_pushcfunction(L, handler); lua_getglobal(L, "require"); lua_pushstring(L, "simdriver");
    if (lua_pcall(L, 1, 1, 1)) { traceback(L); lua_settop(L, 0); } else lua_setglobal(L, "SIMDRIVER");
    sim_faults(1); lua_settop(L, 0);
    return L;
}
// }}}
static char const *g_out, *g_dir; static FILE *g_f; static int g_prop = 1;
static int run(uint64_t seed, string const &cfg, char const *replay, string const &save, bool always) {
    sim_fatal_files(g_out, save.c_str()); orc_crash(save.c_str()); g_store.clear();
    sim_begin(seed, cfg.c_str(), replay);
    lua_State *L = new_state(true); g_states.assign(1, L);
    lua_pushcfunction(L, handler); lua_getglobal(L, "SIMDRIVER");
    if (lua_istable(L, -1)) { lua_getfield(L, -1, "scenario"); lua_pushinteger(L, g_prop); if (lua_pcall(L, 1, 0, 1)) traceback(L); }
    lua_settop(L, 0); sim_faults(0); lua_close(L); g_states.clear();
    int v = sim_end();
    if (v || always) sim_save(save.c_str());
    fprintf(g_f, "RUN\n%sENDRUN\n", sim_report()); fflush(g_f);
    return v;
}
static int writer(lua_State *, void const *p, size_t n, void *s) { static_cast<string *>(s)->append(static_cast<char const *>(p), n); return 0; }
int main(int argc, char **argv) {
    uint64_t a = 1, b = 1; char const *replay = nullptr, *driver = argv[1]; string cfg; bool always = false, dofork = false;
    for (int i = 2; i < argc; ++i) {
        string x = argv[i];
        if (x == "--prop") g_prop = atoi(argv[++i]); else if (x == "--seeds") { a = strtoull(argv[i + 1], nullptr, 10); b = strtoull(argv[i + 2], nullptr, 10); i += 2; }
        else if (x == "--out") g_out = argv[++i]; else if (x == "--dir") g_dir = argv[++i]; else if (x == "--cfg") cfg = argv[++i]; else if (x == "--replay") replay = argv[++i]; else if (x == "--always") always = true; else if (x == "--fork") dofork = true; else if (x == "--verbose") sim_set_verbose(1);
    }
    if (!g_out || !g_dir) { fprintf(stderr, "usage: host DRIVER.lua --prop N --seeds A B --out FILE --dir DIR [--cfg WORDS] [--replay FILE]\n"); return 2; }
    { lua_State *L = luaL_newstate(); if (luaL_loadfile(L, driver)) { fprintf(stderr, "%s\n", lua_tostring(L, -1)); return 2; } lua_dump(L, writer, &g_code, 0); lua_close(L); }
    g_f = fopen(g_out, "a"); if (!g_f) return 2;
    cfg += string(" stat_empty=0") + (g_prop == 14 ? " allocs=2" : "") + " prop=" + std::to_string(g_prop); // memory runs out in the checks of C14
    if (replay) { run(0, cfg, replay, string(g_dir) + "/replayed.replay", true); fclose(g_f); return 0; }
    for (uint64_t s = a; s < b; ++s) { // each run starts from the same state of the process
        fprintf(g_f, "START %llu\n", (unsigned long long)s); fflush(g_f);
        if (!dofork) { run(s, cfg, nullptr, string(g_dir) + "/seed" + std::to_string(s) + ".replay", always); continue; }
        pid_t parent = getpid(), child = fork(); if (child < 0) return 2;
        if (child == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(2); run(s, cfg, nullptr, string(g_dir) + "/seed" + std::to_string(s) + ".replay", always); _exit(0); }
        int st = 0; while (waitpid(child, &st, 0) < 0 && errno == EINTR) { }
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
        if (st != 0) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 2);
    }
    fprintf(g_f, "DONE\n"); fclose(g_f); return 0;
}
