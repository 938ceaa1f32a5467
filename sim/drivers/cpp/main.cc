// Worker: runs one simulated execution per seed, or replays one.
#include "common.hh"
#include <cerrno>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <csignal>
#include <execinfo.h>
#include <list>
static int const *weights(int p) { // command ground solve backend observer propagator query stats
    static int const base[8] = {3, 4, 4, 2, 1, 1, 3, 1};
    static int const bp[15][8] = {{0}, {4,4,4,4,1,1,4,2}, {1,4,6,0,2,3,1,1}, {1,2,9,0,0,1,1,1}, {3,3,5,4,1,1,1,1}, {1,6,4,4,4,4,1,0}, {6,3,2,6,1,1,1,1}, {0,2,8,0,0,6,1,0}, {2,4,4,2,0,1,9,3}, {3,4,4,2,1,1,3,1}, {3,4,4,2,1,1,3,1}, {0,2,7,0,0,0,1,7}, {3,4,4,2,1,1,3,1}, {8,5,4,2,1,1,2,0}, {4,4,5,5,2,2,4,3}};
    return p >= 1 && p <= 14 ? bp[p] : base;
}
static void act(User &u, int const *w) {
    int sum = 0; for (int i = 0; i < 8; ++i) sum += w[i]; int k = (int)W(sum), f = 0; while (k >= w[f]) k -= w[f++];
    switch (f) {
        case 0: do_command(u); break; case 1: do_ground(u); break; case 2: do_solve(u, 0); break; case 3: do_backend(u); break;
        case 4: if (u.nobs < 3) add_observer(u); break; case 5: if (u.nprop < 3) add_propagator(u); break; case 6: for (uint32_t i = 1 + W(3); i > 0; --i) check_control(u); break; case 7: check_stats(u); break;
    }
}
struct Client { Env *env; int task; User u; };
static void client_main(void *p) { // a client with a control of its own, on its own thread
    Client &c = *static_cast<Client*>(p); sim_client(); int const *w = weights(c.env->prop);
    try {
        for (uint32_t r = 1 + (W(4) == 3); r > 0; --r) {
            if (!make_control(c.u)) continue;
            if ((c.env->prop == 5 || c.env->prop == 7) && W(2)) { if (W(2)) add_propagator(c.u); else add_observer(c.u); }
            for (uint32_t n = 1 + W(6); n > 0; --n) act(c.u, w);
            end_control(c.u); c.u.nobs = c.u.nprop = 0;
        }
    } catch (std::exception const &e) { Outcome o = classify(std::current_exception()); sim_violation("exception-escaped-driver", (o.cls + ": " + o.msg).c_str()); } catch (...) { sim_violation("exception-escaped-driver", "unknown"); }
}
static void clients(Env &env) {
    std::list<Client> cs; for (uint32_t n = 2 + W(2); n > 0; --n) { cs.emplace_back(); cs.back().env = &env; }
    for (auto &c : cs) c.task = sim_spawn(client_main, &c, "client");
    for (auto &c : cs) sim_join(c.task);
}
static void session(Env &env) {
    int p = env.prop; uint32_t nu = p == 13 ? 1 + W(3) : 1 + (W(5) == 4);
    for (uint32_t i = 0; i < nu; ++i) { auto u = std::make_unique<User>(); if (make_control(*u)) env.users.push_back(std::move(u)); }
    if (env.users.empty()) return;
    int const *w = weights(p);
    if (p == 7 || p == 5) for (auto &u : env.users) for (uint32_t i = 1 + W(3); i > 0; --i) { if (p == 7 || W(2)) add_propagator(*u); else add_observer(*u); }
    for (uint32_t n = 2 + W(10); n > 0; --n) act(*env.users[W(env.users.size())], w);
    for (auto &u : env.users) end_control(*u);
}
static int g_prop = 0;
static void scenario() {
    Env env; env.prop = sim_config("prop", 1);
    // families per property: session ast app script symbols lifecycle clients
    static int const fw[15][7] = {{1,0,0,0,0,0,0}, {8,3,2,1,2,1,1}, {8,2,1,1,0,3,2}, {9,0,0,0,0,1,1}, {8,3,2,2,0,4,1}, {9,2,1,0,0,0,1}, {9,1,0,0,0,0,1}, {5,0,0,0,0,0,1}, {9,1,0,0,3,0,1}, {0,0,1,0,0,0,0}, {0,0,0,1,0,0,0}, {6,0,0,0,0,0,1}, {0,1,0,0,0,0,0}, {8,2,2,0,0,0,2}, {9,4,2,0,1,2,1}};
    int w[7]; for (int i = 0, o = sim_config("family", 0); i < 7; ++i) w[i] = o ? i == o - 1 : fw[env.prop][i]; int sum = 0; for (int x : w) sum += x; int k = (int)W(sum), f = 0; while (k >= w[f]) k -= w[f++];
    static char const *const fn[] = {"session", "ast", "app", "script", "symbols", "lifecycle", "clients"}; sim_probe((string("family:") + fn[f]).c_str()); sim_phase(fn[f]);
    switch (f) { case 0: session(env); break; case 1: fam_ast(env); break; case 2: fam_app(env); break; case 3: fam_script(env); break; case 4: fam_symbols(env); break; case 5: fam_lifecycle(env); break; case 6: clients(env); break; }
    { NoFaults nf; env.users.clear(); }
}
static char const *g_out = nullptr, *g_dir = nullptr; static string g_save; static FILE *g_f = nullptr;
static void crashed(int sig) { // best effort: leave the choices made so far for the replay
    static int once = 0; if (once++) _exit(128 + sig);
    void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2);
    if (!g_save.empty()) sim_save(g_save.c_str());
    signal(sig, SIG_DFL); raise(sig); _exit(128 + sig);
}
static void on_terminate() { crashed(SIGABRT); }
static int run(uint64_t seed, string const &cfg, char const *replay, string const &save, bool always) {
    g_save = save; sim_fatal_files(g_out, save.c_str());
    driver_reset(); sim_begin(seed, cfg.c_str(), replay);
    try { scenario(); } catch (std::exception const &e) { Outcome o = classify(std::current_exception()); sim_violation("exception-escaped-driver", (o.cls + ": " + o.msg).c_str()); } catch (...) { sim_violation("exception-escaped-driver", "unknown"); }
    int v = sim_end();
    if (v || always) sim_save(save.c_str());
    fprintf(g_f, "RUN\n%sENDRUN\n", sim_report()); fflush(g_f);
    return v;
}
int main(int argc, char **argv) {
    uint64_t a = 1, b = 1; char const *replay = nullptr; string cfg; bool always = false;
    for (int i = 1; i < argc; ++i) {
        string x = argv[i];
        if (x == "--prop") { g_prop = atoi(argv[++i]); } else if (x == "--seeds") { a = strtoull(argv[i + 1], nullptr, 10); b = strtoull(argv[i + 2], nullptr, 10); i += 2; }
        else if (x == "--out") g_out = argv[++i]; else if (x == "--dir") g_dir = argv[++i]; else if (x == "--cfg") cfg = argv[++i]; else if (x == "--replay") replay = argv[++i]; else if (x == "--always") always = true; else if (x == "--fork") { /* it always does */ } else if (x == "--verbose") sim_set_verbose(1);
    }
    if (!g_out || !g_dir) { fprintf(stderr, "usage: driver --prop N --seeds A B --out FILE --dir DIR [--cfg WORDS] [--replay FILE]\n"); return 2; }
    g_f = fopen(g_out, "a"); if (!g_f) return 2;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, crashed);
    std::set_terminate(on_terminate);
    cfg += string(g_prop == 14 ? " allocs=1" : "") + " prop=" + std::to_string(g_prop); // memory runs out in the checks of C14
    if (replay) { run(0, cfg, replay, string(g_dir) + "/replayed.replay", true); fclose(g_f); return 0; }
    for (uint64_t s = a; s < b; ++s) { // each run starts from the same state of the process (think of objects that are initialized on first use)
        fprintf(g_f, "START %llu\n", (unsigned long long)s); fflush(g_f); pid_t parent = getpid(), child = fork(); if (child < 0) return 2;
        if (child == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(2); run(s, cfg, nullptr, string(g_dir) + "/seed" + std::to_string(s) + ".replay", always); _exit(0); }
        int st = 0; while (waitpid(child, &st, 0) < 0 && errno == EINTR) { }
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
        if (st != 0) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 2);
    }
    fprintf(g_f, "DONE\n"); fclose(g_f); return 0;
}
