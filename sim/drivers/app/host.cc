// The clingo application as /repo/app/clingo/main.cc starts it, with Python and Lua embedded; what its own
// main function does is up to the simulation: it runs the Python driver as the first script.
#include <Python.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <clingo.h>
#include "sim.h"
extern "C" {
int app_main(int argc, char **argv);                                       // main of main.cc
bool pyclingo_execute(clingo_location_t const *, char const *, void *);
static int g_starts = 0, g_code = 0, g_finalized = 0; static std::string g_args; static std::vector<char *> g_argv;
static std::string join(int argc, char **argv) { std::string r; for (int i = 0; i < argc; ++i) { r += argv[i] ? argv[i] : "<null>"; r += '\x1f'; } if (argv[argc]) r += "<not terminated>"; return r; }
static std::string quote(char const *s) { std::string r = "'"; for (; *s; ++s) { if (*s == '\'' || *s == '\\') r += '\\'; r += *s; } return r + "'"; }
// the engine's main function of the application
int clingo_main_(int argc, char **argv) {
    if (g_starts++) { g_args = join(argc, argv); return g_code; }
    argc = (int)g_argv.size(); argv = g_argv.data(); std::string code = "import sys\nsys.argv = ["; for (int i = 1; i < argc; ++i) code += quote(argv[i]) + ", ";
    code += "]\nwith open(sys.argv[0]) as f: exec(compile(f.read(), sys.argv[0], 'exec'))\n";
    clingo_location_t loc{"<host>", "<host>", 1, 1, 1, 1};
    if (!pyclingo_execute(&loc, code.c_str(), nullptr)) { char const *m = clingo_error_message(); std::cerr << "host: " << (m ? m : "?") << std::endl; }
    return 71; // the driver ends the process itself
}
// the interpreter has to stay: the driver runs in it
void __wrap_Py_Finalize(void) { ++g_finalized; PyGILState_Release(PyGILState_UNLOCKED); }
int host_finalized(void) { return g_finalized; }
int host_starts(void) { return g_starts; }
char const *host_args(void) { return g_args.c_str(); }
// runs the application once more; what it printed is its error message
int host_run(int code, int argc, char **argv, char *err, size_t n) {
    std::ostringstream s; auto *old = std::cerr.rdbuf(s.rdbuf()); g_code = code; g_args = "<not started>";
    int rc = app_main(argc, argv); std::cerr.rdbuf(old); std::cerr.clear(); std::string t = s.str(); snprintf(err, n, "%s", t.c_str()); return rc;
}
}
int main(int argc, char **argv) {
    sim_begin(1, "faults=0 raises=0 prop=1", nullptr); // the package talks to the engine while it is imported
    g_argv.assign(argv, argv + argc); app_main(argc, argv);
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--out")) if (FILE *f = fopen(argv[i + 1], "a")) { char const *s = "1"; for (int j = 1; j + 1 < argc; ++j) if (!strcmp(argv[j], "--seeds")) s = argv[j + 1]; fprintf(f, "START %s\n", s); fclose(f); }
    fprintf(stderr, "the application did not run the first script\n"); abort();
}
