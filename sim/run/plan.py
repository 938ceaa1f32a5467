"""What each property's check runs: drivers, seeds per tier, configuration of the simulator."""
F = "faults=1 raises=1"
# property -> [(driver, quick seeds, thorough seeds, seeds per worker process, config)]
PLAN = {p: [("cpp", 150000, 3000000, 2000, F), ("py", 60000, 1500000, 1000, F), ("lua", 60000, 1500000, 1000, F)] for p in
        ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C13", "C14")}
PLAN["C09"] = PLAN["C12"] = [("cpp", 150000, 3000000, 2000, F), ("py", 60000, 1500000, 1000, F)]  # no such interface in Lua
PLAN["C10"] = [("py", 60000, 1500000, 1000, F), ("lua", 120000, 2000000, 1000, F)]  # no such interface in C++
for p, n, m in (("C01", 8000, 200000), ("C04", 8000, 200000), ("C09", 8000, 200000), ("C10", 40000, 1000000), ("C14", 8000, 200000)): PLAN[p] = PLAN[p] + [("app", n, m, 1000, F)]
CAP = {"quick": 150.0, "thorough": 2400.0}
REAL = {"app": ["app/clingo/main.cc (the clingo application), libpyclingo/pyclingo.c and libpyclingo/_clingo.c (Python embedded), libpyclingo/clingo/*.py, libluaclingo/luaclingo.cc with an interpreter of its own (from /repo)", "CPython 3.12 and Lua 5.4 libraries, cffi"], "lua": ["libluaclingo/luaclingo.cc (Lua module and script interface, from /repo)", "Lua 5.4 interpreter"], "py": ["libpyclingo/clingo/*.py and app/pyclingo/_clingo.c (Python package and its extension, from /repo)", "CPython 3.12 interpreter, cffi"], "cpp": ["libclingo/clingo.hh (whole C++ interface, from /repo)"]}
STUB = {"app": ["engine behind clingo.h with its own main function (simulated)", "user code (scripts, models, handlers, propagators, observers, loggers: generated)", "thread scheduler, clock, memory for handed-over buffers, finalization of the Python interpreter (counted: the driver runs in it)"], "lua": ["engine behind clingo.h (grounder, solver threads, AST store: simulated)", "user code (handlers, propagators, observers, loggers, scripts: generated)", "thread scheduler (threads taking turns at engine calls and basic blocks), clock, memory for handed-over buffers, garbage collector timing"], "py": ["engine behind clingo.h (grounder, solver threads, AST store: simulated)", "user code (models, handlers, propagators, observers, loggers: generated)", "thread scheduler (threads taking turns at engine calls and source lines), clock, memory for handed-over buffers"], "cpp": ["engine behind clingo.h (grounder, solver threads, AST store: simulated)", "user code (models, handlers, propagators, observers, loggers: generated)", "thread scheduler, clock, memory for handed-over buffers"]}
NOT = {}
# what decides each property (for the manifest)
ORACLE = {
    "C01": "every failure the engine returns inside an operation must be that operation's outcome with kind and text; no error without a failure; objects stay usable",
    "C02": "every exception user code raises in a callback must be what the operation reports, once",
    "C03": "delivery, results and effects of solve handles compared with the simulated search; progress bound; deadlock detection",
    "C04": "ledger of every engine object: acquire/release balance, use after release, order of release",
    "C05": "each callback's received values compared with what the engine sent; handed-over buffers overwritten afterwards",
    "C06": "the engine's journal of state changes compared with the arguments of the operation",
    "C07": "per-thread truth of propagator callbacks, undo stack order, overlap of sequential callbacks",
    "C08": "values read through the interface compared with the engine's state",
    "C09": "application callbacks, options and exit code compared with the engine's record",
    "C10": "script execution, calls and results compared with the engine's record",
    "C11": "statistics tree of the engine compared with a reference model of the updates",
    "C12": "AST nodes compared with the engine's nodes and a list model; reference ledger",
    "C13": "messages received compared with messages emitted per logger",
    "C14": "every allocation failure must be the outcome of the operation it struck (out of memory); ledger, effects, delivered data and later operations as in a run without it",
}
