#!/usr/bin/env python3
"""Generates the seam: for every function of the pinned C ABI an exported clingo_X (yield, fault injection, record)
and raw_clingo_X (no yield, no faults; for oracles) around sim::impl::X."""
import re, sys
src = open(sys.argv[1]).read(); out = sys.argv[2]
src = re.sub(r'//!.*', '', src); src = re.sub(r'^#.*$', '', src, flags=re.M)
MANUAL = {"error_string", "error_code", "error_message", "set_error", "warning_string", "version", "ast_build", "main", "script_version"}
PRED = {"signature_is_positive", "signature_is_negative", "signature_is_equal_to", "signature_is_less_than", "symbol_is_equal_to", "symbol_is_less_than",
        "assignment_has_conflict", "assignment_has_literal", "assignment_is_total", "propagate_control_has_watch", "control_is_conflicting",
        "control_get_enable_enumeration_assumption", "control_get_enable_cleanup", "ast_less_than", "ast_equal"}
QUIET = ("symbol_", "signature_", "theory_atoms_", "statistics_", "configuration_", "ast_", "assignment_", "model_", "symbolic_atoms_")
fns = []
for m in re.finditer(r'CLINGO_VISIBILITY_DEFAULT\s+(extern\s+)?([^;]*?)\bclingo_(\w+)\(((?:[^;()]|\([^()]*\))*)\)\s*;', src):
    if m.group(1): continue
    ret, name, args = m.group(2).strip(), m.group(3), re.sub(r'\s+', ' ', m.group(4)).strip()
    fns.append((ret, name, args))
def split(a):
    r, d, c = [], 0, ''
    for ch in a:
        if ch == '(': d += 1
        if ch == ')': d -= 1
        if ch == ',' and d == 0: r.append(c); c = ''
        else: c += ch
    if c.strip(): r.append(c)
    return [x.strip() for x in r]
def nm(a):
    m = re.search(r'\(\*(\w+)\)', a)
    return m.group(1) if m else re.search(r'(\w+)$', a).group(1)
decl, body = [], []
# a failing close still released the object, as in the real engine
RELEASE = {"solve_handle_close", "backend_end", "program_builder_end"}
n = 0
for ret, name, args in fns:
    if name in MANUAL: continue
    n += 1
    a = [] if args in ("", "void") else split(args)
    names = ", ".join(nm(x) for x in a)
    quiet = name.startswith(QUIET) and name not in ("model_extend",)
    isbool = ret == "bool" and name not in PRED
    iret = "void" if isbool else ret
    decl.append(f"{iret} {name}({', '.join(a)});")
    y = "false" if quiet else "true"
    if isbool and name in RELEASE:
        body.append(f'''extern "C" bool clingo_{name}({', '.join(a)}) {{ try {{ Seam s("{name}", {y}); EngineError e; bool bad = !cur->norelease && !alloc_failed() && should_fail("{name}", e); struct R {{ R() {{ cur->inrelease++; }} ~R() {{ cur->inrelease--; }} }} rel; impl::{name}({names}); if (bad) throw e; return true; }} catch (EngineError &) {{ seam_catch("{name}", true); }} catch (CallbackFailed &) {{ seam_catch("{name}", true); }} return false; }}
extern "C" bool raw_clingo_{name}({', '.join(a)}) {{ cur->api = false; return clingo_{name}({names}); }}''')
    elif isbool:
        body.append(f'''extern "C" bool clingo_{name}({', '.join(a)}) {{ size_t depth = cur ? cur->frames.size() : 0; try {{ Seam s("{name}", {y}); EngineError e; if (should_fail("{name}", e)) throw e; impl::{name}({names}); return true; }} catch (EngineError &) {{ seam_catch("{name}", true); }} catch (CallbackFailed &) {{ seam_catch("{name}", true); }} (void)depth; return false; }}
extern "C" bool raw_clingo_{name}({', '.join(a)}) {{ cur->api = false; int c_ = cur->code; std::string m_ = cur->msg; bool h_ = cur->hasmsg; try {{ impl::{name}({names}); return true; }} catch (...) {{ seam_catch("{name}", false); }} cur->code = c_; cur->msg = m_; cur->hasmsg = h_; return false; }}''')
    else:
        body.append(f'''extern "C" {ret} clingo_{name}({', '.join(a)}) {{ Seam s("{name}", {y}); return impl::{name}({names}); }}
extern "C" {ret} raw_clingo_{name}({', '.join(a)}) {{ cur->api = false; return impl::{name}({names}); }}''')
open(out + "/gen_impl.hh", "w").write("#pragma once\n#include \"core.hh\"\nnamespace sim { namespace impl {\n" + "\n".join(decl) + "\n} }\n")
open(out + "/gen_seam.cc", "w").write("#include \"gen_impl.hh\"\nusing namespace sim;\n" + "\n".join(body) + "\n")
raw = ['/* generated: oracle access to the simulated engine (no yield, no fault) */', '#ifndef SIM_RAW_H', '#define SIM_RAW_H', '#include "clingo.h"', '#ifdef __cplusplus', 'extern "C" {', '#endif']
for ret, name, args in fns:
    if name in MANUAL: continue
    raw.append(f"{ret} raw_clingo_{name}({args});")
raw += ['#ifdef __cplusplus', '}', '#endif', '#endif']
open(out + "/sim_raw.h", "w").write("\n".join(raw) + "\n")
print(n, "functions")
