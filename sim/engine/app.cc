// Applications, options and script registration
#include "engine.hh"
#include <algorithm>
namespace sim {
struct Opt { string group, name, desc, arg; bool hasarg, multi, flag, implicit; bool (*parse)(char const *, void *); void *data; bool *target; };
struct App { clingo_application_t a; void *data; vector<Opt> opts; string name, vers; Control *ctl = nullptr; string error; int code = 0; bool active = false; bool optwin = false; };
struct Script { string lang; clingo_script_t s; void *data; bool execd = false, freed = false; char const *version; };
static App *g_app = nullptr; static string g_apperr; static int g_appexit = 0; static int g_limit = 0; static string g_name, g_vers, g_args; static vector<std::unique_ptr<App>> g_apps; static std::deque<Script> g_scripts;
static std::map<string, std::map<string, bool>> g_defined; static string g_loc;
static string slist(vector<string> const &v) { string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + esc(v[i]); return r; }
bool app_printer(Control *c) { return g_app && g_app->active && g_app->ctl == c && g_app->a.printer; }
static bool default_printer(void *) {
    EngineError e; sim::log("PRINT default"); 
    if (should_fail("default_printer", e)) { Failure f; f.fn = "default_printer"; f.code = e.code; f.msg = e.msg; f.hasmsg = e.hasmsg; add_failure(f); set_error(e.code, e.hasmsg ? e.msg.c_str() : nullptr); return false; }
    effect("default_print"); return true;
}
void app_print(Control *c, Model *m) { (void)c; callback("app:print_model", m->text(), [&]() { Armed a; return g_app->a.printer(reinterpret_cast<clingo_model_t*>(m), default_printer, nullptr, g_app->data); }); }
// {{{ scripts
static Script *find_script(string const &l) { for (auto &s : g_scripts) if (s.lang == l && !s.freed) return &s; return nullptr; }
static clingo_location_t mkloc(string const &f, size_t line, size_t col) { return clingo_location_t{intern(f), intern(f), line, line, col, col + 7}; }
static void s_exec(Script &s, string const &code, string const &file, size_t line) {
    s.execd = true; clingo_location_t l = mkloc(file, line, 1); g_loc = file + ":" + std::to_string(line);
    callback("script:execute", s.lang + "|" + esc(code), [&]() { char *c = Poison::str(code); bool r = armed([&]() { return s.s.execute(&l, c, s.data); }); Poison::kills(c); return r; }, false);
}
static bool s_callable(Script &s, string const &name) {
    bool r = false; callback("script:callable", s.lang + "|" + esc(name), [&]() { char *n = Poison::str(name); bool x = armed([&]() { return s.s.callable(n, &r, s.data); }); Poison::kills(n); return x; }, false, [&]() { return string(r ? "1" : "0"); });
    auto i = g_defined.find(s.lang); if (i != g_defined.end()) { auto j = i->second.find(name); bool e = j != i->second.end() && j->second; if (e != r) violation("script-callable", fmt("script %s: %s is %scallable but the engine was told otherwise", s.lang.c_str(), name.c_str(), e ? "" : "not ")); }
    return r;
}
struct SCtx { vector<clingo_symbol_t> syms; };
static bool scriptcb(clingo_symbol_t const *s, size_t n, void *d) {
    auto *g = static_cast<SCtx*>(d); sim::log(fmt("SYMCB %zu", n));
    EngineError e; if (should_fail("symbol_callback", e)) { Failure f; f.fn = "symbol_callback"; f.code = e.code; f.msg = e.msg; f.hasmsg = e.hasmsg; add_failure(f); set_error(e.code, e.hasmsg ? e.msg.c_str() : nullptr); return false; }
    for (size_t i = 0; i < n; ++i) { symstr(s[i]); g->syms.push_back(s[i]); } return true;
}
static vector<clingo_symbol_t> s_call(Script &s, string const &name, vector<clingo_symbol_t> const &a, string const &file, size_t line) {
    clingo_location_t l = mkloc(file, line, 3); SCtx c; g_loc = file + ":" + std::to_string(line);
    callback("script:call", s.lang + "|" + esc(name) + "|" + symlist(a.data(), a.size()), [&]() { char *n = Poison::str(name); auto *p = Poison::copy(a.data(), a.size()); bool r = armed([&]() { return s.s.call(&l, n, p, a.size(), scriptcb, &c, s.data); }); Poison::kill(p, a.size()); Poison::kills(n); return r; }, true, [&]() { return symlist(c.syms.data(), c.syms.size()); });
    effect("script_call|" + s.lang + "|" + esc(name) + "|" + symlist(a.data(), a.size()) + "|" + symlist(c.syms.data(), c.syms.size()));
    return c.syms;
}
void script_exec(Control *x) { // external functions while grounding
    bool any = false; for (auto &s : g_scripts) any = any || (s.execd && !s.freed); if (!any) return;
    for (uint32_t i = 0, n = choose(SIM_DATA, 4); i < n; ++i) {
        static char const *const nm[] = {"sf", "sg", "multi", "nosuch", "serr", "sbad"}; string name = nm[choose(SIM_DATA, 6)]; vector<clingo_symbol_t> a; for (uint32_t k = 0, m = many(SIM_DATA, 4); k < m; ++k) a.push_back(rand_symbol(SIM_DATA));
        size_t line = wideid(40); bool found = false;
        for (auto &s : g_scripts) if (s.execd && !s.freed && s_callable(s, name)) { s_call(s, name, a, "<block>", line); found = true; break; }
        if (!found) emit(x->log, clingo_warning_operation_undefined, fmt("<block>:%zu:3-10: info: operation undefined:\n  function '%s' not found\n", line, name.c_str()));
    }
}
bool script_add(Control *x, string const &prg) { // "#script (lang) code #end."
    if (prg.compare(0, 9, "#script (") != 0) return false; size_t e = prg.find(')'); size_t z = prg.rfind("#end."); if (e == string::npos || z == string::npos) return false;
    string lang = prg.substr(9, e - 9), code = prg.substr(e + 1, z - e - 1); bool nf = true; size_t line = wideid(30);
    for (auto &s : g_scripts) if (s.lang == lang && !s.freed) { s_exec(s, code, "<block>", line); nf = false; }
    if (nf) { emit(x->log, clingo_warning_runtime_error, lang + " support not available"); fail(clingo_error_runtime, lang + " support not available"); }
    effect("script|" + lang + "|" + esc(code)); return true;
}
static void s_main(Control *c) { for (auto &s : g_scripts) if (s.execd && !s.freed && s_callable(s, "main")) { c->borrowed++; struct G { Control *c; ~G() { c->borrowed--; } } g{c}; callback("script:main", s.lang, [&]() { return s.s.main(reinterpret_cast<clingo_control_t*>(c), s.data); }); return; } }
static void free_script(Script &s) { if (s.freed) return; s.freed = true; if (s.s.free) callback_void("script:free", s.lang, [&]() { s.s.free(s.data); }, false); }
// }}}
namespace impl {
void options_add(clingo_options_t *o, char const *g, char const *n, char const *d, bool (*p)(char const *, void *), void *data, bool multi, char const *arg) {
    if (!g_app || (void*)g_app != (void*)o || !g_app->optwin) { violation("invalid-object:options_add", "option registered outside of register_options"); fail(clingo_error_logic, "invalid options"); }
    string nm = n; for (auto &x : g_app->opts) if (x.name == nm.substr(0, nm.find(','))) fail(clingo_error_logic, "In context '<clingo>': duplicate option: '" + nm + "'");
    bool imp = false; g_app->opts.push_back({g, nm.substr(0, nm.find(',')), d, arg ? arg : "", arg != nullptr, multi, false, imp, p, data, nullptr});
    effect(string("option|") + esc(g) + "|" + esc(n) + "|" + esc(d) + fmt("|%d|", multi) + (arg ? esc(arg) : string("none")));
}
void options_add_flag(clingo_options_t *o, char const *g, char const *n, char const *d, bool *t) {
    if (!g_app || (void*)g_app != (void*)o || !g_app->optwin) { violation("invalid-object:options_add_flag", "flag registered outside of register_options"); fail(clingo_error_logic, "invalid options"); }
    string nm = n; for (auto &x : g_app->opts) if (x.name == nm.substr(0, nm.find(','))) fail(clingo_error_logic, "In context '<clingo>': duplicate option: '" + nm + "'");
    g_app->opts.push_back({g, nm.substr(0, nm.find(',')), d, "", false, false, true, false, nullptr, nullptr, t});
    effect(string("flag|") + esc(g) + "|" + esc(n) + "|" + esc(d));
}
void register_script(char const *n, clingo_script_t const *s, void *data) { g_scripts.push_back({n, *s, data, false, false, s->version}); effect("register_script|" + esc(n) + "|" + esc(s->version)); }
} // namespace impl
static string app_error_text(Failure const &f) { return f.ehas ? f.emsg : string(""); }
void app_reset() { g_app = nullptr; g_apps.clear(); g_scripts.clear(); g_defined.clear(); g_apperr.clear(); g_appexit = 0; }
void app_final() { for (auto &s : g_scripts) free_script(s); }
} // namespace sim
using namespace sim;
extern "C" {
char const *clingo_script_version(char const *n) { Seam s("script_version", false); Script *x = find_script(n); return x ? x->version : nullptr; }
int clingo_main(clingo_application_t *a, char const *const *args, size_t n, void *data) {
    Seam s("main", true); g_apps.push_back(std::make_unique<App>()); App *p = g_apps.back().get(), *outer = g_app; p->a = *a; p->data = data; g_app = p;
    vector<string> av; for (size_t i = 0; i < n; ++i) av.push_back(args[i]);
    effect("main|" + slist(av)); int code = 0; g_apperr.clear();
    int const okcode = (int)choose(SIM_DATA, 4) * 10, errcode = 33 + (int)choose(SIM_DATA, 3) * 32;
    struct G { App *outer; ~G() { g_app = outer; } } g{outer};
    size_t const before = cur->frames.back().fails.size(); bool handled = false; // errors of the solving that the engine does itself end here
    auto own = [&]() { auto &f = cur->frames.back().fails; if (handled && f.size() > before) f.resize(before); };
    try {
        auto str = [&](char const *kind, char const *(*f)(void *), string def) { if (!f) return def; char const *r = nullptr; string v; callback(kind, "", [&]() { r = f(data); v = r ? r : "<null>"; return true; }, true, [&]() { return v; }); return v; };
        p->name = str("app:program_name", a->program_name, "clingo"); p->vers = str("app:version", a->version, "5.8.0");
        if (a->register_options) { p->optwin = true; struct W { App *p; ~W() { p->optwin = false; } } w{p}; callback("app:register_options", "", [&]() { Armed g(conf("allocs", 0) != 2); return a->register_options(reinterpret_cast<clingo_options_t*>(p), data); }); }
        vector<string> files; std::set<string> seen;
        for (auto &x : av) {
            if (x.compare(0, 2, "--") != 0) { files.push_back(x); continue; }
            size_t eq = x.find('='); string name = x.substr(2, eq == string::npos ? string::npos : eq - 2), val = eq == string::npos ? "" : x.substr(eq + 1); bool known = false;
            for (auto &o : p->opts) if (o.name == name) {
                known = true;
                if (o.flag) { *o.target = val != "no" && val != "false"; effect("flag_set|" + esc(name)); break; }
                if (eq == string::npos) fail(clingo_error_runtime, "In context '<clingo>': '" + name + "' requires a value");
                if (!o.multi && !seen.insert(name).second) fail(clingo_error_runtime, "In context '<clingo>': multiple occurrences: '" + name + "'");
                bool r = false; callback("app:option", esc(name) + "|" + esc(val), [&]() { char *v = Poison::str(val); r = o.parse(v, o.data); Poison::kills(v); return true; }, true, [&]() { return string(r ? "1" : "0"); });
                if (!r) fail(clingo_error_runtime, "In context '<clingo>': '" + val + "' invalid value for: '" + name + "'");
                break;
            }
            if (!known) fail(clingo_error_runtime, "In context '<clingo>': unknown option: '" + name + "'");
        }
        if (a->validate_options) callback("app:validate_options", "", [&]() { Armed g(conf("allocs", 0) != 2); return a->validate_options(data); });
        { EngineError e; if (should_fail("main", e)) { throw e; } }
        Msg m; m.limit = 20; m.id = a->logger ? 1000 + (int)g_apps.size() : 0; m.fn = a->logger; m.data = data;
        if (a->message_limit) { unsigned l = 0; callback("app:message_limit", "", [&]() { l = a->message_limit(data); return true; }, true, [&]() { return std::to_string(l); }); m.limit = l; }
        vector<string> cargs; Control *c = new_control(cargs, m); c->borrowed = 1; p->ctl = c; p->active = true; struct F { App *p; Control *c; ~F() { p->active = false; c->borrowed = 0; free_control(c); } } f{p, c};
        emit(c->log);
        if (a->main) {
            vector<char *> fs; for (auto &x : files) fs.push_back(Poison::str(x)); struct H { vector<char *> &v; ~H() { for (auto *x : v) Poison::kills(x); } } h{fs};
            callback("app:main", slist(files), [&]() { Armed g; return a->main(reinterpret_cast<clingo_control_t*>(c), fs.data(), fs.size(), data); });
        } else {
            bool sm = false; for (auto &sc : g_scripts) if (sc.execd && !sc.freed && s_callable(sc, "main")) { sm = true; break; }
            if (sm) s_main(c);
            else { handled = true; clingo_solve_handle_t *h; clingo_part_t b{"base", nullptr, 0}; clingo_solve_result_bitset_t r; impl::control_ground(reinterpret_cast<clingo_control_t*>(c), &b, 1, nullptr, nullptr); impl::control_solve(reinterpret_cast<clingo_control_t*>(c), 0, nullptr, 0, nullptr, nullptr, &h); struct C2 { clingo_solve_handle_t *h; ~C2() { try { impl::solve_handle_close(h); } catch (EngineError &) {} } } c2{h}; impl::solve_handle_get(h, &r); }
        }
        code = okcode;
    }
    catch (CallbackFailed &c) { own(); g_apperr = app_error_text(c.f); code = errcode; sim::log("APPERR cb " + esc(g_apperr)); }
    catch (EngineError &e) { own(); g_apperr = e.msg; code = errcode; sim::log("APPERR " + esc(g_apperr)); }
    g_name = p->name; g_vers = p->vers; g_appexit = code; return code;
}
/* engine side of applications for the oracles */
int sim_app_exit(void) { return g_appexit; }
char const *sim_app_error(void) { return g_apperr.c_str(); }
char const *sim_app_name(void) { return g_name.c_str(); }
char const *sim_app_version(void) { return g_vers.c_str(); }
/* scripts */
void sim_script_define(char const *lang, char const *name, int yes) { cur->api = false; g_defined[lang]; if (name && *name) g_defined[lang][name] = yes != 0; }
char const *sim_script_location(void) { return g_loc.c_str(); }
int sim_script_main(char const *lang, void *control) { cur->api = false;
    (void)lang; Seam s("script_main", true);
    try { s_main(reinterpret_cast<Control*>(control)); return 1; } catch (CallbackFailed &) { seam_catch("script_main", true); } catch (EngineError &) { seam_catch("script_main", true); } return 0; }
void sim_script_free(void) { cur->api = false; for (auto &s : g_scripts) free_script(s); }
}
