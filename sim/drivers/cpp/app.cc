// Applications: options, flags, callbacks, exit codes
#include "common.hh"
#include <algorithm>
#include <list>
#include <map>
namespace {
constexpr bool print_noexcept = std::is_same<decltype(&C::Application::print_model), void (C::Application::*)(C::Model const &, std::function<void()>) noexcept>::value; // either way a printer may fail
struct Opt { string group, name, key, desc, arg; bool hasarg, multi, flag; bool target; };
int labels = 0; // counts the calls of clingo_main in this run, as the engine does
enum { M_LIMIT = 1, M_NAME = 2, M_VERS = 4, M_LOG = 8, M_PRINT = 16, M_REG = 32, M_VALID = 64 };
struct App : C::Application {
    int mask, label, prop, depth; string name, vers; unsigned lim; std::list<Opt> opts; std::vector<std::unique_ptr<User>> users; vector<string> args; std::map<string, bool> flags; int mains = 0; Env *env;
    unsigned message_limit() const noexcept override { if (!(mask & M_LIMIT)) return Application::message_limit(); sim_cb_receive("app:message_limit|"); sim_cb_promise(fmt("%u", lim).c_str()); return lim; }
    char const *program_name() const noexcept override { if (!(mask & M_NAME)) return Application::program_name(); sim_cb_receive("app:program_name|"); sim_cb_promise(name.c_str()); return name.c_str(); }
    char const *version() const noexcept override { if (!(mask & M_VERS)) return Application::version(); sim_cb_receive("app:version|"); sim_cb_promise(vers.c_str()); return vers.c_str(); }
    void log(C::WarningCode code, char const *m) noexcept override { sim_api(0); sim_cb_receive(fmt("message|%d|%d|%s", label, (int)code, esc(m).c_str()).c_str()); }
    template <class F> void guarded(F f) {
        try { f(); } catch (...) {
            Outcome o = classify(std::current_exception()); string text = "unknown error"; int code = clingo_error_unknown;
            try { throw; } catch (std::bad_alloc const &e) { text = e.what(); code = clingo_error_bad_alloc; } catch (std::runtime_error const &e) { text = e.what(); code = clingo_error_runtime; } catch (std::logic_error const &e) { text = e.what(); code = clingo_error_logic; } catch (...) {}
            sim_cb_fails(code, text.c_str(), 0); throw;
        }
    }
    void print_model(C::Model const &m, std::function<void()> printer) noexcept(print_noexcept) override {
        if (!(mask & M_PRINT)) { guarded([&]() { Application::print_model(m, printer); }); return; }
        guarded([&]() {
            sim_cb_receive(("app:print_model|" + model_text(m.to_c())).c_str());
            if (W(4) == 3) check_model(m, nullptr, false);
            for (uint32_t i = W(3); i > 0; --i) op("default_printer", eff("default_print"), [&]() { if (W(2)) printer(); else Application::print_model(m, printer); });
            maybe_raise("app:print_model");
        });
    }
    bool parse(Opt const &o, char const *value) {
        sim_cb_receive(("app:option|" + esc(o.key) + "|" + esc(value)).c_str());
        if (sim_cb_wants_raise("app:option")) { sim_cb_promise("0"); if (W(2)) throw Plain{1, "x"}; throw std::runtime_error("parser"); }
        bool r = W(16) != 15; sim_cb_promise(r ? "1" : "0"); return r;
    }
    void register_options(C::ClingoOptions &options) override {
        if (!(mask & M_REG)) { Application::register_options(options); return; }
        guarded([&]() {
            sim_cb_receive("app:register_options|");
            static char const *const names[] = {"alpha", "beta", "gamma,g", "delta", "long-option", "alpha"};
            vector<string> todo; for (uint32_t n = W(4); n > 0; --n) todo.push_back(names[W(6)]);
            if (W(8) != 7) for (auto &a : args) for (int i = 0; i < 5; ++i) { string k = names[i]; k = "--" + k.substr(0, k.find(',')); if (a.compare(0, k.size(), k) == 0 && std::find(todo.begin(), todo.end(), names[i]) == todo.end()) todo.push_back(names[i]); }
            for (auto &nm : todo) {
                Opt o; o.group = W(2) ? "Group" : weird_string(); o.name = nm; o.key = o.name.substr(0, o.name.find(',')); o.desc = W(2) ? "does things" : weird_string(); o.hasarg = W(2); o.arg = W(2) ? "<arg>" : weird_string(); o.multi = W(4) != 3; o.flag = W(3) == 2; o.target = W(2);
                bool dup = false; for (auto &x : opts) dup = dup || x.key == o.key;
                opts.push_back(o); Opt &p = opts.back(); bool ok;
                if (p.flag) ok = op("ClingoOptions::add_flag", dup ? none() : eff("flag|" + esc(p.group) + "|" + esc(p.name) + "|" + esc(p.desc)), [&]() { options.add_flag(p.group.c_str(), p.name.c_str(), p.desc.c_str(), p.target); });
                else ok = op("ClingoOptions::add", dup ? none() : eff("option|" + esc(p.group) + "|" + esc(p.name) + "|" + esc(p.desc) + fmt("|%d|", p.multi) + (p.hasarg ? esc(p.arg) : string("none"))), [&]() {
                    auto f = [this, &p](char const *v) { return parse(p, v); };
                    if (!p.hasarg && !p.multi) options.add(p.group.c_str(), p.name.c_str(), p.desc.c_str(), f); else if (!p.hasarg) options.add(p.group.c_str(), p.name.c_str(), p.desc.c_str(), f, p.multi); else options.add(p.group.c_str(), p.name.c_str(), p.desc.c_str(), f, p.multi, p.arg.c_str()); });
                if (!ok) opts.pop_back(); else if (p.flag) flags[p.key] = p.target;
            }
            maybe_raise("app:register_options");
        });
    }
    void check_flags() {
        auto want = flags; for (auto &a : args) if (a.compare(0, 2, "--") == 0) { size_t e = a.find('='); string n = a.substr(2, e == string::npos ? string::npos : e - 2), v = e == string::npos ? "" : a.substr(e + 1); auto i = want.find(n); if (i != want.end()) i->second = v != "no" && v != "false"; }
        for (auto &o : opts) if (o.flag) same("app:flag", o.key + fmt("=%d", o.target), o.key + fmt("=%d", want[o.key]));
    }
    void validate_options() override {
        if (!(mask & M_VALID)) { Application::validate_options(); return; }
        guarded([&]() { sim_cb_receive("app:validate_options|"); check_flags(); maybe_raise("app:validate_options"); });
    }
    void main(C::Control &ctl, C::StringSpan files) override {
        string t; bool f = true; for (auto &x : files) { t += (f ? "" : ",") + esc(x); f = false; } ++mains;
        guarded([&]() {
            sim_cb_receive(("app:main|" + t).c_str()); check_flags();
            users.push_back(std::make_unique<User>()); User &u = *users.back(); u.id = ++g_ids; u.label = label; u.logger = true; u.borrowed = true; u.raw = ctl.to_c();
            u.ctl = W(2) ? std::make_unique<C::Control>(std::move(ctl)) : std::make_unique<C::Control>(u.raw, false);
            struct End { User &u; End(User &u) : u(u) { sim_release_faults(0); } ~End() { if (u.ctl) end_control(u); sim_release_faults(1); } } end{u}; // errors may leave the scopes of handles
            for (uint32_t n = W(6); n > 0; --n) switch (W(7)) {
                case 0: do_command(u); break; case 1: do_ground(u); break; case 2: case 3: case 4: do_solve(u, 0); break; case 5: check_control(u); break;
                case 6: if (depth == 0 && W(4) == 3) run_app(*env, 1, mask); else do_backend(u); break;
            }
            maybe_raise("app:main");
            if (W(2)) end_control(u);
        });
    }
    static void run_app(Env &env, int depth, int mask) {
        App a; a.env = &env; a.mask = mask; a.depth = depth; a.label = 1000 + ++labels; a.prop = env.prop; a.name = W(2) ? "prog" : weird_string(); a.vers = W(2) ? "1.2.3" : weird_string(); a.lim = rand_limit();
        static char const *const av[] = {"--alpha=1", "--beta=a b", "--gamma=", "--delta=%s", "file.lp", "a|b,c", "--long-option=x=y", "--alpha", "--delta", "--beta=no", "--gamma=false", "--unknown", "", "--alpha=\xc3\xa4"};
        for (uint32_t n = W(6); n > 0; --n) { uint32_t k = W(14); if (k == 11 && W(3)) k = 4; a.args.push_back(av[k]); }
        vector<char const *> c; string t; for (size_t i = 0; i < a.args.size(); ++i) { c.push_back(a.args[i].c_str()); t += (i ? "," : "") + esc(a.args[i]); }
        static char const *const kinds[] = {"app:message_limit", "app:program_name", "app:version", "message", "app:print_model", "app:register_options", "app:validate_options"};
        for (int i = 0; i < 7; ++i) sim_cb_expect(kinds[i], mask >> i & 1 || i == 3);
        int code = -1; bool ran = op("clingo_main", any(), [&]() { code = C::clingo_main(a, C::StringSpan(c.data(), c.size())); });
        if (!ran) return;
        if (code != sim_app_exit()) sim_violation("app:exit-code", fmt("clingo_main returned %d but the engine determined %d", code, sim_app_exit()).c_str());
        sim_probe(code == 33 || code == 65 || code == 97 ? "app:failed" : "app:ok");
        string eff = sim_op_effects(), first = eff.substr(0, eff.find('\n')); same("app:arguments", first, "main|" + t);
        if (mask & M_NAME) same("app:name", sim_app_name(), a.name); else same("app:name", sim_app_name(), "clingo");
        if (mask & M_VERS) same("app:version", sim_app_version(), a.vers); else same("app:version", sim_app_version(), CLINGO_VERSION);
    }
};
} // namespace
void fam_app(Env &env) { labels = 0; for (uint32_t n = 1 + W(3); n > 0; --n) App::run_app(env, 0, W(3) == 2 ? (int)W(128) : 127); }
