#include "common.hh"
#include <cstdarg>
#include <cstdlib>
#include <new>
int g_nop = 0;
// an allocation of the interface may fail (see sim_api)
void *operator new(size_t n) { if (sim_alloc_fails()) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return ::operator new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return sim_alloc_fails() ? nullptr : malloc(n ? n : 1); }
void *operator new[](size_t n, std::nothrow_t const &t) noexcept { return ::operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" void __sanitizer_cov_trace_pc() { if (g_nop == 0) sim_preempt_point(); }
string fmt(char const *f, ...) { char b[4096]; va_list a, c; va_start(a, f); va_copy(c, a); int n = vsnprintf(b, sizeof b, f, a); va_end(a); string r; if (n < (int)sizeof b) r = b; else { r.resize(n + 1); vsnprintf(&r[0], n + 1, f, c); r.resize(n); } va_end(c); return r; }
string esc(string const &s) { string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '|') r += "\\p"; else if (c == ',') r += "\\c"; else if (c == '\\') r += "\\\\"; else r += c; } return r; }
string sym(clingo_symbol_t s) { size_t n = 0; if (!raw_clingo_symbol_to_string_size(s, &n) || !n) return "?"; vector<char> b(n); raw_clingo_symbol_to_string(s, b.data(), n); return b.data(); }
string model_text(clingo_model_t const *m) {
    if (!m) return "none"; uint64_t n = 0; clingo_model_type_t t = 0; clingo_id_t th = 0; bool p = false; raw_clingo_model_number(m, &n); raw_clingo_model_type(m, &t); raw_clingo_model_thread_id(m, &th); raw_clingo_model_optimality_proven(m, &p);
    size_t k = 0; raw_clingo_model_symbols_size(m, clingo_show_type_shown, &k); vector<clingo_symbol_t> s(k + 1); raw_clingo_model_symbols(m, clingo_show_type_shown, s.data(), k); s.resize(k); string sy; for (size_t i = 0; i < k; ++i) sy += (i ? ";" : "") + sym(s[i]);
    size_t cn = 0; raw_clingo_model_cost_size(m, &cn); vector<int64_t> c(cn + 1); raw_clingo_model_cost(m, c.data(), cn); c.resize(cn);
    // theory terms added by extend are part of the shown symbols only for display: the engine's text ignores them
    return fmt("%llu|%d|%u|%d|", (unsigned long long)n, t, th, p) + sy + "|" + nums(c);
}
int g_ids = 0; static int g_raise = 0;
void driver_reset() { g_ids = 0; g_raise = 0; g_nop = 0; }
void raise_user(char const *kind) {
    static char const *const texts[] = {"user error", "", "50%s %n done", "two\nlines | here", "\xc3\xa9t\xc3\xa9", "user error"};
    uint32_t k = sim_choose(SIM_FAULT, 6); string t = string(texts[sim_choose(SIM_FAULT, 6)]); int id = ++g_raise; if (!t.empty()) t += fmt(" #%d in %s", id, kind);
    switch (k) {
        case 0: sim_op_note_raised("user:derived", (t + fmt("/%d", id)).c_str()); throw Derived(t, id);
        case 1: sim_op_note_raised("user:plain", (t + fmt("/%d", id)).c_str()); throw Plain{id, t};
        case 2: sim_op_note_raised("logic", t.c_str()); throw std::logic_error(t);
        case 3: sim_op_note_raised("runtime", t.c_str()); throw std::runtime_error(t);
        case 4: sim_op_note_raised("bad_alloc", ""); throw std::bad_alloc();
        default: sim_op_note_raised("user:int", fmt("%d", id).c_str()); throw id;
    }
}
void maybe_raise(char const *kind) { if (sim_cb_wants_raise(kind)) raise_user(kind); }
Outcome classify(std::exception_ptr p) {
    Outcome o; o.raised = true; o.p = p;
    try { std::rethrow_exception(p); }
    catch (Plain const &e) { o.cls = "user:plain"; o.msg = e.text + fmt("/%d", e.id); }
    catch (int e) { o.cls = "user:int"; o.msg = fmt("%d", e); }
    catch (std::exception const &e) {
        o.msg = e.what(); auto &t = typeid(e);
        if (t == typeid(Derived)) { o.cls = "user:derived"; o.msg += fmt("/%d", static_cast<Derived const &>(e).id); }
        else if (dynamic_cast<std::bad_alloc const *>(&e)) o.cls = "bad_alloc";
        else if (t == typeid(std::logic_error)) o.cls = "logic";
        else if (t == typeid(std::runtime_error)) o.cls = "runtime";
        else o.cls = string("std:") + t.name();
    }
    catch (...) { o.cls = "unknown"; }
    return o;
}
void op_open(char const *name, Expect const &e) { sim_op_begin(name); if (e.set) { sim_op_expect_none(); for (auto &x : e.eff) sim_op_expect(x.c_str()); } if (!e.must.empty()) sim_op_expect_raise(e.must.c_str()); if (!e.may.empty()) sim_op_may_raise(e.may.c_str()); }
bool op_done(Outcome const &o) { sim_op_end("cpp", o.raised ? o.cls.c_str() : nullptr, o.msg.c_str()); return !o.raised; }
void same(char const *oracle, string const &got, string const &want) { if (got != want) sim_violation(oracle, fmt("interface says '%s' but the engine has '%s'", got.substr(0, 1500).c_str(), want.substr(0, 1500).c_str()).c_str()); }
int weird_number() { static int const v[] = {0, 1, -1, 2, 3, 7, -7, 42, 2147483647, -2147483647 - 1}; return v[W(10)]; }
string weird_string() { if (Wc(1, 60)) return string(40 + W(260), 'y'); static char const *const v[] = {"x", "", "two words", "quo\"te", "a|b,c", "nl\nnl", "100%s%n", "\xc3\xa4"}; return v[W(8)]; }
static clingo_symbol_t raw_sym(int depth) {
    clingo_symbol_t r = 0; static char const *const fn[] = {"a", "p", "q", "f'", "_x"};
    switch (W(depth > 0 ? 7 : 4)) {
        case 0: raw_clingo_symbol_create_number(weird_number(), &r); break;
        case 1: raw_clingo_symbol_create_string(weird_string().c_str(), &r); break;
        case 2: raw_clingo_symbol_create_id(fn[W(5)], W(3) != 0, &r); break;
        case 3: if (W(2)) raw_clingo_symbol_create_infimum(&r); else raw_clingo_symbol_create_supremum(&r); break;
        default: { vector<clingo_symbol_t> a; uint32_t n = Wn(4); for (uint32_t i = 0; i < n; ++i) a.push_back(raw_sym(depth - 1)); bool tup = W(4) == 3; raw_clingo_symbol_create_function(tup ? "" : fn[W(5)], a.data(), a.size(), tup || W(3) != 0, &r); }
    }
    return r;
}
C::Symbol rand_sym(int depth) { return C::Symbol(raw_sym(depth)); }
C::Symbol some_atom(clingo_control_t *c) {
    clingo_symbolic_atoms_t const *a = nullptr; clingo_symbol_t r = 0; size_t n = 0;
    if (raw_clingo_control_symbolic_atoms(c, &a) && raw_clingo_symbolic_atoms_size(a, &n) && n && W(4)) { clingo_symbolic_atom_iterator_t it; raw_clingo_symbolic_atoms_begin(a, nullptr, &it); for (uint32_t k = W(n); k > 0; --k) raw_clingo_symbolic_atoms_next(a, it, &it); raw_clingo_symbolic_atoms_symbol(a, it, &r); return C::Symbol(r); }
    raw_clingo_symbol_create_id("unknown_atom", W(2) == 0, &r); return C::Symbol(r);
}
string part_text(string const &name, vector<C::Symbol> const &p) { return esc(name) + ":" + syms(p); }
