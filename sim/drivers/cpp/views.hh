// Views of the C++ interface (iterators, ranges, spans) judged against a plain list of what they should show.
#pragma once
#include "common.hh"
#include <iterator>
// random access iterators: any walk over [b, e) sees the elements of want, and positions behave like integers
template <class It, class F> void walk(char const *oracle, It const b, It const e, vector<string> const &want, F text) {
    using D = typename It::difference_type; D n = (D)want.size();
    auto bad = [&](char const *what, D i, D j) { sim_violation(oracle, fmt("%s is wrong at positions %lld and %lld of %lld", what, (long long)i, (long long)j, (long long)n).c_str()); };
    if (e - b != n || (b == e) != (n == 0)) return bad("the distance of begin and end", 0, n);
    for (uint32_t k = 1 + W(4); k > 0; --k) {
        D i = W((uint32_t)n + 1), j = W((uint32_t)n + 1); It x = b + i, y = i + b;
        if (!(x == y) || x - b != i) bad("b + i", i, i);
        y = b; y += j; It ym = e; ym -= n - j; if (y != ym || !(y == e - (n - j)) || y != j + b) bad("+=, -= or -", i, j);
        if (y - x != j - i || x - y != i - j) bad("the difference", i, j);
        if ((x == y) != (i == j) || (x != y) != (i != j) || (x < y) != (i < j) || (x > y) != (i > j) || (x <= y) != (i <= j) || (x >= y) != (i >= j)) bad("a comparison", i, j);
        if (i < n) { It z = x; It o = z++; if (!(o == x) || z - x != 1) bad("post-increment", i, i); It q = x; It &r = ++q; if (&r != &q || q != z) bad("pre-increment", i, i); o = z--; if (o - z != 1 || z != x) bad("post-decrement", i, i); It &s = --q; if (&s != &q || q != x) bad("pre-decrement", i, i); }
        It p = x, q = y; using std::swap; swap(p, q); if (p != y || q != x) bad("swap", i, j);
        auto at = [&](It it, D k) { if (k < n) same(oracle, text(*it), want[(size_t)k]); };
        if (j < n && i < n) { *x; at(y, j); } at(x, i); at(p, j); at(q, i); if (i < n) { It z = x; string o = text(*z++); same(oracle, o, want[(size_t)i]); if (i + 1 < n) same(oracle, text(*z), want[(size_t)i + 1]); }
    }
    string g, w; for (It i = b; i != e; ++i) g += text(*i) + "\n"; for (auto &s : want) w += s + "\n"; same(oracle, g, w);
    if (W(3) == 2) { g.clear(); w.clear(); for (It i = e; i != b;) { --i; g += text(*i) + "\n"; } for (size_t i = want.size(); i > 0; --i) w += want[i - 1] + "\n"; same(oracle, g, w); }
}
template <class It, class F> void arrows(char const *oracle, It b, vector<string> const &want, F text) { // what -> points to
    if (want.empty()) return; size_t i = W((uint32_t)want.size()); It x = b + (typename It::difference_type)i; auto p = x.operator->(); same(oracle, text(p), want[i]);
}
template <class S, class F> void span(char const *oracle, S const &s, vector<string> const &want, F text) { // spans: size, random access, ends
    size_t n = want.size(); if (s.size() != n || s.empty() != (n == 0)) { sim_violation(oracle, fmt("a span has %zu elements instead of %zu", s.size(), n).c_str()); return; }
    if (n) { size_t i = W((uint32_t)n); same(oracle, text(s[i]), want[i]); same(oracle, text(s.front()), want[0]); same(oracle, text(s.back()), want[n - 1]); }
    string g, w; for (auto i = begin(s), e = end(s); i != e; ++i) g += text(*i) + "\n"; for (auto &x : want) w += x + "\n"; same(oracle, g, w);
}
template <class R, class F> void range(char const *oracle, R r, vector<string> const &want, F text) { // ranges of keys
    if ((size_t)r.size() != want.size() || r.empty() != want.empty()) { sim_violation(oracle, "the size of a range is wrong"); return; }
    if (!want.empty()) { size_t i = W((uint32_t)want.size()); same(oracle, text(r[(ptrdiff_t)i]), want[i]); }
    walk(oracle, r.begin(), r.end(), want, text);
}
