// C23: inc_stack is observationally a vector.
#include <vector>
#include "common.hpp"
#include "ron/inc_stack.hpp"
using namespace ron; using namespace H;
template <class V> struct Tr;
template <> struct Tr<fsize_t> { static fsize_t mk(const char* n) { return (fsize_t)sym_int(n, 32); } static bool eq(fsize_t a, fsize_t b) { return a == b; } static void obs(fsize_t a) { sym_observe(a); } };
template <> struct Tr<Uuid> { static Uuid mk(const char* n) { return Uuid{Word{sym_int(n, 64)}, Word{sym_int("o", 62)}}; } static bool eq(Uuid a, Uuid b) { return same(a, b); } static void obs(Uuid a) { observe(a); } };
template <class V> static void run() {
    inc_stack<V> s;
    std::vector<V> ref;
    int n = (int)sym_param("ops", 5);
    for (int i = 0; i < n; ++i) {
        uint64_t op = sym_choose("op", ref.empty() ? 2 : 3);
        if (op == 0) break;
        if (op == 1) { V v = Tr<V>::mk("v"); s.push_back(v); ref.push_back(v); }
        else { s.pop_back(); ref.pop_back(); }
        CHECKM(s.size() == ref.size(), "size");
        CHECKM(s.empty() == ref.empty(), "empty");
        if (!ref.empty()) {
            CHECKM(Tr<V>::eq(s.back(), ref.back()), "back");
            CHECKM(Tr<V>::eq(s.front(), ref.front()), "front");
        }
    }
    if (s.span_size() < s.size()) REACH("compressed");
    size_t k = 0;
    for (auto i = s.begin(); i != s.end(); ++i) {
        CHECKM(k < ref.size(), "iteration length");
        V v = *i;
        CHECKM(Tr<V>::eq(v, ref[k]), "iteration value");
        Tr<V>::obs(v);
        ++k;
    }
    CHECKM(k == ref.size(), "iteration covers all");
    // += from any position by any count
    if (!ref.empty()) {
        size_t a = sym_choose("from", ref.size() + 1), b = sym_choose("by", ref.size() - a + 1);
        auto i = s.begin();
        for (size_t j = 0; j < a; ++j) ++i;
        auto j = i;
        j += (uint32_t)b;
        auto e = s.begin();
        for (size_t x = 0; x < a + b; ++x) ++e;
        CHECKM(j == e, "advance equals repeated increments");
        CHECKM(!(j != e), "!= agrees");
        CHECKM((i == j) == (b == 0) && (i != j) == (b != 0), "iterators at different positions differ");
        if (a + b < ref.size()) CHECKM(Tr<V>::eq(*j, ref[a + b]), "advanced value");
        else CHECKM(j == s.end(), "advanced to the end");
        REACH("advance");
        // skip_span(max): moves within the run by at most max and says by how much
        if (a < ref.size()) {
            uint32_t mx = 1 + (uint32_t)sym_choose("max", ref.size());
            auto sk = i;
            uint32_t got = sk.skip_span(mx);
            CHECKM(got >= 1 && got <= mx && a + got <= ref.size(), "skip_span count");
            auto f = s.begin();
            for (size_t x = 0; x < a + got; ++x) ++f;
            CHECKM(sk == f, "skip_span moves by the count it returns");
            bool run = true;
            for (size_t x = a + 1; x < a + got; ++x) run &= Tr<V>::eq(ref[x], ref[x - 1] + 1);
            CHECKM(run, "skip_span stays in one run");
            sym_observe(got);
        }
    }
}
extern "C" void sym_main() {
    if (sym_param("uuid", 0)) run<Uuid>(); else run<fsize_t>();
}
