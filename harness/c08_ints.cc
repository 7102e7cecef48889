// C08: every int64 written as a value is read back; integer texts give their exact value or an error.
#include "common.hpp"
#include "ron/ron.hpp"
using namespace ron; using namespace H;
using Frame = TextFrame; using Cursor = Frame::Cursor; using Builder = Frame::Builder;
static const Uuid OPID{"1A+B"}, OPREF{"lww"};

// A decimal numeral of n digits relative to the 19-digit limit: forks over where the two first differ, so that
// every numeral is covered. rel: -1 below, 0 equal, 1 above. Leading zeros only if `zeros`.
struct Num { unsigned char d[40]; int n; int rel; uint64_t mag; };
static Num numeral(int n, const char* limit, bool zeros, bool above) {
    Num r;
    r.n = n;
    int hi = n > 19 ? n - 19 : 0, first = n < 19 ? -1 : hi;
    r.rel = n < 19 ? -1 : 0;
    int at = n;  // everything from here on is arbitrary
    if (n >= 19) {
        if (hi && sym_choose("overlong", 2)) {  // some digit before the last 19 is not zero
            int nz = (int)sym_choose("nonzero", hi);
            r.rel = 1;
            for (int i = 0; i < nz; ++i) r.d[i] = 0;
            uint64_t x = sym_int("d", 4); sym_assume((x < 10) & (x > 0)); r.d[nz] = x;
            at = nz + 1;
        } else {
            for (int i = 0; i < hi; ++i) r.d[i] = 0;
            int p = (int)sym_choose("differ", 20);
            for (int i = 0; i < p; ++i) r.d[hi + i] = limit[i] - '0';
            at = hi + p;
            if (p < 19) {
                unsigned l = limit[p] - '0';
                uint64_t x = sym_int("d", 4);
                r.rel = above && l < 9 ? (sym_choose("above", 2) ? 1 : -1) : -1;
                if (r.rel == -1 && l == 0) sym_assume(0);
                if (r.rel == 1) sym_assume((x > l) & (x < 10)); else sym_assume(x < l);
                if (p == 0 && n > 1 && !zeros) sym_assume(x > 0);
                r.d[at++] = x;
            }
        }
    } else at = 0;
    for (int i = at; i < n; ++i) { uint64_t x = sym_int("d", 4); sym_assume(x < 10); if (!i && n > 1 && !zeros) sym_assume(x > 0); r.d[i] = x; }
    r.mag = 0;
    for (int i = hi; i < n; ++i) r.mag = r.mag * 10 + r.d[i];
    (void)first;
    return r;
}
extern "C" void sym_main() {
    int sgn = (int)sym_choose("sign", sym_param("mode", 0) ? 3 : 2);  // "", "-", "+"
    const char* limit = sgn == 1 ? "9223372036854775808" : "9223372036854775807";
    if (sym_param("mode", 0) == 0) {
        int place = (int)sym_choose("place", 3);
        Num u = numeral((int)sym_choose("digits", 19) + 1, limit, false, false);
        int64_t v = (int64_t)(sgn == 1 ? 0 - u.mag : u.mag);
        if (sgn == 1 && u.n == 1) sym_assume(u.mag != 0);
        Builder b;
        if (place == 0) b.AppendOp(Op{OPID, OPREF, v});
        if (place == 1) b.AppendOp(Op{OPID, OPREF, String{"k"}, v});
        if (place == 2) b.AppendOp(Op{OPID, OPREF, v, Uuid{"key"}});
        Frame f = b.Release();
        fsize_t at = place == 1 ? 3 : 2;
        Cursor c{f};
        Status ok = c.Next();
        CHECKM(ok == Status::OK, "a written integer is readable");
        CHECKM(c.op().size() == (place ? 4 : 3), "one atom per value");
        CHECKM(c.op()[at].type() == INT, "an integer is read as an integer");
        CHECKM(c.atom(at).value.as_integer == v, "an integer keeps its value");
        // copying the parsed op
        Builder b2;
        b2.AppendOp(c);
        Frame g = b2.Release();
        Cursor d{g};
        CHECKM(d.Next() == Status::OK, "a copied integer is readable");
        CHECKM(d.op().size() == (place ? 4 : 3) && d.op()[at].type() == INT, "a copied integer is an integer");
        CHECKM(d.atom(at).value.as_integer == v, "a copied integer keeps its value");
        CHECKM(c.Next() == Status::ENDOFFRAME, "nothing else in the frame");
        sym_observe(d.op().size());
        REACH(place ? "with others" : "alone");
        if (sgn == 1 && u.rel == 0) REACH("min");
        if (sgn == 0 && u.rel == 0) REACH("max");
        return;
    }
    // texts
    int max = (int)sym_param("max", 21);
    int form = (int)sym_choose("form", 2);  // " N" or "=N"
    int n = (int)sym_choose("digits", max) + 1;
    Num u = numeral(n, limit, true, true);
    char t[80];
    int k = 0;
    for (const char* s = "@1A+B :lww"; *s; ++s) t[k++] = *s;
    t[k++] = form ? '=' : ' ';
    if (sgn) t[k++] = sgn == 1 ? '-' : '+';
    for (int i = 0; i < n; ++i) t[k++] = '0' + u.d[i];
    t[k++] = ';'; t[k++] = '\n';
    String text(t, k);
    Cursor c{text};
    Status ok = c.Next();
    if (u.rel <= 0) {
        CHECKM(ok == Status::OK, "an integer text within 64 bits is accepted");
        CHECKM(c.op().size() == 3 && c.op()[2].type() == INT, "an integer text is an integer");
        CHECKM((uint64_t)c.atom(2).value.as_integer == (sgn == 1 ? 0 - u.mag : u.mag), "an integer text gives its exact value");
        REACH("fits");
        if (n >= 19) REACH("fits long");
        sym_observe(c.atom(2).value.as_u64);
    } else {
        CHECKM(ok != Status::OK && ok != Status::ENDOFFRAME, "an integer text beyond 64 bits is an error");
        REACH("too big");
    }
}
