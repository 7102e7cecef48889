// C09: a finite double written as a value reads back as the same float; float texts give their value or an error.
#include "common.hpp"
#include "ron/ron.hpp"
#include <cstdlib>
using namespace ron; using namespace H;
using Frame = TextFrame; using Cursor = Frame::Cursor; using Builder = Frame::Builder;
extern "C" void __sym_float_text(const char* t, uint64_t v);
static const Uuid OPID{"1A+B"}, OPREF{"lww"};
static char t[64];
static int k = 0;
static void puts_(const char* s) { for (; *s; ++s) t[k++] = *s; }
// n digits; kind bits: 1 first is not zero, 2 last is not zero
static void digs(int n, int kind) {
    for (int i = 0; i < n; ++i) {
        uint64_t x = sym_int("d", 4);
        sym_assume(x < 10);
        if (((kind & 1) && i == 0) || ((kind & 2) && i == n - 1)) sym_assume(x > 0);
        t[k++] = (char)('0' + x);
    }
}
static uint64_t bits(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); return v; }

extern "C" void sym_main() {
    if (sym_param("mode", 0) == 0) {
        // the %.17G text of an arbitrary finite double
        int neg = (int)sym_choose("negative", 2), form = (int)sym_choose("form", 5);
        bool integral = false;
        if (neg) t[k++] = '-';
        switch (form) {
            case 0: t[k++] = '0'; integral = true; break;
            case 1: digs((int)sym_choose("digits", 17) + 1, 1); integral = true; break;
            case 2: { int n = (int)sym_choose("intdigits", 16) + 1, f = (int)sym_choose("fracdigits", 17 - n) + 1; digs(n, 1); t[k++] = '.'; digs(f, 2); break; }
            case 3: { puts_("0."); int z = (int)sym_choose("zeros", 4); for (int i = 0; i < z; ++i) t[k++] = '0'; digs((int)sym_choose("fracdigits", 17) + 1, 3); break; }
            case 4: {
                digs(1, 1);
                int f = (int)sym_choose("fracdigits", 17);
                if (f) { t[k++] = '.'; digs(f, 2); }
                t[k++] = 'E';
                int en = (int)sym_choose("expsign", 2), el = (int)sym_choose("explen", 2);
                t[k++] = en ? '-' : '+';
                if (!el) {
                    int tens = (int)sym_choose("exptens", 3);  // -05..-09, +17..+19, then 20..99
                    uint64_t x, y;
                    if (tens == 2) { x = sym_int("e", 4); y = sym_int("e", 4); sym_assume((x >= (en ? 1 : 2)) & (x < 10) & (y < 10)); }
                    else { if (tens == 1) sym_assume(0); x = en ? 0 : 1; y = sym_int("e", 4); sym_assume((y >= (en ? 5 : 7)) & (y < 10)); }
                    t[k++] = (char)('0' + x); t[k++] = (char)('0' + y);
                } else {  // 100..299 and a part of 300..323
                    int h = (int)sym_choose("exphundreds", 3);
                    uint64_t x = sym_int("e", 4), y = sym_int("e", 4);
                    sym_assume((y < 10) & (h == 2 ? (x == 0) & (y < 8) : x < 10));
                    t[k++] = (char)('1' + h); t[k++] = (char)('0' + x); t[k++] = (char)('0' + y);
                }
            }
        }
        t[k] = 0;
        uint64_t v = bits(strtod(t, nullptr));  // registers text and value with each other
        if (integral) { char u[64]; for (int i = 0; i < k; ++i) u[i] = t[i]; u[k] = '.'; u[k + 1] = '0'; u[k + 2] = 0; __sym_float_text(u, v); }
        double dv;
        __builtin_memcpy(&dv, &v, 8);
        int place = (int)sym_choose("place", 4);
        Builder b;
        fsize_t at = 2, size = 4;
        if (place == 0) { b.AppendOp(Op{OPID, OPREF, Float{dv}}); size = 3; }
        if (place == 1) { b.AppendOp(Op{OPID, OPREF, String{"k"}, Float{dv}}); at = 3; }
        if (place == 2) b.AppendOp(Op{OPID, OPREF, Float{dv}, Uuid{"E5"}});
        if (place == 3) { b.AppendOp(Op{OPID, OPREF, Integer{7}, Float{dv}}); at = 3; }
        Frame f = b.Release();
        Cursor c{f};
        CHECKM(c.Next() == Status::OK, "a written float is readable");
        CHECKM(c.op().size() == size, "one atom per value");
        CHECKM(c.op()[at].type() == FLOAT, "a float is read as a float");
        CHECKM(c.atom(at).value.as_u64 == v, "a float keeps its value");
        Builder b2;
        b2.AppendOp(c);
        Frame g = b2.Release();
        Cursor d{g};
        CHECKM(d.Next() == Status::OK, "a copied float is readable");
        CHECKM(d.op().size() == size && d.op()[at].type() == FLOAT, "a copied float is a float");
        CHECKM(d.atom(at).value.as_u64 == v, "a copied float keeps its value");
        CHECKM(c.Next() == Status::ENDOFFRAME, "nothing else in the frame");
        sym_observe(d.op().size());
        REACH(integral ? "integral" : form == 4 ? "exponent" : "fraction");
        return;
    }
    // float texts: SGN? DIGITS ( .DIGITS (E SGN? DIGITS)? | E SGN? DIGITS )
    int max = (int)sym_param("max", 25);
    int quoted = (int)sym_choose("quoted", 2), sgn = (int)sym_choose("sign", 3);
    if (sgn) t[k++] = sgn == 1 ? '-' : '+';
    static const int len[] = {1, 2, 9, 17, 21, 22, 23, 24, 25, 30};
    int n = len[sym_choose("intdigits", max > 25 ? 10 : 9)];
    digs(n, 0);
    int form = (int)sym_choose("form", 3);
    if (form != 1) { t[k++] = '.'; digs((int)sym_choose("fracdigits", max - 1 < n ? 1 : max - n > 20 ? 20 : max - n) + 1, 0); }
    if (form != 0) {
        t[k++] = sym_choose("e", 2) ? 'E' : 'e';
        int es = (int)sym_choose("expsign", 3);
        if (es) t[k++] = es == 1 ? '-' : '+';
        digs((int)sym_choose("expdigits", 3) + 1, 0);
    }
    t[k] = 0;
    if (k > 38) sym_assume(0);
    int size = k;
    uint64_t v = bits(strtod(t, nullptr));
    char w[128];
    int m = 0;
    for (const char* s = "@1A+B :lww"; *s; ++s) w[m++] = *s;
    w[m++] = quoted ? '^' : ' ';
    for (int i = 0; i < k; ++i) w[m++] = t[i];
    w[m++] = ';'; w[m++] = '\n';
    String text(w, m);
    Cursor c{text};
    Status ok = c.Next();
    if (size > 24) {
        CHECKM(ok != Status::OK && ok != Status::ENDOFFRAME, "an over-long float text is an error");
        REACH("too long");
        return;
    }
    CHECKM(ok == Status::OK, "a float text is accepted");
    CHECKM(c.op().size() == 3 && c.op()[2].type() == FLOAT, "a float text is a float");
    CHECKM(c.atom(2).value.as_u64 == v, "a float text gives its value");
    CHECKM(c.Next() == Status::ENDOFFRAME, "nothing else in the text");
    if (size == 24) REACH("longest"); else REACH("shorter");
}
