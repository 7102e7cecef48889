// Numbers and words near their length limits in every surrounding of a frame: accepted with their exact value, or an
// error. kind 0: integers (C08), 1: floats (C09), 2: UUID words (C12).
#include "common.hpp"
#include "ron/ron.hpp"
#include <cstdlib>
using namespace ron; using namespace H;
using Frame = TextFrame; using Cursor = Frame::Cursor;
static char t[256];
static int k = 0;
static void puts_(const char* s) { for (; *s; ++s) t[k++] = *s; }
static uint64_t dig(const char* n) { uint64_t x = sym_int(n, 4); sym_assume(x < 10); return x; }
static uint64_t bits(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); return v; }
struct Before { const char* text; int ops, atoms; bool bare; };  // ops before, values before in this op, needs white space
static const Before BEFORE[] = {
    {"@1A+B :lww ", 0, 0, true}, {"@1A+B :lww", 0, 0, false}, {"@1A+B:lww\n", 0, 0, true}, {"@1A+B ", 0, 0, true},
    {"@1A+B", 0, 0, false}, {"", 0, 0, false}, {"\n", 0, 0, true}, {" ", 0, 0, true}, {"@1A+B :lww;\n", 1, 0, true}, {"@1A+B :lww 7,", 1, 0, false},
    {"@1A+B :lww 'x' ", 0, 1, true}, {"@1A+B :lww 'x'", 0, 1, false}, {"@1A+B :lww >a ", 0, 1, true}, {"@1A+B :lww >a", 0, 1, false},
    {"@1A+B :lww 7 ", 0, 1, true}, {"@1A+B :lww=7", 0, 1, false}, {"@1A+B :lww 7.5 ", 0, 1, true}, {"@1A+B :lww^7.5", 0, 1, false}, {"@1A+B :lww a ", 0, 1, true}, {"@1A+B :lww a\n", 0, 1, false}};
static const char* MARK[] = {"=", "^", ">"};
struct After { const char* text; int atoms; };
static const After AFTER[] = {{";\n", 0}, {",\n", 0}, {"!", 0}, {"?\n", 0}, {" ;", 0}, {"\n,", 0}, {"\t!", 0}, {"'x';", 1}, {"=7;", 1}, {"^7.5;", 1}, {">a;", 1},
    {" 'x';", 1}, {" 7;", 1}, {" a;", 1}, {" =7,", 1}, {" >a;", 1}, {"\n^7.5;", 1}, {"(1);", 0}, {" (1);", 0}};
// what may follow an id, resp. a reference
static const After AFTER_ID[] = {{";\n", 0}, {",", 0}, {" ;", 0}, {"!", 0}, {":lww;", 0}, {" :lww;", 0}, {"\n:lww 7;", 1}, {"=7;", 1}, {"^7.5;", 1}, {">a;", 1}, {"'x';", 1}, {" 7;", 1}, {" a;", 1}, {" 'x';", 1}, {" =7;", 1}, {" >a;", 1}, {" ^7.5;", 1}, {"(1);", 0}, {" (1);", 0}};
static const After AFTER_REF[] = {{";\n", 0}, {",", 0}, {" ;", 0}, {"!", 0}, {"=7;", 1}, {"^7.5;", 1}, {">a;", 1}, {"'x';", 1}, {" 7;", 1}, {" a;", 1}, {" 'x';", 1}, {" =7;", 1}, {" >a;", 1}, {" ^7.5;", 1}, {"(1);", 0}, {" (1);", 0}};
template <class T, size_t N> static constexpr size_t len(T (&)[N]) { return N; }

static bool int_text(uint64_t* v) {  // true: within 64 bits
    int sgn = (int)sym_choose("sign", 3);
    if (sgn) t[k++] = sgn == 1 ? '-' : '+';
    uint64_t lim = sgn == 1 ? 1ULL << 63 : (1ULL << 63) - 1;
    switch (sym_choose("shape", 4)) {
        case 0: { puts_("92233720368547758"); uint64_t a = dig("d"), b = dig("d"), x = 9223372036854775800ULL - 0;
            x = 92233720368547758ULL * 100 + 10 * a + b; t[k++] = '0' + a; t[k++] = '0' + b; *v = sgn == 1 ? 0 - x : x; return sym_istrue(x <= lim); }
        case 1: { puts_("00"); uint64_t a = dig("d"); uint64_t x = 9223372036854775800ULL + a; puts_("922337203685477580"); t[k++] = '0' + a; *v = sgn == 1 ? 0 - x : x; return sym_istrue(x <= lim); }
        case 2: { uint64_t a = dig("d"); t[k++] = '0' + a; puts_("0000000000000000005"); *v = sgn == 1 ? 0 - 5ULL : 5; return sym_istrue(a == 0); }
        default: { uint64_t a = dig("d"); puts_("12345"); t[k++] = '0' + a; uint64_t x = 123450 + a; *v = sgn == 1 ? 0 - x : x; return true; }
    }
}
static bool float_text(uint64_t* v) {
    int at = k, sgn = (int)sym_choose("sign", 3);
    if (sgn) t[k++] = sgn == 1 ? '-' : '+';
    int form = (int)sym_choose("shape", 4), over = (int)sym_choose("over", 3), exp = 0;  // size 23 (22), 24, 25
    const char* e = "";
    if (form == 1) e = "E5";
    if (form == 2) e = "e-12";
    if (form == 3) e = "E+1";
    while (e[exp]) ++exp;
    int split = (int)sym_choose("split", 3), n = 23 + over - (k - at) - exp;
    // split 0: one fraction digit, 1: one integer digit, 2: no fraction (needs an exponent)
    if (split == 2 && !form) sym_assume(0);
    for (int i = 0; i < n; ++i) {
        if (split == 0 && i == n - 2) { t[k++] = '.'; continue; }
        if (split == 1 && i == 1) { t[k++] = '.'; continue; }
        t[k++] = i == n - 1 ? '0' + dig("d") : '1' + i % 9;
    }
    puts_(e);
    char c = t[k];
    t[k] = 0;
    *v = bits(strtod(t + at, nullptr));
    t[k] = c;
    return k - at <= 24;
}
static bool word_text(uint64_t* v, uint64_t* o) {
    static const char D[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~";
    int variety = (int)sym_choose("variety", 2), vl = (int)sym_choose("value", 3), ol = (int)sym_choose("origin", 4);  // 1, 10, 11 digits
    static const int L[] = {0, 1, 10, 11};
    *v = *o = 0;
    if (variety) { puts_("A/"); *v = 0xAULL << 60; }
    vl = L[vl + 1]; ol = L[ol];
    for (int i = 0; i < vl; ++i) { uint64_t d = i && i == vl - 1 ? 10 + (sym_int("d", 4)) : 37 + i; t[k++] = D[d]; if (i < 10) *v |= d << (54 - 6 * i); }
    if (ol) {
        int ver = (int)sym_choose("version", 2);
        t[k++] = ver ? '+' : '%';
        *o |= (uint64_t)(ver ? 2 : 1) << 60;
        for (int i = 0; i < ol; ++i) { uint64_t d = i && i == ol - 1 ? 10 + (sym_int("d", 4)) : 37 + i; t[k++] = D[d]; if (i < 10) *o |= d << (54 - 6 * i); }
    }
    return vl <= 10 && ol <= 10;
}

extern "C" void sym_main() {
    int kind = (int)sym_param("kind", 0);
    uint64_t v = 0, o = 0;
    int place = kind == 2 ? (int)sym_choose("place", 3) : 0, ops = 0, before = 0, after = 0;
    bool ok;
    if (place == 0) {
        const Before& b = BEFORE[sym_choose("before", len(BEFORE))];
        puts_(b.text);
        bool bare = b.bare;
        if (bare && sym_choose("quoted", 2)) bare = false;
        // an op may begin with a bare value right away
        if (!bare && !k && sym_choose("bare", 2)) bare = true;
        if (!bare) { puts_(MARK[kind]); if (sym_choose("space", 2)) t[k++] = ' '; }
        ops = b.ops; before = b.atoms;
        ok = kind == 0 ? int_text(&v) : kind == 1 ? float_text(&v) : word_text(&v, &o);
        const After& a = AFTER[sym_choose("after", len(AFTER))];
        // a bare word runs on into the next mark only where that is no digit
        puts_(a.text); after = a.atoms;
    } else {
        static const char* PRE[] = {"", "\n", "@1A+B :lww;\n", "@1A+B :lww 7,"};
        int p = (int)sym_choose("before", 4);
        puts_(PRE[p]);
        ops = p >= 2;
        if (place == 1) t[k++] = '@'; else { puts_("@1A+B"); if (sym_choose("space", 2)) t[k++] = ' '; t[k++] = ':'; }
        ok = word_text(&v, &o);
        const After& a = place == 1 ? AFTER_ID[sym_choose("after", len(AFTER_ID))] : AFTER_REF[sym_choose("after", len(AFTER_REF))];
        puts_(a.text); after = a.atoms;
    }
    String text(t, k);
    Cursor c{text};
    for (int i = 0; i < ops; ++i) CHECKM(c.Next() == Status::OK, "the op before is read");
    Status st = c.Next();
    if (!ok) {
        CHECKM(st != Status::OK && st != Status::ENDOFFRAME, kind == 2 ? "an over-long word is an error" : kind == 1 ? "an over-long float text is an error" : "an integer text beyond 64 bits is an error");
        REACH("too big");
        return;
    }
    CHECKM(st == Status::OK, "a text within the limits is accepted");
    if (place == 0) {
        CHECKM((int)c.op().size() == 3 + before + after, "one atom per value");
        const Atom& a = c.op()[2 + before];
        CHECKM(a.type() == (kind == 0 ? INT : kind == 1 ? FLOAT : UUID), "a value has the type of its text");
        if (kind == 0) CHECKM((uint64_t)c.atom(2 + before).value.as_integer == v, "an integer text gives its exact value");
        if (kind == 1) CHECKM(c.atom(2 + before).value.as_u64 == v, "a float text gives its value");
        if (kind == 2) CHECKM((c.op()[2 + before].value.as_u64 == v) & (c.op()[2 + before].origin.as_u64 == o), "a UUID text gives its value");
    } else {
        CHECKM((int)c.op().size() == 2 + after, "one atom per value");
        const Atom& u = c.op()[place - 1];
        CHECKM((u.value.as_u64 == v) & (u.origin.as_u64 == o), "an id or reference is read");
    }
    REACH("fits");
}
