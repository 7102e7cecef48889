// C02: a text is a UUID iff it is [HEX/]WORD[sep WORD], words 1..10 chars; anything else gives the error UUID.
#include "common.hpp"
using namespace ron; using namespace H;
static inline bool isb64(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | (c == '_') | (c == '~'); }
static inline bool ishex(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')); }
static inline uint64_t dig(unsigned char c) { return DIG.t[c]; }
extern "C" void sym_main() {
    int n = (int)sym_choose("n", sym_param("max", 10) + 1) + (int)sym_param("min", 0);
    // the text sits at the end of an exactly sized buffer: any over-read is caught
    char* buf = new char[n ? n : 1];
    if (n == 0) buf[0] = 'A';
    sym_bytes(buf, n, "t");
    if (sym_param("words", 0)) {  // deep mode: long runs of Base64 with separators anywhere
        for (int i = 0; i < n; ++i) sym_assume(isb64(buf[i]) | (buf[i] == '/') | (buf[i] == '+') | (buf[i] == '-') | (buf[i] == '%') | (buf[i] == '$'));
    }
    Uuid u{Slice{(const char*)buf, (size_t)n}};
    const unsigned char* t = (const unsigned char*)buf;
    // reference
    int i = 0;
    uint64_t vr = 0, vs = 0, val = 0, ori = 0;
    bool ok = true;
    if (n >= 2 && sym_istrue(t[1] == '/')) {
        ok = sym_istrue(ishex(t[0]));
        vr = dig(t[0]);
        i = 2;
    }
    int lv = 0, lo = 0;
    while (ok && i < n && sym_istrue(isb64(t[i]))) { if (lv < 10) val |= dig(t[i]) << (54 - 6 * lv); ++lv; ++i; }
    ok = ok && lv >= 1 && lv <= 10;
    if (ok && i < n) {
        unsigned char c = t[i++];
        ok = sym_istrue((c == '$') | (c == '%') | (c == '+') | (c == '-'));
        vs = c == '$' ? 0 : c == '%' ? 1 : c == '+' ? 2 : 3;
        while (ok && i < n && sym_istrue(isb64(t[i]))) { if (lo < 10) ori |= dig(t[i]) << (54 - 6 * lo); ++lo; ++i; }
        ok = ok && lo >= 1 && lo <= 10 && i == n;
    }
    if (ok) {
        CHECKM((u.value.as_u64 == (val | vr << 60)) & (u.origin.as_u64 == (ori | vs << 60)), "accepted text gives the value it spells");
        REACH("accepted");
        if (lo) REACH("with origin");
        if (vr) REACH("with variety");
    } else {
        CHECKM(u.is_error() & (u.value == Word::MAX_VALUE), "rejected text gives the error UUID");
        REACH("rejected");
        if (lv > 10 || lo > 10) REACH("too long");
    }
    observe(u);
}
