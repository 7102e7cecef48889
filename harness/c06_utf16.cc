#include "common.hpp"
#include "ron/encdec.hpp"
using namespace ron; using namespace H;
extern "C" void sym_main() {
    uint32_t cp = (uint32_t)sym_int("cp", 21), cq = (uint32_t)sym_int("cq", 21);
    sym_assume((cp <= 0x10ffff) & ((cp < 0xd800) | (cp > 0xdfff)));
    sym_assume((cq <= 0x10ffff) & ((cq < 0xd800) | (cq > 0xdfff)));
    String16 s;
    utf16append(s, cp);
    if (sym_istrue(cp < 0x10000)) {
        CHECKM(s.size() == 1, "one unit");
        CHECKM(s[0] == cp, "unit value");
        REACH("bmp");
    } else {
        CHECKM(s.size() == 2, "two units");
        CHECKM((s[0] == 0xd800 + ((cp - 0x10000) >> 10)) & (s[1] == 0xdc00 + ((cp - 0x10000) & 0x3ff)), "standard surrogate pair");
        REACH("pair");
    }
    size_t n = s.size();
    utf16append(s, cq);
    const String16& c = s;
    auto at = c.begin();
    Codepoint p = utf16read(at, c.end());
    CHECKM(p == cp, "read back");
    CHECKM((size_t)(at - c.begin()) == n, "consumed exactly");
    Codepoint q = utf16read(at, c.end());
    CHECKM(q == cq, "second read back");
    CHECKM(at == c.end(), "all consumed");
    sym_observe(p); sym_observe(q); for (auto u : s) sym_observe(u);
}
