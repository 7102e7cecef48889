// Symbolic characters: every Unicode scalar value but U+0000, by UTF-8 encoding class.
#ifndef H_CHARS
#define H_CHARS
#include "common.hpp"
namespace H {
struct Chr { uint32_t cp; int n; unsigned char b[4]; };
// cls: 0 ASCII, 1 two bytes, 2..4 three bytes, 5..7 four bytes
inline Chr char_of(int cls) {
    Chr c;
    uint32_t d[4];
    switch (cls) {
        case 0: d[0] = (uint32_t)sym_int("c7", 7); sym_assume(d[0] != 0); c.cp = d[0]; c.n = 1; c.b[0] = d[0]; break;
        case 1:
            d[0] = (uint32_t)sym_int("c5", 5); sym_assume(d[0] >= 2); d[1] = (uint32_t)sym_int("c6", 6);
            c.cp = d[0] << 6 | d[1]; c.n = 2; c.b[0] = 0xc0 | d[0]; c.b[1] = 0x80 | d[1]; break;
        case 2: case 3: case 4:
            if (cls == 3) { d[0] = (uint32_t)sym_int("c4", 4); sym_assume((d[0] != 0) & (d[0] != 13)); } else d[0] = cls == 2 ? 0 : 13;
            d[1] = (uint32_t)sym_int("c6", 6); d[2] = (uint32_t)sym_int("c6", 6);
            if (cls == 2) sym_assume(d[1] >= 0x20);
            if (cls == 4) sym_assume(d[1] < 0x20);
            c.cp = d[0] << 12 | d[1] << 6 | d[2]; c.n = 3; c.b[0] = 0xe0 | d[0]; c.b[1] = 0x80 | d[1]; c.b[2] = 0x80 | d[2]; break;
        default:
            if (cls == 6) { d[0] = (uint32_t)sym_int("c2", 2); sym_assume(d[0] != 0); } else d[0] = cls == 5 ? 0 : 4;
            d[1] = (uint32_t)sym_int("c6", 6); d[2] = (uint32_t)sym_int("c6", 6); d[3] = (uint32_t)sym_int("c6", 6);
            if (cls == 5) sym_assume(d[1] >= 0x10);
            if (cls == 7) sym_assume(d[1] < 0x10);
            c.cp = d[0] << 18 | d[1] << 12 | d[2] << 6 | d[3]; c.n = 4; c.b[0] = 0xf0 | d[0]; for (int i = 1; i < 4; ++i) c.b[i] = 0x80 | d[i];
    }
    return c;
}
inline Chr sym_char(const char* name = "class") { return char_of((int)sym_choose(name, 8)); }
inline void put(std::string& s, const Chr& c) { for (int i = 0; i < c.n; ++i) s.push_back((char)c.b[i]); }
inline bool same_str(const std::string& a, const std::string& b) {  // no short circuit
    if (a.size() != b.size()) return false;
    unsigned d = 0;
    for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)a[i] ^ (unsigned char)b[i];
    return d == 0;
}
}
#endif
