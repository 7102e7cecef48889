// Shared helpers for harnesses.
#ifndef H_COMMON
#define H_COMMON
#include "sym.h"
#include "ron/const.hpp"
#include "ron/uuid.hpp"
namespace H {
using namespace ron;
inline uint64_t payload(const char* n) { return sym_int(n, 60); }
// a 60-bit payload made of ten 6-bit digits
inline uint64_t digits(const char* n, int cnt = 10) {
    uint64_t v = 0;
    for (int i = 0; i < 10; ++i) v = (v << 6) | (i < cnt ? sym_int(n, 6) : 0);
    return v;
}
inline Uuid sym_uuid(const char* n) {
    uint64_t v = digits(n), o = digits(n);
    return Uuid{Word{v | (sym_int(n, 4) << 60)}, Word{o | (sym_int(n, 2) << 60)}};
}
inline void observe(Uuid u) { sym_observe(u.value.as_u64); sym_observe(u.origin.as_u64); }
inline void observe(const std::string& s) { sym_observe(s.size()); for (unsigned char c : s) sym_observe(c); }
// Base64 digit value by table (no branching), 255 for other characters
struct DigTab { unsigned char t[256]; constexpr DigTab() : t{} {
    for (int i = 0; i < 256; ++i) t[i] = 255;
    const char* a = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~";
    for (int i = 0; i < 64; ++i) t[(unsigned char)a[i]] = i;
} };
static constexpr DigTab DIG{};
// bitwise equality without short-circuit forks
inline bool same(const Atom& a, const Atom& b) { return ((a.value.as_u64 ^ b.value.as_u64) | (a.origin.as_u64 ^ b.origin.as_u64)) == 0; }
}
#endif
