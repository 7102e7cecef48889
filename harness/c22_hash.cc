// C22: hash text forms and partial matching.
#include "common.hpp"
#include "ron/hash.hpp"
using namespace ron; using namespace H;
static SHA2 symhash(const char* n) { SHA2 h; h.known_bits_ = SHA2::BIT_SIZE; sym_bytes(&h.bits_[0], SHA2::SIZE, n); return h; }
static const char* HEX = "0123456789abcdef";
static const char* B64 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~";
static bool bit(const String& s, int i) { return (unsigned char)s[i / 8] >> (7 - i % 8) & 1; }
extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0);
    if (mode == 0) {  // full hashes
        SHA2 h = symhash("h");
        String x = h.hex(), b = h.base64();
        CHECKM(x.size() == 64, "hex length");
        CHECKM(b.size() == 43, "base64 length");
        bool ok = true;
        for (int i = 0; i < 64; ++i) { unsigned n = 0; for (int k = 0; k < 4; ++k) n = n * 2 + bit(h.bits_, i * 4 + k); ok &= x[i] == HEX[n]; }
        CHECKM(ok, "hex digits");
        ok = true;
        for (int i = 0; i < 43; ++i) { unsigned n = 0; for (int k = 0; k < 6; ++k) n = n * 2 + (i * 6 + k < 256 ? bit(h.bits_, i * 6 + k) : 0); ok &= b[i] == B64[n]; }
        CHECKM(ok, "base64 digits");
        CHECKM(SHA2::valid(b), "base64 text is valid");
        SHA2 hx = SHA2::ParseHex(x), hb = SHA2::ParseBase64(b);
        CHECKM((hx.known_bits() == 256) & (hb.known_bits() == 256), "all bits known");
        CHECKM((hx.bits_.size() == 32) & (hb.bits_.size() == 32), "size");
        bool e1 = true, e2 = true;
        for (int i = 0; i < 32; ++i) { e1 &= hx.bits_[i] == h.bits_[i]; e2 &= hb.bits_[i] == h.bits_[i]; }
        CHECKM(e1, "hex round trip");
        CHECKM(e2, "base64 round trip");
        bool eq = hx == h, mt = hb.matches(h);
        CHECKM(eq & mt, "== and matches");
        REACH("full");
        observe(x); observe(b);
    } else if (mode == 1) {  // prefixes in either notation (upper and lower case hex)
        bool hex = sym_choose("hex", 2);
        int n = (int)sym_choose("n", hex ? 65 : 44);
        String t; uint64_t d[64]; bool up[64];
        for (int i = 0; i < n; ++i) {
            d[i] = sym_int("d", hex ? 5 : 6);
            if (hex) { static const char LU[33] = "0123456789abcdef0123456789ABCDEF"; t.push_back(LU[d[i]]); d[i] &= 15; }
            else t.push_back(B64[d[i]]);
        }
        SHA2 h = hex ? SHA2::ParseHex(t) : SHA2::ParseBase64(t);
        int w = hex ? 4 : 6, known = n * w > 256 ? 256 : n * w;
        CHECKM((int)h.known_bits() == known, "known bits as spelled");
        CHECKM(h.bits_.size() == 32, "size");
        bool ok = true;
        for (int i = 0; i < known; ++i) ok &= bit(h.bits_, i) == (d[i / w] >> (w - 1 - i % w) & 1);
        CHECKM(ok, "bits as spelled");
        CHECKM(h.defined() == (n > 0), "defined()");
        REACH(hex ? "hex prefix" : "base64 prefix");
        for (unsigned char c : h.bits_) sym_observe(c);
    } else if (mode == 2) {  // one wrong character anywhere: no bits
        bool hex = sym_choose("hex", 2);
        int max = hex ? 64 : 43, par = (int)sym_param("maxn", 12);
        int n = 1 + (int)sym_choose("n", par < max ? par : max), k = (int)sym_choose("bad", n);
        String t;
        for (int i = 0; i < n; ++i) t.push_back(i == k ? 'x' : hex ? HEX[sym_int("d", 4)] : B64[sym_int("d", 6)]);
        sym_bytes(&t[k], 1, "bad");
        unsigned char c = t[k];
        bool isx = ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'));
        sym_assume(hex ? !isx : DIG.t[c] == 255);
        SHA2 h = hex ? SHA2::ParseHex(t) : SHA2::ParseBase64(t);
        CHECKM(!h.defined(), "wrong character defines no bits");
        CHECKM(h.bits_.size() == 32, "size");
        REACH("bad char");
        sym_observe(h.known_bits());
    } else {  // matching: iff the common known prefix agrees, symmetric
        SHA2 a = symhash("a"), b = symhash("b");
        // prefix lengths that texts can produce
        static const int L[] = {0, 4, 6, 8, 12, 18, 20, 24, 30, 128, 132, 246, 252, 256};
        a.known_bits_ = L[sym_choose("ka", 14)]; b.known_bits_ = L[sym_choose("kb", 14)];
        int k = a.known_bits_ < b.known_bits_ ? a.known_bits_ : b.known_bits_;
        bool same = true;
        for (int i = 0; i < k; ++i) same &= bit(a.bits_, i) == bit(b.bits_, i);
        bool m1 = a.matches(b), m2 = b.matches(a);
        CHECKM(m1 == same, "matches iff the common prefix agrees");
        CHECKM(m2 == same, "symmetric");
        if (m1) REACH("match"); else REACH("mismatch");
        sym_observe(m1);
    }
}
