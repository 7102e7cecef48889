// A reference parser for the text frame grammar (ragel/text-grammar.rl), written from its definition, not from the
// generated machine. It works on bytes that may be symbolic and forks over character classes.
#ifndef H_GRAMMAR
#define H_GRAMMAR
#include "ops.hpp"
#include <cstdlib>
namespace H {
enum { K_OTHER, K_DIGIT, K_AF, K_E, K_e, K_B64, K_SLASH, K_DOT, K_SIGN, K_VER, K_WS, K_EQ, K_CARET, K_GT, K_APO, K_OPEN, K_CLOSE, K_TERM, K_AT, K_COLON, K_NL };
enum { S_BAD, S_APO, S_ESC, S_ASCII, S_CONT, S_L2, S_L3, S_L4 };
struct Classes {
    unsigned char k[256], s[256], h[256];
    constexpr Classes() : k{}, s{}, h{} {
        for (int i = 0; i < 256; ++i) { k[i] = K_OTHER; s[i] = i < 128 ? S_ASCII : i < 0xc0 ? S_CONT : i < 0xe0 ? S_L2 : i < 0xf0 ? S_L3 : i < 0xf8 ? S_L4 : S_BAD; h[i] = 255; }
        s[0] = s[10] = s[13] = S_BAD; s['\''] = S_APO; s['\\'] = S_ESC;
        for (int i = '0'; i <= '9'; ++i) { k[i] = K_DIGIT; h[i] = i - '0'; }
        for (int i = 'A'; i <= 'Z'; ++i) k[i] = i <= 'F' ? K_AF : K_B64;
        for (int i = 'a'; i <= 'z'; ++i) k[i] = K_B64;
        for (int i = 0; i < 6; ++i) h['a' + i] = h['A' + i] = 10 + i;
        k['E'] = K_E; k['e'] = K_e; k['~'] = k['_'] = K_B64; k['/'] = K_SLASH; k['.'] = K_DOT; k['+'] = k['-'] = K_SIGN; k['$'] = k['%'] = K_VER;
        k[' '] = k['\t'] = k['\r'] = K_WS; k['\n'] = K_NL; k['='] = K_EQ; k['^'] = K_CARET; k['>'] = K_GT; k['\''] = K_APO; k['('] = K_OPEN; k[')'] = K_CLOSE;
        k[','] = k[';'] = k['!'] = k['?'] = K_TERM; k['@'] = K_AT; k[':'] = K_COLON;
    }
};
static constexpr Classes CLASS{};

struct RAtom { ATOM kind; int b, e; uint64_t bits; Uuid u; int n; uint32_t cp[48]; };
struct ROp { Uuid id, ref; RAtom a[12]; int na; int term; int span; uint64_t count; int end; };  // span 0 none, 1 counted, 2 spread
enum { R_OP, R_END, R_ERR };
struct Ref {
    const unsigned char* t;
    int n, p = 0;
    Uuid prev = Uuid::NIL;
    bool multi = false;  // a text of several frames
    int cl[160];
    Ref(const unsigned char* t_, int n_) : t{t_}, n{n_} { for (int i = 0; i < 160; ++i) cl[i] = -1; }
    int cls(int i) { if (i >= n) return -1; if (cl[i] < 0) cl[i] = (int)sym_concretize(CLASS.k[t[i]]); return cl[i]; }
    bool ws(int i) { int c = cls(i); return c == K_WS || c == K_NL; }
    void skip() { while (ws(p)) ++p; }
    uint64_t word(int b, int e) { uint64_t v = 0; for (int i = 0; i < 10; ++i) v = v << 6 | (b + i < e ? DIG.t[t[b + i]] : 0); return v; }
    // a run of number or UUID characters; allow: 1 INT, 2 FLOAT, 4 UUID
    bool run(int allow, RAtom& a) {
        enum { I1 = 1, I2 = 2, F1 = 4, F2 = 8, F3 = 16, F4 = 32, F5 = 64, U1 = 128, U2 = 256, U3 = 512, U4 = 1024, U5 = 2048, ST = 4096 };
        int m = ST, b = p, slash = -1, ver = -1;
        for (;; ++p) {
            int c = cls(p), q = 0;
            bool b64 = c == K_DIGIT || c == K_AF || c == K_E || c == K_e || c == K_B64;
            if (!b64 && c != K_SLASH && c != K_DOT && c != K_SIGN && c != K_VER) break;
            if (m & ST) {
                if (c == K_SIGN) q |= I1;
                if (c == K_DIGIT) q |= I2;
                if (c == K_DIGIT || c == K_AF || c == K_E) q |= U1; else if (b64) q |= U3;
            }
            if ((m & (I1 | I2)) && c == K_DIGIT) q |= I2;
            if ((m & I2) && c == K_DOT) q |= F1;
            if ((m & (F1 | F2)) && c == K_DIGIT) q |= F2;
            if ((m & (I2 | F2)) && (c == K_E || c == K_e)) q |= F3;
            if ((m & F3) && c == K_SIGN) q |= F4;
            if ((m & (F3 | F4 | F5)) && c == K_DIGIT) q |= F5;
            if ((m & U1) && c == K_SLASH) { q |= U2; slash = p; }
            if ((m & (U1 | U2 | U3)) && b64) q |= U3;
            if ((m & (U1 | U3)) && (c == K_SIGN || c == K_VER)) { q |= U4; ver = p; }
            if ((m & (U4 | U5)) && b64) q |= U5;
            if (!(allow & 1) && !(allow & 2)) q &= ~(I1 | I2 | F1 | F2 | F3 | F4 | F5);
            if (!(allow & 2)) q &= ~(F1 | F2 | F3 | F4 | F5);
            if (!(allow & 4)) q &= ~(U1 | U2 | U3 | U4 | U5);
            if (!q) return false;
            m = q;
        }
        a.b = b; a.e = p;
        if ((m & I2) && (allow & 1)) {
            a.kind = INT;
            int i = b;
            uint64_t neg = 0, v = 0;
            if (cls(i) == K_SIGN) neg = 0 - (uint64_t)(t[i++] == '-');
            bool far = p - i > 18;
            if (far) while (i < p && sym_istrue(t[i] == '0')) ++i;
            if (p - i > 19) return false;
            for (; i < p; ++i) v = v * 10 + (t[i] - '0');
            if (far && sym_istrue(v > (uint64_t)INT64_MAX + (neg & 1))) return false;
            a.bits = (v ^ neg) - neg;
            return true;
        }
        if (m & (F2 | F5)) {
            a.kind = FLOAT;
            if (p - b > 24) return false;
            char s[32];
            for (int i = b; i < p; ++i) s[i - b] = t[i];
            s[p - b] = 0;
            double d = strtod(s, nullptr);
            __builtin_memcpy(&a.bits, &d, 8);
            return true;
        }
        if (m & (U1 | U3 | U5)) {
            a.kind = ron::UUID;
            int vb = slash >= 0 ? slash + 1 : b, ve = m & U5 ? ver : p;
            if (ve - vb > 10 || (m & U5 && p - ver - 1 > 10)) return false;
            uint64_t v = word(vb, ve), o = 0;
            if (slash >= 0) v |= (uint64_t)CLASS.h[t[b]] << 60;
            if (m & U5) { static const unsigned char V[8] = {0, 1, 0, 2, 0, 3, 0, 0}; o = word(ver + 1, p) | (uint64_t)(((t[ver] == '%') * 1) | ((t[ver] == '+') * 2) | ((t[ver] == '-') * 3)) << 60; }
            a.u = Uuid{Word{v}, Word{o}};
            return true;
        }
        return false;
    }
    bool string(RAtom& a) {  // after the opening quote, to the closing one
        a.kind = STRING; a.b = p; a.n = 0;
        for (;;) {
            if (p >= n) return false;
            int c = (int)sym_concretize(CLASS.s[t[p]]);
            cl[p] = -1;
            if (c == S_APO) { a.e = p++; return true; }
            uint32_t cp = 0;
            if (c == S_BAD || c == S_CONT) return false;
            if (c == S_ESC) {
                if (p + 1 >= n) return false;
                unsigned char x = t[p + 1];
                static constexpr struct ET { unsigned char e[256]; constexpr ET() : e{} { e['n'] = 10; e['r'] = 13; e['t'] = 9; e['\\'] = '\\'; e['b'] = 8; e['f'] = 12; e['\''] = '\''; e['/'] = '/'; e['"'] = '"'; } } ESCT{};
                if (sym_istrue(x == 'u')) {
                    for (int i = 0; i < 4; ++i) {
                        if (p + 2 + i >= n) return false;
                        unsigned h = CLASS.h[t[p + 2 + i]];
                        if (!sym_istrue(h < 16)) return false;
                        cp = cp << 4 | h;
                    }
                    p += 6;
                } else {
                    cp = ESCT.e[x];
                    if (!sym_istrue(cp != 0)) return false;
                    p += 2;
                }
            } else {
                int k = c == S_ASCII ? 0 : c == S_L2 ? 1 : c == S_L3 ? 2 : 3;
                cp = t[p] & (k == 0 ? 0x7f : k == 1 ? 0x1f : k == 2 ? 0xf : 7);
                for (int i = 1; i <= k; ++i) {
                    if (p + i >= n) return false;
                    if (!sym_istrue((t[p + i] & 0xc0) == 0x80)) return false;
                    cp = cp << 6 | (t[p + i] & 0x3f);
                }
                p += k + 1;
            }
            sym_assume(cp != 0);  // U+0000 is reserved
            a.cp[a.n++] = cp;
        }
    }
    int next(ROp& o) {
    again:
        skip();
        if (p == n) return R_END;
        if (cls(p) == K_DOT) {
            if (p + 1 >= n || cls(p + 1) != K_NL) return R_ERR;
            if (multi) { p += 2; prev = Uuid::NIL; goto again; }
            return p + 2 == n ? R_END : R_ERR;
        }
        o.id = prev.inc(); o.ref = prev; o.na = 0; o.span = 0; o.count = 1;
        RAtom a;
        bool bare_ok = true;  // bare atoms follow white space or start the op
        if (cls(p) == K_AT) {
            ++p;
            if (!run(4, a)) return R_ERR;
            o.id = a.u;
            skip();
            if (cls(p) == K_COLON) { ++p; if (!run(4, a)) return R_ERR; o.ref = a.u; }
            bare_ok = ws(p - 1);
        }
        for (;;) {
            int q = p;
            skip();
            if (p > q) bare_ok = true;
            if (p >= n) return R_ERR;
            int c = cls(p);
            bool done = false;
            switch (c) {
                case K_EQ: ++p; skip(); if (!run(1, o.a[o.na++])) return R_ERR; break;
                case K_CARET: ++p; skip(); if (!run(2, o.a[o.na++])) return R_ERR; break;
                case K_GT: ++p; skip(); if (!run(4, o.a[o.na++])) return R_ERR; break;
                case K_APO: ++p; if (!string(o.a[o.na++])) return R_ERR; break;
                case K_DIGIT: case K_AF: case K_E: case K_e: case K_B64: case K_SIGN:
                    if (!bare_ok || !run(7, o.a[o.na++])) return R_ERR;
                    break;
                case K_OPEN: case K_TERM: done = true; break;
                default: return R_ERR;
            }
            if (done) break;
            bare_ok = false;
            if (o.na > 11) { sym_assert(0, "harness: too many atoms"); return R_ERR; }
        }
        if (cls(p) == K_OPEN) {
            ++p;
            skip();
            if (cls(p) == K_DIGIT) {
                o.span = 1; o.count = 0;
                while (cls(p) == K_DIGIT) {
                    if (!sym_istrue(o.count <= FSIZE_MAX / 10)) return R_ERR;
                    o.count = o.count * 10 + (t[p++] - '0');
                }
                if (!sym_istrue(o.count != 0)) return R_ERR;
            } else if (cls(p) == K_APO) {
                o.span = 2;
                ++p;
                if (!string(o.a[o.na])) return R_ERR;
                if (o.a[o.na].n == 0) return R_ERR;
                o.count = o.a[o.na].n;
                ++o.na;
            } else return R_ERR;
            skip();
            if (cls(p) != K_CLOSE) return R_ERR;
            ++p;
            skip();
            if (cls(p) != K_TERM) return R_ERR;
        }
        static constexpr struct TT { unsigned char e[256]; constexpr TT() : e{} { e[','] = REDUCED; e['!'] = HEADER; e['?'] = QUERY; e[';'] = RAW; } } TERMT{};
        o.term = TERMT.e[t[p]];
        ++p;
        o.end = p;
        prev = o.id.inc(o.count - 1);
        return R_OP;
    }
};
// value `at` of an op against the reference; for a spread the k-th character
inline uint64_t ref_value_diff(const Cursor& c, int at, const RAtom& r, int spread, int k) {
    if (r.kind == INT || r.kind == FLOAT) return c.atom(at).value.as_u64 ^ r.bits;
    if (r.kind == ron::UUID) { Uuid u{c.atom(at)}; return (u.value.as_u64 ^ r.u.value.as_u64) | (u.origin.as_u64 ^ r.u.origin.as_u64); }
    V v;
    v.kind = STRING; v.n = 0;
    if (spread) {  // one character
        Atom a = c.atom(at);
        return a.value.cp ^ r.cp[k];
    }
    Atom a = c.atom(at);
    uint64_t d = 0;
    if (StringSize(a) != (fsize_t)r.n) return 1;
    int i = 0;
    if (!IsStringBtB(a)) d |= a.value.cp ^ r.cp[i++];
    while (i < r.n) { if (c.NextCodepoint(a) != OK) return 2; d |= a.value.cp ^ r.cp[i++]; }
    if (c.NextCodepoint(a) != ENDOFINPUT) return 4;
    return d;
}
}
#endif
