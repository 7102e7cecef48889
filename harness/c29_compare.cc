// C29: two frames compare as equal exactly when they hold the same ops, comments aside.
#include "ops.hpp"
using namespace ron; using namespace H;
static Chr letter(const char* n) { Chr c; c.n = 1; c.cp = c.b[0] = 0x60 | (unsigned)sym_int(n, 3); return c; }
static V a_value() {
    switch (sym_choose("kind", 6)) {
        case 0: { static const int64_t I[] = {0, -5, 5 + (1LL << 31), 5 + (1LL << 32), 5 - (1LL << 32), INT64_MIN + 5, INT64_MAX};
            int i = (int)sym_choose("int", 7); return int_v(i ? (uint64_t)I[i] : sym_int("int", 3)); }
        case 1: { static const double F[] = {2.0, 2.5, -2.0, 2.0000000000000004, 2e-300, 3e-300}; return float_v(F[sym_choose("float", 6)]); }
        case 2: return uuid_v(Uuid{Word{Uuid{"1X"}.value.as_u64 ^ sym_int("uuid", 1) << 49}, Word{Uuid{"1X+Y"}.origin.as_u64 ^ sym_int("uuid", 1) << 61}});
        case 3: return chr_v(letter("char"));
        case 4: { V v = chr_v(letter("char")); v.ch[1] = letter("char"); v.n = 2; return v; }
        default: return str_v("");
    }
}
static void fill(OpV* o, int n, int max) {
    for (int i = 0; i < n; ++i) {
        // differs in low bits of value or origin from 1A+B and its followers
        Uuid id = Uuid{"1A+B"}.inc(i * 2), ref = i ? Uuid{"1A+B"}.inc(i * 2 - 2) : Uuid{"lww"};
        if (sym_param("specs", 0)) {
            id.value.as_u64 ^= sym_int("id", 1) << 55; id.origin.as_u64 ^= sym_int("id", 1) << 55;
            ref.value.as_u64 ^= sym_int("ref", 1) << 55; ref.origin.as_u64 ^= sym_int("ref", 1) << 55;
        }
        o[i] = opv(id, ref);
        int nv = (int)sym_choose("values", max + 1);
        for (int k = 0; k < nv; ++k) o[i].v[o[i].nv++] = a_value();
    }
}
static Frame write(const OpV* o, int n, bool comments) {
    Builder b;
    bool apart = sym_param("chunks", 0) && sym_choose("chunks", 2);
    int at = comments ? (int)sym_choose("comment", n + 2) : n + 1;
    for (int i = 0; i <= n; ++i) {
        if (at == i) { b.AppendOp(Op{Uuid::COMMENT, Uuid::NIL, String{"a comment"}}); b.EndChunk(); }
        if (i == n) break;
        b.AppendOp(make(o[i]));
        if (apart) b.EndChunk(i ? HEADER : RAW);
    }
    return b.Release();
}
static void longs() {
    static const int LONG[] = {15, 16, 17, 63, 64, 255, 256, 1000};
    bool strings = sym_choose("what", 2);
    int n = strings ? LONG[sym_choose("length", (int)sym_param("lengths", 7))] : 1 + (int)sym_choose("ops", (int)sym_param("many", 40));
    int at = (int)sym_choose("at", 3), how = (int)sym_choose("how", 4);
    at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
    uint64_t x[2] = {sym_int("x", 3), sym_int("x", 3)};
    bool less = how == 3;
    Frame f[2];
    for (int k = 0; k < 2; ++k) {
        Builder b;
        int len = n - (less && k);
        if (strings) {
            String s;
            for (int i = 0; i < len; ++i) { Chr c; c.n = how == 0 ? 1 : how == 1 ? 2 : 4; uint64_t d = i == at ? x[k] : 1; if (c.n == 1) { c.b[0] = 0x60 | d; } else if (c.n == 2) { c.b[0] = 0xd0; c.b[1] = 0x90 | d; } else { c.b[0] = 0xf0; c.b[1] = 0x90; c.b[2] = 0x90; c.b[3] = 0xb0 | d; } put(s, c); }
            b.AppendOp(Op{Uuid{"1A+B"}, Uuid{"lww"}, s});
        } else for (int i = 0; i < len; ++i) {
            Uuid id = Uuid{"1AB0+B"}.inc(i * 16), ref = i ? Uuid{"1AB0+B"} : Uuid{"lww"};
            uint64_t d = i == at ? x[k] : 1;
            if (how == 1) id.value.as_u64 ^= d;
            if (how == 2) ref.origin.as_u64 ^= d << 42;
            b.AppendOp(Op{id, ref, (Integer)(how == 0 ? d : 5)});
        }
        f[k] = b.Release();
    }
    bool eq = !less && sym_istrue(x[0] == x[1]);
    CHECKM((CompareFrames<Frame>(f[0], f[1]) == Status::OK) == eq, "frames are equal exactly when their ops are");
    CHECKM((CompareFrames<Frame>(f[1], f[0]) == Status::OK) == eq, "the comparison is symmetric");
    CHECKM(CompareFrames<Frame>(f[0], f[0]) == Status::OK, "a frame equals itself");
    REACH(eq ? "equal" : "different");
    sym_observe(eq);
}
extern "C" void sym_main() {
    if (sym_param("long", 0)) return longs();
    int max = (int)sym_param("ops", 1), vals = (int)sym_param("values", 2);
    int min = (int)sym_param("min", 0), na = min + (int)sym_choose("ops", max - min + 1), nb = min + (int)sym_choose("ops", max - min + 1);
    OpV a[4], b[4];
    fill(a, na, vals);
    fill(b, nb, vals);
    uint64_t d = na ^ nb;
    if (na == nb) for (int i = 0; i < na; ++i) {
        d |= a[i].id.value.as_u64 ^ b[i].id.value.as_u64; d |= a[i].id.origin.as_u64 ^ b[i].id.origin.as_u64;
        d |= a[i].ref.value.as_u64 ^ b[i].ref.value.as_u64; d |= a[i].ref.origin.as_u64 ^ b[i].ref.origin.as_u64;
        d |= a[i].nv ^ b[i].nv;
        if (a[i].nv == b[i].nv) for (int k = 0; k < a[i].nv; ++k) {
            const V &x = a[i].v[k], &y = b[i].v[k];
            d |= x.kind ^ y.kind;
            if (x.kind != y.kind) continue;
            if (x.kind == INT || x.kind == FLOAT) d |= x.bits ^ y.bits;
            else if (x.kind == ron::UUID) { d |= x.u.value.as_u64 ^ y.u.value.as_u64; d |= x.u.origin.as_u64 ^ y.u.origin.as_u64; }
            else { d |= x.n ^ y.n; for (int j = 0; j < x.n && j < y.n; ++j) d |= x.ch[j].cp ^ y.ch[j].cp; }
        }
    }
    Frame f = write(a, na, sym_param("comments", 0)), g = write(b, nb, sym_param("comments", 0));
    bool eq = sym_istrue(d == 0);
    Status ok = CompareFrames<Frame>(f, g), ko = CompareFrames<Frame>(g, f);
    CHECKM(ok != Status::ENDOFFRAME, "a difference is an error");
    CHECKM((ok == Status::OK) == eq, "frames are equal exactly when their ops are");
    CHECKM((ko == Status::OK) == eq, "the comparison is symmetric");
    CHECKM(CompareFrames<Frame>(f, f) == Status::OK, "a frame equals itself");
    REACH(eq ? "equal" : "different");
    sym_observe(eq);
}
