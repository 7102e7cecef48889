// C21: the bytes hashed for an op are a function of its content, and a one-to-one one.
#include "ops.hpp"
#include "ron/hash.hpp"
using namespace ron; using namespace H;
struct Rec {
    String out;
    void update(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) out.push_back((char)p[i]); }
    void final(uint8_t*) {}
    size_t output_length() { return 32; }
};
template <class C> static String stream(const C& c, const SHA2& prev, const SHA2& ref) {
    Stream<Rec> s;
    WriteOpHashable(c, s, prev, ref);
    return s.sink_.out;
}
static SHA2 symhash(const char* n) { SHA2 h; h.known_bits_ = SHA2::BIT_SIZE; for (int i = 0; i < 4; ++i) { uint64_t v = sym_int(n, 64); memcpy(&h.bits_[i * 8], &v, 8); } return h; }
static Uuid any_uuid(const char* n) { return Uuid{Word{sym_int(n, 64)}, Word{sym_int(n, 62)}}; }
static bool equal(const String& a, const String& b) {  // word by word, each a decision of its own
    if (a.size() != b.size()) return false;
    size_t i = 0;
    for (; i + 8 <= a.size(); i += 8) { uint64_t x, y; memcpy(&x, &a[i], 8); memcpy(&y, &b[i], 8); if (!sym_istrue(x == y)) return false; }
    for (; i < a.size(); ++i) if (!sym_istrue(a[i] == b[i])) return false;
    return true;
}
static V a_value(bool free) {
    switch (sym_choose("kind", free ? 4 : 5)) {
        case 0: return int_v(free ? sym_int("int", 64) : sym_int("int", 6));
        case 1: if (free) { V v = int_v(sym_int("float", 64)); v.kind = FLOAT; return v; } return float_v(sym_choose("float", 2) ? 2.5 : -2e30);
        case 2: return uuid_v(free ? any_uuid("uuid") : Uuid{Word{Uuid{"1X"}.value.as_u64 ^ sym_int("uuid", 6) << 48}, Word{Uuid{"1X+Y"}.origin.as_u64 ^ sym_int("uuid", 2) << 60}});
        default: {
            V v = str_v("");
            int n = (int)sym_choose("chars", (int)sym_param("chars", 2) + 1);
            for (int i = 0; i < n; ++i) { int c = (int)sym_choose("class", 4); v.ch[v.n++] = char_of(c < 3 ? c : 6); }
            return v;
        }
    }
}
static void longs() {  // long strings and many values
    static const int LONG[] = {15, 16, 17, 63, 64, 255, 256, 1000};
    static const Chr FILL[] = {{'a', 1, {'a'}}, {0x42f, 2, {0xd0, 0xaf}}, {0x10437, 4, {0xf0, 0x90, 0x90, 0xb7}}};
    SHA2 h1, h2;
    h1.bits_[0] = 1; h2.bits_[31] = 2;
    Uuid id{"1B+A"};
    Op op[2]{Op{id, id.dec()}, Op{id, id.dec()}};
    uint64_t differ = 0;
    if (sym_choose("what", 2)) {
        int n = LONG[sym_choose("length", (int)sym_param("lengths", 7))], at = (int)sym_choose("at", 3);
        const Chr& fill = FILL[sym_choose("filler", 3)];
        int cls = (int)sym_choose("class", 4);
        if (cls == 3) cls = 6;
        Chr x[2] = {char_of(cls), char_of(cls)};
        differ = x[0].cp ^ x[1].cp;
        for (int k = 0; k < 2; ++k) {
            String s;
            for (int i = 0; i < n; ++i) put(s, i == (at == 0 ? 0 : at == 1 ? n / 2 : n - 1) ? x[k] : fill);
            op[k].WriteAtoms(s);
        }
    } else {
        int n = 1 + (int)sym_choose("values", (int)sym_param("many", 20)), at = (int)sym_choose("which", n);
        uint64_t v[2] = {sym_int("int", 3), sym_int("int", 3)};
        differ = v[0] ^ v[1];
        for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) op[k].WriteAtoms((Integer)(i == at ? v[k] : (uint64_t)i));
    }
    String s[2];
    for (int k = 0; k < 2; ++k) {
        s[k] = stream(op[k], h1, h2);
        Builder b;
        b.AppendOp(op[k]);
        Frame f = b.Release();
        Cursor c{f};
        CHECKM(c.Next() == Status::OK, "a written op is readable");
        CHECKM(same_str(stream(c, h1, h2), s[k]), "a written op has the same hash stream");
    }
    bool eq = equal(s[0], s[1]);
    CHECKM(eq == (differ == 0), "equal streams exactly for equal values");
    REACH(eq ? "equal" : "different");
    sym_observe(s[0].size());
}
extern "C" void sym_main() {
    if (sym_param("mode", 0) == 2) return longs();
    if (sym_param("mode", 0) == 0) {  // layouts
        SHA2 h1, h2;
        h1.bits_[0] = 1; h2.bits_[31] = 2;
        Uuid id{"1B+A"};
        OpV o = opv(id, id.dec());
        int nv = (int)sym_choose("values", (int)sym_param("values", 1) + 1);
        for (int i = 0; i < nv; ++i) o.v[o.nv++] = a_value(false);
        Op op = make(o);
        String want = stream(op, h1, h2);
        // alone in a frame
        Builder b;
        b.AppendOp(op);
        Frame f = b.Release();
        Cursor c{f};
        CHECKM(c.Next() == Status::OK, "a written op is readable");
        CHECKM(same_str(stream(c, h1, h2), want), "a written op has the same hash stream");
        // within a span, if it can be
        Builder b2;
        OpV before = o;
        before.id = id.dec(); before.ref = id.dec().dec();
        OpV after = o;
        after.id = id.inc(); after.ref = id;
        b2.AppendOp(make(before)); b2.AppendOp(op); b2.AppendOp(make(after));
        Frame g = b2.Release();
        Cursor d{g};
        CHECKM(d.Next() == Status::OK && d.Next() == Status::OK, "a written op is readable");
        CHECKM(same_str(stream(d, h1, h2), want), "an op of a span has the same hash stream");
        // copied from there
        Builder b3;
        b3.AppendOp(d);
        b3.EndChunk(HEADER);
        Frame h = b3.Release();
        Cursor e{h};
        CHECKM(e.Next() == Status::OK, "a copied op is readable");
        CHECKM(same_str(stream(e, h1, h2), want), "a copied op has the same hash stream");
        // every character spelled in hex
        if (o.nv == 1 && o.v[0].kind == STRING) {
            String t{"@1B+A :1A~~~~~~~~+A '"};
            bool ok = true;
            t = "@1B+A:" + id.dec().str() + " '";
            static const char x[] = "0123456789aBcDeF";
            for (int i = 0; i < o.v[0].n; ++i) { uint32_t q = o.v[0].ch[i].cp; if (o.v[0].ch[i].n > 3) ok = false; t += "\\u"; for (int k = 12; k >= 0; k -= 4) t.push_back(x[q >> k & 15]); }
            t += "'?";
            if (ok) {
                Cursor u{t};
                CHECKM(u.Next() == Status::OK, "an escaped op is readable");
                CHECKM(same_str(stream(u, h1, h2), want), "an escaped op has the same hash stream");
                REACH("escaped");
            }
        }
        REACH("layouts");
        sym_observe(want.size());
        return;
    }
    // content is determined by the stream
    OpV o[2];
    SHA2 p[2], r[2];
    String s[2];
    for (int k = 0; k < 2; ++k) {
        o[k] = opv(any_uuid("id"), any_uuid("ref"));
        int nv = (int)sym_choose("values", (int)sym_param("values", 2) + 1);
        for (int i = 0; i < nv; ++i) o[k].v[o[k].nv++] = a_value(true);
        p[k] = symhash("prev"); r[k] = symhash("refhash");
        s[k] = stream(make(o[k]), p[k], r[k]);
    }
    if (!equal(s[0], s[1])) { REACH("different"); return; }
    CHECKM(same(o[0].id, o[1].id), "equal streams, same id");
    CHECKM(same(o[0].ref, o[1].ref), "equal streams, same reference");
    CHECKM(same_str(p[0].bits_, p[1].bits_), "equal streams, same predecessor hash");
    CHECKM(same_str(r[0].bits_, r[1].bits_), "equal streams, same reference hash");
    CHECKM(o[0].nv == o[1].nv, "equal streams, as many values");
    for (int i = 0; i < o[0].nv; ++i) {
        V &x = o[0].v[i], &y = o[1].v[i];
        CHECKM(x.kind == y.kind, "equal streams, same value types");
        if (x.kind == INT || x.kind == FLOAT) CHECKM(x.bits == y.bits, "equal streams, same numbers");
        if (x.kind == ron::UUID) CHECKM(same(x.u, y.u), "equal streams, same UUIDs");
        if (x.kind == STRING) {
            CHECKM(x.n == y.n, "equal streams, same string lengths");
            uint64_t d = 0;
            for (int j = 0; j < x.n; ++j) d |= x.ch[j].cp ^ y.ch[j].cp;
            CHECKM(d == 0, "equal streams, same strings");
        }
    }
    REACH("equal");
}
