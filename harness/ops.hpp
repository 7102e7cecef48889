// Ops with known content: building them and checking what a cursor says about them.
#ifndef H_OPS
#define H_OPS
#include "chars.hpp"
#include "ron/ron.hpp"
namespace H {
using Frame = TextFrame; using Cursor = Frame::Cursor; using Builder = Frame::Builder;
struct V { ATOM kind; uint64_t bits; Uuid u; Chr ch[24]; int n; };
struct OpV { Uuid id, ref; V v[3]; int nv = 0; TERM term = RAW; };
inline V int_v(uint64_t i) { V v; v.kind = INT; v.bits = i; v.n = 0; return v; }
inline V float_v(double d) { V v; v.kind = FLOAT; v.n = 0; __builtin_memcpy(&v.bits, &d, 8); return v; }
inline V uuid_v(Uuid u) { V v; v.kind = ron::UUID; v.u = u; v.n = 0; return v; }
inline V str_v(const char* s) {
    V v;
    v.kind = STRING;
    v.n = 0;
    for (; *s; ++s) { v.ch[v.n].n = 1; v.ch[v.n].cp = v.ch[v.n].b[0] = (unsigned char)*s; ++v.n; }
    return v;
}
inline V chr_v(const Chr& c) { V v; v.kind = STRING; v.n = 1; v.ch[0] = c; return v; }
inline OpV opv(Uuid id, Uuid ref) { OpV o; o.id = id; o.ref = ref; return o; }
inline OpV opv(Uuid id, Uuid ref, const V& v) { OpV o; o.id = id; o.ref = ref; o.v[o.nv++] = v; return o; }
inline Op make(const OpV& o) {
    Op op{o.id, o.ref};
    for (int i = 0; i < o.nv; ++i) {
        const V& v = o.v[i];
        switch (v.kind) {
            case INT: op.WriteAtoms((Integer)v.bits); break;
            case FLOAT: { double d; __builtin_memcpy(&d, &v.bits, 8); op.WriteAtoms(Float{d}); break; }
            case ron::UUID: op.WriteAtoms(v.u); break;
            case STRING: { String s; for (int k = 0; k < v.n; ++k) put(s, v.ch[k]); op.WriteAtoms(s); break; }
        }
    }
    return op;
}
template <class C>
inline uint64_t value_diff(const C& c, fsize_t at, const V& v) {  // 0 if the same; the types are the same
    Atom a = c.atom(at);
    switch (v.kind) {
        case INT: case FLOAT: return a.value.as_u64 ^ v.bits;
        case ron::UUID: return (a.value.as_u64 ^ v.u.value.as_u64) | (a.origin.as_u64 ^ v.u.origin.as_u64);
        default: {
            if (StringSize(a) != (fsize_t)v.n) return 1;
            uint64_t d = 0;
            int i = 0;
            if (!IsStringBtB(a)) d |= a.value.cp ^ v.ch[i++].cp;
            while (i < v.n) { if (c.NextCodepoint(a) != OK) return 2; d |= a.value.cp ^ v.ch[i++].cp; }
            if (c.NextCodepoint(a) != ENDOFINPUT) return 4;
            return d;
        }
    }
}
// the op a cursor stands at is this op
template <class C>
inline void check_op(const C& c, const OpV& o, const char* what) {
    CHECKM(c.op().size() == (fsize_t)o.nv + 2, what);
    CHECKM(same(c.id(), o.id), what);
    CHECKM(same(c.ref(), o.ref), what);
    uint64_t d = 0;
    for (int i = 0; i < o.nv; ++i) {
        CHECKM(c.op()[i + 2].type() == o.v[i].kind, what);
        d |= value_diff(c, i + 2, o.v[i]);
    }
    CHECKM(d == 0, what);
}
// two cursors stand at the same op; strings with U+0000 are left out
template <class C, class D>
inline void check_same_op(const C& c, const D& d, const char* what) {
    CHECKM(c.op().size() == d.op().size(), what);
    CHECKM(same(c.id(), d.id()), what);
    CHECKM(same(c.ref(), d.ref()), what);
    uint64_t diff = 0;
    for (fsize_t i = 2; i < c.op().size(); ++i) {
        Atom a = c.atom(i), b = d.atom(i);
        CHECKM(a.type() == b.type(), what);
        if (a.type() != STRING) { diff |= a.value.as_u64 ^ b.value.as_u64; if (a.type() == ron::UUID) diff |= a.origin.as_u64 ^ b.origin.as_u64; continue; }
        CHECKM(StringSize(a) == StringSize(b), what);
        int n = StringSize(a);
        if (n && IsStringBtB(a)) { CHECKM(c.NextCodepoint(a) == OK, what); sym_assume(a.value.cp != 0); }
        if (n && IsStringBtB(b)) CHECKM(d.NextCodepoint(b) == OK, what);
        for (int k = 0; k < n; ++k) {
            diff |= a.value.cp ^ b.value.cp;
            if (k + 1 < n) { CHECKM(c.NextCodepoint(a) == OK && d.NextCodepoint(b) == OK, what); sym_assume(a.value.cp != 0); }
        }
    }
    CHECKM(diff == 0, what);
}
}
#endif
