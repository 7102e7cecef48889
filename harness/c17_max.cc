// C17: merging max registers keeps the header and one op with the greatest value.
#include "rdts.hpp"
using namespace ron; using namespace H;
static OpV ops[8];
static int kind_of[8];
static uint64_t smaller(const V& a, const V& b) {  // same kind; 0 or 1
    switch (a.kind) {
        case INT: return (Integer)a.bits < (Integer)b.bits;
        case FLOAT: { double x, y; __builtin_memcpy(&x, &a.bits, 8); __builtin_memcpy(&y, &b.bits, 8); return x < y; }
        case ron::UUID: return a.u.value.as_u64 < b.u.value.as_u64 | (a.u.value.as_u64 == b.u.value.as_u64 & a.u.origin.as_u64 < b.u.origin.as_u64);
        default: {
            uint64_t lt = 0, eq = 1;
            for (int i = 0; i < a.n && i < b.n; ++i) { lt |= eq & (a.ch[i].cp < b.ch[i].cp); eq &= a.ch[i].cp == b.ch[i].cp; }
            return lt | (eq & (a.n < b.n));
        }
    }
}
// one op of the result, which op is it (their ids differ)
static int which(const Cursor& c, int n) { for (int i = 1; i <= n; ++i) if (sym_istrue(same(c.id(), ops[i].id))) return i; return -1; }

extern "C" void sym_main() {
    int n = (int)sym_param("n", 3), m = (int)sym_param("m", 2), mixed = (int)sym_param("mixed", 0);
    bool wide = sym_param("wide", 0);
    int sub[8][8], cnt[8] = {0};
    Uuid id[8];
    sym_ids(id, n + 1, 1);
    ops[0] = opv(id[0], MAX_FORM_UUID);
    int kind = mixed ? 0 : (int)sym_choose("kind", 4);
    for (int i = 1; i <= n; ++i) {
        OpV& o = ops[i] = opv(id[i], id[0]);
        if (mixed) kind = (int)sym_choose("kind", 5);
        kind_of[i] = kind;
        switch (kind) {
            case 0: if (wide) { static const int64_t W[] = {INT64_MIN, -(1LL << 53) - 1, -(1LL << 53), -(1LL << 32), -7, 0, 1, 1LL << 31, 5LL << 32, (1LL << 53) + 1, INT64_MAX - 1, INT64_MAX}; o.v[o.nv++] = int_v((uint64_t)W[sym_choose("integer", 12)]); break; }
                o.v[o.nv++] = int_v((sym_int("integer", 3) + 10) * (sym_choose("negative", 2) ? -1 : 1)); break;
            case 1: { static const double D[10] = {-100.5, -1.5, 0.25, 2.5, 1e40, -1e40, 2.0000000000000004, 2.0, 3e-300, -3e-300}; o.v[o.nv++] = float_v(D[sym_choose("float", wide ? 10 : mixed ? 2 : 5)]); break; }
            case 2: if (wide) { o.v[o.nv++] = uuid_v(Uuid::Time(Word{(uint64_t)1 << 54 | sym_int("uuid", 3)}, Word{(uint64_t)1 << 54 | sym_int("by", 3)})); break; }
                o.v[o.nv++] = uuid_v(Uuid::Time(Word{sym_int("uuid", 3) << 54 | 5}, Word{sym_int("by", 3) << 54 | 3})); break;
            case 3: {
                V v = wide ? str_v("aaaaaaaaaaaaaaaaaaaaa") : str_v("");
                if (wide) v.n = sym_choose("prefix", 2) ? 21 : 3;
                v.ch[v.n++] = a_letter();
                if (sym_choose("second", 2)) v.ch[v.n++] = a_letter();
                o.v[o.nv++] = v;
                break;
            }
            default: break;  // no value
        }
    }
    for (int i = 0; i <= n; ++i) {
        int mask = mixed ? (i ? 1 + (int)sym_choose("inputs", (1 << m) - 1) : (int)sym_choose("with_header", 1 << m)) : 1 << (int)sym_choose("input", m + !i);
        for (int j = 0; j < m; ++j) if (mask >> j & 1) sub[j][cnt[j]++] = i;
    }
    bool header = false;
    std::vector<Frame> in;
    for (int j = 0; j < m; ++j) { in.push_back(frame_of(ops, sub[j], cnt[j])); header |= cnt[j] && sub[j][0] == 0; }
    int first = -1;
    for (int round = 0; round < 3; ++round) {
        std::vector<Frame> now;
        if (round == 1) for (int j = m - 1; j >= 0; --j) now.push_back(in[j]);
        else now = in;
        Frame out;
        if (round == 2) {  // grouping and repetition
            std::vector<Frame> two{in[0], in[1]};
            Frame part;
            CHECKM(merge(part, MAX_RDT_FORM, two) == Status::OK, "max registers merge");
            now.push_back(part);
        }
        CHECKM(merge(out, MAX_RDT_FORM, now) == Status::OK, "max registers merge");
        show("merged", out);
        Cursor c{out};
        CHECKM(c.Next() == Status::OK, "the result has the header and an op");
        if (header) {
            check_op(c, ops[0], "the header is kept");
            CHECKM(c.Next() == Status::OK, "the result has the header and an op");
        }
        int w = round ? first : which(c, n);
        CHECKM(w > 0, "the op is one of the inputs");
        check_op(c, ops[w], round ? "the result does not depend on order, grouping and repetition" : "the op is one of the inputs");
        CHECKM(c.Next() == Status::ENDOFFRAME, "one op is left");
        first = w;
    }
    for (int i = 1; i <= n; ++i) {
        if (kind_of[first] == 4) CHECKM(kind_of[i] == 4, "a value is greater than none");
        else if (kind_of[i] == kind_of[first]) CHECKM(!smaller(ops[first].v[0], ops[i].v[0]), "no value is greater");
    }
    REACH(header ? "header" : "no header");
}
