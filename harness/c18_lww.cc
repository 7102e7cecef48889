// C18: an object view over a merged last-write-wins frame has the newest value of every key.
#include "rdts.hpp"
#include "rdt/lww_obj.hpp"
using namespace ron; using namespace H;
static OpV ops[8];
static const Uuid KEY[3] = {Uuid{"name"}, Uuid{"1size"}, Uuid{"never"}};

extern "C" void sym_main() {
    int n = (int)sym_param("n", 3), m = (int)sym_param("m", 2), kinds = (int)sym_param("kinds", 6);
    int sub[8][8], cnt[8] = {0}, newest[3] = {-1, -1, -1};
    Uuid id[8];
    sym_ids(id, n + 1, 1);
    ops[0] = opv(id[0], LWW_FORM_UUID);
    for (int i = 1; i <= n; ++i) {
        OpV& o = ops[i] = opv(id[i], id[0]);
        int key = (int)sym_choose("key", 2), kind = (int)sym_choose("kind", kinds);
        if (kind != 7) o.v[o.nv++] = kind == 8 ? str_v("name") : uuid_v(KEY[key]);
        switch (kind) {
            case 0: { int sz = (int)sym_choose("size", i == 1 ? 3 : 1); o.v[o.nv++] = int_v((sym_int("integer", 3) + (sz == 2 ? 5000000000ULL : 10)) * (sz == 1 ? -1 : 1)); break; }
            case 1: o.v[o.nv++] = chr_v(a_letter()); break;
            case 2: o.v[o.nv++] = uuid_v(Uuid::Time(Word{sym_int("uuid", 6) << 54 | 5}, Word{(uint64_t)5})); break;
            case 3: o.v[o.nv++] = float_v(2.5); break;
            case 4: o.v[o.nv++] = str_v("ab"); break;
            case 5: break;                                       // no value: not a write
            case 6: o.v[o.nv++] = chr_v(a_letter()); o.v[o.nv++] = int_v(sym_int("more", 3)); break;
            case 7: o.v[o.nv++] = int_v(sym_int("integer", 3)); break;  // no key: not a write
            case 8: o.v[o.nv++] = int_v(sym_int("integer", 3)); break;  // the key is no UUID: not a write
        }
        if (kind < 5 || kind == 6) newest[key] = i;
    }
    for (int i = 0; i <= n; ++i) {
        int mask = i ? 1 + (int)sym_choose("inputs", (1 << m) - 1) : (1 << m) - 1;
        for (int j = 0; j < m; ++j) if (mask >> j & 1) sub[j][cnt[j]++] = i;
    }
    std::vector<Frame> in;
    for (int j = 0; j < m; ++j) in.push_back(frame_of(ops, sub[j], cnt[j]));
    Frame state;
    CHECKM(merge(state, LWW_RDT_FORM, in) == Status::OK, "writes merge");
    show("state", state);
    LWWObject<Frame> obj{state};
    for (int k = 0; k < 3; ++k) {
        static const ATOM T[4] = {INT, FLOAT, ron::UUID, STRING};
        const V* v = newest[k] < 0 ? nullptr : &ops[newest[k]].v[1];
        for (int t = 0; t < 4; ++t) {
            Atom a = obj.atom(KEY[k], T[t]);
            if (v && v->kind == T[t]) {
                CHECKM(a.type() == T[t], "a value has the type of the newest write");
                if (T[t] != STRING) CHECKM(a.value.as_u64 == (T[t] == ron::UUID ? v->u.value.as_u64 : v->bits), "a value is that of the newest write");
            } else {
                CHECKM(Uuid{a} == Uuid::NIL, "nothing is read for other types and keys");
            }
        }
        Uuid u = obj.uuid(KEY[k]);
        CHECKM(v && v->kind == ron::UUID ? same(u, v->u) : u == Uuid::NIL, "the UUID of a key is that of the newest write, if it wrote one");
        double d = obj.number(KEY[k]);
        CHECKM(v && v->kind == FLOAT ? d == 2.5 : d != d, "the number of a key is that of the newest write, if it wrote one");
        String s = obj.string(KEY[k]), want;
        if (v && v->kind == STRING) for (int i = 0; i < v->n; ++i) put(want, v->ch[i]);
        CHECKM(s.size() == want.size(), "the string of a key is that of the newest write, if it wrote one");
        int diff = 0;
        for (size_t i = 0; i < s.size(); ++i) diff |= s[i] ^ want[i];
        CHECKM(diff == 0, "the string of a key is that of the newest write, if it wrote one");
        REACH(v ? "written" : "not written");
    }
    sym_observe(state.data().size());
}
