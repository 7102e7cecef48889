// C16: scanning an array frame: which ops are hidden.
#include "rdts.hpp"
using namespace ron; using namespace H;
static OpV ops[12];
enum Role { ROOT, PLAIN, DEL, RESTORE, JUNK };
// a value: a letter, an integer, one of the words rm, un, rn, um, or rm with something else
static int some_value(OpV& o) {  // 0 an entry, 1 a removal, 2 an undo
    switch (sym_choose("value", (unsigned)sym_param("values", 2))) {
        case 0: {
            static const Uuid W[4] = {Uuid{"rm"}, Uuid{"rn"}, Uuid{"um"}, Uuid{"un"}};
            uint64_t k = sym_int("word", 2), bits = 0;
            for (uint64_t i = 0; i < 4; ++i) bits |= W[i].value.as_u64 & (0 - (uint64_t)(k == i));
            o.v[o.nv++] = uuid_v(Uuid{Word{bits}, Word{0UL}});
            return sym_istrue(k == 0) ? 1 : sym_istrue(k == 3) ? 2 : 0;
        }
        case 1: o.v[o.nv++] = chr_v(a_letter()); return 0;
        case 2: o.v[o.nv++] = int_v(sym_int("integer", 3)); return 0;
        case 3: o.v[o.nv++] = uuid_v(Uuid{"rm"}); o.v[o.nv++] = chr_v(a_letter()); return 0;
        default: return 0;  // no value
    }
}

extern "C" void sym_main() {
    int n = (int)sym_param("n", 5), mode = (int)sym_param("mode", 0);
    int par[12], up[12], role[12], chain[12];
    bool hidden[12], undone[12];
    Uuid id[12];
    int rank[12] = {0};
    for (int i = 0; i < n; ++i) {
        if (mode != 2) id[i] = Uuid::Time(Word{(uint64_t)(0x021084210842100ULL << 4 | sym_int("id", 6))}, Word{(uint64_t)7 << 54});
        else if (!i) id[i] = Uuid{"1ABCDEFG00+U"};
        hidden[i] = undone[i] = false;
        if (!i) { par[0] = 0; role[0] = ROOT; hidden[0] = true; chain[0] = 0; ops[0] = opv(id[0], RGA_FORM_UUID); continue; }
        int path[12], np = 0;
        for (int k = i - 1;; k = par[k]) { path[np++] = k; if (!k) break; }
        if (mode == 2) {  // chains: after the previous op or the root
            par[i] = i == 1 ? 0 : sym_choose("parent", 2) ? i - 1 : 0;
            rank[i] = par[i] ? rank[i - 1] + 1 : 10 * (n - i);
            id[i] = id[0].inc(rank[i]);
        } else par[i] = path[sym_choose("parent", np)];
        int before = -1;  // the previous sibling
        for (int k = 1; k < i; ++k) if (par[k] == par[i]) before = k;
        if (mode != 2) sym_assume((id[i].value.as_u64 > id[par[i]].value.as_u64) & (before < 0 ? true : id[i].value.as_u64 < id[before].value.as_u64));
        ops[i] = opv(id[i], id[par[i]]);
        int t = some_value(ops[i]), p = role[par[i]];
        role[i] = t == 0 && (p == ROOT || p == PLAIN) ? PLAIN : t == 1 && (p == PLAIN || p == DEL) ? DEL : t == 2 && (p == DEL || p == RESTORE) ? RESTORE : JUNK;
        chain[i] = p == role[i] ? chain[par[i]] + 1 : 1;  // how many in a row
        if (role[i] != PLAIN) hidden[i] = true;
    }
    // the k-th undo in a row is about the k-th removal up from the first one, the k-th removal about the k-th entry up
    for (int r = RESTORE; r >= DEL; --r)
        for (int i = n - 1; i > 0; --i) {
            if (role[i] != r || undone[i]) continue;
            int at = i;
            for (int k = 0; k < chain[i]; ++k) at = par[at];       // what the chain starts at
            for (int k = 1; k < chain[i] && at; ++k) at = role[at] == r - 1 ? par[at] : 0;
            if (at && role[at] == r - 1) (r == DEL ? hidden : undone)[at] = true;
        }
    int order[12];
    for (int i = 0; i < n; ++i) order[i] = i;
    Booleans tombs;
    if (mode == 1) {  // one op whose reference is not in reach
        int bad = (int)sym_choose("bad", n);
        if (!bad) ops[0].ref = Uuid{sym_choose("type", 2) ? "lww" : "rgb"};
        else if (sym_choose("reference", 2)) {
            int to = (int)sym_choose("to", n);  // an op that is neither the op before nor one it comes after
            for (int k = bad - 1;; k = par[k]) { if (k == to) sym_stop(); if (!k) break; }
            ops[bad].ref = id[to];
        } else {
            ops[bad].ref = Uuid::Time(Word{(uint64_t)(0x021084210842100ULL << 4 | sym_int("unknown", 6))}, Word{(uint64_t)5 << 54});
        }
        Frame f = frame_of(ops, order, n);
        CHECKM(ScanRGA<Frame>(tombs, f) != Status::OK, "what is no causal tree is reported");
        REACH(bad ? "broken" : "no array");
        return;
    }
    Frame f = frame_of(ops, order, n);
    CHECKM(ScanRGA<Frame>(tombs, f) == Status::OK, "a causal tree is scanned");
    CHECKM(tombs.size() == (size_t)n, "one mark per op");
    int h = 0;
    for (int i = 0; i < n; ++i) { CHECKM(tombs[i] == hidden[i], role[i] == PLAIN ? "an entry is hidden exactly if an effective removal is about it" : "the root and all that is no entry is hidden"); h += role[i] == PLAIN && hidden[i]; }
    for (int i = 0; i < n; ++i) if (undone[i]) REACH("undone");
    REACH(h ? "hidden" : "all visible");
    sym_observe(h);
}
