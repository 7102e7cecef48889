// C25: op metadata follows the op graph, and survives saving and loading.
#include "rdts.hpp"
#include "ron/hash.hpp"
#include "ron/opmeta.hpp"
using namespace ron; using namespace H;
static uint64_t hash_diff(const SHA2& a, const SHA2& b) {
    uint64_t d = a.known_bits_ ^ b.known_bits_;
    for (int i = 0; i < 4; ++i) { uint64_t x, y; memcpy(&x, &a.bits_[8 * i], 8); memcpy(&y, &b.bits_[8 * i], 8); d |= x ^ y; }
    return d;
}
static void graph() {
    int n = (int)sym_param("n", 4);
    Uuid id[8], origin[2] = {Uuid::Time(Word{5UL}, Word{sym_int("author", 6) << 54 | 9}), Uuid::Time(Word{5UL}, Word{sym_int("author", 6) << 54 | 9})};
    sym_assume(origin[0].origin.as_u64 != origin[1].origin.as_u64);
    int by[8], ref[8], last[2] = {-1, -1};
    OpMeta metas[8], tip[2];
    OpV ops[8];
    const char* TYPE[2] = {"rga", "lww"};
    for (int i = 0; i < n; ++i) {
        by[i] = i < 2 ? i : (int)sym_choose("by", 2);
        ref[i] = i < 2 ? -1 : (int)sym_choose("ref", i + 1) - 1;  // another root, or any op before
        int b = by[i];
        id[i] = Uuid::Time(Word{(uint64_t)(sym_int("time", 6) << 54 | 0x3001)}, Word{origin[b].origin.as_u64 & ~(0xfUL << 60)});
        for (int k = 0; k < i; ++k) sym_assume(by[k] == b ? id[k].value.as_u64 < id[i].value.as_u64 : id[k].value.as_u64 <= id[i].value.as_u64);
        ops[i] = opv(id[i], ref[i] < 0 ? Uuid{TYPE[i & 1]} : id[ref[i]]);
        if (ref[i] >= 0) ops[i].v[ops[i].nv++] = chr_v(a_letter());
        Frame f = frame_of(ops, &i, 1);
        Cursor c{f};
        CHECKM(c.Next() == Status::OK, "a written op is readable");
        OpMeta was = last[b] < 0 ? OpMeta{} : tip[b];
        CHECKM(was.is_next(c) == (last[b] >= 0 && ref[i] == last[b]), "is_next: the same author's next op after the last");
        CHECKM(!was.is_check(c), "is_check: no event is a check");
        SHA2 refhash;
        if (ref[i] < 0) {
            tip[b] = OpMeta{c, was};
            refhash = SHA2{Uuid{TYPE[i & 1]}};
            CHECKM(same(tip[b].rdt, Uuid{TYPE[i & 1]}), "a root has the type it references");
            CHECKM(same(tip[b].object, id[i]), "a root is its own object");
            CHECKM(tip[b].chain.as_u64 == id[i].value.as_u64, "a root starts a chain");
            REACH("root");
        } else {
            const OpMeta& r = metas[ref[i]];
            refhash = r.hash;
            CHECKM(tip[b].Next(c, r) == Status::OK, "an op follows its author's last one");
            CHECKM(same(tip[b].rdt, r.rdt), "an op has the type of the op referenced");
            CHECKM(same(tip[b].object, r.object), "an op has the object of the op referenced");
            bool goes_on = ref[i] == last[b];
            CHECKM(tip[b].chain.as_u64 == (goes_on ? was.chain.as_u64 : id[i].value.as_u64), "a chain goes on exactly if the op references its author's last one");
            REACH(goes_on ? "chain goes on" : "chain starts");
        }
        const OpMeta& now = tip[b];
        CHECKM(same(now.id, id[i]), "metadata has the op's id");
        CHECKM(now.prev.as_u64 == (last[b] < 0 ? 0 : id[last[b]].value.as_u64), "metadata has the author's last op");
        CHECKM(now.is_head() == (now.chain.as_u64 == id[i].value.as_u64), "is_head: the op starts a chain");
        CHECKM(same(now.chain_id(), Uuid::Time(now.chain, id[i].origin)), "the chain's id is that of its first op");
        CHECKM(hash_diff(now.hash, SHA2::OpMerkleHash(c, was.hash, refhash)) == 0, "the hash covers the author's last op and the one referenced");
        metas[i] = now;
        last[b] = i;
    }
}
static SHA2 any_hash() { SHA2 h; h.known_bits_ = SHA2::BIT_SIZE; for (int i = 0; i < 4; ++i) { uint64_t v = sym_int("hash", 64); memcpy(&h.bits_[i * 8], &v, 8); } return h; }
static void saved() {
    OpMeta m;
    Uuid id[2];
    sym_ids(id, 2, 1);
    int k = (int)sym_choose("op", 3);  // the object itself, a later op of it, an op next to it
    m.object = id[0];
    m.id = k == 0 ? id[0] : k == 1 ? id[1] : id[0].inc();
    static const char* T[] = {"lww", "rga", "max"};
    m.rdt = Uuid{T[sym_choose("type", 3)]};
    m.hash = any_hash();
    m.chain = m.id.value;
    Builder b;
    m.Save(b);
    Frame f = b.Release();
    show("saved", f);
    Cursor c{f};
    CHECKM(c.Next() == Status::OK, "saved metadata is readable");
    OpMeta back;
    CHECKM(back.Load(c) == Status::OK, "saved metadata is loaded");
    CHECKM(same(back.id, m.id), "loading keeps the op");
    CHECKM(same(back.object, m.object), "loading keeps the object");
    CHECKM(same(back.rdt, m.rdt), "loading keeps the type");
    CHECKM(hash_diff(back.hash, m.hash) == 0, "loading keeps the hash");
    REACH("saved");
}
static void wrong() {  // records that are no metadata
    Uuid id{"1ABCDEFGH+U"};
    OpV o = opv(id, Uuid{"meta"});
    SHA2 h = any_hash();
    int k = (int)sym_choose("wrong", 6);
    if (k == 0) o.ref = Uuid{Word{(uint64_t)(Uuid{"mata"}.value.as_u64 ^ sym_int("bits", 6) << 48)}, Word{0UL}};
    if (k == 0 && sym_istrue(same(o.ref, Uuid{"meta"}))) sym_stop();
    if (k != 1) o.v[o.nv++] = k == 2 ? chr_v(a_letter()) : uuid_v(id);
    if (k != 3) o.v[o.nv++] = k == 4 ? int_v(sym_int("integer", 3)) : uuid_v(Uuid{"lww"});
    Op op = make(o);
    if (k == 5 && sym_choose("none", 2)) {
        if (sym_choose("integer", 2)) op.WriteAtoms((Integer)7);
    } else {
        String t = h.base64();
        if (k == 5) { int n = (int)sym_choose("cut", 3); if (n == 2) t.push_back('0'); else t.resize(n ? 42 : 1); }
        op.WriteAtoms(t);
    }
    Builder b;
    b.AppendOp(op);
    Frame f = b.Release();
    show("wrong", f);
    Cursor c{f};
    CHECKM(c.Next() == Status::OK, "a written op is readable");
    OpMeta back;
    CHECKM(back.Load(c) != Status::OK, "a record that is no metadata is refused");
    REACH("refused");
}
extern "C" void sym_main() {
    switch (sym_param("mode", 0)) { case 0: graph(); break; case 1: saved(); break; default: wrong(); }
}
