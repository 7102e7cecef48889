// C30: the in-memory store merges and iterates like the persistent one; a joined store
// shows the merge of its members and writes to the second only.
#include "rdts.hpp"
#include "db/mem_store.hpp"
#include "db/joined_store.hpp"
using namespace ron; using namespace H;
using Mem = InMemoryStore<TextFrame>;
using Joined = JoinedStore<Mem, Mem>;
static const ron::Status GOOD = ron::Status::OK;
static bool key_less(const Key& a, const Key& b) { return sym_istrue((a.bits.first < b.bits.first) | ((a.bits.first == b.bits.first) & (a.bits.second < b.bits.second))); }
static bool key_same(const Key& a, const Key& b) { return sym_istrue((a.bits.first == b.bits.first) & (a.bits.second == b.bits.second)); }
static Uuid an_id(int free) {
    uint64_t v = 1, o = 1;
    for (int k = 0; k < 9; ++k) { v = v << 6 | (k < free ? sym_int("id", 6) : k == free); o = o << 6 | (k < free && !sym_param("one_origin", 0) ? sym_int("origin", 6) : k == free); }
    return Uuid::Time(Word{v}, Word{o});
}
static FORM a_form() {  // the last one has no merge
    static const FORM F[] = {LWW_RDT_FORM, LOG_RAW_FORM, PREV_META_FORM, RGA_RDT_FORM, MAX_RDT_FORM};
    return F[sym_choose("form", sym_param("forms", 3))];
}
static Key a_key(int free) { FORM f = a_form(); return Key{an_id(free), f}; }
struct Row { Key k; std::vector<Frame> changes; };
struct Rows {  // what was written, in key order
    Row r[10];
    int n = 0;
    int at(const Key& k, bool* found) const {
        int i = 0;
        while (i < n && key_less(r[i].k, k)) ++i;
        *found = i < n && key_same(r[i].k, k);
        return i;
    }
    void put(const Key& k, const Frame& f) {
        bool found;
        int i = at(k, &found);
        if (!found) { for (int j = n++; j > i; --j) r[j] = r[j - 1]; r[i].k = k; r[i].changes.clear(); }
        r[i].changes.push_back(f);
    }
    const std::vector<Frame>* get(const Key& k) const { bool found; int i = at(k, &found); return found ? &r[i].changes : nullptr; }
};
static ron::Status merge_of(Frame& to, const Key& k, const std::vector<Frame>* changes) {  // one change is itself
    to = Frame{};
    if (!changes || changes->empty()) return GOOD;
    if (changes->size() == 1) { to = (*changes)[0]; return GOOD; }
    return merge(to, k.form(), *changes);
}
static ron::Status joined_of(Frame& to, const Key& k, const Rows& a, const Rows& b) {
    Frame fa, fb;
    IFOK(merge_of(fa, k, a.get(k)));
    IFOK(merge_of(fb, k, b.get(k)));
    std::vector<Frame> both;
    if (!fa.empty()) both.push_back(fa);
    if (!fb.empty()) both.push_back(fb);
    return merge_of(to, k, &both);
}
static void same_ops(Cursor a, const Frame& m, const char* what) {
    Cursor b{m};
    for (;;) {
        ron::Status x = a.Next(), y = b.Next();
        CHECKM((x == GOOD) == (y == GOOD), what);
        if (x != GOOD) break;
        check_same_op(a, b, what);
    }
}
template <class S> static void check_read(S& s, const Key& k, const Rows& a, const Rows* b) {
    Frame got, want;
    ron::Status must = b ? joined_of(want, k, a, *b) : merge_of(want, k, a.get(k));
    ron::Status ok = s.Read(k, got);
    show("read", got);
    CHECKM((ok == GOOD) == (must == GOOD), "a read succeeds if the changes can be merged");
    if (ok == GOOD) same_ops(got.cursor(), want, "a read gives the merge of all changes");
    else REACH("no merge");
}
// the union of the keys of both
static int all_keys(Key* k, const Rows& a, const Rows* b) {
    int n = 0, i = 0, j = 0;
    while (i < a.n || (b && j < b->n)) {
        if (!b || j >= b->n) k[n++] = a.r[i++].k;
        else if (i >= a.n) k[n++] = b->r[j++].k;
        else if (key_less(a.r[i].k, b->r[j].k)) k[n++] = a.r[i++].k;
        else { if (key_same(a.r[i].k, b->r[j].k)) ++i; k[n++] = b->r[j++].k; }
    }
    return n;
}
template <class I> static void check_at(I& i, const Key* keys, int n, int at, const Rows& a, const Rows* b, bool look, const char* what) {
    Key k = i.key(), want = at >= 0 && at < n ? keys[at] : Key::END;
    CHECKM((k.bits.first == want.bits.first) & (k.bits.second == want.bits.second), what);
    if (!look) return;
    if (at < 0 || at >= n) { CHECKM(i.value().Next() != GOOD, "the end key has nothing"); return; }
    Frame m;
    ron::Status must = b ? joined_of(m, k, a, *b) : merge_of(m, k, a.get(k));
    if (must == GOOD) { Cursor c = i.value(); same_ops(c, m, "iteration gives the merged values"); }
    else if (b) { Cursor c = i.value(); CHECKM(c.Next() != GOOD || c.ref() == Uuid::FATAL, "changes that do not merge are no value"); }
    else CHECKM(i.value().Next() != GOOD, "changes that do not merge are no value");
}
template <class S> static void check_all(S& s, const Rows& a, const Rows* b, bool look) {
    Key keys[12];
    int n = all_keys(keys, a, b);
    typename S::Iterator i{s};
    CHECKM(i.key() == Key::END, "a new iterator is nowhere");
    CHECKM(i.SeekTo(Key::ZERO) == GOOD, "an iterator is placed");
    for (int at = 0; at < n; ++at) {
        check_at(i, keys, n, at, a, b, look, "iteration visits every key once, in order");
        ron::Status ok = i.Next();
        CHECKM(ok == GOOD || (at + 1 == n && ok == ron::Status::ENDOFINPUT), "iteration goes on to the last key");
    }
    check_at(i, keys, n, n, a, b, look, "after the last key comes the end key");
}
template <class S> static void check_seek(S& s, const Rows& a, const Rows* b, int free) {
    Key keys[12];
    int n = all_keys(keys, a, b);
    typename S::Iterator i{s};
    bool look = sym_choose("look", 2);
    for (int times = (int)sym_param("seeks", 1); times; --times) {
        Key k = a_key(free);
        bool prev = sym_choose("prev", 2);
        CHECKM(i.SeekTo(k, prev) == GOOD, "an iterator is placed");
        int at = 0;
        while (at < n && key_less(keys[at], k)) ++at;
        bool found = at < n && key_same(keys[at], k);
        if (prev && !found) --at;
        check_at(i, keys, n, at, a, b, look, "an iterator is placed at the key or next to it");
        REACH(found ? "found" : prev ? "previous" : at < n ? "next" : "behind all");
        if (at >= 0 && at < n && sym_choose("next", 2)) {
            ron::Status ok = i.Next();
            CHECKM(ok == GOOD || (at + 1 == n && ok == ron::Status::ENDOFINPUT), "iteration goes on from there");
            check_at(i, keys, n, at + 1, a, b, look, "iteration goes on from there");
        }
    }
}
static Frame a_change(const Key& k, const Rows& r, int i) {
    const std::vector<Frame>* c = r.get(k);
    Frame f;
    if (!c || k.form() == RGA_RDT_FORM && i > 5) f = OneOp<Frame>(k.id(), form2uuid(k.form()));
    else f = OneOp<Frame>(k.id().inc(i + 1), k.form() == RGA_RDT_FORM ? k.id() : form2uuid(k.form()), Uuid{Word{(uint64_t)sym_int("value", 6) << 54 | (uint64_t)1 << 48}, Word{}});
    show("change", f);
    return f;
}
static Frame an_op(const Uuid& id, const Uuid& ref) { return OneOp<Frame>(id, ref); }
template <class S> static void write_some(S& s, Rows& to, int writes, int free, int first) {
    int done = 0;
    while (done < writes) {
        int batch = sym_param("batches", 1) ? (int)sym_choose("batch", writes - done + 1) : 0;
        if (!batch) {
            Key k = a_key(free);
            Frame f = a_change(k, to, first + done++);
            CHECKM(s.Write(k, f) == GOOD, "a write succeeds");
            to.put(k, f);
            if (sym_param("reads", 0) && sym_choose("read", 2)) { check_read(s, k, to, nullptr); }
        } else {
            typename S::Records rs;
            int bad = sym_choose("end_key", 2) ? (int)sym_choose("end_at", batch) : -1;
            Rows then = to;
            for (int i = 0; i < batch; ++i, ++done) {
                Key k = a_key(free);
                Frame f = a_change(k, then, first + done);
                rs.emplace_back(i == bad ? Key::END : k, f);
                then.put(k, f);
            }
            ron::Status ok = s.Write(rs);
            CHECKM((ok == GOOD) == (bad < 0), "a batch is refused if it writes to the end key");
            if (bad < 0) { to = then; REACH("batch"); } else REACH("refused batch");
        }
    }
}
static Key started(Mem& s, Rows& rows, uint64_t id) {
    Uuid a = Uuid::Time(Word{id}, Word{(uint64_t)9});
    if (sym_choose("open", sym_param("opened", 2))) { CHECKM(s.Open(a) == GOOD, "a store is opened"); rows.put(Key{}, an_op(a, YARN_FORM_UUID)); }
    else CHECKM(s.Create(a) == GOOD, "a store is created");
    return Key::ZERO;
}
static void memory() {
    int writes = (int)sym_param("writes", 3), free = (int)sym_param("free", 1);
    Mem s;
    Rows rows;
    started(s, rows, 7);
    write_some(s, rows, writes, free, 0);
    CHECKM(s.Write(Key::END, an_op(Uuid::Time(Word{(uint64_t)5}, Word{(uint64_t)5}), LWW_FORM_UUID)) != GOOD, "no writes to the end key");
    switch (sym_param("iterate", 0) ? sym_choose("how", 2) : 2) {
        case 0: {
            bool look = sym_choose("look", 2);
            check_all(s, rows, nullptr, look);
            check_all(s, rows, nullptr, true);  // the first one may have compacted it
            break;
        }
        case 1: check_seek(s, rows, nullptr, free); check_all(s, rows, nullptr, true); break;
        case 2:
            for (int i = 0; i < rows.n; ++i) check_read(s, rows.r[i].k, rows, nullptr);
            check_read(s, a_key(free), rows, nullptr);
            break;
    }
    Frame none;
    CHECKM(s.Read(Key::END, none) == GOOD, "the end key can be read");
    CHECKM(none.empty(), "the end key has nothing");
    sym_observe(rows.n);
}
static void joined() {
    int wa = (int)sym_param("wa", 2), wb = (int)sym_param("wb", 2), free = (int)sym_param("free", 1);
    Mem a, b;
    Joined s{a, b};
    Rows ra, rb;
    started(a, ra, 7);
    started(b, rb, 7);
    for (int i = 0; i < wa; ++i) { Key k = a_key(free); Frame f = a_change(k, ra, i); CHECKM(a.Write(k, f) == GOOD, "a write succeeds"); ra.put(k, f); }
    int done = 0;
    while (done < wb) {
        int batch = (int)sym_choose("batch", wb - done + 1);
        Joined::Records rs;
        Rows then = rb;
        for (int i = 0; i < (batch ? batch : 1); ++i, ++done) {
            Key k = a_key(free);
            Frame f = ra.get(k) ? a_change(k, ra, 8 + done) : a_change(k, then, 8 + done);
            rs.emplace_back(k, f);
            then.put(k, f);
        }
        if (batch) CHECKM(s.Write(rs) == GOOD, "a batch succeeds");
        else CHECKM(s.Write(rs[0].first, rs[0].second) == GOOD, "a write succeeds");
        rb = then;
    }
    CHECKM(s.Write(Key::END, an_op(Uuid::Time(Word{(uint64_t)5}, Word{(uint64_t)5}), LWW_FORM_UUID)) != GOOD, "no writes to the end key");
    switch (sym_choose("how", 3)) {
        case 0: check_all(s, ra, &rb, true); break;
        case 1: check_seek(s, ra, &rb, free); break;
        case 2: {
            Key keys[12];
            int n = all_keys(keys, ra, &rb);
            for (int i = 0; i < n; ++i) check_read(s, keys[i], ra, &rb);
            check_read(s, a_key(free), ra, &rb);
        }
    }
    // all writes have gone to the second member
    check_all(a, ra, nullptr, true);
    check_all(b, rb, nullptr, true);
    sym_observe(ra.n * 8 + rb.n);
}
extern "C" void sym_main() { if (sym_param("mode", 0)) joined(); else memory(); }
