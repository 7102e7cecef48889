// C27: iteration in key order, isolated branches, reopening, closed stores, the end key.
#include "rdts.hpp"
#include "rocks_model.hpp"
#include "db/rocks_store.hpp"
using namespace ron; using namespace H;
using Store = RocksDBStore<TextFrame>;
using It = Store::Iterator;
static const ron::Status GOOD = ron::Status::OK;
static void same_ops(Cursor a, Cursor b, const char* what) {
    for (;;) {
        ron::Status x = a.Next(), y = b.Next();
        CHECKM(x == y, what);
        if (x != GOOD) break;
        check_same_op(a, b, what);
    }
}
static bool key_less(const Key& a, const Key& b) { return sym_istrue((a.bits.first < b.bits.first) | ((a.bits.first == b.bits.first) & (a.bits.second < b.bits.second))); }
static bool key_same(const Key& a, const Key& b) { return sym_istrue((a.bits.first == b.bits.first) & (a.bits.second == b.bits.second)); }
static Uuid an_id(int free) {
    uint64_t v = 1, o = 1;
    for (int k = 0; k < 9; ++k) { v = v << 6 | (k < free ? sym_int("id", 6) : k == free); o = o << 6 | (k < free ? sym_int("origin", 6) : k == free); }
    return Uuid::Time(Word{v}, Word{o});
}
static Key a_key(int free) {
    static const FORM F[] = {LWW_RDT_FORM, LOG_RAW_FORM, META_META_FORM, RGA_RDT_FORM};
    return Key{an_id(free), F[sym_choose("form", sym_param("forms", 2))]};
}
struct Row { Key k; std::vector<Frame> changes; };
static Row rows[8];
static int nrows;
static Row* row_of(const Key& k) {  // in key order
    int i = 0;
    while (i < nrows && key_less(rows[i].k, k)) ++i;
    if (i < nrows && key_same(rows[i].k, k)) return &rows[i];
    for (int j = nrows++; j > i; --j) rows[j] = rows[j - 1];
    rows[i].k = k;
    rows[i].changes.clear();
    return &rows[i];
}
static Frame merged(const Row& r) { Frame f; CHECKM(merge(f, r.k.form(), r.changes) == GOOD, "the changes merge"); return f; }
static Frame change_of(const Key& k, int i) { return OneOp<Frame>(k.id().inc(i), form2uuid(k.form()), Uuid{Word{(uint64_t)sym_int("value", 6) << 54 | (uint64_t)1 << 48}, Word{}}); }
static Frame root_of(const Key& k) { return OneOp<Frame>(k.id(), form2uuid(k.form())); }

static void check_at(It& i, int at, const char* what) {  // the iterator is at this row
    Key k = i.key();
    Key want = at >= 0 && at < nrows ? rows[at].k : Key::END;
    CHECKM((k.bits.first == want.bits.first) & (k.bits.second == want.bits.second), what);
    if (at >= 0 && at < nrows) { Frame m = merged(rows[at]); show("merged", m); same_ops(i.value(), m.cursor(), "iteration gives the merged values"); }
    else CHECKM(i.value().Next() != GOOD, "the end key has nothing");
}

static void iteration() {
    int writes = (int)sym_param("writes", 3), free = (int)sym_param("free", 1);
    Store s;
    CHECKM(s.Create(Uuid::NIL) == GOOD, "a store is created");
    nrows = 0;
    row_of(Key::ZERO)->changes.push_back(OneOp<Frame>(Uuid::NIL, ZERO_FORM_UUID));
    rocksmodel::folding = (int)sym_param("fold", 0);
    for (int i = 0; i < writes; ++i) {
        Key k = a_key(free);
        Row* r = row_of(k);
        Frame f = r->changes.empty() ? root_of(k) : change_of(k, i);
        show("change", f);
        CHECKM(s.Write(k, f) == GOOD, "a write succeeds");
        r->changes.push_back(f);
    }
    Frame f = change_of(Key::ZERO, 1);
    CHECKM(s.Write(Key::END, f) != GOOD, "no writes to the end key");
    It i{s};
    if (sym_choose("whole", 2)) {
        CHECKM(i.SeekTo(Key::ZERO) == GOOD, "an iterator is placed");
        for (int at = 0; at < nrows; ++at) {
            check_at(i, at, "iteration visits every key once, in order");
            ron::Status ok = i.Next();
            CHECKM(ok == (at + 1 < nrows ? GOOD : ron::Status::ENDOFINPUT), "iteration ends after the last key");
        }
        check_at(i, nrows, "after the last key comes the end key");
        REACH(nrows > writes ? "all different" : "same key");
    } else {
        Key k = a_key(free);
        bool prev = sym_choose("prev", 2);
        CHECKM(i.SeekTo(k, prev) == GOOD, "an iterator is placed");
        int at = 0;
        while (at < nrows && key_less(rows[at].k, k)) ++at;
        if (prev && !(at < nrows && key_same(rows[at].k, k))) --at;
        check_at(i, at, "an iterator is placed at the key or next to it");
        REACH(prev ? "previous" : at < nrows ? "next" : "behind all");
        if (at >= 0 && at < nrows) {
            ron::Status ok = i.Next();
            CHECKM(ok == (at + 1 < nrows ? GOOD : ron::Status::ENDOFINPUT), "iteration goes on from there");
            check_at(i, at + 1, "iteration goes on from there");
        }
    }
    CHECKM(i.Close() == GOOD, "an iterator is closed");
    CHECKM(rocksmodel::iterators == 0, "a closed iterator is released");
    CHECKM(i.Next() != GOOD, "a closed iterator is refused");
    CHECKM(i.SeekTo(Key::ZERO) != GOOD, "a closed iterator is refused");
    Key e = i.key();
    CHECKM(e == Key::END, "a closed iterator is at the end key");
    sym_observe(nrows);
}

static void closed_is_closed(Store& s, const Key& k) {
    Frame f = root_of(k), got;
    CHECKM(!s.open(), "a closed store says so");
    CHECKM(s.Write(k, f) != GOOD, "a closed store is no place to write");
    CHECKM(s.Read(k, got) != GOOD, "a closed store is no place to read");
    Store::Records rs;
    rs.emplace_back(k, f);
    CHECKM(s.Write(rs) != GOOD, "a closed store takes no batch");
    CHECKM(s.Close() != GOOD, "a closed store is closed already");
    CHECKM(s.Drop() != GOOD, "a closed store has nothing to drop");
    It i{s};
    CHECKM(i.SeekTo(Key::ZERO) != GOOD, "a closed store has nothing to iterate");
    CHECKM(i.Next() != GOOD, "a closed store has nothing to iterate");
    CHECKM(i.key() == Key::END, "a closed store has nothing to iterate");
}

static std::vector<Frame> put_in[3];
static Key shared_key;
static void check_branch(Store& s, int b, const char* what) {
    Frame got, want;
    ron::Status ok = s.Read(shared_key, got);
    CHECKM(ok == GOOD, "a branch can be read");
    show("read", got);
    CHECKM(merge(want, shared_key.form(), put_in[b]) == GOOD, "the changes merge");
    if (put_in[b].empty()) CHECKM(got.empty(), what);
    same_ops(got.cursor(), want.cursor(), what);
    int n = 0;
    It i{s};
    for (ron::Status st = i.SeekTo(Key::ZERO); st == GOOD && i.key() != Key::END; st = i.Next()) ++n;
    CHECKM(n == 1 + !put_in[b].empty(), "a branch has its own keys only");
}
static Uuid branch_id(int free) {
    Uuid id = an_id(free);
    return sym_choose("kind", 2) ? id : Uuid{id.value, Word{id.origin.payload()}};
}
// what may happen between writing and reading again
static void branches() {
    int free = (int)sym_param("free", 1), writes = (int)sym_param("writes", 3), nb = (int)sym_param("branches", 2);
    Uuid id[3] = {Uuid::NIL, Uuid::NIL, Uuid::NIL};
    shared_key = a_key(free);
    {
        Store s[3];
        CHECKM(s[0].Create(Uuid::NIL) == GOOD, "a store is created");
        for (int b = 1; b < nb; ++b) {
            id[b] = branch_id(free);
            for (int c = 1; c < b; ++c) sym_assume((id[c].value.as_u64 != id[b].value.as_u64) | (id[c].origin.as_u64 != id[b].origin.as_u64));
            s[b] = Store{s[0].db()};
            CHECKM(s[b].Create(id[b]) == GOOD, "a branch is created");
        }
        for (int b = 0; b < nb; ++b) CHECKM(s[b].open(), "a created store is open");
        if (nb > 1 && sym_choose("again", 2)) { Store t{s[0].db()}; CHECKM(t.Create(id[1]) != GOOD, "a branch cannot be created twice"); }
        for (int i = 0; i < writes; ++i) {
            int b = (int)sym_choose("branch", nb);
            Frame f = put_in[b].empty() ? root_of(shared_key) : change_of(shared_key, i + 1);
            if (sym_choose("batch", 2)) { Store::Records rs; rs.emplace_back(shared_key, f); CHECKM(s[b].Write(rs) == GOOD, "a batch succeeds"); }
            else CHECKM(s[b].Write(shared_key, f) == GOOD, "a write succeeds");
            put_in[b].push_back(f);
        }
        for (int b = 0; b < nb; ++b) check_branch(s[b], b, "branches do not see each other's data");
        CHECKM(s[0].Open(Uuid::NIL) != GOOD, "an open store cannot be opened");
        if (nb > 1 && sym_choose("drop", 2)) {
            CHECKM(s[1].Drop() == GOOD, "a branch is dropped");
            closed_is_closed(s[1], shared_key);
            for (int b = 2; b < nb; ++b) { s[b - 1] = s[b]; s[b].Close(); id[b - 1] = id[b]; put_in[b - 1] = put_in[b]; }
            --nb;
            REACH("dropped");
        }
        int order = (int)sym_choose("order", 2);
        for (int b = 0; b < nb; ++b) {
            int at = order ? nb - 1 - b : b;
            CHECKM(s[at].Close() == GOOD, "a store is closed");
            closed_is_closed(s[at], shared_key);
            if (b + 1 < nb) check_branch(s[order ? nb - 2 - b : b + 1], order ? nb - 2 - b : b + 1, "closing a branch leaves the others open");
        }
        CHECKM(!rocksmodel::locked, "the database is closed with its last branch");
    }
    if (nb == 1 && sym_choose("open", 2)) {
        Store s;
        CHECKM(s.Open(Uuid::NIL) == GOOD, "a store is opened");
        check_branch(s, 0, "a reopened store has its data");
        REACH("opened");
        sym_observe(1);
        return;
    }
    Store::Branches all;
    CHECKM(Store::OpenAll(all) == GOOD, "all branches are opened");
    CHECKM((int)all.size() == nb, "every branch is opened once");
    for (int b = 0; b < nb; ++b) {
        auto i = all.find(id[b]);
        CHECKM(i != all.end(), "a branch is opened under its own id");
        CHECKM(i->second.open(), "a branch is opened");
        check_branch(i->second, b, "a reopened branch has its data");
    }
    Frame more = change_of(shared_key, 9);
    int b = (int)sym_choose("write_to", nb);
    if (put_in[b].size()) {
        Store& s = all.find(id[b])->second;
        CHECKM(s.Write(shared_key, more) == GOOD, "a reopened branch takes writes");
        put_in[b].push_back(more);
        for (int c = 0; c < nb; ++c) check_branch(all.find(id[c])->second, c, "reopened branches do not see each other's data");
    }
    all.clear();
    CHECKM(!rocksmodel::locked, "the database is closed with its last branch");
    REACH(nb > 1 ? "branches" : "one branch");
    sym_observe(nb);
}
extern "C" void sym_main() { if (sym_param("mode", 0)) branches(); else iteration(); }
