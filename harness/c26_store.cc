// C26: reading a key gives the merge of all changes written to it, however the database
// folds them; batches are applied entirely or not at all.
#include "rdts.hpp"
#include "rocks_model.hpp"
#include "db/rocks_store.hpp"
using namespace ron; using namespace H;
using Store = RocksDBStore<TextFrame>;
static const FORM FORMS_USED[] = {LWW_RDT_FORM, RGA_RDT_FORM, LOG_RAW_FORM, ZERO_RAW_FORM, MAX_RDT_FORM, META_META_FORM, MX_RDT_FORM, YARN_RAW_FORM};
static OpV ops[6];
static int n;

static void pool(FORM form) {  // n ops an object of the type may have
    Uuid id[6];
    sym_ids(id, n, (int)sym_param("free", 2));
    for (int i = 0; i < n; ++i) {
        Uuid ref = form == META_META_FORM ? META_FORM_UUID : i ? id[form == RGA_RDT_FORM ? sym_choose("parent", i) : 0] : form2uuid(form);
        ops[i] = opv(id[i], ref);
        if (form == MAX_RDT_FORM) { if (i) ops[i].v[ops[i].nv++] = int_v(sym_int("value", 16)); }
        else if (i) ops[i].v[ops[i].nv++] = chr_v(a_letter());
    }
}
static Frame a_change(int kinds) {
    Builder b;
    uint64_t kind = sym_choose("change", kinds + n);
    if (kind < (uint64_t)n) b.AppendOp(make(ops[kind]));
    else if (kind > (uint64_t)n) { b.AppendOp(make(ops[kind - n - 1])); b.AppendOp(make(ops[kind - n])); }
    Frame f = b.Release();  // (n: an empty one)
    show("change", f);
    return f;
}
static void check_read(Store& s, Key k, FORM form, const std::vector<Frame>& written, const char* what) {
    Frame got, want;
    ron::Status ok = s.Read(k, got), must = merge(want, form, written);
    show("read", got);
    show("merged", want);
    CHECKM((ok == ron::Status::OK) == (must == ron::Status::OK), "a read succeeds if the changes can be merged");
    if (must != ron::Status::OK) { REACH("no merge"); return; }
    Cursor a{got}, b{want};
    for (;;) {
        ron::Status x = a.Next(), y = b.Next();
        CHECKM(x == y, what);
        if (x != ron::Status::OK) break;
        check_same_op(a, b, what);
        if (form == LOG_RAW_FORM) CHECKM(a.term() == b.term(), what);
    }
    if (written.size() > 2) REACH("many"); else if (written.size()) REACH("written");
}

extern "C" void sym_main() {
    n = (int)sym_param("n", 2);
    int writes = (int)sym_param("writes", 3);
    bool second = sym_param("keys", 1) > 1;
    int mode = (int)sym_param("mode", 0);  // 0 folding, 1 batches, 2 failures
    FORM form = FORMS_USED[sym_choose("form", sym_param("forms", 8))];
    pool(form);
    Store s;
    CHECKM(s.Create(Uuid::NIL) == ron::Status::OK, "a store is created");
    Key key[3];
    key[0] = Key{ops[0].id, form};
    // another object or another record of the same one
    key[1] = sym_choose("other_key", 2) ? Key{ops[0].id, form == LWW_RDT_FORM ? LOG_RAW_FORM : LWW_RDT_FORM} : Key{ops[n - 1].id.inc(), form};
    key[2] = Key{ops[0].id.inc(64), form};
    std::vector<Frame> written[2];
    rocksmodel::folding = mode == 0 || sym_param("fold", 0);
    int done = 0;
    while (done < writes) {
        int batch = mode ? (int)sym_choose("batch", writes - done + 1) : 0;  // 0: a single write
        rocksmodel::may_fail = mode == 2;
        rocksmodel::failed = false;
        if (!batch) {
            int at = second ? (int)sym_choose("key", 2) : 0;
            Frame f = a_change((int)sym_param("kinds", 1));
            ron::Status ok = s.Write(key[at], f);
            CHECKM((ok == ron::Status::OK) == !rocksmodel::failed, "a write succeeds unless the database fails");
            if (!rocksmodel::failed) written[at].push_back(f); else REACH("failed write");
            ++done;
        } else {
            Store::Records rs;
            int ats[4];
            int bad = mode == 1 && sym_choose("end_key", 2) ? (int)sym_choose("end_at", batch) : -1;
            for (int i = 0; i < batch; ++i, ++done) {
                ats[i] = second ? (int)sym_choose("key", 2) : 0;
                rs.emplace_back(i == bad ? Key::END : key[ats[i]], a_change(i == bad ? 0 : (int)sym_param("kinds", 1)));
            }
            ron::Status ok = s.Write(rs);
            bool applied = bad < 0 && !rocksmodel::failed;
            CHECKM((ok == ron::Status::OK) == applied, "a batch is refused if it writes to the end key, else it succeeds unless the database fails");
            if (applied) { for (int i = 0; i < batch; ++i) written[ats[i]].push_back(rs[i].second); if (batch > 1) REACH("batch"); }
            else if (bad >= 0) REACH("refused batch"); else REACH("failed batch");
        }
    }
    rocksmodel::may_fail = false;
    check_read(s, key[0], key[0].form(), written[0], "a read gives the merge of all changes");
    if (second) check_read(s, key[1], key[1].form(), written[1], "a read gives the merge of all changes to that key only");
    Frame none;
    none.swap(*new String("@1+A :lww;"));
    CHECKM(s.Read(key[2], none) == ron::Status::OK, "an unwritten key can be read");
    CHECKM(none.empty(), "an unwritten key has nothing");
    none.swap(*new String("@1+A :lww;"));
    CHECKM(s.Read(Key::END, none) == ron::Status::OK, "the end key can be read");
    CHECKM(none.empty(), "the end key has nothing");
    sym_observe(written[0].size() * 4 + written[1].size());
}
