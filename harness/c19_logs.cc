// C19: logs concatenate, plain records are replaced, the data type of a merge is the one its inputs name.
#include "rdts.hpp"
using namespace ron; using namespace H;
static OpV ops[40];
static TERM terms[40];

static void merges() {
    int m = (int)sym_param("m", 2), most = (int)sym_param("ops", 2), n = 0, first[16];
    bool lite = sym_param("lite", 0);
    static const FORM F[] = {LOG_RAW_FORM, ZERO_RAW_FORM, ERROR_NO_FORM};
    FORM form = F[sym_choose("form", 3)];
    Uuid id = Uuid::Time(Word{(uint64_t)(sym_int("time", 6) << 54 | 0x2108421084200)}, Word{(uint64_t)(sym_int("origin", 6) << 54 | 5)});
    std::vector<Frame> in;
    int last = 0;  // plain records: the last input that has anything
    for (int j = 0; j < m; ++j) {
        first[j] = n;
        int k = (int)sym_choose("count", most + 1);
        Builder b;
        for (int i = 0; i < k; ++i, ++n) {
            Uuid prev = id;
            if (n) id = sym_choose("id", 2) ? prev.inc() : prev.inc(sym_choose("far", 1 + sym_param("far", 0)) ? 4096 : 2);
            ops[n] = opv(id, n ? prev : form2uuid(form == ERROR_NO_FORM ? LOG_RAW_FORM : form));
            if (lite || sym_choose("value", 2)) ops[n].v[ops[n].nv++] = chr_v(a_letter());
            static const TERM T[] = {REDUCED, RAW, HEADER, QUERY};
            terms[n] = lite ? (i + 1 < k ? REDUCED : RAW) : i + 1 < k ? T[sym_choose("term", 2)] : T[1 + sym_choose("last_term", 3)];
            b.AppendOp(make(ops[n]));
            if (terms[n] != REDUCED) b.EndChunk(terms[n]);
        }
        in.push_back(b.Release());
        show("input", in.back());
        if (k) last = j;
    }
    first[m] = n;
    int from = form == LOG_RAW_FORM ? 0 : first[last], to = form == LOG_RAW_FORM ? n : first[last + 1];
    Frame out;
    CHECKM(merge(out, form, in) == Status::OK, "logs and records merge");
    show("merged", out);
    Cursor c{out};
    for (int i = from; i < to; ++i) {
        CHECKM(c.Next() == Status::OK, form == LOG_RAW_FORM ? "a log has the ops of all inputs" : "a record is that of the last input");
        check_op(c, ops[i], form == LOG_RAW_FORM ? "a log has the ops of all inputs" : "a record is that of the last input");
        CHECKM(c.term() == terms[i], "chunks and their kinds are kept");
    }
    CHECKM(c.Next() == Status::ENDOFFRAME, "a merge adds nothing");
    REACH(n == 0 ? "empty" : form == LOG_RAW_FORM ? "log" : "record");
    sym_observe(out.data().size());
}

static void types() {  // any type number
    uint8_t f = (uint8_t)sym_int("number", 8);
    Uuid id{"1ABCDEFGH+U"};
    ops[0] = opv(id, Uuid{"log"});
    ops[1] = opv(id.inc(), id, chr_v(a_letter()));
    int order[2] = {0, 1};
    std::vector<Frame> in{frame_of(ops, order, 2), frame_of(ops, order, 2)};
    Frame out;
    Status ok = merge(out, FORM(f), in);
    static const uint8_t KNOWN[] = {ZERO_RAW_FORM, YARN_RAW_FORM, LOG_RAW_FORM, META_META_FORM, LWW_RDT_FORM, RGA_RDT_FORM, MX_RDT_FORM, MAX_RDT_FORM, ERROR_NO_FORM};
    int known = 0;
    for (uint8_t k : KNOWN) known |= f == k;
    if (sym_istrue(known)) {
        CHECKM(ok == Status::OK, "types with a merge are merged");
        REACH("merged");
    } else {
        CHECKM(ok == Status::NOT_IMPLEMENTED, "types without a merge are refused");
        CHECKM(out.empty(), "a refused merge yields nothing");
        REACH("refused");
    }
}

static void names() {  // the type the inputs name
    int m = (int)sym_param("m", 3), named = -1, conflict = 0;
    int kind[5];
    Uuid id{"1ABCDEFGH+U"}, ref[5];
    std::vector<Frame> in;
    for (int j = 0; j < m; ++j) {
        kind[j] = (int)sym_choose("reference", 5);
        switch (kind[j]) {
            case 0: ref[j] = Uuid{"log"}; break;
            case 1: ref[j] = Uuid{"lww"}; break;
            case 2: ref[j] = Uuid{Word{(uint64_t)(sym_int("name", 6) << 54 | 0x3000)}, Word{0UL}}; break;       // some name
            case 3: ref[j] = Uuid::Time(Word{(uint64_t)(sym_int("time", 6) << 54 | 0x1000)}, Word{(uint64_t)5}); break;  // an event
            case 4: ref[j] = Uuid{"meta"}; break;
        }
        ops[j] = opv(id.inc(j + 1), ref[j], chr_v(a_letter()));
        int o = j;
        in.push_back(frame_of(ops, &o, 1));
        if (kind[j] == 3) continue;
        if (named < 0) named = j;
        else conflict |= !same(ref[named], ref[j]);
    }
    Frame out;
    Status ok = MergeFrames<Frame>(out, in);
    show("merged", out);
    if (sym_istrue(conflict)) {
        CHECKM(ok != Status::OK, "inputs of different types are refused");
        CHECKM(out.empty(), "a refused merge yields nothing");
        REACH("conflict");
        return;
    }
    CHECKM(ok == Status::OK, "inputs of one type merge");
    Cursor c{out};
    // logs and (here, as the ids ascend) ordered types have all ops, plain and unknown ones the last
    bool all = named >= 0 && kind[named] != 2;
    for (int j = all ? 0 : m - 1; j < m; ++j) {
        CHECKM(c.Next() == Status::OK, "the merge is that of the type named");
        check_op(c, ops[j], "the merge is that of the type named");
    }
    CHECKM(c.Next() == Status::ENDOFFRAME, "the merge is that of the type named");
    REACH(named < 0 ? "no type" : all ? "type" : "unknown type");
}
extern "C" void sym_main() {
    switch (sym_param("mode", 0)) { case 0: merges(); break; case 1: types(); break; default: names(); }
}
