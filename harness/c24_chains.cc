// C24: splitting an object's log into causal chains, and folding it into the object's state.
#include "rdts.hpp"
using namespace ron; using namespace H;
static OpV ops[24];
static int ref_of[24], sorted[24];
static Uuid id[24];
static bool before(int a, int b) {
    return sym_istrue((id[a].value.as_u64 < id[b].value.as_u64) | ((id[a].value.as_u64 == id[b].value.as_u64) & (id[a].origin.as_u64 < id[b].origin.as_u64)));
}
static int dfs[24], nd;
static void walk(int n, int at) {
    dfs[nd++] = at;
    for (int k = n - 1; k >= 0; --k) if (sorted[k] && ref_of[sorted[k]] == at) walk(n, sorted[k]);
}

extern "C" void sym_main() {
    int n = (int)sym_param("n", 4), spans = (int)sym_param("spans", 0);
    int array = (int)sym_choose("array", 2);
    for (int i = 0; i < n; ++i) {
        ref_of[i] = !i ? 0 : spans == 2 ? (sym_choose("ref", 2) ? i - 1 : i > 3 ? i - 3 : 0) : (int)sym_choose("ref", i);
        if (spans) id[i] = !i ? Uuid{"1ABCDEFGH+U"} : spans == 2 ? id[i - 1].inc() : sym_choose("close", 2) ? id[i - 1].inc() : id[i - 1].inc(4096);
        else {
            id[i] = Uuid::Time(Word{(uint64_t)(sym_int("time", 6) << 54 | 0x3001)}, Word{(uint64_t)(sym_int("by", 6) << 54 | 9)});
            if (i) sym_assume((id[ref_of[i]].value.as_u64 < id[i].value.as_u64));
            for (int k = 0; k < i; ++k) sym_assume((id[k].value.as_u64 != id[i].value.as_u64) | (id[k].origin.as_u64 != id[i].origin.as_u64));
        }
        ops[i] = i ? opv(id[i], id[ref_of[i]], chr_v(a_letter())) : opv(id[i], array ? RGA_FORM_UUID : LWW_FORM_UUID);
    }
    int order[24];
    for (int i = 0; i < n; ++i) order[i] = i;
    Frame log = frame_of(ops, order, n);
    int cut = (int)sym_choose("cutoff", n + 2), to = cut < n ? cut + 1 : n;  // an op, none, an op not in the log
    Uuid cutoff = cut < n ? id[cut] : cut == n ? Uuid::FATAL : Uuid{"1000000009+Z"};
    Frame::Cursors chains;
    CHECKM(SplitLogIntoChains<Frame>(chains, log, cutoff) == Status::OK, "a log is split");
    int at = 0, nc = 0;
    for (size_t k = 0; k < chains.size(); ++k) {
        Cursor c = chains[k];
        int first = at;
        do {
            CHECKM(at < to, "the chains end with the cut-off op");
            CHECKM(at == first || ref_of[at] == at - 1, "every op of a chain references the one before");
            check_op(c, ops[at], "the chains have the ops of the log, in order");
            ++at;
        } while (c.Next() == Status::OK);
        CHECKM(at == to || ref_of[at] != at - 1, "a chain goes on as long as it can");
        ++nc;
    }
    CHECKM(at == to, "the chains have all ops of the log up to the cut-off op");
    Frame state;
    CHECKM(ObjectLogToState<Frame>(state, log, cutoff) == Status::OK, "a log is folded");
    for (int i = 0; i < to; ++i) {  // by id
        int k = i;
        for (; k > 0 && before(i, sorted[k - 1]); --k) sorted[k] = sorted[k - 1];
        sorted[k] = i;
    }
    nd = 0;
    if (array) walk(to, 0);
    check_frame(state, ops, array ? dfs : sorted, to, "a log folds into the merge of its ops");
    REACH(array ? "array" : "ordered");
    REACH(nc > 1 ? "chains" : "one chain");
    sym_observe(nc);
}
