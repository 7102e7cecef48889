// C14: ordered merges are sorted unions, whatever the number, order, grouping and repetition of the inputs.
#include "rdts.hpp"
using namespace ron; using namespace H;
static OpV ops[8];
static FORM some_form() { static const FORM F[] = {LWW_RDT_FORM, YARN_RAW_FORM, MX_RDT_FORM, META_META_FORM}; return F[sym_choose("form", 4)]; }

extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), n = (int)sym_param("n", 3), m = (int)sym_param("m", 3);
    int sub[8][8], cnt[8] = {0}, all[8], na = 0;
    Uuid id[8];
    FORM form;
    if (mode == 0 || mode == 2) {  // any subsets of n ops
        if (mode == 0) sym_ids(id, n); else for (int i = 0; i < n; ++i) id[i] = Uuid{"1ABCDEFGH0+U"}.inc(i + 1);
        form = some_form();
        for (int i = 0; i < n; ++i) {
            ops[i] = opv(id[i], i ? (mode == 2 ? id[i - 1] : id[0]) : form2uuid(form));
            if (mode == 2 && i) ops[i].v[ops[i].nv++] = chr_v(a_letter());
            if (mode == 0) { if (i) ops[i].v[ops[i].nv++] = uuid_v(Uuid{"key"}); ops[i].v[ops[i].nv++] = i == 1 ? chr_v(a_letter()) : int_v(sym_int("value", 3)); }
            int mask = (int)sym_choose("inputs", 1 << m);
            for (int j = 0; j < m; ++j) if (mask >> j & 1) sub[j][cnt[j]++] = i;
            if (mask) all[na++] = i;
        }
    } else if (mode == 1) {  // many inputs: every op in one of them, one op in two
        form = LWW_RDT_FORM;
        int twice = (int)sym_choose("twice", n), where = (int)sym_choose("also", m);
        sym_ids(id, n, 1);
        for (int i = 0; i < n; ++i) {
            ops[i] = opv(id[i], i ? id[0] : form2uuid(form), int_v(sym_int("value", 3)));
            int j = (int)sym_choose("input", m);
            for (int k = 0; k < m; ++k) if (k == j || (i == twice && k == where)) sub[k][cnt[k]++] = i;
            all[na++] = i;
        }
    } else if (mode == 4) {  // one op in every input, in any order, two inputs alike or not
        form = LWW_RDT_FORM;
        m = n;
        for (int i = 0; i < n; ++i) id[i] = Uuid::Time(Word{(uint64_t)1 << 54 | (uint64_t)(8 * i + sym_int("id", 3)) << 48 | (uint64_t)5}, Word{sym_int("origin", 6) << 48 | (uint64_t)1 << 54 | (uint64_t)7});
        int twice = (int)sym_choose("alike", 2), used = 0;
        for (int i = 0; i < n; ++i) ops[i] = opv(id[i], i ? id[0] : form2uuid(form), int_v(sym_int("value", 3)));
        for (int j = 0; j < m; ++j) {
            int i;
            if (j == 1 && twice) i = sub[0][0];
            else {
                int k = (int)sym_choose("op", n - __builtin_popcount(used));
                for (i = 0; used >> i & 1 || k--; ++i) {}
            }
            used |= 1 << i;
            sub[j][cnt[j]++] = i;
        }
        for (int i = 0; i < n; ++i) if (used >> i & 1) all[na++] = i;
    } else {  // metadata: several records under one id, with different references
        form = META_META_FORM;
        Uuid ref[4];
        sym_ids(id, 2, 1);
        sym_ids(ref, n, 1);
        // n records of each id, newest reference first
        for (int i = 0; i < 2 * n; ++i) ops[i] = opv(id[i / n], ref[n - 1 - i % n], int_v(sym_int("value", 3)));
        for (int i = 0; i < 2 * n; ++i) {
            int mask = (int)sym_choose("inputs", 1 << m);
            for (int j = 0; j < m; ++j) if (mask >> j & 1) sub[j][cnt[j]++] = i;
            if (mask && (!na || all[na - 1] / n != i / n)) all[na++] = i;
        }
    }
    std::vector<Frame> in;
    for (int j = 0; j < m; ++j) in.push_back(frame_of(ops, sub[j], cnt[j]));
    Frame out;
    CHECKM(merge(out, form, in) == Status::OK, "ordered inputs merge");
    check_frame(out, ops, all, na, "a merge is the sorted union of its inputs");
    // every order of the inputs is among the choices above; grouping and repetition:
    Frame part, again;
    std::vector<Frame> head{in[0], in[1]}, rest;
    CHECKM(merge(part, form, head) == Status::OK, "ordered inputs merge");
    rest.push_back(part);
    for (int j = 1; j < m; ++j) rest.push_back(in[j]);
    CHECKM(merge(again, form, rest) == Status::OK, "a merge result merges");
    check_frame(again, ops, all, na, "a merge does not depend on grouping and repetition");
    REACH(na == 0 ? "empty" : na == 1 ? "one op" : "many ops");
    sym_observe(out.data().size());
}
