// C15: merging an array (causal tree) with patches: every op once, after its parent, siblings newest first.
#include "rdts.hpp"
using namespace ron; using namespace H;
static OpV ops[8];
static int par[8];
static bool has(const int* sub, int cnt, int op) { for (int k = 0; k < cnt; ++k) if (sub[k] == op) return true; return false; }
static int dfs[8], nd;
static void walk(int n, int at) { dfs[nd++] = at; for (int i = n - 1; i > at; --i) if (par[i] == at) walk(n, i); }
// what a merge should give: the ops in order, or -1 if some input cannot be attached
static int expected(int n, int m, int sub[][8], const int* cnt, int* out) {
    bool in[8] = {false}, done[8] = {false};
    for (int again = 1; again;) {
        again = 0;
        for (int j = 0; j < m; ++j) if (!done[j] && (!cnt[j] || sub[j][0] == 0 || in[par[sub[j][0]]])) {
            done[j] = again = true;
            for (int k = 0; k < cnt[j]; ++k) in[sub[j][k]] = true;
        }
    }
    for (int j = 0; j < m; ++j) if (!done[j]) return -1;
    int no = 0;
    for (int k = 0; k < n; ++k) if (in[dfs[k]]) out[no++] = dfs[k];
    return no;
}

extern "C" void sym_main() {
    int n = (int)sym_param("n", 4), m = (int)sym_param("m", 3);
    int sub[8][8], cnt[8] = {0}, out[8];
    Uuid id[8];
    if (sym_param("spans", 0)) { id[0] = Uuid{"1ABCDEFGH+U"}; for (int i = 1; i < n; ++i) id[i] = id[i - 1].inc(sym_choose("gap", 2) + 1); }
    else if (sym_param("single", 0)) for (int i = 0; i < n; ++i) id[i] = Uuid::Time(Word{(uint64_t)1 << 54 | (uint64_t)(8 * i + sym_int("id", 3)) << 48 | (uint64_t)5}, Word{sym_int("origin", 6) << 48 | (uint64_t)1 << 54 | (uint64_t)7});
    else sym_ids(id, n, 1);
    for (int i = 0; i < n; ++i) {
        par[i] = i ? (int)sym_choose("parent", i) : 0;
        ops[i] = i ? opv(id[i], id[par[i]], chr_v(a_letter())) : opv(id[0], RGA_FORM_UUID);
    }
    nd = 0;
    walk(n, 0);
    int masks[8];
    if (sym_param("single", 0)) {  // every op in an input of its own
        int used = 0;
        m = n;
        for (int i = 0; i < n; ++i) {
            int k = (int)sym_choose("input", n - __builtin_popcount(used)), j = 0;
            for (; used >> j & 1 || k--; ++j) {}
            used |= masks[i] = 1 << j;
        }
    } else for (int i = 0; i < n; ++i) masks[i] = i ? (int)sym_choose("inputs", 1 << m) : 1 + (int)sym_choose("root_in", (1 << m) - 1);
    for (int k = 0; k < n; ++k) for (int j = 0; j < m; ++j) if (masks[dfs[k]] >> j & 1) sub[j][cnt[j]++] = dfs[k];
    for (int j = 0; j < m; ++j) {  // a tree, or a patch attached to one op
        int at = -1;
        for (int k = 0; k < cnt[j]; ++k) {
            int i = sub[j][k];
            if (!i || has(sub[j], cnt[j], par[i])) continue;
            if (sub[j][0] == 0 || (at != -1 && at != par[i])) sym_stop();
            at = par[i];
        }
    }
    std::vector<Frame> in;
    for (int j = 0; j < m; ++j) in.push_back(frame_of(ops, sub[j], cnt[j]));
    Frame res;
    int no = expected(n, m, sub, cnt, out);
    Status ok = merge(res, RGA_RDT_FORM, in);
    if (no < 0) {
        CHECKM(ok == Status::CAUSEBREAK, "patches that cannot be attached are reported");
        CHECKM(res.empty(), "a failed merge yields nothing");
        REACH("unattached");
        return;
    }
    CHECKM(ok == Status::OK, "a tree and its patches merge");
    check_frame(res, ops, out, no, "every op once, after its parent, siblings newest first");
    // grouping and repetition: merge the first two, then all with the result; every order of the inputs is among the choices above
    int head = expected(n, 2, sub, cnt, out);
    if (head >= 0 && (sub[0][0] == 0 || sub[1][0] == 0) && cnt[0] && cnt[1]) {
        std::vector<Frame> two{in[0], in[1]}, rest;
        Frame part, again;
        CHECKM(merge(part, RGA_RDT_FORM, two) == Status::OK, "a tree and its patches merge");
        check_frame(part, ops, out, head, "every op once, after its parent, siblings newest first");
        rest.push_back(part);
        for (int j = 1; j < m; ++j) rest.push_back(in[j]);
        CHECKM(merge(again, RGA_RDT_FORM, rest) == Status::OK, "a merge result merges");
        no = expected(n, m, sub, cnt, out);
        check_frame(again, ops, out, no, "a merge does not depend on grouping and repetition");
        REACH("grouped");
    }
    REACH(no == 1 ? "root" : "tree");
    sym_observe(res.data().size());
}
