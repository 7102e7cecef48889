// Replicated data types: symbolic ordered ids, input frames, checking what a merge made.
#ifndef H_RDTS
#define H_RDTS
#include "ops.hpp"
#include "rdt/rdt.hpp"
namespace H {
using Cursors = Frame::Cursors;
// event ids in ascending order: any 9 leading digits of value and origin, never consecutive
inline void sym_ids(Uuid* id, int n, int free_digits = 9) {
    for (int i = 0; i < n; ++i) {
        uint64_t v = 1, o = 1;
        for (int k = 0; k < 8; ++k) { v = v << 6 | (k < free_digits ? sym_int("id", 6) : 0); o = o << 6 | (k < free_digits ? sym_int("origin", 6) : 0); }
        id[i] = Uuid::Time(Word{v << 6 | 5}, Word{o << 6 | 7});
        if (i) sym_assume((id[i - 1].value.as_u64 < id[i].value.as_u64) | ((id[i - 1].value.as_u64 == id[i].value.as_u64) & (id[i - 1].origin.as_u64 < id[i].origin.as_u64)));
    }
}
inline Chr a_letter(const char* n = "letter") { Chr c; c.n = 1; c.cp = c.b[0] = 0x60 | (unsigned)sym_int(n, 4); return c; }
#ifdef NATIVE_REPLAY
}
#include <cstdio>
namespace H {
inline void show(const char* what, const Frame& f) { fprintf(stderr, "%s: %s\n", what, f.data().c_str()); }
#else
inline void show(const char*, const Frame&) {}
#endif
inline Frame frame_of(const OpV* ops, const int* order, int n) {
    Builder b;
    for (int i = 0; i < n; ++i) b.AppendOp(make(ops[order[i]]));
    Frame f = b.Release();
    show("input", f);
    return f;
}
inline void check_frame(const Frame& f, const OpV* ops, const int* order, int n, const char* what) {
    show(what, f);
    Cursor c{f};
    for (int i = 0; i < n; ++i) {
        CHECKM(c.Next() == Status::OK, what);
        check_op(c, ops[order[i]], what);
    }
    CHECKM(c.Next() == Status::ENDOFFRAME, what);
}
inline Status merge(Frame& to, FORM form, const std::vector<Frame>& in) {
    Cursors cs;
    for (auto& f : in) { cs.emplace_back(f); if (!cs.back().Next()) cs.pop_back(); }
    return MergeCursors<Frame>(to, form, cs);
}
}
#endif
