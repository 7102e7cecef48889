// C13: terms, chunk boundaries and frame boundaries are kept.
#include "grammar.hpp"
#ifdef SPLIT
#define OWN_CONTEXTS
struct Ctx { const char *a, *b, *c; };
static const Ctx CTX[] = {
    {"", "", nullptr},
    {"@1:2 'b';\n.\n", "@3 4;", nullptr},
    {"@1+A :2 'b'", ".\n5,\n.\n@2!", nullptr},
    {"@1;.", "@1!.\n", nullptr},
    {"@1 'a", "';\n.\n \n@2 'b'(2)?\n.\n", nullptr},
    {"@1;", "@2 6;", ".\n@3;.\n"},
};
static const int NCTX = sizeof(CTX) / sizeof(CTX[0]);
#endif
#include "contexts.hpp"
using namespace ron; using namespace H;

#ifdef SPLIT
extern "C" void sym_main() {
    int n;
    unsigned char* t = make_text(n);
    std::vector<TextFrame> parts;
    Frame whole{Slice{(const char*)t, (fsize_t)n}};
    Ref r{t, n};
    r.multi = true;
    // the text has to be well-formed
    ROp o;
    int w, ops = 0;
    while ((w = r.next(o)) == R_OP) { if (!sym_istrue(o.count <= 3)) sym_stop(); ++ops; }
    if (w == R_ERR) { REACH("malformed"); return; }
    CHECKM(whole.Split(parts) == Status::OK, "a text is split");
    CHECKM(parts.size() >= 1 && parts.size() <= (size_t)n + 1, "a text is split into pieces");
    Ref q{t, n};
    q.multi = true;
    for (size_t i = 0; i < parts.size(); ++i) {
        Cursor c{parts[i]};
        for (;;) {
            Status ok = c.Next();
            CHECKM(ok == Status::OK || ok == Status::ENDOFFRAME, "every piece of a text is readable");
            if (ok != Status::OK) break;
            CHECKM(q.next(o) == R_OP, "the pieces have no more ops than the text");
            for (uint64_t k = 0;; ++k) {
                CHECKM(same(c.id(), o.id.inc(k)) && c.op().size() == (fsize_t)o.na + 2, "the pieces have the ops of the text");
                CHECKM(same(c.ref(), k ? o.id.inc(k - 1) : o.ref), "the pieces have the ops of the text");
                CHECKM(c.term() == (sym_istrue(k + 1 == o.count) ? o.term : REDUCED), "the pieces have the terms of the text");
                uint64_t d = 0;
                for (int j = 0; j < o.na; ++j) {
                    CHECKM(c.op()[j + 2].type() == o.a[j].kind, "the pieces have the values of the text");
                    d |= ref_value_diff(c, j + 2, o.a[j], o.span == 2 && j == o.na - 1, (int)k);
                }
                CHECKM(d == 0, "the pieces have the values of the text");
                if (sym_istrue(k + 1 == o.count)) break;
                CHECKM(c.Next() == Status::OK, "the pieces have the ops of the text");
            }
        }
    }
    CHECKM(q.next(o) == R_END, "the pieces have all ops of the text");
    REACH(parts.size() > 1 ? "pieces" : "one piece");
    sym_observe(parts.size()); sym_observe(ops);
}
#else
// a copy of any frame has the same ops with the same terms
static void check_copy(const Frame& f, const Frame& g, const char* what) {
    Cursor c{f}, d{g};
    for (;;) {
        Status ok = c.Next();
        Cursor ahead = c;
        bool last = ok == Status::OK && ahead.Next() != Status::OK;
        CHECKM(d.Next() == ok, what);
        if (ok != Status::OK) break;
        check_same_op(c, d, what);
        // a frame is always ended, so an open last chunk is the one thing a copy closes
        CHECKM(c.term() == d.term() || (last && c.term() == REDUCED), "a copy keeps the chunk boundaries and their terms");
    }
}
extern "C" void sym_main() {
    if (sym_param("mode", 0) == 0) {
        int n;
        unsigned char* t = make_text(n);
        Frame f{Slice{(const char*)t, (fsize_t)n}};
        Cursor c{f};
        Status ok;
        while ((ok = c.Next()) == Status::OK) if (!sym_istrue(c.span_rest() < 3)) sym_stop();
        if (ok != Status::ENDOFFRAME) { REACH("malformed"); return; }
        Builder b;
        AppendFrame(b, f);
        Frame g = b.Release();
        check_copy(f, g, "a copied frame has the ops of the original");
        REACH("copied");
        sym_observe(g.data().size());
        return;
    }
    // ops with every sequence of terms; ids, references, values that compress or not
    int n = (int)sym_param("max", 3);
    String text;
    OpV ops[6];
    TERM terms[6];
    Builder b;
    Uuid id{"1A+B"};
    for (int i = 0; i < n; ++i) {
        Uuid prev = id;
        if (i) id = sym_choose("id", 2) ? prev.inc() : prev.inc(4096);
        ops[i] = opv(id, i ? prev : Uuid{"lww"});
        switch (sym_choose("value", 4)) {
            case 0: break;
            case 1: ops[i].v[ops[i].nv++] = uuid_v(Uuid{"5"}); break;
            case 2: { Chr c; c.n = 1; c.cp = c.b[0] = 0x60 | (unsigned)sym_int("letter", 4); ops[i].v[ops[i].nv++] = chr_v(c); break; }
            case 3: ops[i].v[ops[i].nv++] = int_v(3); break;
        }
        static const TERM T[] = {REDUCED, RAW, HEADER, QUERY};
        terms[i] = T[sym_choose("term", i + 1 < n ? 4 : 3) + (i + 1 < n ? 0 : 1)];
        b.AppendOp(make(ops[i]));
        if (terms[i] != REDUCED) b.EndChunk(terms[i]);
    }
    Frame f = b.Release();
    Builder b2;
    AppendFrame(b2, f);
    Frame g = b2.Release();
    Builder b3;
    Cursor e{f};
    while (e.Next()) { b3.AppendOp(Op::Amend(e.id(), e.ref(), e)); if (e.term() != REDUCED) b3.EndChunk(e.term()); }
    Frame h = b3.Release();
    const Frame* fs[3] = {&f, &g, &h};
    for (int k = 0; k < 3; ++k) {
        Cursor c{*fs[k]};
        for (int i = 0; i < n; ++i) {
            CHECKM(c.Next() == Status::OK, "all ops are kept");
            check_op(c, ops[i], "ops are kept");
            CHECKM(c.term() == terms[i], k ? "a copied op keeps its term" : "an op has the term written");
        }
        CHECKM(c.Next() == Status::ENDOFFRAME, "no more ops");
    }
    REACH("terms");
    sym_observe(f.data().size());
}
#endif
