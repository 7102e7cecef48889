// C10: what a builder was given is what a cursor reads, however it was compressed.
#include "ops.hpp"
using namespace ron; using namespace H;

static Uuid event(const char* n) {  // an event id with full-length words
    uint64_t v = digits(n, 10), o = digits(n, 10);
    sym_assume(((v & 63) != 0) & ((o & 63) != 0));
    return Uuid::Time(Word{v}, Word{o});
}
static Chr a_char() {  // lite: a letter
    if (!sym_param("lite", 0)) return char_of(0);
    Chr c;
    c.n = 1;
    c.cp = c.b[0] = 0x60 | (unsigned)sym_int("letter", 4);
    return c;
}
static OpV ops[128];
static int n;

static void run(const char* what) {
    bool ends = sym_param("chunks", 0);
    Builder b;
    for (int i = 0; i < n; ++i) {
        b.AppendOp(make(ops[i]));
        if (ends && i + 1 < n && sym_choose("chunk_ends", 2)) b.EndChunk();
    }
    Frame f = b.Release();
    Cursor c{f};
    Builder b2;
    for (int i = 0; i < n; ++i) {
        CHECKM(c.Next() == Status::OK, "a written op is readable");
        check_op(c, ops[i], what);
        b2.AppendOp(c);
    }
    CHECKM(c.Next() == Status::ENDOFFRAME, "no more ops than were written");
    Frame g = b2.Release();
    Cursor d{g};
    for (int i = 0; i < n; ++i) {
        CHECKM(d.Next() == Status::OK, "a re-written op is readable");
        check_op(d, ops[i], "a re-written frame has the same content");
    }
    CHECKM(d.Next() == Status::ENDOFFRAME, "a re-written frame has no more ops");
    // by way of unpacked ops
    Cursor e{f};
    Builder b3;
    for (int i = 0; i < n; ++i) { e.Next(); b3.AppendOp(Op::Amend(e.id(), e.ref(), e)); }
    Frame h = b3.Release();
    CHECKM(same_str(g.data(), h.data()) || ends, "the same ops give the same frame");
    sym_observe(g.data().size());
}

extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), max = (int)sym_param("max", 3);
    if (mode == 0) {  // any ids and references
        n = max;
        Uuid X = Uuid{"5"}, Y = Uuid{"name"};
        for (int i = 0; i < n; ++i) {
            Uuid id = event("id"), ref = event("ref");
            // numbers and names of any length are C01's; here all kinds
            if (i == 1) { id.origin.as_u64 ^= sym_int("version", 2) << 60; id.value.as_u64 |= sym_int("variety", 4) << 60; }
            ops[i] = opv(id, ref);
            switch (sym_choose("value", 4)) {
                case 0: break;
                case 1: ops[i].v[ops[i].nv++] = uuid_v(X); break;
                case 2: ops[i].v[ops[i].nv++] = str_v("a"); break;
                case 3: ops[i].v[ops[i].nv++] = int_v(i); break;
            }
        }
        run("an op has its id, reference and values");
        REACH("ids");
        return;
    }
    if (mode == 1) {  // runs: ids, references and values repeat or not
        n = max;
        Uuid id{"1A+B"};
        Uuid X = Uuid{"5"}, Y = Uuid{"1X+Y"};
        for (int i = 0; i < n; ++i) {
            Uuid prev = id;
            int jump = i ? (int)sym_choose("id", 3) : 2;
            id = jump == 0 ? prev.inc() : jump == 1 ? Uuid{Word{prev.value.as_u64 + 64}, prev.origin} : i ? Uuid{"1A+C"}.inc(i * 4096) : id;
            Uuid ref = i == 0 ? Uuid{"lww"} : sym_choose("ref", 2) ? Uuid{"1A+B"} : prev;
            if (i && jump == 2 && ref == prev) sym_assume(0);
            ops[i] = opv(id, ref);
            V* v = ops[i].v;
            int& k = ops[i].nv;
            switch (sym_choose("values", 9)) {
                case 0: break;
                case 1: v[k++] = uuid_v(X); break;
                case 2: v[k++] = uuid_v(Y); break;
                case 3: v[k++] = chr_v(a_char()); break;
                case 4: v[k++] = chr_v(char_of(3)); break;
                case 5: v[k++] = str_v(""); break;
                case 6: v[k++] = str_v("ab"); break;
                case 7: v[k++] = int_v(7); break;
                case 8: v[k++] = chr_v(a_char()); v[k++] = uuid_v(X); break;
            }
        }
        run("an op of a run has its id, reference and values");
        REACH("runs");
        return;
    }
    // long runs of the same kind
    n = (int)sym_choose("n", max) + 1;
    Uuid id{Word{digits("id", 10)}, Word{Uuid{"1A+B"}.origin}};
    sym_assume((id.value.as_u64 & 63) != 0);
    sym_assume(id.value.as_u64 < Word::MAX_VALUE - 64);
    int kind = (int)sym_choose("kind", 4);
    if (kind == 2 && n > (int)sym_param("chars", 3)) sym_assume(0);
    for (int i = 0; i < n; ++i) {
        ops[i] = opv(id.inc(i), i ? id.inc(i - 1) : Uuid{"rga"});
        V* v = ops[i].v;
        int& k = ops[i].nv;
        if (kind == 0) v[k++] = uuid_v(Uuid{"5+5"});
        if (kind == 1) v[k++] = chr_v(a_char());
        if (kind == 2) v[k++] = chr_v(char_of((int)sym_choose("class", 2)));
        if (kind == 3) v[k++] = uuid_v(i < n - 1 ? Uuid{"7"} : Uuid{"8"});
    }
    run("an op of a span has its id, reference and values");
    REACH(n == 1 ? "single" : "span");
}
