// C11: reading, and reading out, any bytes is memory safe and ends.
#include "ops.hpp"
#include "contexts.hpp"
using namespace ron; using namespace H;

template <class C>
static void read_out(const C& c) {
    sym_observe(c.op().size());
    for (fsize_t i = 2; i < c.op().size(); ++i) {
        Atom a = c.atom(i);
        sym_observe(a.type());
        if (a.type() == STRING) {
            String s;
            String16 s16;
            CHECKM(StringSize(a) <= 128, "no more characters than bytes");
            sym_observe(ReadString(s, c, i) == OK);
            sym_observe(s.size());
            ReadString16(s16, c, a);
            Atom b = a;
            int n = 0;
            while (c.NextCodepoint(b) == OK) { ++n; CHECKM(n <= 128, "a string ends"); }
        }
    }
}

extern "C" void sym_main() {
    int n;
    unsigned char* t = make_text(n);
    Slice text{(const char*)t, (fsize_t)n};
    Cursor c{text};
    Builder b, b2;
    Uuid last;
    for (int ops = 0;; ++ops) {
        CHECKM(ops <= n, "no more ops than bytes");
        Status ok = c.Next();
        if (ok == Status::ENDOFFRAME) { REACH("end"); break; }
        if (ok != Status::OK) { CHECKM(c.Next() != Status::OK, "an error is final"); REACH("error"); break; }
        for (int i = 0;; ++i) {
            read_out(c);
            if (sym_param("copy", 1)) { b.AppendOp(c); Op o = Op::Amend(c.id(), c.ref(), c); b2.AppendOp(o); read_out(o); }
            if (!sym_istrue(c.span_rest() > 0)) break;
            if (i == 3) { REACH("long span"); sym_stop(); }
            CHECKM(c.Next() == Status::OK, "all ops of a span are read");
        }
        REACH("read");
    }
    Frame f = b.Release(), g = b2.Release();
    sym_observe(f.data().size());  // (a float amended may be spelled otherwise)
    free(t);
}
