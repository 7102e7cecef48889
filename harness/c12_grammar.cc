// C12: every text is accepted, read or refused exactly as the grammar says.
#include "grammar.hpp"
#include "contexts.hpp"
using namespace ron; using namespace H;


extern "C" void sym_main() {
    int n;
    unsigned char* exact = make_text(n);
    Ref r{exact, n};
    Cursor c{Slice{(const char*)exact, (fsize_t)n}};
    for (int ops = 0;; ++ops) {
        ROp o;
        int want = r.next(o);
        Status ok = c.Next();
        sym_observe(want); sym_observe(c.term());
        if (want == R_END) {
            CHECKM(ok == Status::ENDOFFRAME, "a well-formed frame ends with the end-of-frame result");
            REACH(ops ? "frame" : "empty frame");
            break;
        }
        if (want == R_ERR) {
            CHECKM(ok != Status::OK, "an op is read out of a text that has none");
            CHECKM(ok != Status::ENDOFFRAME, "a malformed text is reported");
            ok = c.Next();
            CHECKM(ok != Status::OK && ok != Status::ENDOFFRAME, "a malformed text stays reported");
            REACH(ops ? "error after an op" : "error");
            break;
        }
        CHECKM(ok == Status::OK, "a well-formed op is read");
        uint64_t left = o.count - 1;
        for (int i = 0;; ++i) {
            CHECKM(c.op().size() == (fsize_t)o.na + 2, "an op has the values spelled");
            Uuid id = o.id.inc(i), ref = i ? o.id.inc(i - 1) : o.ref;
            CHECKM(same(c.id(), id), "an op has the id spelled or implied");
            CHECKM(same(c.ref(), ref), "an op has the reference spelled or implied");
            uint64_t d = 0;
            for (int j = 0; j < o.na; ++j) {
                CHECKM(c.op()[j + 2].type() == o.a[j].kind, "a value has the type spelled");
                d |= ref_value_diff(c, j + 2, o.a[j], o.span == 2 && j == o.na - 1, i);
            }
            CHECKM(d == 0, "a value is the one spelled");
            CHECKM(c.span_rest() == left - i, "a span has as many ops as it spells");
            if (sym_istrue(left == (uint64_t)i)) { CHECKM(c.term() == o.term, "an op has the term spelled"); break; }
            CHECKM(c.term() == REDUCED, "a span's term is its last op's");
            if (i == 3) { REACH("long span"); sym_stop(); }
            CHECKM(c.Next() == Status::OK, "all ops of a span are read");
        }
        if (o.count > 1) REACH("span");
    }
}
