// C01: UUID text round trip, canonical form, uniqueness.
#include "common.hpp"
using namespace ron; using namespace H;
extern "C" void sym_main() {
    uint64_t mode = sym_param("mode", 0);
    if (mode == 0) {  // value -> text -> value, all 126 bits
        Uuid u = sym_uuid("u");
        String t = u.str();
        CHECKM(t.size() <= 23, "length bound");
        Uuid r{t};
        CHECKM(same(u, r), "parse(str(u)) == u (hence distinct values have distinct texts)");
        Uuid q{Slice{t}};
        CHECKM(same(u, q), "parse(Slice(str(u))) == u");
        String t2;
        u.write_base64(t2);
        bool eq = t == t2;
        CHECKM(eq, "str() and write_base64() agree");
        observe(u); observe(t);
        if (t.size() == 23) REACH("longest");
        if (t.size() == 1) REACH("shortest");
    } else if (mode == 1) {  // accepted text -> value -> canonical text
        // [v/]value[sep origin], each word up to `w` symbolic digits
        int w = (int)sym_param("w", 10);
        int lv = 1 + (int)sym_choose("lv", w), lo = (int)sym_choose("lo", w + 1);
        bool var = sym_choose("var", 2);
        String t;
        uint64_t vr = 0, vs = 0, val = 0, ori = 0, dv[10], dor[10];
        if (var) { vr = sym_int("variety", 4); t.push_back(BASE_PUNCT[vr]); t.push_back('/'); }
        for (int i = 0; i < lv; ++i) { dv[i] = sym_int("v", 6); t.push_back(BASE_PUNCT[dv[i]]); }
        if (lo) {
            vs = sym_int("version", 2);
            t.push_back(UUID_PUNCT[vs]);
            for (int i = 0; i < lo; ++i) { dor[i] = sym_int("o", 6); t.push_back(BASE_PUNCT[dor[i]]); }
        }
        for (int i = 0; i < 10; ++i) { val = val << 6 | (i < lv ? dv[i] : 0); ori = ori << 6 | (i < lo ? dor[i] : 0); }
        Uuid u{t};
        CHECKM(u.value.as_u64 == (val | vr << 60), "value as spelled");
        CHECKM(u.origin.as_u64 == (ori | vs << 60), "origin as spelled");
        // canonical form spelled out independently
        String c;
        if (sym_istrue(vr != 0)) { c.push_back(BASE_PUNCT[vr]); c.push_back('/'); }
        int nv = lv; while (nv > 1 && sym_istrue(dv[nv - 1] == 0)) --nv;
        for (int i = 0; i < nv; ++i) c.push_back(BASE_PUNCT[dv[i]]);
        int no = lo; while (no > 1 && sym_istrue(dor[no - 1] == 0)) --no;
        if (lo && sym_istrue((vs != 0) | (ori != 0))) {
            c.push_back(UUID_PUNCT[vs]);
            for (int i = 0; i < no; ++i) c.push_back(BASE_PUNCT[dor[i]]);
        }
        String s = u.str();
        CHECKM(s.size() == c.size(), "canonical length");
        bool eq = true;
        for (size_t i = 0; i < c.size(); ++i) eq &= s[i] == c[i];
        CHECKM(eq, "canonical text");
        observe(u); observe(s);
        if (nv < lv) REACH("shortened");
        if (lo && no < lo) REACH("shortened origin");
    }
}
