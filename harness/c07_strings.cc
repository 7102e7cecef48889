// C07: string values survive writing, reading and copying; every spelling of a character reads as that character.
#include "chars.hpp"
#include "ron/ron.hpp"
using namespace ron; using namespace H;
using Frame = TextFrame; using Cursor = Frame::Cursor; using Builder = Frame::Builder;
static const Uuid OPID{"1A+B"}, OPREF{"lww"};

// everything a reader can see of string value `at` of the op must be these characters
template <class C>
static void same_chars(const C& c, fsize_t at, const Chr* ch, int n, const char* what) {
    CHECKM(c.op().size() > at && c.op()[at].type() == STRING, "a string is read as a string");
    Atom a = c.atom(at);
    CHECKM(StringSize(a) == (fsize_t)n || (n == 0 && StringSize(a) <= 1), "the recorded count is the number of code points");
    if (n == 0) CHECKM(a.value.cp == 0 && a.value.cp_size == 0, "an empty string has no characters");
    int i = 0;
    uint64_t diff = 0;
    if (!IsStringBtB(a)) diff |= a.value.cp ^ ch[i++].cp;
    while (i < n) {
        CHECKM(c.NextCodepoint(a) == OK, what);
        diff |= a.value.cp ^ ch[i++].cp;
    }
    CHECKM(diff == 0, what);
    CHECKM(c.NextCodepoint(a) == ENDOFINPUT && a.value.cp == 0, "nothing after the last character");
    String u8, want;
    String16 u16;
    CHECKM(ReadString(u8, c, at) == OK, "a string is readable as UTF-8");
    for (int k = 0; k < n; ++k) put(want, ch[k]);
    CHECKM(same_str(u8, want), what);
    CHECKM(ReadString16(u16, c, c.atom(at)) == OK, "a string is readable as UTF-16");
    uint64_t d16 = 0;
    size_t k = 0;
    for (int j = 0; j < n; ++j) {
        if (ch[j].n < 4) { if (k < u16.size()) d16 |= u16[k] ^ ch[j].cp; ++k; }
        else { uint32_t x = ch[j].cp - 0x10000; if (k + 1 < u16.size()) d16 |= (u16[k] ^ (0xd800 + (x >> 10))) | (u16[k + 1] ^ (0xdc00 + (x & 0x3ff))); k += 2; }
    }
    CHECKM(k == u16.size(), "as many UTF-16 units as the characters need");
    CHECKM(d16 == 0, "the same characters in UTF-16");
}



extern "C" void sym_main() {
    int mode = (int)sym_param("mode", 0), max = (int)sym_param("max", 2);
    static Chr ch[4100];
    if (mode == 0 || mode == 2) {
        static const int LONG[] = {15, 16, 17, 255, 256, 1000, 4096};
        int n = mode == 2 ? LONG[sym_choose("length", max)] : (int)sym_choose("length", max + 1);
        int place = (int)sym_choose("place", sym_param("places", 3));
        String s;
        if (mode == 0) for (int i = 0; i < n; ++i) ch[i] = sym_char();
        else {  // one arbitrary character among others of one kind
            static const Chr FILL[] = {{'a', 1, {'a'}}, {0x42f, 2, {0xd0, 0xaf}}, {0x10437, 4, {0xf0, 0x90, 0x90, 0xb7}}, {'\'', 1, {'\''}}};
            int fill = (int)sym_choose("filler", 4), at = (int)sym_choose("at", 3);
            for (int i = 0; i < n; ++i) ch[i] = FILL[fill];
            ch[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = sym_char();
        }
        for (int i = 0; i < n; ++i) put(s, ch[i]);
        Builder b;
        if (place == 0) b.AppendOp(Op{OPID, OPREF, s});
        if (place == 1) b.AppendOp(Op{OPID, OPREF, String{"key"}, s});
        if (place == 2) b.AppendOp(Op{OPID, OPREF, s, Integer{5}});
        Frame f = b.Release();
        fsize_t at = place == 1 ? 3 : 2;
        Cursor c{f};
        CHECKM(c.Next() == Status::OK, "a written string is readable");
        CHECKM(c.op().size() == (place ? 4 : 3), "one atom per value");
        same_chars(c, at, ch, n, "a string reads as the same characters");
        // a copy by the reader's own atoms
        Builder b2;
        b2.AppendOp(c);
        Frame g = b2.Release();
        Cursor d{g};
        CHECKM(d.Next() == Status::OK, "a copied string is readable");
        same_chars(d, at, ch, n, "a copied string has the same characters");
        // a copy under another id
        Op am = Op::Amend(Uuid{"2A+B"}, OPID, c);
        same_chars(am, at, ch, n, "an amended op has the same characters");
        Builder b3;
        b3.AppendOp(am);
        Frame h = b3.Release();
        Cursor e{h};
        CHECKM(e.Next() == Status::OK, "an amended op is readable");
        same_chars(e, at, ch, n, "a written amended op has the same characters");
        CHECKM(c.Next() == Status::ENDOFFRAME, "nothing else in the frame");
        REACH(n == 0 ? "empty" : n == 1 ? "one" : n > 8 ? "long" : "many");
        sym_observe(g.data().size());
        return;
    }
    // texts: each character in any of its spellings
    int n = (int)sym_choose("length", max) + 1;
    char t[128];
    int k = 0;
    for (const char* s = "@1A+B :lww'"; *s; ++s) t[k++] = *s;
    for (int i = 0; i < n; ++i) {
        int how = (int)sym_choose("spelling", 4);
        if (how == 0) {
            ch[i] = sym_char();
            if (ch[i].n == 1) sym_assume((ch[i].cp != '\'') & (ch[i].cp != '\n') & (ch[i].cp != '\r') & (ch[i].cp != '\\'));
            for (int j = 0; j < ch[i].n; ++j) t[k++] = (char)ch[i].b[j];
        } else if (how == 1) {
            static const char code[] = "nrt\\bf'/\"", val[] = "\n\r\t\\\b\f'/\"";
            int e = (int)sym_choose("escape", 9);
            t[k++] = '\\'; t[k++] = code[e];
            ch[i].cp = ch[i].b[0] = val[e]; ch[i].n = 1;
        } else {  // \uXXXX; small and capital digits
            uint32_t d[4];
            int cls = (int)sym_choose("uclass", 5);  // the classes of char_of()
            for (int j = 0; j < 4; ++j) d[j] = (uint32_t)sym_int("x4", 4);
            uint32_t v = d[0] << 12 | d[1] << 8 | d[2] << 4 | d[3];
            Chr& c = ch[i];
            c.cp = v;
            if (cls == 0) { sym_assume((d[0] == 0) & (d[1] == 0) & (d[2] < 8)); sym_assume((d[2] | d[3]) != 0); c.n = 1; c.b[0] = v; }
            else if (cls == 1) { sym_assume((d[0] == 0) & (d[1] < 8)); sym_assume((d[1] > 0) | (d[2] >= 8)); c.n = 2; c.b[0] = 0xc0 | v >> 6; c.b[1] = 0x80 | (v & 63); }
            else {
                if (cls == 2) sym_assume((d[0] == 0) & (d[1] >= 8));
                if (cls == 3) sym_assume((d[0] != 0) & (d[0] != 13));
                if (cls == 4) sym_assume((d[0] == 13) & (d[1] < 8));
                c.n = 3; c.b[0] = 0xe0 | v >> 12; c.b[1] = 0x80 | (v >> 6 & 63); c.b[2] = 0x80 | (v & 63);
            }
            t[k++] = '\\'; t[k++] = 'u';
            static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
            for (int j = 0; j < 4; ++j) t[k++] = (how == 2 ? lo : up)[d[j]];
        }
    }
    t[k++] = '\''; t[k++] = ';'; t[k++] = '\n';
    String text(t, k);
    Cursor c{text};
    CHECKM(c.Next() == Status::OK, "a string text is readable");
    CHECKM(c.op().size() == 3, "one value");
    same_chars(c, 2, ch, n, "a string text gives the characters it spells");
    Builder b;
    b.AppendOp(c);
    Frame f = b.Release();
    Cursor d{f};
    CHECKM(d.Next() == Status::OK, "a copied string text is readable");
    same_chars(d, 2, ch, n, "a copied string text gives the characters it spells");
    CHECKM(c.Next() == Status::ENDOFFRAME, "nothing else in the text");
    REACH(n == 1 ? "one" : "many");
    sym_observe(f.data().size());
}
