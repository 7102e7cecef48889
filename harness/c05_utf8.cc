// C05: UTF-8 encode/decode of single code points and whole strings.
#include "common.hpp"
#include "ron/encdec.hpp"
using namespace ron; using namespace H;
static int refenc(uint32_t cp, unsigned char* o) {
    if (sym_istrue(cp < 0x80)) { o[0] = cp; return 1; }
    if (sym_istrue(cp < 0x800)) { o[0] = 0xc0 | cp >> 6; o[1] = 0x80 | (cp & 63); return 2; }
    if (sym_istrue(cp < 0x10000)) { o[0] = 0xe0 | cp >> 12; o[1] = 0x80 | (cp >> 6 & 63); o[2] = 0x80 | (cp & 63); return 3; }
    o[0] = 0xf0 | cp >> 18; o[1] = 0x80 | (cp >> 12 & 63); o[2] = 0x80 | (cp >> 6 & 63); o[3] = 0x80 | (cp & 63);
    return 4;
}
extern "C" void sym_main() {
    if (sym_param("mode", 0) == 0) {  // every code point (pairs, so that the reader has to stop at the right byte)
        uint32_t cp = (uint32_t)sym_int("cp", 21), cq = (uint32_t)sym_int("cq", 21);
        sym_assume((cp <= 0x10ffff) & (cq <= 0x10ffff));
        unsigned char r[8];
        int n = refenc(cp, r), m = refenc(cq, r + n);
        String s;
        utf8append(s, cp);
        CHECKM(s.size() == (size_t)n, "encoded length");
        utf8append(s, cq);
        CHECKM(s.size() == (size_t)(n + m), "encoded length of the second");
        bool eq = true;
        for (int i = 0; i < n + m; ++i) eq &= (unsigned char)s[i] == r[i];
        CHECKM(eq, "standard encoding");
        String e;  // the escaping variant writes the same bytes for non-ASCII, and only known escapes for ASCII
        utf8esc_append(e, cp);
        if (n > 1) {
            bool same = e.size() == (size_t)n;
            for (int i = 0; i < n && same; ++i) same &= (unsigned char)e[i] == r[i];
            CHECKM(same, "escaped encoding of non-ASCII");
        } else CHECKM(e.size() <= 2, "escaped ASCII");
        const String& cs = s;
        String::const_iterator at = cs.begin(), end = cs.end();
        Codepoint p = utf8read(at, end);
        CHECKM(p == cp, "first code point back");
        CHECKM(at - cs.begin() == n, "first consumed");
        Codepoint q = utf8read(at, end);
        CHECKM(q == cq, "second code point back");
        CHECKM(at == end, "second consumed");
        Codepoints v;
        Result ok = ParseUtf8(v, s);
        CHECKM(ok == OK, "ParseUtf8 accepts");
        CHECKM(v.size() == 2, "ParseUtf8 count");
        CHECKM((v[0] == cp) & (v[1] == cq), "ParseUtf8 values");
        if (n == 4 && m == 3) REACH("4+3");
        if (n == 1 && m == 1) REACH("1+1");
        // truncated: every proper prefix of one multibyte sequence is an error, never an over-read
        if (n > 1) {
            size_t k = 1 + sym_choose("cut", n - 1);
            String* t = new String(s.substr(0, k));
            String::const_iterator b = t->cbegin();
            CHECKM(utf8read(b, t->cend()) == CP_ERROR, "truncated sequence is an error");
            CHECKM(b <= t->cend(), "reader stays in the string");
            Codepoints w;
            CHECKM(ParseUtf8(w, *t) != OK, "ParseUtf8 refuses a truncated sequence");
        }
        observe(s); sym_observe(p);
    } else {  // any byte string: accepted iff structurally valid, with the values the bytes spell
        int n = (int)sym_choose("n", sym_param("max", 6) + 1);
        char* b = new char[n ? n : 1];
        sym_bytes(b, n, "b");
        String s(b, n);
        Codepoints v;
        Result ok = ParseUtf8(v, s);
        const unsigned char* u = (const unsigned char*)b;
        int i = 0, k = 0;
        bool good = true;
        uint32_t ref[16];
        while (good && i < n) {
            unsigned c = u[i];
            int len = sym_istrue(c < 0x80) ? 1 : sym_istrue(c < 0xc0) ? 0 : sym_istrue(c < 0xe0) ? 2 : sym_istrue(c < 0xf0) ? 3 : sym_istrue(c < 0xf8) ? 4 : 0;
            if (!len || i + len > n) { good = false; break; }
            uint32_t cp = len == 1 ? c : len == 2 ? c & 0x1f : len == 3 ? c & 0xf : c & 7;
            for (int j = 1; j < len && good; ++j) { good = sym_istrue((u[i + j] & 0xc0) == 0x80); cp = cp << 6 | (u[i + j] & 0x3f); }
            if (good) ref[k++] = cp;
            i += len;
        }
        CHECKM((ok == OK) == good, "accepted iff structurally valid");
        if (good) {
            CHECKM(v.size() == (size_t)k, "number of code points");
            bool eq = true;
            for (int j = 0; j < k; ++j) eq &= v[j] == ref[j];
            CHECKM(eq, "code points");
            REACH("valid");
        } else REACH("invalid");
        if (n) {  // the incremental reader stays inside whatever the bytes are
            String* t = new String(b, n);
            String::const_iterator p = t->cbegin();
            int steps = 0;
            while (p < t->cend()) { sym_observe(utf8read(p, t->cend())); CHECKM(++steps <= n, "reader advances"); }
            CHECKM(p == t->cend(), "reader stops at the end");
        }
        sym_observe(v.size());
        for (auto c : v) sym_observe(c);
    }
}
