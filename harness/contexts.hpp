// Texts with windows of arbitrary bytes.
#ifndef H_CONTEXTS
#define H_CONTEXTS
#include "common.hpp"
#include <cstdlib>
#ifndef OWN_CONTEXTS
struct Ctx { const char *a, *b, *c; };  // a, free bytes, b (, free bytes, c)
static const Ctx CTX[] = {
    {"", "", nullptr},
    {"@1A+B :lww", "", nullptr},
    {"@1A+B", ";", nullptr},
    {"@1+A 'a", "';", nullptr},
    {"@1+A 1", ";", nullptr},
    {"@1+A:2-B'x'(", ");\n@3,", nullptr},
    {"@1+A,\n", "!", nullptr},
    {"@1234567", "+B:1-234567890;", nullptr},
    {"@1 A/1234567", "$123456789 'a'5.0;", nullptr},
    {"@1:1234567890-1234567", ";", nullptr},
    {"'\\u0", "',", nullptr},
    {"@1:2 'b';\n", ".\n", nullptr},
    {"@1", ":2", " 3;"},
    {"@5+A 'ab'", "(3)", ";@4+B?"},
    {"@1+~~~~~~~~~~ ('", "');@1A ", ";"},
    {"@1 1.5", " ^", ";"},
    {"@1 = ", " > ", " 'c' (2);"},
    {"@1 (1073741", ");", nullptr},
    {"@1 1.2345678901234567890", ";", nullptr},
    {"@1 ^-12345678901234.5E", ", 7;", nullptr},
    {"@1 -92233720368547758", ";", nullptr},
};
static const int NCTX = sizeof(CTX) / sizeof(CTX[0]);
#endif
// fills an exactly sized heap buffer
static unsigned char* make_text(int& n) {
    int k = (int)sym_param("k", 3), k2 = (int)sym_param("k2", 2), only = (int)sym_param("ctx", 0), to = (int)sym_param("to", 0);
    int x = to ? only + (int)sym_choose("context", (to > NCTX ? NCTX : to) - only) : only;
    const Ctx& ct = CTX[x];
    unsigned char* t = (unsigned char*)malloc(128);
    n = 0;
    for (const char* s = ct.a; *s; ++s) t[n++] = *s;
    int f = ct.c ? k2 : k;
    if (x == 0) f = (int)sym_choose("size", f + 1);
    if (f) sym_bytes(t + n, f, "text");
    n += f;
    for (const char* s = ct.b; *s; ++s) t[n++] = *s;
    if (ct.c) {
        sym_bytes(t + n, f, "text2");
        n += f;
        for (const char* s = ct.c; *s; ++s) t[n++] = *s;
    }
    unsigned char* exact = (unsigned char*)malloc(n ? n : 1);
    for (int i = 0; i < n; ++i) exact[i] = t[i];
    return exact;
}
#endif
