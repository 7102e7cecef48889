// Support code linked into every encoded program: out-of-line libstdc++ members
// and the few libc functions the code under test calls, as ordinary code the
// engine executes symbolically.
#include <string>
#include <unordered_map>
#include "sym.h"
template class std::basic_string<char>;
template class std::basic_string<char16_t>;

extern "C" {
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
__attribute__((noinline)) size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
__attribute__((noinline)) void* memchr(const void* p, int c, size_t n) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) if (b[i] == (unsigned char)c) return (void*)(b + i);
    return nullptr;
}
int strcmp(const char* a, const char* b) {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) ++i;
    return (unsigned char)a[i] - (unsigned char)b[i];
}
int strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; }
    return 0;
}
__attribute__((noinline)) char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
static int in_set(const char* set, char c) { int r = 0; for (; *set; ++set) r |= *set == c; return r; }
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && in_set(set, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !in_set(set, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : nullptr; }
char* strstr(const char* h, const char* n) {
    for (;; ++h) { size_t i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return (char*)h; if (!*h) return nullptr; }
}
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
int abs(int v) { return v < 0 ? -v : v; }
static unsigned long long str2n(const char* s, char** e, int base, int* neg, int* any) {
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    *neg = 0;
    if (*p == '-' || *p == '+') *neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    int over = 0;
    *any = 0;
    for (;; ++p) {
        int d = isdigit((unsigned char)*p) ? *p - '0' : isalpha((unsigned char)*p) ? tolower((unsigned char)*p) - 'a' + 10 : 99;
        if (d >= base) break;
        if (v > (~0ULL - d) / base) over = 1;
        v = v * base + d;
        *any = 1;
    }
    if (e) *e = (char*)(*any ? p : s);
    return over ? ~0ULL : v;
}
long strtol(const char* s, char** e, int base) {
    int neg, any;
    unsigned long long v = str2n(s, e, base, &neg, &any);
    if (neg) return v > (1ULL << 63) ? (long)(1ULL << 63) : (long)(0 - v);
    return v > (1ULL << 63) - 1 ? (long)((1ULL << 63) - 1) : (long)v;
}
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
unsigned long strtoul(const char* s, char** e, int base) { int neg, any; unsigned long long v = str2n(s, e, base, &neg, &any); return neg ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int base) { return strtoul(s, e, base); }
float strtof(const char*, char**) { unsigned v = (unsigned)__sym_fresh(32); float f; __builtin_memcpy(&f, &v, 4); return f; }
static int ERRNO;
int* __errno_location(void) throw() { return &ERRNO; }
int strcasecmp(const char* a, const char* b) {
    size_t i = 0;
    while (a[i] && tolower((unsigned char)a[i]) == tolower((unsigned char)b[i])) ++i;
    return tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]);
}
int strncasecmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; ++i) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; }
    return 0;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
// the time of day: one arbitrary instant unless a harness says otherwise
struct __sym_tv { long s, u; };
__attribute__((weak)) int gettimeofday(__sym_tv* t, void*) { t->s = (long)__sym_fresh(33); t->u = (long)(__sym_fresh(20) % 1000000); return 0; }
__attribute__((weak)) int clock_gettime(int, __sym_tv* t) { int r = gettimeofday(t, 0); t->u *= 1000; return r; }
__attribute__((weak)) long time(long* o) { __sym_tv t; gettimeofday(&t, 0); if (o) *o = t.s; return t.s; }
int rand(void) { return (int)__sym_fresh(31); }

// strtod: equal texts give equal values; texts printed by the %G model give the printed value back.
uint64_t __sym_strtod(const char*);
struct FTab { char t[40]; uint64_t v; };
FTab __sym_ftab[32];
int __sym_fn = 0;
double nan(const char*) { unsigned long long q = 0x7ff8000000000000ULL; double d; __builtin_memcpy(&d, &q, 8); return d; }
double strtod(const char* s, char** e) {
    uint64_t v = 0;
    size_t n = 0;
    while (s[n]) ++n;
    int conc = 1;
    for (size_t i = 0; i < n; ++i) conc &= __sym_concrete((unsigned char)s[i]);
    if (conc) {  // a text known as a symbolic one keeps its value
        int hit = -1;
        for (int k = 0; n < 40 && k < __sym_fn && hit < 0; ++k) {
            unsigned d = 0;
            for (size_t i = 0; i <= n; ++i) d |= (unsigned char)(__sym_ftab[k].t[i] ^ s[i]);
            if (sym_istrue(d == 0)) hit = k;
        }
        v = hit >= 0 ? __sym_ftab[hit].v : __sym_strtod(s);
    } else {
        if (n >= 40) { sym_assert(0, "engine: float text too long for the strtod model"); }
        int hit = -1;
        for (int k = 0; k < __sym_fn && hit < 0; ++k) {
            unsigned d = 0;
            for (size_t i = 0; i <= n; ++i) d |= (unsigned char)(__sym_ftab[k].t[i] ^ s[i]);
            if (sym_istrue(d == 0)) hit = k;
        }
        if (hit >= 0) v = __sym_ftab[hit].v;
        else {
            v = __sym_fresh(64);
            if (__sym_fn < 32) {
                for (size_t i = 0; i <= n; ++i) __sym_ftab[__sym_fn].t[i] = s[i];
                __sym_ftab[__sym_fn++].v = v;
            }
        }
    }
    if (e) *e = (char*)s + n;
    double d;
    __builtin_memcpy(&d, &v, 8);
    return d;
}
void __sym_float_text(const char* t, uint64_t v) {  // registers the text of a printed value
    size_t n = 0;
    while (t[n]) { __sym_ftab[__sym_fn].t[n] = t[n]; ++n; }
    __sym_ftab[__sym_fn].t[n] = 0;
    __sym_ftab[__sym_fn++].v = v;
}
}

namespace std { namespace __detail {
static const unsigned long PRIMES[] = {1, 16, 64, 256, 1024, 4096, 16384, 65536};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
    for (unsigned long p : PRIMES) if (p >= n) { _M_next_resize = p; return p; }
    return 262144;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t e, std::size_t i) const {
    if (e + i > _M_next_resize) {
        std::size_t want = e + i + 1;
        if (want < 2 * b) want = 2 * b;
        if (e + i >= b) return {true, _M_next_bkt(want)};
        _M_next_resize = b;
    }
    return {false, 0};
}
} }

// what libstdc++.so defines for maps, lists, hashes of texts, clocks and output streams
namespace std {
struct _Rb_tree_node_base { int c; _Rb_tree_node_base *p, *l, *r; };  // 0 red: the header only
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
    if (x->r) { x = x->r; while (x->l) x = x->l; return x; }
    _Rb_tree_node_base* y = x->p;
    while (x == y->r) { x = y; y = y->p; }
    return x->r != y ? y : x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
    if (x->c == 0 && x->p->p == x) return x->r;
    if (x->l) { x = x->l; while (x->r) x = x->r; return x; }
    _Rb_tree_node_base* y = x->p;
    while (x == y->l) { x = y; y = y->p; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) { return inc((_Rb_tree_node_base*)x); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) { return dec((_Rb_tree_node_base*)x); }
void _Rb_tree_insert_and_rebalance(bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) {
    x->c = 1; x->p = p; x->l = x->r = 0;
    if (left) { p->l = x; if (p == &h) { h.p = x; h.r = x; } else if (p == h.l) h.l = x; }
    else { p->r = x; if (p == h.r) h.r = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) {
    _Rb_tree_node_base *nx = z == h.r ? &h : inc(z), *pv = z == h.l ? 0 : dec(z), *y;
    if (z->l && z->r) {  // the successor takes its place
        y = nx;
        if (y->p != z) { y->p->l = y->r; if (y->r) y->r->p = y->p; y->r = z->r; z->r->p = y; }
        y->l = z->l; z->l->p = y; y->p = z->p;
    } else { y = z->l ? z->l : z->r; if (y) y->p = z->p; }
    if (z == h.l) h.l = nx;
    if (z == h.r) h.r = pv ? pv : &h;
    if (h.p == z) h.p = y; else if (z->p->l == z) z->p->l = y; else z->p->r = y;
    return z;
}
namespace __detail {
struct _List_node_base {
    _List_node_base *n, *p;
    static void swap(_List_node_base&, _List_node_base&) noexcept;
    void _M_transfer(_List_node_base*, _List_node_base*) noexcept;
    void _M_reverse() noexcept;
    void _M_hook(_List_node_base*) noexcept;
    void _M_unhook() noexcept;
};
void _List_node_base::_M_hook(_List_node_base* q) noexcept { n = q; p = q->p; q->p->n = this; q->p = this; }
void _List_node_base::_M_unhook() noexcept { n->p = p; p->n = n; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
    if (this == l) return;
    l->p->n = this; f->p->n = l; p->n = f;
    _List_node_base* t = p;
    p = l->p; l->p = f->p; f->p = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* x = t->n; t->n = t->p; t->p = x; t = x; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    _List_node_base a = x, b = y;
    if (b.n == &y) x.n = x.p = &x; else { x = b; x.n->p = x.p->n = &x; }
    if (a.n == &x) y.n = y.p = &y; else { y = a; y.n->p = y.p->n = &y; }
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    (void)seed;
    size_t h = n;
    for (size_t i = 0; i < n; ++i) h += (size_t)((const unsigned char*)p)[i] << (i & 7);
    return h;
}
namespace chrono { inline namespace _V2 {
struct system_clock { static long now() noexcept; };
long system_clock::now() noexcept { __sym_tv t; clock_gettime(0, &t); return t.s * 1000000000L + t.u; }
struct steady_clock { static long now() noexcept; };
long steady_clock::now() noexcept { return (long)__sym_fresh(62); }
} }
}
