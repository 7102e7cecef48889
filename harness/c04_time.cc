// C04: hybrid timestamps order like calendar time. gmtime() is replaced by a model that
// returns the broken-down UTC time the harness chose (natively the real gmtime runs).
#include <sys/time.h>
#include <time.h>
#include "common.hpp"
using namespace ron; using namespace H;
struct T { uint64_t y, mo, d, h, mi, s, ns; time_t token; };
static T* cur_t;
static long cur_usec;
#ifndef NATIVE_REPLAY
static tm tmbuf;
extern "C" tm* gmtime(const time_t* t) {
    sym_assert(*t == cur_t->token, "gmtime is asked for the given instant");
    tmbuf.tm_year = (int)cur_t->y - 1900; tmbuf.tm_mon = (int)cur_t->mo; tmbuf.tm_mday = (int)cur_t->d;
    tmbuf.tm_hour = (int)cur_t->h; tmbuf.tm_min = (int)cur_t->mi; tmbuf.tm_sec = (int)cur_t->s;
    tmbuf.tm_wday = (int)__sym_fresh(3); tmbuf.tm_yday = (int)__sym_fresh(8); tmbuf.tm_isdst = 0;
    return &tmbuf;
}
extern "C" tm* gmtime_r(const time_t* t, tm* out) { *out = *gmtime(t); return out; }
#endif
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = cur_t->token; tv->tv_usec = cur_usec; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = cur_t->token; ts->tv_nsec = cur_usec * 1000; return 0; }
extern "C" time_t time(time_t* t) { if (t) *t = cur_t->token; return cur_t->token; }
static const int ML[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static T pick(const char* n) {
    T t;
    t.y = 2010 + sym_int(n, 9); t.mo = sym_int(n, 4); t.d = sym_int(n, 5); t.h = sym_int(n, 5); t.mi = sym_int(n, 6); t.s = sym_int(n, 6); t.ns = sym_int(n, 30);
    sym_assume(t.y <= 2350);  // (2350-2010)*12+11 < 4096
    bool leap = ((t.y & 3) == 0) & (t.y != 2100) & (t.y != 2200) & (t.y != 2300);
    int ml = 0;
    sym_assume(t.mo < 12);
    for (int i = 0; i < 12; ++i) ml += (t.mo == (uint64_t)i) * ML[i];
    ml += leap & (t.mo == 1);
    sym_assume((t.d >= 1) & (t.d <= (uint64_t)ml));
    sym_assume(t.h < 24); sym_assume(t.mi < 60); sym_assume(t.s < 60); sym_assume(t.ns < 1000000000);
#ifdef NATIVE_REPLAY
    int64_t y = t.y - (t.mo < 2), era = y / 400, yoe = y - era * 400, m = t.mo + 1, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + t.d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    t.token = ((era * 146097 + doe - 719468) * 24 + t.h) * 3600 + t.mi * 60 + t.s;
#else
    t.token = (time_t)(0x1111111100000000ULL + (uint64_t)(n[0]));
#endif
    return t;
}
extern "C" void sym_main() {
    T a = pick("a"), b = pick("b");
    cur_t = &a; Word wa = Uuid::HybridTime(a.token, (long)a.ns);
    cur_t = &b; Word wb = Uuid::HybridTime(b.token, (long)b.ns);
    uint64_t ta = a.ns / 100, tb = b.ns / 100;
    bool eq = true, lt = false;
    lt |= eq & (a.y < b.y); eq &= a.y == b.y; lt |= eq & (a.mo < b.mo); eq &= a.mo == b.mo; lt |= eq & (a.d < b.d); eq &= a.d == b.d;
    lt |= eq & (a.h < b.h); eq &= a.h == b.h; lt |= eq & (a.mi < b.mi); eq &= a.mi == b.mi; lt |= eq & (a.s < b.s); eq &= a.s == b.s;
    lt |= eq & (ta < tb); eq &= ta == tb;
    CHECKM((wa.as_u64 >> 60) == 0, "no flag bits");
    CHECKM((wa.as_u64 == wb.as_u64) == eq, "equal stamps iff same 100 ns");
    CHECKM((wa.as_u64 < wb.as_u64) == lt, "stamps order like instants");
    CHECKM((wa < wb) == lt, "Word order");
    REACH("pair");
    sym_observe(wa.as_u64); sym_observe(wb.as_u64);
    // Now(): the same stamp for the same instant, microsecond precision
    uint64_t us = sym_int("us", 20); sym_assume(us < 1000000);
    cur_usec = (long)us;
    cur_t = &a; Word wn = Uuid::Now();
    Word we = Uuid::HybridTime(a.token, (long)(us * 1000));
    CHECKM(wn.as_u64 == we.as_u64, "Now() is the current instant");
    CHECKM((wn.as_u64 & 0xffffff) == us * 10, "Now() keeps the microseconds");
    sym_observe(wn.as_u64);
}
