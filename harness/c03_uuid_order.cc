// C03: order, equality, hash, event/derived, inc/dec.
#include "common.hpp"
using namespace ron; using namespace H;
extern "C" void sym_main() {
    Uuid a{Word{sym_int("av", 64)}, Word{sym_int("ao", 62)}}, b{Word{sym_int("bv", 64)}, Word{sym_int("bo", 62)}}, c{Word{sym_int("cv", 64)}, Word{sym_int("co", 62)}};
    uint64_t av = a.value.as_u64, ao = a.origin.as_u64, bv = b.value.as_u64, bo = b.origin.as_u64;
    bool eq = (av == bv) & (ao == bo), lt = (av < bv) | ((av == bv) & (ao < bo));
    CHECKM((a < b) == lt, "< is value then origin");
    CHECKM((a > b) == (!lt & !eq), ">");
    CHECKM((a == b) == eq, "==");
    CHECKM((a != b) == !eq, "!=");
    CHECKM((a <= b) == (lt | eq), "<=");
    CHECKM((a >= b) == !lt, ">=");
    CHECKM(((const Atom&)a == (const Atom&)b) == eq, "Atom ==");
    CHECKM(((const Atom&)a != (const Atom&)b) == !eq, "Atom !=");
    bool ab = a < b, bc = b < c, ac = a < c, ba = b < a;
    CHECKM(!(ab & bc) | ac, "transitive");
    CHECKM(!(ab & ba), "asymmetric");
    CHECKM(!(a < a), "irreflexive");
    CHECKM((a.value < b.value) == (av < bv), "Word <");
    CHECKM((a.value > b.value) == (av > bv), "Word >");
    CHECKM((a.value <= b.value) == (av <= bv), "Word <=");
    CHECKM((a.value >= b.value) == (av >= bv), "Word >=");
    CHECKM((a.value == b.value) == (av == bv), "Word ==");
    CHECKM((a.value != b.value) == (av != bv), "Word !=");
    size_t ha = std::hash<Uuid>{}(a), hb = std::hash<Uuid>{}(b);
    CHECKM(!eq | (ha == hb), "equal UUIDs have equal hashes");
    const uint64_t P = (1ULL << 60) - 1;
    Uuid e = a.event(), d = a.derived();
    CHECKM((e.value.as_u64 == av) & (e.origin.as_u64 == ((ao & P) | 2ULL << 60)), "event() sets only the kind");
    CHECKM((d.value.as_u64 == av) & (d.origin.as_u64 == ((ao & P) | 3ULL << 60)), "derived() sets only the kind");
    CHECKM(e.version() == TIME, "event kind");
    CHECKM(d.version() == DERIVED, "derived kind");
    CHECKM(same(e.event(), e) & same(d.derived(), d), "idempotent");
    CHECKM(same(e.derived(), d) & same(d.event(), e), "views are inverse on events");
    CHECKM(same(Uuid::Time(a.value, a.origin), e) & same(Uuid::Derived(a.value, a.origin), d), "Time/Derived constructors");
    CHECKM(a.variety() == (av >> 60), "variety");
    CHECKM(a.version() == (ao >> 60), "version");
    CHECKM(same(a.inc().dec(), a) & same(a.dec().inc(), a), "inc/dec inverse");
    uint64_t k = sym_int("k", 32);
    Uuid ik = a.inc(k), pk = a + k;
    CHECKM((ik.value.as_u64 == av + k) & (ik.origin.as_u64 == ao) & same(ik, pk), "inc(k) adds k to the value only");
    CHECKM((av + k < av) | (k == 0) | (a < ik), "inc is increasing");
    Uuid pp = a; ++pp;
    CHECKM(same(pp, a.inc()), "++ is inc");
    CHECKM(a.zero() == (av == 0), "zero()");
    REACH("end");
    sym_observe(lt); sym_observe(ha); observe(e); observe(d);
}
