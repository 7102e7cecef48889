#include "common.hpp"
#include "db/key.hpp"
using namespace ron; using namespace H;
static Key mk(uint64_t v, uint64_t o, uint64_t f) { return Key{Uuid::Time(Word{v}, Word{o}), FORM(uint8_t(f))}; }
static Slice bytes(const uint64pair& b) { return Slice{(const char*)&b, sizeof(b)}; }
extern "C" void sym_main() {
    uint64_t v1 = payload("v1"), o1 = payload("o1"), f1 = sym_int("f1", 8);
    uint64_t v2 = payload("v2"), o2 = payload("o2"), f2 = sym_int("f2", 8);
    Key a = mk(v1, o1, f1), b = mk(v2, o2, f2);
    CHECKM((uint8_t)a.form() == f1, "form survives");
    Uuid id = a.id();
    CHECKM((id.value.as_u64 == v1) & (id.origin.as_u64 == (o1 | (uint64_t(TIME) << 60))), "id survives");
    Uuid d = a.id(DERIVED);
    CHECKM((d.value.as_u64 == v1) & (d.origin.as_u64 == (o1 | (uint64_t(DERIVED) << 60))), "id survives with other flags");
    // variety/version bits of the source id are irrelevant
    Key a2{Uuid{Word{v1 | (sym_int("vr", 4) << 60)}, Word{o1 | (sym_int("vs", 4) << 60)}}, FORM(uint8_t(f1))};
    CHECKM((a2.bits.first == a.bits.first) & (a2.bits.second == a.bits.second), "flag bits ignored");
    bool eq = (v1 == v2) & (o1 == o2) & (f1 == f2);
    bool lt = (f1 < f2) | ((f1 == f2) & ((o1 < o2) | ((o1 == o2) & (v1 < v2))));
    bool keq = a == b, klt = a < b, kgt = a > b, kne = a != b;
    CHECKM(keq == eq, "distinct keys for distinct pairs");
    CHECKM(kne == !eq, "operator!=");
    CHECKM(klt == lt, "operator<");
    CHECKM(kgt == (!lt & !eq), "operator>");
    uint64pair ab = a.be(), bb = b.be();
    Key a3 = Key::be(bytes(ab));
    CHECKM((a3.bits.first == a.bits.first) & (a3.bits.second == a.bits.second), "byte form is lossless");
    const unsigned char *p = (const unsigned char*)&ab, *q = (const unsigned char*)&bb;
    bool blt = false, beq = true;
    for (int i = 0; i < 16; ++i) { blt |= beq & (p[i] < q[i]); beq &= p[i] == q[i]; }
    CHECKM(blt == lt, "byte order is type, origin, value");
    CHECKM(beq == eq, "bytes equal iff keys equal");
    CHECKM(!(a < Key::ZERO), "ZERO is least");
    CHECKM((f1 == 255) | (a < Key::END), "END is greatest for every registered form");
    if (keq) REACH("equal"); else REACH("differ");
    sym_observe(a.bits.first); sym_observe(a.bits.second); sym_observe(klt);
}
