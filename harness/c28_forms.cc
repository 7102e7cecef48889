// C28: type names <-> numbers.
#include "common.hpp"
#include "ron/form.hpp"
using namespace ron; using namespace H;
static const struct { const char* name; int num; } REG[] = {{"zero", 0}, {"yarn", 1}, {"log", 2}, {"tail", 3}, {"patch", 4}, {"span", 5}, {"chain", 6}, {"graph", 7}, {"meta", 8}, {"prev", 9},
    {"obj", 10}, {"sha3", 11}, {"vv", 12}, {"lww", 13}, {"rga", 14}, {"mx", 15}, {"json", 16}, {"csv", 17}, {"txt", 18}, {"max", 19}};
extern "C" void sym_main() {
    if (sym_param("mode", 0) == 0) {
        for (auto& r : REG) {  // the documented persistent numbers
            Uuid u{r.name};
            CHECKM(uuid2form(u) == r.num, "name has its documented number");
            CHECKM(same(form2uuid(FORM(r.num)), u), "number has its name");
        }
        uint8_t f = (uint8_t)sym_int("f", 8);
        Uuid u = form2uuid(FORM(f));
        if (sym_istrue(f < 20)) {
            CHECKM(!u.is_error(), "registered number has a name");
            CHECKM(u.version() == NAME, "a name");
            CHECKM((uint8_t)uuid2form(u) == f, "maps back");
            REACH("registered");
        } else {
            CHECKM(same(u, Uuid::FATAL), "unregistered number gives the error UUID");
            REACH("unregistered");
        }
        observe(u);
    } else {
        Uuid u{Word{sym_int("v", 64)}, Word{sym_int("o", 64)}};
        bool reg = false;
        int num = 0;
        for (auto& r : REG) if (sym_istrue(same(u, Uuid{r.name}))) { reg = true; num = r.num; break; }
        if (!reg && sym_istrue(same(u, Uuid::FATAL))) sym_stop();
        int f = uuid2form(u);
        CHECKM(f == (reg ? num : 0), "unregistered UUIDs map to the zero type, registered ones to their number");
        if (reg) REACH("reg"); else REACH("unreg");
        sym_observe(f);
    }
}
