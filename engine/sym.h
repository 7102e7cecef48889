// Interface between harnesses and the symbolic engine / native replay runtime.
#ifndef SYM_H
#define SYM_H
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_int(const char* name, int bits);          // fresh symbolic value of `bits` bits, zero-extended
void sym_bytes(void* p, size_t n, const char* name);   // n fresh symbolic bytes
void sym_assume(int c);
void sym_assert(int c, const char* msg);
uint64_t sym_choose(const char* name, uint64_t n);     // forks: a concrete value 0..n-1
uint64_t sym_concretize(uint64_t v);                   // forks over all feasible values of v
int sym_istrue(int c);                                 // forks: concrete 0/1
void sym_reach(const char* what);                      // vacuity witness
void sym_observe(uint64_t v);                          // value compared between engine and native run
uint64_t sym_param(const char* name, uint64_t dflt);   // bound given on the command line
void sym_stop(void);                                   // ends the path normally
void sym_log(const char* msg, uint64_t v);
uint64_t __sym_fresh(int bits);
int __sym_concrete(uint64_t v);
void sym_main(void);
}
#define REACH(x) sym_reach(x)
#define CHECK(c) sym_assert(!!(c), #c)
#define CHECKM(c, m) sym_assert(!!(c), m)
#endif
