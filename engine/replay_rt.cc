// Native counterpart of the symbolic API: runs a harness on concrete values.
// usage: prog FILE...   each FILE is a replay; observations go to stdout.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include "sym.h"
struct Rec { std::string n; int w; unsigned long long v; };
static std::vector<Rec> recs;
static size_t at = 0;
static bool verbose = false;
static std::map<std::string, uint64_t> prm;
static uint64_t next(const char* name, int bits) {
    if (at >= recs.size()) { if (verbose) fprintf(stderr, "replay: out of values at %s, using 0\n", name); return 0; }
    Rec& r = recs[at++];
    if (verbose) fprintf(stderr, "  %s:%d = 0x%llx\n", name, bits, r.v);
    if (r.n != name || r.w != bits) { printf("REPLAY-MISMATCH %s/%d got %s/%d\n", name, bits, r.n.c_str(), r.w); fflush(stdout); _exit(66); }
    return r.v;
}
extern "C" {
uint64_t sym_int(const char* n, int b) { return next(n, b); }
void sym_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)next(nm, 8); }
void sym_assume(int c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(77); } }
void sym_assert(int c, const char* m) { if (!c) { printf("ASSERT-FAIL %s\n", m); fflush(stdout); _exit(99); } }
uint64_t sym_choose(const char* n, uint64_t k) { uint64_t v = next(n, 8); if (v >= k) { printf("REPLAY-MISMATCH choose\n"); fflush(stdout); _exit(66); } return v; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_istrue(int c) { return c; }
void sym_reach(const char*) {}
void sym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
uint64_t sym_param(const char* n, uint64_t d) { auto i = prm.find(n); return i == prm.end() ? d : i->second; }
void sym_stop(void) { printf("DONE\n"); fflush(stdout); _exit(0); }
void sym_log(const char* m, uint64_t v) { fprintf(stderr, "LOG %s %llu\n", m, (unsigned long long)v); }
uint64_t __sym_fresh(int) { return 0; }
int __sym_concrete(uint64_t) { return 1; }
void __sym_float_text(const char*, uint64_t) {}
}
static int one(const char* f) {
    FILE* fp = fopen(f, "r");
    if (!fp) { perror(f); return 2; }
    char n[256]; int w; unsigned long long v;
    while (fscanf(fp, "%255s %d %llu", n, &w, &v) == 3) recs.push_back({n, w, v});
    fclose(fp);
    sym_main();
    printf("DONE\n");
    fflush(stdout);
    return 0;
}
int main(int argc, char** argv) {
    int i = 1, files = 0;
    std::vector<const char*> fs;
    for (; i < argc; ++i) {
        if (!strcmp(argv[i], "-v")) verbose = true;
        else if (!strcmp(argv[i], "-p") && i + 1 < argc) { char* e = strchr(argv[++i], '='); prm[std::string(argv[i], e - argv[i])] = strtoull(e + 1, 0, 0); }
        else fs.push_back(argv[i]);
    }
    if (fs.size() == 1) return one(fs[0]);
    for (auto f : fs) {  // batch: one child per file
        printf("FILE %s\n", f); fflush(stdout);
        pid_t p = fork();
        if (!p) { alarm(20); _exit(one(f)); }
        int st; waitpid(p, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("EXIT %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); fflush(stdout); }
    }
    return 0;
}
