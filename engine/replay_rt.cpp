// Native replay runtime: feeds the recorded input values, in order, to the harness compiled natively.
// exit 0: no violation; exit 1: violation reproduced (line "REPRODUCED: ..."); exit 3: an assumption failed.
#include "sx.h"
#include <cstdio>
#include <dlfcn.h>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <unistd.h>
#include <vector>
static std::vector<std::pair<std::string, uint64_t>> in;
static size_t pos;
static uint64_t next(const char* name) {
    if (pos < in.size()) {
        if (in[pos].first != name) { fprintf(stderr, "replay: input order mismatch: %s vs %s\n", in[pos].first.c_str(), name); fflush(stderr); _exit(4); }
        return in[pos++].second;
    }
    return 0;
}
extern "C" {
uint64_t sx_sym(const char* name, int bits) { uint64_t v = next(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t sx_range_(const char* name, uint64_t lo, uint64_t hi) { uint64_t v = next(name); return v == 0 && pos > in.size() ? lo : v; }
void sx_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(3); } }
void sx_assert(int c, const char* w) { if (!c) { printf("REPRODUCED: assertion failed: %s\n", w); fflush(stdout); _exit(1); } }
void sx_fail(const char* w) { printf("REPRODUCED: reached: %s\n", w); fflush(stdout); _exit(1); }
void sx_cover(const char*) {}
uint64_t sx_choose(const char* name, uint64_t n) { uint64_t v = next(name); return v; }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t) { return 0; }
void sx_stop() { printf("PATH-END\n"); fflush(stdout); _exit(0); }
void sx_note(const char* w, uint64_t v) { fprintf(stderr, "note %s = %llu (0x%llx)\n", w, (unsigned long long)v, (unsigned long long)v); }
void sx_sched(int, int) {}
void sx_limit(uint64_t) {}
int sx_threads_running() { return 0; }
void sx_yield(const char*) {}
}
int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IONBF, 0);
    if (argc > 1) {
        FILE* f = fopen(argv[1], "r");
        char ln[512];
        while (f && fgets(ln, sizeof ln, f)) {   // a name, which may hold blanks, and a number
            char* b = strrchr(ln, ' ');
            if (b) in.push_back({std::string(ln, b), strtoull(b + 1, nullptr, 10)});
        }
        if (f) fclose(f);
    }
    void (*entry)() = argc > 2 ? (void (*)())dlsym(RTLD_DEFAULT, argv[2]) : nullptr;
    if (!entry) { fprintf(stderr, "no entry\n"); return 5; }
    try { entry(); }
    catch (const std::exception& e) { printf("REPRODUCED: uncaught exception: %s\n", e.what()); fflush(stdout); _exit(1); }
    catch (...) { printf("REPRODUCED: uncaught exception\n"); fflush(stdout); _exit(1); }
    printf("PATH-END\n");
    fflush(stdout);
    _exit(0);
}
