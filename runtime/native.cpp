// Native replay runtime: the harness is linked with the real code, built by the real compiler with the
// real standard library and sanitizers; the values of one engine path are read from a replay file.
// Replay file lines:  entry NAME | in NAME WIDTH HEX | sched N N N ...
// exit codes: 0 path finished, 11 assertion of the harness failed, 97 replay diverged, others: crash/sanitizer
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iostream>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
#include <stdexcept>
#include <typeinfo>
namespace {
struct In { std::string name; unsigned w; uint64_t v; };
std::vector<In> g_in; size_t g_pos = 0; std::vector<int> g_sched; size_t g_spos = 0; bool g_soft = false;
uint64_t next(const char* name, unsigned w) {
    if (g_pos >= g_in.size()) { if (!g_soft) { printf("INPUTS-EXHAUSTED at %s\n", name); g_soft = true; } return 0; }
    auto& x = g_in[g_pos++];
    if (x.w != w || x.name != name) { printf("DIVERGED input %zu: replay has %s:%u, program asks %s:%u\n", g_pos - 1, x.name.c_str(), x.w, name, w); fflush(stdout); _exit(97); }
    return x.v;
}
}
extern "C" {
uint64_t sym_var(const char* name, unsigned bits) { return next(name, bits); }
int sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next((std::string(name) + "[" + std::to_string(i) + "]").c_str(), 8); return 0; }
uint64_t sym_choose(uint64_t n, const char* name) { uint64_t v = next(name, 32); if (v >= n) { printf("DIVERGED choice %s\n", name); fflush(stdout); _exit(97); } return v; }
int sym_assume(bool c) { if (!c) { printf("ASSUME-END\n"); fflush(stdout); _exit(g_soft ? 0 : 96); } return 0; }
int sym_assert(bool c, const char* label) { if (!c) { printf("ASSERT-FAILED %s\n", label); fflush(stdout); _exit(11); } return 0; }
int sym_reach(const char*) { return 0; }
int sym_observe(const char* name, uint64_t v) { printf("OBS %s %llx\n", name, (unsigned long long)v); return 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_stop() { printf("STOP\n"); fflush(stdout); _exit(0); }
int sym_native() { return 1; }
bool sym_and(bool a, bool b) { return a && b; }
bool sym_or(bool a, bool b) { return a || b; }
uint64_t sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
}
#ifdef SYM_THREADS
#include "native_threads.inc"
#else
extern "C" { int jsym_spawn(void (*)(void*), void*) { abort(); } int jsym_join_all() { return 0; } int jsym_tid() { return 0; } int jsym_asleep(int) { return 0; } }
#endif
int main(int argc, char** argv) {
    if (argc < 2) return 95;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::ifstream f(argv[1]); std::string line, entry;
    while (std::getline(f, line)) { std::istringstream s(line); std::string k; s >> k;
        if (k == "entry") s >> entry;
        else if (k == "in") { In x; std::string h; std::string rest; std::getline(s, rest); // "NAME WIDTH HEX" (name may contain spaces)
            auto p2 = rest.rfind(' '); auto p1 = rest.rfind(' ', p2 - 1); x.name = rest.substr(1, p1 - 1); x.w = (unsigned)std::stoul(rest.substr(p1 + 1, p2 - p1 - 1)); x.v = std::stoull(rest.substr(p2 + 1), nullptr, 16); g_in.push_back(x); }
        else if (k == "sched") { int t; while (s >> t) g_sched.push_back(t); } }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
    if (!fn) { printf("no entry %s\n", entry.c_str()); return 95; }
    alarm(20);
#ifdef SYM_THREADS
    run_threads(fn);
#else
    fn();
#endif
    if (g_pos < g_in.size()) { printf("DIVERGED %zu inputs unused\n", g_in.size() - g_pos); fflush(stdout); _exit(97); }
    printf("END\n"); fflush(stdout); _exit(0);
}
