#include "exec.h"
#include <pthread.h>
#include <sys/mman.h>
#include <fstream>
#include <unistd.h>
using namespace jsym;
static int g_argc; static char** g_argv; static int g_rc = 0;
static void* go(void*) {
    Options o; std::string bc, out; int argc = g_argc; char** argv = g_argv;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") o.entry = nx(); else if (a == "--time") o.timeLimit = std::stod(nx()); else if (a == "--steps") o.maxSteps = std::stoull(nx()); else if (a == "--solver-ms") o.solverMs = (unsigned)std::stoul(nx()); else if (a == "--max-errors") o.maxErrors = std::stoi(nx()); else if (a == "--preempt") o.maxPreempt = std::stoi(nx()); else if (a == "--spurious") o.spurious = std::stoi(nx()); else if (a == "--samples") o.samples = std::stoul(nx()); else if (a == "--out") out = nx(); else if (a == "--repo") o.repoPrefix = nx(); else if (a == "--xdir") o.xdir = nx(); else if (a == "--xevery") o.xevery = (unsigned)std::stoul(nx()); else if (a == "-v") o.verbose = true; else if (a == "--seed") o.seed = std::stoull(nx()); else if (a == "--mem") o.memMB = std::stod(nx()); else bc = a; }
    Exec ex(o); ex.load(bc); ex.run(); std::string j = ex.json();
    if (out.empty()) fwrite(j.data(), 1, j.size(), stdout); else { std::ofstream f(out); f << j; }
    fflush(stdout); _exit(0); return nullptr;
}
int main(int argc, char** argv) {
    g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); size_t sz = size_t(4) << 30; void* st = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    pthread_attr_setstack(&at, st, sz); pthread_t t; pthread_create(&t, &at, go, nullptr); pthread_join(t, nullptr); return g_rc;
}
