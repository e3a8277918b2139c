// a scratch file with the given content (a table entry in the symbolic build, a real file in a private scratch directory natively)
#pragma once
#include "sym.h"
#include <fstream>
#ifndef JSYM
#include <filesystem>
#include <unistd.h>
#endif
struct sym_scratch {
#ifdef JSYM
    std::string path(const char* n) { return std::string("/jsym/") + n; }
    void put(const char* n, const std::string& d) { jsym_fs::head = new jsym_fs::ent{path(n), d, jsym_fs::head}; }
    ~sym_scratch() { jsym_fs::head = nullptr; }
#else
    std::string dir; sym_scratch() { char t[] = "/tmp/jsymfs.XXXXXX"; dir = mkdtemp(t); }
    std::string path(const char* n) { return dir + "/" + n; }
    void put(const char* n, const std::string& d) { std::ofstream o(path(n), std::ios::binary); o.write(d.data(), (std::streamsize)d.size()); }
    ~sym_scratch() { std::error_code e; if (dir.size() > 8) std::filesystem::remove_all(dir, e); }
#endif
};
