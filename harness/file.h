// Files the code under test reads: a virtual table (symbolic run), or real files in a scratch directory that is removed at the end (native run).
#pragma once
#include "common.h"
#ifdef LPS_SYM
extern "C" void lps_file_put(const char*, const char*, size_t);
inline Str makeFile(const Str& text) { static int n = 0; Str p = "/cfg/" + std::to_string(n++); lps_file_put(p.c_str(), text.data(), text.size()); return p; }
inline Str noFile() { return "/cfg/none"; }
inline void removeFiles() {}
#else
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
static Str& scratch() { static Str d; return d; } static int gFiles = 0;
inline void removeFiles() { if (scratch().empty()) return; for (int i = 0; i < gFiles; i++) unlink((scratch() + "/" + std::to_string(i)).c_str()); rmdir(scratch().c_str()); scratch().clear(); }
inline Str makeFile(const Str& text) { if (scratch().empty()) { char t[] = "/tmp/lpsXXXXXX"; scratch() = mkdtemp(t); atexit(removeFiles); } Str p = scratch() + "/" + std::to_string(gFiles++); FILE* f = fopen(p.c_str(), "wb"); if (text.size()) fwrite(text.data(), 1, text.size(), f); fclose(f); return p; }
inline Str noFile() { return "/nonexistent-lps/none"; }
#endif
