#pragma once
#include "state.h"
struct Config {
  std::string module, entry = "lps_main", out; double timeLimit = 60; int workers = 1; int preempt = 2; int timeouts = 1; uint64_t maxSteps = 40000000; uint64_t maxBranches = 5000; int maxViol = 3; int samples = 4;
  int maxIdle = 150; bool races = true; int spurious = 0; bool concAddr = false; size_t maxFork = 4096; uint64_t maxPaths = ~0ull;
  std::map<std::string, int64_t> params;
};
extern Config gCfg;
extern std::vector<Fn*> gFns;
extern std::unordered_map<std::string, Builtin> gBuiltins;
extern llvm::Module* gM;

// engine primitives used by builtins
bool decide(State& S, E cond);                       // fork on a boolean
bool decideV(State& S, const Val& v, unsigned w = 1);
uint64_t concretize(State& S, const Val& v, unsigned w);
int chooseN(State& S, int n, bool sched);            // fork n ways
void assumeC(State& S, E c);
E freshVar(State& S, const std::string& name, unsigned w, bool uninit = false);
Val load(State& S, const Val& addr, unsigned w, bool atomic = false);
void store(State& S, const Val& addr, const Val& v, unsigned w, bool atomic = false);
void readBytes(State& S, const Val& addr, uint64_t n, std::vector<Val>& out, bool keepUninit = false);   // Val with e==nullptr,c==256: uninitialised (keepUninit)
void writeBytes(State& S, const Val& addr, const std::vector<Val>& in);
uint64_t allocObj(State& S, uint64_t size, ObjKind k, bool zero, const char* name);
void freeObj(State& S, uint64_t addr, int kind, const char* what);   // kind: ObjKind expected
[[noreturn]] void violation(State& S, const std::string& msg);
[[noreturn]] void incomplete(State& S, const std::string& why);
void pushCall(State& S, Fn* f, const std::vector<Val>& args, int retSlot, int retN, uint8_t special = 0, uint64_t sp = 0);
Fn* fnAt(uint64_t addr);
std::string readCStr(State& S, const Val& addr, size_t max = 100000);
void doThrow(State& S, uint64_t exn, bool search);
uint64_t rd(State& S, uint64_t addr, unsigned bytes);
std::string typeName(State& S, uint64_t ti);
uint64_t globalAddr(const std::string& n);
bool schedPoint(State& S);        // returns false if control moved to another thread (retry)
void blockCurrent(State& S);      // current thread cannot proceed: the main loop picks another
void yieldCurrent(State& S);
void visDone(State& S);
void syncAcq(State& S, uint64_t a); void syncRel(State& S, uint64_t a);
void noteCover(State& S, const char* n);
void checkAssert(State& S, E c, const std::string& msg);
uint64_t castPtr(State& S, uint64_t p, uint64_t ti, uint64_t target, bool& found);
bool mathIntrinsic(const std::string& full, State& S, const std::vector<Val>& a, const DI& d, Val& out);
const char* internStr(const std::string& s);
void registerBuiltins();
