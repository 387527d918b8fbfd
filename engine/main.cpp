#include "engine.h"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <fstream>
#include <set>
#include <pthread.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
std::unordered_map<const GlobalValue*, uint64_t> gAddr;
extern std::unordered_map<const Function*, Fn*> gFnOf;
extern uint64_t gTotalSteps, gForks, gAsserts, gAssertQueries; extern std::set<std::string> gCovers;
std::vector<State*> gWork;
void execute(State& S); std::string stackTrace(State& S); Val constVal(const Constant* c); unsigned bitsOf(Type* t);
void leaves(Type* t, std::vector<std::tuple<uint64_t, unsigned>>& out, uint64_t off);
typedef std::chrono::steady_clock SC; static SC::time_point gT0; static double now() { return std::chrono::duration<double>(SC::now() - gT0).count(); }

static std::string js(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void initGlobal(State& S, uint64_t base, const Constant* c, Type* t) {
  const DataLayout& DL = gM->getDataLayout();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cds->getRawDataValues(); Obj* o = S.heap.mut(base >> 32); memcpy(o->b + (base & 0xffffffff), r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(S, base + L->getElementOffset(i), c->getAggregateElement(i), st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initGlobal(S, base + i * es, c->getAggregateElement(i), at->getElementType()); return; }
  Val v = constVal(c); unsigned n = (bitsOf(t) + 7) / 8; Obj* o = S.heap.mut(base >> 32); u128 x = v.e ? v.e->c : v.c; memcpy(o->b + (base & 0xffffffff), &x, n);
}
static State* initialState() {
  State* S = new State; S->nextId = 1;
  gFns.clear(); const DataLayout& DL = gM->getDataLayout();
  // entry: all module constructors in priority order, then the harness
  { Function* main = gM->getFunction(gCfg.entry); if (!main) { fprintf(stderr, "no function %s\n", gCfg.entry.c_str()); exit(2); }
    Function* st = Function::Create(FunctionType::get(Type::getVoidTy(gM->getContext()), false), GlobalValue::ExternalLinkage, "__lps_start", gM);
    IRBuilder<> B(BasicBlock::Create(gM->getContext(), "e", st));
    std::vector<std::pair<uint64_t, Function*>> cs;
    if (auto* gc = gM->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) { auto* e = cast<ConstantStruct>(o); cs.push_back({cast<ConstantInt>(e->getOperand(0))->getZExtValue(), cast<Function>(e->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) B.CreateCall(c.second);
    B.CreateCall(main->getFunctionType(), main, std::vector<Value*>(main->arg_size(), B.getInt32(0))); B.CreateRetVoid(); }
  for (auto& F : *gM) {
    Fn* f = new Fn; f->F = &F; f->idx = gFns.size(); f->name = F.getName().str(); f->hasBody = !F.isDeclaration(); gFns.push_back(f); gFnOf[&F] = f; gAddr[&F] = (uint64_t)(0x40000000u + f->idx) << 32;
    if (auto* sp = F.getSubprogram()) { f->file = sp->getFilename().str(); std::string dir = sp->getDirectory().str(); if (f->file[0] != '/') f->file = dir + "/" + f->file; f->inRepo = f->file.find("/repo/") != std::string::npos; }
    f->quietAtomic = f->name.find("St6atomic") == std::string::npos && f->name.find("__atomic_base") == std::string::npos && f->name.find("atomic_flag") == std::string::npos;   // reference counts are not scheduling points
    auto b = gBuiltins.find(f->name); if (b != gBuiltins.end() && b->second) f->bi = b->second;
    if (f->name.find("mersenne_twister_engine") != std::string::npos) { if (f->name.size() > 5 && f->name.compare(f->name.size() - 5, 5, "EclEv") == 0) f->bi = gBuiltins["!mt19937"]; else if (f->name.find("7discardE") != std::string::npos || f->name.find("4seedE") != std::string::npos) f->bi = gBuiltins["!mtseed"]; }
  }
  for (auto& G : gM->globals()) {
    if (G.getName().startswith("llvm.")) continue;
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(G.getValueType()) : 8;
    bool ext = !G.hasInitializer(); if (ext && sz < 64) sz = 64;
    std::string nm = G.getName().str(); if (ext) nm = "?" + nm;
    gAddr[&G] = allocObj(*S, sz, OGlobal, true, internStr(nm)); Obj* o = S->heap.mut(gAddr[&G] >> 32); o->ro = G.isConstant() && !ext;
  }
  for (auto& G : gM->globals()) if (!G.getName().startswith("llvm.") && G.hasInitializer()) initGlobal(*S, gAddr[&G], G.getInitializer(), G.getValueType());
  S->th.emplace_back(); pushCall(*S, gFnOf[gM->getFunction("__lps_start")], {}, -1, 0);
  return S;
}
uint64_t globalAddr(const std::string& n) { auto* g = gM->getNamedValue(n); return g ? gAddr[g] : 0; }

// ---------- shared work queue between the worker processes ----------
struct Shared { pthread_mutex_t m; volatile int idle, workers, stop, viol; volatile size_t head, tail, cnt; volatile uint64_t paths; char buf[48 << 20]; };
static Shared* SH; static const size_t CAP = 48 << 20;
static void lockSh() { pthread_mutex_lock(&SH->m); } static void unlockSh() { pthread_mutex_unlock(&SH->m); }
static bool pushShared(const std::vector<uint64_t>& t) { // locked; variable-length encoding
  std::string b; for (uint64_t x : t) { while (x >= 128) { b += (char)(x | 128); x >>= 7; } b += (char)x; }
  size_t need = b.size() + 8; if (SH->tail + need > CAP) { if (SH->head > 0) { memmove(SH->buf, SH->buf + SH->head, SH->tail - SH->head); SH->tail -= SH->head; SH->head = 0; } if (SH->tail + need > CAP) return false; }
  uint64_t n = b.size(); memcpy(SH->buf + SH->tail, &n, 8); memcpy(SH->buf + SH->tail + 8, b.data(), n); SH->tail += need; SH->cnt++; return true;
}
static bool popShared(std::vector<uint64_t>& t) {
  if (!SH->cnt) return false; uint64_t n; memcpy(&n, SH->buf + SH->head, 8); const unsigned char* p = (unsigned char*)SH->buf + SH->head + 8; t.clear();
  for (uint64_t i = 0; i < n;) { uint64_t x = 0; int s = 0; while (true) { unsigned char c = p[i++]; x |= (uint64_t)(c & 127) << s; s += 7; if (!(c & 128)) break; } t.push_back(x); }
  SH->head += n + 8; SH->cnt--; if (!SH->cnt) SH->head = SH->tail = 0; return true;
}
static std::string hexOf(State& S, const Input& in) { std::string h; char b[4]; for (auto& v : in.bytes) { unsigned x = v.e ? (unsigned)evalExpr(v.e, S.model) & 255 : (unsigned)v.c & 255; snprintf(b, 4, "%02x", x); h += b; } return h; }
static std::string witness(State& S) { std::string o = "["; bool first = true; for (auto& in : S.inputs) { if (!first) o += ","; first = false; o += "[" + js(in.name) + "," + js(hexOf(S, in)) + "]"; } return o + "]"; }
static std::string obsOf(State& S) { std::string o = "["; bool first = true; for (auto& ob : S.obs) { if (!first) o += ","; first = false; std::string h; char b[24]; for (auto& v : ob.second) { unsigned long long x = v.e ? (unsigned long long)evalExpr(v.e, S.model) : v.c; if (ob.second.size() == 1) { snprintf(b, 24, "%llx", x); } else snprintf(b, 24, "%02llx", x & 255); h += b; } o += "[" + js(ob.first) + "," + js(h) + "]"; } return o + "]"; }

struct Stats { uint64_t paths = 0, pruned = 0, incomplete = 0, viol = 0, exported = 0; std::map<std::string, uint64_t> incWhy; std::map<std::string, std::string> viols; std::vector<std::string> samples; bool timedOut = false; uint64_t maxPc = 0, maxSteps = 0, maxTrail = 0; std::map<std::string, uint64_t> coverCount; };
static Stats st; static std::map<std::string, int> sampleKey; static std::map<std::string, std::string> coverWit;
static int gIdx = -1; static void writeResult(const std::string& path);
static void finishPath(State& S, const PathEnd& e) {
  st.maxPc = std::max<uint64_t>(st.maxPc, S.pc.size()); st.maxTrail = std::max<uint64_t>(st.maxTrail, S.trail.size()); st.maxSteps = std::max(st.maxSteps, S.steps);
  if (e.kind == 0) { st.paths++; __sync_fetch_and_add(&SH->paths, 1); std::string key; for (auto* c : S.covers) { key += c; key += ","; if (!coverWit.count(c)) coverWit[c] = witness(S); }
    if ((int)st.samples.size() < gCfg.samples || (sampleKey[key] == 0 && (int)st.samples.size() < 3 * gCfg.samples)) { sampleKey[key]++; st.samples.push_back("{\"inputs\":" + witness(S) + ",\"obs\":" + obsOf(S) + ",\"mt\":" + (S.mt ? "true" : "false") + "}"); } }
  else if (e.kind == 2) st.pruned++;
  else if (e.kind == 3) { st.incomplete++; st.incWhy[e.msg]++; if (getenv("LPS_DEBUG")) fprintf(stderr, "incomplete: %s\n   %s\n", e.msg.c_str(), stackTrace(S).c_str()); }
  else {
    st.viol++; std::string key = e.msg;
    if (!st.viols.count(key)) { std::string o = "{\"message\":" + js(e.msg) + ",\"stack\":" + js(stackTrace(S)) + ",\"mt\":" + (S.mt ? "true" : "false") + ",\"inputs\":" + witness(S) + ",\"covers\":["; for (size_t i = 0; i < S.covers.size(); i++) o += (i ? "," : "") + js(S.covers[i]); st.viols[key] = o + "]}"; __sync_fetch_and_add(&SH->viol, 1); if (gIdx >= 0) writeResult(gCfg.out + "." + std::to_string(gIdx)); }
  }
}
static void writeResult(const std::string& path) {
  std::ofstream o(path);
  o << "{\"paths\":" << st.paths << ",\"pruned\":" << st.pruned << ",\"incomplete\":" << st.incomplete << ",\"violating\":" << st.viol << ",\"steps\":" << gTotalSteps << ",\"forks\":" << gForks << ",\"asserts\":" << gAsserts << ",\"assert_queries\":" << gAssertQueries << ",\"queries\":" << gSolverStats.queries << ",\"z3calls\":" << gSolverStats.z3calls << ",\"sat\":" << gSolverStats.sat << ",\"unsat\":" << gSolverStats.unsat << ",\"unknown\":" << gSolverStats.unknown << ",\"cache_hits\":" << gSolverStats.cacheHits << ",\"z3time\":" << gSolverStats.z3time << ",\"maxq\":" << gSolverStats.maxq << ",\"timed_out\":" << (st.timedOut ? "true" : "false") << ",\"max_pc\":" << st.maxPc << ",\"max_trail\":" << st.maxTrail << ",\"max_steps\":" << st.maxSteps << ",\"time\":" << now();
  o << ",\"why\":{"; bool f = true; for (auto& w : st.incWhy) { o << (f ? "" : ",") << js(w.first) << ":" << w.second; f = false; } o << "}";
  o << ",\"covers\":{"; f = true; for (auto& c : coverWit) { o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; } o << "}";
  o << ",\"functions\":["; f = true; for (auto* x : gFns) if (x->covered && x->inRepo) { o << (f ? "" : ",") << js(x->name); f = false; } o << "]";
  uint64_t all = 0; for (auto* x : gFns) if (x->covered) all++; o << ",\"functions_total\":" << all;
  o << ",\"violations\":["; f = true; for (auto& v : st.viols) { o << (f ? "" : ",") << v.second; f = false; } o << "]";
  o << ",\"samples\":["; f = true; for (auto& v : st.samples) { o << (f ? "" : ",") << v; f = false; } o << "]}\n";
}
static void runState(State* S) {
  try { for (;;) execute(*S); } catch (PathEnd& e) {
    if (S->replaying && e.kind != 2) { PathEnd x{3, "internal: path ended while being re-executed: " + e.msg}; finishPath(*S, x); } else finishPath(*S, e); }
  delete S;
}
void shareWork() {
  if (gIdx < 0) return;
  if (SH->idle > 0 && gWork.size() > 1 && (int)SH->cnt < SH->idle * 2) {
      lockSh(); size_t n = std::min<size_t>(gWork.size() / 2, 8); size_t k = 0;
      for (; k < n; k++) if (gWork[k]->replaying || !pushShared(gWork[k]->trail)) break; else { delete gWork[k]; st.exported++; }
      gWork.erase(gWork.begin(), gWork.begin() + k); unlockSh();
    }
}
static void worker(State* init, bool first) {
  if (first) gWork.push_back(new State(*init));
  for (;;) {
    if (SH->stop) { for (auto* s : gWork) delete s; st.timedOut |= !gWork.empty(); return; }
    if (gWork.empty()) {
      lockSh(); SH->idle++; 
      for (;;) {
        std::vector<uint64_t> t;
        if (SH->stop) { unlockSh(); return; }
        if (popShared(t)) { SH->idle--; unlockSh(); State* n = new State(*init); n->trail = t; n->replaying = !t.empty(); gWork.push_back(n); break; }
        if (SH->idle == SH->workers) { SH->stop = 2; unlockSh(); return; }
        unlockSh(); usleep(300); lockSh();
      }
    }
    State* S = gWork.back(); gWork.pop_back(); runState(S);
    if (now() > gCfg.timeLimit) { if (!gWork.empty() || SH->cnt) st.timedOut = true; SH->stop = 1; }
    if (SH->viol >= gCfg.maxViol || SH->paths >= gCfg.maxPaths) { if (!gWork.empty() || SH->cnt) st.timedOut = SH->viol < gCfg.maxViol; SH->stop = 1; }
    shareWork();
  }
}
bool timeUp() { return now() > gCfg.timeLimit + 5 || SH->stop == 1; }
static void crash(int s) { const char m[] = "engine crashed\n"; if (write(2, m, sizeof m - 1)) {} _exit(70); }
int main(int argc, char** argv) {
  gT0 = SC::now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&](const char* p) { return a.substr(strlen(p)); };
    auto is = [&](const char* p) { return a.compare(0, strlen(p), p) == 0; };
    if (is("--entry=")) gCfg.entry = val("--entry="); else if (is("--out=")) gCfg.out = val("--out="); else if (is("--time=")) gCfg.timeLimit = atof(val("--time=").c_str());
    else if (is("--workers=")) gCfg.workers = atoi(val("--workers=").c_str()); else if (is("--preempt=")) gCfg.preempt = atoi(val("--preempt=").c_str()); else if (is("--spurious=")) gCfg.spurious = atoi(val("--spurious=").c_str()); else if (is("--timeouts=")) gCfg.timeouts = atoi(val("--timeouts=").c_str());
    else if (is("--max-steps=")) gCfg.maxSteps = strtoull(val("--max-steps=").c_str(), 0, 10); else if (is("--max-branches=")) gCfg.maxBranches = strtoull(val("--max-branches=").c_str(), 0, 10); else if (is("--max-viol=")) gCfg.maxViol = atoi(val("--max-viol=").c_str()); else if (is("--samples=")) gCfg.samples = atoi(val("--samples=").c_str());
    else if (is("--max-idle=")) gCfg.maxIdle = atoi(val("--max-idle=").c_str()); else if (is("--conc-addr=")) gCfg.concAddr = atoi(val("--conc-addr=").c_str()); else if (is("--races=")) gCfg.races = atoi(val("--races=").c_str()); else if (is("--dump=")) gDumpDir = val("--dump="); else if (is("--solver-timeout=")) gSolverTimeoutMs = atoi(val("--solver-timeout=").c_str());
    else if (is("--max-paths=")) gCfg.maxPaths = strtoull(val("--max-paths=").c_str(), 0, 10);
    else if (is("-D")) { auto s = a.substr(2); auto e = s.find('='); gCfg.params[s.substr(0, e)] = strtoll(s.substr(e + 1).c_str(), 0, 0); }
    else gCfg.module = a;
  }
  signal(SIGSEGV, crash); signal(SIGABRT, crash);
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(gCfg.module, err, ctx); if (!M) { err.print("lpsym", errs()); return 2; }
  gM = M.get(); registerBuiltins();
  State* init = initialState();
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&SH->m, &ma);
  SH->workers = gCfg.workers;
  if (gCfg.workers == 1) { worker(init, true); writeResult(gCfg.out.empty() ? "/dev/stdout" : gCfg.out + ".0"); fflush(nullptr); _exit(0); }
  std::vector<pid_t> ps;
  for (int i = 0; i < gCfg.workers; i++) { pid_t p = ::fork(); if (p == 0) { gIdx = i; worker(init, i == 0); writeResult(gCfg.out + "." + std::to_string(i)); fflush(nullptr); _exit(0); } ps.push_back(p); }
  int rc = 0; size_t left = ps.size(), killed = 0; std::set<pid_t> alive(ps.begin(), ps.end());
  while (left) {   // a worker stuck inside one solver call long after the time limit is given up: what it was exploring counts as not followed to the end
    int s; pid_t p = waitpid(-1, &s, WNOHANG); if (p < 0) break;
    if (p == 0) { usleep(2000); if (now() > gCfg.timeLimit + 30 && !alive.empty()) { SH->stop = 1; for (pid_t q : alive) if (kill(q, SIGKILL) == 0) killed++; for (pid_t q : alive) waitpid(q, &s, 0); left = 0; } continue; }
    alive.erase(p); left--; if (!WIFEXITED(s) || WEXITSTATUS(s)) { rc = 70; SH->stop = 1; } }
  if (killed) { st = Stats(); st.timedOut = true; st.incomplete = killed; st.incWhy["given up inside one long step"] = killed; gCfg.out += ".killed"; writeResult(gCfg.out); }
  return rc;
}
