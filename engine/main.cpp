// symex: bounded symbolic execution of LLVM bitcode.
#include "decode.h"
#include "exec.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <fstream>
#include <algorithm>
using namespace llvm;
struct Shared { volatile int freeSlots; volatile int stop; volatile int nviol; volatile u64 insts; };
static Shared* sh; static std::string outDir; static int maxWorkers = 8; static double maxTime = 60; static u64 maxInsts = 0; static unsigned nSamples = 24;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static bool timedOut = false; static u64 pendingLeft = 0;
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; sprintf(b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
struct Sample { std::vector<std::pair<std::string, std::string>> model; std::vector<std::pair<std::string, u64>> obs; u64 h; };
static std::vector<Sample> samples; 
static std::map<std::string, u64> reachCount;
static int splits = 0;

static void finish(State& st, int kind) {
  if (kind == 0) {
    g_es.done++;
    for (auto& r : st.reach) reachCount[r]++;
    // keep a deterministic pseudo-random selection of finished paths
    Sample s; s.model = dumpModel(st, *st.model);
    u64 h = 1469598103934665603ull; for (auto& p : s.model) for (char c : p.second) h = (h ^ (u8)c) * 1099511628211ull; h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; s.h = h ^ (h >> 29);
    if (samples.size() < nSamples || s.h < samples.back().h) {
      for (auto& o : st.obs) s.obs.push_back({o.first, o.second.e ? evalExpr(o.second.e, *st.model) : o.second.c});
      samples.insert(std::lower_bound(samples.begin(), samples.end(), s, [](const Sample& a, const Sample& b) { return a.h < b.h; }), s);
      if (samples.size() > nSamples) samples.pop_back();
    }
  } else if (kind == 1) g_es.assumed++; else if (kind == 2) g_es.violated++; else g_es.incomplete++;
}
static std::string modelJson(const std::vector<std::pair<std::string, std::string>>& m) { std::string s = "{"; bool f = true; for (auto& p : m) { if (!f) s += ","; f = false; s += js(p.first) + ":" + js(p.second); } return s + "}"; }
static void dump() {
  std::string fn = outDir + "/w" + std::to_string(getpid()) + ".json"; FILE* o = fopen(fn.c_str(), "w"); if (!o) return;
  fprintf(o, "{\"insts\":%llu,\"forks\":%llu,\"branches\":%llu,\"done\":%llu,\"assumed\":%llu,\"violated\":%llu,\"incomplete\":%llu,\"timedOut\":%d,\"pendingLeft\":%llu,", (unsigned long long)g_es.insts, (unsigned long long)g_es.forks, (unsigned long long)g_es.branches, (unsigned long long)g_es.done, (unsigned long long)g_es.assumed, (unsigned long long)g_es.violated, (unsigned long long)g_es.incomplete, timedOut, (unsigned long long)pendingLeft);
  fprintf(o, "\"solver\":{\"queries\":%llu,\"modelHits\":%llu,\"domainDecided\":%llu,\"guessHits\":%llu,\"cacheHits\":%llu,\"z3Calls\":%llu,\"z3Sat\":%llu,\"z3Unsat\":%llu,\"z3Unknown\":%llu,\"assertQueries\":%llu,\"z3Time\":%.3f,\"z3Max\":%.3f},", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.domainDecided, (unsigned long long)g_ss.guessHits, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.z3Calls, (unsigned long long)g_ss.z3Sat, (unsigned long long)g_ss.z3Unsat, (unsigned long long)g_ss.z3Unknown, (unsigned long long)g_ss.assertQueries, g_ss.z3Time, g_ss.z3Max);
  fprintf(o, "\"exprs\":%llu,\"reach\":{", (unsigned long long)g_exprCount); bool f = true; for (auto& r : reachCount) { fprintf(o, "%s%s:%llu", f ? "" : ",", js(r.first).c_str(), (unsigned long long)r.second); f = false; }
  fprintf(o, "},\"incompleteReasons\":{"); f = true; for (auto& r : g_incomplete) { fprintf(o, "%s%s:%llu", f ? "" : ",", js(r.first).c_str(), (unsigned long long)r.second); f = false; }
  fprintf(o, "},\"functions\":["); f = true;
  for (auto& p : g_fnByName) if (p.second->executed && p.second->f) { std::string file; if (auto* sp = p.second->f->getSubprogram()) file = sp->getFilename().str(); fprintf(o, "%s[%s,%s]", f ? "" : ",", js(p.first).c_str(), js(file).c_str()); f = false; }
  fprintf(o, "],\"violations\":["); f = true;
  for (auto& p : g_viol) { auto& v = p.second; fprintf(o, "%s{\"key\":%s,\"kind\":%s,\"msg\":%s,\"site\":%s,\"stack\":%s,\"count\":%llu,\"models\":[", f ? "" : ",", js(p.first).c_str(), js(v.kind).c_str(), js(v.msg).c_str(), js(v.site).c_str(), js(v.stack).c_str(), (unsigned long long)v.count); f = false;
    for (size_t i = 0; i < v.models.size(); i++) fprintf(o, "%s%s", i ? "," : "", modelJson(v.models[i]).c_str()); fprintf(o, "]}"); }
  fprintf(o, "],\"samples\":["); f = true;
  for (auto& s : samples) { fprintf(o, "%s{\"model\":%s,\"obs\":[", f ? "" : ",", modelJson(s.model).c_str()); f = false; for (size_t i = 0; i < s.obs.size(); i++) fprintf(o, "%s[%s,\"%llu\"]", i ? "," : "", js(s.obs[i].first).c_str(), (unsigned long long)s.obs[i].second); fprintf(o, "]}"); }
  fprintf(o, "]}\n"); fclose(o);
}
static void resetStats() { g_es = ExecStats(); g_ss = SolverStats(); samples.clear(); reachCount.clear(); g_incomplete.clear(); g_viol.clear(); timedOut = false; pendingLeft = 0; }

static bool trySplit() {
  if (g_pending.size() < 2) return false;
  int v = sh->freeSlots; if (v <= 0) return false;
  if (!__sync_bool_compare_and_swap(&sh->freeSlots, v, v - 1)) return false;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_add(&sh->freeSlots, 1); return false; }
  size_t n = g_pending.size(), half = (n + 1) / 2;
  std::vector<State*> mine;
  if (p == 0) { // child takes every other state, oldest first
    prctl(PR_SET_PDEATHSIG, 0);
    resetStats();
    for (size_t i = 0; i < n; i++) { if (i % 2 == 0) mine.push_back(g_pending[i]); else delete g_pending[i]; }
    (void)half;
    g_pending.swap(mine); return true;
  }
  for (size_t i = 0; i < n; i++) { if (i % 2 == 1) mine.push_back(g_pending[i]); else delete g_pending[i]; }
  g_pending.swap(mine); splits++;
  return true;
}
extern double g_solverDeadline; extern unsigned g_queryMs;
static std::string rssLimitMsg;
static size_t rss() { FILE* f = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b * 4096; }
static void work() {
  u64 k = 0; bool bfs = true;
  while (!g_pending.empty()) {
    if ((++k & 15) == 0 || g_pending.size() > 1) {
      if (now() > maxTime) { timedOut = true; pendingLeft += g_pending.size(); break; }
      if (sh->stop) { pendingLeft += g_pending.size(); timedOut = true; break; }
      if ((k & 255) == 0 && rss() > 3500ull << 20) { g_incomplete["memory limit of a worker reached"]++; pendingLeft += g_pending.size(); timedOut = true; break; }
      if (sh->freeSlots > 0) { trySplit(); }
    }
    if (k > 64) bfs = false;
    State* s;
    if (bfs) { s = g_pending.front(); g_pending.erase(g_pending.begin()); } else { s = g_pending.back(); g_pending.pop_back(); }
    int kind = 0;
    try { runState(*s); } catch (PathEnd& e) { kind = e.kind; }
    finish(*s, kind);
    delete s;
  }
}
int main(int argc, char** argv) {
  std::string bc, entry = "harness"; bool single = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto val = [&](const char* p) { return a.substr(strlen(p)); };
    if (a.rfind("--entry=", 0) == 0) entry = val("--entry="); else if (a.rfind("--out=", 0) == 0) outDir = val("--out="); else if (a.rfind("--time=", 0) == 0) maxTime = atof(val("--time=").c_str());
    else if (a.rfind("--workers=", 0) == 0) maxWorkers = atoi(val("--workers=").c_str()); else if (a.rfind("--rlimit=", 0) == 0) g_rlimit = atoi(val("--rlimit=").c_str()); else if (a == "--no-domain") g_noDomain = true; else if (a == "--trace") g_trace = true; else if (a == "--single") single = true;
    else if (a.rfind("--limit=", 0) == 0) g_defLimit = strtoull(val("--limit=").c_str(), 0, 10); else if (a.rfind("--qms=", 0) == 0) g_queryMs = atoi(val("--qms=").c_str()); else if (a.rfind("--samples=", 0) == 0) nSamples = atoi(val("--samples=").c_str()); else bc = a; }
  T0 = std::chrono::steady_clock::now(); g_solverDeadline = std::chrono::duration<double>(T0.time_since_epoch()).count() + maxTime;
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512u << 20)) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 512u << 20); if (setrlimit(RLIMIT_STACK, &rl) == 0) { execv("/proc/self/exe", argv); } }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof *sh);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  solverInit();
  State* s = new State; s->model = newModel(); 
  loadModule(bc.c_str(), s->mem);
  auto it = g_fnByName.find(entry); if (it == g_fnByName.end() || it->second->f->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  // global constructors
  std::vector<std::pair<u64, Function*>> ctors;
  if (auto* gc = g_mod->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  s->limit = g_defLimit;
  for (auto& c : ctors) { try { pushFrame(*s, fnFor(c.second), {}); runState(*s); } catch (PathEnd& e) { if (e.kind != 0) { fprintf(stderr, "global constructor %s failed (%d)\n", c.second->getName().str().c_str(), e.kind); for (auto& v : g_viol) fprintf(stderr, "%s\n%s", v.first.c_str(), v.second.stack.c_str()); return 2; } } }
  if (!g_pending.empty()) { fprintf(stderr, "constructors forked\n"); return 2; }
  s->ninst = 0; g_es = ExecStats();
  pushFrame(*s, it->second, {});
  g_pending.push_back(s);
  sh->freeSlots = single ? 0 : maxWorkers - 1;
  pid_t root = getpid();
  work();
  dump();
  __sync_fetch_and_add(&sh->freeSlots, 1);
  if (getpid() != root) { fflush(nullptr); _exit(0); }
  int bad = 0; for (;;) { int stt; pid_t p = waitpid(-1, &stt, 0); if (p < 0) break; if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { bad++; fprintf(stderr, "worker %d died: status %x\n", p, stt); } }
  FILE* o = fopen((outDir + "/root.json").c_str(), "w"); if (o) { fprintf(o, "{\"wall\":%.3f,\"bad\":%d}\n", now(), bad); fclose(o); }
  return bad ? 3 : 0;
}
