#include "solver.h"
#include "lia.h"
#include <map>
#include <unistd.h>
#include <csignal>
#include <cstring>
#include <sys/time.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>

SolverStats g_ss;
bool g_noDomain = false;
unsigned g_rlimit = 0;
static Z3_context ctx; static Z3_solver slv;
static unsigned g_slvUses = 0; static Z3_solver lslv;
u64 g_liaCalls = 0, g_liaDecided = 0; static double g_liaSpent = 0;

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

static void onAlarm(int) { if (ctx) Z3_interrupt(ctx); }
double g_solverDeadline = 0; unsigned g_queryMs = 15000; // one query may take g_queryMs, and none runs past the deadline
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void armTimer(bool on) {
  static bool inst = false; if (!inst) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr); inst = true; }
  struct itimerval it; memset(&it, 0, sizeof it);
  if (on) { double t = g_queryMs / 1000.0; if (g_solverDeadline > 0) t = std::min(t, std::max(0.2, g_solverDeadline - nowS())); it.it_value.tv_sec = (time_t)t; it.it_value.tv_usec = (long)((t - (time_t)t) * 1e6); it.it_interval.tv_usec = 200000; }
  setitimer(ITIMER_REAL, &it, nullptr);
}
static void makeSolver() {
  if (slv) Z3_solver_dec_ref(ctx, slv);
  slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  if (g_rlimit) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), g_rlimit);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
  Z3_solver_set_params(ctx, slv, p);
  Z3_params_dec_ref(ctx, p);
}
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, onErr);
  Z3_del_config(cfg);
  makeSolver();
}

struct BmHash { size_t operator()(const Bitmap& b) const { u64 h = b.b[0]; for (int i = 1; i < 4; i++) h = (h ^ b.b[i]) * 0x9E3779B97F4A7C15ull ^ (h >> 29); return h; } };
struct BmEq { bool operator()(const Bitmap& a, const Bitmap& b) const { return !memcmp(&a, &b, sizeof a); } };
static std::unordered_map<Bitmap, const Bitmap*, BmHash, BmEq> g_bms;
const Bitmap* internBitmap(const Bitmap& b) {
  auto it = g_bms.find(b);
  if (it != g_bms.end()) return it->second;
  return g_bms[b] = new Bitmap(b);
}
static bool bmGet(const Bitmap& b, unsigned v) { return b.b[v >> 6] >> (v & 63) & 1; }
static unsigned bmCount(const Bitmap& b) { unsigned n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(b.b[i]); return n; }
static const Bitmap FULL{{~0ull, ~0ull, ~0ull, ~0ull}};
static Bitmap bmAnd(const Bitmap& a, const Bitmap& b) { Bitmap r; for (int i = 0; i < 4; i++) r.b[i] = a.b[i] & b.b[i]; return r; }
static bool bmEmpty(const Bitmap& a) { return !(a.b[0] | a.b[1] | a.b[2] | a.b[3]); }

Expr* domExpr(u32 var, const Bitmap* b) {
  static std::map<std::pair<u32, const Bitmap*>, Expr*> memo;
  auto k = std::make_pair(var, b);
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  Expr* v = mkVar(var); Expr* r = mkConst(1, 0);
  for (unsigned i = 0; i < 256;) {
    if (!bmGet(*b, i)) { i++; continue; }
    unsigned j = i; while (j < 255 && bmGet(*b, j + 1)) j++;
    Expr* t = i == j ? mkBin(Op::Eq, v, mkConst(8, i))
      : mkBin(Op::And, i == 0 ? mkConst(1, 1) : mkBin(Op::Ule, mkConst(8, i), v), j == 255 ? mkConst(1, 1) : mkBin(Op::Ule, v, mkConst(8, j)));
    r = mkBin(Op::Or, r, t);
    i = j + 1;
  }
  return memo[k] = r;
}

bool pcSingletons(const PathCond& pc, Expr* e) {
  for (u32 v : e->vs->v) {
    if (v >= pc.dom.size() || !pc.dom[v]) return false;
    if (bmCount(*pc.dom[v]) != 1) return false;
  }
  return true;
}

void pcAdd(PathCond& pc, Expr* c) {
  if (isC(c)) return;
  if (c->op == Op::And) { pcAdd(pc, c->k[0]); pcAdd(pc, c->k[1]); return; }
  if (c->op == Op::Xor && c->w == 1 && isC(c->k[1]) && c->k[0]->op == Op::Or) { pcAdd(pc, mkNot(c->k[0]->k[0])); pcAdd(pc, mkNot(c->k[0]->k[1])); return; }
  auto& vs = c->vs->v;
  u32 mx = vs.empty() ? 0 : vs.back();
  if (pc.dom.size() <= mx) { pc.dom.resize(mx + 1, nullptr); pc.ent.resize(mx + 1, 0); }
  if (vs.size() == 1 && !g_noDomain) {
    u32 v = vs[0];
    Bitmap b = bmAnd(truthTable(c), pc.dom[v] ? *pc.dom[v] : FULL);
    pc.dom[v] = internBitmap(b);
    return;
  }
  for (Expr* x : pc.cons) if (x == c) return;
  pc.cons.push_back(c);
  for (u32 v : vs) pc.ent[v] = 1;
}

struct CacheEnt { Res r; std::vector<std::pair<u32, u8>> vals; };
static std::unordered_map<u64, CacheEnt> g_cache;
static u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

Res solverCheck(const PathCond& pc, Expr* q, const ModelRef& m, ModelRef* out, bool forceZ3) {
  if (isC(q)) { if (q->c) { if (out) *out = m; return Res::Sat; } return Res::Unsat; }
  g_ss.queries++;
  if (evalExpr(q, *m)) { g_ss.modelHits++; if (out) *out = m; return Res::Sat; }
  auto& qv = q->vs->v; bool tableUnsat = false; // a question about one byte that its table of 256 values already answers
  if (!g_noDomain && !forceZ3) {
    if (pcSingletons(pc, q)) { g_ss.domainDecided++; return Res::Unsat; }
    if (qv.size() == 1) {
      u32 v = qv[0];
      Bitmap b = truthTable(q);
      if (v < pc.dom.size() && pc.dom[v]) b = bmAnd(b, *pc.dom[v]);
      if (bmEmpty(b)) { g_ss.domainDecided++; return Res::Unsat; }
      if (v >= pc.ent.size() || !pc.ent[v]) {
        g_ss.domainDecided++;
        if (out) { auto nm = copyModel(m); if (nm->val.size() <= v) nm->val.resize(v + 1);
          unsigned x = 0; while (!bmGet(b, x)) x++; nm->val[v] = x; *out = nm; }
        return Res::Sat;
      }
    }
  }
  if (forceZ3 && !g_noDomain && qv.size() == 1) { u32 v = qv[0]; Bitmap b = truthTable(q); if (v < pc.dom.size() && pc.dom[v]) b = bmAnd(b, *pc.dom[v]); tableUnsat = bmEmpty(b); }
  // slice
  std::vector<Expr*> slice; std::vector<char> inS(pc.cons.size(), 0);
  std::vector<u8> need; std::vector<u32> vars(qv);
  { u32 mx = std::max<size_t>(g_vars.size(), 1); need.assign(mx, 0); for (u32 v : qv) need[v] = 1; }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.cons.size(); i++) if (!inS[i]) {
      auto& vs = pc.cons[i]->vs->v; bool hit = false;
      for (u32 v : vs) if (need[v]) { hit = true; break; }
      if (hit) { inS[i] = 1; slice.push_back(pc.cons[i]); ch = true; for (u32 v : vs) if (!need[v]) { need[v] = 1; vars.push_back(v); } }
    }
  }
  // local guesses: change one byte of the current model
  if (!forceZ3) {
    unsigned budget = 1500;
    for (u32 v : qv) {
      if (qv.size() > 4) break;
      Bitmap b = (v < pc.dom.size() && pc.dom[v]) ? *pc.dom[v] : FULL;
      if (qv.size() == 1) b = bmAnd(b, truthTable(q));
      std::vector<Expr*> rel; for (Expr* s : slice) { for (u32 w : s->vs->v) if (w == v) { rel.push_back(s); break; } }
      unsigned nb = bmCount(b);
      if (nb * (rel.size() + 1) > budget) continue;
      budget -= nb * (rel.size() + 1);
      auto nm = copyModel(m); if (nm->val.size() <= v) nm->val.resize(v + 1);
      for (unsigned x = 0; x < 256; x++) if (bmGet(b, x)) {
        auto t = copyModel(nullptr); t->val.swap(nm->val); t->val[v] = x; nm->val.clear();
        bool ok = evalExpr(q, *t);
        for (size_t i = 0; ok && i < rel.size(); i++) ok = evalExpr(rel[i], *t);
        if (ok) { g_ss.guessHits++; if (out) *out = t; return Res::Sat; }
        nm->val.swap(t->val);
      }
    }
  }
  std::vector<Expr*> as(slice);
  for (u32 v : vars) if (v < pc.dom.size() && pc.dom[v]) as.push_back(domExpr(v, pc.dom[v]));
  std::vector<u32> ids; for (Expr* e : as) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end());
  u64 h = mix(0x1234567, q->id); for (u32 i : ids) h = mix(h, i);
  u64 h2 = h; 
  auto it = g_cache.find(h2);
  if (it != g_cache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == Res::Sat && out) { auto nm = copyModel(m); for (auto& p : it->second.vals) { if (nm->val.size() <= p.first) nm->val.resize(p.first + 1); nm->val[p.first] = p.second; } *out = nm; }
    return it->second.r;
  }
  if (g_solverDeadline > 0 && nowS() > g_solverDeadline + 5) { g_ss.z3Unknown++; return Res::Unknown; }
  auto t0 = std::chrono::steady_clock::now();
  g_ss.z3Calls++;
  auto asB0 = [&](Z3_lbool r, Z3_model zm, bool ints) -> Res {
    CacheEnt ce; ce.r = r == Z3_L_TRUE ? Res::Sat : Res::Unsat;
    if (r == Z3_L_TRUE) {
      auto nm = copyModel(m);
      for (u32 v : vars) {
        Z3_ast val; u64 x = 0; Z3_ast t = ints ? liaVar(v) : toZ3(ctx, mkVar(v));
        if (t && Z3_model_eval(ctx, zm, t, true, &val)) { uint64_t y; if (Z3_get_numeral_uint64(ctx, val, &y)) x = y; }
        ce.vals.push_back({v, (u8)x}); if (nm->val.size() <= v) nm->val.resize(v + 1); nm->val[v] = (u8)x;
      }
      bool ok = evalExpr(q, *nm); for (Expr* e : as) ok = ok && evalExpr(e, *nm);
      if (!ok) { fprintf(stderr, "FATAL: solver model does not satisfy query under evaluator\n"); abort(); }
      if (out) *out = nm;
    }
    g_cache[h2] = ce; return ce.r; };
  static bool noLia = getenv("SYMEX_NOLIA") != nullptr;
  bool heavy = !noLia && !tableUnsat && liaHeavy(q); for (size_t i = 0; !noLia && !heavy && i < as.size(); i++) heavy = liaHeavy(as[i]);
  if (heavy) {
    std::vector<Z3_ast> fs; bool ok = true; Z3_ast f; if (liaBool(ctx, q, &f)) fs.push_back(f); else ok = false; for (size_t i = 0; ok && i < as.size(); i++) { if (liaBool(ctx, as[i], &f)) fs.push_back(f); else ok = false; }
    if (ok) {
      g_liaCalls++; if (lslv) Z3_solver_dec_ref(ctx, lslv); lslv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LIA")); Z3_solver_inc_ref(ctx, lslv);
      for (u32 v : vars) if (Z3_ast x = liaVar(v)) { Z3_ast c[2] = {Z3_mk_le(ctx, Z3_mk_int(ctx, 0, Z3_mk_int_sort(ctx)), x), Z3_mk_le(ctx, x, Z3_mk_int(ctx, 255, Z3_mk_int_sort(ctx)))}; Z3_solver_assert(ctx, lslv, c[0]); Z3_solver_assert(ctx, lslv, c[1]); }
      for (Z3_ast x : fs) Z3_solver_assert(ctx, lslv, x);
      if (const char* dump = getenv("SYMEX_DUMPL")) { FILE* fo = fopen(dump, "w"); if (fo) { fprintf(fo, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, lslv)); fclose(fo); } }
      unsigned sv = g_queryMs; g_queryMs = std::min(g_queryMs, 8000u); armTimer(true); g_queryMs = sv; Z3_lbool r = Z3_solver_check(ctx, lslv); armTimer(false);
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.z3Time += dt; if (dt > g_ss.z3Max) g_ss.z3Max = dt;
      if (r != Z3_L_UNDEF) { g_liaDecided++; Res res; if (r == Z3_L_TRUE) { g_ss.z3Sat++; Z3_model zm = Z3_solver_get_model(ctx, lslv); Z3_model_inc_ref(ctx, zm); res = asB0(r, zm, true); Z3_model_dec_ref(ctx, zm); } else { g_ss.z3Unsat++; res = asB0(r, nullptr, true); } return res; }
      if (getenv("SYMEX_LIADBG")) { static int n; char fn[64]; snprintf(fn, sizeof fn, "/tmp/lia%d_%d.smt2", (int)getpid(), n++); FILE* fo = fopen(fn, "w"); if (fo) { fprintf(fo, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, lslv)); fclose(fo); } fprintf(stderr, "lia gave up\n"); }
      t0 = std::chrono::steady_clock::now();
    } else if (getenv("SYMEX_LIADBG")) fprintf(stderr, "lia refused\n");
  }
  if (++g_slvUses > 2000) { makeSolver(); g_slvUses = 0; }
  Z3_solver_reset(ctx, slv);
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  auto asB = [&](Expr* e) { return Z3_mk_eq(ctx, toZ3(ctx, e), one); };
  for (Expr* e : as) Z3_solver_assert(ctx, slv, asB(e));
  Z3_solver_assert(ctx, slv, asB(q));
  if (const char* dump = getenv("SYMEX_DUMP")) { FILE* f = fopen(dump, "w"); if (f) { fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, slv)); fclose(f); } }
  { unsigned sv = g_queryMs; if (tableUnsat) g_queryMs = std::min(g_queryMs, 60u); armTimer(true); g_queryMs = sv; } Z3_lbool r = Z3_solver_check(ctx, slv); armTimer(false);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3Time += dt; if (dt > g_ss.z3Max) g_ss.z3Max = dt;
  if (r == Z3_L_UNDEF) { g_ss.z3Unknown++; makeSolver(); g_slvUses = 0;
    if (tableUnsat) { g_ss.z3Unknown--; g_ss.domainDecided++; return Res::Unsat; }
    return Res::Unknown; }
  CacheEnt ce; ce.r = r == Z3_L_TRUE ? Res::Sat : Res::Unsat;
  if (r == Z3_L_TRUE) {
    g_ss.z3Sat++;
    Z3_model zm = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, zm);
    auto nm = copyModel(m);
    for (u32 v : vars) {
      Z3_ast val; u64 x = 0;
      if (Z3_model_eval(ctx, zm, toZ3(ctx, mkVar(v)), true, &val)) { uint64_t y; if (Z3_get_numeral_uint64(ctx, val, &y)) x = y; }
      ce.vals.push_back({v, (u8)x});
      if (nm->val.size() <= v) nm->val.resize(v + 1);
      nm->val[v] = (u8)x;
    }
    Z3_model_dec_ref(ctx, zm);
    // sanity: our evaluator must agree with the solver
    bool ok = evalExpr(q, *nm); for (Expr* e : as) ok = ok && evalExpr(e, *nm);
    if (!ok) { fprintf(stderr, "FATAL: solver model does not satisfy query under evaluator\n"); abort(); }
    if (out) *out = nm;
  } else g_ss.z3Unsat++;
  g_cache[h2] = ce;
  return ce.r;
}
