// The symbolic interpreter.
#include "decode.h"
#include "exec.h"
#include <llvm/ADT/APInt.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <cmath>
#include <cstdio>
#include <cfenv>
using namespace llvm;

std::vector<State*> g_pending;
ExecStats g_es;
std::map<std::string, Violation> g_viol;
std::map<std::string, u64> g_incomplete;
std::set<std::string> g_reach;
static u64 g_stateId = 0;
u64 g_defLimit = 20000000;
bool g_trace = false;
std::vector<std::string> g_arrNames; std::vector<u32> g_arrBase;
static std::map<std::string, u32> g_arrIdx;

static State* cloneState(State& st) { State* s = new State(st); if (!s->frames.empty()) s->top(); /* the original keeps its own top frame: callers hold references into it */ s->id = ++g_stateId; s->depth++; g_es.forks++; return s; }

std::string stackOf(State& st) {
  std::string s;
  for (size_t i = st.frames.size(); i-- > 0;) { Frame* f = st.frames[i]; if (f->pc < f->fn->code.size()) { s += "    " + locOf(f->fn->code[f->pc].src) + "\n"; } if (st.frames.size() - i > 12) break; }
  return s;
}
std::vector<std::pair<std::string, std::string>> dumpModel(State& st, const Model& m) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto& a : st.arrays) {
    std::string h; char b[4]; u32 base = g_arrBase[a.first];
    for (u32 i = 0; i < a.second; i++) { sprintf(b, "%02x", m.get(base + i)); h += b; }
    r.push_back({g_arrNames[a.first], h});
  }
  return r;
}
void recordViolation(State& st, const std::string& kind, const std::string& msg, const Model& m) {
  Frame* f = st.frames.back();
  // the innermost frame belonging to the code under test names the site
  std::string site;
  for (size_t i = st.frames.size(); i-- > 0;) {
    Frame* fr = st.frames[i]; if (fr->pc >= fr->fn->code.size()) continue;
    std::string l = locOf(fr->fn->code[fr->pc].src);
    if (site.empty()) site = l;
    if (l.compare(0, 7, "daemon/") == 0 || l.compare(0, 4, "lib/") == 0) { site = l; break; }
  }
  (void)f;
  std::string key = kind + "|" + msg + "|" + site;
  auto& v = g_viol[key];
  v.count++;
  if (v.models.size() < 4) {
    v.kind = kind; v.msg = msg; v.site = site; v.stack = stackOf(st);
    v.models.push_back(dumpModel(st, m));
  }
}
[[noreturn]] void violate(State& st, const std::string& kind, const std::string& msg) { recordViolation(st, kind, msg, *st.model); throw PathEnd{2}; }
[[noreturn]] void incomplete(State& st, const std::string& why) {
  std::string w = why; Frame* f = st.frames.back(); if (f->pc < f->fn->code.size()) w += " at " + locOf(f->fn->code[f->pc].src);
  g_incomplete[w]++; if (g_incomplete[w] == 1) fprintf(stderr, "INCOMPLETE: %s\n%s", w.c_str(), stackOf(st).c_str()); throw PathEnd{3};
}

u64 concretize(State& st, Val& v, unsigned w) {
  if (!v.e) return v.c;
  u64 x = evalExpr(v.e, *st.model);
  Expr* eq = mkBin(Op::Eq, v.e, mkConst(w, x));
  ModelRef m2;
  Res r = solverCheck(st.pc, mkNot(eq), st.model, &m2);
  if (r == Res::Unknown) { g_incomplete["solver gave up while enumerating a value"]++; }
  if (r == Res::Sat) {
    if (st.valForks > 5000) incomplete(st, "too many values for one expression");
    State* s = cloneState(st); s->model = m2; pcAdd(s->pc, mkNot(eq)); s->valForks++; g_pending.push_back(s);
  }
  st.valForks = 0;
  pcAdd(st.pc, eq);
  v = CV(x);
  return x;
}
// splits on a boolean; returns the side taken by this state
bool decide(State& st, Expr* c) {
  if (isC(c)) return c->c;
  bool v = evalExpr(c, *st.model);
  ModelRef m2; Expr* other = v ? mkNot(c) : c;
  Res r = solverCheck(st.pc, other, st.model, &m2);
  if (r == Res::Unknown) g_incomplete["solver gave up on a branch"]++;
  if (r == Res::Sat) { State* s = cloneState(st); s->model = m2; pcAdd(s->pc, other); g_pending.push_back(s); }
  if (r != Res::Unsat) pcAdd(st.pc, v ? c : mkNot(c));
  return v;
}
// condition that must hold; reports when it can fail, then assumes it
void require(State& st, Expr* ok, const std::string& kind, const std::string& msg, bool isAssert) {
  if (isC(ok)) { if (ok->c) return; violate(st, kind, msg); }
  ModelRef m2; if (isAssert) g_ss.assertQueries++;
  Res r = solverCheck(st.pc, mkNot(ok), st.model, &m2, isAssert);
  if (r == Res::Unknown) { g_incomplete["solver gave up on: " + kind + " " + msg]++; }
  if (r == Res::Sat) {
    recordViolation(st, kind, msg, *m2);
    ModelRef m3; if (solverCheck(st.pc, ok, st.model, &m3) != Res::Sat) throw PathEnd{2};
    st.model = m3;
  }
  if (r != Res::Unsat) pcAdd(st.pc, ok);
}

// ---------- memory access
static void reportBad(State& st, u64 a, u64 n, bool wr, Obj* o) {
  char b[200];
  if (!o) { snprintf(b, sizeof b, "%s of %llu byte(s) at invalid address%s", wr ? "write" : "read", (unsigned long long)n, a < 65536 ? " (null pointer)" : ""); violate(st, "memory", b); }
  if (o->flags & OF_FREED) { snprintf(b, sizeof b, "%s of freed memory", wr ? "write" : "read"); violate(st, "memory", b); }
  snprintf(b, sizeof b, "out-of-bounds %s (%s)", wr ? "write" : "read", (o->flags & OF_HEAP) ? "heap" : (o->flags & OF_STACK) ? "stack" : "global");
  violate(st, "memory", b);
}
inline Obj* access(State& st, u64 a, u64 n, bool wr) {
  Obj* o = st.mem.find(a);
  if (__builtin_expect(!o || (o->flags & OF_FREED) || a - o->base + n > o->size || a < o->base, 0)) reportBad(st, a, n, wr, o);
  if (wr && (o->flags & OF_CONST)) violate(st, "memory", "write to constant data");
  return o;
}
static Val loadObj(Obj* o, u64 off, unsigned nb, unsigned w) {
  if (!o->nsym) { u64 v = 0; memcpy(&v, o->data + off, nb); return CV(v & maskw(w)); }
  bool any = false; for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { any = true; break; }
  if (!any) { u64 v = 0; memcpy(&v, o->data + off, nb); return CV(v & maskw(w)); }
  Expr* e = nullptr;
  for (unsigned i = nb; i-- > 0;) { Expr* b = o->sym[off + i] ? o->sym[off + i] : mkConst(8, o->data[off + i]); e = e ? mkConcat(e, b) : b; }
  if (e->w > w) e = mkExtract(e, 0, w);
  return fromE(e);
}
static void storeObj(Obj* o, u64 off, unsigned nb, unsigned w, const Val& v) {
  if (!v.e) {
    memcpy(o->data + off, &v.c, nb);
    if (o->nsym) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; }
    return;
  }
  if (!o->nsym) { free(o->sym); o->sym = (Expr**)calloc(o->size, sizeof(Expr*)); }
  Expr* e = v.e; if (w < nb * 8u) e = mkZExt(e, nb * 8);
  for (unsigned i = 0; i < nb; i++) {
    Expr* b = mkExtract(e, i * 8, 8);
    if (isC(b)) { if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; } o->data[off + i] = (u8)b->c; }
    else { if (!o->sym[off + i]) o->nsym++; o->sym[off + i] = b; }
  }
  if (!o->nsym) { free(o->sym); o->sym = nullptr; }
}
Expr* byteAt(State& st, u64 a) { Obj* o = access(st, a, 1, false); u64 off = a - o->base; return (o->nsym && o->sym[off]) ? o->sym[off] : mkConst(8, o->data[off]); }
void setByte(State& st, u64 a, Expr* e) { Obj* o = access(st, a, 1, true); o = st.mem.writable(o); storeObj(o, a - o->base, 1, 8, fromE(e)); }
void writeBytes(State& st, u64 a, const void* p, u64 n) { if (!n) return; Obj* o = st.mem.writable(access(st, a, n, true)); u64 off = a - o->base; memcpy(o->data + off, p, n);
  if (o->nsym) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; } if (!o->nsym && o->sym) { free(o->sym); o->sym = nullptr; } }

// finds the object a symbolic pointer points into; afterwards p is within [0,size-n] of it
static Obj* resolveSym(State& st, Expr* p, u64 n, bool wr) {
  u64 a0 = evalExpr(p, *st.model);
  Obj* o = st.mem.find(a0);
  // a constant base strictly fixes the object
  Obj* fixed = nullptr;
  if (p->op == Op::Add && isC(p->k[1])) { u64 kb = p->k[1]->c; fixed = st.mem.find(kb); if (fixed && (kb < fixed->base || kb - fixed->base > fixed->size)) fixed = nullptr; }
  bool bad = !o || (o->flags & OF_FREED) || a0 < o->base || a0 - o->base + n > o->size || (fixed && fixed != o && !(fixed->flags & OF_FREED));
  if (bad) {
    Obj* f = fixed && !(fixed->flags & OF_FREED) ? fixed : nullptr;
    if (!f || f->size < n) reportBad(st, a0, n, wr, f ? f : (o && !(o->flags & OF_FREED) && a0 - o->base + n <= o->size ? nullptr : o));
    char b[100]; snprintf(b, sizeof b, "out-of-bounds %s (%s)", wr ? "write" : "read", (f->flags & OF_HEAP) ? "heap" : (f->flags & OF_STACK) ? "stack" : "global");
    recordViolation(st, "memory", b, *st.model);
    Expr* in = mkBin(Op::Ule, mkBin(Op::Sub, p, mkConst(64, f->base)), mkConst(64, f->size - n));
    ModelRef m; if (solverCheck(st.pc, in, st.model, &m) != Res::Sat) throw PathEnd{2};
    st.model = m; pcAdd(st.pc, in);
    return f;
  }
  Expr* in = mkBin(Op::Ule, mkBin(Op::Sub, p, mkConst(64, o->base)), mkConst(64, o->size - n));
  ModelRef m2; Res r = solverCheck(st.pc, mkNot(in), st.model, &m2);
  if (r == Res::Unknown) g_incomplete["solver gave up on a bounds check"]++;
  if (r == Res::Sat) {
    u64 a1 = evalExpr(p, *m2); Obj* o1 = st.mem.find(a1);
    bool good = !fixed && o1 && o1 != o && !(o1->flags & OF_FREED) && a1 - o1->base + n <= o1->size;
    if (good) { State* s = cloneState(st); s->model = m2; pcAdd(s->pc, mkNot(in)); g_pending.push_back(s); }
    else {
      char b[100]; snprintf(b, sizeof b, "out-of-bounds %s (%s)", wr ? "write" : "read", (o->flags & OF_HEAP) ? "heap" : (o->flags & OF_STACK) ? "stack" : "global");
      recordViolation(st, "memory", b, *m2);
    }
  }
  if (r != Res::Unsat) pcAdd(st.pc, in);
  if (wr && (o->flags & OF_CONST)) violate(st, "memory", "write to constant data");
  return o;
}
struct MuxCtx { Obj* o; unsigned nb, w; u64 lo, hi; Expr* off; std::vector<unsigned> bits; };
static Expr* mux(MuxCtx& c, int i, u64 cur) {
  if (i < 0) { if (cur < c.lo || cur > c.hi) return nullptr; return toE(loadObj(c.o, cur, c.nb, c.w), c.w); }
  u64 b = 1ull << c.bits[i];
  if (cur > c.hi) return nullptr;
  Expr* z = mux(c, i - 1, cur); Expr* o = mux(c, i - 1, cur | b);
  if (!z) return o; if (!o) return z; if (z == o) return z;
  return mkIte(mkExtract(c.off, c.bits[i], 1), o, z);
}
static Expr* affine(const std::vector<Expr*>& leaf, const std::vector<Expr*>& bits, unsigned w) {
  // leaf[i] for all i in [0,2^k): constant and affine over XOR
  size_t n = leaf.size(); if (n < 4) return nullptr;
  for (auto* l : leaf) if (!l || !isC(l)) return nullptr;
  u64 t0 = leaf[0]->c;
  for (size_t i = 0; i < n; i++) { u64 x = t0; for (size_t k = 0; k < bits.size(); k++) if (i >> k & 1) x ^= leaf[1ull << k]->c ^ t0; if (x != leaf[i]->c) return nullptr; }
  Expr* r = mkConst(w, t0);
  for (size_t k = 0; k < bits.size(); k++) { u64 d = leaf[1ull << k]->c ^ t0; if (d) r = mkBin(Op::Xor, r, mkIte(bits[k], mkConst(w, d), mkConst(w, 0))); }
  return r;
}
static Expr* muxVar(Obj* o, Expr* off, const PathCond& pc, unsigned nb, unsigned w, u64 maxOff) {
  // offset depends on one input byte: select by the bits of that byte
  u32 v = off->vs->v[0]; auto m = copyModel(nullptr); m->val.resize(v + 1);
  const Bitmap* d = v < pc.dom.size() ? pc.dom[v] : nullptr;
  std::vector<Expr*> leaf(256, nullptr); bool all = true;
  for (unsigned x = 0; x < 256; x++) {
    auto t = copyModel(nullptr); t->val.resize(v + 1); t->val[v] = x;
    u64 ofs = evalExpr(off, *t);
    if (d && !(d->b[x >> 6] >> (x & 63) & 1)) { if (ofs > maxOff) { all = false; continue; } if (0) continue; }
    if (ofs > maxOff) { all = false; continue; }
    leaf[x] = toE(loadObj(o, ofs, nb, w), w);
  }
  std::vector<Expr*> bits; for (unsigned k = 0; k < 8; k++) bits.push_back(mkExtract(mkVar(v), k, 1));
  if (all) if (Expr* a = affine(leaf, bits, w)) return a;
  // drop values outside the domain to simplify
  if (d) for (unsigned x = 0; x < 256; x++) if (!(d->b[x >> 6] >> (x & 63) & 1)) leaf[x] = nullptr;
  std::vector<Expr*> cur = leaf;
  for (int k = 0; k < 8; k++) {
    std::vector<Expr*> nx(cur.size() / 2);
    for (size_t i = 0; i < nx.size(); i++) { Expr* z = cur[2 * i]; Expr* on = cur[2 * i + 1]; nx[i] = !z ? on : !on ? z : z == on ? z : mkIte(bits[k], on, z); }
    cur.swap(nx);
  }
  return cur[0];
}
static Val loadSymPtr(State& st, Val& p, unsigned delta, u64 total, unsigned nb, unsigned w, Obj* o) {
  // o resolved for [p, p+total)
  Expr* off = mkBin(Op::Sub, p.e, mkConst(64, o->base - delta));
  if (isC(off)) return loadObj(o, off->c, nb, w);
  u64 maxOff = o->size - nb;
  if (off->vs->v.size() == 1) { Expr* r = muxVar(o, off, st.pc, nb, w, maxOff); if (r) return fromE(r); }
  u64 lo, hi; rangeOf(off, lo, hi); if (hi > maxOff) hi = maxOff; 
  u64 kz = knownZero(off); MuxCtx c{o, nb, w, lo, hi, off, {}};
  for (unsigned b = 0; b < 64 && (hi >> b); b++) if (!(kz >> b & 1)) c.bits.push_back(b);
  if (c.bits.size() <= 12) {
    // affine tables (CRC): all leaves constant
    if (c.bits.size() >= 4 && !o->nsym) {
      std::vector<Expr*> leaf(1ull << c.bits.size()); bool all = true; std::vector<Expr*> bits;
      for (auto b : c.bits) bits.push_back(mkExtract(off, b, 1));
      for (size_t i = 0; i < leaf.size() && all; i++) { u64 x = 0; for (size_t k = 0; k < c.bits.size(); k++) if (i >> k & 1) x |= 1ull << c.bits[k]; if (x > maxOff) { all = false; break; } leaf[i] = toE(loadObj(o, x, nb, w), w); }
      if (all) if (Expr* a = affine(leaf, bits, w)) return fromE(a);
    }
    Expr* r = mux(c, (int)c.bits.size() - 1, 0);
    if (r) return fromE(r);
  }
  if (hi - lo <= 512) {
    Expr* r = nullptr;
    for (u64 x = lo; x <= hi; x++) { Expr* l = toE(loadObj(o, x, nb, w), w); r = r ? mkIte(mkBin(Op::Eq, off, mkConst(64, x)), l, r) : l; }
    return fromE(r);
  }
  u64 a = concretize(st, p, 64) + delta;
  return loadObj(o, a - o->base, nb, w);
}
static void storeSymPtr(State& st, Val& p, unsigned delta, unsigned nb, unsigned w, const Val& v, Obj* o) {
  Expr* off = mkBin(Op::Sub, p.e, mkConst(64, o->base - delta));
  if (isC(off)) { o = st.mem.writable(o); storeObj(o, off->c, nb, w, v); return; }
  std::vector<u64> cand; u64 maxOff = o->size - nb;
  if (off->vs->v.size() == 1) {
    u32 x = off->vs->v[0]; const Bitmap* d = x < st.pc.dom.size() ? st.pc.dom[x] : nullptr; std::set<u64> s;
    for (unsigned y = 0; y < 256; y++) if (!d || (d->b[y >> 6] >> (y & 63) & 1)) { auto t = copyModel(nullptr); t->val.resize(x + 1); t->val[x] = y; u64 q = evalExpr(off, *t); if (q <= maxOff) s.insert(q); }
    cand.assign(s.begin(), s.end());
  } else { u64 lo, hi; rangeOf(off, lo, hi); if (hi > maxOff) hi = maxOff; if (hi >= lo && hi - lo <= 600) for (u64 x = lo; x <= hi; x++) cand.push_back(x); }
  if (cand.empty()) { u64 a = concretize(st, p, 64) + delta; o = st.mem.writable(o); storeObj(o, a - o->base, nb, w, v); return; }
  o = st.mem.writable(o);
  for (u64 x : cand) { Val old = loadObj(o, x, nb, w); storeObj(o, x, nb, w, fromE(mkIte(mkBin(Op::Eq, off, mkConst(64, x)), toE(v, w), toE(old, w)))); }
}

// ---------- helpers
static inline Val rd(const Frame* f, i32 o, u32 i = 0) { return o >= 0 ? f->R[o + i] : g_consts[~o + i]; }
static inline void jump(Frame* f, u32 pc, i32 edge) {
  if (edge >= 0) {
    auto& cp = f->fn->edges[edge].copies;
    if (cp.size() == 1) f->R[cp[0].first] = rd(f, cp[0].second);
    else { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (cp.size() > 64) { big.resize(cp.size()); t = big.data(); }
      for (size_t i = 0; i < cp.size(); i++) t[i] = rd(f, cp[i].second);
      for (size_t i = 0; i < cp.size(); i++) f->R[cp[i].first] = t[i]; }
  }
  f->pc = pc;
}
static bool icmpC(unsigned pr, u64 a, u64 b, unsigned w) {
  switch (pr) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_SGT: return sext(a, w) > sext(b, w); case CmpInst::ICMP_SGE: return sext(a, w) >= sext(b, w);
    case CmpInst::ICMP_SLT: return sext(a, w) < sext(b, w); default: return sext(a, w) <= sext(b, w); }
}
static Expr* icmpE(unsigned pr, Expr* a, Expr* b) {
  switch (pr) { case CmpInst::ICMP_EQ: return mkBin(Op::Eq, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(Op::Eq, a, b)); case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a); case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b); case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b); case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a); case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b); default: return mkBin(Op::Sle, a, b); }
}
static double asD(u64 c) { double d; memcpy(&d, &c, 8); return d; }
static float asF(u64 c) { u32 x = (u32)c; float d; memcpy(&d, &x, 4); return d; }
static u64 fromD(double d) { u64 c; memcpy(&c, &d, 8); return c; }
static u64 fromF(float d) { u32 c; memcpy(&c, &d, 4); return c; }

static const u64 FUNC_DONE = 0;
void pushFrame(State& st, Fn* fn, const std::vector<Val>& args) {
  if (!fn->decoded) decodeFn(fn);
  fn->executed = true; fn->calls++;
  if (st.frames.size() > 1500) violate(st, "recursion", "call depth exceeds 1500");
  Frame* f = new Frame; f->fn = fn; f->pc = 0; f->stackTop = st.mem.nextStack; f->R.assign(fn->nlanes + 1, Val{0, nullptr});
  for (size_t i = 0; i < args.size() && i < fn->fixedLanes; i++) f->R[i] = args[i];
  st.frames.push_back(f);
}
static void setRet(State& st, const Inst& I, const Val* v, u32 n) { Frame* f = st.top(); if (I.dst >= 0) for (u32 i = 0; i < n; i++) f->R[I.dst + i] = v[i]; }

// bits of a lane sequence as a list of bytes or bits
static void bitcast(const std::vector<Val>& in, const std::vector<u8>& wi, const std::vector<u8>& wo, std::vector<Val>& out) {
  // generic: position-based extraction
  struct P { u32 off; unsigned w; Val v; }; std::vector<P> ps; u32 o = 0;
  for (size_t i = 0; i < in.size(); i++) { ps.push_back({o, wi[i], in[i]}); o += wi[i]; }
  u32 pos = 0; size_t j = 0;
  for (u8 w : wo) {
    unsigned got = 0; Expr* e = nullptr; u64 c = 0; bool sym = false;
    std::vector<Expr*> parts;
    while (got < w) {
      while (ps[j].off + ps[j].w <= pos + got) j++;
      while (j > 0 && ps[j].off > pos + got) j--;
      unsigned in0 = pos + got - ps[j].off; unsigned take = std::min<unsigned>(ps[j].w - in0, w - got);
      Val v = ps[j].v;
      if (v.e) sym = true;
      parts.push_back(v.e ? mkExtract(v.e, in0, take) : mkConst(take, v.c >> in0));
      if (!v.e) c |= ((v.c >> in0) & maskw(take)) << got;
      got += take;
    }
    if (!sym) out.push_back(CV(c));
    else { for (auto* p : parts) e = e ? mkConcat(p, e) : p; out.push_back(fromE(e)); }
    pos += w;
  }
}
static std::vector<u8> laneW(const TyInfo& t) { std::vector<u8> r; for (auto& l : t.lanes) r.push_back(l.w); return r; }

// ---- wide integers (65..256 bits)
static void wideOp(State& st, Frame* f, const Inst& I) {
  auto rdv = [&](const Value* v, i32 o, std::vector<Val>& out) { const TyInfo& t = tyInfo(v->getType()); for (size_t i = 0; i < t.lanes.size(); i++) out.push_back(rd(f, o, i)); };
  const Instruction* ins = I.src; std::vector<Val> a, b; rdv(ins->getOperand(0), I.a, a);
  bool two = isa<BinaryOperator>(ins) || isa<ICmpInst>(ins); if (two) rdv(ins->getOperand(1), I.b, b);
  if (!ins->getOperand(0)->getType()->isIntegerTy()) incomplete(st, "wide vector integer operation");
  unsigned aw = ins->getOperand(0)->getType()->getIntegerBitWidth();
  bool conc = true; for (auto& v : a) conc &= !v.e; for (auto& v : b) conc &= !v.e;
  auto ap = [&](const std::vector<Val>& v, unsigned w) { std::vector<u64> x; for (auto& q : v) x.push_back(q.c); return APInt(w, x); };
  unsigned rw = ins->getType()->getIntegerBitWidth(); std::vector<Val> out;
  auto outAp = [&](const APInt& v) { for (unsigned o = 0; o < rw; o += 64) out.push_back(CV(v.extractBitsAsZExtValue(std::min(64u, rw - o), o))); };
  auto lw = [&](unsigned w, size_t i) { return (unsigned)std::min<unsigned>(64, w - 64 * i); };
  if (conc) {
    APInt x = ap(a, aw);
    if (auto* bo = dyn_cast<BinaryOperator>(ins)) { APInt y = ap(b, aw); switch (bo->getOpcode()) { case Instruction::Add: outAp(x + y); break; case Instruction::Sub: outAp(x - y); break; case Instruction::Mul: outAp(x * y); break;
      case Instruction::And: outAp(x & y); break; case Instruction::Or: outAp(x | y); break; case Instruction::Xor: outAp(x ^ y); break; case Instruction::Shl: outAp(x.shl(y)); break; case Instruction::LShr: outAp(x.lshr(y)); break; case Instruction::AShr: outAp(x.ashr(y)); break;
      case Instruction::UDiv: if (!y) violate(st, "div", "division by zero"); outAp(x.udiv(y)); break; case Instruction::URem: if (!y) violate(st, "div", "division by zero"); outAp(x.urem(y)); break;
      case Instruction::SDiv: if (!y) violate(st, "div", "division by zero"); outAp(x.sdiv(y)); break; default: outAp(x.srem(y)); } }
    else if (auto* ic = dyn_cast<ICmpInst>(ins)) { APInt y = ap(b, aw); out.push_back(CV(ICmpInst::compare(x, y, ic->getPredicate()))); }
    else switch (ins->getOpcode()) { case Instruction::Trunc: outAp(x.trunc(rw)); break; case Instruction::ZExt: outAp(x.zext(rw)); break; default: outAp(x.sext(rw)); }
  } else {
    auto E = [&](std::vector<Val>& v, unsigned w, size_t i) { return toE(v[i], lw(w, i)); };
    unsigned nl = (rw + 63) / 64;
    if (auto* bo = dyn_cast<BinaryOperator>(ins)) {
      Op op; bool bit = true;
      switch (bo->getOpcode()) { case Instruction::And: op = Op::And; break; case Instruction::Or: op = Op::Or; break; case Instruction::Xor: op = Op::Xor; break; default: bit = false; }
      if (bit) for (unsigned i = 0; i < nl; i++) out.push_back(fromE(mkBin(op, E(a, aw, i), E(b, aw, i))));
      else if ((bo->getOpcode() == Instruction::Shl || bo->getOpcode() == Instruction::LShr) && !b[0].e) {
        u64 s = b[0].c; auto bitsAt = [&](i64 pos, unsigned w) -> Expr* { // bits [pos,pos+w) of a, zeros outside
          Expr* r = nullptr; for (unsigned k = 0; k < w;) { i64 p = pos + k; unsigned take; Expr* e; if (p < 0) { take = std::min<i64>(w - k, -p); e = mkConst(take, 0); } else if (p >= (i64)aw) { take = w - k; e = mkConst(take, 0); }
            else { size_t li = p / 64; unsigned o = p % 64; take = std::min<unsigned>(w - k, lw(aw, li) - o); e = mkExtract(E(a, aw, li), o, take); } r = r ? mkConcat(e, r) : e; k += take; } return r; };
        for (unsigned i = 0; i < nl; i++) out.push_back(fromE(bitsAt(bo->getOpcode() == Instruction::Shl ? (i64)64 * i - (i64)s : (i64)64 * i + (i64)s, lw(rw, i))));
      } else if ((bo->getOpcode() == Instruction::Add || bo->getOpcode() == Instruction::Sub) && aw == 128) {
        Expr *al = E(a, aw, 0), *ah = E(a, aw, 1), *bl = E(b, aw, 0), *bh = E(b, aw, 1);
        if (bo->getOpcode() == Instruction::Add) { Expr* lo = mkBin(Op::Add, al, bl); Expr* cy = mkZExt(mkBin(Op::Ult, lo, al), 64); out = {fromE(lo), fromE(mkBin(Op::Add, mkBin(Op::Add, ah, bh), cy))}; }
        else { Expr* lo = mkBin(Op::Sub, al, bl); Expr* cy = mkZExt(mkBin(Op::Ult, al, bl), 64); out = {fromE(lo), fromE(mkBin(Op::Sub, mkBin(Op::Sub, ah, bh), cy))}; }
      } else { for (size_t i = 0; i < a.size(); i++) if (a[i].e) concretize(st, f->R[I.a + i], lw(aw, i)); if (two) for (size_t i = 0; i < b.size(); i++) if (b[i].e) concretize(st, f->R[I.b + i], lw(aw, i)); return wideOp(st, st.top(), I); }
    } else if (auto* ic = dyn_cast<ICmpInst>(ins)) {
      Expr* eq = mkConst(1, 1); for (size_t i = 0; i < a.size(); i++) eq = mkBin(Op::And, eq, mkBin(Op::Eq, E(a, aw, i), E(b, aw, i)));
      if (ic->getPredicate() == CmpInst::ICMP_EQ) out.push_back(fromE(eq)); else if (ic->getPredicate() == CmpInst::ICMP_NE) out.push_back(fromE(mkNot(eq)));
      else { Expr* lt = nullptr; bool sg = ic->isSigned(); auto pr = ic->getUnsignedPredicate();
        bool sw = pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_UGE; bool oreq = pr == CmpInst::ICMP_UGE || pr == CmpInst::ICMP_ULE;
        auto& x = sw ? b : a; auto& y = sw ? a : b;
        for (size_t i = 0; i < x.size(); i++) { Expr* c = mkBin(sg && i + 1 == x.size() ? Op::Slt : Op::Ult, E(x, aw, i), E(y, aw, i)); lt = lt ? mkBin(Op::Or, c, mkBin(Op::And, mkBin(Op::Eq, E(x, aw, i), E(y, aw, i)), lt)) : c; }
        out.push_back(fromE(oreq ? mkBin(Op::Or, lt, eq) : lt)); }
    } else switch (ins->getOpcode()) {
      case Instruction::Trunc: for (unsigned i = 0; i < nl; i++) out.push_back(fromE(mkExtract(E(a, aw, i), 0, lw(rw, i)))); break;
      case Instruction::ZExt: for (unsigned i = 0; i < nl; i++) out.push_back(i < a.size() ? fromE(mkZExt(E(a, aw, i), lw(rw, i))) : CV(0)); break;
      default: { Expr* sgn = nullptr; for (unsigned i = 0; i < nl; i++) { if (i < a.size()) { Expr* e = mkSExt(E(a, aw, i), lw(rw, i)); out.push_back(fromE(e)); sgn = mkExtract(e, e->w - 1, 1); } else out.push_back(fromE(mkSExt(sgn, lw(rw, i)))); } }
    }
  }
  for (size_t i = 0; i < out.size(); i++) f->R[I.dst + i] = out[i];
}

static void fpAll(State& st, Frame*& f, i32 o, u32 n, unsigned w) { for (u32 i = 0; i < n; i++) if (o >= 0 && f->R[o + i].e) { Expr* e = f->R[o + i].e; if (e->op == Op::I2D) { Val v = fromE(e->k[0]); f->R[o + i] = CV(fromD((double)(i64)concretize(st, v, 64))); } else concretize(st, f->R[o + i], w); } }
// comparison of an integer, converted to double, with a constant: a comparison of integers (exact for constants below 2^53)
static bool cmpI2D(const Val& a, const Val& b, unsigned pred, Val& out) {
  if (b.e && b.e->op == Op::I2D && !a.e) return cmpI2D(b, a, CmpInst::getSwappedPredicate((CmpInst::Predicate)pred), out);
  if (!a.e || a.e->op != Op::I2D || b.e) return false;
  double d = asD(b.c); if (!(std::fabs(d) < 9007199254740992.0)) return false;
  Expr* x = a.e->k[0]; Expr* fl = mkConst(64, (u64)(i64)std::floor(d)); Expr* ce = mkConst(64, (u64)(i64)std::ceil(d)); Expr* eq = std::floor(d) == d ? mkBin(Op::Eq, x, fl) : mkConst(1, 0); Expr* r;
  switch (pred) {
    case CmpInst::FCMP_FALSE: case CmpInst::FCMP_UNO: r = mkConst(1, 0); break; case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: r = mkConst(1, 1); break;
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = eq; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot(eq); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = mkBin(Op::Slt, x, ce); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkBin(Op::Sle, x, fl); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = mkBin(Op::Slt, fl, x); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = mkBin(Op::Sle, ce, x); break; default: return false; }
  out = fromE(r); return true;
}

// condition for a symbolic double operand to be treated: floating point is only evaluated on concrete values
static void doCall(State& st, Frame* f, const Inst& I);

void runState(State& st) {
  for (;;) {
    Frame* f = st.top();
    const Inst& I = f->fn->code[f->pc];
    st.ninst++; g_es.insts++;
    if (__builtin_expect(st.ninst > st.limit, 0)) violate(st, "hang", "more than the allowed number of instructions on one path");
    switch (I.op) {
      case I_BIN: {
        Op op = (Op)I.sub; 
        for (u32 i = 0; i < I.n; i++) {
          Val a = rd(f, I.a, i), b = rd(f, I.b, i);
          if (!a.e && !b.e) {
            if ((op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) && !b.c) violate(st, "div", "division by zero");
            f->R[I.dst + i] = CV(binEval(op, I.w, a.c, b.c));
          } else {
            Expr* eb = toE(b, I.w);
            if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) { require(st, mkNot(mkBin(Op::Eq, eb, mkConst(I.w, 0))), "div", "division by zero", false); f = st.top(); }
            f->R[I.dst + i] = fromE(mkBin(op, toE(a, I.w), eb));
          }
        }
        f->pc++; break; }
      case I_ICMP:
        for (u32 i = 0; i < I.n; i++) {
          Val a = rd(f, I.a, i), b = rd(f, I.b, i);
          if (!a.e && !b.e) f->R[I.dst + i] = CV(icmpC(I.sub, a.c, b.c, I.w2));
          else f->R[I.dst + i] = fromE(icmpE(I.sub, toE(a, I.w2), toE(b, I.w2)));
        }
        f->pc++; break;
      case I_FBIN: fpAll(st, f, I.a, I.n, I.w); fpAll(st, f, I.b, I.n, I.w);
        for (u32 i = 0; i < I.n; i++) {
          u64 a = rd(f, I.a, i).c, b = rd(f, I.b, i).c, r;
          if (I.w == 32) { float x = asF(a), y = asF(b), z; switch (I.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmodf(x, y); } r = fromF(z); }
          else { double x = asD(a), y = asD(b), z; switch (I.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); } r = fromD(z); }
          f->R[I.dst + i] = CV(r);
        }
        f->pc++; break;
      case I_FNEG: fpAll(st, f, I.a, I.n, I.w); for (u32 i = 0; i < I.n; i++) { u64 a = rd(f, I.a, i).c; f->R[I.dst + i] = CV(I.w == 32 ? fromF(-asF(a)) : fromD(-asD(a))); } f->pc++; break;
      case I_FCMP: if (I.n == 1 && I.w2 == 64 && cmpI2D(rd(f, I.a, 0), rd(f, I.b, 0), I.sub, f->R[I.dst])) { f->pc++; break; }
        fpAll(st, f, I.a, I.n, I.w2); fpAll(st, f, I.b, I.n, I.w2);
        for (u32 i = 0; i < I.n; i++) {
          u64 a = rd(f, I.a, i).c, b = rd(f, I.b, i).c; double x = I.w2 == 32 ? asF(a) : asD(a), y = I.w2 == 32 ? asF(b) : asD(b); bool un = std::isnan(x) || std::isnan(y); bool r;
          switch (I.sub) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; default: r = true; }
          f->R[I.dst + i] = CV(r);
        }
        f->pc++; break;
      case I_FPCAST: {
        if (I.n == 1 && I.w == 64 && I.sub == Instruction::SIToFP && rd(f, I.a, 0).e) { f->R[I.dst] = fromE(mkI2D(mkSExt(toE(rd(f, I.a, 0), I.w2), 64))); f->pc++; break; }
        if (I.n == 1 && I.w == 64 && I.w2 < 64 && I.sub == Instruction::UIToFP && rd(f, I.a, 0).e) { f->R[I.dst] = fromE(mkI2D(mkZExt(toE(rd(f, I.a, 0), I.w2), 64))); f->pc++; break; }
        fpAll(st, f, I.a, I.n, I.w2);
        for (u32 i = 0; i < I.n; i++) {
          u64 a = rd(f, I.a, i).c, r = 0;
          switch (I.sub) {
            case Instruction::FPToUI: { double x = I.w2 == 32 ? asF(a) : asD(a); r = I.w == 64 ? (x >= 9223372036854775808.0 ? (u64)(x - 9223372036854775808.0) + (1ull << 63) : (u64)(i64)x) : (u64)(i64)x; r &= maskw(I.w); break; }
            case Instruction::FPToSI: { double x = I.w2 == 32 ? asF(a) : asD(a); r = std::isnan(x) || x >= 9.3e18 || x < -9.3e18 ? (1ull << 63) : (u64)(i64)x; if (I.w == 32 && (std::isnan(x) || x >= 2147483648.0 || x < -2147483649.0)) r = 0x80000000u; r &= maskw(I.w); break; }
            case Instruction::UIToFP: r = I.w == 32 ? fromF((float)a) : fromD((double)a); break;
            case Instruction::SIToFP: { i64 x = sext(a, I.w2); r = I.w == 32 ? fromF((float)x) : fromD((double)x); break; }
            case Instruction::FPTrunc: r = I.w == 32 ? fromF((float)asD(a)) : a; break;
            case Instruction::FPExt: r = I.w2 == 32 ? fromD((double)asF(a)) : a; break;
            default: incomplete(st, "fp cast");
          }
          f->R[I.dst + i] = CV(r);
        }
        f->pc++; break; }
      case I_TRUNC: for (u32 i = 0; i < I.n; i++) { Val a = rd(f, I.a, i); f->R[I.dst + i] = a.e ? fromE(mkExtract(a.e, 0, I.w)) : CV(a.c & maskw(I.w)); } f->pc++; break;
      case I_ZEXT: for (u32 i = 0; i < I.n; i++) { Val a = rd(f, I.a, i); f->R[I.dst + i] = a.e ? fromE(mkZExt(a.e, I.w)) : a; } f->pc++; break;
      case I_SEXT: for (u32 i = 0; i < I.n; i++) { Val a = rd(f, I.a, i); f->R[I.dst + i] = a.e ? fromE(mkSExt(a.e, I.w)) : CV((u64)sext(a.c, I.w2) & maskw(I.w)); } f->pc++; break;
      case I_COPY: for (u32 i = 0; i < I.n; i++) f->R[I.dst + i] = rd(f, I.a, i); f->pc++; break;
      case I_BITCAST: {
        const TyInfo& si = tyInfo(I.src->getOperand(0)->getType()); const TyInfo& di = tyInfo(I.src->getType());
        std::vector<Val> in, out; for (size_t i = 0; i < si.lanes.size(); i++) in.push_back(rd(f, I.a, i));
        bitcast(in, laneW(si), laneW(di), out);
        for (size_t i = 0; i < out.size(); i++) f->R[I.dst + i] = out[i];
        f->pc++; break; }
      case I_LOAD: {
        const TyInfo& ti = *(const TyInfo*)I.p; Val p = rd(f, I.a);
        if (!p.e) {
          Obj* o = access(st, p.c, I.k, false); u64 off = p.c - o->base;
          for (u32 i = 0; i < I.n; i++) { auto& l = ti.lanes[i]; f->R[I.dst + i] = loadObj(o, off + l.off, l.nb, l.w); }
        } else {
          Obj* o = resolveSym(st, p.e, I.k, false); f = st.top();
          std::vector<Val> out; Val pp = p;
          for (u32 i = 0; i < I.n; i++) { auto& l = ti.lanes[i]; if (pp.e) out.push_back(loadSymPtr(st, pp, l.off, I.k, l.nb, l.w, o)); else out.push_back(loadObj(o, pp.c - o->base + l.off, l.nb, l.w)); }
          for (u32 i = 0; i < I.n; i++) f->R[I.dst + i] = out[i];
        }
        f->pc++; break; }
      case I_STORE: {
        const TyInfo& ti = *(const TyInfo*)I.p; Val p = rd(f, I.a);
        if (!p.e) {
          Obj* o = st.mem.writable(access(st, p.c, I.k, true)); u64 off = p.c - o->base;
          for (u32 i = 0; i < I.n; i++) { auto& l = ti.lanes[i]; storeObj(o, off + l.off, l.nb, l.w, rd(f, I.b, i)); }
        } else {
          Obj* o = resolveSym(st, p.e, I.k, true); f = st.top();
          for (u32 i = 0; i < I.n; i++) { auto& l = ti.lanes[i]; o = st.mem.find(o->base); if (p.e) storeSymPtr(st, p, l.off, l.nb, l.w, rd(f, I.b, i), o); else { Obj* q = st.mem.writable(o); storeObj(q, p.c - q->base + l.off, l.nb, l.w, rd(f, I.b, i)); } }
        }
        f->pc++; break; }
      case I_GEP: {
        Val b = rd(f, I.a); auto& terms = *(const std::vector<GepTerm>*)I.p;
        bool sym = b.e != nullptr; u64 acc = b.c + (u64)I.k;
        if (!sym) { for (auto& t : terms) { Val x = rd(f, t.op); if (x.e) { sym = true; break; } acc += (u64)sext(x.c, t.w) * (u64)t.scale; } }
        if (!sym) f->R[I.dst] = CV(acc);
        else {
          Expr* e = mkBin(Op::Add, toE(b, 64), mkConst(64, I.k));
          for (auto& t : terms) { Val x = rd(f, t.op); Expr* xe = toE(x, t.w); xe = t.w < 64 ? mkSExt(xe, 64) : t.w > 64 ? mkExtract(xe, 0, 64) : xe; e = mkBin(Op::Add, e, mkBin(Op::Mul, xe, mkConst(64, t.scale))); }
          f->R[I.dst] = fromE(e);
        }
        f->pc++; break; }
      case I_SELECT: {
        const TyInfo& ti = *(const TyInfo*)I.p;
        for (u32 i = 0; i < I.n; i++) {
          Val c = rd(f, I.a, I.sub ? i : 0);
          if (!c.e) f->R[I.dst + i] = c.c ? rd(f, I.b, i) : rd(f, I.c, i);
          else { Val x = rd(f, I.b, i), y = rd(f, I.c, i); unsigned w = ti.lanes[i].w; f->R[I.dst + i] = fromE(mkIte(c.e, toE(x, w), toE(y, w))); }
        }
        f->pc++; break; }
      case I_BR: jump(f, I.t0, I.e0); break;
      case I_CBR: {
        Val c = rd(f, I.a);
        if (!c.e) { if (c.c) jump(f, I.t0, I.e0); else jump(f, I.t1, I.e1); break; }
        g_es.branches++;
        bool v = evalExpr(c.e, *st.model); ModelRef m2; Expr* other = v ? mkNot(c.e) : c.e;
        Res r = solverCheck(st.pc, other, st.model, &m2);
        if (r == Res::Unknown) g_incomplete["solver gave up on a branch at " + locOf(I.src)]++;
        if (r == Res::Sat) {
          if (g_trace) fprintf(stderr, "fork %s: %s\n", locOf(I.src).c_str(), exprStr(c.e, 4).c_str());
          State* s = cloneState(st); s->model = m2; pcAdd(s->pc, other); Frame* sf = s->top(); if (v) jump(sf, I.t1, I.e1); else jump(sf, I.t0, I.e0); g_pending.push_back(s);
        }
        if (r != Res::Unsat) pcAdd(st.pc, v ? c.e : mkNot(c.e));
        f = st.top(); if (v) jump(f, I.t0, I.e0); else jump(f, I.t1, I.e1);
        break; }
      case I_SWITCH: {
        auto& si = *(const SwitchInfo*)I.p; Val c = rd(f, I.a);
        if (!c.e) { auto it = si.map.find(c.c); if (it != si.map.end()) jump(f, it->second.first, it->second.second); else jump(f, I.t0, I.e0); break; }
        g_es.branches++;
        // group by target
        std::map<std::pair<u32, i32>, Expr*> g; Expr* def = mkConst(1, 1);
        for (auto& k : si.cases) { Expr* eq = mkBin(Op::Eq, c.e, mkConst(I.w, k.first)); auto& e = g[k.second]; e = e ? mkBin(Op::Or, e, eq) : eq; def = mkBin(Op::And, def, mkNot(eq)); }
        { auto& e = g[{I.t0, I.e0}]; e = e ? mkBin(Op::Or, e, def) : def; }
        std::pair<u32, i32> mine{I.t0, I.e0}; Expr* mineE = nullptr;
        for (auto& k : g) if (evalExpr(k.second, *st.model)) { mine = k.first; mineE = k.second; }
        bool onlyMine = true;
        for (auto& k : g) if (k.first != mine) { ModelRef m2; Res r = solverCheck(st.pc, k.second, st.model, &m2); if (r == Res::Unknown) g_incomplete["solver gave up on a switch"]++;
          if (r != Res::Unsat) onlyMine = false;
          if (r == Res::Sat) { State* s = cloneState(st); s->model = m2; pcAdd(s->pc, k.second); jump(s->top(), k.first.first, k.first.second); g_pending.push_back(s); } }
        if (!onlyMine) pcAdd(st.pc, mineE);
        f = st.top(); jump(f, mine.first, mine.second);
        break; }
      case I_RET: {
        Val rv[8]; std::vector<Val> big; Val* p = rv; if (I.n > 8) { big.resize(I.n); p = big.data(); }
        for (u32 i = 0; i < I.n; i++) p[i] = rd(f, I.a, i);
        u32 n = I.n; u64 top = f->stackTop;
        st.frames.pop_back(); if (--f->refs == 0) delete f;
        if (st.mem.nextStack != top) st.mem.popStack(top);
        if (st.frames.empty()) throw PathEnd{0};
        Frame* c = st.top(); const Inst& CI = c->fn->code[c->pc];
        if (CI.dst >= 0) for (u32 i = 0; i < n; i++) c->R[CI.dst + i] = p[i];
        c->pc++;
        break; }
      case I_CALL: doCall(st, f, I); break;
      case I_ALLOCA: {
        Val n = rd(f, I.a); u64 cnt = n.c; if (n.e) { cnt = concretize(st, f->R[I.a], I.w2); f = st.top(); }
        if (cnt * I.k > (64u << 20)) violate(st, "stack", "huge stack allocation");
        Obj* o = st.mem.alloc(cnt * I.k, OF_STACK, 0xBE); f->R[I.dst] = CV(o->base); f->pc++; break; }
      case I_EXTRACTELT: { Val ix = rd(f, I.b); if (ix.e) { if (I.b >= 0) { concretize(st, f->R[I.b], I.w2); f = st.top(); ix = rd(f, I.b); } } u64 k = ix.c < (u64)I.k ? ix.c : 0; f->R[I.dst] = rd(f, I.a, k); f->pc++; break; }
      case I_INSERTELT: { Val ix = rd(f, I.c); if (ix.e) { concretize(st, f->R[I.c], I.w2); f = st.top(); ix = rd(f, I.c); } Val e = rd(f, I.b); for (u32 i = 0; i < I.n; i++) f->R[I.dst + i] = i == ix.c ? e : rd(f, I.a, i); f->pc++; break; }
      case I_SHUFFLE: { auto& m = *(const std::vector<int>*)I.p; std::vector<Val> out; for (int x : m) out.push_back(x < 0 ? CV(0) : x < I.k ? rd(f, I.a, x) : rd(f, I.b, x - I.k)); for (size_t i = 0; i < out.size(); i++) f->R[I.dst + i] = out[i]; f->pc++; break; }
      case I_INSERTVAL: { for (u32 i = 0; i < I.n; i++) f->R[I.dst + i] = (i >= I.k && i < I.k + I.c) ? rd(f, I.b, i - I.k) : rd(f, I.a, i); f->pc++; break; }
      case I_UNREACHABLE: violate(st, "unreachable", "undefined behaviour: unreachable code reached");
      case I_NOP: f->pc++; break;
      case I_WIDE: wideOp(st, f, I); f = st.top(); f->pc++; break;
      case I_ATOMICRMW: {
        Val p = rd(f, I.a); if (p.e) { concretize(st, f->R[I.a], 64); f = st.top(); p = rd(f, I.a); }
        Obj* o = st.mem.writable(access(st, p.c, I.k, true)); u64 off = p.c - o->base; auto& l = ((const TyInfo*)I.p)->lanes[0];
        Val old = loadObj(o, off, l.nb, l.w), v = rd(f, I.b); Expr *a = toE(old, l.w), *b = toE(v, l.w), *r;
        switch (I.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = mkBin(Op::Add, a, b); break; case AtomicRMWInst::Sub: r = mkBin(Op::Sub, a, b); break; case AtomicRMWInst::And: r = mkBin(Op::And, a, b); break; case AtomicRMWInst::Or: r = mkBin(Op::Or, a, b); break; case AtomicRMWInst::Xor: r = mkBin(Op::Xor, a, b); break; default: incomplete(st, "atomicrmw"); }
        storeObj(o, off, l.nb, l.w, fromE(r)); f->R[I.dst] = old; f->pc++; break; }
      case I_CMPXCHG: {
        Val p = rd(f, I.a); if (p.e) { concretize(st, f->R[I.a], 64); f = st.top(); p = rd(f, I.a); }
        Obj* o = st.mem.writable(access(st, p.c, I.k, true)); u64 off = p.c - o->base; auto& l = ((const TyInfo*)I.p)->lanes[0];
        Val old = loadObj(o, off, l.nb, l.w), cmp = rd(f, I.b), nw = rd(f, I.c); Expr* eq = mkBin(Op::Eq, toE(old, l.w), toE(cmp, l.w));
        storeObj(o, off, l.nb, l.w, fromE(mkIte(eq, toE(nw, l.w), toE(old, l.w)))); f->R[I.dst] = old; f->R[I.dst + 1] = fromE(eq); f->pc++; break; }
      default: { std::string s; raw_string_ostream os(s); I.src->print(os); incomplete(st, "unsupported instruction " + os.str().substr(0, 120)); }
    }
  }
}

#include "builtins.inc"

static void doCall(State& st, Frame* f, const Inst& I) {
  const CallInfo& ci = *(const CallInfo*)I.p; Fn* callee = ci.callee;
  if (!callee) {
    Val p = rd(f, ci.fp); if (p.e) { concretize(st, f->R[ci.fp], 64); f = st.top(); p = rd(f, ci.fp); }
    auto it = g_fnByAddr.find(p.c);
    if (it == g_fnByAddr.end()) violate(st, "memory", "call through an invalid function pointer");
    callee = it->second;
  }
  if (ci.iid) { intrinsic(st, f, I, ci); return; }
  if (callee->builtin >= 0) { callBuiltin(st, f, I, ci, callee); return; }
  if (callee->f->isDeclaration()) incomplete(st, "call of unmodelled function " + callee->name);
  std::vector<Val> args; args.reserve(8);
  bool hasByval = false;
  for (size_t i = 0; i < ci.args.size() && i < ci.nfixed; i++) { for (u32 k = 0; k < ci.lanes[i]; k++) args.push_back(rd(f, ci.args[i], k)); if (ci.byval[i]) hasByval = true; }
  if (g_trace) fprintf(stderr, "%*scall %s\n", (int)st.frames.size(), "", callee->name.c_str());
  // byval copies and variadic area live on the callee's stack
  u64 top = st.mem.nextStack;
  if (hasByval) {
    size_t pos = 0;
    for (size_t i = 0; i < ci.args.size() && i < ci.nfixed; i++) {
      if (ci.byval[i]) { if (args[pos].e) { concretize(st, f->R[ci.args[i]], 64); args[pos] = rd(st.top(), ci.args[i]); } Obj* o = st.mem.alloc(ci.byval[i], OF_STACK, 0); copyMem(st, o->base, args[pos].c, ci.byval[i]); args[pos] = CV(o->base); }
      pos += ci.lanes[i];
    }
    f = st.top();
  }
  u64 va = 0;
  if (callee->varargs) {
    std::vector<std::pair<Val, u64>> vals; // lane, byval size
    for (size_t i = ci.nfixed; i < ci.args.size(); i++) for (u32 k = 0; k < ci.lanes[i]; k++) { Val v = rd(f, ci.args[i], k); unsigned w = ci.ty[i]->lanes[k].w; if (v.e && w < 64) v = fromE(mkZExt(v.e, 64)); vals.push_back({v, ci.byval[i]}); }
    u64 size = 0; for (auto& v : vals) size += v.second ? (v.second + 7) / 8 * 8 : 8;
    Obj* o = st.mem.alloc(size + 8, OF_STACK, 0); o->size = size; va = o->base; u64 off = 0;
    for (auto& v : vals) { if (v.second) { copyMem(st, va + off, v.first.c, v.second); off += (v.second + 7) / 8 * 8; } else { Obj* q = st.mem.writable(st.mem.find(va)); storeObj(q, off, 8, 64, v.first); off += 8; } }
  }
  pushFrame(st, callee, args);
  st.frames.back()->vaArea = va; st.frames.back()->stackTop = top;
}
