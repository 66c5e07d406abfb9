#include "expr.h"
#include <algorithm>
#include <map>
#include <functional>
#include <cstdio>

u64 g_exprCount = 0;
std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, std::pair<u32,u32>> g_arrays;
static u64 g_modelUid = 1;

ModelRef newModel(const Model* base) { auto m = std::make_shared<Model>(); if (base) m->val = base->val; m->uid = ++g_modelUid; return m; }
std::shared_ptr<Model> copyModel(const ModelRef& b) { auto m = std::make_shared<Model>(); if (b) m->val = b->val; m->uid = ++g_modelUid; return m; }

u32 varBase(const std::string& name, u32 n) {
  auto it = g_arrays.find(name);
  if (it != g_arrays.end()) {
    if (it->second.second >= n) return it->second.first;
  }
  u32 base = g_vars.size();
  for (u32 i = 0; i < n; i++) g_vars.push_back({name, i});
  g_arrays[name] = {base, n};
  return base;
}

// ---- interning
static std::vector<VarSet*> g_sets;
struct VecHash { size_t operator()(const std::vector<u32>& v) const { size_t h = 1469598103934665603ull; for (u32 x : v) h = (h ^ x) * 1099511628211ull; return h; } };
static std::unordered_map<std::vector<u32>, VarSet*, VecHash> g_setMap;
static std::unordered_map<u64, VarSet*> g_unionMemo;
static VarSet* internSet(const std::vector<u32>& v) {
  auto it = g_setMap.find(v);
  if (it != g_setMap.end()) return it->second;
  VarSet* s = new VarSet{v, (u32)g_sets.size()};
  g_sets.push_back(s); g_setMap[v] = s;
  return s;
}
static VarSet* emptySet() { static VarSet* e = internSet({}); return e; }
static VarSet* unionSet(VarSet* a, VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a->id > b->id) std::swap(a, b);
  u64 key = ((u64)a->id << 32) | b->id;
  auto it = g_unionMemo.find(key);
  if (it != g_unionMemo.end()) return it->second;
  std::vector<u32> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  return g_unionMemo[key] = internSet(r);
}

static std::vector<Expr*> g_table(1 << 16, nullptr);
static std::vector<Expr*> g_next; // unused
static size_t g_mask = (1 << 16) - 1;
static u64 hashOf(Op op, unsigned w, unsigned off, u64 c, Expr* a, Expr* b, Expr* d) {
  u64 h = (u64)op * 0x9E3779B97F4A7C15ull + w * 1000003u + off * 7919u;
  h = (h ^ c) * 0xff51afd7ed558ccdull; h ^= h >> 32;
  h = (h ^ (a ? a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  h = (h ^ (b ? b->id + 1 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
  h = (h ^ (d ? d->id + 1 : 0)) * 0xff51afd7ed558ccdull; h ^= h >> 31;
  return h;
}
static Expr* pool = nullptr; static size_t poolLeft = 0;
static Expr* intern(Op op, unsigned w, unsigned off, u64 c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
  u64 h = hashOf(op, w, off, c, a, b, d);
  size_t i = h & g_mask;
  while (Expr* e = g_table[i]) {
    if (e->hash == h && e->op == op && e->w == w && e->off == off && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
    i = (i + 1) & g_mask;
  }
  if (!poolLeft) { pool = (Expr*)calloc(4096, sizeof(Expr)); poolLeft = 4096; }
  Expr* e = pool++; poolLeft--;
  e->op = op; e->w = w; e->off = off; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->hash = h; e->id = (u32)++g_exprCount;
  if (op == Op::Var) e->vs = internSet({(u32)c});
  else { VarSet* s = emptySet(); if (a) s = unionSet(s, a->vs); if (b) s = unionSet(s, b->vs); if (d) s = unionSet(s, d->vs); e->vs = s; }
  g_table[i] = e;
  if (g_exprCount * 2 > g_mask) {
    size_t nm = (g_mask + 1) * 4 - 1;
    std::vector<Expr*> nt(nm + 1, nullptr);
    for (Expr* x : g_table) if (x) { size_t j = x->hash & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
    g_table.swap(nt); g_mask = nm;
  }
  return e;
}

Expr* mkConst(unsigned w, u64 v) { return intern(Op::Const, w, 0, v & maskw(w)); }
Expr* mkVar(u32 id) { return intern(Op::Var, 8, 0, id); }

u64 binEval(Op op, unsigned w, u64 a, u64 b) {
  u64 m = maskw(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? (a / b) & m : m;
    case Op::URem: return b ? (a % b) & m : a;
    case Op::SDiv: { i64 x = sext(a, w), y = sext(b, w); if (!y) return (x >= 0 ? m : 1) & m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case Op::SRem: { i64 x = sext(a, w), y = sext(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << b) & m;
    case Op::LShr: return b >= w ? 0 : a >> b;
    case Op::AShr: { i64 x = sext(a, w); return (u64)(x >> (b >= w ? (w - 1) : b)) & m; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sext(a, w) < sext(b, w);
    case Op::Sle: return sext(a, w) <= sext(b, w);
    default: abort();
  }
}
static bool isCmp(Op o) { return o >= Op::Eq && o <= Op::Sle; }
static bool commut(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq; }
static Expr* T() { static Expr* t = mkConst(1, 1); return t; }
static Expr* F() { static Expr* f = mkConst(1, 0); return f; }

Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(1, !a->c);
  if (a->op == Op::Xor && isC(a->k[1]) && a->w == 1) return a->k[0];
  // push into comparisons: !(a<b) == b<=a
  switch (a->op) {
    case Op::Ult: return mkBin(Op::Ule, a->k[1], a->k[0]);
    case Op::Ule: return mkBin(Op::Ult, a->k[1], a->k[0]);
    case Op::Slt: return mkBin(Op::Sle, a->k[1], a->k[0]);
    case Op::Sle: return mkBin(Op::Slt, a->k[1], a->k[0]);
    default: break;
  }
  return intern(Op::Xor, 1, 0, 0, a, T());
}

u64 knownZero(Expr* e) {
  if (e->kzDone) return e->kz;
  u64 m = maskw(e->w), r = 0;
  switch (e->op) {
    case Op::Const: r = ~e->c & m; break;
    case Op::And: r = knownZero(e->k[0]) | knownZero(e->k[1]); break;
    case Op::Or: case Op::Xor: r = knownZero(e->k[0]) & knownZero(e->k[1]); break;
    case Op::ZExt: r = (knownZero(e->k[0]) | ~maskw(e->k[0]->w)) & m; break;
    case Op::SExt: { u64 kz = knownZero(e->k[0]); unsigned sw = e->k[0]->w; r = kz; if (kz >> (sw - 1) & 1) r |= m & ~maskw(sw); break; }
    case Op::Concat: r = (knownZero(e->k[0]) << e->k[1]->w) | knownZero(e->k[1]); break;
    case Op::Extract: r = (knownZero(e->k[0]) >> e->off) & m; break;
    case Op::Ite: r = knownZero(e->k[1]) & knownZero(e->k[2]); break;
    case Op::Shl: if (isC(e->k[1]) && e->k[1]->c < e->w) r = ((knownZero(e->k[0]) << e->k[1]->c) | maskw((unsigned)e->k[1]->c)) & m; break;
    case Op::LShr: if (isC(e->k[1]) && e->k[1]->c < e->w) r = ((knownZero(e->k[0]) >> e->k[1]->c) | (m & ~(m >> e->k[1]->c))) & m; break;
    case Op::Add: case Op::Mul: {
      u64 a = knownZero(e->k[0]), b = knownZero(e->k[1]);
      // trailing zeros
      unsigned ta = 0, tb = 0; while (ta < e->w && (a >> ta & 1)) ta++; while (tb < e->w && (b >> tb & 1)) tb++;
      unsigned t = e->op == Op::Add ? std::min(ta, tb) : std::min<unsigned>(ta + tb, e->w);
      r = t >= 64 ? m : maskw(t) & m; if (t == 0) r = 0;
      // high bits
      auto width = [&](u64 kz) { unsigned n = e->w; while (n && (kz >> (n - 1) & 1)) n--; return n; };
      unsigned wa = width(a), wb = width(b);
      unsigned wr = e->op == Op::Add ? std::max(wa, wb) + 1 : wa + wb;
      if (wr < e->w) r |= m & ~maskw(wr);
      break; }
    case Op::URem: if (isC(e->k[1]) && e->k[1]->c) { u64 c = e->k[1]->c - 1; unsigned n = 0; while (n < 64 && (c >> n)) n++; r = m & ~maskw(n); if (n == 0) r = m; } break;
    case Op::UDiv: if (isC(e->k[1]) && e->k[1]->c) { u64 mx = (m & ~knownZero(e->k[0])) / e->k[1]->c; unsigned n = 0; while (n < 64 && (mx >> n)) n++; r = n >= e->w ? 0 : m & ~maskw(n); } break;
    default: break;
  }
  e->kz = r; e->kzDone = true;
  return r;
}

static std::unordered_map<Expr*, std::pair<u64,u64>> g_rangeMemo;
void rangeOf(Expr* e, u64& lo, u64& hi) {
  u64 m = maskw(e->w);
  if (isC(e)) { lo = hi = e->c; return; }
  if (e->op == Op::Var) { lo = 0; hi = m; return; }
  auto it = g_rangeMemo.find(e);
  if (it != g_rangeMemo.end()) { lo = it->second.first; hi = it->second.second; return; }
  lo = 0; hi = m & ~knownZero(e);
  u64 a, b, c, d;
  switch (e->op) {
    case Op::ZExt: rangeOf(e->k[0], a, b); lo = a; hi = b; break;
    case Op::SExt: rangeOf(e->k[0], a, b); if (b < (1ull << (e->k[0]->w - 1))) { lo = a; hi = b; } break;
    case Op::Add: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d); { unsigned __int128 s = (unsigned __int128)b + d; if (s <= m) { lo = a + c; hi = std::min<u64>(hi, (u64)s); }
        else if ((unsigned __int128)a + c > m) { lo = (a + c) & m; hi = (u64)s & m; } } break;
    case Op::Sub: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d); if (a >= d) { lo = a - d; hi = b - c; } break;
    case Op::Mul: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d); { unsigned __int128 s = (unsigned __int128)b * d; if (s <= m) { lo = a * c; hi = std::min<u64>(hi, (u64)s); } } break;
    case Op::Ite: rangeOf(e->k[1], a, b); rangeOf(e->k[2], c, d); lo = std::min(a, c); hi = std::max(b, d); break;
    case Op::UDiv: if (isC(e->k[1]) && e->k[1]->c) { rangeOf(e->k[0], a, b); lo = a / e->k[1]->c; hi = b / e->k[1]->c; } break;
    case Op::LShr: if (isC(e->k[1]) && e->k[1]->c < e->w) { rangeOf(e->k[0], a, b); lo = a >> e->k[1]->c; hi = b >> e->k[1]->c; } break;
    case Op::Shl: if (isC(e->k[1]) && e->k[1]->c < e->w) { rangeOf(e->k[0], a, b); if (b <= (m >> e->k[1]->c)) { lo = a << e->k[1]->c; hi = b << e->k[1]->c; } } break;
    case Op::Concat: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d); lo = (a << e->k[1]->w) + c; hi = (b << e->k[1]->w) + d; break;
    case Op::Extract: if (e->off == 0) { rangeOf(e->k[0], a, b); if (b <= m) { lo = a; hi = b; } } break;
    case Op::And: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d); hi = std::min(hi, std::min(b, d)); break;
    default: break;
  }
  if (lo > hi) { lo = 0; hi = m; }
  g_rangeMemo[e] = {lo, hi};
}

// signed interval
static std::unordered_map<Expr*, std::pair<i64,i64>> g_srangeMemo;
static void srangeOf(Expr* e, i64& lo, i64& hi) {
  if (isC(e)) { lo = hi = sext(e->c, e->w); return; }
  auto it = g_srangeMemo.find(e);
  if (it != g_srangeMemo.end()) { lo = it->second.first; hi = it->second.second; return; }
  i64 mn = e->w == 64 ? INT64_MIN : -(1ll << (e->w - 1)), mx = e->w == 64 ? INT64_MAX : (1ll << (e->w - 1)) - 1;
  lo = mn; hi = mx;
  { u64 a, b; rangeOf(e, a, b); if (b <= (u64)mx) { lo = (i64)a; hi = (i64)b; } }
  i64 a, b, c, d; typedef __int128 W;
  auto set = [&](W l, W h) { if (l >= mn && h <= mx) { lo = std::max(lo, (i64)l); hi = std::min(hi, (i64)h); } };
  switch (e->op) {
    case Op::SExt: srangeOf(e->k[0], a, b); set(a, b); break;
    case Op::Add: srangeOf(e->k[0], a, b); srangeOf(e->k[1], c, d); set((W)a + c, (W)b + d); break;
    case Op::Sub: srangeOf(e->k[0], a, b); srangeOf(e->k[1], c, d); set((W)a - d, (W)b - c); break;
    case Op::Mul: { srangeOf(e->k[0], a, b); srangeOf(e->k[1], c, d); W x[4] = {(W)a * c, (W)a * d, (W)b * c, (W)b * d}; set(std::min(std::min(x[0], x[1]), std::min(x[2], x[3])), std::max(std::max(x[0], x[1]), std::max(x[2], x[3]))); break; }
    case Op::Ite: srangeOf(e->k[1], a, b); srangeOf(e->k[2], c, d); set(std::min(a, c), std::max(b, d)); break;
    case Op::Concat: if (isC(e->k[1]) && e->k[1]->c == 0) { srangeOf(e->k[0], a, b); W f = (W)1 << e->k[1]->w; set((W)a * f, (W)b * f); } break;
    case Op::Extract: if (e->off == 0) { srangeOf(e->k[0], a, b); set(a, b); } break;
    case Op::SDiv: if (isC(e->k[1]) && sext(e->k[1]->c, e->w) > 0) { srangeOf(e->k[0], a, b); i64 k = sext(e->k[1]->c, e->w); set(a / k, b / k); } break;
    case Op::SRem: if (isC(e->k[1]) && sext(e->k[1]->c, e->w) > 0) { srangeOf(e->k[0], a, b); i64 k = sext(e->k[1]->c, e->w); set(a < 0 ? -(k - 1) : 0, b > 0 ? k - 1 : 0); } break;
    default: break;
  }
  if (lo > hi) { lo = mn; hi = mx; }
  g_srangeMemo[e] = {lo, hi};
}
static unsigned sbits(i64 lo, i64 hi) { unsigned n = 1; while (n < 64 && (lo < -(1ll << (n - 1)) || hi > (1ll << (n - 1)) - 1)) n++; return n; }

static Expr* rebuildIte(Expr* ite, const std::function<Expr*(Expr*)>& f) { return mkIte(ite->k[0], f(ite->k[1]), f(ite->k[2])); }
static bool iteConst(Expr* e) { return e->op == Op::Ite && isC(e->k[1]) && isC(e->k[2]); }
// an Ite tree with constant leaves (bounded depth)
static bool iteTreeConst(Expr* e, int d) { if (isC(e)) return true; return d > 0 && e->op == Op::Ite && iteTreeConst(e->k[1], d - 1) && iteTreeConst(e->k[2], d - 1); }

// ---- sums: c + sum(coefficient * term), terms ordered by id; equal sums become the same expression
struct Lin { std::vector<std::pair<Expr*, u64>> t; u64 c = 0; };
static std::unordered_map<Expr*, Lin> g_linMemo;
static const size_t LINMAX = 48;
static void linAdd(Lin& r, const Lin& x, u64 f, u64 m) {
  std::vector<std::pair<Expr*, u64>> o; o.reserve(r.t.size() + x.t.size()); size_t i = 0, j = 0;
  while (i < r.t.size() || j < x.t.size()) {
    if (j >= x.t.size() || (i < r.t.size() && r.t[i].first->id < x.t[j].first->id)) o.push_back(r.t[i++]);
    else if (i >= r.t.size() || x.t[j].first->id < r.t[i].first->id) { u64 k = x.t[j].second * f & m; if (k) o.push_back({x.t[j].first, k}); j++; }
    else { u64 k = (r.t[i].second + x.t[j].second * f) & m; if (k) o.push_back({r.t[i].first, k}); i++; j++; }
  }
  r.t.swap(o); r.c = (r.c + x.c * f) & m;
}
static Lin linOf(Expr* e) {
  Lin l; u64 m = maskw(e->w);
  if (isC(e)) { l.c = e->c; return l; }
  if (e->op == Op::Mul && isC(e->k[1])) { l.t.push_back({e->k[0], e->k[1]->c}); return l; }
  if (e->op != Op::Add && e->op != Op::Sub) { l.t.push_back({e, 1}); return l; }
  auto it = g_linMemo.find(e); if (it != g_linMemo.end()) return it->second;
  l = linOf(e->k[0]); linAdd(l, linOf(e->k[1]), e->op == Op::Add ? 1 : m, m);
  g_linMemo[e] = l; return l;
}
static Expr* linBuild(const Lin& l, unsigned w) {
  u64 m = maskw(w); Expr* acc = nullptr; u64 c = l.c;
  auto term = [&](Expr* x, u64 k) { return k == 1 ? x : intern(Op::Mul, w, 0, 0, x, mkConst(w, k)); };
  auto neg = [&](u64 k) { return (k >> (w - 1) & 1) != 0; };
  for (auto& p : l.t) if (!neg(p.second)) { Expr* x = term(p.first, p.second); acc = acc ? intern(Op::Add, w, 0, 0, acc, x) : x; }
  for (auto& p : l.t) if (neg(p.second)) { Expr* x = term(p.first, (0 - p.second) & m); if (!acc) { acc = mkConst(w, c); c = 0; } acc = intern(Op::Sub, w, 0, 0, acc, x); }
  if (!acc) return mkConst(w, c);
  if (c) acc = intern(Op::Add, w, 0, 0, acc, mkConst(w, c));
  if (l.t.size() > 1) g_linMemo[acc] = l;
  return acc;
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(isCmp(op) ? 1 : w, binEval(op, w, a->c, b->c));
  if (commut(op)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  u64 m = maskw(w);
  bool cb = isC(b), ca = isC(a);
  switch (op) {
    case Op::Add:
      if (cb) {
        if (b->c == 0) return a;
        if (a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Add, a->k[0], mkConst(w, a->k[1]->c + b->c));
        if (iteConst(a)) return rebuildIte(a, [&](Expr* x) { return mkBin(op, x, b); });
      }
      if (w > 8) { Lin l = linOf(a), r = linOf(b); if (l.t.size() + r.t.size() <= LINMAX) { linAdd(l, r, 1, m); return linBuild(l, w); } }
      if (!cb) {
        // pull constants outwards
        if (a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
        if (b->op == Op::Add && isC(b->k[1])) return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
        if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
        if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
        if (w == 1) return mkBin(Op::Xor, a, b);
        // disjoint bits: or
      }
      if (w == 1) return mkBin(Op::Xor, a, b);
      break;
    case Op::Sub:
      if (a == b) return mkConst(w, 0);
      if (cb) return mkBin(Op::Add, a, mkConst(w, 0 - b->c));
      if (w > 8) { Lin l = linOf(a), r = linOf(b); if (l.t.size() + r.t.size() <= LINMAX) { linAdd(l, r, m, m); return linBuild(l, w); } }
      if (a->op == Op::Add && isC(a->k[1])) {
        if (b->op == Op::Add && isC(b->k[1])) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b->k[0]), mkConst(w, a->k[1]->c - b->k[1]->c));
        return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
      }
      if (b->op == Op::Add && isC(b->k[1])) return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(w, 0 - b->k[1]->c));
      if (a->op == Op::Add) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
      if (w == 1) return mkBin(Op::Xor, a, b);
      break;
    case Op::Mul:
      if (cb) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if (!(b->c & (b->c - 1))) return mkBin(Op::Shl, a, mkConst(w, __builtin_ctzll(b->c)));
        if (a->op == Op::Mul && isC(a->k[1])) return mkBin(Op::Mul, a->k[0], mkConst(w, a->k[1]->c * b->c));
        if (a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Add, mkBin(Op::Mul, a->k[0], b), mkConst(w, a->k[1]->c * b->c));
      }
      if (w == 1) return mkBin(Op::And, a, b);
      if (!cb && w > 8) { // the product fits into fewer bits: multiply there
        i64 l1, h1, l2, h2; srangeOf(a, l1, h1); srangeOf(b, l2, h2); unsigned n = sbits(l1, h1) + sbits(l2, h2);
        if (n + 2 < w) return mkSExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
      break;
    case Op::UDiv:
      if (cb && b->c == 1) return a;
      if (cb && b->c && !(b->c & (b->c - 1))) return mkBin(Op::LShr, a, mkConst(w, __builtin_ctzll(b->c)));
      if (cb && a->op == Op::ZExt && b->c <= maskw(a->k[0]->w)) return mkZExt(mkBin(op, a->k[0], mkConst(a->k[0]->w, b->c)), w);
      if (w > 8) { u64 l1, h1, l2, h2; rangeOf(a, l1, h1); rangeOf(b, l2, h2); unsigned n = 1; while (n < 64 && (std::max(h1, h2) >> n)) n++;
        if (n + 2 < w && l2 > 0) return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
      break;
    case Op::URem:
      if (cb && b->c == 1) return mkConst(w, 0);
      if (cb && b->c && !(b->c & (b->c - 1))) return mkBin(Op::And, a, mkConst(w, b->c - 1));
      if (cb && b->c) { u64 lo, hi; rangeOf(a, lo, hi); if (hi < b->c) return a; }
      if (cb && a->op == Op::ZExt && b->c <= maskw(a->k[0]->w)) return mkZExt(mkBin(op, a->k[0], mkConst(a->k[0]->w, b->c)), w);
      if (w > 8) { u64 l1, h1, l2, h2; rangeOf(a, l1, h1); rangeOf(b, l2, h2); unsigned n = 1; while (n < 64 && (std::max(h1, h2) >> n)) n++;
        if (n + 2 < w && l2 > 0) return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
      break;
    case Op::SDiv: case Op::SRem:
      if (cb && op == Op::SDiv && b->c == 1) return a;
      if (w > 8) { i64 l1, h1, l2, h2; srangeOf(a, l1, h1); srangeOf(b, l2, h2); unsigned n = std::max(sbits(l1, h1), sbits(l2, h2)) + 1; // +1: no overflow of min / -1
        if (n + 2 < w && !(l2 <= 0 && h2 >= 0)) return mkSExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
      if (cb && sext(b->c, w) > 0 && (knownZero(a) >> (w - 1) & 1)) return mkBin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b);
      break;
    case Op::And:
      if (a == b) return a;
      if (cb) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == Op::And && isC(a->k[1])) return mkBin(Op::And, a->k[0], mkConst(w, a->k[1]->c & b->c));
        if ((~knownZero(a) & m & ~b->c) == 0) return a; // mask keeps all possibly-set bits
        if ((~knownZero(a) & m & b->c) == 0) return mkConst(w, 0);
        if (iteConst(a)) return rebuildIte(a, [&](Expr* x) { return mkBin(op, x, b); });
        if (a->op == Op::Or && isC(a->k[1]) ) return mkBin(Op::Or, mkBin(Op::And, a->k[0], b), mkConst(w, a->k[1]->c & b->c));
        // low mask -> zext(extract)
        if ((b->c & (b->c + 1)) == 0 && w > 1) { unsigned n = 64 - __builtin_clzll(b->c); return mkZExt(mkExtract(a, 0, n), w); }
        if (a->op == Op::ZExt) return mkZExt(mkBin(Op::And, a->k[0], mkConst(a->k[0]->w, b->c)), w);
        if (a->op == Op::Concat) return mkConcat(mkBin(Op::And, a->k[0], mkConst(a->k[0]->w, b->c >> a->k[1]->w)), mkBin(Op::And, a->k[1], mkConst(a->k[1]->w, b->c)));
      }
      if (w == 1) { if (mkNot(a) == b) return F(); }
      break;
    case Op::Or:
      if (a == b) return a;
      if (cb) {
        if (b->c == 0) return a;
        if (b->c == m) return b;
        if (a->op == Op::Or && isC(a->k[1])) return mkBin(Op::Or, a->k[0], mkConst(w, a->k[1]->c | b->c));
        if (iteConst(a)) return rebuildIte(a, [&](Expr* x) { return mkBin(op, x, b); });
      }
      if (w == 1) { if (mkNot(a) == b) return T(); }
      // zext(x) | (zext(y) << k)  with disjoint bits -> concat
      if (!cb) {
        for (int sw = 0; sw < 2; sw++) {
          Expr* lo = sw ? b : a; Expr* hi = sw ? a : b;
          if (hi->op == Op::Concat && isC(hi->k[1]) && hi->k[1]->c == 0) {
            unsigned n = hi->k[1]->w;
            if ((~knownZero(lo) & m & ~maskw(n)) == 0) return mkConcat(hi->k[0], mkExtract(lo, 0, n));
          }
        }
      }
      break;
    case Op::Xor:
      if (a == b) return mkConst(w, 0);
      if (cb) {
        if (b->c == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->op == Op::Xor && isC(a->k[1])) return mkBin(Op::Xor, a->k[0], mkConst(w, a->k[1]->c ^ b->c));
        if (iteConst(a)) return rebuildIte(a, [&](Expr* x) { return mkBin(op, x, b); });
      } else {
        if (a->op == Op::Xor && (a->k[0] == b)) return a->k[1];
        if (a->op == Op::Xor && (a->k[1] == b)) return a->k[0];
        if (b->op == Op::Xor && (b->k[0] == a)) return b->k[1];
        if (b->op == Op::Xor && (b->k[1] == a)) return b->k[0];
      }
      break;
    case Op::Shl:
      if (cb) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(w, 0);
        return mkConcat(mkExtract(a, 0, w - b->c), mkConst(b->c, 0));
      }
      if (ca && a->c == 0) return a;
      break;
    case Op::LShr:
      if (cb) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(w, 0);
        return mkZExt(mkExtract(a, b->c, w - b->c), w);
      }
      if (ca && a->c == 0) return a;
      break;
    case Op::AShr:
      if (cb) {
        u64 s = b->c >= w ? w - 1 : b->c;
        if (s == 0) return a;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      if (ca && a->c == 0) return a;
      break;
    case Op::Eq:
      if (a == b) return T();
      if (w > 8 && !cb && (a->op == Op::Add || a->op == Op::Sub || b->op == Op::Add || b->op == Op::Sub)) {
        Lin l = linOf(a), r = linOf(b); size_t n = l.t.size() + r.t.size();
        if (n <= LINMAX) { linAdd(l, r, m, m); if (l.t.empty()) return l.c ? F() : T();
          if (l.t.size() < n) { Lin x, y; for (auto& p : l.t) { if (p.second >> (w - 1) & 1) y.t.push_back({p.first, (0 - p.second) & m}); else x.t.push_back(p); } y.c = (0 - l.c) & m;
            Expr* ea = linBuild(x, w); Expr* eb = linBuild(y, w); if (!(ea == a && eb == b) && !(ea == b && eb == a)) return mkBin(Op::Eq, ea, eb); } }
      }
      if (cb) {
        if (w == 1) return b->c ? a : mkNot(a);
        if (b->c & knownZero(a)) return F();
        if (a->op == Op::ZExt) return (b->c >> a->k[0]->w) ? F() : mkBin(Op::Eq, a->k[0], mkConst(a->k[0]->w, b->c));
        if (a->op == Op::SExt) { u64 t = b->c & maskw(a->k[0]->w); return ((u64)sext(t, a->k[0]->w) & m) != b->c ? F() : mkBin(Op::Eq, a->k[0], mkConst(a->k[0]->w, t)); }
        if (a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Eq, a->k[0], mkConst(w, b->c - a->k[1]->c));
        if (a->op == Op::Sub && isC(a->k[0])) return mkBin(Op::Eq, a->k[1], mkConst(w, a->k[0]->c - b->c));
        if (a->op == Op::Xor && isC(a->k[1])) return mkBin(Op::Eq, a->k[0], mkConst(w, b->c ^ a->k[1]->c));
        if (a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2])) && iteTreeConst(a, 12)) return rebuildIte(a, [&](Expr* x) { return mkBin(op, x, b); });
        if (a->op == Op::Ite && isC(a->k[1]) && a->k[1]->c != b->c) return mkBin(Op::And, mkNot(a->k[0]), mkBin(Op::Eq, a->k[2], b));
        if (a->op == Op::Ite && isC(a->k[2]) && a->k[2]->c != b->c) return mkBin(Op::And, a->k[0], mkBin(Op::Eq, a->k[1], b));
        if (a->op == Op::Concat) {
          Expr* hi = mkBin(Op::Eq, a->k[0], mkConst(a->k[0]->w, b->c >> a->k[1]->w));
          if (isC(hi) && !hi->c) return F();
          return mkBin(Op::And, hi, mkBin(Op::Eq, a->k[1], mkConst(a->k[1]->w, b->c)));
        }
      } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Eq, a->k[0], b->k[0]);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Eq, a->k[0], b->k[0]);
        if (a->op == Op::Add && b->op == Op::Add && isC(a->k[1]) && a->k[1] == b->k[1]) return mkBin(Op::Eq, a->k[0], b->k[0]);
        if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->w == b->k[1]->w) return mkBin(Op::And, mkBin(Op::Eq, a->k[0], b->k[0]), mkBin(Op::Eq, a->k[1], b->k[1]));
      }
      break;
    case Op::Ult: case Op::Ule: {
      if (a == b) return op == Op::Ule ? T() : F();
      u64 al, ah, bl, bh; rangeOf(a, al, ah); rangeOf(b, bl, bh);
      if (op == Op::Ult) { if (ah < bl) return T(); if (al >= bh) return F(); }
      else { if (ah <= bl) return T(); if (al > bh) return F(); }
      if (cb && a->op == Op::ZExt) { unsigned n = a->k[0]->w; if (b->c <= maskw(n)) return mkBin(op, a->k[0], mkConst(n, b->c)); }
      if (ca && b->op == Op::ZExt) { unsigned n = b->k[0]->w; if (a->c <= maskw(n)) return mkBin(op, mkConst(n, a->c), b->k[0]); }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
      if (cb && iteTreeConst(a, 8)) return rebuildIte(a, [&](Expr* x) { return mkBin(op, x, b); });
      if (ca && iteTreeConst(b, 8)) return rebuildIte(b, [&](Expr* x) { return mkBin(op, a, x); });
      if (op == Op::Ult && cb && b->c == 1) return mkBin(Op::Eq, a, mkConst(w, 0));
      if (op == Op::Ule && cb && b->c == 0) return mkBin(Op::Eq, a, mkConst(w, 0));
      break; }
    case Op::Slt: case Op::Sle: {
      if (a == b) return op == Op::Sle ? T() : F();
      { i64 l1, h1, l2, h2; srangeOf(a, l1, h1); srangeOf(b, l2, h2);
        if (op == Op::Slt ? h1 < l2 : h1 <= l2) return T(); if (op == Op::Slt ? l1 >= h2 : l1 > h2) return F();
        if (w > 8) { unsigned n = std::max(sbits(l1, h1), sbits(l2, h2)); if (n + 2 < w) { Expr* x = mkExtract(a, 0, n); Expr* y = mkExtract(b, 0, n); if (x->op != Op::Extract && y->op != Op::Extract) return mkBin(op, x, y); } } }
      // both known non-negative -> unsigned
      bool an = knownZero(a) >> (w - 1) & 1, bn = knownZero(b) >> (w - 1) & 1;
      if (an && bn) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      if (cb && an && (b->c >> (w - 1) & 1)) return F();          // a>=0, b<0 : a<b false
      if (ca && bn && (a->c >> (w - 1) & 1)) return T();          // a<0 <= b
      if (cb && a->op == Op::SExt) { unsigned n = a->k[0]->w; i64 v = sext(b->c, w), mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
        if (v < mn) return F(); if (v > mx) return T();
        return mkBin(op, a->k[0], mkConst(n, (u64)v)); }
      if (ca && b->op == Op::SExt) { unsigned n = b->k[0]->w; i64 v = sext(a->c, w), mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
        if (v < mn) return T(); if (v > mx) return F();
        return mkBin(op, mkConst(n, (u64)v), b->k[0]); }
      if (cb && iteTreeConst(a, 8)) return rebuildIte(a, [&](Expr* x) { return mkBin(op, x, b); });
      if (ca && iteTreeConst(b, 8)) return rebuildIte(b, [&](Expr* x) { return mkBin(op, a, x); });
      break; }
    default: break;
  }
  if (commut(op) && !cb && a->id > b->id) std::swap(a, b);
  return intern(op, isCmp(op) ? 1 : w, 0, 0, a, b);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == Op::Xor && c->w == 1 && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(Op::Or, c, b) : mkBin(Op::And, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(Op::Or, mkNot(c), a) : mkBin(Op::And, c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
  if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(Op::Ite, a->w, 0, 0, c, a, b);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst(w, (hi->c << lo->w) | lo->c);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->off == lo->off + lo->w) return mkExtract(hi->k[0], lo->off, w);
  // concat(extract(x,n..), x) where x is narrower cannot happen; concat(ext, concat(ext, y))
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->k[0]->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] && hi->off == lo->k[0]->off + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->off, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == Op::Extract && hi->off == lo->w && (hi->k[0]->op == Op::Add || hi->k[0]->op == Op::Sub || hi->k[0]->op == Op::Mul) && lo == mkExtract(hi->k[0], 0, lo->w)) return mkExtract(hi->k[0], 0, w);
  if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
  if (isC(hi) && lo->op == Op::Concat && isC(lo->k[0])) return mkConcat(mkConst(hi->w + lo->k[0]->w, (hi->c << lo->k[0]->w) | lo->k[0]->c), lo->k[1]);
  if (isC(lo) && hi->op == Op::Concat && isC(hi->k[1])) return mkConcat(hi->k[0], mkConst(hi->k[1]->w + lo->w, (hi->k[1]->c << lo->w) | lo->c));
  return intern(Op::Concat, w, 0, 0, hi, lo);
}

Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(w, a->c >> off);
  switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], a->off + off, w);
    case Op::Concat: { unsigned lw = a->k[1]->w;
      if (off >= lw) return mkExtract(a->k[0], off - lw, w);
      if (off + w <= lw) return mkExtract(a->k[1], off, w);
      return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off)); }
    case Op::ZExt: { unsigned iw = a->k[0]->w;
      if (off >= iw) return mkConst(w, 0);
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      return mkZExt(mkExtract(a->k[0], off, iw - off), w); }
    case Op::SExt: { unsigned iw = a->k[0]->w;
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      if (off >= iw) return mkSExt(mkExtract(a->k[0], iw - 1, 1), w);
      return mkSExt(mkExtract(a->k[0], off, iw - off), w); }
    case Op::And: case Op::Or: case Op::Xor: return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case Op::Add: case Op::Sub: case Op::Mul: if (off == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case Op::Ite: if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == Op::Concat || a->k[2]->op == Op::Concat || a->k[1]->op == Op::ZExt) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w)); break;
    default: break;
  }
  if (((knownZero(a) >> off) & maskw(w)) == maskw(w)) return mkConst(w, 0);
  return intern(Op::Extract, w, off, 0, a);
}

Expr* mkZExt(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, a->c);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (iteConst(a)) return rebuildIte(a, [&](Expr* x) { return mkZExt(x, w); });
  if (a->op == Op::Add && a->w > 8) { // a sum that cannot overflow: the same sum at the full width
    Lin l = linOf(a); unsigned __int128 mx = l.c; u64 m = maskw(a->w); bool ok = true;
    for (auto& p : l.t) { u64 lo, hi; rangeOf(p.first, lo, hi); mx += (unsigned __int128)hi * p.second; if (mx > m) { ok = false; break; } }
    if (ok) { Expr* r = mkConst(w, l.c); for (auto& p : l.t) r = mkBin(Op::Add, r, mkBin(Op::Mul, mkZExt(p.first, w), mkConst(w, p.second))); return r; } }
  return intern(Op::ZExt, w, 0, 0, a);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, (u64)sext(a->c, a->w));
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (knownZero(a) >> (a->w - 1) & 1) return mkZExt(a, w);
  if (iteConst(a)) return rebuildIte(a, [&](Expr* x) { return mkSExt(x, w); });
  return intern(Op::SExt, w, 0, 0, a);
}

static u64 i2d(u64 x) { double d = (double)(i64)x; u64 r; memcpy(&r, &d, 8); return r; }
Expr* mkI2D(Expr* a) { if (isC(a)) return mkConst(64, i2d(a->c)); return intern(Op::I2D, 64, 0, 0, a); }

// ---- evaluation
static u64 g_stamp = 1; static u64 g_stampModel = 0;
static u64 ev(Expr* e, const Model& m) {
  if (e->op == Op::Const) return e->c;
  if (e->op == Op::Var) return m.get((u32)e->c);
  if (e->stamp == g_stamp) return e->sval;
  u64 r;
  switch (e->op) {
    case Op::Ite: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
    case Op::Concat: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
    case Op::Extract: r = (ev(e->k[0], m) >> e->off) & maskw(e->w); break;
    case Op::ZExt: r = ev(e->k[0], m); break;
    case Op::SExt: r = (u64)sext(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case Op::I2D: r = i2d(ev(e->k[0], m)); break;
    default: r = binEval(e->op, e->k[0]->w, ev(e->k[0], m), ev(e->k[1], m));
  }
  e->stamp = g_stamp; e->sval = r;
  return r;
}
u64 evalExpr(Expr* e, const Model& m) {
  if (isC(e)) return e->c;
  if (g_stampModel != m.uid) { g_stamp++; g_stampModel = m.uid; }
  return ev(e, m);
}
const Bitmap& truthTable(Expr* e) {
  if (e->bm) return *e->bm;
  Bitmap* b = new Bitmap{{0, 0, 0, 0}};
  u32 id = e->vs->v[0];
  static std::shared_ptr<Model> m = copyModel(nullptr);
  if (m->val.size() <= id) m->val.resize(id + 1);
  for (unsigned v = 0; v < 256; v++) {
    m->val[id] = v; m->uid = 0; g_stamp++; g_stampModel = ~0ull;
    if (ev(e, *m)) b->b[v >> 6] |= 1ull << (v & 63);
  }
  g_stamp++; g_stampModel = ~0ull;
  e->bm = b;
  return *b;
}

// ---- Z3
Z3_ast toZ3(Z3_context c, Expr* e) {
  if (e->z3) return e->z3;
  // iterative post-order to avoid deep recursion
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->z3) { st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < 3; i++) if (x->k[i] && !x->k[i]->z3) { st.push_back(x->k[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    Z3_ast a = x->k[0] ? x->k[0]->z3 : nullptr, b = x->k[1] ? x->k[1]->z3 : nullptr, d = x->k[2] ? x->k[2]->z3 : nullptr, r = nullptr;
    auto b2v = [&](Z3_ast p) { return Z3_mk_ite(c, p, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1))); };
    switch (x->op) {
      case Op::Const: r = Z3_mk_unsigned_int64(c, x->c, Z3_mk_bv_sort(c, x->w)); break;
      case Op::Var: { std::string n = "v" + std::to_string(x->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_bv_sort(c, 8)); break; }
      case Op::Add: r = Z3_mk_bvadd(c, a, b); break;
      case Op::Sub: r = Z3_mk_bvsub(c, a, b); break;
      case Op::Mul: r = Z3_mk_bvmul(c, a, b); break;
      case Op::UDiv: r = Z3_mk_bvudiv(c, a, b); break;
      case Op::SDiv: r = Z3_mk_bvsdiv(c, a, b); break;
      case Op::URem: r = Z3_mk_bvurem(c, a, b); break;
      case Op::SRem: r = Z3_mk_bvsrem(c, a, b); break;
      case Op::And: r = Z3_mk_bvand(c, a, b); break;
      case Op::Or: r = Z3_mk_bvor(c, a, b); break;
      case Op::Xor: r = Z3_mk_bvxor(c, a, b); break;
      case Op::Shl: r = Z3_mk_bvshl(c, a, b); break;
      case Op::LShr: r = Z3_mk_bvlshr(c, a, b); break;
      case Op::AShr: r = Z3_mk_bvashr(c, a, b); break;
      case Op::Eq: r = b2v(Z3_mk_eq(c, a, b)); break;
      case Op::Ult: r = b2v(Z3_mk_bvult(c, a, b)); break;
      case Op::Ule: r = b2v(Z3_mk_bvule(c, a, b)); break;
      case Op::Slt: r = b2v(Z3_mk_bvslt(c, a, b)); break;
      case Op::Sle: r = b2v(Z3_mk_bvsle(c, a, b)); break;
      case Op::Ite: r = Z3_mk_ite(c, Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))), b, d); break;
      case Op::Concat: r = Z3_mk_concat(c, a, b); break;
      case Op::Extract: r = Z3_mk_extract(c, x->off + x->w - 1, x->off, a); break;
      case Op::ZExt: r = Z3_mk_zero_ext(c, x->w - x->k[0]->w, a); break;
      case Op::I2D: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_64(c))); break;
      case Op::SExt: r = Z3_mk_sign_ext(c, x->w - x->k[0]->w, a); break;
    }
    x->z3 = r;
  }
  return e->z3;
}

std::string exprStr(Expr* e, int d) {
  static const char* n[] = {"const","var","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>","a>>","==","<u","<=u","<s","<=s","ite","concat","extract","zext","sext","i2d"};
  if (isC(e)) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->op == Op::Var) return g_vars[e->c].name + "[" + std::to_string(g_vars[e->c].index) + "]";
  if (d <= 0) return "...";
  std::string s = std::string("(") + n[(int)e->op];
  if (e->op == Op::Extract) s += ":" + std::to_string(e->off) + "+" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
