// Translation of arithmetic questions (sums, products with constants, comparisons) into integer arithmetic: exact, or refused.
// Every term stands for an integer congruent to the bit-vector modulo 2^w, with an interval; wrapping is made explicit where the interval demands it.
#include "expr.h"
#include "lia.h"
typedef __int128 W;
struct T { Z3_ast a = nullptr; W lo = 0, hi = 0; };
static std::unordered_map<Expr*, T> g_t; static std::unordered_map<Expr*, Z3_ast> g_b; static std::unordered_map<Expr*, char> g_bad;
static Z3_context cx; static std::vector<u32>* usedVars; static std::unordered_map<u32, Z3_ast> g_v;
static Z3_ast num(W v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; char b[48]; int i = 47; b[i] = 0; do { b[--i] = '0' + (int)(u % 10); u /= 10; } while (u); if (n) b[--i] = '-'; return Z3_mk_numeral(cx, b + i, Z3_mk_int_sort(cx)); }
static Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(cx, 2, x); }
static Z3_ast mulc(Z3_ast a, W c) { if (c == 1) return a; Z3_ast x[2] = {num(c), a}; return Z3_mk_mul(cx, 2, x); }
static Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(cx, 2, x); }
static W p2(unsigned w) { return (W)1 << w; }
static const W BIG = (W)1 << 110;
static W fdiv(W a, W b) { W q = a / b; return (a % b != 0 && a < 0) ? q - 1 : q; }
static bool term(Expr* e, T& r); static bool boolean(Expr* e, Z3_ast& r);
// into [base, base + 2^w)
static T into(T t, W base, unsigned w) {
  W m = p2(w); W a = fdiv(t.lo - base, m), b = fdiv(t.hi - base, m);
  if (a == b) { if (a == 0) return t; T r; r.a = sub(t.a, num(a * m)); r.lo = t.lo - a * m; r.hi = t.hi - a * m; return r; }
  T r; r.lo = base; r.hi = base + m - 1;
  if (b - a <= 3) { r.a = sub(t.a, num(b * m)); for (W k = b - 1; k >= a; k--) r.a = Z3_mk_ite(cx, Z3_mk_lt(cx, t.a, num(base + (k + 1) * m)), sub(t.a, num(k * m)), r.a); return r; }
  r.a = add(Z3_mk_mod(cx, sub(t.a, num(base)), num(m)), num(base)); return r;
}
static bool uns(Expr* e, T& r) { T t; if (!term(e, t)) return false; r = into(t, 0, e->w); return true; }
static bool sgn(Expr* e, T& r) { T t; if (!term(e, t)) return false; r = into(t, -p2(e->w - 1), e->w); return true; }
static bool lowMask(u64 c, unsigned& n) { if (!c || (c & (c + 1))) return false; n = __builtin_popcountll(c); return true; }
static bool term0(Expr* e, T& r) {
  T a, b; Z3_ast q;
  switch (e->op) {
    case Op::Const: { W v = sext(e->c, e->w); if (e->w <= 8) v = (W)e->c; r.a = num(v); r.lo = r.hi = v; return true; }
    case Op::Var: { auto it = g_v.find((u32)e->c); Z3_ast v; if (it == g_v.end()) { char n[24]; snprintf(n, sizeof n, "i%u", (u32)e->c); v = Z3_mk_const(cx, Z3_mk_string_symbol(cx, n), Z3_mk_int_sort(cx)); g_v[(u32)e->c] = v; } else v = it->second; r.a = v; r.lo = 0; r.hi = 255; return true; }
    case Op::Add: if (!term(e->k[0], a) || !term(e->k[1], b)) return false; r.a = add(a.a, b.a); r.lo = a.lo + b.lo; r.hi = a.hi + b.hi; break;
    case Op::Sub: if (!term(e->k[0], a) || !term(e->k[1], b)) return false; r.a = sub(a.a, b.a); r.lo = a.lo - b.hi; r.hi = a.hi - b.lo; break;
    case Op::Mul: { Expr* x = e->k[0], *y = e->k[1]; if (isC(x)) std::swap(x, y); if (!isC(y) || !term(x, a)) return false; W c = sext(y->c, e->w); if (c > p2(48) || c < -p2(48) || a.hi > p2(60) || a.lo < -p2(60)) return false; r.a = mulc(a.a, c); r.lo = c < 0 ? a.hi * c : a.lo * c; r.hi = c < 0 ? a.lo * c : a.hi * c; break; }
    case Op::Shl: { if (!isC(e->k[1]) || e->k[1]->c >= 48 || e->k[1]->c >= e->w || !term(e->k[0], a)) return false; if (a.hi > p2(60) || a.lo < -p2(60)) return false; W c = p2((unsigned)e->k[1]->c); r.a = mulc(a.a, c); r.lo = a.lo * c; r.hi = a.hi * c; break; }
    case Op::Ite: if (!boolean(e->k[0], q) || !term(e->k[1], a) || !term(e->k[2], b)) return false; r.a = Z3_mk_ite(cx, q, a.a, b.a); r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); break;
    case Op::ZExt: if (e->k[0]->w == 1) { if (!boolean(e->k[0], q)) return false; r.a = Z3_mk_ite(cx, q, num(1), num(0)); r.lo = 0; r.hi = 1; return true; } return uns(e->k[0], r);
    case Op::SExt: if (e->k[0]->w == 1) { if (!boolean(e->k[0], q)) return false; r.a = Z3_mk_ite(cx, q, num(-1), num(0)); r.lo = -1; r.hi = 0; return true; } return sgn(e->k[0], r);
    case Op::Extract: if (e->off == 0) { if (!term(e->k[0], r)) return false; break; } if (!uns(e->k[0], a)) return false; r.a = Z3_mk_div(cx, a.a, num(p2(e->off))); r.lo = a.lo >> e->off; r.hi = a.hi >> e->off; break;
    case Op::Concat: { if (!term(e->k[0], a) || !uns(e->k[1], b)) return false; W c = p2(e->k[1]->w); r.a = add(mulc(a.a, c), b.a); r.lo = a.lo * c + b.lo; r.hi = a.hi * c + b.hi; break; }
    case Op::And: { unsigned n; if (!isC(e->k[1])) return false; if (lowMask(e->k[1]->c, n)) { if (!term(e->k[0], a)) return false; r = into(a, 0, n); return true; } if (!uns(e->k[0], a)) return false; u64 c = e->k[1]->c; r.a = num(0); r.lo = 0; r.hi = (W)c; int runs = 0;
      for (unsigned i = 0; i < e->w;) { if (!(c >> i & 1)) { i++; continue; } unsigned j = i; while (j < e->w && (c >> j & 1)) j++; if (++runs > 4) return false; Z3_ast x = i ? Z3_mk_div(cx, a.a, num(p2(i))) : a.a; if (a.hi >= p2(j)) x = Z3_mk_mod(cx, x, num(p2(j - i))); r.a = add(r.a, mulc(x, p2(i))); i = j; } return true; }
    case Op::Or: { if (!uns(e->k[0], a) || !uns(e->k[1], b)) return false; u64 z1 = knownZero(e->k[0]), z2 = isC(e->k[1]) ? ~e->k[1]->c : knownZero(e->k[1]); if ((~z1 & ~z2) & maskw(e->w)) return false; r.a = add(a.a, b.a); r.lo = a.lo + b.lo; r.hi = std::min<W>(a.hi + b.hi, p2(e->w) - 1); return true; }
    case Op::LShr: if (!isC(e->k[1]) || e->k[1]->c >= e->w || !uns(e->k[0], a)) return false; r.a = Z3_mk_div(cx, a.a, num(p2(e->k[1]->c))); r.lo = a.lo >> e->k[1]->c; r.hi = a.hi >> e->k[1]->c; return true;
    case Op::AShr: if (!isC(e->k[1]) || e->k[1]->c >= e->w || !sgn(e->k[0], a)) return false; r.a = Z3_mk_div(cx, a.a, num(p2(e->k[1]->c))); r.lo = fdiv(a.lo, p2(e->k[1]->c)); r.hi = fdiv(a.hi, p2(e->k[1]->c)); return true;
    case Op::UDiv: case Op::URem: { if (!isC(e->k[1]) || !e->k[1]->c || !uns(e->k[0], a)) return false; W c = (W)e->k[1]->c; if (e->op == Op::UDiv) { r.a = Z3_mk_div(cx, a.a, num(c)); r.lo = a.lo / c; r.hi = a.hi / c; } else { r.a = Z3_mk_mod(cx, a.a, num(c)); r.lo = 0; r.hi = c - 1; } return true; }
    case Op::SDiv: case Op::SRem: { if (!isC(e->k[1])) return false; W c = sext(e->k[1]->c, e->w); if (c <= 0 || !sgn(e->k[0], a)) return false; if (a.lo < 0) { Z3_ast neg = Z3_mk_lt(cx, a.a, num(0)), na = sub(num(0), a.a); if (e->op == Op::SDiv) { r.a = Z3_mk_ite(cx, neg, sub(num(0), Z3_mk_div(cx, na, num(c))), Z3_mk_div(cx, a.a, num(c))); r.lo = a.lo / c; r.hi = a.hi / c; } else { r.a = Z3_mk_ite(cx, neg, sub(num(0), Z3_mk_mod(cx, na, num(c))), Z3_mk_mod(cx, a.a, num(c))); r.lo = -(c - 1); r.hi = c - 1; } return true; }
      if (e->op == Op::SDiv) { r.a = Z3_mk_div(cx, a.a, num(c)); r.lo = a.lo / c; r.hi = a.hi / c; } else { r.a = Z3_mk_mod(cx, a.a, num(c)); r.lo = 0; r.hi = c - 1; } return true; }
    default: return false;
  }
  if (r.lo < -BIG || r.hi > BIG) return false;
  if (r.lo < -p2(e->w) * 4 || r.hi > p2(e->w) * 4) r = into(r, -p2(e->w - 1), e->w);
  return true;
}
static bool term(Expr* e, T& r) {
  if (e->w == 1) { Z3_ast q; if (!boolean(e, q)) return false; r.a = Z3_mk_ite(cx, q, num(1), num(0)); r.lo = 0; r.hi = 1; return true; }
  auto it = g_t.find(e); if (it != g_t.end()) { r = it->second; return true; } if (g_bad.count(e)) return false;
  if (!term0(e, r)) { if (getenv("SYMEX_LIADBG")) { fprintf(stderr, "lia: term op %d w %d %s\n", (int)e->op, e->w, exprStr(e, 4).substr(0, 300).c_str()); } g_bad[e] = 1; return false; } g_t[e] = r; return true;
}
static bool boolean0(Expr* e, Z3_ast& r) {
  Z3_ast x, y; T a, b;
  switch (e->op) {
    case Op::Const: r = e->c ? Z3_mk_true(cx) : Z3_mk_false(cx); return true;
    case Op::And: case Op::Or: { if (!boolean(e->k[0], x) || !boolean(e->k[1], y)) return false; Z3_ast v[2] = {x, y}; r = e->op == Op::And ? Z3_mk_and(cx, 2, v) : Z3_mk_or(cx, 2, v); return true; }
    case Op::Xor: case Op::Add: case Op::Sub: if (!boolean(e->k[0], x) || !boolean(e->k[1], y)) return false; r = Z3_mk_xor(cx, x, y); return true;
    case Op::Ite: { Z3_ast q; if (!boolean(e->k[0], q) || !boolean(e->k[1], x) || !boolean(e->k[2], y)) return false; r = Z3_mk_ite(cx, q, x, y); return true; }
    case Op::Eq: if (e->k[0]->w == 1) { if (!boolean(e->k[0], x) || !boolean(e->k[1], y)) return false; r = Z3_mk_iff(cx, x, y); return true; }
      if (!term(e->k[0], a) || !term(e->k[1], b)) return false; { W m = p2(e->k[0]->w); if (a.hi - b.lo >= m || b.hi - a.lo >= m) { a = into(a, -p2(e->k[0]->w - 1), e->k[0]->w); b = into(b, -p2(e->k[0]->w - 1), e->k[0]->w); } r = Z3_mk_eq(cx, a.a, b.a); return true; }
    case Op::Ult: case Op::Ule: if (!uns(e->k[0], a) || !uns(e->k[1], b)) return false; r = e->op == Op::Ult ? Z3_mk_lt(cx, a.a, b.a) : Z3_mk_le(cx, a.a, b.a); return true;
    case Op::Slt: case Op::Sle: if (e->k[0]->w == 1) return false; if (!sgn(e->k[0], a) || !sgn(e->k[1], b)) return false; r = e->op == Op::Slt ? Z3_mk_lt(cx, a.a, b.a) : Z3_mk_le(cx, a.a, b.a); return true;
    case Op::Extract: { if (!term(e->k[0], a)) return false; a = into(a, 0, e->k[0]->w); Z3_ast d = e->off ? Z3_mk_div(cx, a.a, num(p2(e->off))) : a.a; if (e->off + 1u < e->k[0]->w) d = Z3_mk_mod(cx, d, num(2)); r = Z3_mk_eq(cx, d, num(1)); return true; }
    default: return false;
  }
}
static bool boolean(Expr* e, Z3_ast& r) {
  auto it = g_b.find(e); if (it != g_b.end()) { r = it->second; return true; } if (g_bad.count(e)) return false;
  if (!boolean0(e, r)) { if (getenv("SYMEX_LIADBG")) fprintf(stderr, "lia: bool op %d w %d %s\n", (int)e->op, e->w, exprStr(e, 4).substr(0, 300).c_str()); g_bad[e] = 1; return false; } g_b[e] = r; return true;
}
bool liaBool(Z3_context c, Expr* e, Z3_ast* out) { cx = c; return boolean(e, *out); }
Z3_ast liaVar(u32 v) { auto it = g_v.find(v); return it == g_v.end() ? nullptr : it->second; }
// worth it only for questions with products or divisions by constants that aren't powers of two
static std::unordered_map<Expr*, char> g_heavy;
bool liaHeavy(Expr* e) {
  if (e->op == Op::Const || e->op == Op::Var) return false; auto it = g_heavy.find(e); if (it != g_heavy.end()) return it->second;
  bool h = (e->op == Op::Mul || e->op == Op::UDiv || e->op == Op::URem || e->op == Op::SDiv || e->op == Op::SRem) && e->w >= 16; for (int i = 0; !h && i < 3; i++) if (e->k[i]) h = liaHeavy(e->k[i]);
  g_heavy[e] = h; return h;
}
