// included by exec.cpp: intrinsics and built-in functions
static void copyMem(State& st, u64 d, u64 s, u64 n) {
  if (!n) return;
  Obj* so = access(st, s, n, false); Obj* dp = access(st, d, n, true);
  Obj* dobj = st.mem.writable(dp); so = st.mem.find(s);
  u64 soff = s - so->base, doff = d - dobj->base;
  if (!so->nsym && !dobj->nsym) { memmove(dobj->data + doff, so->data + soff, n); return; }
  std::vector<Expr*> tmp(n, nullptr);
  if (so->nsym) memcpy(tmp.data(), so->sym + soff, n * sizeof(Expr*));
  memmove(dobj->data + doff, so->data + soff, n);
  if (!dobj->nsym) { bool any = false; for (auto* t : tmp) if (t) { any = true; break; } if (!any) return; free(dobj->sym); dobj->sym = (Expr**)calloc(dobj->size, sizeof(Expr*)); }
  for (u64 i = 0; i < n; i++) { Expr*& e = dobj->sym[doff + i]; if (e && !tmp[i]) dobj->nsym--; if (!e && tmp[i]) dobj->nsym++; e = tmp[i]; }
  if (!dobj->nsym) { free(dobj->sym); dobj->sym = nullptr; }
}
static std::string readCStr(State& st, u64 a) {
  std::string s; if (!a) return "(null)";
  for (;;) { Obj* o = access(st, a, 1, false); u64 off = a - o->base; if (o->nsym && o->sym[off]) { s += '?'; } else { if (!o->data[off]) break; s += (char)o->data[off]; } a++; if (s.size() > 4096) break; }
  return s;
}
static const char* internStr(const std::string& s) { static std::set<std::string> t; return t.insert(s).first->c_str(); }
static Expr* minmax(Op cmp, bool mx, Expr* a, Expr* b) { Expr* lt = mkBin(cmp, a, b); return mx ? mkIte(lt, b, a) : mkIte(lt, a, b); }

static void intrinsic(State& st, Frame* f, const Inst& I, const CallInfo& ci) {
  auto arg = [&](unsigned i, u32 k = 0) { return rd(st.frames.back(), ci.args[i], k); };
  auto conc = [&](unsigned i) -> u64 { Val v = arg(i); if (!v.e) return v.c; unsigned w = ci.ty[i]->lanes[0].w; u64 x = concretize(st, st.top()->R[ci.args[i]], w); return x; };
  auto ret = [&](u32 k, Val v) { st.top()->R[I.dst + k] = v; };
  unsigned w = I.w;
  auto lanewise = [&](std::function<Expr*(Expr*, Expr*)> fn) { for (u32 k = 0; k < I.n; k++) { Val a = arg(0, k), b = arg(1, k); ret(k, fromE(fn(toE(a, w), toE(b, w)))); } };
  switch (ci.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = conc(2); u64 d = n ? conc(0) : 0, s = n ? conc(1) : 0; if (n && ci.iid != Intrinsic::memmove && d != s && d < s + n && s < d + n) violate(st, "memory", "memcpy of overlapping regions"); copyMem(st, d, s, n); break; }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      u64 n = conc(2); if (!n) break; u64 d = conc(0); Val v = arg(1); Obj* o = st.mem.writable(access(st, d, n, true)); u64 off = d - o->base;
      if (!v.e && !o->nsym) memset(o->data + off, (int)v.c, n); else for (u64 i = 0; i < n; i++) storeObj(o, off + i, 1, 8, v);
      break; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::vaend: case Intrinsic::sideeffect: case Intrinsic::donothing:
    case Intrinsic::x86_sse2_pause:
      if (I.dst >= 0) ret(0, CV(0)); break;
    case Intrinsic::stacksave: ret(0, CV(0)); break;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: for (u32 k = 0; k < I.n; k++) ret(k, arg(0, k)); break;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: ret(0, arg(0)); break;
    case Intrinsic::load_relative: { u64 a = conc(0), o = conc(1); u64 v = 0; for (int i = 0; i < 4; i++) { Expr* b = byteAt(st, a + o + i); if (!isC(b)) incomplete(st, "symbolic relative load"); v |= (u64)b->c << (8 * i); } ret(0, CV(a + (u64)(int64_t)(int32_t)v)); break; }
    case Intrinsic::is_constant: ret(0, CV(0)); break;
    case Intrinsic::objectsize: ret(0, CV(~0ull & maskw(w))); break;
    case Intrinsic::umin: lanewise([&](Expr* a, Expr* b) { return minmax(Op::Ult, false, a, b); }); break;
    case Intrinsic::umax: lanewise([&](Expr* a, Expr* b) { return minmax(Op::Ult, true, a, b); }); break;
    case Intrinsic::smin: lanewise([&](Expr* a, Expr* b) { return minmax(Op::Slt, false, a, b); }); break;
    case Intrinsic::smax: lanewise([&](Expr* a, Expr* b) { return minmax(Op::Slt, true, a, b); }); break;
    case Intrinsic::abs: for (u32 k = 0; k < I.n; k++) { Expr* a = toE(arg(0, k), w); ret(k, fromE(mkIte(mkBin(Op::Slt, a, mkConst(w, 0)), mkBin(Op::Sub, mkConst(w, 0), a), a))); } break;
    case Intrinsic::uadd_sat: lanewise([&](Expr* a, Expr* b) { Expr* s = mkBin(Op::Add, a, b); return mkIte(mkBin(Op::Ult, s, a), mkConst(w, ~0ull), s); }); break;
    case Intrinsic::usub_sat: lanewise([&](Expr* a, Expr* b) { return mkIte(mkBin(Op::Ult, a, b), mkConst(w, 0), mkBin(Op::Sub, a, b)); }); break;
    case Intrinsic::ctlz: case Intrinsic::cttz: for (u32 k = 0; k < I.n; k++) { Expr* a = toE(arg(0, k), w); Expr* r = mkConst(w, w);
        if (ci.iid == Intrinsic::cttz) for (unsigned b = w; b-- > 0;) r = mkIte(mkExtract(a, b, 1), mkConst(w, b), r); else for (unsigned b = 0; b < w; b++) r = mkIte(mkExtract(a, b, 1), mkConst(w, w - 1 - b), r);
        ret(k, fromE(r)); } break;
    case Intrinsic::ctpop: for (u32 k = 0; k < I.n; k++) { Expr* a = toE(arg(0, k), w); Expr* r = mkConst(w, 0); for (unsigned b = 0; b < w; b++) r = mkBin(Op::Add, r, mkZExt(mkExtract(a, b, 1), w)); ret(k, fromE(r)); } break;
    case Intrinsic::bswap: for (u32 k = 0; k < I.n; k++) { Expr* a = toE(arg(0, k), w); Expr* r = nullptr; for (unsigned b = 0; b < w; b += 8) { Expr* x = mkExtract(a, b, 8); r = r ? mkConcat(r, x) : x; } ret(k, fromE(r)); } break;
    case Intrinsic::bitreverse: for (u32 k = 0; k < I.n; k++) { Expr* a = toE(arg(0, k), w); Expr* r = nullptr; for (unsigned b = 0; b < w; b++) { Expr* x = mkExtract(a, b, 1); r = r ? mkConcat(r, x) : x; } ret(k, fromE(r)); } break;
    case Intrinsic::fshl: case Intrinsic::fshr: for (u32 k = 0; k < I.n; k++) { Expr *a = toE(arg(0, k), w), *b = toE(arg(1, k), w); Val s = arg(2, k); Expr* r;
        if (!s.e) { unsigned n = s.c % w; if (ci.iid == Intrinsic::fshl) r = n ? mkBin(Op::Or, mkBin(Op::Shl, a, mkConst(w, n)), mkBin(Op::LShr, b, mkConst(w, w - n))) : a; else r = n ? mkBin(Op::Or, mkBin(Op::Shl, a, mkConst(w, w - n)), mkBin(Op::LShr, b, mkConst(w, n))) : b; }
        else { Expr* n = mkBin(Op::URem, s.e, mkConst(w, w)); Expr* z = mkBin(Op::Eq, n, mkConst(w, 0)); Expr* inv = mkBin(Op::Sub, mkConst(w, w), n);
          r = ci.iid == Intrinsic::fshl ? mkIte(z, a, mkBin(Op::Or, mkBin(Op::Shl, a, n), mkBin(Op::LShr, b, inv))) : mkIte(z, b, mkBin(Op::Or, mkBin(Op::Shl, a, inv), mkBin(Op::LShr, b, n))); }
        ret(k, fromE(r)); } break;
    case Intrinsic::uadd_with_overflow: { Expr *a = toE(arg(0), w), *b = toE(arg(1), w), *s = mkBin(Op::Add, a, b); ret(0, fromE(s)); ret(1, fromE(mkBin(Op::Ult, s, a))); break; }
    case Intrinsic::usub_with_overflow: { Expr *a = toE(arg(0), w), *b = toE(arg(1), w); ret(0, fromE(mkBin(Op::Sub, a, b))); ret(1, fromE(mkBin(Op::Ult, a, b))); break; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { Expr *a = toE(arg(0), w), *b = toE(arg(1), w); bool add = ci.iid == Intrinsic::sadd_with_overflow; Expr* s = mkBin(add ? Op::Add : Op::Sub, a, b);
        Expr *z = mkConst(w, 0), *na = mkBin(Op::Slt, a, z), *nb = mkBin(Op::Slt, b, z), *ns = mkBin(Op::Slt, s, z);
        Expr* same = add ? mkBin(Op::Eq, na, nb) : mkNot(mkBin(Op::Eq, na, nb));
        ret(0, fromE(s)); ret(1, fromE(mkBin(Op::And, same, mkNot(mkBin(Op::Eq, na, ns))))); break; }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        Val a = arg(0), b = arg(1); bool sg = ci.iid == Intrinsic::smul_with_overflow;
        if (!a.e && !b.e) { unsigned __int128 p = sg ? (unsigned __int128)((__int128)sext(a.c, w) * sext(b.c, w)) : (unsigned __int128)a.c * b.c; u64 lo = (u64)p & maskw(w); bool ov = sg ? (__int128)p != (__int128)sext(lo, w) : p != lo; ret(0, CV(lo)); ret(1, CV(ov)); }
        else if (w <= 32) { Expr *x = sg ? mkSExt(toE(a, w), 2 * w) : mkZExt(toE(a, w), 2 * w), *y = sg ? mkSExt(toE(b, w), 2 * w) : mkZExt(toE(b, w), 2 * w), *p = mkBin(Op::Mul, x, y), *lo = mkExtract(p, 0, w);
          ret(0, fromE(lo)); ret(1, fromE(mkNot(mkBin(Op::Eq, p, sg ? mkSExt(lo, 2 * w) : mkZExt(lo, 2 * w))))); }
        else { if (!b.e && b.c && !sg) { ret(0, fromE(mkBin(Op::Mul, a.e, mkConst(w, b.c)))); ret(1, fromE(mkBin(Op::Ult, mkConst(w, maskw(w) / b.c), a.e))); }
          else { conc(0); conc(1); return intrinsic(st, st.top(), I, ci); } }
        break; }
    case Intrinsic::vastart: { u64 ap = conc(0); u32 g = 48, fp = 176; u64 z = 0, area = st.frames.back()->vaArea; writeBytes(st, ap, &g, 4); writeBytes(st, ap + 4, &fp, 4); writeBytes(st, ap + 8, &area, 8); writeBytes(st, ap + 16, &z, 8); break; }
    case Intrinsic::vacopy: { u64 d = conc(0), s = conc(1); copyMem(st, d, s, 24); break; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate(st, "abort", "trap executed");
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
        Expr* r = nullptr; for (u32 k = 0; k < ci.lanes[0]; k++) { Expr* a = toE(arg(0, k), w); if (!r) { r = a; continue; }
          switch (ci.iid) { case Intrinsic::vector_reduce_add: r = mkBin(Op::Add, r, a); break; case Intrinsic::vector_reduce_or: r = mkBin(Op::Or, r, a); break; case Intrinsic::vector_reduce_and: r = mkBin(Op::And, r, a); break; case Intrinsic::vector_reduce_xor: r = mkBin(Op::Xor, r, a); break; case Intrinsic::vector_reduce_umax: r = minmax(Op::Ult, true, r, a); break; default: r = minmax(Op::Ult, false, r, a); } }
        ret(0, fromE(r)); break; }
    case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::sqrt:
    case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::pow: case Intrinsic::fmuladd: case Intrinsic::copysign: case Intrinsic::maxnum: case Intrinsic::minnum: {
        for (unsigned i = 0; i < ci.args.size(); i++) if (arg(i).e) conc(i);
        for (u32 k = 0; k < I.n; k++) { auto g = [&](unsigned i) { u64 c = arg(i, k).c; return w == 32 ? (double)asF(c) : asD(c); }; double x = g(0), r = 0;
          switch (ci.iid) { case Intrinsic::fabs: r = fabs(x); break; case Intrinsic::floor: r = floor(x); break; case Intrinsic::ceil: r = ceil(x); break; case Intrinsic::trunc: r = trunc(x); break; case Intrinsic::rint: case Intrinsic::nearbyint: r = rint(x); break; case Intrinsic::round: r = round(x); break; case Intrinsic::sqrt: r = sqrt(x); break;
            case Intrinsic::log: r = log(x); break; case Intrinsic::log2: r = log2(x); break; case Intrinsic::log10: r = log10(x); break; case Intrinsic::exp: r = exp(x); break; case Intrinsic::exp2: r = exp2(x); break; case Intrinsic::pow: r = pow(x, g(1)); break; case Intrinsic::fmuladd: r = w == 32 ? (double)((float)((float)x * (float)g(1)) + (float)g(2)) : x * g(1) + g(2); break; case Intrinsic::copysign: r = copysign(x, g(1)); break; case Intrinsic::maxnum: r = fmax(x, g(1)); break; default: r = fmin(x, g(1)); }
          ret(k, CV(w == 32 ? fromF((float)r) : fromD(r))); }
        break; }
    case Intrinsic::ptrmask: { ret(0, fromE(mkBin(Op::And, toE(arg(0), 64), toE(arg(1), 64)))); break; }
    case Intrinsic::x86_sse2_pmovmskb_128: { Expr* r = nullptr; for (u32 k = 0; k < 16; k++) { Expr* b = mkExtract(toE(arg(0, k), 8), 7, 1); r = r ? mkConcat(b, r) : b; } ret(0, fromE(mkZExt(r, 32))); break; }
    case Intrinsic::x86_ssse3_pshuf_b_128: {
        std::vector<Val> out;
        for (u32 k = 0; k < 16; k++) { Val ix = arg(1, k); if (!ix.e) { out.push_back(ix.c & 0x80 ? CV(0) : arg(0, ix.c & 15)); continue; }
          std::vector<Expr*> cur; for (u32 j = 0; j < 16; j++) cur.push_back(toE(arg(0, j), 8));
          for (int b = 0; b < 4; b++) { std::vector<Expr*> nx; for (size_t j = 0; j < cur.size(); j += 2) nx.push_back(mkIte(mkExtract(ix.e, b, 1), cur[j + 1], cur[j])); cur = nx; }
          out.push_back(fromE(mkIte(mkExtract(ix.e, 7, 1), mkConst(8, 0), cur[0]))); }
        for (u32 k = 0; k < 16; k++) ret(k, out[k]); break; }
    case Intrinsic::x86_sse2_psad_bw: {
        std::vector<Val> out; for (int h = 0; h < 2; h++) { Expr* s = mkConst(64, 0); for (int j = 0; j < 8; j++) { Expr *a = mkZExt(toE(arg(0, h * 8 + j), 8), 64), *b = mkZExt(toE(arg(1, h * 8 + j), 8), 64); s = mkBin(Op::Add, s, mkIte(mkBin(Op::Ult, a, b), mkBin(Op::Sub, b, a), mkBin(Op::Sub, a, b))); } out.push_back(fromE(s)); }
        ret(0, out[0]); ret(1, out[1]); break; }
    case Intrinsic::x86_pclmulqdq: {
        u64 imm = arg(2).c; Expr *a = toE(arg(0, imm & 1), 64), *b = toE(arg(1, imm >> 4 & 1), 64); Expr *lo = mkConst(64, 0), *hi = mkConst(64, 0);
        if (isC(a)) std::swap(a, b);
        for (unsigned i = 0; i < 64; i++) { Expr* m = mkSExt(mkExtract(b, i, 1), 64); if (isC(m) && !m->c) continue; Expr* l = mkBin(Op::Shl, a, mkConst(64, i)); Expr* h = i ? mkBin(Op::LShr, a, mkConst(64, 64 - i)) : mkConst(64, 0); lo = mkBin(Op::Xor, lo, mkBin(Op::And, l, m)); hi = mkBin(Op::Xor, hi, mkBin(Op::And, h, m)); }
        ret(0, fromE(lo)); ret(1, fromE(hi)); break; }
    case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_sse2_packsswb_128: {
        bool us = ci.iid == Intrinsic::x86_sse2_packuswb_128; std::vector<Val> out;
        for (int k = 0; k < 16; k++) { Expr* a = toE(arg(k / 8, k % 8), 16); Expr *lo = mkConst(16, us ? 0 : 0xff80), *hi = mkConst(16, us ? 255 : 127); Expr* c = mkIte(mkBin(Op::Slt, a, lo), lo, mkIte(mkBin(Op::Slt, hi, a), hi, a)); out.push_back(fromE(mkExtract(c, 0, 8))); }
        for (int k = 0; k < 16; k++) ret(k, out[k]); break; }
    default: incomplete(st, "unsupported intrinsic " + ci.callee->name);
  }
  st.top()->pc++;
}

enum { B_SYM_BYTES, B_SYM_U64, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_REACH, B_SYM_OBSERVE, B_SYM_CONC, B_SYM_ISENGINE, B_SYM_FAIL, B_SYM_END, B_SYM_EQ, B_SYM_LIMIT, B_SYM_ITE, B_SYM_DECIDE, B_SYM_TRACE, B_SYM_VALID, B_SYM_ISSYM, B_SYM_SAME, B_SYM_SUBST, B_SYM_STRLEN,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_ABORT, B_EXIT, B_NOP0, B_THROW, B_ATEXIT, B_GUARD_ACQ, B_PUREVIRT, B_MSIZE, B_FMATH1, B_FMATH2, B_NOPSELF, B_ASSERTFAIL };
struct BI { int id; const char* extra; };
static const std::map<std::string, BI>& btab() {
  static std::map<std::string, BI> t = {
    {"sym_bytes", {B_SYM_BYTES, 0}}, {"sym_range_", {B_SYM_U64, 0}}, {"sym_assume_", {B_SYM_ASSUME, 0}}, {"sym_assert_", {B_SYM_ASSERT, 0}}, {"sym_reach", {B_SYM_REACH, 0}}, {"sym_observe", {B_SYM_OBSERVE, 0}},
    {"sym_concretize", {B_SYM_CONC, 0}}, {"sym_is_engine", {B_SYM_ISENGINE, 0}}, {"sym_end", {B_SYM_END, 0}}, {"sym_eq", {B_SYM_EQ, 0}}, {"sym_limit", {B_SYM_LIMIT, 0}}, {"sym_ite", {B_SYM_ITE, 0}}, {"sym_split", {B_SYM_DECIDE, 0}}, {"sym_trace", {B_SYM_TRACE, 0}}, {"sym_alloc_size", {B_MSIZE, 0}}, {"sym_valid", {B_SYM_VALID, 0}}, {"sym_issym", {B_SYM_ISSYM, 0}}, {"sym_same", {B_SYM_SAME, 0}}, {"sym_subst", {B_SYM_SUBST, 0}},
    {"malloc", {B_MALLOC, 0}}, {"_Znwm", {B_MALLOC, "new"}}, {"_Znam", {B_MALLOC, "new"}}, {"_ZnwmRKSt9nothrow_t", {B_MALLOC, 0}}, {"_ZnamRKSt9nothrow_t", {B_MALLOC, 0}}, {"_ZnwmSt11align_val_t", {B_MALLOC, "new"}}, {"_ZnamSt11align_val_t", {B_MALLOC, "new"}},
    {"calloc", {B_CALLOC, 0}}, {"realloc", {B_REALLOC, 0}}, {"free", {B_FREE, 0}}, {"_ZdlPv", {B_FREE, 0}}, {"_ZdaPv", {B_FREE, 0}}, {"_ZdlPvm", {B_FREE, 0}}, {"_ZdaPvm", {B_FREE, 0}}, {"_ZdlPvSt11align_val_t", {B_FREE, 0}}, {"_ZdlPvmSt11align_val_t", {B_FREE, 0}}, {"_ZdaPvSt11align_val_t", {B_FREE, 0}}, {"_ZdaPvmSt11align_val_t", {B_FREE, 0}},
    {"aligned_alloc", {B_MALLOC, "aligned"}},
    {"memcpy", {B_MEMCPY, 0}}, {"memmove", {B_MEMCPY, 0}}, {"memset", {B_MEMSET, 0}},
    {"abort", {B_ABORT, "abort() called"}}, {"_ZSt9terminatev", {B_ABORT, "std::terminate called"}}, {"__cxa_pure_virtual", {B_ABORT, "pure virtual call"}}, {"exit", {B_EXIT, 0}}, {"_exit", {B_EXIT, 0}},
    {"__assert_fail", {B_ASSERTFAIL, 0}}, {"__stack_chk_fail", {B_ABORT, "stack smashing"}},
    {"_ZSt20__throw_length_errorPKc", {B_THROW, "std::length_error"}}, {"_ZSt17__throw_bad_allocv", {B_THROW, "std::bad_alloc"}}, {"_ZSt20__throw_out_of_rangePKc", {B_THROW, "std::out_of_range"}}, {"_ZSt24__throw_out_of_range_fmtPKcz", {B_THROW, "std::out_of_range"}}, {"_ZSt19__throw_logic_errorPKc", {B_THROW, "std::logic_error"}},
    {"_ZSt28__throw_bad_array_new_lengthv", {B_THROW, "std::bad_array_new_length"}}, {"_ZSt25__throw_bad_function_callv", {B_THROW, "std::bad_function_call"}}, {"_ZSt24__throw_invalid_argumentPKc", {B_THROW, "std::invalid_argument"}}, {"_ZSt20__throw_system_errori", {B_THROW, "std::system_error"}}, {"_ZSt16__throw_bad_castv", {B_THROW, "std::bad_cast"}}, {"_ZSt19__throw_regex_errorNSt15regex_constants10error_typeE", {B_THROW, "std::regex_error"}},
    {"_ZSt19__throw_range_errorPKc", {B_THROW, "std::range_error"}}, {"_ZSt26__throw_bad_variant_accessPKc", {B_THROW, "std::bad_variant_access"}}, {"_ZSt27__throw_bad_optional_accessv", {B_THROW, "std::bad_optional_access"}},
    {"__cxa_atexit", {B_NOP0, 0}}, {"atexit", {B_NOP0, 0}}, {"__cxa_thread_atexit", {B_NOP0, 0}}, {"__cxa_guard_acquire", {B_GUARD_ACQ, 0}}, {"__cxa_guard_release", {B_NOP0, 0}},
    {"pthread_mutex_lock", {B_NOP0, 0}}, {"pthread_mutex_unlock", {B_NOP0, 0}}, {"pthread_mutex_init", {B_NOP0, 0}}, {"pthread_mutex_destroy", {B_NOP0, 0}}, {"pthread_mutex_trylock", {B_NOP0, 0}},
    {"pthread_rwlock_rdlock", {B_NOP0, 0}}, {"pthread_rwlock_wrlock", {B_NOP0, 0}}, {"pthread_rwlock_unlock", {B_NOP0, 0}},
    {"_ZNSt18condition_variableC1Ev", {B_NOP0, 0}}, {"_ZNSt18condition_variableD1Ev", {B_NOP0, 0}}, {"_ZNSt18condition_variable10notify_allEv", {B_NOP0, 0}}, {"_ZNSt18condition_variable10notify_oneEv", {B_NOP0, 0}},
    {"pow", {B_FMATH2, "pow"}}, {"fmod", {B_FMATH2, "fmod"}}, {"log", {B_FMATH1, "log"}}, {"log2", {B_FMATH1, "log2"}}, {"log10", {B_FMATH1, "log10"}}, {"exp", {B_FMATH1, "exp"}}, {"floor", {B_FMATH1, "floor"}}, {"ceil", {B_FMATH1, "ceil"}}, {"sqrt", {B_FMATH1, "sqrt"}}, {"round", {B_FMATH1, "round"}},
  };
  return t;
}
int builtinId(const std::string& n) { auto it = btab().find(n); return it == btab().end() ? -1 : it->second.id; }

static u32 newArray(State& st, const std::string& nm, u32 n) {
  u32 k = st.nameCount[nm]++;
  std::string full = nm + "#" + std::to_string(k);
  std::string key = full + "/" + std::to_string(n);
  auto it = g_arrIdx.find(key);
  u32 ix;
  if (it == g_arrIdx.end()) { ix = g_arrNames.size(); g_arrNames.push_back(full); g_arrBase.push_back(varBase(key, n)); g_arrIdx[key] = ix; } else ix = it->second;
  st.arrays.push_back({ix, n});
  return g_arrBase[ix];
}

static void callBuiltin(State& st, Frame* f, const Inst& I, const CallInfo& ci, Fn* fn) {
  auto arg = [&](unsigned i) { return rd(st.frames.back(), ci.args[i]); };
  auto conc = [&](unsigned i) -> u64 { Val v = arg(i); if (!v.e) return v.c; return concretize(st, st.top()->R[ci.args[i]], ci.ty[i]->lanes[0].w); };
  auto str = [&](unsigned i) { return readCStr(st, conc(i)); };
  auto ret = [&](Val v) { if (I.dst >= 0) st.top()->R[I.dst] = v; };
  auto argE = [&](unsigned i) { return toE(arg(i), ci.ty[i]->lanes[0].w); };
  auto argB = [&](unsigned i) { Expr* e = argE(i); return e->w == 1 ? e : mkNot(mkBin(Op::Eq, e, mkConst(e->w, 0))); };
  const char* extra = btab().at(fn->name).extra;
  switch (fn->builtin) {
    case B_SYM_BYTES: { u64 p = conc(0), n = conc(1); std::string nm = str(2); u32 b = newArray(st, nm, n); for (u64 i = 0; i < n; i++) setByte(st, p + i, mkVar(b + i)); break; }
    case B_SYM_U64: {
      u64 lo = conc(0), hi = conc(1); std::string nm = str(2); u64 span = hi - lo; unsigned nb = 1; while (nb < 8 && (span >> (8 * nb))) nb++;
      if (span == 0) { newArray(st, nm, 1); ret(CV(lo)); break; }
      u32 b = newArray(st, nm, nb); Expr* e = nullptr; for (unsigned i = 0; i < nb; i++) { Expr* v = mkVar(b + i); e = e ? mkConcat(v, e) : v; }
      if (span != maskw(nb * 8)) { Expr* c = mkBin(Op::Ule, e, mkConst(nb * 8, span)); if (!isC(c)) { ModelRef m2; Res r = solverCheck(st.pc, c, st.model, &m2); if (r != Res::Sat) throw PathEnd{1}; st.model = m2; pcAdd(st.pc, c); } }
      ret(fromE(mkBin(Op::Add, mkZExt(e, 64), mkConst(64, lo)))); break; }
    case B_SYM_ASSUME: { Expr* c = argB(0); if (isC(c)) { if (!c->c) throw PathEnd{1}; break; } ModelRef m2; Res r = solverCheck(st.pc, c, st.model, &m2); if (r == Res::Unknown) incomplete(st, "solver gave up on an assumption"); if (r == Res::Unsat) throw PathEnd{1}; st.model = m2; pcAdd(st.pc, c); break; }
    case B_SYM_ASSERT: { std::string m = str(1); require(st, argB(0), "assert", m, true); break; }
    case B_SYM_REACH: { std::string m = str(0); st.reach.insert(m); g_reach.insert(m); break; }
    case B_SYM_OBSERVE: { std::string m = str(0); st.obs.push_back({internStr(m), arg(1)}); break; }
    case B_SYM_CONC: { u64 x = conc(0); ret(CV(x)); break; }
    case B_SYM_DECIDE: { Expr* c = argB(0); bool v = decide(st, c); ret(CV(v)); break; }
    case B_SYM_ISENGINE: ret(CV(1)); break;
    case B_SYM_SAME: { st.same.push_back({argE(0), argE(1)}); break; }
    case B_SYM_SUBST: { Val v = arg(0); if (v.e) for (auto& p : st.same) if (p.first == v.e) { v = fromE(p.second); break; } ret(v); break; }
    case B_SYM_ISSYM: ret(CV(arg(0).e ? 1 : 0)); break;
    case B_SYM_TRACE: { Val v = arg(1); fprintf(stderr, "[sym_trace] %s = %s\n", str(0).c_str(), v.e ? exprStr(v.e, 8).c_str() : std::to_string(v.c).c_str()); break; }
    case B_SYM_END: throw PathEnd{0};
    case B_SYM_LIMIT: st.limit = st.ninst + conc(0); break;
    case B_SYM_VALID: { u64 p = conc(0), n = conc(1); Obj* o = st.mem.find(p); ret(CV(o && !(o->flags & OF_FREED) && p - o->base + n <= o->size)); break; }
    case B_SYM_EQ: { u64 p = conc(0), q = conc(1), n = conc(2); Expr* r = mkConst(1, 1); for (u64 i = 0; i < n; i++) r = mkBin(Op::And, r, mkBin(Op::Eq, byteAt(st, p + i), byteAt(st, q + i))); ret(fromE(mkZExt(r, I.w ? I.w : 32))); break; }
    case B_SYM_ITE: { Expr* c = argB(0); ret(fromE(mkIte(c, argE(1), argE(2)))); break; }
    case B_MSIZE: { u64 p = conc(0); Obj* o = st.mem.find(p); ret(CV(o ? o->size : 0)); break; }
    case B_MALLOC: {
      unsigned ai = extra && !strcmp(extra, "aligned") ? 1 : 0; u64 n = conc(ai);
      if (n > (256u << 20)) { if (extra && !strcmp(extra, "new")) violate(st, "alloc", "allocation of more than 256 MB"); ret(CV(0)); break; }
      Obj* o = st.mem.alloc(n, OF_HEAP, 0xBE); ret(CV(o->base)); break; }
    case B_CALLOC: { u64 n = conc(0) * conc(1); if (n > (256u << 20)) { ret(CV(0)); break; } Obj* o = st.mem.alloc(n, OF_HEAP, 0); ret(CV(o->base)); break; }
    case B_REALLOC: {
      u64 p = conc(0), n = conc(1); if (n > (256u << 20)) { ret(CV(0)); break; }
      if (p) { Obj* o = st.mem.find(p); if (!o || o->base != p || !(o->flags & OF_HEAP)) violate(st, "memory", "realloc of an invalid pointer"); if (o->flags & OF_FREED) violate(st, "memory", "realloc of freed memory"); }
      if (p && n == 0) { st.mem.freeHeap(st.mem.find(p)); ret(CV(0)); break; }
      Obj* q = st.mem.alloc(n, OF_HEAP, 0xBE); u64 nb = q->base;
      if (p) { Obj* o = st.mem.find(p); copyMem(st, nb, p, std::min(n, o->size)); st.mem.freeHeap(st.mem.find(p)); }
      ret(CV(nb)); break; }
    case B_FREE: {
      u64 p = conc(0); if (!p) break; Obj* o = st.mem.find(p);
      if (!o || o->base != p || !(o->flags & OF_HEAP)) violate(st, "memory", "free of an invalid pointer");
      if (o->flags & OF_FREED) violate(st, "memory", "double free");
      st.mem.freeHeap(o); break; }
    case B_MEMCPY: { u64 n = conc(2); u64 d = conc(0); if (n) { u64 s = conc(1); if (fn->name == "memcpy" && d != s && d < s + n && s < d + n) violate(st, "memory", "memcpy of overlapping regions"); copyMem(st, d, s, n); } ret(CV(d)); break; }
    case B_MEMSET: { u64 n = conc(2), d = conc(0); Val v = arg(1); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255; if (n) { Obj* o = st.mem.writable(access(st, d, n, true)); u64 off = d - o->base; if (!v.e && !o->nsym) memset(o->data + off, (int)v.c, n); else for (u64 i = 0; i < n; i++) storeObj(o, off + i, 1, 8, v); } ret(CV(d)); break; }
    case B_ABORT: violate(st, "abort", extra);
    case B_ASSERTFAIL: violate(st, "abort", "assertion failed: " + str(0));
    case B_THROW: violate(st, "exception", std::string("uncaught ") + extra);
    case B_EXIT: throw PathEnd{0};
    case B_NOP0: ret(CV(0)); break;
    case B_GUARD_ACQ: { u64 p = conc(0); Expr* b = byteAt(st, p); if (isC(b) && b->c) ret(CV(0)); else { setByte(st, p, mkConst(8, 1)); ret(CV(1)); } break; }
    case B_FMATH1: case B_FMATH2: { double x = asD(conc(0)), y = fn->builtin == B_FMATH2 ? asD(conc(1)) : 0, r; std::string n = extra; r = n == "pow" ? pow(x, y) : n == "fmod" ? fmod(x, y) : n == "log" ? log(x) : n == "log2" ? log2(x) : n == "log10" ? log10(x) : n == "exp" ? exp(x) : n == "floor" ? floor(x) : n == "ceil" ? ceil(x) : n == "round" ? round(x) : sqrt(x); ret(CV(fromD(r))); break; }
    default: incomplete(st, "builtin " + fn->name);
  }
  st.top()->pc++;
}
