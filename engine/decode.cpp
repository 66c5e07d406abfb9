// Bitcode loading and pre-decoding.
#include "decode.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <cstdio>
using namespace llvm;
llvm::Module* g_mod; const llvm::DataLayout* g_dl;
std::vector<Val> g_consts;
std::map<std::string, Fn*> g_fnByName;
std::unordered_map<u64, Fn*> g_fnByAddr;
static std::unordered_map<const Function*, Fn*> g_fns;
static std::unordered_map<const GlobalVariable*, u64> g_gaddr;
static std::unordered_map<Type*, TyInfo*> g_ty;

static void flat(Type* t, u64 off, TyInfo& ti) {
  if (auto* it = dyn_cast<IntegerType>(t)) {
    unsigned w = it->getBitWidth(); unsigned o = 0;
    while (w > 64) { ti.lanes.push_back({(u32)(off + o), 64, 8}); w -= 64; o += 8; }
    ti.lanes.push_back({(u32)(off + o), (u8)w, (u8)((w + 7) / 8)});
  } else if (t->isPointerTy()) ti.lanes.push_back({(u32)off, 64, 8});
  else if (t->isFloatTy()) ti.lanes.push_back({(u32)off, 32, 4});
  else if (t->isDoubleTy() || t->isX86_FP80Ty()) ti.lanes.push_back({(u32)off, 64, 8});
  else if (auto* st = dyn_cast<StructType>(t)) { auto* sl = g_dl->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), ti); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = g_dl->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, ti); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = (g_dl->getTypeSizeInBits(vt->getElementType()) + 7) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * es, ti); }
  else if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy()) {}
  else { std::string s; raw_string_ostream os(s); t->print(os); fprintf(stderr, "unsupported type %s\n", os.str().c_str()); }
}
const TyInfo& tyInfo(Type* t) {
  auto& p = g_ty[t];
  if (!p) { p = new TyInfo; flat(t, 0, *p); p->size = t->isSized() ? g_dl->getTypeAllocSize(t).getFixedValue() : 0; p->align = t->isSized() ? g_dl->getABITypeAlign(t).value() : 1; }
  return *p;
}
Fn* fnFor(const Function* f) { auto it = g_fns.find(f); return it == g_fns.end() ? nullptr : it->second; }
static u64 gvAddr(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) { auto* o = a->getAliaseeObject(); return gvAddr(o); }
  if (auto* f = dyn_cast<Function>(g)) { Fn* x = fnFor(f); return x ? x->addr : 0; }
  auto* v = cast<GlobalVariable>(g);
  return g_gaddr[v];
}
static void constLanes(const Constant* c, std::vector<Val>& out) {
  const TyInfo& ti = tyInfo(c->getType());
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    APInt v = ci->getValue(); unsigned w = v.getBitWidth();
    for (unsigned o = 0; o < w; o += 64) out.push_back(CV(v.extractBitsAsZExtValue(std::min(64u, w - o), o)));
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (c->getType()->isX86_FP80Ty()) { APFloat f = cf->getValueAPF(); bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); out.push_back(CV(f.bitcastToAPInt().getZExtValue())); }
    else out.push_back(CV(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
    return;
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0; i < ti.lanes.size(); i++) out.push_back(CV(0)); return; }
  if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back(CV(gvAddr(gv))); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLanes(cd->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(c)) { for (auto& op : c->operands()) constLanes(cast<Constant>(op), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto op1 = [&](unsigned i) { std::vector<Val> v; constLanes(ce->getOperand(i), v); return v; };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce); APInt off(64, 0);
        if (!g->accumulateConstantOffset(*g_dl, off)) { fprintf(stderr, "gep const\n"); }
        out.push_back(CV(op1(0)[0].c + off.getZExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        auto v = op1(0); out.push_back(CV(v[0].c & maskw(ti.lanes[0].w))); return; }
      case Instruction::Trunc: case Instruction::ZExt: out.push_back(CV(op1(0)[0].c & maskw(ti.lanes[0].w))); return;
      case Instruction::Add: out.push_back(CV((op1(0)[0].c + op1(1)[0].c) & maskw(ti.lanes[0].w))); return;
      case Instruction::Sub: out.push_back(CV((op1(0)[0].c - op1(1)[0].c) & maskw(ti.lanes[0].w))); return;
      case Instruction::ICmp: { auto a = op1(0)[0].c, b = op1(1)[0].c; auto pr = ce->getPredicate(); bool r = pr == CmpInst::ICMP_EQ ? a == b : pr == CmpInst::ICMP_NE ? a != b : pr == CmpInst::ICMP_ULT ? a < b : pr == CmpInst::ICMP_UGT ? a > b : false; out.push_back(CV(r)); return; }
      default: fprintf(stderr, "unsupported constant expr %s\n", ce->getOpcodeName()); out.push_back(CV(0)); return;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().substr(0, 200).c_str());
  for (size_t i = 0; i < ti.lanes.size(); i++) out.push_back(CV(0));
}
std::string locOf(const Instruction* i) {
  if (!i) return "?";
  std::string fn = i->getFunction()->getName().str();
  if (const DebugLoc& d = i->getDebugLoc()) {
    const DILocation* l = d.get();
    std::string r = l->getFilename().str(); size_t p = r.find("/daemon/"); if (p != std::string::npos) r = r.substr(p + 1); else { p = r.find("/lib/"); if (p != std::string::npos) r = r.substr(p + 1); }
    return r + ":" + std::to_string(l->getLine()) + " (" + fn + ")";
  }
  return fn;
}

void loadModule(const char* path, Mem& mem) {
  static LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(path, err, ctx);
  if (!m) { err.print("symex", errs()); exit(2); }
  g_mod = m.release(); g_dl = &g_mod->getDataLayout();
  // function addresses
  for (auto& f : *g_mod) {
    Fn* x = new Fn; x->f = &f; x->name = f.getName().str(); x->varargs = f.isVarArg();
    x->builtin = builtinId(x->name);
    x->addr = mem.nextHeap++ << GRAN;
    g_fns[&f] = x; g_fnByName[x->name] = x; g_fnByAddr[x->addr] = x;
  }
  for (auto& g : g_mod->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    u64 sz = g.getValueType()->isSized() ? g_dl->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    if (g.isDeclaration() && sz < 64) sz = 64;
    Obj* o = mem.alloc(sz, OF_GLOBAL, 0);
    o->what = g.getName().data();
    g_gaddr[&g] = o->base;
  }
  for (auto& g : g_mod->globals()) {
    if (g.isDeclaration() || g.getName().starts_with("llvm.")) continue;
    Obj* o = mem.find(g_gaddr[&g]);
    const TyInfo& ti = tyInfo(g.getValueType());
    if (auto* cda = dyn_cast<ConstantDataSequential>(g.getInitializer())) { StringRef r = cda->getRawDataValues(); memcpy(o->data, r.data(), r.size()); }
    else if (!isa<ConstantAggregateZero>(g.getInitializer())) {
      std::vector<Val> v; constLanes(g.getInitializer(), v);
      for (size_t i = 0; i < ti.lanes.size() && i < v.size(); i++) memcpy(o->data + ti.lanes[i].off, &v[i].c, ti.lanes[i].nb);
    }
    if (g.isConstant()) o->flags |= OF_CONST;
  }
}

// ---- decoding
namespace {
struct Dec {
  Fn* fn; std::unordered_map<const Value*, i32> slot; std::unordered_map<const Constant*, i32> cslot;
  std::unordered_map<const BasicBlock*, u32> bb; u32 nl = 0;
  i32 opnd(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c); if (it != cslot.end()) return it->second;
      i32 idx = ~(i32)g_consts.size(); constLanes(c, g_consts);
      if (~idx == (i32)g_consts.size()) g_consts.push_back(CV(0));
      return cslot[c] = idx;
    }
    auto it = slot.find(v);
    if (it == slot.end()) { fprintf(stderr, "no slot\n"); abort(); }
    return it->second;
  }
};
}
static bool wideTy(Type* t) { if (auto* v = dyn_cast<FixedVectorType>(t)) t = v->getElementType(); return t->isIntegerTy() && t->getIntegerBitWidth() > 64; }
static unsigned aggOff(Type* t, ArrayRef<unsigned> idx) {
  unsigned o = 0;
  for (unsigned i : idx) {
    if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += tyInfo(st->getElementType(k)).lanes.size(); t = st->getElementType(i); }
    else { auto* at = cast<ArrayType>(t); o += i * tyInfo(at->getElementType()).lanes.size(); t = at->getElementType(); }
  }
  return o;
}
void decodeFn(Fn* fn) {
  fn->decoded = true;
  Function& F = *fn->f; Dec d; d.fn = fn;
  for (auto& a : F.args()) { d.slot[&a] = d.nl; u32 n = tyInfo(a.getType()).lanes.size(); fn->argStart.push_back(d.nl); fn->argLanes.push_back(n); d.nl += n; }
  fn->fixedLanes = d.nl;
  for (auto& b : F) for (auto& i : b) if (!i.getType()->isVoidTy()) { d.slot[&i] = d.nl; d.nl += std::max<size_t>(1, tyInfo(i.getType()).lanes.size()); }
  fn->nlanes = d.nl;
  // block starts: count non-phi instructions
  u32 pc = 0;
  for (auto& b : F) { d.bb[&b] = pc; for (auto& i : b) if (!isa<PHINode>(i) && !isa<DbgInfoIntrinsic>(i)) pc++; }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> i32 {
    Edge e;
    for (auto& ph : to->phis()) {
      const Value* v = ph.getIncomingValueForBlock(from); i32 s = d.opnd(v); u32 n = tyInfo(ph.getType()).lanes.size(); i32 dst = d.slot[&ph];
      for (u32 i = 0; i < n; i++) { i32 so = s >= 0 ? s + (i32)i : ~(~s + (i32)i); if (so != dst + (i32)i) e.copies.push_back({(u32)(dst + i), so}); }
    }
    if (e.copies.empty()) return -1;
    fn->edges.push_back(e); return (i32)fn->edges.size() - 1;
  };
  for (auto& b : F) for (auto& ir : b) {
    if (isa<PHINode>(ir) || isa<DbgInfoIntrinsic>(ir)) continue;
    Inst I; memset(&I, 0, sizeof I); I.src = &ir; I.dst = ir.getType()->isVoidTy() ? -1 : d.slot[&ir]; I.e0 = I.e1 = -1;
    const TyInfo* rt = ir.getType()->isVoidTy() ? nullptr : &tyInfo(ir.getType());
    if (rt) { I.n = rt->lanes.size(); I.w = rt->lanes.empty() ? 0 : rt->lanes[0].w; }
    I.op = I_UNSUP;
    if (auto* bo = dyn_cast<BinaryOperator>(&ir)) {
      I.a = d.opnd(bo->getOperand(0)); I.b = d.opnd(bo->getOperand(1));
      if (wideTy(ir.getType())) I.op = I_WIDE;
      else if (ir.getType()->isFPOrFPVectorTy()) { I.op = I_FBIN; I.sub = bo->getOpcode(); }
      else {
        I.op = I_BIN; Op o;
        switch (bo->getOpcode()) { case Instruction::Add: o = Op::Add; break; case Instruction::Sub: o = Op::Sub; break; case Instruction::Mul: o = Op::Mul; break;
          case Instruction::UDiv: o = Op::UDiv; break; case Instruction::SDiv: o = Op::SDiv; break; case Instruction::URem: o = Op::URem; break; case Instruction::SRem: o = Op::SRem; break;
          case Instruction::Shl: o = Op::Shl; break; case Instruction::LShr: o = Op::LShr; break; case Instruction::AShr: o = Op::AShr; break;
          case Instruction::And: o = Op::And; break; case Instruction::Or: o = Op::Or; break; default: o = Op::Xor; break; }
        I.sub = (u8)o;
      }
    } else if (auto* uo = dyn_cast<UnaryOperator>(&ir)) { I.op = I_FNEG; I.a = d.opnd(uo->getOperand(0)); }
    else if (auto* ci = dyn_cast<ICmpInst>(&ir)) {
      I.op = I_ICMP; I.a = d.opnd(ci->getOperand(0)); I.b = d.opnd(ci->getOperand(1)); I.sub = ci->getPredicate(); I.w2 = tyInfo(ci->getOperand(0)->getType()).lanes[0].w;
      if (wideTy(ci->getOperand(0)->getType())) I.op = I_WIDE;
    } else if (auto* fc = dyn_cast<FCmpInst>(&ir)) { I.op = I_FCMP; I.a = d.opnd(fc->getOperand(0)); I.b = d.opnd(fc->getOperand(1)); I.sub = fc->getPredicate(); I.w2 = tyInfo(fc->getOperand(0)->getType()).lanes[0].w; }
    else if (auto* ca = dyn_cast<CastInst>(&ir)) {
      const TyInfo& st = tyInfo(ca->getSrcTy()); I.a = d.opnd(ca->getOperand(0)); I.w2 = st.lanes[0].w;
      bool wide = wideTy(ca->getSrcTy()) || wideTy(ca->getDestTy());
      switch (ca->getOpcode()) {
        case Instruction::Trunc: I.op = wide ? I_WIDE : I_TRUNC; break;
        case Instruction::ZExt: I.op = wide ? I_WIDE : I_ZEXT; break;
        case Instruction::SExt: I.op = wide ? I_WIDE : I_SEXT; break;
        case Instruction::PtrToInt: I.op = I.w < 64 ? I_TRUNC : I_COPY; break;
        case Instruction::IntToPtr: I.op = I.w2 < 64 ? I_ZEXT : I_COPY; break;
        case Instruction::BitCast: I.op = (st.lanes.size() == rt->lanes.size()) ? I_COPY : I_BITCAST; break;
        case Instruction::AddrSpaceCast: I.op = I_COPY; break;
        default: I.op = I_FPCAST; I.sub = ca->getOpcode(); break;
      }
    } else if (auto* li = dyn_cast<LoadInst>(&ir)) { I.op = I_LOAD; I.a = d.opnd(li->getPointerOperand()); I.p = rt; I.k = g_dl->getTypeStoreSize(li->getType()).getFixedValue(); }
    else if (auto* si = dyn_cast<StoreInst>(&ir)) { const TyInfo& st = tyInfo(si->getValueOperand()->getType()); I.op = I_STORE; I.a = d.opnd(si->getPointerOperand()); I.b = d.opnd(si->getValueOperand()); I.p = &st; I.n = st.lanes.size(); I.k = g_dl->getTypeStoreSize(si->getValueOperand()->getType()).getFixedValue(); }
    else if (auto* ge = dyn_cast<GetElementPtrInst>(&ir)) {
      if (ir.getType()->isPointerTy()) {
        I.op = I_GEP; I.a = d.opnd(ge->getPointerOperand()); auto* terms = new std::vector<GepTerm>; i64 k = 0;
        for (auto it = gep_type_begin(ge), e = gep_type_end(ge); it != e; ++it) {
          const Value* ix = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { k += g_dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sc = g_dl->getTypeAllocSize(it.getIndexedType()).getFixedValue();
          if (auto* cc = dyn_cast<ConstantInt>(ix)) { k += cc->getSExtValue() * sc; continue; }
          terms->push_back({d.opnd(ix), (u8)ix->getType()->getIntegerBitWidth(), sc});
        }
        I.k = k; I.p = terms;
      }
    } else if (auto* se = dyn_cast<SelectInst>(&ir)) { I.op = I_SELECT; I.a = d.opnd(se->getCondition()); I.b = d.opnd(se->getTrueValue()); I.c = d.opnd(se->getFalseValue()); I.sub = se->getCondition()->getType()->isVectorTy(); I.p = rt; }
    else if (auto* br = dyn_cast<BranchInst>(&ir)) {
      if (br->isUnconditional()) { I.op = I_BR; I.t0 = d.bb[br->getSuccessor(0)]; I.e0 = edge(&b, br->getSuccessor(0)); }
      else { I.op = I_CBR; I.a = d.opnd(br->getCondition()); I.t0 = d.bb[br->getSuccessor(0)]; I.e0 = edge(&b, br->getSuccessor(0)); I.t1 = d.bb[br->getSuccessor(1)]; I.e1 = edge(&b, br->getSuccessor(1)); }
    } else if (auto* sw = dyn_cast<SwitchInst>(&ir)) {
      I.op = I_SWITCH; I.a = d.opnd(sw->getCondition()); I.w = sw->getCondition()->getType()->getIntegerBitWidth(); I.t0 = d.bb[sw->getDefaultDest()]; I.e0 = edge(&b, sw->getDefaultDest());
      auto* si = new SwitchInfo;
      for (auto& c : sw->cases()) { u64 v = c.getCaseValue()->getZExtValue(); auto t = std::make_pair(d.bb[c.getCaseSuccessor()], edge(&b, c.getCaseSuccessor())); si->cases.push_back({v, t}); si->map[v] = t; }
      I.p = si;
    } else if (auto* rt2 = dyn_cast<ReturnInst>(&ir)) { I.op = I_RET; if (rt2->getReturnValue()) { I.a = d.opnd(rt2->getReturnValue()); I.n = tyInfo(rt2->getReturnValue()->getType()).lanes.size(); } }
    else if (auto* al = dyn_cast<AllocaInst>(&ir)) { I.op = I_ALLOCA; I.k = g_dl->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); I.a = d.opnd(al->getArraySize()); I.w2 = al->getArraySize()->getType()->getIntegerBitWidth(); }
    else if (auto* cb = dyn_cast<CallInst>(&ir)) {
      I.op = I_CALL; auto* ci = new CallInfo; I.p = ci;
      if (cb->isInlineAsm()) { I.op = I_NOP; // only compiler barriers occur
        if (!ir.getType()->isVoidTy()) I.op = I_UNSUP; }
      else {
        const Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto* cf = dyn_cast<Function>(cv)) ci->callee = fnFor(cf); else ci->fp = d.opnd(cb->getCalledOperand());
        ci->nfixed = cb->getFunctionType()->getNumParams();
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          Value* a = cb->getArgOperand(i);
          if (a->getType()->isMetadataTy()) { ci->args.push_back(0); ci->lanes.push_back(0); ci->byval.push_back(0); ci->ty.push_back(nullptr); continue; }
          ci->args.push_back(d.opnd(a)); const TyInfo& t = tyInfo(a->getType()); ci->lanes.push_back(t.lanes.size()); ci->ty.push_back(&t);
          ci->byval.push_back(cb->isByValArgument(i) ? g_dl->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : 0);
        }
        ci->n = I.n; ci->w = I.w;
        if (auto* ii = dyn_cast<IntrinsicInst>(&ir)) { ci->iid = ii->getIntrinsicID(); if (!ci->iid) ci->iid = 0; }
      }
    } else if (auto* ev = dyn_cast<ExtractValueInst>(&ir)) { I.op = I_COPY; i32 s = d.opnd(ev->getAggregateOperand()); i32 o = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices()); I.a = s >= 0 ? s + o : ~(~s + o); }
    else if (auto* iv = dyn_cast<InsertValueInst>(&ir)) { I.op = I_INSERTVAL; I.a = d.opnd(iv->getAggregateOperand()); I.b = d.opnd(iv->getInsertedValueOperand()); I.k = aggOff(iv->getAggregateOperand()->getType(), iv->getIndices()); I.c = tyInfo(iv->getInsertedValueOperand()->getType()).lanes.size(); }
    else if (auto* ee = dyn_cast<ExtractElementInst>(&ir)) { I.op = I_EXTRACTELT; I.a = d.opnd(ee->getVectorOperand()); I.b = d.opnd(ee->getIndexOperand()); I.w2 = ee->getIndexOperand()->getType()->getIntegerBitWidth(); I.k = cast<FixedVectorType>(ee->getVectorOperandType())->getNumElements(); }
    else if (auto* ie = dyn_cast<InsertElementInst>(&ir)) { I.op = I_INSERTELT; I.a = d.opnd(ie->getOperand(0)); I.b = d.opnd(ie->getOperand(1)); I.c = d.opnd(ie->getOperand(2)); I.w2 = ie->getOperand(2)->getType()->getIntegerBitWidth(); I.k = cast<FixedVectorType>(ie->getType())->getNumElements(); }
    else if (auto* sv = dyn_cast<ShuffleVectorInst>(&ir)) { I.op = I_SHUFFLE; I.a = d.opnd(sv->getOperand(0)); I.b = d.opnd(sv->getOperand(1)); auto* m = new std::vector<int>(sv->getShuffleMask().begin(), sv->getShuffleMask().end()); I.p = m; I.k = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); }
    else if (isa<UnreachableInst>(ir)) I.op = I_UNREACHABLE;
    else if (isa<FreezeInst>(ir)) { I.op = I_COPY; I.a = d.opnd(ir.getOperand(0)); }
    else if (isa<FenceInst>(ir)) I.op = I_NOP;
    else if (auto* rm = dyn_cast<AtomicRMWInst>(&ir)) { I.op = I_ATOMICRMW; I.a = d.opnd(rm->getPointerOperand()); I.b = d.opnd(rm->getValOperand()); I.sub = rm->getOperation(); I.p = rt; I.k = g_dl->getTypeStoreSize(rm->getType()).getFixedValue(); }
    else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&ir)) { I.op = I_CMPXCHG; I.a = d.opnd(cx->getPointerOperand()); I.b = d.opnd(cx->getCompareOperand()); I.c = d.opnd(cx->getNewValOperand()); I.p = &tyInfo(cx->getCompareOperand()->getType()); I.k = g_dl->getTypeStoreSize(cx->getCompareOperand()->getType()).getFixedValue(); I.w2 = tyInfo(cx->getCompareOperand()->getType()).lanes[0].w; }
    fn->code.push_back(I);
  }
}
