#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>
#include <functional>

struct Val { u64 c; Expr* e; };
inline Val CV(u64 c) { return Val{c, nullptr}; }
inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
inline Val fromE(Expr* e) { return isC(e) ? Val{e->c, nullptr} : Val{0, e}; }

// ---------- memory
enum { OF_HEAP = 1, OF_STACK = 2, OF_GLOBAL = 4, OF_CONST = 8, OF_FREED = 16 };
struct Obj { u32 refs; u8 flags; u32 nsym; u64 base, size; u8* data; Expr** sym; const char* what; };
struct Chunk { u32 refs; Obj* o[64]; };
Obj* objNew(u64 base, u64 size, u8 flags, u8 fill);
void objRelease(Obj*);
static const u64 GRAN = 16;
static const u64 STACK_ID = 1ull << 30;

struct Mem {
  std::vector<Chunk*> reg[2]; // 0: globals+heap, 1: stack
  u64 nextHeap = 16, nextStack = 0;
  Mem() {}
  Mem(const Mem& o);
  ~Mem();
  Mem& operator=(const Mem&) = delete;
  inline Obj* find(u64 addr) const {
    u64 id = addr >> GRAN; unsigned r = 0;
    if (id >= STACK_ID) { id -= STACK_ID; r = 1; }
    auto& v = reg[r];
    if ((id >> 6) >= v.size()) return nullptr;
    Chunk* c = v[id >> 6];
    return c ? c->o[id & 63] : nullptr;
  }
  void setSlot(unsigned r, u64 id, Obj* o); // takes a reference
  Obj* writable(Obj* o);
  Obj* alloc(u64 size, u8 flags, u8 fill);
  void freeHeap(Obj* o);
  void popStack(u64 top);
};

// ---------- code
enum Opc : u8 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_TRUNC, I_ZEXT, I_SEXT, I_FPCAST, I_BITCAST, I_COPY, I_LOAD, I_STORE, I_GEP, I_SELECT,
  I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA, I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_INSERTVAL, I_UNREACHABLE, I_ATOMICRMW, I_CMPXCHG, I_NOP, I_WIDE, I_UNSUP };

struct LaneT { u32 off; u8 w; u8 nb; };
struct TyInfo { std::vector<LaneT> lanes; u64 size, align; };

struct GepTerm { i32 op; u8 w; i64 scale; };
struct Fn;
struct CallInfo { Fn* callee = nullptr; i32 fp = 0; std::vector<i32> args; std::vector<u32> lanes; std::vector<u64> byval; std::vector<const TyInfo*> ty; u32 nfixed = 0; u32 iid = 0; u8 w = 0; u32 n = 0; };
struct SwitchInfo { std::vector<std::pair<u64, std::pair<u32, i32>>> cases; std::map<u64, std::pair<u32, i32>> map; };
struct Edge { std::vector<std::pair<u32, i32>> copies; };
struct Inst {
  u8 op, sub, w, w2; u32 n; i32 dst, a, b, c;
  u32 t0, t1; i32 e0, e1;
  i64 k; const void* p;
  const llvm::Instruction* src;
};
struct Fn {
  llvm::Function* f = nullptr; std::string name; int builtin = -1; bool decoded = false, executed = false, varargs = false;
  std::vector<Inst> code; std::vector<Edge> edges; u32 nlanes = 0;
  std::vector<u32> argStart, argLanes; u64 addr = 0; u32 fixedLanes = 0;
  u64 calls = 0;
};

struct Frame {
  u32 refs = 1; Fn* fn; u32 pc; u64 stackTop; std::vector<Val> R; u64 vaArea = 0;
};

struct State {
  std::vector<Frame*> frames;
  Mem mem; PathCond pc; ModelRef model;
  u64 ninst = 0, limit = 0; u32 depth = 0; u64 id = 0; u32 valForks = 0;
  std::vector<std::pair<const char*, Val>> obs;
  std::vector<std::pair<u32, u32>> arrays; // (array index in g_arrNames, n)
  std::map<std::string, u32> nameCount;
  std::set<std::string> reach;
  std::set<u64> covered; // (branch decisions, optional)
  std::vector<std::pair<Expr*, Expr*>> same; // value of printed digits -> the number printed
  State() {}
  State(const State& o);
  ~State();
  Frame* top() { Frame* f = frames.back(); if (f->refs > 1) { Frame* n = new Frame(*f); n->refs = 1; f->refs--; frames.back() = n; return n; } return f; }
};

struct PathEnd { int kind; }; // 0 done, 1 assume, 2 violation, 3 incomplete
