// Hash-consed bit-vector expressions (width 1..64), with simplification, evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8;

enum class Op : u8 { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, I2D };

struct VarSet { std::vector<u32> v; u32 id; };

struct Expr {
  Op op; u8 w; u8 off; // off: extract offset
  u32 id;
  u64 c;               // const value or var id
  Expr* k[3];
  VarSet* vs;
  u64 hash;
  u64 stamp = 0; u64 sval = 0;     // eval memo
  Z3_ast z3 = nullptr;
  struct Bitmap* bm = nullptr;     // truth table for single-var booleans
  u64 kz = 0; bool kzDone = false; // known zero bits
};

struct Bitmap { u64 b[4]; };

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

// symbolic variables: byte arrays, each byte is one Var of width 8
struct VarInfo { std::string name; u32 index; };

struct Model {
  std::vector<u8> val; // by var id; missing = 0
  u64 uid;
  u8 get(u32 id) const { return id < val.size() ? val[id] : 0; }
};
typedef std::shared_ptr<const Model> ModelRef;
ModelRef newModel(const Model* base = nullptr);
std::shared_ptr<Model> copyModel(const ModelRef& m);

extern std::vector<VarInfo> g_vars;
u32 varBase(const std::string& arrayName, u32 n); // ids of array's bytes are base..base+n-1

Expr* mkConst(unsigned w, u64 v);
Expr* mkVar(u32 id);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkI2D(Expr* a); // signed 64-bit integer as a double
Expr* mkNot(Expr* a); // boolean not
inline bool isC(Expr* e) { return e->op == Op::Const; }

u64 evalExpr(Expr* e, const Model& m);
const Bitmap& truthTable(Expr* e); // e boolean with exactly one var
u64 knownZero(Expr* e);
void rangeOf(Expr* e, u64& lo, u64& hi); // unsigned
u64 binEval(Op op, unsigned w, u64 a, u64 b);
std::string exprStr(Expr* e, int depth = 6);
Z3_ast toZ3(Z3_context ctx, Expr* e);
extern u64 g_exprCount;
