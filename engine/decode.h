#pragma once
#include "machine.h"
extern llvm::Module* g_mod;
extern const llvm::DataLayout* g_dl;
extern std::vector<Val> g_consts;
extern std::map<std::string, Fn*> g_fnByName;
extern std::unordered_map<u64, Fn*> g_fnByAddr;
const TyInfo& tyInfo(llvm::Type* t);
void loadModule(const char* path, Mem& mem);
void decodeFn(Fn* f);
Fn* fnFor(const llvm::Function* f);
int builtinId(const std::string& name);
std::string locOf(const llvm::Instruction* i);
