#pragma once
#include "machine.h"
struct ExecStats { u64 insts = 0, forks = 0, branches = 0, done = 0, assumed = 0, violated = 0, incomplete = 0; };
struct Violation { std::string kind, msg, site, stack; u64 count = 0; std::vector<std::vector<std::pair<std::string, std::string>>> models; };
extern ExecStats g_es; extern std::vector<State*> g_pending; extern std::map<std::string, Violation> g_viol; extern std::map<std::string, u64> g_incomplete;
extern std::set<std::string> g_reach; extern u64 g_defLimit; extern bool g_trace;
extern std::vector<std::string> g_arrNames; extern std::vector<u32> g_arrBase;
void runState(State& st);
void pushFrame(State& st, Fn* fn, const std::vector<Val>& args);
void require(State& st, Expr* ok, const std::string& kind, const std::string& msg, bool isAssert);
std::vector<std::pair<std::string, std::string>> dumpModel(State& st, const Model& m);
void recordViolation(State& st, const std::string& kind, const std::string& msg, const Model& m);
