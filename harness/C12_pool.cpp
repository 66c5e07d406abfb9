// TUS nntp/ServerPool.cpp nntp/NewsServer.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp
// QUICK -DS=2 -DK=4
// THOROUGH -DS=3 -DK=5
// BOUND h_levels: 4 servers with levels 0..2, switched on or off, with 0 or 1 connections; h_one: $S servers with levels 0..1, groups 0..2, 0..2 connections, each in use, open, blocked or not, any request; h_history: 2 servers, $K operations (request, return, connect, block, switch on or off, time passes, close unused)
// STUB connections have no socket, opening and closing one sets its status
// ENTRY h_levels q=30 t=100 reach=backup
// ENTRY h_one q=60 t=600 reach=given,refused,later,ignored,group
// ENTRY h_history q=90 t=800 reach=given,refused,returned,disabled
#include "common.h"
#include "priv.h"
#include "Log.h"
#include "ServerPool.h"
#include "quietlog.h"
Log* g_Log; void Log::RegisterDebuggable(Debuggable*) {} void Log::UnregisterDebuggable(Debuggable*) {}
Connection::Connection(const char*, int, bool) {} Connection::~Connection() {} bool Connection::Connect() { m_status = csConnected; return true; } bool Connection::Disconnect() { m_status = csDisconnected; return true; } void Connection::PrintError(const char*) {}
NntpConnection::NntpConnection(NewsServer* s) : Connection("h", 1, false), m_newsServer(s) {} bool NntpConnection::Connect() { m_status = csConnected; return true; } bool NntpConnection::Disconnect() { m_status = csDisconnected; return true; }
static ServerPool* p; static NewsServer* sv[4]; static int ns;
static NewsServer* add(bool active, int conn, int level, int group, bool opt) { auto s = std::make_unique<NewsServer>(ns + 1, active, "s", "h", 119, 4, "", "", false, false, "", conn, 0, level, group, opt); NewsServer* r = s.get(); sv[ns++] = r; p->AddServer(std::move(s)); return r; }
static uint64_t anyrand() { return sym_pick(12, "random") * 65536; }
static void begin() { env_reset(); env_now = 1000000; p = new ServerPool; p->SetRetryInterval(10); ns = 0; }
static bool runs(NewsServer* s) { return s->m_active && s->m_maxConnections > 0; }
EX void h_levels() { begin(); for (int i = 0; i < 4; i++) add(sym_bool("active"), sym_ite(sym_bool("connection"), 1, 0), (int)sym_range(0, 2, "level"), 0, false); p->InitConnections();
  int lo = 9, top = -1; for (int i = 0; i < 4; i++) { lo = sym_ite(sv[i]->m_level < lo, sv[i]->m_level, lo); top = sym_ite(sv[i]->m_normLevel > top, sv[i]->m_normLevel, top); }
  bool seen[4] = {}; for (int i = 0; i < 4; i++) { NewsServer* a = sv[i]; bool in = (a->m_active & (a->m_maxConnections > 0)) | (a->m_level == lo); sym_assert((a->m_normLevel >= 0) == in, "servers which may be asked have a level, others have none"); sym_assert(a->m_level != lo | a->m_normLevel == 0, "main servers have level 0"); if (in & (a->m_level != lo)) sym_reach("backup");
    for (int k = 0; k < 4; k++) { NewsServer* b = sv[k]; bool both = (a->m_normLevel >= 0) & (b->m_normLevel >= 0); sym_assert(!both | ((a->m_level < b->m_level) == (a->m_normLevel < b->m_normLevel)), "the order of levels is kept"); } for (int l = 0; l < 4; l++) seen[l] |= a->m_normLevel == l; }
  for (int l = 0; l < 4; l++) sym_assert((l <= top) == seen[l], "no level is without servers"); sym_assert(p->GetMaxNormLevel() == top, "the last level is known"); }
static bool blockd(NewsServer* s) { return (s->m_blockTime != 0) & (s->m_blockTime <= env_now) & (env_now < s->m_blockTime + 10); }
// state before a request
struct W { bool blocked, open, free; int n; }; static W w[4];
static void look() { for (int i = 0; i < ns; i++) { w[i] = {}; w[i].blocked = blockd(sv[i]); for (auto& c : p->m_connections) if (c->m_newsServer == sv[i]) { w[i].n++; w[i].free |= !c->m_inUse; w[i].open |= !c->m_inUse & (c->m_status == Connection::csConnected); } } }
static bool ign(NewsServer* s, ServerPool::RawServerList* l) { bool r = false; if (l) for (NewsServer* x : *l) r |= (x == s) | ((x->m_group > 0) & (x->m_group == s->m_group) & (x->m_normLevel == s->m_normLevel)); return r; }
static bool elig(int i, int level, NewsServer* want, ServerPool::RawServerList* l) { NewsServer* s = sv[i]; return s->m_active & w[i].free & (s->m_normLevel == level) & (!want | (want == s) | (want ? (want->m_group > 0) & (want->m_group == s->m_group) : false)) & (!w[i].blocked | w[i].open) & (want != nullptr | !ign(s, l)); }
static NntpConnection* request(int level, NewsServer* want, ServerPool::RawServerList* l) {
  look(); NntpConnection* c = p->GetConnection(level, want, l); int top = p->GetMaxNormLevel();
  bool pass[5], can = true, has[5]; for (int v = level; v <= top; v++) { bool any = false, all = true, fr = false; for (int i = 0; i < ns; i++) { bool on = (sv[i]->m_normLevel == v) & sv[i]->m_active; any |= elig(i, v, want, l); all &= !on | (sv[i]->m_optional & w[i].blocked & !w[i].open); fr |= on & w[i].free; } has[v] = any; pass[v] = can & fr; can = can & fr & all; }
  if (!c) { for (int v = level; v <= top; v++) sym_assert(!(pass[v] & has[v]), "a request is refused only if there is no suitable free connection"); sym_reach("refused"); return c; }
  int k = -1; for (int i = 0; i < ns; i++) if (sv[i] == c->GetNewsServer()) k = i; NewsServer* s = sv[k]; int v = s->m_normLevel;
  sym_assert(s->m_active, "the server is switched on"); sym_assert(!w[k].blocked | w[k].open, "the server isn't blocked"); sym_assert(w[k].free, "the connection was free"); if (want) sym_assert((s == want) | ((want->m_group > 0) & (want->m_group == s->m_group)), "the connection is to the wanted server or one of its group"); else sym_assert(!ign(s, l), "the server isn't to be ignored");
  sym_assert(v >= level, "the level is not below the requested one"); for (int i = 0; i < ns; i++) { bool between = (sv[i]->m_normLevel >= level) & (sv[i]->m_normLevel < v) & sv[i]->m_active; sym_assert(!between | (sv[i]->m_optional & w[i].blocked), "a later level is used only if every server of the earlier one is optional and blocked"); }
  if (v > level) sym_reach("later"); if (want && s != want) sym_reach("group"); sym_reach("given"); return c; }
EX void h_one() { begin(); for (int i = 0; i < S; i++) add(sym_pick(3, "active") != 0, 1 + (int)sym_pick(i == 0 || S < 3 ? 2 : 1, "connections"), (int)sym_pick(2, "level"), (int)sym_range(0, 2, "group"), sym_bool("optional")); p->InitConnections();
  for (int i = 0; i < S; i++) { if (sym_pick(2, "blocked")) { int64_t t = sym_irange(999985, 1000005, "block time"); sv[i]->m_blockTime = t; } }
  for (auto& c : p->m_connections) { if (sym_bool("in use")) { c->m_inUse = true; if (c->m_newsServer->m_active) p->m_levels[c->m_newsServer->m_normLevel]--; } else if (sym_bool("open")) c->m_status = Connection::csConnected; }
  env_rand_hook = anyrand; unsigned q = sym_pick(S + 1, "wanted"); ServerPool::RawServerList l; if (q == 0) { unsigned g = sym_pick(S + 1, "ignored"); if (g) { l.push_back(sv[g - 1]); sym_reach("ignored"); } }
  request((int)sym_pick(2, "requested level"), q ? sv[q - 1] : nullptr, q == 0 && l.empty() ? nullptr : &l); }
EX void h_history() { begin(); for (int i = 0; i < 2; i++) add(true, 1, i ? (int)sym_pick(2, "level") : 0, i ? 1 : (int)sym_pick(2, "group"), i == 0 && sym_pick(2, "optional")); p->InitConnections(); NntpConnection* held[8] = {}; int nh = 0;
  for (int step = 0; step < K; step++) { unsigned op = sym_pick(7, "operation");
    if (op == 0) { unsigned q = sym_pick(4, "request"); ServerPool::RawServerList l; if (q == 3) l.push_back(sv[0]); NntpConnection* c = request((int)sym_pick(2, "requested level"), q == 1 || q == 2 ? sv[q - 1] : nullptr, q == 3 ? &l : nullptr); if (c) { for (int i = 0; i < nh; i++) sym_assert(held[i] != c, "no connection is handed out twice"); held[nh++] = c; } }
    else if (op == 1) { if (!nh) sym_assume(false); unsigned i = sym_pick(nh, "which"); p->FreeConnection(held[i], sym_pick(2, "used")); held[i] = held[--nh]; sym_reach("returned"); }
    else if (op == 2) { if (!nh) sym_assume(false); held[nh - 1]->Connect(); }
    else if (op == 3) p->BlockServer(sv[sym_pick(2, "server")]);
    else if (op == 4) { unsigned i = sym_pick(2, "server"); sv[i]->SetActive(!sv[i]->GetActive()); p->Changed(); if (!sv[i]->m_active) sym_reach("disabled"); }
    else if (op == 5) env_now += sym_irange(1, 20, "seconds");
    else p->CloseUnusedConnections();
    for (int i = 0; i < nh; i++) sym_assert(sym_valid(held[i], 1), "a connection in use is not removed"); for (int i = 0; i < 2; i++) { int n = 0, u = 0, t = 0; for (int k = 0; k < nh; k++) n += held[k]->GetNewsServer() == sv[i]; for (auto& c : p->m_connections) { t += c->m_newsServer == sv[i]; u += c->m_newsServer == sv[i] && c->m_inUse; } sym_assert(n == u, "exactly the connections handed out are in use"); sym_assert(t <= sv[i]->m_maxConnections, "there are not more connections than configured"); }
    for (int v = 0; v < (int)p->m_levels.size(); v++) { int f = 0; for (auto& c : p->m_connections) f += !c->m_inUse && c->m_newsServer->m_active && c->m_newsServer->m_normLevel == v; sym_assert(p->m_levels[v] >= f, "free connections are known to be free"); } } }
