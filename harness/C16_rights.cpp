// TUS remote/XmlRpc.cpp main/Options.cpp util/Util.cpp util/NString.cpp util/FileSystem.cpp
// QUICK -DL=9 -DE=1
// THOROUGH -DL=12 -DE=2
// BOUND h_method: every known method name with letters of any case and method names of up to $L arbitrary characters, all three users; h_config: the methods config and loadconfig over XML-RPC, JSON-RPC, JSON-P-RPC and in multicalls, all three users, options with names of arbitrary case, one arbitrary character within the words and up to $E arbitrary characters before and after; h_get: known methods which change something, GET requests of both protocols
// STUB the configuration file (h_config gives the entries to both methods); shutdown and reload are recorded
// OUTSIDE what the allowed methods do; the options of the list restricted to the control user are compared by name (docs of RestrictedUsername: no passwords, no security options)
// ENTRY h_method q=60 t=400 reach=known,unknown,denied
// ENTRY h_config q=60 t=400 reach=shown,hidden,denied
// ENTRY h_get q=40 t=300 reach=refused,executed
#define REAL_RPC
#include "web.h"
#include "ScriptConfig.h"
static int shut_, reload_; void ExitProc() { shut_++; } void Reload() { reload_++; }
ScriptConfig* g_ScriptConfig; static Options::OptEntries* ents;
bool ScriptConfig::LoadConfig(Options::OptEntries* o) { for (Options::OptEntry& e : *ents) o->emplace_back(e.GetName(), e.GetValue()); return true; }
void Options::OptEntry::SetValue(const char* v) { m_value = v; }
static const char* known[] = {"pause", "pausedownload", "pausedownload2", "resume", "resumedownload", "resumedownload2", "shutdown", "reload", "saveconfig", "editqueue", "writelog", "clearlog", "scan", "pausepost", "resumepost", "pausescan", "resumescan", "scheduleresume", "rate", "append", "appendurl", "fetchfeed", "editserver", "checkupdates", "startupdate", "resetservervolume", "testserver", "startscript", /*28*/ "version", "postqueue", "dump", "status", "log", "listfiles", "listgroups", "loadlog", "history", "urlqueue", "config", "loadconfig", "configtemplates", "viewfeed", "previewfeed", "readurl", "logupdate", "servervolumes", "logscript"};
enum { NKNOWN = sizeof(known) / sizeof(*known), NCHANGE = 28 };
static XmlRpcProcessor* proc(int user) { XmlRpcProcessor* p = new XmlRpcProcessor; p->SetUserAccess((XmlRpcProcessor::EUserAccess)user); p->SetHttpMethod(XmlRpcProcessor::hmPost); return p; }
static bool ci(const char* a, int n, const char* b) { if (n != (int)strlen(b)) return false; bool r = true; for (int i = 0; i < n; i++) { char lo = b[i], up = lo >= 'a' && lo <= 'z' ? (char)(lo - 32) : lo; r &= (a[i] == lo) | (a[i] == up); } return r; }
EX void h_method() { web_init(); char m[40]; int n; int user = (int)sym_pick(3, "user"); bool k = sym_pick(2, "known method"); int which = -1;
  if (k) { which = (int)sym_pick(NKNOWN, "method"); n = strlen(known[which]); static const int at[] = {0, 1, 99}; for (int i = 0; i < n; i++) { m[i] = known[which][i]; bool sym = false; for (int a : at) sym |= i == (a == 99 ? n - 1 : a); if (sym && m[i] >= 'a') { char up = (char)(m[i] - 32); m[i] = sym_bool("upper case") ? up : m[i]; } } }
  else { n = (int)sym_pick(L + 1, "length"); if (n) sym_bytes(m, n, "method"); for (int i = 0; i < n; i++) sym_assume(m[i] != 0); } m[n] = 0;
  XmlRpcProcessor* p = proc(user); std::unique_ptr<XmlCommand> c = p->CreateCommand(m); bool err = c->IsError(); bool add = ci(m, n, "append") | ci(m, n, "appendurl") | ci(m, n, "version"); bool save = ci(m, n, "saveconfig"); bool is = which >= 0; for (int i = 0; i < NKNOWN && !is; i++) if (n == (int)strlen(known[i])) is = ci(m, n, known[i]);
  if (user == 2 && !add) { sym_assert(err, "the add-user can only add to the queue"); sym_reach("denied"); } if (user == 1 && save) { sym_assert(err, "the restricted user can't save the configuration"); sym_reach("denied"); }
  if (is && (user == 0 || (user == 1 && !save) || (user == 2 && add))) { sym_assert(!err, "users can call the methods they have rights for"); sym_reach("known"); } if (!is) { sym_assert(err, "unknown methods are refused"); sym_reach("unknown"); }
  if (which >= 0 && which < NCHANGE && !err) sym_assert(!c->IsSafeMethod(), "methods which change something are not offered to GET requests"); }
static bool hasn(const char* o, int n, const char* s) { int k = strlen(s); for (int i = 0; i + k <= n; i++) if (o[i] == s[0] && !memcmp(o + i, s, k)) return true; return false; }
EX void h_config() { web_init(); static Options::OptEntries* store; int user = (int)sym_pick(3, "user"), proto = (int)sym_pick(4, "protocol"); bool load = sym_pick(2, "loadconfig"); char nm[80]; int n = 0, kind = (int)sym_pick(4, "option");
  static const char* words[] = {"ControlPassword", "Server1.Username", "a.py:b", "SecureKey", "AuthorizedIP", "ControlPort", "MainDir"}; const char* w = kind == 0 ? words[0] : kind == 1 ? words[1] : kind == 2 ? words[2] : words[3 + sym_pick(4, "which")]; int pre = kind < 3 ? (int)sym_pick(E + 1, "before") : 0, post = kind < 3 ? (int)sym_pick(E + 1, "after") : 0; if (pre) sym_bytes(nm, pre, "before"); n = pre; for (const char* q = w; *q; q++) { nm[n] = *q; n++; } int hole = n - 3; if (post) sym_bytes(nm + n, post, "after"); n += post; int p0 = pre; if (kind < 3) sym_bytes(nm + hole, 1, "letter"); if (kind == 2) sym_bytes(nm + pre + 4, 1, "colon"); else { char lo = (char)(nm[p0 + 1] | 32), up = (char)(nm[p0 + 1] & ~32); nm[p0 + 1] = sym_bool("upper case") ? up : lo; } nm[n] = 0;
  for (int i = 0; i < n; i++) { char c = nm[i]; sym_assume(((c >= '0') & (c <= ':')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '.') | (c == '_')); }
  auto lower = [&](int i) { char c = nm[i]; return (char)sym_ite((c >= 'A') & (c <= 'Z'), c + 32, c); }; auto contains = [&](const char* s) { int k = strlen(s); bool r = false; for (int i = 0; i + k <= n; i++) { bool e = true; for (int j = 0; j < k; j++) e &= lower(i + j) == s[j]; r |= e; } return r; };
  bool secret = contains("password") | contains("username") | contains(":"); if (kind == 3) secret = w != words[6]; new (&g_Options->m_optEntries) Options::OptEntries; store = &g_Options->m_optEntries; store->emplace_back("DestDir", "PLAIN"); store->emplace_back(nm, "HUSH"); ents = store;
  char req[300]; const char* meth = load ? "loadconfig" : "config"; if (proto == 0) { strcpy(req, "<methodCall><methodName>"); strcat(req, meth); strcat(req, "</methodName></methodCall>"); } else if (proto == 1) { strcpy(req, "{\"method\":\""); strcat(req, meth); strcat(req, "\"}"); } else if (proto == 2) strcpy(req, ""); else { strcpy(req, "<methodCall><methodName>system.multicall</methodName><struct><member><name>methodName</name><value><string>"); strcat(req, meth); strcat(req, "</string></value></member></struct></methodCall>"); }
  XmlRpcProcessor* p = proc(user); char url[60]; strcpy(url, proto == 0 || proto == 3 ? "/xmlrpc" : proto == 1 ? "/jsonrpc" : "/jsonprpc/"); if (proto == 2) strcat(url, meth); if (proto == 2) p->SetHttpMethod(XmlRpcProcessor::hmGet); p->SetUrl(url); p->SetRequest(req); p->Execute(); const char* o = p->GetResponse(); int on = strlen(o);
  bool hush = hasn(o, on, "HUSH"), plain = hasn(o, on, "PLAIN"); if (user == 0) { sym_assert(hush && plain, "the control user sees all options"); sym_reach("shown"); } if (user == 2) { sym_assert(!hush && !plain, "the add-user sees no options"); sym_reach("denied"); } if (user == 1) { sym_assert(plain, "the restricted user sees common options"); sym_assert(hush ? !secret : secret, "the restricted user sees no passwords and security options"); sym_reach("hidden"); } }
EX void h_get() { web_init(); int which = (int)sym_pick(NCHANGE, "method"), user = (int)sym_pick(2, "user"); bool json = sym_pick(2, "json"); XmlRpcProcessor* p = proc(user); p->SetHttpMethod(XmlRpcProcessor::hmGet); bool post = which >= 6 && which <= 7 && sym_pick(2, "post"); if (post) p->SetHttpMethod(XmlRpcProcessor::hmPost); char url[60]; strcpy(url, json ? "/jsonrpc/" : "/xmlrpc/"); strcat(url, known[which]); p->SetUrl(url); char req[160] = ""; if (post) { strcpy(req, json ? "{\"method\":\"" : "<methodName>"); strcat(req, known[which]); strcat(req, json ? "\"}" : "</methodName>"); url[json ? 8 : 7] = 0; p->SetUrl(url); } p->SetRequest(req); p->Execute();
  sym_assert(shut_ + reload_ == (post ? 1 : 0), "methods which change something are executed only for POST requests"); if (!post) { const char* o = p->GetResponse(); sym_assert(hasn(o, strlen(o), "Not safe procedure") || hasn(o, strlen(o), "Access denied"), "refused"); } sym_reach(post ? "executed" : "refused"); }
