// TUS main/Options.cpp extension/ScriptConfig.cpp util/Util.cpp util/FileSystem.cpp util/NString.cpp
// QUICK -DNV=3 -DNP=2 -DNW=5
// THOROUGH -DNV=4 -DNP=3 -DNW=6
// BOUND h_int: every whole-number option with every value of up to $NV characters out of digits, signs, blank and letters; h_enum: every documented value of every choice option in any letter case and every value of up to 2 characters; h_text: every text option with any value of $NV characters; h_expand: three options with values of up to $NP pieces out of text, references to each other, to other options, to unknown options and stray brackets, the last one set twice; h_names: names of every section in both letter cases and unknown names; h_time, h_days: texts of up to $NW characters; h_sections: up to two servers, categories, feeds or tasks with any subset of the values of the first and three shapes of the second; h_file, h_save: files of up to three lines with and without the last line end
// STUB messages about the configuration are only counted
// OUTSIDE whole numbers from 10^8, values that start with a blank, plus sign or nothing before the end, rates from 2 GB/s, creation of directories
// ENTRY h_int q=60 t=400 reach=ok,bad
// ENTRY h_enum q=60 t=300 reach=ok,bad
// ENTRY h_text q=30 t=100 reach=done
// ENTRY h_expand q=60 t=600 reach=done,known
// ENTRY h_names q=30 t=100 reach=known,unknown
// ENTRY h_time q=40 t=300 reach=ok,bad
// ENTRY h_days q=40 t=300 reach=ok,bad
// ENTRY h_sections q=60 t=400 reach=server,category,feed,task
// ENTRY h_file q=30 t=100 reach=done
// ENTRY h_save q=40 t=200 reach=done
#include "common.h"
#include "priv.h"
#include "Options.h"
#include "ScriptConfig.h"
#include "FileSystem.h"
#include "Log.h"
#include "Util.h"
#include "quietlog.h"
Log* g_Log; Options* g_Options; ScriptConfig* g_ScriptConfig; class WorkState; WorkState* g_WorkState;
void Log::RegisterDebuggable(Debuggable*) {} void Log::UnregisterDebuggable(Debuggable*) {}
static int errs, warns, errLine;
void Options::ConfigError(const char*, ...) { errs++; errLine = m_configLine; m_configErrors = true; }
void Options::ConfigWarn(const char*, ...) { warns++; }
struct Srv { int id; bool active; const char *name, *host; int port, ip; const char *user, *pass; bool join, tls; const char* cipher; int conns, ret, level, group; bool opt; };
struct Fd { int id; const char *name, *url; int interval; const char* filter; bool backlog, pause; const char* cat; int prio; const char* ext; };
struct Tk { int id, h, m, days; Options::ESchedulerCommand cmd; const char* param; };
static Srv srv[4]; static int nsrv; static Fd fd[4]; static int nfd; static Tk tk[64]; static int ntk;
struct Ext : Options::Extender {
  void AddNewsServer(int id, bool a, const char* n, const char* h, int p, int ip, const char* u, const char* pw, bool j, bool t, const char* c, int mc, int r, int l, int g, bool o) { srv[nsrv++] = Srv{id, a, n, h, p, ip, u, pw, j, t, c, mc, r, l, g, o}; }
  void AddFeed(int id, const char* n, const char* u, int i, const char* f, bool b, bool p, const char* c, int pr, const char* e) { fd[nfd++] = Fd{id, n, u, i, f, b, p, c, pr, e}; }
  void AddTask(int id, int h, int m, int d, Options::ESchedulerCommand c, const char* p) { tk[ntk++] = Tk{id, h, m, d, c, p}; } };
static Ext ext;
static void init() { env_reset(); errs = warns = errLine = nsrv = nfd = ntk = 0; }
static Options* make(Options::CmdOptList& l) { return new Options(&l, &ext); }
struct I { const char* name; int Options::*m; int def, mul; };
static const I ints[] = {
  {"DownloadRate", &Options::m_downloadRate, 0, 1024}, {"ArticleTimeout", &Options::m_articleTimeout, 60, 1}, {"UrlTimeout", &Options::m_urlTimeout, 60, 1}, {"RemoteTimeout", &Options::m_remoteTimeout, 90, 1}, {"ArticleRetries", &Options::m_articleRetries, 3, 1}, {"ArticleInterval", &Options::m_articleInterval, 10, 1}, {"UrlRetries", &Options::m_urlRetries, 3, 1}, {"UrlInterval", &Options::m_urlInterval, 10, 1}, {"ControlPort", &Options::m_controlPort, 6789, 1}, {"SecurePort", &Options::m_securePort, 6791, 1}, {"UrlConnections", &Options::m_urlConnections, 4, 1}, {"LogBuffer", &Options::m_logBuffer, 1000, 1}, {"RotateLog", &Options::m_rotateLog, 3, 1}, {"UpdateInterval", &Options::m_updateInterval, 200, 1}, {"WriteBuffer", &Options::m_writeBuffer, 0, 1}, {"NzbDirInterval", &Options::m_nzbDirInterval, 5, 1}, {"NzbDirFileAge", &Options::m_nzbDirFileAge, 60, 1}, {"DiskSpace", &Options::m_diskSpace, 250, 1}, {"ParTimeLimit", &Options::m_parTimeLimit, 0, 1}, {"KeepHistory", &Options::m_keepHistory, 7, 1}, {"FeedHistory", &Options::m_feedHistory, 7, 1}, {"PropagationDelay", &Options::m_propagationDelay, 0, 60}, {"ArticleCache", &Options::m_articleCache, 0, 1}, {"EventInterval", &Options::m_eventInterval, 0, 1}, {"ParBuffer", &Options::m_parBuffer, 16, 1}, {"ParThreads", &Options::m_parThreads, 1, 1}, {"MonthlyQuota", &Options::m_monthlyQuota, 0, 1}, {"QuotaStartDay", &Options::m_quotaStartDay, 1, 1}, {"DailyQuota", &Options::m_dailyQuota, 0, 1}, {"TimeCorrection", &Options::m_timeCorrection, 0, 0}, {"UMask", &Options::m_umask, 01000, -1}};
static const int NI = sizeof ints / sizeof *ints;
static int ival(const I& o, int v) { return o.mul == 0 ? (v >= -24 && v <= 24 ? v * 3600 : v * 60) : o.mul < 0 ? v : v * o.mul; }
static Options* base; // an instance with default values
static void others(Options* o, const char* but) { int n = 0; for (auto& e : o->m_optEntries) { if (strcasecmp(e.GetName(), but)) { Options::OptEntry* b = base->m_optEntries.FindOption(e.GetName()); sym_assert(b && !strcmp(b->GetValue(), e.GetValue()), "other options keep their values"); } n++; } sym_assert(n == (int)base->m_optEntries.size(), "no options appear or disappear"); for (int i = 0; i < NI; i++) if (strcasecmp(ints[i].name, but)) sym_assert(o->*ints[i].m == base->*ints[i].m, "other numbers keep their values"); }
EX void h_int() { init(); Options::CmdOptList no; base = make(no); sym_assert(errs == 0, "default values are valid"); for (int i = 0; i < NI; i++) sym_assert(base->*ints[i].m == ival(ints[i], ints[i].def), "documented default");
  int k = (int)sym_pick(NI, "option"); const I& o = ints[k]; bool um = o.mul < 0; int n = um ? (int)sym_pick(NV + 1, "length") : 1 + (int)sym_pick(NV, "length"); char line[64]; strcpy(line, o.name); strcat(line, "="); int l = (int)strlen(line); sym_bytes(line + l, n, "value"); line[l + n] = 0; char* v = line + l; int digits = 1, other = 0, oct = 1; for (int i = 0; i < n; i++) { char c = v[i]; sym_assume(((c >= '0') & (c <= '9')) | (c == '-') | (c == '+') | (c == ' ') | (c == 'a') | (c == 'x')); int d = (c >= '0') & (c <= '9'); digits &= d | ((i == 0) & (n > 1) & (c == '-')); oct &= d & (c < '8'); other |= (c == 'a') | ((c == 'x') & (i != 1)) | ((i > 0) & ((c == '-') | (c == '+') | (c == ' ')) & ((v[i - 1] >= '0') & (v[i - 1] <= '9'))); }
  Options::CmdOptList l1; l1.push_back(line); Options* p = make(l1); others(p, o.name); if (n == 0) { sym_assert(errs == 0 && p->m_umask == 01000, "an empty mask disables it"); return; } if (o.mul < 0 ? oct : digits) { int val = 0; bool neg = false; for (int i = 0; i < n; i++) { if (i == 0 && v[0] == '-') { neg = true; continue; } val = val * (o.mul < 0 ? 8 : 10) + (v[i] - '0'); } if (neg) val = -val; if (!strcmp(o.name, "ArticleCache") && val < 0) val = 0; sym_assert(errs == 0, "a number is accepted"); sym_assert(p->*o.m == ival(o, val), "the number is applied as written"); sym_reach("ok"); }
  else if (other) { sym_assert(errs > 0, "a value that is no number is reported"); sym_assert(p->*o.m == ival(o, o.def), "a value that is no number leaves the default"); sym_reach("bad"); } }
struct E { const char* name; int (*get)(Options*); const char* vals; int def; };
#define G(f) [](Options* o) { return (int)o->f; }
static const char* const B = "no:yes";
static const E enums[] = {
  {"NzbLog", G(m_nzbLog), B, 1}, {"AppendCategoryDir", G(m_appendCategoryDir), B, 1}, {"ContinuePartial", G(m_continuePartial), B, 0}, {"FlushQueue", G(m_flushQueue), B, 1}, {"DupeCheck", G(m_dupeCheck), B, 1}, {"ParRepair", G(m_parRepair), B, 1}, {"ParQuick", G(m_parQuick), B, 1}, {"ParRename", G(m_parRename), B, 1}, {"RarRename", G(m_rarRename), B, 1}, {"DirectRename", G(m_directRename), B, 0}, {"CrcCheck", G(m_crcCheck), B, 1}, {"DirectWrite", G(m_directWrite), B, 1}, {"RawArticle", G(m_rawArticle), B, 0}, {"SkipWrite", G(m_skipWrite), B, 0}, {"CrashTrace", G(m_crashTrace), B, 0}, {"CrashDump", G(m_crashDump), B, 0}, {"ParPauseQueue", G(m_parPauseQueue), B, 0}, {"ScriptPauseQueue", G(m_scriptPauseQueue), B, 0}, {"NzbCleanupDisk", G(m_nzbCleanupDisk), B, 0}, {"FormAuth", G(m_formAuth), B, 0}, {"SecureControl", G(m_secureControl), B, 0}, {"Unpack", G(m_unpack), B, 0}, {"DirectUnpack", G(m_directUnpack), B, 0}, {"UnpackCleanupDisk", G(m_unpackCleanupDisk), B, 0}, {"UnpackPauseQueue", G(m_unpackPauseQueue), B, 0}, {"UrlForce", G(m_urlForce), B, 1}, {"ReorderFiles", G(m_reorderFiles), B, 0},
  {"OutputMode", G(m_outputMode), "loggable:colored:curses", 2}, {"ParCheck", G(m_parCheck), "auto:always:force:manual", 0}, {"ParScan", G(m_parScan), "limited:extended:full:dupe", 1}, {"PostStrategy", G(m_postStrategy), "sequential:balanced:aggressive:rocket", 0}, {"FileNaming", G(m_fileNaming), "auto:article:nzb", 1}, {"HealthCheck", G(m_healthCheck), "pause:delete:park:none", 3}, {"InfoTarget", G(m_infoTarget), "screen:log:both:none", 2}, {"WarningTarget", G(m_warningTarget), "screen:log:both:none", 2}, {"ErrorTarget", G(m_errorTarget), "screen:log:both:none", 2}, {"DetailTarget", G(m_detailTarget), "screen:log:both:none", 2}, {"DebugTarget", G(m_debugTarget), "screen:log:both:none", 3}, {"WriteLog", G(m_writeLog), "none:append:reset:rotate", 1}};
static const int NE = sizeof enums / sizeof *enums;
static int code(const E& e, int i) { static const int om[] = {Options::omLoggable, Options::omColored, Options::omNCurses}, pc[] = {Options::pcAuto, Options::pcAlways, Options::pcForce, Options::pcManual}, ps[] = {Options::psLimited, Options::psExtended, Options::psFull, Options::psDupe}, pp[] = {Options::ppSequential, Options::ppBalanced, Options::ppAggressive, Options::ppRocket}, fn[] = {Options::nfAuto, Options::nfArticle, Options::nfNzb}, hc[] = {Options::hcPause, Options::hcDelete, Options::hcPark, Options::hcNone}, mt[] = {Options::mtScreen, Options::mtLog, Options::mtBoth, Options::mtNone}, wl[] = {Options::wlNone, Options::wlAppend, Options::wlReset, Options::wlRotate}; const char* n = e.name; if (e.vals == B) return i; if (!strcmp(n, "OutputMode")) return om[i]; if (!strcmp(n, "ParCheck")) return pc[i]; if (!strcmp(n, "ParScan")) return ps[i]; if (!strcmp(n, "PostStrategy")) return pp[i]; if (!strcmp(n, "FileNaming")) return fn[i]; if (!strcmp(n, "HealthCheck")) return hc[i]; if (!strcmp(n, "WriteLog")) return wl[i]; return mt[i]; }
EX void h_enum() { init(); Options::CmdOptList no; base = make(no); int k = (int)sym_pick(NE, "option"); const E& e = enums[k]; for (int i = 0; i < NE; i++) sym_assert(enums[i].get(base) == code(enums[i], enums[i].def), "documented default");
  int nv = 1; for (const char* q = e.vals; *q; q++) nv += *q == ':'; int w = (int)sym_pick(nv + 1, "value"); char line[64]; strcpy(line, e.name); strcat(line, "="); int l = (int)strlen(line); int n; if (w < nv) { const char* q = e.vals; for (int i = 0; i < w; i++) q = strchr(q, ':') + 1; const char* z = strchr(q, ':'); n = z ? (int)(z - q) : (int)strlen(q); unsigned up = 0; sym_bytes(&up, 2, "case"); for (int i = 0; i < n; i++) line[l + i] = (char)(q[i] - (char)(((up >> i) & 1) * 32)); } else { n = 1 + (int)sym_pick(2, "length"); sym_bytes(line + l, n, "text"); for (int i = 0; i < n; i++) sym_assume(line[l + i] != 0); int c0 = line[l], c1 = line[l + 1]; if (n == 1) sym_assume((c0 != '0') & (c0 != '1')); else sym_assume((((c0 | 32) != 'n') | ((c1 | 32) != 'o')) & (((c0 | 32) != 'o') | ((c1 | 32) != 'n'))); } line[l + n] = 0;
  Options::CmdOptList l1; l1.push_back(line); Options* p = make(l1); const char* val = p->GetOption(e.name); for (int i = 0; i < NE; i++) if (i != k && !(!strcmp(enums[i].name, "DirectWrite") && !strcmp(e.name, "RawArticle")) && !(!strcmp(enums[i].name, "DirectRename") && !strcmp(e.name, "SkipWrite"))) sym_assert(enums[i].get(p) == enums[i].get(base), "other options keep their values"); others(p, e.name); if (w < nv) { sym_assert(errs == 0 && e.get(p) == code(e, w), "a documented value is applied whatever its letter case"); const char* q = e.vals; for (int i = 0; i < w; i++) q = strchr(q, ':') + 1; if (strcmp(e.name, "OutputMode") || w == 0) sym_assert((int)strlen(val) == n && !strncmp(val, q, n), "the value is shown in its documented form"); sym_reach("ok"); } else { sym_assert(errs > 0, "an undocumented value is reported"); sym_assert(e.get(p) == code(e, e.def), "an undocumented value leaves the default"); sym_reach("bad"); } }
struct T { const char* name; CString Options::*m; };
static const T texts[] = {{"DestDir", &Options::m_destDir}, {"InterDir", &Options::m_interDir}, {"TempDir", &Options::m_tempDir}, {"QueueDir", &Options::m_queueDir}, {"NzbDir", &Options::m_nzbDir}, {"WebDir", &Options::m_webDir}, {"ScriptDir", &Options::m_scriptDir}, {"RequiredDir", &Options::m_requiredDir}, {"ConfigTemplate", &Options::m_configTemplate}, {"ScriptOrder", &Options::m_scriptOrder}, {"Extensions", &Options::m_extensions}, {"ControlIP", &Options::m_controlIp}, {"ControlUsername", &Options::m_controlUsername}, {"ControlPassword", &Options::m_controlPassword}, {"RestrictedUsername", &Options::m_restrictedUsername}, {"RestrictedPassword", &Options::m_restrictedPassword}, {"AddUsername", &Options::m_addUsername}, {"AddPassword", &Options::m_addPassword}, {"SecureCert", &Options::m_secureCert}, {"SecureKey", &Options::m_secureKey}, {"CertStore", &Options::m_certStore}, {"AuthorizedIP", &Options::m_authorizedIp}, {"LockFile", &Options::m_lockFile}, {"DaemonUsername", &Options::m_daemonUsername}, {"LogFile", &Options::m_logFile}, {"UnrarCmd", &Options::m_unrarCmd}, {"SevenZipCmd", &Options::m_sevenZipCmd}, {"ExtCleanupDisk", &Options::m_extCleanupDisk}, {"ParIgnoreExt", &Options::m_parIgnoreExt}, {"UnpackIgnoreExt", &Options::m_unpackIgnoreExt}, {"ShellOverride", &Options::m_shellOverride}};
static const int NT_ = sizeof texts / sizeof *texts;
EX void h_text() { init(); Options::CmdOptList no; base = make(no); int k = (int)sym_pick(NT_, "option"); char line[64]; strcpy(line, texts[k].name); strcat(line, "="); int l = (int)strlen(line), n = (int)sym_pick(NV + 1, "length"); if (n) sym_bytes(line + l, n, "value"); for (int i = 0; i < n; i++) sym_assume(line[l + i] != 0); if (n > 1) sym_assume((line[l] != '$') | (line[l + 1] != '{')); line[l + n] = 0; Options::CmdOptList l1; l1.push_back(line); Options* p = make(l1); const char* v = p->*texts[k].m; if (!v) v = ""; sym_assert(errs == 0, "accepted"); sym_assert((int)strlen(v) == n && (n == 0 || sym_eq(v, line + l, n)), "the text is taken as written"); for (int i = 0; i < NT_; i++) if (i != k) { const char *a = p->*texts[i].m, *b = base->*texts[i].m; sym_assert(!strcmp(a ? a : "", b ? b : ""), "other texts keep their values"); } others(p, texts[k].name); sym_reach("done"); }
static const char* const pieces[] = {"t", "${X:a}", "${X:b}", "${x:C}", "${DiskSpace}", "${Nope}", "${", "}"};
static std::string cur[3]; static bool has[3], odd[3];
static std::string want(const int* p, int n, bool& strange) { std::string r; strange = false; for (int i = 0; i < n; i++) { if (p[i] == 0) r += "t"; else if (p[i] <= 3) { int o = p[i] - 1; if (has[o] && !odd[o]) r += cur[o]; else { strange = true; return r; } } else if (p[i] == 4) r += "250"; else if (p[i] == 7) r += "}"; else { strange = true; return r; } } return r; }
EX void h_expand() { init(); Options::CmdOptList no; Options* o = make(no); sym_limit(60000000); for (int i = 0; i < 3; i++) has[i] = odd[i] = false; bool all = true; for (int s = 0; s < 4; s++) { int who = s < 3 ? s : 2; int n = 1 + (int)sym_pick(s & 1 ? 1 : s ? NP : NP - 1, "pieces"), p[4]; char line[100]; strcpy(line, who == 0 ? "X:a=" : who == 1 ? "X:b=" : "X:c="); for (int i = 0; i < n; i++) { p[i] = (int)sym_pick(s == 1 ? 6 : 8, "piece"); strcat(line, pieces[p[i]]); } bool strange; std::string w = want(p, n, strange); sym_assert(o->SetOptionString(line), "script options are accepted"); const char* v = o->GetOption(who == 0 ? "X:a" : who == 1 ? "X:b" : "X:c"); sym_assert(v != nullptr, "the option has a value"); if (!strange) sym_assert(!strcmp(v, w.c_str()), "references stand for the values of the options"); else { all = false; if (p[0] == 0) sym_assert(v[0] == 't', "text is kept"); } cur[who] = v; has[who] = true; odd[who] = strange || strstr(v, "${"); } if (all) sym_reach("known"); sym_reach("done"); }
EX void h_names() { init(); Options::CmdOptList no; Options* o = make(no); int n0 = (int)o->m_optEntries.size(); static const char* const known[] = {"destdir", "Server1.Active", "server12.HOST", "Server3.Port", "Server1.Name", "Server1.Level", "Server1.Username", "Server1.Password", "Server1.JoinGroup", "Server1.Encryption", "Server1.Connections", "Server1.Cipher", "Server1.Group", "Server1.Retention", "Server1.Optional", "Server1.Notes", "Server1.IpVersion", "Task1.Time", "TASK2.weekdays", "Task1.Command", "Task1.Param", "Category1.Name", "Category1.DestDir", "Category7.unpack", "Category1.Extensions", "Category1.Aliases", "Feed1.Name", "Feed1.URL", "Feed1.Interval", "Feed1.Filter", "Feed1.Backlog", "Feed1.PauseNzb", "Feed1.Category", "Feed1.Priority", "feed22.extensions", "Email.py:To", "DiskSpace"};
  static const char* const bad[] = {"ConfigFile", "appbin", "AppDir", "version", "Server1.Hosts", "Server1Host", "Server1.", "Serverx.Host", "Task1.Host", "Task1.Times", "Category1.URL", "Category1.Nam", "Feed1.Weekdays", "Feed1.Unpac", "DestDirs", "Dest", "DiskSpace1", " DestDir", "DestDir ", "$DestDir"}; static const char *const oldn[] = {"$MAINDIR", "serverip", "ServerPort", "ServerPassword", "PostPauseQueue", "WriteBufferSize", "ConnectionTimeout", "Retries", "RetryInterval", "DumpCore", "LogBufferSize", "Decode", "Category2.DefScript", "category2.PostScript", "Feed3.FeedScript", "PostScript", "DefScript"}, *const newn[] = {"MainDir", "ControlIP", "ControlPort", "ControlPassword", "ScriptPauseQueue", "WriteBuffer", "ArticleTimeout", "ArticleRetries", "ArticleInterval", "CrashDump", "LogBuffer", "RawArticle", "Category2.Extensions", "Category2.Extensions", "Feed3.Extensions", "Extensions", "Extensions"};
  int kind = (int)sym_pick(4, "kind"); char line[64]; if (kind == 0) { int k = (int)sym_pick(sizeof known / sizeof *known, "name"); strcpy(line, known[k]); strcat(line, "=a=b"); sym_assert(o->SetOptionString(line) && errs == 0, "known names are accepted in any letter case"); const char* v = o->GetOption(known[k]); sym_assert(v && !strcmp(v, "a=b"), "everything after the first equals sign is the value"); sym_reach("known"); } else if (kind == 1) { int k = (int)sym_pick(sizeof bad / sizeof *bad, "name"); strcpy(line, bad[k]); strcat(line, "=1"); sym_assert(!o->SetOptionString(line) && errs == 1, "unknown and fixed names are reported"); sym_assert((int)o->m_optEntries.size() == n0, "unknown names add nothing"); for (auto& e : o->m_optEntries) sym_assert(strcmp(e.GetValue(), "1") || !strcmp(e.GetName(), "ParThreads") || !strcmp(e.GetName(), "QuotaStartDay"), "unknown names change nothing"); sym_reach("unknown"); } else if (kind == 2) { int k = (int)sym_pick(sizeof oldn / sizeof *oldn, "name"); strcpy(line, oldn[k]); strcat(line, k == 5 ? "=4096" : k == 11 ? "=NO" : "=7"); sym_assert(o->SetOptionString(line), "old names are accepted"); const char* v = o->GetOption(newn[k]); sym_assert(v && !strcmp(v, k == 5 ? "4" : k == 11 ? "yes" : "7"), "old names stand for the new ones"); sym_reach("known"); } else { int n = 1 + (int)sym_pick(3, "length"); sym_bytes(line, n, "line"); for (int i = 0; i < n; i++) sym_assume((line[i] != 0) & (line[i] != ':') & (line[i] != '=')); line[n] = 0; if (sym_pick(2, "equals")) strcat(line, "=x"); else if (sym_pick(2, "first")) { memmove(line + 1, line, n + 1); line[0] = '='; } sym_assert(!o->SetOptionString(line) && errs == 1, "lines that are no option are reported"); sym_assert((int)o->m_optEntries.size() == n0, "lines that are no option add nothing"); sym_reach("unknown"); } }
static int two(const char* s, int n, int& val) { val = 0; int ok = (n == 1) | (n == 2); for (int i = 0; i < n; i++) { ok &= (s[i] >= '0') & (s[i] <= '9'); val = val * 10 + (s[i] - '0'); } return ok; }
EX void h_time() { init(); Options::CmdOptList no; Options* o = make(no); char s[12]; int n = 1 + (int)sym_pick(NW, "length"); sym_bytes(s, n, "time"); for (int i = 0; i < n; i++) { int in = 0; for (const char* q = "0123456789:* -a"; *q; q++) in |= s[i] == *q; sym_assume(in); } s[n] = 0; int h = -9, m = -9; bool ok = o->ParseTime(s, &h, &m); int bad = 0, colons = 0, at = -1; for (int i = 0; i < n; i++) { bad |= (s[i] == '-') | (s[i] == 'a'); if (s[i] == ':') { colons++; at = i; } } if (bad || (colons != 1 && !(n == 1 && s[0] == '*'))) { sym_assert(!ok, "a text that is no time is refused"); sym_reach("bad"); return; } if (n == 1 && s[0] == '*') { sym_assert(ok && h == -1, "a star is program start"); sym_reach("ok"); return; } int hh, mm; if (!two(s + at + 1, n - at - 1, mm)) return; if (at == 1 && s[0] == '*') { sym_assert(ok == (mm < 60), "minutes are below 60"); if (ok) sym_assert(h == -2 && m == mm, "every hour"); return; } if (!two(s, at, hh)) return; sym_assert(ok == (hh < 24 && mm < 60), "hours and minutes are in range"); if (ok) { sym_assert(h == hh && m == mm, "hours and minutes are taken as written"); sym_reach("ok"); } }
EX void h_days() { init(); Options::CmdOptList no; Options* o = make(no); char s[12]; int n = 1 + (int)sym_pick(NW, "length"); for (int i = 0; i < n; i++) s[i] = "12345670,- a"[sym_pick(12, "char")]; s[n] = 0; int bits = -1; bool ok = o->ParseWeekDays(s, &bits); int bad = 0; for (int i = 0; i < n; i++) bad |= s[i] == '0' || s[i] == 'a'; if (bad) { sym_assert(!ok, "other characters are refused"); sym_reach("bad"); return; }
  int p = 0, w = 0; bool form = true; while (form) { while (s[p] == ' ') p++; if (!(s[p] >= '1' && s[p] <= '7')) { form = false; break; } int a = s[p++] - '0', b = a; while (s[p] == ' ') p++; if (s[p] == '-') { p++; while (s[p] == ' ') p++; if (!(s[p] >= '1' && s[p] <= '7')) { form = false; break; } b = s[p++] - '0'; } while (s[p] == ' ') p++; if (b < a || (b == a && p > 1 && memchr(s, '-', p) && 0)) { form = false; if (s[p] == 0 || s[p] == ',') sym_assert(!ok, "a range that runs backwards is refused"); break; } if (a == b) { bool r = false; for (int i = 0; i < p; i++) r |= s[i] == '-'; if (r && p >= 3) { form = false; break; } } for (int d = a; d <= b; d++) w |= 1 << (d - 1); if (!s[p]) break; if (s[p] != ',') { form = false; break; } p++; } if (form) { sym_assert(ok && bits == w, "days and ranges of days"); sym_reach("ok"); } if (ok) sym_assert(bits >= 0 && bits < 128, "only days of the week"); }
static char sl[40][64]; static int nsl; static Options::CmdOptList secl;
static void put(const char* s, int n, const char* k, const char* v) { snprintf(sl[nsl], 64, "%s%i.%s=%s", s, n, k, v); secl.push_back(sl[nsl++]); }
static const char* or0(const char* a) { return a; }
static bool same(const char* a, const char* b) { return (!a && !b) || (a && b && !strcmp(a, b)); }
static bool lim; static int secn;
// the second definition takes one of three shapes: nothing, everything, only the last value
static int few(int n, const char* name) { if (!lim) return (int)sym_pick(n, name); if (secn < 0) secn = (int)sym_pick(3, "second"); return secn == 0 ? 0 : secn == 1 ? 1 : name[0] == 'a' || name[0] == 'p' ? 1 : 0; }
EX void h_sections() { init(); nsl = 0; secn = -1; new (&secl) Options::CmdOptList(); int kind = (int)sym_pick(4, "kind"); int wsrv = 0, werr = 0; Srv es[3]; Fd ef[3]; Tk et[80]; int nt = 0, nf = 0, nc = 0; bool cu[3]; const char* cn[3]; int cal[3]; bool stop = false;
  for (int n = 1; n <= 2; n++) { lim = n == 2; 
    if (kind == 0) { bool host = few(2, "host"), port = few(2, "port"), conns = few(2, "connections"); int act = (int)few(3, "active"); bool rest = few(2, "rest"); char pt[8] = "000"; if (port) { for (int i = 0; i < 3; i++) { sym_bytes(pt + i, 1, "digit"); sym_assume((pt[i] >= '0') & (pt[i] <= '9')); } } if (conns) put("Server", n, "Connections", "8"); if (rest) { put("Server", n, "Name", "nm"); put("Server", n, "Level", "2"); put("server", n, "group", "3"); put("Server", n, "Username", "u"); put("Server", n, "Password", "p w"); put("Server", n, "JoinGroup", "yes"); put("Server", n, "Encryption", "YES"); put("Server", n, "Cipher", "RC4"); put("Server", n, "Retention", "500"); put("Server", n, "Optional", "yes"); put("Server", n, "IpVersion", "ipv6"); } if (port) put("Server", n, "Port", pt); if (host) put("Server", n, "Host", "h.x"); if (act) put("Server", n, "Active", act == 1 ? "no" : "yes"); if (!host && !port && !conns && !act && !rest) stop = true; if (stop) continue; if (!(host && port && conns)) { werr++; continue; } Srv& e = es[wsrv++]; e = Srv{n, act != 1, rest ? "nm" : nullptr, "h.x", (pt[0] - '0') * 100 + (pt[1] - '0') * 10 + (pt[2] - '0'), rest ? 6 : 0, rest ? "u" : nullptr, rest ? "p w" : nullptr, rest, rest, rest ? "RC4" : nullptr, 8, rest ? 500 : 0, rest ? 2 : 0, rest ? 3 : 0, rest}; }
    else if (kind == 1) { int nm = (int)few(3, "name"); bool dir = few(2, "dir"), e = few(2, "ext"); int un = (int)few(3, "unpack"); int al = (int)few(3, "aliases"); if (nm) put("Category", n, "Name", nm == 1 ? "" : n == 1 ? "cat one" : "two"); if (dir) put("Category", n, "DestDir", "/x/y"); if (e) put("Category", n, "Extensions", "a.py"); if (un) put("Category", n, "Unpack", un == 1 ? "no" : "yes"); if (al) put("Category", n, "Aliases", al == 1 ? "aa" : "aa, b*;c"); if (!nm && !dir && !un && !e && !al) stop = true; if (stop) continue; if (nm != 2) { werr++; continue; } cn[nc] = n == 1 ? "cat one" : "two"; cu[nc] = un != 1; cal[nc++] = al == 2 ? 3 : al; }
    else if (kind == 2) { bool url = few(2, "url"), rest = few(2, "rest"), back = few(2, "backlog"); if (rest) { put("Feed", n, "Name", "f"); put("Feed", n, "Interval", "15"); put("Feed", n, "Filter", "x%y"); put("Feed", n, "PauseNzb", "yes"); put("Feed", n, "Category", "c"); put("Feed", n, "Priority", "-50"); put("Feed", n, "Extensions", "e"); } if (back) put("Feed", n, "Backlog", "no"); if (url) put("Feed", n, "URL", "http://a?b=c"); if (!url && !rest && !back) stop = true; if (stop) continue; if (!url) { werr++; continue; } ef[nf++] = Fd{n, rest ? "f" : nullptr, "http://a?b=c", rest ? 15 : 0, rest ? "x%y" : nullptr, !back, rest, rest ? "c" : nullptr, rest ? -50 : 0, rest ? "e" : nullptr}; }
    else { bool t = few(2, "time"), c = few(2, "command"); int days = (int)few(3, "days"), par = (int)few(4, "param"), cmd = (int)few(8, "which"), tm = (int)few(3, "times"); static const char* const cm[] = {"PauseDownload", "unpausedownload", "DownloadRate", "Process", "script", "FetchFeed", "ActivateServer", "PauseScan"}; static const Options::ESchedulerCommand cv[] = {Options::scPauseDownload, Options::scUnpauseDownload, Options::scDownloadRate, Options::scProcess, Options::scScript, Options::scFetchFeed, Options::scActivateServer, Options::scPauseScan}; static const char* const pv[] = {nullptr, "", "150", "1x"}; if (!c && cmd) cmd = 0; if (t) put("Task", n, "Time", tm == 0 ? "08:05" : tm == 1 ? "00:00, *" : "*:30"); if (c) put("Task", n, "Command", cm[cmd]); if (days) put("Task", n, "WeekDays", days == 1 ? "1-3,7" : "5-2"); if (pv[par]) put("Task", n, "Param", pv[par]); if (!t && !c && !days && !par) stop = true; if (stop) continue; if (!t || !c) { werr++; continue; } bool need = cmd >= 2 && cmd <= 6; if (cmd == 2 && par == 0) { werr++; continue; } if (cmd == 2 && par == 3) { werr++; continue; } if (cmd >= 3 && cmd <= 6 && par < 2) { werr++; continue; } (void)need; if (days == 2) { werr++; continue; } int d = days == 1 ? 7 | 64 : 0; const char* p = pv[par]; if (tm == 0) et[nt++] = Tk{n, 8, 5, d, cv[cmd], p}; else if (tm == 1) { et[nt++] = Tk{n, 0, 0, d, cv[cmd], p}; et[nt++] = Tk{n, -1, 0, d, cv[cmd], p}; } else for (int h = 0; h < 24; h++) et[nt++] = Tk{n, h, 30, d, cv[cmd], p}; } }
  Options* o = make(secl); sym_assert((errs > 0) == (werr > 0) && errs == werr, "incomplete definitions are reported");
  sym_assert(nsrv == wsrv && nfd == nf && ntk == nt && (int)o->m_categories.size() == nc, "exactly the complete definitions are used");
  for (int i = 0; i < nsrv; i++) { Srv &a = srv[i], &b = es[i]; sym_assert(a.id == b.id && a.active == b.active && same(a.name, b.name) && same(a.host, b.host) && a.port == b.port && a.ip == b.ip && same(a.user, b.user) && same(a.pass, b.pass) && a.join == b.join && a.tls == b.tls && same(a.cipher, b.cipher) && a.conns == b.conns && a.ret == b.ret && a.level == b.level && a.group == b.group && a.opt == b.opt, "every value of a server"); sym_reach("server"); }
  for (int i = 0; i < nfd; i++) { Fd &a = fd[i], &b = ef[i]; sym_assert(a.id == b.id && same(a.name, b.name) && same(a.url, b.url) && a.interval == b.interval && same(a.filter, b.filter) && a.backlog == b.backlog && a.pause == b.pause && same(a.cat, b.cat) && a.prio == b.prio && same(a.ext, b.ext), "every value of a feed"); sym_reach("feed"); }
  for (int i = 0; i < ntk; i++) { Tk &a = tk[i], &b = et[i]; sym_assert(a.id == b.id && a.h == b.h && (a.h == -1 || a.m == b.m) && a.days == b.days && a.cmd == b.cmd && same(a.param, b.param), "every value of a task"); sym_reach("task"); }
  for (int i = 0; i < nc; i++) { Options::Category& c = o->m_categories[i]; sym_assert(!strcmp(c.GetName(), cn[i]) && c.GetUnpack() == cu[i] && (int)c.GetAliases()->size() == cal[i], "every value of a category"); if (cal[i] == 3) sym_assert(!strcmp((*c.GetAliases())[1], "b*") && !strcmp((*c.GetAliases())[2], "c"), "aliases"); sym_assert(o->FindCategory(cn[i], false) == &c, "categories are found by name"); sym_reach("category"); } }
EX void h_file() { init(); env_mkdir_("/c"); char f[200] = ""; bool nl = sym_pick(2, "last line end"), crlf = sym_pick(2, "crlf"); int lines = 1 + (int)sym_pick(3, "lines"), bad = 0, firstBad = 0; char val[3]; sym_bytes(val, 2, "value"); val[2] = 0; for (int i = 0; i < 2; i++) sym_assume((val[i] != 0) & (val[i] != 10) & (val[i] != 13)); sym_assume((val[0] != '$') & (val[0] != '~')); bool set = false, disk = false; for (int i = 0; i < lines; i++) { int k = (int)sym_pick(6, "line"); char* e = f + strlen(f); if (k == 0) { strcpy(e, "ControlPassword="); strcat(e, val); set = true; } else if (k == 1) strcpy(e, "# ControlPassword=zz"); else if (k == 2) strcpy(e, "  "); else if (k == 3) { strcpy(e, "nonsense"); bad++; if (!firstBad) firstBad = i + 1; } else if (k == 4) { strcpy(e, "DiskSpace=77"); disk = true; } else { strcpy(e, "Foo=1"); bad++; } if (i < lines - 1 || nl) strcat(f, crlf ? "\r\n" : "\n"); } env_put("/c/n.conf", f, strlen(f)); Options::CmdOptList no; Options* o = make(no); errs = 0; o->m_configFilename = "/c/n.conf"; o->LoadConfigFile(); sym_assert(errs == bad, "exactly the invalid lines are reported"); const char* v = o->GetOption("ControlPassword"); sym_assert(set ? (int)strlen(v) == 2 && sym_eq(v, val, 2) : !strcmp(v, "tegbzn6789"), "the value as written in the file"); sym_assert(!strcmp(o->GetOption("DiskSpace"), disk ? "77" : "250"), "every line is applied"); sym_reach("done"); }
EX void h_save() { init(); env_mkdir_("/c"); char f[200] = ""; bool nl = sym_pick(2, "last line end"); int lines = (int)sym_pick(4, "lines"); const char* exp[4]; int nc = 0; char pw[3]; sym_bytes(pw, 2, "value"); pw[2] = 0; for (int i = 0; i < 2; i++) sym_assume((pw[i] > ' ') & (pw[i] < 127) & (pw[i] != '$')); for (int i = 0; i < lines; i++) { int k = (int)sym_pick(5, "line"); char* e = f + strlen(f); if (k == 0) strcpy(e, "ControlPassword=a longer old value"); else if (k == 1) { strcpy(e, "# x=1"); exp[nc++] = "# x=1"; } else if (k == 2) strcpy(e, ""); else if (k == 3) strcpy(e, "DiskSpace=1"); else { strcpy(e, "#"); } if (i < lines - 1 || nl) strcat(f, "\n"); } env_put("/c/n.conf", f, strlen(f)); Options::CmdOptList no; Options* o = make(no); o->m_configFilename = "/c/n.conf"; ScriptConfig sc; Options::OptEntries e; e.emplace_back("ControlPassword", pw); e.emplace_back("DiskSpace", "77"); e.emplace_back("Server1.Host", "h"); sym_assert(sc.SaveConfig(&e), "saved"); Options::OptEntries r; sym_assert(sc.LoadConfig(&r), "loaded"); for (auto& w : e) { bool found = false; for (auto& g : r) if (!strcmp(g.GetName(), w.GetName())) { found = true; sym_assert(!strcmp(g.GetValue(), w.GetValue()), "saved values are read back"); } sym_assert(found, "every saved option is read back"); } for (auto& g : r) sym_assert(e.FindOption(g.GetName()) != nullptr, "no other options appear"); long n = env_size("/c/n.conf"); const unsigned char* d = env_data("/c/n.conf"); int comments = 0; for (long i = 0; i + 5 <= n; i++) if (d[i] == '#' && d[i + 1] == ' ' && d[i + 2] == 'x' && (i == 0 || d[i - 1] == 10)) comments++; sym_assert(comments == nc, "comments are kept"); sym_reach("done"); }
