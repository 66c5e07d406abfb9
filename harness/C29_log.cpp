// TUS util/Log.cpp util/NString.cpp util/Util.cpp util/FileSystem.cpp util/Thread.cpp util/Observer.cpp queue/DownloadInfo.cpp
// QUICK -DK=4
// THOROUGH -DK=7
// BOUND $K messages of any kind, every target per kind, a buffer of 0..3 messages, text of up to 3 arbitrary bytes; rotation: files of 1..4 days with any number of days to keep 0..3000, one file of another name
// STUB the clock, the disk; saving of the messages of a download to disk is only counted
// ENTRY h_log q=40 t=300 reach=full,file
// ENTRY h_init q=40 t=300 reach=dropped,kept
// ENTRY h_rotate q=40 t=300 reach=deleted,kept
// ENTRY h_nzb q=30 t=200 reach=full,saved
#include "common.h"
#include "priv.h"
#include "Log.h"
#include "Options.h"
#include "FileSystem.h"
#include "DownloadInfo.h"
#include "DiskState.h"
Log* g_Log; Options* g_Options; DiskState* g_DiskState;
static int appended; void DiskState::AppendNzbMessage(int, Message::EKind, const char*) { appended++; }
typedef void (*F)(const char*, ...); static const F fn[] = {info, warn, error, nullptr, detail}; static const int kinds[] = {Message::mkInfo, Message::mkWarning, Message::mkError, Message::mkDetail}; static const char* names[] = {"INFO", "WARNING", "ERROR", "DEBUG", "DETAIL"};
static int target[5]; static void targets() { for (int k : kinds) target[k] = (int)sym_range(Options::mtNone, Options::mtBoth, "target"); g_Options->m_infoTarget = (Options::EMessageTarget)target[Message::mkInfo]; g_Options->m_warningTarget = (Options::EMessageTarget)target[Message::mkWarning]; g_Options->m_errorTarget = (Options::EMessageTarget)target[Message::mkError]; g_Options->m_detailTarget = (Options::EMessageTarget)target[Message::mkDetail]; }
static bool scr(int t) { return t == Options::mtScreen || t == Options::mtBoth; } static bool fil(int t) { return t == Options::mtLog || t == Options::mtBoth; }
static char text[8][8]; static int kd[8];
static void post(int i) { kd[i] = kinds[sym_pick(4, "kind")]; sym_bytes(text[i], 3, "text"); text[i][3] = 0; text[i][0] = 'a' + i; if (i > 1) text[i][1] = 0; env_now += 1; fn[kd[i]]("%s", text[i]); }
// the log file holds exactly these messages in order
static void logged(const char* path, const bool* in, int n) { long sz = env_size(path); int any = 0; for (int i = 0; i < n; i++) any += in[i]; if (!any) { sym_assert(sz <= 0, "nothing is written to the log file"); return; } sym_reach("file"); const char* d = (const char*)env_data(path); long p = 0;
  for (int i = 0; i < n; i++) if (in[i]) { const char* k = names[kd[i]]; while (p < sz && d[p] != '\t') p++; p++; size_t l = strlen(k); sym_assert(p + (long)l + 2 <= sz && !memcmp(d + p, k, l) && d[p + l] == '\t', "kind"); p += l + 1; size_t t = strlen(text[i]); sym_assert(p + (long)t < sz && sym_eq(d + p, text[i], t) && d[p + t] == '\n', "each message for the log file is written once, in order, with kind and text"); p += t + 1; } sym_assert(p == sz, "nothing else is written to the log file"); }
EX void h_log() { env_reset(); env_mkdir_("/l"); env_now = 1000000; new Log; g_Options = (Options*)calloc(1, sizeof(Options)); targets(); int cap = (int)sym_pick(4, "buffer"); g_Options->m_logBuffer = cap; g_Options->m_writeLog = Options::wlAppend; g_Options->m_logFile = "/l/n.log"; g_Log->InitOptions(); uint32_t start = (uint32_t)sym_range(0, 1000000, "id"); g_Log->m_idGen = start;
  bool sc[8], fl[8]; int n = 0; for (int i = 0; i < K; i++) { post(i); sc[i] = scr(target[kd[i]]); fl[i] = fil(target[kd[i]]); n += sc[i]; auto m = g_Log->GuardMessages(); sym_assert((int)m->size() == (n < cap ? n : cap), "the log keeps the last messages, at most the configured number"); int idx = n - (int)m->size(), j = 0, c = 0; if (idx > 0) sym_reach("full");
    for (int x = 0; x <= i; x++) if (sc[x]) { if (c >= idx) { Message& e = m->at(j++); sym_assert(e.GetId() == start + c + 1, "ids increase by one"); sym_assert(e.GetKind() == kd[x] && strlen(e.GetText()) == strlen(text[x]) && sym_eq(e.GetText(), text[x], strlen(text[x])) && e.GetTime() == 1000001 + x, "messages are kept in order with kind, time and text"); } c++; } }
  logged("/l/n.log", fl, K); }
EX void h_init() { env_reset(); env_mkdir_("/l"); env_now = 1000000; new Log; for (int i = 0; i < 4; i++) post(i); g_Options = (Options*)calloc(1, sizeof(Options)); targets(); int cap = (int)sym_pick(4, "buffer"); g_Options->m_logBuffer = cap; g_Options->m_writeLog = Options::wlAppend; g_Options->m_logFile = "/l/n.log"; int before = (int)g_Log->GuardMessages()->size(); g_Log->InitOptions(); (void)before; bool fl[8]; int c = 0; { auto m = g_Log->GuardMessages();
  for (int i = 0; i < 4; i++) { fl[i] = fil(target[kd[i]]); if (scr(target[kd[i]])) { sym_assert(c < (int)m->size() && m->at(c).GetText()[0] == 'a' + i && m->at(c).GetId() == (uint32_t)c + 1, "early messages meant for the screen stay, numbered from one"); c++; sym_reach("kept"); } else sym_reach("dropped"); } sym_assert(c == (int)m->size(), "early messages not meant for the screen are removed"); } logged("/l/n.log", fl, 4);
  int early = c; if (scr(target[Message::mkWarning])) { env_now++; warn("%s", "zz"); early++; auto m2 = g_Log->GuardMessages(); sym_assert((int)m2->size() == (early < cap ? early : cap), "from the next message on the log keeps at most the configured number"); if (cap) sym_assert(m2->back().GetId() == (uint32_t)early && m2->back().GetText()[0] == 'z', "the newest messages are kept"); } }
EX void h_rotate() { env_reset(); env_mkdir_("/l"); new Log; g_Options = (Options*)calloc(1, sizeof(Options)); g_Options->m_logBuffer = 100; g_Options->m_infoTarget = Options::mtLog; g_Options->m_writeLog = Options::wlRotate; static const char* lf[] = {"/l/n.log", "/l/n.v2.log", "/l/n"}; unsigned w = sym_pick(3, "name"); g_Options->m_logFile = lf[w]; int keep = (int)sym_range(0, 3000, "days to keep"); g_Options->m_rotateLog = keep;
  static const int days[] = {19722, 19782, 19783, 20088, 20089}; static const char* dates[] = {"2023-12-31", "2024-02-29", "2024-03-01", "2024-12-31", "2025-01-01"}; int today = days[sym_pick(5, "today")]; env_now = today * 86400ll + 4000; BString<100> nm; bool there[5]; static const char* pre[] = {"/l/n-", "/l/n.v2-", "/l/n-"}; static const char* suf[] = {".log", ".log", ""}; for (int i = 0; i < 5; i++) { there[i] = sym_pick(2, "file"); if (there[i]) { nm.Format("%s%s%s", pre[w], dates[i], suf[w]); env_put(nm, "x", 1); } } env_put("/l/other-2023-12-31.log", "x", 1); env_put("/l/n-2023-12-31.log.bak", "x", 1);
  g_Log->InitOptions(); info("%s", "hello"); for (int i = 0; i < 5; i++) { nm.Format("%s%s%s", pre[w], dates[i], suf[w]); bool e = env_exists(nm), isToday = days[i] == today; if (isToday) { sym_assert(e && env_size(nm) > 6, "messages go to the file of the day"); continue; } if (!there[i]) { sym_assert(!e, "no other file is made"); continue; } sym_assert(e == (days[i] > today - keep), "log files older than the configured number of days are deleted, others are kept"); sym_reach(e ? "kept" : "deleted"); }
  sym_assert(env_exists("/l/other-2023-12-31.log") && env_exists("/l/n-2023-12-31.log.bak"), "other files are kept"); }
EX void h_nzb() { env_reset(); env_now = 1000000; new Log; g_Options = (Options*)calloc(1, sizeof(Options)); int cap = (int)sym_pick(4, "buffer"); g_Options->m_logBuffer = cap; bool save = sym_bool("save"); g_Options->m_serverMode = true; g_Options->m_nzbLog = save; NzbInfo n; for (int i = 0; i < K; i++) { char t[2] = {(char)('a' + i), 0}; n.AddMessage(Message::mkInfo, t, sym_pick(2, "print")); auto m = n.GuardCachedMessages(); int c = i + 1 < cap ? i + 1 : cap; sym_assert((int)m->size() == c && n.GetCachedMessageCount() == c, "the log of a download keeps the last messages, at most the configured number"); for (int j = 0; j < c; j++) sym_assert((int)m->at(j).GetId() == i + 1 - c + 1 + j && m->at(j).GetText()[0] == 'a' + i + 1 - c + j, "in order with increasing ids"); if (i + 1 > cap) sym_reach("full"); }
  sym_assert(appended == sym_ite(save, K, 0) && n.GetMessageCount() == sym_ite(save, K, 0), "each message is saved once if messages are to be saved"); if (save) sym_reach("saved"); }
