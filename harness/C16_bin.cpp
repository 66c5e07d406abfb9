// TUS remote/BinRpc.cpp util/NString.cpp
// QUICK -DL=2
// THOROUGH -DL=4
// BOUND every request header: any type, any size field, any 32 characters of user name and password; control user names and passwords of up to $L arbitrary characters and passwords of 31, 32 and 33 characters with an arbitrary last one
// STUB the connection: the header is received, everything following it is refused and recorded; shutdown, reload and debug dump are recorded
// OUTSIDE what the commands do (the binary protocol is intended for the own client of nzbget only)
// ENTRY h_header q=40 t=300 reach=executed,refused,size
// ENTRY h_longbin q=40 t=300 reach=executed,refused
#include "common.h"
#include "priv.h"
#include "BinRpc.h"
#include "Options.h"
#include "Log.h"
#include "quietlog.h"
#include "Util.h"
#include "DownloadInfo.h"
DownloadQueue* DownloadQueue::g_DownloadQueue;
Log* g_Log; Options* g_Options;
static int recvs, sends, shut_, reload_, dump_; static SNzbRequestBase req; static int more; static bool accept_;
void ExitProc() { shut_++; } void Reload() { reload_++; } void Log::LogDebugInfo() { dump_++; }
bool Connection::Recv(char* b, int n) { recvs++; if (recvs == 1) { sym_assert(n == (int)sizeof(req) - 4, "the header is read"); memcpy(b, (char*)&req + 4, n); return true; } more += n; return false; }
bool Connection::Send(const char* b, int n) { sends++; return true; } const char* Connection::GetRemoteAddr() { return "1.1.1.1"; }
time_t Util::CurrentTime() { return 0; }
char Util::VersionRevisionBuf[100] = "v";
static char zcon[sizeof(Connection)];
static const uint32 sizes[] = {0, sizeof(SNzbDownloadRequest), sizeof(SNzbPauseUnpauseRequest), sizeof(SNzbListRequest), sizeof(SNzbSetDownloadRateRequest), sizeof(SNzbDumpDebugRequest), sizeof(SNzbEditQueueRequest), sizeof(SNzbLogRequest), sizeof(SNzbShutdownRequest), sizeof(SNzbReloadRequest), sizeof(SNzbVersionRequest), sizeof(SNzbPostQueueRequest), sizeof(SNzbWriteLogRequest), sizeof(SNzbScanRequest), sizeof(SNzbHistoryRequest)};
static bool same(const char* f, const char* o, int n) { bool r = true; for (int i = 0; i <= n; i++) r &= f[i] == o[i]; return r; }
static void run(int type, bool user, bool pass) { int size = 0; sym_bytes(&size, 4, "size"); req.m_type = htonl(type); req.m_structSize = size; BinRpcProcessor* p = new BinRpcProcessor; p->SetConnection((Connection*)zcon); p->Execute();
  bool done = recvs > 1 || sends + shut_ + reload_ + dump_; bool known = type >= 1 && type <= 14; bool right = known && (uint32)size == htonl(sizes[known ? type : 0]);
  if (done) { sym_assert(user & pass, "a request is executed only with the credentials of the control user"); sym_assert(known && right, "a request is executed only if it has the type and size of a known one"); sym_reach("executed"); if (more) sym_assert(more == (int)(sizes[known ? type : 0] - sizeof(req)), "the rest of the request is read as announced"); }
  else { sym_assert(!(user & pass & (right ? true : false)), "valid requests are executed"); sym_reach(user & pass ? "size" : "refused"); } }
EX void h_header() { env_reset(); g_Options = (Options*)calloc(1, sizeof(Options)); DownloadQueue::g_DownloadQueue = (DownloadQueue*)calloc(1, sizeof(DownloadQueue)); static char u[8], w[8]; int un = (int)sym_pick(L + 1, "user name length"), wn = (int)sym_pick(L + 1, "password length"); if (un) sym_bytes(u, un, "user name"); if (wn) sym_bytes(w, wn, "password"); for (int i = 0; i < un; i++) sym_assume(u[i] != 0); for (int i = 0; i < wn; i++) sym_assume(w[i] != 0); u[un] = w[wn] = 0; g_Options->m_controlUsername = CString(u); g_Options->m_controlPassword = CString(w);
  sym_bytes(req.m_username, 32, "sent user name"); sym_bytes(req.m_password, 32, "sent password"); int type = (int)sym_pick(18, "type") - 1; if (type == 16) type = 0x7fffffff; run(type, un == 0 || same(req.m_username, u, un), same(req.m_password, w, wn)); }
EX void h_longbin() { env_reset(); g_Options = (Options*)calloc(1, sizeof(Options)); DownloadQueue::g_DownloadQueue = (DownloadQueue*)calloc(1, sizeof(DownloadQueue)); static char w[40]; int n = 31 + (int)sym_pick(3, "length"); for (int i = 0; i < n; i++) w[i] = (char)('a' + i % 20); sym_bytes(w + n - 1, 1, "last"); sym_assume(w[n - 1] != 0); w[n] = 0; g_Options->m_controlUsername = ""; g_Options->m_controlPassword = CString(w); memset(&req, 0, sizeof(req)); for (int i = 0; i < 32 && i < n; i++) req.m_password[i] = w[i]; int at = 29 + (int)sym_pick(3, "position"); sym_bytes(req.m_password + at, 1, "character"); run(1 + (int)sym_pick(14, "type"), true, n < 32 && same(req.m_password, w, n)); }
