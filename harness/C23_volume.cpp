// TUS nntp/StatMeter.cpp main/WorkState.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp
// QUICK -DDAYS=430
// THOROUGH -DDAYS=1500
// BOUND h_step: any contents of all slots, any amount; previous time at 18 times of day, time passed: 0..25 hours, 0..59 minutes, 0, 1, 29, 30, 58 or 59 seconds, forwards and backwards, four local time offsets; h_days: 5 days with any contents, clock from 3 days before the first to 5 days after it; h_quota: each of $DAYS consecutive days from 2023-12-01, every start day, 45 days with any contents
// STUB Util::FormatSize (used for a message only) returns a fixed text
// ENTRY h_step q=90 t=400 reach=forth,back,same
// ENTRY h_days q=20 t=60 reach=before,within,after
// ENTRY h_quota q=60 t=400 reach=month,first
// ENTRY h_server q=20 t=60 reach=added
// ENTRY h_reached q=20 t=60 reach=lifted,month,day
#include "common.h"
#include "priv.h"
#include "Log.h"
#include "WorkState.h"
#include "Options.h"
#include "StatMeter.h"
#include "ServerPool.h"
#include "DiskState.h"
#include "quietlog.h"
Log* g_Log; WorkState* g_WorkState; Options* g_Options; ServerPool* g_ServerPool; DiskState* g_DiskState; StatMeter* g_StatMeter; void Log::RegisterDebuggable(Debuggable*) {} void Log::UnregisterDebuggable(Debuggable*) {}
CString Util::FormatSize(int64) { return CString("size"); }
static const int64_t BASE = 20100ll * 86400; // 2025-01-12
static void begin() { env_reset(); env_now = BASE; g_WorkState = new WorkState; g_Options = (Options*)calloc(1, sizeof(Options)); }
static uint64_t sec0[60], min0[60], hour0[24];
static bool back; // the clock was set back: what is known of the current second, minute and hour may be dropped
static int64_t fd(int64_t a, int64_t b) { return a / b; }
// what was in the slot of the latest T <= now with T % n == i, known when the last data came at time last
static void window(const char* what, ServerVolume::VolumeArray* a, uint64_t* old, int n, int64_t now, int64_t last, uint64_t bytes, const char* m1) { (void)what;
  for (int i = 0; i < n; i++) { int64_t t = now - (((now - i) % n) + n) % n; uint64_t want = now >= last ? (t > last ? 0 : old[i]) : (t == now ? 0 : (t + n <= last ? 0 : old[i])); uint64_t got = (uint64_t)a->at(i); if (t == now) want += bytes; bool ok = got == want; if (t == now && back) ok |= (got == old[i] + bytes) | (got == bytes); sym_assert(ok, m1); } }
EX void h_step() { begin(); ServerVolume v; static const int offs[] = {0, 3600, -12600, 50400}; g_WorkState->m_localTimeOffset = offs[sym_pick(4, "offset")];
  static const int s0[] = {0, 30, 59}, m0[] = {0, 59, 17}, h0[] = {0, 23}, dh[] = {0, 1, 2, 22, 23, 24, 25}, dm[] = {0, 1, 2, 29, 30, 58, 59}, ds[] = {0, 1, 29, 30, 58, 59};
  int64_t t0 = BASE + h0[sym_pick(2, "hour")] * 3600 + m0[sym_pick(3, "minute")] * 60 + s0[sym_pick(3, "second")]; int a = dh[sym_pick(7, "hours")]; int64_t d = a * 3600 + (a < 2 ? (int)sym_pick(60, "minutes") : dm[sym_pick(7, "minutes")]) * 60 + ds[sym_pick(6, "seconds")]; back = d && sym_pick(2, "back"); int64_t t1 = back ? t0 - d : t0 + d;
  for (int i = 0; i < 60; i++) { sec0[i] = sym_range(0, 1ull << 32, "second slot"); min0[i] = sym_range(0, 1ull << 40, "minute slot"); v.m_bytesPerSeconds[i] = sec0[i]; v.m_bytesPerMinutes[i] = min0[i]; } for (int i = 0; i < 24; i++) { hour0[i] = sym_range(0, 1ull << 40, "hour slot"); v.m_bytesPerHours[i] = hour0[i]; } uint64_t total = sym_range(0, 1ull << 50, "total"), custom = sym_range(0, 1ull << 50, "custom"); v.m_totalBytes = total; v.m_customBytes = custom;
  v.m_dataTime = t0; int off = g_WorkState->m_localTimeOffset; v.CalcSlots(t0 + off); int b = (int)sym_range(0, 0x7fffffff, "bytes"); env_now = t1; v.AddData(b); int64_t l0 = t0 + off, l1 = t1 + off;
  window("second", &v.m_bytesPerSeconds, sec0, 60, l1, l0, b, "each second slot holds what came in that second, older ones are empty"); window("minute", &v.m_bytesPerMinutes, min0, 60, fd(l1, 60), fd(l0, 60), b, "each minute slot holds what came in that minute, older ones are empty"); window("hour", &v.m_bytesPerHours, hour0, 24, fd(l1, 3600), fd(l0, 3600), b, "each hour slot holds what came in that hour, older ones are empty");
  sym_assert((uint64_t)v.m_totalBytes == total + b && (uint64_t)v.m_customBytes == custom + b, "every byte is counted once in total and custom counter"); sym_assert(v.m_dataTime == t1, "the time of the last data is known"); sym_reach(d == 0 ? "same" : back ? "back" : "forth"); }
EX void h_days() { begin(); ServerVolume v; int first = 20098; v.m_firstDay = first; v.m_bytesPerDays.resize(5); uint64_t day[5]; for (int i = 0; i < 5; i++) v.m_bytesPerDays[i] = day[i] = sym_range(0, 1ull << 50, "day"); v.m_dataTime = (first + 4) * 86400ll + 100; v.CalcSlots(v.m_dataTime); int d = first - 3 + (int)sym_pick(9, "day"); env_now = d * 86400ll + sym_irange(0, 86399, "time"); int64_t tod = env_now - d * 86400ll; sym_assume((tod == 0) | (tod == 43200) | (tod == 86399)); env_now = (int64_t)sym_concretize(env_now); int b = (int)sym_range(0, 0x7fffffff, "bytes"); v.AddData(b); sym_reach(d < first ? "before" : d < first + 5 ? "within" : "after");
  for (int x = first - 5; x < first + 10; x++) { uint64_t want = (x >= first && x < first + 5 ? day[x - first] : 0) + (x == d ? b : 0); int i = x - v.m_firstDay; uint64_t got = i >= 0 && i < (int)v.m_bytesPerDays.size() ? v.m_bytesPerDays[i] : 0; sym_assert(got == want, "each day holds what came on that day"); } }
static StatMeter* sm; static void meter() { sm = new StatMeter; sm->m_serverVolumes.resize(3); }
EX void h_quota() { begin(); meter(); int today = 19692 + (int)sym_pick(DAYS, "day"); int q = 1 + (int)sym_pick(31, "start day"); g_Options->m_quotaStartDay = q; int start = -1; { for (int d = today; d >= today - 31; d--) { time_t t = d * 86400ll, y = t - 86400; struct tm a, p; gmtime_r(&t, &a); gmtime_r(&y, &p); if (a.tm_mday == q || (a.tm_mday == 1 && p.tm_mday < q)) { start = d; break; } } }
  ServerVolume& v = sm->m_serverVolumes[0]; unsigned kind = sym_pick(3, "first day"); int first = kind == 0 ? today - 40 : kind == 1 ? today - 3 : today + 1; v.m_firstDay = first; int n = kind == 1 ? 2 : 45; v.m_bytesPerDays.resize(n); uint64_t x[45]; for (int i = 0; i < n; i++) v.m_bytesPerDays[i] = x[i] = sym_range(0, 1ull << 50, "day");
  env_now = today * 86400ll + 86399 * sym_pick(2, "time"); int64 mb = -1, db = -1; sm->CalcQuotaUsage(mb, db); uint64_t wm = 0, wd = 0; for (int i = 0; i < n; i++) { int d = first + i; if (d >= start && d <= today) wm += x[i]; if (d == today) wd += x[i]; }
  sym_assert((uint64_t)db == wd, "the daily usage is what came today"); sym_assert((uint64_t)mb == wm, "the monthly usage is what came since the start day"); if (start != today) sym_reach("month"); else sym_reach("first"); }
EX void h_server() { begin(); meter(); int id = 1 + (int)sym_pick(2, "server"); int b = (int)sym_range(0, 0x7fffffff, "bytes"), c = (int)sym_range(0, 0x7fffffff, "more"); sm->AddServerData(b, id); env_now += sym_pick(2, "later") * 61; sm->AddServerData(c, 3 - id); uint64_t s = (uint64_t)b + c; for (int i = 0; i < 3; i++) { uint64_t want = i == 0 ? s : i == id ? b : c; sym_assert((uint64_t)sm->m_serverVolumes[i].m_totalBytes == want, "data is counted for its server and in the sum"); uint64_t h = 0; for (auto x : sm->m_serverVolumes[i].m_bytesPerDays) h += x; sym_assert(h == want, "data is counted on its day"); } sym_assert(sm->m_statChanged | (b == 0 & c == 0), "new data is going to be saved"); sym_reach("added"); }
// quotas
EX void h_reached() { begin(); meter(); ServerVolume& v = sm->m_serverVolumes[0]; v.m_firstDay = 20099; v.m_bytesPerDays.resize(2); uint64_t y = sym_range(0, 1ull << 45, "yesterday"), t = sym_range(0, 1ull << 45, "today"); v.m_bytesPerDays[0] = y; v.m_bytesPerDays[1] = t; g_Options->m_quotaStartDay = 1; int mq = (int)sym_range(0, 0x7fffffff, "monthly quota"), dq = (int)sym_range(0, 0x7fffffff, "daily quota"); g_Options->m_monthlyQuota = mq; g_Options->m_dailyQuota = dq; bool was = sym_bool("reached before"); sym_assume(!was | (mq > 0) | (dq > 0)); g_WorkState->m_quotaReached = was; sm->CheckQuota();
  bool m = (mq > 0) & (y + t >= (uint64_t)mq << 20), d = (dq > 0) & (t >= (uint64_t)dq << 20); sym_assert(g_WorkState->m_quotaReached == (m | d), "the quota is reached exactly if the usage of the day or of the month is at least the limit"); if (m) sym_reach("month"); if (d) sym_reach("day"); if (!m & !d & was) sym_reach("lifted"); }
