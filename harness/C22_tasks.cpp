// TUS main/Scheduler.cpp main/WorkState.cpp queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp
// QUICK -DNTASK=1 -DMSTEP=0
// THOROUGH -DNTASK=2 -DMSTEP=3
// BOUND h_due: $NTASK task(s) with every time of day and set of weekdays, every local time offset of +-14 hours, two checks in a row at most 90 minutes apart starting at any second of the days around a leap day, the end of a year or of a summer month; h_start: two tasks with any time of day (at full hours if MSTEP is 0, else quarters; MSTEP=$MSTEP), daily or on given weekdays, any moment of one day at one local time offset, one start-up task, one further check
// STUB scripts started are counted; the local time offset doesn't change between two checks
// OUTSIDE changes of the local time offset (daylight saving) between two checks
// ENTRY h_due q=60 t=600 reach=run,not
// ENTRY h_start q=90 t=600 reach=pause,unpause
// ENTRY h_jump q=60 t=600 reach=back,forth
#include "common.h"
#include "priv.h"
#include "Log.h"
#include "WorkState.h"
#include "DownloadInfo.h"
#include "Scheduler.h"
#include "SchedulerScript.h"
#include "quietlog.h"
Log* g_Log; WorkState* g_WorkState; class ServerPool; ServerPool* g_ServerPool; class FeedCoordinator; FeedCoordinator* g_FeedCoordinator;
Service::Service() {}
static int runs[8], badrun; void SchedulerScriptController::StartScript(const char*, bool, int id) { if (id >= 0 && id < 8) runs[id]++; else badrun++; }
struct TQ : public DownloadQueue { bool EditEntry(int, EEditAction, const char*) override { return true; } bool EditList(IdList*, NameList*, EMatchMode, EEditAction, const char*) override { return true; } void HistoryChanged() override {} void Save() override {} void SaveChanged() override {} };
static Scheduler* s; static int off;
static const int bases[] = {19781, 20087, 20665, 0};
static bool few_; static int base; static void begin(int lo, int hi, bool few = false) { few_ = few; env_reset(); g_WorkState = new WorkState; s = new Scheduler; DownloadQueue::g_Loaded = true; base = bases[few ? 0 : sym_pick(3, "date")]; env_civil_lo = base - lo; env_civil_hi = base + hi; off = few ? 19800 : (int)sym_irange(-50400, 50400, "local time offset"); g_WorkState->m_localTimeOffset = off; }
struct K { int h, m, bits; }; static K k[4];
static void task(int id, Scheduler::ECommand c, bool startup = false) { K& x = k[id]; x.h = startup ? -1 : (int)sym_range(0, 23, "hour of the task"); x.m = startup ? 0 : few_ ? 15 * (int)sym_range(0, MSTEP, "quarter of the task") : (int)sym_range(0, 59, "minute of the task"); x.bits = startup ? 0 : (int)sym_range(0, 127, "weekdays"); s->AddTask(std::make_unique<Scheduler::Task>(id, x.h, x.m, x.bits, c, "p")); }
// is a due time within (last, now] - at most one as the interval is shorter than a day
static int due(K& x, int64_t last, int64_t now) { int n = 0; for (int d = base - 2; d <= base + 3; d++) { int64_t t = (int64_t)d * 86400 + x.h * 3600 + x.m * 60; int wd = (d + 3) % 7; n += ((last + off < t) & (t <= now + off) & ((x.bits == 0) | ((x.bits >> wd & 1) != 0))) ? 1 : 0; } return n; }
EX void h_due() { begin(2, 3); for (int i = 0; i < NTASK; i++) task(i, sym_pick(2, "kind") ? Scheduler::scProcess : Scheduler::scExtensions); s->m_firstChecked = true; int64_t last = (int64_t)base * 86400 + sym_irange(0, 86399, "second of the day"); s->m_lastCheck = last; int want[4] = {};
  for (int r = 0; r < 2; r++) { int64_t now = last + sym_irange(0, 5400, "since the last check"); env_now = now; s->m_executeProcess = true; s->CheckTasks(); for (int i = 0; i < NTASK; i++) { want[i] += due(k[i], last, now); sym_assert(runs[i] == want[i], "a task is run once at each due time and at no other time"); } last = now; }
  if (runs[0]) sym_reach("run"); else sym_reach("not"); }
// the state after the start is the one the last due task within a week has set; scripts which were due before the start aren't run
EX void h_start() { begin(9, 3, true); task(0, Scheduler::scPauseDownload); task(1, Scheduler::scUnpauseDownload); task(2, Scheduler::scProcess, true); task(3, Scheduler::scProcess); sym_assume((k[0].h != k[1].h) | (k[0].m != k[1].m)); bool was = sym_bool("paused"); g_WorkState->m_pauseDownload = was;
  for (int i = 0; i < 2; i++) { sym_assume(k[i].bits == (sym_pick(2, "daily") ? 0 : i ? 64 : 9)); k[i].bits = (int)sym_concretize(k[i].bits); for (auto& t : s->m_taskList) if (t->m_id == i) t->m_weekDaysBits = k[i].bits; } sym_assume(k[3].bits == 0);
  env_now = (int64_t)base * 86400 + sym_irange(0, 86399, "second of the day"); s->ServiceWork(); int64_t at[2] = {0, 0}; for (int i = 0; i < 2; i++) for (int d = base - 8; d <= base + 1; d++) { int64_t t = (int64_t)d * 86400 + k[i].h * 3600 + k[i].m * 60; bool ok = (t <= env_now + off) & (t > env_now + off - 7 * 86400) & ((k[i].bits == 0) | ((k[i].bits >> (d + 3) % 7 & 1) != 0)); at[i] = sym_ite(ok & (t > at[i]), t, at[i]); }
  bool p = sym_ite(at[0] == at[1], was, at[0] > at[1]); sym_assert(g_WorkState->GetPauseDownload() == p, "after the start the state is as the last due task has set it"); if (p) sym_reach("pause"); else sym_reach("unpause");
  sym_assert(runs[2] == 1, "start-up tasks are run at the start"); sym_assert(runs[3] == 0, "scripts due before the start are not run");
  int64_t last = env_now; env_now += sym_irange(0, 5400, "since the last check"); s->ServiceWork(); sym_assert(runs[2] == 1, "start-up tasks are run only once"); sym_assert(runs[3] == due(k[3], last, env_now), "tasks due after the start are run once"); }
// after a large change of the clock no script is run for the time passed over, afterwards tasks are run as usual
EX void h_jump() { begin(12, 12); task(0, Scheduler::scProcess); task(1, Scheduler::scProcess, true); sym_assume(k[0].bits == 0 || k[0].bits == 1); s->m_firstChecked = true; for (auto& t : s->m_taskList) t->m_lastExecuted = t->m_hours == -1 ? 5 : (int64_t)(base - 1) * 86400; int64_t t0 = (int64_t)base * 86400 + sym_irange(0, 86399, "second of the day"); s->m_lastCheck = t0; env_now = t0; bool back = sym_pick(2, "back"); if (back) env_now -= sym_irange(1, 86400, "back"); else env_now += sym_irange(5401, 3 * 86400, "forth");
  s->m_executeProcess = true; s->CheckTasks(); sym_assert(runs[0] == 0, "no script is run for times passed over"); if (back) sym_reach("back"); else sym_reach("forth"); int64_t last = env_now; env_now += sym_irange(0, 5400, "since the last check"); s->m_executeProcess = true; s->CheckTasks(); int n = 0; for (int d = base - 3; d <= base + 5; d++) { int64_t t = (int64_t)d * 86400 + k[0].h * 3600 + k[0].m * 60; n += (last + off < t) & (t <= env_now + off) & ((k[0].bits == 0) | ((k[0].bits >> (d + 3) % 7 & 1) != 0)) ? 1 : 0; }
  sym_assert(runs[0] == n, "after the change tasks are run as usual"); sym_assert(runs[1] == 0, "start-up tasks are not run again"); }
