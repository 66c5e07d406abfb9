// TUS queue/DiskState.cpp queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp util/FileSystem.cpp feed/FeedInfo.cpp nntp/NewsServer.cpp nntp/StatMeter.cpp
// QUICK -DMAXOP=160
// THOROUGH -DMAXOP=200
// BOUND queue and history of up to two entries each in every combination before and after; death before every one of the operations on the disk (all of them are below $MAXOP), with nothing, half or everything of the data not yet flushed having reached it; two deaths one after another; every operation failing (disk full) once or from then on
// OUTSIDE reordering of operations by the file system after a power cut (the queue is flushed only on demand)
// ENTRY h_queue q=60 t=400 reach=old,new
// ENTRY h_move q=60 t=400 reach=old,new
// ENTRY h_progress q=60 t=400 reach=old,new,queue
// ENTRY h_stale q=30 t=200 reach=old,new
// ENTRY h_twice q=120 t=600 reach=old,new
// ENTRY h_again q=120 t=600 reach=old,new tier=thorough
// ENTRY h_load q=60 t=300 reach=done
// ENTRY h_full q=60 t=400 reach=failed,saved
// ENTRY h_file q=60 t=300 reach=old,new
// ENTRY h_feed q=30 t=300 reach=old,new
// ENTRY h_stats q=60 t=300 reach=old,new
// ENTRY h_quick q=30 t=300 reach=done
#include "disk.h"
static uint64_t prefix(uint64_t lo, uint64_t hi) { int k = (int)sym_pick(3, "written"); return k == 0 ? lo : k == 1 ? lo + (hi - lo) / 2 : hi; }
// a state: version of each of the two downloads in the queue (0: not there) and in the history
struct S { int q[2], h[2]; };
static std::unique_ptr<NzbInfo> nzb(int id, const char* name, int v) { auto n = std::make_unique<NzbInfo>(); n->SetId(id); n->m_name = name; n->m_filename = "f.nzb"; n->SetPriority(v); n->GetParameters()->SetParameter("p", v == 1 ? "one" : v == 2 ? "two" : "three"); auto f = std::make_unique<FileInfo>(id * 100); f->SetNzbInfo(n.get()); n->GetFileList()->Add(std::move(f)); return n; }
static void files() { for (int i = 1; i <= 4; i++) { NzbInfo n; FileInfo* f = file(&n, i * 100, i); ds->SaveFile(f); } }
static TQ* make(S& s) { TQ* q = new TQ; for (int i = 0; i < 2; i++) { if (s.q[i]) q->GetQueue()->Add(nzb(i + 1, "n", s.q[i])); if (s.h[i]) { auto h = std::make_unique<HistoryInfo>(nzb(i + 3, "h", s.h[i])); q->GetHistory()->Add(std::move(h), false); } } return q; }
static S see(TQ* q) { S s = {{0, 0}, {0, 0}}; for (std::unique_ptr<NzbInfo>& n : *q->GetQueue()) { int i = n->GetId() - 1; sym_assert((i == 0 || i == 1) && !s.q[i & 1], "no entry comes from nowhere or twice"); int v = n->GetPriority(); NzbParameter* p = n->GetParameters()->Find("p"); sym_assert(p && !strcmp(p->GetValue(), v == 1 ? "one" : v == 2 ? "two" : "three"), "an entry is complete"); sym_assert(n->GetFileList()->size() == 1 && !strcmp(n->GetFileList()->at(0)->GetFilename(), i ? "file 2" : "file 1"), "an entry has its files"); s.q[i & 1] = v; }
  for (std::unique_ptr<HistoryInfo>& h : *q->GetHistory()) { int i = h->GetId() - 3; sym_assert((i == 0 || i == 1) && !s.h[i & 1], "no history entry comes from nowhere or twice"); int v = h->GetNzbInfo()->GetPriority(); NzbParameter* p = h->GetNzbInfo()->GetParameters()->Find("p"); sym_assert(p && !strcmp(p->GetValue(), v == 1 ? "one" : v == 2 ? "two" : "three"), "a history entry is complete"); s.h[i & 1] = v; } return s; }
static S load() { TQ* q = new TQ; if (ds->DownloadQueueExists()) sym_assert(ds->LoadDownloadQueue(q, sv), "what is on the disk can be loaded"); else ds->DiscardDownloadQueue(); return see(q); }
static bool eq(int* a, int* b) { return a[0] == b[0] && a[1] == b[1]; }
static S pickS(int v, const char* n) { S s = {{0, 0}, {0, 0}}; int k = (int)sym_pick(9, n); s.q[0] = k & 1 ? v : 0; s.q[1] = k & 2 ? v : 0; s.h[0] = k & 4 ? v : 0; s.h[1] = k & 1 ? v : 0; if (k == 8) { s.h[0] = s.h[1] = v; } return s; }
static bool crash(const char* n, int max = MAXOP) { int at = (int)sym_pick(max, n); env_ops = 0; env_crash_at = at; env_crash_prefix(prefix); return true; }
// the operations must all be below the bound
static bool died() { bool d = env_crashed; sym_assert(env_ops < MAXOP, "bound of the harness"); env_restart(); return d; }
static void start() { disk_init(); add_server(1, 1, "s1", "h1", 1, ""); files(); g_Options->m_flushQueue = true; }
EX void h_queue() { start(); S a = pickS(1, "before"), b = pickS(2, "after"); if (sym_pick(2, "saved before")) ds->SaveDownloadQueue(make(a), true); else { a = S{{0, 0}, {0, 0}}; } bool hist = sym_pick(2, "history changed"); if (!hist) memcpy(b.h, a.h, sizeof a.h); TQ* q = make(b); crash("death"); bool ok = ds->SaveDownloadQueue(q, hist); bool d = died(); sym_assert(d || ok, "saving succeeds"); S r = load();
  sym_assert(eq(r.q, a.q) || eq(r.q, b.q), "the queue is as before or as after"); sym_assert(eq(r.h, a.h) || eq(r.h, b.h), "the history is as before or as after"); if (!d) sym_assert(eq(r.q, b.q) && eq(r.h, b.h), "everything is saved"); sym_reach(eq(r.q, b.q) ? "new" : "old"); }
// a download moves from the queue to the history or back
EX void h_move() { start(); bool back = sym_pick(2, "back"), only = sym_pick(2, "only one"); S a = {{only ? 0 : 1, back ? 0 : 1}, {only ? 0 : 1, back ? 1 : 0}}, b = {{only ? 0 : 1, back ? 1 : 0}, {only ? 0 : 1, back ? 0 : 1}}; ds->SaveDownloadQueue(make(a), true); TQ* q = make(b); crash("death"); ds->SaveDownloadQueue(q, true); died(); S r = load(); bool qo = eq(r.q, a.q), qn = eq(r.q, b.q), ho = eq(r.h, a.h), hn = eq(r.h, b.h);
  sym_assert((qo || qn) && (ho || hn), "queue and history are as before or as after"); sym_assert(!(qo && hn), "a moved download is not in the history before it has left the queue"); sym_assert(!(qn && ho), "a download that left the queue is already in the history (and the other way round)"); sym_reach(qn ? "new" : "old"); }
EX void h_progress() { start(); S a = {{1, 1}, {1, 0}}; ds->SaveDownloadQueue(make(a), true); TQ* q; S p = a; if (sym_pick(2, "earlier progress")) { p.q[0] = 2; q = make(p); q->GetQueue()->at(0)->SetChanged(true); ds->SaveDownloadProgress(q); }
  S b = p; if (sym_pick(2, "progress again")) { int w = (int)sym_pick(3, "which"); if (w != 1) b.q[0] = 3; if (w != 0) b.q[1] = 3; q = make(b); for (int i = 0; i < 2; i++) q->GetQueue()->at(i)->SetChanged(b.q[i] != a.q[i]); crash("death"); bool ok = ds->SaveDownloadProgress(q); bool d = died(); sym_assert(d || ok, "saving succeeds"); S r = load(); sym_assert(eq(r.q, p.q) || eq(r.q, b.q), "progress is as before or as after"); sym_assert(eq(r.h, a.h), "the history stays"); if (!d) sym_assert(eq(r.q, b.q), "progress is saved"); sym_reach(eq(r.q, b.q) ? "new" : "old"); return; }
  b.q[0] = sym_pick(2, "removed") ? 0 : 3; b.h[1] = 3; q = make(b); crash("death"); ds->SaveDownloadQueue(q, true); bool d = died(); S r = load(); sym_assert(eq(r.h, a.h) || eq(r.h, b.h), "the history is as before or as after"); bool mixed = b.q[0] && p.q[0] == 2 && eq(r.q, p.q) && !d ? false : eq(r.q, p.q) || eq(r.q, b.q); sym_assert(mixed, "the queue is as before or as after"); if (!d) sym_assert(eq(r.q, b.q) && eq(r.h, b.h), "everything is saved"); sym_reach("queue");
  // the queue file is already the new one (the other download tells) but progress saved earlier still counts
  (void)0; }
EX void h_stale() { start(); S a = {{1, 1}, {0, 0}}, p = {{2, 1}, {0, 0}}, b = {{3, 3}, {0, 0}}; ds->SaveDownloadQueue(make(a), true); TQ* q = make(p); q->GetQueue()->at(0)->SetChanged(true); ds->SaveDownloadProgress(q); q = make(b); crash("death"); ds->SaveDownloadQueue(q, true); died(); S r = load(); sym_assert(eq(r.q, p.q) || eq(r.q, b.q) || (r.q[0] == 2 && r.q[1] == 3), "the queue is as before or as after, apart from progress"); sym_assert(eq(r.q, p.q) || eq(r.q, b.q), "progress saved before the queue does not replace newer data"); sym_reach(eq(r.q, b.q) ? "new" : "old"); }
static uint64_t allOrNothing(uint64_t lo, uint64_t hi) { return sym_pick(2, "written") ? hi : lo; }
static void twice(bool look) { start(); S a = {{1, 1}, {1, 0}}, b = {{2, 0}, {2, 0}}, c = {{3, 3}, {0, 3}}; if (sym_pick(2, "saved before")) ds->SaveDownloadQueue(make(a), true); else a = S{{0, 0}, {0, 0}}; TQ* q = make(b); crash("first death", 80); env_crash_prefix(allOrNothing); ds->SaveDownloadQueue(q, true); sym_assert(env_crashed || env_ops < 80, "bound of the harness"); died(); S r; if (look) { r = load(); files(); if (sym_pick(2, "empty")) c = S{{0, 0}, {0, 0}}; } q = make(c); crash("second death", 110); env_crash_prefix(allOrNothing); ds->SaveDownloadQueue(q, true); sym_assert(env_ops < 110, "bound of the harness"); bool d = died(); S s = load();
  bool oq = look ? eq(s.q, r.q) : eq(s.q, a.q) || eq(s.q, b.q), oh = look ? eq(s.h, r.h) : eq(s.h, a.h) || eq(s.h, b.h); sym_assert(oq || eq(s.q, c.q), "the queue is as at the last start or as after"); sym_assert(oh || eq(s.h, c.h), "the history is as at the last start or as after"); if (!d) sym_assert(eq(s.q, c.q) && eq(s.h, c.h), "everything is saved"); sym_reach(eq(s.q, c.q) ? "new" : "old"); }
EX void h_twice() { twice(false); }
EX void h_again() { twice(true); }
// death while starting up changes nothing
EX void h_load() { start(); S a = {{1, 1}, {1, 0}}, b = {{2, 0}, {0, 2}}; ds->SaveDownloadQueue(make(a), true); TQ* q = make(b); crash("first death", 110); env_crash_prefix(0); ds->SaveDownloadQueue(q, true); sym_assert(env_ops < 110, "bound of the harness"); died(); env_put("/q/77", "x", 1); NzbInfo n; FileInfo* f = file(&n, 200, 2); ds->SaveFileState(f, true); crash("death while loading", 60); env_crash_prefix(0); { TQ* x = new TQ; if (ds->DownloadQueueExists()) ds->LoadDownloadQueue(x, sv); else ds->DiscardDownloadQueue(); } sym_assert(env_ops < 60, "bound of the harness"); died(); S r = load(); sym_assert(eq(r.q, a.q) || eq(r.q, b.q), "the queue is as before or as after"); sym_assert(eq(r.h, a.h) || eq(r.h, b.h), "the history is as before or as after"); S s = load(); sym_assert(eq(r.q, s.q) && eq(r.h, s.h), "loading again gives the same"); sym_reach("done"); }
EX void h_full() { start(); S a = pickS(1, "before"), b = pickS(2, "after"); ds->SaveDownloadQueue(make(a), true); TQ* q = make(b); env_ops = 0; env_fault_at = (int)sym_pick(MAXOP, "fault"); env_fault_sticky = (int)sym_pick(2, "for ever"); bool ok = ds->SaveDownloadQueue(q, true); bool hit = env_ops > env_fault_at; env_restart(); env_fault_sticky = 0; S r = load(); sym_assert(eq(r.q, a.q) || eq(r.q, b.q), "the queue is as before or as after"); sym_assert(eq(r.h, a.h) || eq(r.h, b.h), "the history is as before or as after"); if (!hit) sym_assert(ok && eq(r.q, b.q) && eq(r.h, b.h), "everything is saved"); bool writes = (b.q[0] || b.q[1]) && (b.h[0] || b.h[1]); if (ok && writes) sym_assert(eq(r.q, b.q) && eq(r.h, b.h), "success is reported only if everything is saved"); sym_reach(ok ? "saved" : "failed"); }
static int fver(FileInfo* f) { for (int v = 1; v <= 2; v++) { BString<100> t("subject %i", v), u("id%i.1@x", v); if (!strcmp(f->GetSubject(), t)) { sym_assert(f->GetArticles()->size() == 2 && !strcmp(f->GetArticles()->at(1)->GetMessageId(), u) && f->GetTime() == 1000 + v, "the file is complete"); return v; } } sym_assert(false, "the file is one of those saved"); return 0; }
EX void h_file() { start(); bool prev = sym_pick(2, "saved before"), state = sym_pick(2, "state"), fault = sym_pick(2, "disk full"); bool completed = state && sym_pick(2, "completed"); NzbInfo n1, n2; FileInfo *f = file(&n1, 55, 1), *g = file(&n2, 55, 2), h(55); for (int i = 0; i < 2; i++) { FileInfo* x = i ? g : f; x->SetSuccessArticles(10 + i); x->SetFailedSize(20 + i); x->GetArticles()->at(0)->SetStatus(ArticleInfo::aiFinished); x->GetArticles()->at(0)->SetCrc(30 + i); }
  if (prev) state ? ds->SaveFileState(f, completed) : ds->SaveFile(f); if (fault) { env_ops = 0; env_fault_at = (int)sym_pick(MAXOP, "fault"); } else crash("death"); bool ok = state ? ds->SaveFileState(g, completed) : ds->SaveFile(g); bool d = died(); bool l = state ? ds->LoadFileState(&h, sv, completed) : ds->LoadFile(&h, true, true); if (prev || (ok && !d)) sym_assert(l, "the file can be loaded"); if (!l) { sym_reach("old"); return; }
  int v; if (state) { v = h.GetSuccessArticles() - 9; sym_assert(v >= 1 && v <= 2 && h.GetFailedSize() == 19 + v && h.GetArticles()->size() == 2 && (int)h.GetArticles()->at(0)->GetCrc() == 29 + v && !strcmp(h.GetFilename(), v == 1 ? "file 1" : "file 2"), "the state is complete"); } else v = fver(&h); sym_assert(v == 2 || prev, "only what was saved is loaded"); if (ok && !d) sym_assert(v == 2, "everything is saved"); sym_reach(v == 2 ? "new" : "old"); }
EX void h_feed() { start(); Feeds f[3]; FeedHistory h[3]; for (int i = 0; i < 3; i++) { for (int k = 0; k < 2; k++) { f[i].push_back(std::make_unique<FeedInfo>(k + 1, "f", k ? "http://b" : "http://a", false, 5, "", false, "", 0, "")); if (i < 2) f[i][k]->SetLastUpdate(100 + i); } if (i < 2) { h[i].emplace_back("u1", FeedHistoryInfo::hsFetched, 200 + i); h[i].emplace_back(i ? "u2" : "u3", FeedHistoryInfo::hsBacklog, 200 + i); } }
  bool prev = sym_pick(2, "saved before"), none = sym_pick(2, "none left"); if (prev) ds->SaveFeeds(&f[0], &h[0]); bool fault = sym_pick(2, "disk full"); if (none) { f[1].clear(); h[1].clear(); } if (fault) { env_ops = 0; env_fault_at = (int)sym_pick(MAXOP, "fault"); } else crash("death"); bool ok = ds->SaveFeeds(&f[1], &h[1]); bool d = died(); sym_assert(ds->LoadFeeds(&f[2], &h[2]), "feeds can be loaded"); int v = 0; if (h[2].size()) { v = h[2][0].GetLastSeen() - 199; sym_assert(h[2].size() == 2 && (v == 1 || v == 2) && h[2][1].GetLastSeen() == 199 + v && !strcmp(h[2][1].GetUrl(), v == 1 ? "u3" : "u2") && f[2][0]->GetLastUpdate() == 99 + v && f[2][1]->GetLastUpdate() == 99 + v, "the feeds are complete"); } else sym_assert(!f[2][0]->GetLastUpdate() && !f[2][1]->GetLastUpdate(), "nothing else is loaded");
  int nv = none ? 0 : 2; sym_assert(v == nv || v == (prev ? 1 : 0), "feeds are as before or as after"); if (ok && !d && !fault) sym_assert(v == nv, "everything is saved"); sym_reach(v == nv ? "new" : "old"); }
EX void h_stats() { start(); ServerVolumes a[3] = {ServerVolumes(2), ServerVolumes(2), ServerVolumes(2)}; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) { a[i][k].SetTotalBytes(100 * k + i + 1); a[i][k].BytesPerDays()->resize(1); (*a[i][k].BytesPerDays())[0] = 200 * k + i + 1; } bool prev = sym_pick(2, "saved before"); if (prev) ds->SaveStats(sv, &a[0]); if (sym_pick(2, "disk full")) { env_ops = 0; int n = (int)sym_pick(12, "fault"); env_fault_at = n < 8 ? n : 270 + n * 5; } else { int n = (int)sym_pick(40, "death"); env_ops = 0; env_crash_at = n < 16 ? n : 285 + n; env_crash_prefix(prefix); } bool ok = ds->SaveStats(sv, &a[1]); bool d = env_crashed; env_restart(); bool pf; sym_assert(ds->LoadStats(sv, &a[2], &pf), "statistics can be loaded"); int v = (int)a[2][0].GetTotalBytes(); sym_assert(v >= 0 && v <= 2 && (!v || (a[2][1].GetTotalBytes() == 100 + v && a[2][0].BytesPerDays()->at(0) == v && a[2][1].BytesPerDays()->at(0) == 200 + v)), "statistics are complete"); sym_assert(v == 2 || v == (prev ? 1 : 0), "statistics are as before or as after"); if (ok && !d) sym_assert(v == 2, "everything is saved"); sym_reach(v == 2 ? "new" : "old"); }
EX void h_quick() { start(); S a = {{1, 1}, {0, 0}}; TQ* q = new TQ; for (int i = 0; i < 2; i++) { auto n = std::make_unique<NzbInfo>(); n->SetId(i + 1); n->m_name = "n"; n->m_filename = "f"; n->SetPriority(1); n->GetParameters()->SetParameter("p", "one"); file(n.get(), 100 * (i + 1), i + 1); q->GetQueue()->Add(std::move(n)); } ds->SaveDownloadQueue(q, true); if (sym_pick(2, "saved before")) ds->SaveAllFileInfos(q); if (sym_pick(2, "disk full")) { env_ops = 0; env_fault_at = (int)sym_pick(MAXOP, "fault"); env_fault_sticky = (int)sym_pick(2, "for ever"); } else crash("death"); if (sym_pick(2, "discard")) ds->DiscardQuickFileInfos(); else ds->SaveAllFileInfos(q); died(); env_fault_sticky = 0; S r = load(); sym_assert(eq(r.q, a.q), "the queue has all its files"); sym_reach("done"); }
