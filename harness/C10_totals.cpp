// TUS queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp util/FileSystem.cpp queue/QueueCoordinator.cpp queue/QueueEditor.cpp nntp/Decoder.cpp main/WorkState.cpp
// QUICK -DK=2 -DKS=1 -DTIERQ=1
// THOROUGH -DK=3 -DKS=2
// BOUND two downloads of two files each (one or two articles each), every article and missed size 0..255; every sequence of $K operations (pause, resume, start, finish, fail, retry, delete, extra priority, group pause) before a split, merge, discard or reload, and of $K+2 alone
// OUTSIDE article sizes above 255 bytes; downloads being deleted or parked as a whole (their figures describe the deleted download, not what is left of its file list)
// ENTRY h_ops q=60 t=600 reach=done
// ENTRY h_split q=60 t=600 reach=split
// ENTRY h_merge q=60 t=600 reach=merged
// ENTRY h_discard q=30 t=300 reach=done
// ENTRY h_dupes q=30 t=300 reach=done
// ENTRY h_movelist q=30 t=300 reach=done
// ENTRY h_partial q=30 t=300 reach=done
#include "queue.h"
struct M { FileInfo* f; int nzb; bool live, paused, par, extra; int arts; int64_t sz[2]; int st[2]; /* 0 pending 1 running 2 finished 3 failed */ int64_t missed; int missedArts; ArticleDownloader* d[2]; bool del; };
static M m[8]; static int nm; static NzbInfo* z[3]; static int nz;
// what completed files left behind in each download
static int64_t cs[3], cf[3], cm[3], csz[3], ps[3], pf[3], pm[3], psz[3]; static int ca[3], cfa[3], cma[3], cta[3], cfiles[3], csrv[3];
static int statOf(ServerStatList* l, int id) { int n = 0; for (ServerStat& s : *l) if (s.GetServerId() == id) n += s.GetSuccessArticles(); return n; }
static void mk(int nzb, const char* name, bool par, int arts, bool missed) {
  M& x = m[nm++]; x = M{}; FileInfo* f = add_file(z[nzb], name, arts, 255); x.f = f; x.nzb = nzb; x.live = true; x.par = par; x.arts = arts; int64_t sum = 0;
  for (int a = 0; a < arts; a++) { x.sz[a] = f->GetArticles()->at(a)->GetSize(); sum += x.sz[a]; }
  if (missed) { x.missed = sym_range(0, 255, "missed"); x.missedArts = 1; }
  f->SetParFile(par); f->SetFilenameConfirmed(true); f->SetMissedSize(x.missed); f->SetMissedArticles(x.missedArts); f->SetSize(sum + x.missed); f->SetRemainingSize(sum); f->SetTotalArticles(arts + x.missedArts);
  NzbInfo* n = z[nzb]; // as the nzb-file reader leaves it
  n->m_fileCount++; n->m_totalArticles += f->GetTotalArticles(); n->m_failedArticles += x.missedArts; n->m_currentFailedArticles += x.missedArts; n->m_size += f->GetSize(); n->m_remainingSize += f->GetRemainingSize(); n->m_failedSize += x.missed; n->m_currentFailedSize = n->m_failedSize;
  if (par) { n->m_parSize += f->GetSize(); n->m_parFailedSize += x.missed; n->m_parCurrentFailedSize = n->m_parFailedSize; n->m_remainingParCount++; }
}
static void init() { queue_init(); g_Options->m_healthCheck = Options::hcNone; g_Options->m_directWrite = true; z[0] = add_nzb("a"); z[1] = add_nzb("b"); nz = 2; }
static void check() {
  for (int i = 0; i < nz; i++) { NzbInfo* n = z[i]; if (!n) continue;
    int64_t rem = 0, pau = 0, suc = cs[i], fal = cf[i] + cm[i], ksuc = cs[i], kfal = cf[i] + cm[i], size = csz[i], parS = ps[i], parF = pf[i] + pm[i], pkS = ps[i], pkF = pf[i] + pm[i], psize = psz[i]; int pc = 0, rp = 0, ex = 0, ta = cta[i], sa = ca[i], fa = cfa[i] + cma[i], ksa = ca[i], kfa = cfa[i] + cma[i], live = 0, srv = csrv[i], csv = csrv[i];
    for (int k = 0; k < nm; k++) { M& x = m[k]; if (!x.live || x.nzb != i) continue; live++; int64_t r = 0, s = 0, fl = 0; int sA = 0, fA = 0;
      for (int a = 0; a < x.arts; a++) { if (x.st[a] < 2) r += x.sz[a]; if (x.st[a] == 2) { s += x.sz[a]; sA++; } if (x.st[a] == 3) { fl += x.sz[a]; fA++; } }
      int64_t all = x.missed; for (int a = 0; a < x.arts; a++) all += x.sz[a];
      sym_assert(x.f->GetNzbInfo() == n, "the file belongs to its download"); sym_assert(x.f->GetRemainingSize() == r, "remaining size of a file"); sym_assert(x.f->GetSuccessSize() == s, "downloaded size of a file"); sym_assert(x.f->GetFailedSize() == fl, "failed size of a file"); sym_assert(x.f->GetCompletedArticles() == sA + fA, "completed articles of a file"); sym_assert((x.f->GetSuccessArticles() == sA) & (x.f->GetFailedArticles() == fA), "article counts of a file"); sym_assert(x.f->GetSize() == all, "size of a file"); sym_assert(x.f->GetPaused() == x.paused, "pause state"); sym_assert(statOf(x.f->GetServerStats(), 1) == sA, "server counts of a file");
      size += all; rem += r; if (x.paused) { pau += r; pc++; } if (x.extra) ex++; ta += x.arts + x.missedArts; fal += x.missed; fa += x.missedArts; ksuc += s; kfal += fl + x.missed; ksa += sA; kfa += fA + x.missedArts; csv += sA;
      if (x.par) { rp++; psize += all; parF += x.missed; pkS += s; pkF += fl + x.missed; } }
    sym_assert((int)n->GetFileList()->size() == live, "the file list holds the live files"); sym_assert(n->GetFileCount() == live + cfiles[i], "file count");
    sym_assert(n->GetSize() == size, "total size"); sym_assert(n->GetRemainingSize() == rem, "remaining size"); sym_assert(n->GetPausedSize() == pau, "paused size"); sym_assert(n->GetPausedFileCount() == pc, "count of paused files"); sym_assert(n->GetExtraPriority() == ex, "count of extra-priority files");
    sym_assert(n->GetSuccessSize() == suc, "successful size of completed files"); sym_assert(n->GetFailedSize() == fal, "failed size of completed files and missing segments"); sym_assert(n->GetCurrentSuccessSize() == ksuc, "successful size"); sym_assert(n->GetCurrentFailedSize() == kfal, "failed size");
    sym_assert(n->GetParSize() == psize, "size of the par files"); sym_assert(n->GetParSuccessSize() == parS, "successful size of completed par files"); sym_assert(n->GetParFailedSize() == parF, "failed size of completed par files and missing segments"); sym_assert(n->GetParCurrentSuccessSize() == pkS, "successful size of par files"); sym_assert(n->GetParCurrentFailedSize() == pkF, "failed size of par files"); sym_assert(n->GetRemainingParCount() == rp, "count of par files");
    sym_assert(n->GetTotalArticles() == ta, "article count"); sym_assert(n->GetSuccessArticles() == sa, "successful articles of completed files"); sym_assert(n->GetFailedArticles() == fa, "failed articles of completed files and missing segments"); sym_assert(n->GetCurrentSuccessArticles() == ksa, "successful articles"); sym_assert(n->GetCurrentFailedArticles() == kfa, "failed articles");
    sym_assert(statOf(n->GetServerStats(), 1) == srv, "server counts of completed files"); sym_assert(statOf(n->GetCurrentServerStats(), 1) == csv, "server counts"); }
}
static void completed(M& x) { int i = x.nzb; x.live = false; cfiles[i]++; int64_t all = x.missed;
  for (int a = 0; a < x.arts; a++) { all += x.sz[a]; if (x.st[a] == 2) { cs[i] += x.sz[a]; ca[i]++; csrv[i]++; if (x.par) ps[i] += x.sz[a]; } if (x.st[a] == 3) { cf[i] += x.sz[a]; cfa[i]++; if (x.par) pf[i] += x.sz[a]; } }
  csz[i] += all; cm[i] += x.missed; cma[i] += x.missedArts; cta[i] += x.arts + x.missedArts; if (x.par) { psz[i] += all; pm[i] += x.missed; } }
static bool running(M& x) { return x.st[0] == 1 || (x.arts > 1 && x.st[1] == 1); }
static void start(M& x, int a) { if (!x.live || x.del || x.st[a]) return; g_QueueCoordinator->StartArticleDownload(x.f, x.f->GetArticles()->at(a).get(), nullptr); x.d[a] = g_QueueCoordinator->m_activeDownloads.back(); x.st[a] = 1; }
static void finish(M& x, int a, int o) { // o: 0 finished, 1 failed, 2 retry
  if (!x.live || x.st[a] != 1) return; ArticleDownloader* d = x.d[a]; d->m_status = o == 0 ? ArticleDownloader::adFinished : o == 1 ? ArticleDownloader::adFailed : ArticleDownloader::adRetry; if (o == 0) d->m_serverStats.StatOp(1, 1, 0, ServerStatList::soAdd);
  x.st[a] = o == 0 ? 2 : o == 1 ? 3 : 0; bool all = true; for (int b = 0; b < x.arts; b++) all &= x.st[b] >= 2; if (x.del) { if (!running(x)) x.live = false; } else if (all) completed(x);
  g_QueueCoordinator->Update(d, nullptr); }
static void del(M& x) { if (!x.live || x.del) return; int id = x.f->GetId(); if (running(x)) x.del = true; else x.live = false; dq()->EditEntry(id, DownloadQueue::eaFileDelete, nullptr); }
static void pause(M& x, bool p) { if (!x.live) return; x.paused = p; dq()->EditEntry(x.f->GetId(), p ? DownloadQueue::eaFilePause : DownloadQueue::eaFileResume, nullptr); }
static void op() {
  int k = (int)sym_pick(nm, "file"); M& x = m[k]; if (!x.live) return; int a = x.arts > 1 ? (int)sym_pick(2, "article") : 0;
  switch ((int)sym_pick(8, "op")) {
    case 0: pause(x, !x.paused); break;
    case 1: start(x, a); break;
    case 2: start(x, a); finish(x, a, 0); break;
    case 3: start(x, a); finish(x, a, 1); break;
    case 4: start(x, a); finish(x, a, 2); break;
    case 5: del(x); break;
    case 6: x.extra = !x.extra; x.f->SetExtraPriority(x.extra); break;
    case 7: { bool p = sym_pick(2, "resume") == 0; for (int i = 0; i < nm; i++) if (m[i].live && m[i].nzb == x.nzb) m[i].paused = p; dq()->EditEntry(z[x.nzb]->GetId(), p ? DownloadQueue::eaGroupPause : DownloadQueue::eaGroupResume, nullptr); break; }
  }
}
static void reload() { for (int i = 0; i < nz; i++) if (z[i]) { z[i]->GetCurrentServerStats()->clear(); z[i]->UpdateCurrentStats(); } check(); }
EX void h_ops() { init(); mk(0, "a.rar", false, 2, false); mk(0, "a.par2", true, 1, true); nz = 1; check(); for (int i = 0; i < K + 2; i++) { op(); check(); } reload(); sym_reach("done"); }
EX void h_merge() { init(); mk(0, "a.rar", false, 1, true); mk(0, "a.par2", true, 1, true); mk(1, "b.rar", false, 1, true); mk(1, "b.par2", true, 1, true); for (int i = 0; i < K; i++) op();
  bool ok = g_QueueCoordinator->MergeQueueEntries(dq(), z[0], z[1]); sym_assert(ok, "downloads without post-processing can be merged"); if (ok) { for (int i = 0; i < nm; i++) m[i].nzb = 0; z[1] = nullptr;
  cs[0] += cs[1]; cf[0] += cf[1]; cm[0] += cm[1]; csz[0] += csz[1]; ps[0] += ps[1]; pf[0] += pf[1]; pm[0] += pm[1]; psz[0] += psz[1]; ca[0] += ca[1]; cfa[0] += cfa[1]; cma[0] += cma[1]; cta[0] += cta[1]; cfiles[0] += cfiles[1]; csrv[0] += csrv[1]; sym_reach("merged"); }
  check(); reload(); }
EX void h_split() { init(); nz = 1; mk(0, "a.rar", false, 2, true); mk(0, "b.rar", false, 1, true); mk(0, "a.par2", true, 1, true); for (int i = 0; i < K; i++) op();
  RawFileList l; bool can = true; int n = 0; bool take[3]; for (int i = 0; i < 3; i++) { take[i] = sym_pick(2, "take") != 0; if (!m[i].live) take[i] = false; if (take[i]) { n++; l.push_back(m[i].f); for (int a = 0; a < m[i].arts; a++) can &= m[i].st[a] == 0; } }
  int left = 0; for (int i = 0; i < 3; i++) if (m[i].live && !take[i]) left++;
  if (!n) return; NzbInfo* nn = nullptr; bool ok = g_QueueCoordinator->SplitQueueEntries(dq(), &l, "n", &nn); sym_assert(ok == can, "files can be split off exactly when none of them is being downloaded");
  if (ok) { z[1] = nn; nz = 2; for (int i = 0; i < 3; i++) if (take[i]) m[i].nzb = 1; if (!left) z[0] = nullptr; sym_reach("split"); } check(); for (int i = 0; i < KS; i++) { op(); check(); } reload(); }
EX void h_discard() { // articles downloaded for renaming are given back
  init(); nz = 1; mk(0, "a.rar", false, 1, true); mk(0, "a.par2", true, 2, true); M& x = m[1]; for (int i = 0; i < K; i++) op(); if (!x.live || x.del || running(x)) return;
  g_QueueCoordinator->DiscardDownloadedArticles(z[0], x.f); for (int a = 0; a < 2; a++) x.st[a] = 0; check(); reload(); sym_reach("done"); }
EX void h_dupes() { // doubled files are taken out of a new download
  init(); nz = 1; g_Options->m_dupeCheck = true; mk(0, "a.par2", true, 1, true); mk(0, sym_pick(2, "same") ? "a.par2" : "b.rar", true, 1, true); mk(0, sym_pick(2, "same3") ? "a.par2" : "c.par2", true, 1, false); for (int i = 0; i < 3; i++) if (sym_pick(2, "paused")) { m[i].f->SetPaused(true); m[i].paused = true; }
  g_QueueCoordinator->CheckDupeFileInfos(z[0]); for (int i = 0; i < 3; i++) { m[i].live = false; for (FileInfo* f : z[0]->GetFileList()) if (f == m[i].f) m[i].live = true; }
  check(); reload(); sym_reach("done"); }
EX void h_movelist() { // a file list read again from the nzb-file replaces that of an old download
  init(); nz = 1; mk(1, "a.rar", false, 1, true); mk(1, "a.par2", true, 1, true); for (int i = 0; i < 2; i++) { m[i].paused = sym_pick(2, "paused") != 0; m[i].f->SetPaused(m[i].paused); }
  NzbInfo* n = new NzbInfo(); n->MoveFileList(z[1]); z[0] = n; m[0].nzb = m[1].nzb = 0; check(); reload(); sym_reach("done"); }
EX void h_partial() { // partly downloaded files whose download is recorded again after a restart
  init(); nz = 1; mk(0, "a.rar", false, 2, true); mk(0, "a.par2", true, 1, true); for (int i = 0; i < K; i++) op(); for (int i = 0; i < nm; i++) if (m[i].live && (running(m[i]) || m[i].del)) return;
  // the current figures are not stored; they start from zero or garbage and are rebuilt from what is
  z[0]->m_remainingSize = 77; z[0]->m_pausedSize = 5; z[0]->m_pausedFileCount = 9; z[0]->m_remainingParCount = 3; z[0]->m_currentSuccessSize = 1; z[0]->m_currentFailedSize = 2; z[0]->m_currentSuccessArticles = 3; z[0]->m_currentFailedArticles = 4; z[0]->m_parCurrentSuccessSize = 5; z[0]->m_parCurrentFailedSize = 6; z[0]->m_extraPriority = 8; z[0]->m_currentServerStats.clear();
  reload(); sym_reach("done"); }
