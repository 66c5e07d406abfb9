// TUS queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp util/FileSystem.cpp queue/QueueCoordinator.cpp queue/QueueEditor.cpp nntp/Decoder.cpp main/WorkState.cpp
// QUICK -DD=2 -DF=2
// THOROUGH -DD=3 -DF=2
// BOUND $D downloads, each of $F files, two articles each; every combination of pause, deletion, extra priority, article states, age of the file, priority of the download, global pause, quota and propagation delay
// ENTRY h_next q=90 t=800 reach=found,none
// ENTRY h_server q=60 t=600 reach=found
// ENTRY h_rename q=60 t=600 reach=found,first
// ENTRY h_drain q=60 t=600 reach=done
#include "queue.h"
struct G { FileInfo* f; NzbInfo* n; bool del, paused, extra, wait, left, conf; };
static G g[16]; static int ng; static NzbInfo* z[4]; static bool stop; static int prio[4];
static void setup(int states) {
  queue_init(); g_Options->m_propagationDelay = sym_pick(2, "delay") ? 600 : 0; env_now = 100000; int pk = (int)sym_pick(3, "pause or quota"); bool dp = pk == 1, qt = pk == 2; g_WorkState->m_pauseDownload = dp; g_WorkState->m_quotaReached = qt; stop = dp | qt;
  for (int i = 0; i < D; i++) { z[i] = add_nzb("n"); int k = (int)sym_pick(3, "priority"); prio[i] = k == 2 ? 900 : k == 1 ? 5 : 0; z[i]->SetPriority(prio[i]);
    for (int j = 0; j < F; j++) { G& x = g[ng++]; x.f = add_file(z[i], "f", 2, 0); x.n = z[i]; x.del = sym_bool("deleted"); x.paused = sym_bool("paused"); x.extra = sym_bool("extra"); x.f->m_deleted = x.del; x.f->m_paused = x.paused; x.f->m_extraPriority = x.extra; z[i]->m_pausedFileCount += x.paused; z[i]->m_extraPriority += x.extra;
      bool young = sym_bool("young"); x.f->m_time = sym_ite(young, 99500, 90000); x.wait = (g_Options->m_propagationDelay > 0) & young;
      int s1 = (int)sym_range(0, states - 1, "state"), s2 = (int)sym_range(0, states - 1, "state2"); x.f->GetArticles()->at(0)->m_status = (ArticleInfo::EStatus)s1; x.f->GetArticles()->at(1)->m_status = (ArticleInfo::EStatus)s2; x.left = (s1 == 0) | (s2 == 0); } } }
static bool elig(G& x) { return !x.del & !x.paused & !x.wait & x.left & (!stop | (x.n->GetPriority() >= 900)); }
static void best(FileInfo* f) { int c = -1; for (int i = 0; i < ng; i++) if (g[i].f == f) c = i; sym_assert(c >= 0, "a file of the queue is chosen"); if (c < 0) return; G& x = g[c];
  sym_assert(!x.del, "the file is not deleted"); sym_assert(!x.paused, "the file is not paused"); sym_assert(!x.wait, "the file has propagated"); sym_assert(!stop | x.n->GetForcePriority(), "only forced downloads run during a pause or above the quota");
  for (int i = 0; i < ng; i++) if (i != c) { G& y = g[i]; int py = y.n->GetPriority(), px = x.n->GetPriority(); bool higher = (y.extra & !x.extra) | ((y.extra == x.extra) & ((py > px) | ((py == px) & (i < c)))); sym_assert(!(elig(y) & higher), "no eligible file of higher precedence was passed over"); } }
EX void h_next() { setup(3); FileInfo* f = nullptr; ArticleInfo* a = nullptr; bool ok = g_QueueCoordinator->GetNextArticle(dq(), f, a);
  bool any = false; for (int i = 0; i < ng; i++) any |= elig(g[i]); sym_assert(ok == any, "an article is chosen exactly when there is an eligible one"); if (!ok) { sym_reach("none"); return; }
  best(f); bool in = false; for (auto& p : *f->GetArticles()) in |= p.get() == a; sym_assert(in, "the article belongs to the file"); sym_assert(a->m_status == ArticleInfo::aiUndefined, "the article has not been started"); if (in) sym_assert(a == f->GetArticles()->at(0).get() || f->GetArticles()->at(0)->m_status != ArticleInfo::aiUndefined, "articles are taken in order"); sym_reach("found"); }
static int loads; static bool loader(FileInfo* f) { loads++; for (int i = 0; i < 2; i++) { auto a = std::make_unique<ArticleInfo>(); a->SetPartNumber(i + 1); f->GetArticles()->push_back(std::move(a)); } return true; }
EX void h_server() { // articles are read from disk when a file's turn comes
  setup(1); g_Options->m_serverMode = true; g_loadArticles = loader; for (int i = 0; i < ng; i++) if (i & 1 || i == 2) g[i].f->GetArticles()->clear();
  FileInfo* f = nullptr; ArticleInfo* a = nullptr; bool ok = g_QueueCoordinator->GetNextArticle(dq(), f, a); bool any = false; for (int i = 0; i < ng; i++) any |= elig(g[i]); sym_assert(ok == any, "an article is chosen exactly when there is an eligible one"); if (!ok) return; best(f); sym_assert(f->GetArticles()->size() == 2 && a == f->GetArticles()->at(0).get(), "the first article of the file"); sym_assert(loads <= 1, "only the chosen file is read"); sym_reach("found"); }
static bool cand(G& x) { return !x.del & !x.paused & !x.wait & (!stop | (x.n->GetPriority() >= 900)); } // eligible, or would be with articles left
EX void h_rename() { // direct renaming: the first articles of all files of the download come first, also those of paused or young files
  setup(2); g_Options->m_directRename = true; for (int i = 0; i < ng; i++) { g[i].conf = sym_bool("confirmed"); g[i].f->m_filenameConfirmed = g[i].conf; }
  FileInfo* f = nullptr; ArticleInfo* a = nullptr; bool ok = g_QueueCoordinator->GetNextArticle(dq(), f, a); bool any = false; for (int i = 0; i < ng; i++) any |= elig(g[i]); sym_assert(ok | !any, "an article is chosen when there is an eligible one"); if (!ok) return;
  int c = -1; for (int i = 0; i < ng; i++) if (g[i].f == f) c = i; sym_assert(c >= 0 && a->m_status == ArticleInfo::aiUndefined, "the article has not been started"); if (c < 0) return; sym_assert(!g[c].del, "the file is not deleted"); sym_assert(!stop | f->GetNzbInfo()->GetForcePriority(), "only forced downloads run during a pause or above the quota");
  bool more = false; for (int i = 0; i < ng; i++) if (g[i].n == g[c].n) more |= !g[i].conf & !g[i].del & (g[i].f->GetArticles()->at(0)->m_status == ArticleInfo::aiUndefined);
  if (more) { sym_assert(!g[c].conf & (a == f->GetArticles()->at(0).get()), "while first articles remain one of them is chosen"); sym_reach("first"); } else { best(f); sym_reach("found"); }
  if (more) for (int i = 0; i < ng; i++) if (g[i].n != g[c].n) { bool turn = false; for (int k = 0; k < ng; k++) if (g[k].n == g[c].n) { int pi = g[i].n->GetPriority(), pk = g[k].n->GetPriority(); turn |= cand(g[k]) & !((g[i].extra & !g[k].extra) | ((g[i].extra == g[k].extra) & ((pi > pk) | ((pi == pk) & (i < k))))); } sym_assert(!elig(g[i]) | turn, "no eligible file of another download had precedence over all of this one's"); } }
EX void h_drain() { // taking articles until none is left hands out every eligible article exactly once
  setup(2); stop = g_WorkState->m_pauseDownload | g_WorkState->m_quotaReached; int n = 0; bool el[16]; for (int i = 0; i < ng; i++) { for (int a = 0; a < 2; a++) g[i].f->GetArticles()->at(a)->m_status = ArticleInfo::aiUndefined; g[i].left = true; el[i] = elig(g[i]); }
  for (;; n++) { FileInfo* f = nullptr; ArticleInfo* a = nullptr; if (!g_QueueCoordinator->GetNextArticle(dq(), f, a)) break; sym_assert(n < 2 * ng, "no article is handed out twice"); if (n >= 2 * ng) return; g_QueueCoordinator->StartArticleDownload(f, a, nullptr); }
  for (int i = 0; i < ng; i++) { bool all = true, none = true; for (auto& a : *g[i].f->GetArticles()) { all &= a->m_status == ArticleInfo::aiRunning; none &= a->m_status == ArticleInfo::aiUndefined; } sym_assert(el[i] ? all : none, "exactly the eligible articles are handed out"); } sym_reach("done"); }
