// TUS queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp util/FileSystem.cpp queue/QueueCoordinator.cpp queue/QueueEditor.cpp nntp/Decoder.cpp main/WorkState.cpp
// QUICK -DMX=15
// THOROUGH -DMX=63
// BOUND health and critical health: every combination of total, repair-file, failed and failed-repair sizes up to $MX units, the unit being 1 byte, 999 bytes or 3 GB
// ENTRY h_health q=60 t=300 reach=done
// ENTRY h_mono q=60 t=300 reach=done
// ENTRY h_crit q=60 t=300 reach=done
// ENTRY h_verdict q=60 t=300 reach=done
// ENTRY h_counts q=60 t=300 reach=done
// BOUND figures from real articles: one data file and one repair file of two articles each, every combination of pending, finished and failed, sizes up to $MX
#include "queue.h"
static NzbInfo* n; static int64_t unit;
// data: bytes of the download itself, good: repair data not failed, pf: failed repair data, lost: failed bytes of the download itself
static int64_t data, good, lost, pf;
static void setup() { queue_init(); n = add_nzb("n"); unit = sym_pick(3, "unit"); unit = unit == 0 ? 1 : unit == 1 ? 999 : 3000000000ll; }
static void put() { n->m_size = (data + good + pf) * unit; n->m_parSize = (good + pf) * unit; n->m_currentFailedSize = (lost + pf) * unit; n->m_parCurrentFailedSize = pf * unit; }
static void any(bool l, bool p) { data = sym_pick(MX + 1, "data"); good = sym_pick(MX + 1, "good"); lost = l ? sym_range(0, data, "lost") : 0; pf = p ? sym_range(0, MX, "parfailed") : 0; }
EX void h_health() {
  setup(); any(true, false); pf = sym_pick(2, "pf") * 7; put(); int h = n->CalcHealth();
  sym_assert((h >= 0) & (h <= 1000), "health lies between 0 and 100.0%");
  sym_assert((h == 1000) == (lost == 0), "health is 100.0% exactly when no data of the download itself has failed");
  // not above the true share of good data (in 1/1000, rounded up to 999 at most) and not more than one step below it
  sym_assert((data == 0) | ((int64_t)h * data <= (data - lost) * 1000), "health does not claim more good data than there is");
  sym_assert((data == 0) | ((int64_t)(h + 1) * data > (data - lost) * 1000) | (h == 999), "health does not claim less good data than there is");
  sym_reach("done");
}
EX void h_mono() { // one more unit of failed data never raises the health, one more unit of failed repair data never lowers the critical health
  setup(); bool par = sym_pick(2, "parfile"); any(!par, par); put(); int h1 = n->CalcHealth(), c1 = n->CalcCriticalHealth(false);
  if (par) { sym_assume(good > 0); good--; pf++; } else { sym_assume(lost < data); lost++; } put();
  int h2 = n->CalcHealth(), c2 = n->CalcCriticalHealth(false);
  sym_assert(h2 <= h1, "the health never rises because more data fails"); sym_assert(c2 >= c1, "the critical health never falls because more data fails"); sym_reach("done");
}
EX void h_crit() {
  setup(); any(false, true); sym_assume(data + good + pf > 0); put(); int c = n->CalcCriticalHealth(false), e = n->CalcCriticalHealth(true); 
  sym_assert((c >= 0) & (c <= 1000), "the critical health lies between 0 and 100.0%");
  sym_assert((e == c) | ((c == 1000) & (good + pf == 0) & (e == 850)), "the estimate is used only where there is no repair data");
  // what must be protected is everything but the usable repair data (failed repair data counts as lost data)
  int64_t prot = data + pf; bool onlyPar = data == 0;
  sym_assert(onlyPar | (prot == 0) | ((c == 0) ? (prot - good) * 1000 < prot : ((int64_t)c * prot <= (prot - good) * 1000) & (((int64_t)(c + 1) * prot > (prot - good) * 1000) | (c == 999))), "the critical health is the share of the data that must be good for the repair data to suffice");
  sym_assert(!((good + pf > 0) & (data > 0)) | (c < 1000), "with repair data the critical health is below 100.0%"); sym_reach("done");
}
EX void h_verdict() { // the two figures together say whether the loss can be repaired
  setup(); any(true, false); put(); int h = n->CalcHealth(), c = n->CalcCriticalHealth(false);
  sym_assert((data == 0) | (lost > good) | (h >= c), "a repairable download is not reported below its critical health");
  sym_assert((data == 0) | (lost * 1000 <= good * 1000 + data) | (h <= c), "an unrepairable download is not reported above its critical health");
  sym_reach("done");
}
EX void h_counts() { // the figures the health is made of, from real articles: every way the articles of one data file and one par file can end
  queue_init(); n = add_nzb("n"); FileInfo* f[2]; const char* nm[2] = {"a.rar", "a.par2"};
  for (int i = 0; i < 2; i++) { f[i] = add_file(n, nm[i], 2, MX); f[i]->SetParFile(i == 1); n->m_fileCount++; n->m_totalArticles += 2; n->m_size += f[i]->GetSize(); n->m_remainingSize += f[i]->GetSize(); if (i) { n->m_parSize += f[i]->GetSize(); n->m_remainingParCount++; } }
  int64_t lost = 0, plost = 0; g_Options->m_healthCheck = Options::hcNone;
  for (int i = 0; i < 2; i++) for (int a = 0; a < 2; a++) { ArticleInfo* ai = f[i]->GetArticles()->at(a).get(); int o = (int)sym_pick(3, "outcome"); if (!o) continue;
    g_QueueCoordinator->StartArticleDownload(f[i], ai, nullptr); ArticleDownloader* d = g_QueueCoordinator->m_activeDownloads.back(); d->m_status = o == 1 ? ArticleDownloader::adFinished : ArticleDownloader::adFailed;
    int64_t sz = ai->GetSize(); g_QueueCoordinator->Update(d, nullptr); if (o == 2) { lost += sz; if (i) plost += sz; } }
  sym_assert(n->GetCurrentFailedSize() == lost, "failed size"); sym_assert(n->GetParCurrentFailedSize() == plost, "failed size of repair files"); sym_assert((n->CalcHealth() == 1000) == (lost == plost), "the health is 100.0% exactly when no data failed"); sym_reach("done");
}
