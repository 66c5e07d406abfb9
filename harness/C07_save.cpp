// TUS queue/DiskState.cpp queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp util/FileSystem.cpp feed/FeedInfo.cpp nntp/NewsServer.cpp nntp/StatMeter.cpp
// QUICK -DL=3
// THOROUGH -DL=5
// BOUND one field at a time takes every value of its type (numbers: all 32 or 64 bits, times up to 2038; texts: every text of up to $L bytes without line ends and texts of 300 and 1000 bytes), all the others have distinct values; two downloads or history entries with two files, two completed files, parameters, script statuses and server statistics each
// ENTRY h_nzb q=100 t=600 reach=queue,progress,history
// ENTRY h_text q=60 t=300 reach=short,long
// ENTRY h_file q=60 t=300 reach=done
// ENTRY h_state q=60 t=300 reach=done
// ENTRY h_dup q=30 t=100 reach=done
// ENTRY h_feed q=30 t=100 reach=done
// ENTRY h_volume q=60 t=300 reach=done
// ENTRY h_servers q=30 t=200 reach=same,matched
// ENTRY h_quick q=30 t=100 reach=done
// ENTRY h_parts q=30 t=100 reach=done
// ENTRY h_log q=30 t=100 reach=done
#include "disk.h"
// numbers kept in the state of a download: field, lowest, highest value
#define INTS(X) X(m_priority, INT32_MIN, INT32_MAX) X(m_feedId, INT32_MIN, INT32_MAX) X(m_fileCount, 0, INT32_MAX) X(m_parkedFileCount, 0, INT32_MAX) X(m_messageCount, 0, INT32_MAX) X(m_minTime, 0, INT32_MAX) X(m_maxTime, 0, INT32_MAX) X(m_extraParBlocks, INT32_MIN, INT32_MAX) X(m_fullContentHash, 0, UINT32_MAX) X(m_filteredContentHash, 0, UINT32_MAX) \
 X(m_size, INT64_MIN, INT64_MAX) X(m_successSize, INT64_MIN, INT64_MAX) X(m_failedSize, INT64_MIN, INT64_MAX) X(m_parSize, INT64_MIN, INT64_MAX) X(m_parSuccessSize, INT64_MIN, INT64_MAX) X(m_parFailedSize, INT64_MIN, INT64_MAX) X(m_totalArticles, 0, INT32_MAX) X(m_successArticles, 0, INT32_MAX) X(m_failedArticles, 0, INT32_MAX) X(m_dupeScore, INT32_MIN, INT32_MAX) X(m_downloadedSize, INT64_MIN, INT64_MAX) X(m_downloadSec, 0, INT32_MAX) X(m_postTotalSec, 0, INT32_MAX) X(m_parSec, 0, INT32_MAX) X(m_repairSec, 0, INT32_MAX) X(m_unpackSec, 0, INT32_MAX) \
 X(m_deletePaused, 0, 1) X(m_manyDupeFiles, 0, 1) X(m_unpackCleanedUpDisk, 0, 1) X(m_healthPaused, 0, 1) X(m_addUrlPaused, 0, 1) X(m_parFull, 0, 1) X(m_parStatus, 0, NzbInfo::psManual) X(m_unpackStatus, 0, NzbInfo::usPassword) X(m_moveStatus, 0, NzbInfo::msSuccess) X(m_parRenameStatus, 0, NzbInfo::rsSuccess) X(m_rarRenameStatus, 0, NzbInfo::rsSuccess) X(m_directRenameStatus, 0, NzbInfo::tsSuccess) X(m_deleteStatus, 0, NzbInfo::dsCopy) X(m_markStatus, 0, NzbInfo::ksSuccess) X(m_dupeMode, 0, dmForce) X(m_dupeHint, 0, NzbInfo::dhRedownloadAuto)
#define TEXTS(X) X(m_url) X(m_filename) X(m_destDir) X(m_finalDir) X(m_queuedFilename) X(m_name) X(m_category) X(m_dupeKey)
enum { F0 = -1,
#define X(f, a, b) N_##f,
INTS(X)
#undef X
NINTS };
static std::unique_ptr<NzbInfo> nzb(int id, const char* name, int seed) { auto n = std::make_unique<NzbInfo>(); n->SetId(id); BString<100> t; int k = seed;
#define X(f, a, b) { k++; n->f = (decltype(n->f))((b) <= 20 ? ((k >> 1) & 1) : (int64_t)(b) > UINT32_MAX ? (int64_t)k * 10000000001ll : k); }
  INTS(X)
#undef X
#define X(f) t.Format("%s" #f "%i", name, k++); n->f = *t;
  TEXTS(X)
#undef X
  n->EnterPostProcess(); n->GetPostInfo()->SetStage((PostInfo::EStage)(seed % 7)); n->GetPostInfo()->SetForceParFull(seed & 1); n->GetPostInfo()->SetForceRepair(!(seed & 1));
  n->GetParameters()->SetParameter("p:1", "v=1"); n->GetParameters()->SetParameter("p 2", "x,y"); n->GetScriptStatuses()->emplace_back("s,1.sh", ScriptStatus::srSuccess); n->GetScriptStatuses()->emplace_back("s2", ScriptStatus::srFailure);
  n->GetCompletedFiles()->emplace_back(seed + 50, "c,1", "old,1", CompletedFile::cfPartial, 4000000000u, true, "hash", "set"); n->GetCompletedFiles()->emplace_back(seed + 51, "c2", nullptr, CompletedFile::cfSuccess, 7, false, nullptr, nullptr);
  n->GetServerStats()->StatOp(1, 5 + seed, 6 + seed, ServerStatList::soSet); n->GetServerStats()->StatOp(2, 7, 8, ServerStatList::soSet);
  FileInfo* f = file(n.get(), seed + 100, seed); f->SetPaused(true); f = file(n.get(), seed + 101, seed + 1); f->SetExtraPriority(true); return n; }
static void equal(NzbInfo* a, NzbInfo* b, bool hist) {
  sym_assert(a->GetId() == b->GetId(), "id"); sym_assert(a->GetKind() == b->GetKind(), "kind");
#define X(f, lo, hi) sym_assert(a->f == b->f, #f " is restored");
  INTS(X)
#undef X
#define X(f) sym_assert(same(a->f, b->f), #f " is restored");
  TEXTS(X)
#undef X
  sym_assert((b->m_currentSuccessSize == a->m_successSize) & (b->m_currentFailedSize == a->m_failedSize) & (b->m_parCurrentSuccessSize == a->m_parSuccessSize) & (b->m_parCurrentFailedSize == a->m_parFailedSize) & (b->m_currentSuccessArticles == a->m_successArticles) & (b->m_currentFailedArticles == a->m_failedArticles), "the current figures follow");
  if (a->GetKind() == NzbInfo::nkNzb || a->GetUrlStatus() >= NzbInfo::lsFailed) sym_assert(a->GetUrlStatus() == b->GetUrlStatus(), "url status is restored");
  if (hist && a->GetKind() == NzbInfo::nkNzb) sym_assert(!b->GetPostInfo(), "nothing in the history is in post-processing"); else if (a->GetPostInfo()) { sym_assert(b->GetPostInfo() != nullptr, "post-processing is restored"); if (b->GetPostInfo()) { sym_assert(a->GetPostInfo()->GetStage() == b->GetPostInfo()->GetStage(), "post-processing stage is restored"); sym_assert(a->GetPostInfo()->GetForceParFull() == b->GetPostInfo()->GetForceParFull() && a->GetPostInfo()->GetForceRepair() == b->GetPostInfo()->GetForceRepair(), "post-processing flags are restored"); } } else sym_assert(!b->GetPostInfo(), "nothing else is in post-processing");
  sym_assert(a->GetParameters()->size() == b->GetParameters()->size(), "number of parameters"); for (NzbParameter& p : *a->GetParameters()) { NzbParameter* q = b->GetParameters()->Find(p.GetName()); sym_assert(q && same(p.GetValue(), q->GetValue()), "parameter is restored"); }
  sym_assert(a->GetScriptStatuses()->size() == b->GetScriptStatuses()->size(), "number of script statuses"); for (size_t i = 0; i < a->GetScriptStatuses()->size() && i < b->GetScriptStatuses()->size(); i++) sym_assert(a->GetScriptStatuses()->at(i).GetStatus() == b->GetScriptStatuses()->at(i).GetStatus() && same(a->GetScriptStatuses()->at(i).GetName(), b->GetScriptStatuses()->at(i).GetName()), "script status is restored");
  sym_assert(a->GetCompletedFiles()->size() == b->GetCompletedFiles()->size(), "number of completed files"); for (size_t i = 0; i < a->GetCompletedFiles()->size() && i < b->GetCompletedFiles()->size(); i++) { CompletedFile &c = a->GetCompletedFiles()->at(i), &d = b->GetCompletedFiles()->at(i); sym_assert(c.GetId() == d.GetId() && c.GetStatus() == d.GetStatus() && c.GetCrc() == d.GetCrc() && c.GetParFile() == d.GetParFile(), "completed file is restored"); sym_assert(same(c.GetFilename(), d.GetFilename()) && same(c.GetOrigname(), d.GetOrigname()) && same(c.GetHash16k(), d.GetHash16k()) && same(c.GetParSetId(), d.GetParSetId()), "texts of the completed file are restored"); }
  sym_assert(a->GetServerStats()->size() == b->GetServerStats()->size(), "number of server statistics"); for (size_t i = 0; i < a->GetServerStats()->size() && i < b->GetServerStats()->size(); i++) { ServerStat &c = a->GetServerStats()->at(i), &d = b->GetServerStats()->at(i); sym_assert(c.GetServerId() == d.GetServerId() && c.GetSuccessArticles() == d.GetSuccessArticles() && c.GetFailedArticles() == d.GetFailedArticles(), "server statistics are restored"); }
  size_t k = 0; for (std::unique_ptr<FileInfo>& f : *a->GetFileList()) if (!f->GetDeleted()) { sym_assert(k < b->GetFileList()->size(), "no file is lost"); if (k >= b->GetFileList()->size()) return; FileInfo* g = b->GetFileList()->at(k).get(); k++; sym_assert(f->GetId() == g->GetId() && f->GetPaused() == g->GetPaused() && f->GetExtraPriority() == g->GetExtraPriority() && g->GetNzbInfo() == b, "file is restored"); if (hist) continue; sym_assert(same(f->GetFilename(), g->GetFilename()) && f->GetSize() == g->GetSize() && f->GetRemainingSize() == g->GetRemainingSize(), "file data are restored"); } sym_assert(k == b->GetFileList()->size(), "no file is added"); }
static bool toHist, prog; static TQ *q1, *q2; static NzbInfo* v;
static void setup() { disk_init(); q1 = new TQ; q2 = new TQ; add_server(1, 1, "s1", "h1", 1, ""); add_server(2, 2, "s2", "h2", 2, ""); int w = sym_pick(3, "where"); toHist = w == 2; prog = w == 1; auto a = nzb(3, "a", 10), b = nzb(9, "b", 200); v = sym_pick(2, "which") ? b.get() : a.get();
  if (toHist) { a->m_postInfo.reset(); auto h = std::make_unique<HistoryInfo>(std::move(a)); h->SetTime(77); q1->GetHistory()->Add(std::move(h), false); h = std::make_unique<HistoryInfo>(std::move(b)); h->SetTime(88); q1->GetHistory()->Add(std::move(h), false); } else { q1->GetQueue()->Add(std::move(a)); q1->GetQueue()->Add(std::move(b)); for (std::unique_ptr<NzbInfo>& n : *q1->GetQueue()) for (std::unique_ptr<FileInfo>& f : *n->GetFileList()) ds->SaveFile(f.get()); }
  if (prog) { sym_assert(ds->SaveDownloadQueue(q1, true), "saved"); v->SetChanged(true); } }
static void reload() { if (prog) sym_assert(ds->SaveDownloadProgress(q1), "saved"); else sym_assert(ds->SaveDownloadQueue(q1, true), "saved"); sym_assert(ds->LoadDownloadQueue(q2, sv), "what was saved can be loaded"); sym_assert(env_open_files() == 0, "no file is left open");
  sym_assert(q1->GetQueue()->size() == q2->GetQueue()->size() && q1->GetHistory()->size() == q2->GetHistory()->size(), "nothing is lost or added"); if (q1->GetQueue()->size() != q2->GetQueue()->size() || q1->GetHistory()->size() != q2->GetHistory()->size()) return;
  for (size_t i = 0; i < q1->GetQueue()->size(); i++) equal(q1->GetQueue()->at(i).get(), q2->GetQueue()->at(i).get(), false);
  for (size_t i = 0; i < q1->GetHistory()->size(); i++) { HistoryInfo *h = q1->GetHistory()->at(i).get(), *g = q2->GetHistory()->at(i).get(); sym_assert(h->GetKind() == g->GetKind() && h->GetTime() == g->GetTime() && h->GetId() == g->GetId(), "history entry is restored"); if (h->GetKind() == g->GetKind()) equal(h->GetNzbInfo(), g->GetNzbInfo(), true); }
  // identifiers given out after a restart are new
  NzbInfo* x = new NzbInfo; FileInfo* y = new FileInfo; for (std::unique_ptr<NzbInfo>& n : *q2->GetQueue()) { sym_assert(n->GetId() < x->GetId(), "new downloads get new ids"); for (std::unique_ptr<FileInfo>& f : *n->GetFileList()) sym_assert(f->GetId() < y->GetId(), "new files get new ids"); for (CompletedFile& c : *n->GetCompletedFiles()) sym_assert(c.GetId() < y->GetId(), "new files get ids not used for completed ones"); }
  for (std::unique_ptr<HistoryInfo>& h : *q2->GetHistory()) sym_assert(h->GetId() < x->GetId(), "new downloads get ids not used in the history");
  sym_reach(prog ? "progress" : toHist ? "history" : "queue"); }
EX void h_nzb() { setup(); int p = (int)sym_pick(NINTS + 9, "field"); switch (p) {
#define X(f, a, b) case N_##f: v->f = (decltype(v->f))((a) < 0 && (b) > UINT32_MAX ? (int64_t)sym_range(0, UINT64_MAX, #f) : sym_irange(a, b, #f)); break;
  INTS(X)
#undef X
  case NINTS: v->SetKind(NzbInfo::nkUrl); v->m_urlStatus = (NzbInfo::EUrlStatus)sym_range(0, NzbInfo::lsScanFailed, "url status"); v->m_postInfo.reset(); if (toHist) for (std::unique_ptr<HistoryInfo>& h : *q1->GetHistory()) if (h->m_info == v) h->m_kind = HistoryInfo::hkUrl; break;
  case NINTS + 1: v->m_urlStatus = (NzbInfo::EUrlStatus)sym_range(0, NzbInfo::lsScanFailed, "url status"); break;
  case NINTS + 2: if (v->GetPostInfo()) { v->GetPostInfo()->SetStage((PostInfo::EStage)sym_range(0, PostInfo::ptFinished, "stage")); v->GetPostInfo()->SetForceParFull(sym_bool("full")); v->GetPostInfo()->SetForceRepair(sym_bool("repair")); } break;
  case NINTS + 3: v->GetCompletedFiles()->at(sym_pick(2, "file")) = CompletedFile((int)sym_range(1, INT32_MAX - 1, "id"), "c", "o", (CompletedFile::EStatus)sym_range(0, 3, "status"), 5, sym_bool("par"), "h", "p"); break;
  case NINTS + 4: v->GetCompletedFiles()->at(sym_pick(2, "file")).m_crc = (uint32)sym_range(0, UINT32_MAX, "crc"); break;
  case NINTS + 5: v->GetServerStats()->at(1).m_successArticles = (int)sym_range(0, INT32_MAX, "articles"); break;
  case NINTS + 6: v->GetServerStats()->at(0).m_failedArticles = (int)sym_range(0, INT32_MAX, "articles"); v->GetScriptStatuses()->at(0).m_status = (ScriptStatus::EStatus)sym_range(0, 2, "script status"); break;
  case NINTS + 7: { FileInfo* f = v->GetFileList()->at(sym_pick(2, "file")).get(); f->m_paused = sym_bool("paused"); f->m_extraPriority = sym_bool("extra"); if (sym_pick(2, "deleted")) f->SetDeleted(true); if (sym_pick(2, "none left")) for (std::unique_ptr<FileInfo>& g : *v->GetFileList()) g->SetDeleted(true); break; }
  case NINTS + 8: if (sym_pick(2, "empty")) { v->GetCompletedFiles()->clear(); v->GetParameters()->clear(); v->GetScriptStatuses()->clear(); v->GetServerStats()->clear(); } else { v->m_postInfo.reset(); v->SetId((int)sym_range(10, INT32_MAX - 1, "id")); } if (prog) { ds->SaveDownloadQueue(q1, true); } break; }
  reload(); }
static char tx[1100]; static const char* text(const char* no, const char* label, int max = L) { int k = (int)sym_pick(L + 3, "length"); if (k > max && k <= L) k = 0; int n = k <= L ? k : k == L + 1 ? 300 : 1000; int m = k > L && max < L ? 0 : n < max ? n : max; memset(tx, 'x', sizeof tx); sym_bytes(tx, m, label); for (int i = 0; i < m; i++) { char c = tx[i]; bool ok = (c != 0) & (c != '\n'); for (const char* x = no; *x; x++) ok &= c != *x; sym_assume(ok); } tx[n] = 0; sym_reach(k <= L ? "short" : "long"); return tx; }
enum { T0 = -1,
#define X(f) T_##f,
TEXTS(X)
#undef X
};
EX void h_text() { setup(); switch (sym_pick(15, "text")) {
#define X(f) case T_##f: { const char* t = text("", #f, T_##f == T_m_url || T_##f == T_m_filename ? L - 1 : L); if (!*t && !strcmp(#f, "m_name")) return; v->f = t; break; }
  TEXTS(X)
  case 8: { v->GetParameters()->clear(); v->GetParameters()->SetParameter("n", text("", "value")); if (prog) v->GetParameters()->SetParameter("n2", "y"); break; }
  case 9: { const char* t = text("=", "parameter name"); if (!*t) return; v->GetParameters()->SetParameter(t, "value"); break; }
  case 10: v->GetCompletedFiles()->at(0).SetFilename(text("", "file")); break;
  case 11: v->GetCompletedFiles()->at(1).SetOrigname(text("", "file")); break;
  case 12: v->GetCompletedFiles()->at(0).SetHash16k(text(",", "hash")); break;
  case 13: v->GetCompletedFiles()->at(1).SetParSetId(text(",", "set")); break;
  case 14: v->GetScriptStatuses()->emplace_back(text("", "script"), ScriptStatus::srSuccess); break; }
  reload(); }
#undef X
EX void h_file() { disk_init(); auto n = std::make_unique<NzbInfo>(); FileInfo *f = file(n.get(), 20, 1), g(20), h(20); ArticleInfo* a = f->GetArticles()->at(1).get();
  switch (sym_pick(16, "field")) { case 0: f->SetSubject(text("", "subject")); break; case 1: f->SetFilename(text("", "name")); break; case 2: f->SetOrigname(text("", "origname")); break; case 3: f->GetGroups()->at(sym_pick(2, "group")) = text("", "group"); break; case 4: a->SetMessageId(text("", "message id")); break;
    case 5: f->SetFilenameConfirmed(sym_bool("confirmed")); f->SetParFile(sym_bool("par")); break; case 6: f->SetTime(sym_range(0, INT32_MAX, "time")); break; case 7: f->SetSize((int64)sym_range(0, UINT64_MAX, "size")); f->SetRemainingSize(f->GetSize() - f->GetMissedSize()); break; case 8: f->SetMissedSize((int64)sym_range(0, UINT64_MAX, "size")); f->SetRemainingSize(f->GetSize() - f->GetMissedSize()); break;
    case 9: f->SetTotalArticles((int)sym_range(0, INT32_MAX, "total")); break; case 10: f->SetMissedArticles((int)sym_range(0, INT32_MAX, "missed")); break; case 11: a->SetPartNumber((int)sym_irange(INT32_MIN, INT32_MAX, "part")); break; case 12: a->SetSize((int)sym_irange(INT32_MIN, INT32_MAX, "size")); break; case 13: f->GetArticles()->clear(); break; case 14: f->GetGroups()->clear(); break; case 15: f->SetOrigname(nullptr); break; }
  sym_assert(ds->SaveFile(f), "saved"); sym_assert(ds->LoadFile(&g, true, true), "what was saved can be loaded"); sym_assert(ds->LoadFile(&h, true, false) && ds->LoadArticles(&h), "articles can be loaded later"); sym_assert(env_open_files() == 0, "no file is left open");
  for (FileInfo* x : {&g, &h}) { sym_assert(same(f->GetSubject(), x->GetSubject()) && same(f->GetFilename(), x->GetFilename()) && same(f->GetOrigname(), x->GetOrigname()), "texts are restored"); sym_assert(f->GetFilenameConfirmed() == x->GetFilenameConfirmed() && f->GetTime() == x->GetTime() && f->GetParFile() == x->GetParFile(), "flags and time are restored"); sym_assert((f->GetSize() == x->GetSize()) & (f->GetMissedSize() == x->GetMissedSize()) & (f->GetRemainingSize() == x->GetRemainingSize()), "sizes are restored"); sym_assert((f->GetTotalArticles() == x->GetTotalArticles()) & (f->GetMissedArticles() == x->GetMissedArticles()), "article counts are restored");
    sym_assert(f->GetGroups()->size() == x->GetGroups()->size() && f->GetArticles()->size() == x->GetArticles()->size(), "all groups and articles are restored"); for (size_t i = 0; i < f->GetGroups()->size() && i < x->GetGroups()->size(); i++) sym_assert(same(f->GetGroups()->at(i), x->GetGroups()->at(i)), "group is restored");
    for (size_t i = 0; i < f->GetArticles()->size() && i < x->GetArticles()->size(); i++) { ArticleInfo *p = f->GetArticles()->at(i).get(), *q = x->GetArticles()->at(i).get(); sym_assert((p->GetPartNumber() == q->GetPartNumber()) & (p->GetSize() == q->GetSize()) & same(p->GetMessageId(), q->GetMessageId()) & (q->GetStatus() == ArticleInfo::aiUndefined), "article is restored"); } } sym_reach("done"); }
EX void h_state() { disk_init(); add_server(1, 1, "s1", "h1", 1, ""); add_server(2, 2, "s2", "h2", 2, ""); auto n = std::make_unique<NzbInfo>(), m = std::make_unique<NzbInfo>(); FileInfo *f = file(n.get(), 20, 1), *g = file(m.get(), 20, 1); bool completed = sym_pick(2, "completed"), fresh = sym_pick(2, "articles not loaded"); if (fresh) g->GetArticles()->clear();
  f->SetSuccessArticles(1); f->SetFailedArticles(2); f->SetSuccessSize(30); f->SetFailedSize(40); f->SetHash16k("aa"); f->SetParSetId("bb"); f->GetServerStats()->StatOp(1, 3, 4, ServerStatList::soSet); f->GetServerStats()->StatOp(2, 5, 6, ServerStatList::soSet); for (int i = 0; i < 2; i++) { ArticleInfo* a = f->GetArticles()->at(i).get(); a->SetStatus(i ? ArticleInfo::aiUndefined : ArticleInfo::aiFinished); a->SetSegmentOffset(1000 * i); a->SetSegmentSize(999 + i); a->SetCrc(77 + i); }
  ArticleInfo* a = f->GetArticles()->at(sym_pick(2, "article")).get(); g_Options->m_directWrite = sym_pick(2, "direct write");
  switch (sym_pick(14, "field")) { case 0: f->SetSuccessArticles((int)sym_range(0, INT32_MAX, "success")); break; case 1: f->SetFailedArticles((int)sym_range(0, INT32_MAX, "failed")); break; case 2: f->SetRemainingSize((int64)sym_range(0, UINT64_MAX, "size")); break; case 3: f->SetSuccessSize((int64)sym_range(0, UINT64_MAX, "size")); break; case 4: f->SetFailedSize((int64)sym_range(0, UINT64_MAX, "size")); break; case 5: f->SetFilename(text("", "name")); break; case 6: f->SetHash16k(text("", "hash")); break; case 7: f->SetParSetId(text("", "set")); break; case 8: f->SetParFile(sym_bool("par")); break;
    case 9: for (int i = 0; i < 2; i++) f->GetArticles()->at(i)->SetStatus((ArticleInfo::EStatus)sym_range(0, 3, "status")); break; case 10: a->SetSegmentOffset((int64)sym_range(0, INT64_MAX, "offset")); break; case 11: a->SetSegmentSize((int)sym_range(0, INT32_MAX, "size")); break; case 12: a->SetCrc((uint32)sym_range(0, UINT32_MAX, "crc")); break; case 13: f->GetServerStats()->at(1).m_successArticles = (int)sym_range(0, INT32_MAX, "articles"); break; }
  sym_assert(ds->SaveFileState(f, completed), "saved"); sym_assert(ds->LoadFileState(g, sv, completed), "what was saved can be loaded"); sym_assert(env_open_files() == 0, "no file is left open");
  sym_assert((f->GetSuccessArticles() == g->GetSuccessArticles()) & (f->GetFailedArticles() == g->GetFailedArticles()) & (f->GetRemainingSize() == g->GetRemainingSize()) & (f->GetSuccessSize() == g->GetSuccessSize()) & (f->GetFailedSize() == g->GetFailedSize()), "figures are restored"); sym_assert(same(f->GetFilename(), g->GetFilename()) && same(f->GetHash16k(), g->GetHash16k()) && same(f->GetParSetId(), g->GetParSetId()) && f->GetParFile() == g->GetParFile(), "names are restored");
  for (int i = 0; i < 2; i++) { ServerStat &c = f->GetServerStats()->at(i), &d = g->GetServerStats()->at(i); sym_assert((c.GetServerId() == d.GetServerId()) & (c.GetSuccessArticles() == d.GetSuccessArticles()) & (c.GetFailedArticles() == d.GetFailedArticles()), "server statistics are restored"); }
  sym_assert(g->GetArticles()->size() == 2, "all articles"); int done = 0; for (int i = 0; i < 2; i++) { ArticleInfo *p = f->GetArticles()->at(i).get(), *r = g->GetArticles()->at(i).get(); int s = p->GetStatus(); s = sym_ite(s == ArticleInfo::aiRunning, ArticleInfo::aiUndefined, s); if (i == 1 && !completed) s = sym_ite(done == 1, ArticleInfo::aiUndefined, s); done += s != ArticleInfo::aiUndefined;
    sym_assert(r->GetStatus() == s, "the state of an article is restored; what was running is pending; not all are done"); sym_assert((p->GetSegmentOffset() == r->GetSegmentOffset()) & (p->GetSegmentSize() == r->GetSegmentSize()) & (p->GetCrc() == r->GetCrc()), "place, size and checksum of an article are restored"); if (!g_Options->m_directWrite && s == ArticleInfo::aiFinished) sym_assert(!fresh ? same(r->GetResultFilename(), i ? "/t/20.002" : "/t/20.001") : r->GetResultFilename() != nullptr, "its part file is known"); }
  sym_assert(g->GetCompletedArticles() == done, "number of completed articles"); sym_reach("done"); }
EX void h_dup() { disk_init(); q1 = new TQ; q2 = new TQ; auto d = std::make_unique<DupInfo>(); d->SetId(5); d->SetName("n"); d->SetDupeKey("k"); d->SetDupeScore(3); d->SetSize(4); d->SetFullContentHash(5); d->SetFilteredContentHash(6); DupInfo* p = d.get(); time_t t = 99;
  switch (sym_pick(9, "field")) { case 0: d->SetName(text("", "name")); break; case 1: d->SetDupeKey(text("", "key")); break; case 2: d->SetDupeScore((int)sym_irange(INT32_MIN, INT32_MAX, "score")); break; case 3: d->SetSize((int64)sym_range(0, UINT64_MAX, "size")); break; case 4: d->SetFullContentHash((uint32)sym_range(0, UINT32_MAX, "hash")); break; case 5: d->SetFilteredContentHash((uint32)sym_range(0, UINT32_MAX, "hash")); break; case 6: d->SetDupeMode((EDupeMode)sym_range(0, dmForce, "mode")); d->SetStatus((DupInfo::EStatus)sym_range(0, DupInfo::dsGood, "status")); break; case 7: t = sym_range(0, INT32_MAX, "time"); break; case 8: d->SetId((int)sym_range(1, INT32_MAX - 1, "id")); break; }
  auto h = std::make_unique<HistoryInfo>(std::move(d)); h->SetTime(t); q1->GetHistory()->Add(std::move(h), false); sym_assert(ds->SaveDownloadQueue(q1, true) && ds->LoadDownloadQueue(q2, sv), "what was saved can be loaded"); sym_assert(q2->GetHistory()->size() == 1 && q2->GetHistory()->at(0)->GetKind() == HistoryInfo::hkDup, "the entry is there"); DupInfo* r = q2->GetHistory()->at(0)->GetDupInfo();
  sym_assert((p->GetId() == r->GetId()) & same(p->GetName(), r->GetName()) & same(p->GetDupeKey(), r->GetDupeKey()) & (p->GetDupeScore() == r->GetDupeScore()) & (p->GetDupeMode() == r->GetDupeMode()) & (p->GetStatus() == r->GetStatus()) & (p->GetSize() == r->GetSize()) & (p->GetFullContentHash() == r->GetFullContentHash()) & (p->GetFilteredContentHash() == r->GetFilteredContentHash()) & (q2->GetHistory()->at(0)->GetTime() == t), "a hidden duplicate is restored"); sym_reach("done"); }
EX void h_feed() { disk_init(); Feeds a, b; FeedHistory h, k; const char* u1 = "http://a"; int which = sym_pick(6, "field"); char ub[1100]; if (which == 0) { strcpy(ub, text("", "url")); u1 = ub; } for (Feeds* f : {&a, &b}) { f->push_back(std::make_unique<FeedInfo>(1, "f1", u1, false, 5, "filter1", false, "", 0, "")); f->push_back(std::make_unique<FeedInfo>(2, "f2", "http://b", false, 5, "filter2", false, "", 0, "")); }
  a[0]->SetLastUpdate(100); a[1]->SetLastUpdate(200); if (which == 1) a[sym_pick(2, "feed")]->SetLastUpdate((time_t)sym_range(0, INT32_MAX, "time")); if (which == 2) a[1]->m_filterHash = b[1]->m_filterHash = (uint32)sym_range(0, UINT32_MAX, "filter"); const char* u2 = which == 3 ? text("", "url") : "http://i"; time_t seen = which == 4 ? (time_t)sym_range(0, INT32_MAX, "seen") : 300; int st = which == 5 ? (int)sym_range(0, FeedHistoryInfo::hsFetched, "status") : 1; h.emplace_back(u2, (FeedHistoryInfo::EStatus)st, seen); h.emplace_back("x", FeedHistoryInfo::hsFetched, 400);
  bool clash = which == 0 && same(u1, "http://b") && a[0]->m_filterHash == a[1]->m_filterHash; sym_assume(!clash); sym_assert(ds->SaveFeeds(&a, &h) && ds->LoadFeeds(&b, &k), "what was saved can be loaded"); sym_assert(env_open_files() == 0, "no file is left open"); for (int i = 0; i < 2; i++) sym_assert(a[i]->GetLastUpdate() == b[i]->GetLastUpdate(), "time of the last update is restored");
  sym_assert(k.size() == 2, "feed history is restored"); for (int i = 0; i < 2; i++) sym_assert(same(h[i].GetUrl(), k[i].GetUrl()) & (h[i].GetStatus() == k[i].GetStatus()) & (h[i].GetLastSeen() == k[i].GetLastSeen()), "feed history entry is restored"); sym_reach("done"); }
EX void h_volume() { disk_init(); add_server(1, 0, "s1", "h1", 1, "u1"); add_server(2, 0, "s2", "h2", 2, "u2"); ServerVolumes a(3), b(3); for (int i = 0; i < 3; i++) { ServerVolume& s = a[i]; s.SetFirstDay(16000 + i); s.SetDataTime(1000 + i); s.SetCustomTime(2000 + i); s.SetTotalBytes(3000 + i); s.SetCustomBytes(4000 + i); s.BytesPerDays()->resize(2 + i); b[i].BytesPerDays()->resize(5 * i); for (int k = 0; k < 4; k++) { ServerVolume::VolumeArray* v[] = {s.BytesPerSeconds(), s.BytesPerMinutes(), s.BytesPerHours(), s.BytesPerDays()}; for (size_t j = 0; j < v[k]->size(); j++) (*v[k])[j] = 10000 * i + 1000 * k + j; } }
  ServerVolume& s = a[sym_pick(3, "server")]; switch (sym_pick(9, "field")) { case 0: s.SetFirstDay((int)sym_irange(INT32_MIN, INT32_MAX, "day")); break; case 1: s.SetDataTime(sym_range(0, INT32_MAX, "time")); break; case 2: s.SetCustomTime(sym_range(0, INT32_MAX, "time")); break; case 3: s.SetTotalBytes((int64)sym_range(0, UINT64_MAX, "bytes")); break; case 4: s.SetCustomBytes((int64)sym_range(0, UINT64_MAX, "bytes")); break; case 5: (*s.BytesPerSeconds())[59] = (int64)sym_range(0, UINT64_MAX, "bytes"); break; case 6: (*s.BytesPerMinutes())[0] = (int64)sym_range(0, UINT64_MAX, "bytes"); break; case 7: (*s.BytesPerHours())[23] = (int64)sym_range(0, UINT64_MAX, "bytes"); break; case 8: (*s.BytesPerDays())[1] = (int64)sym_range(0, UINT64_MAX, "bytes"); break; }
  bool perfect = false; sym_assert(ds->SaveStats(sv, &a) && ds->LoadStats(sv, &b, &perfect) && perfect, "what was saved can be loaded"); sym_assert(env_open_files() == 0, "no file is left open");
  for (int i = 0; i < 3; i++) { ServerVolume &x = a[i], &y = b[i]; sym_assert((x.GetFirstDay() == y.GetFirstDay()) & (x.GetDataTime() == y.GetDataTime()) & (x.GetCustomTime() == y.GetCustomTime()) & (x.GetTotalBytes() == y.GetTotalBytes()) & (x.GetCustomBytes() == y.GetCustomBytes()), "totals are restored"); bool ok = (*x.BytesPerSeconds() == *y.BytesPerSeconds()) & (*x.BytesPerMinutes() == *y.BytesPerMinutes()) & (*x.BytesPerHours() == *y.BytesPerHours()) & (*x.BytesPerDays() == *y.BytesPerDays()); sym_assert(ok, "figures per time are restored"); } sym_reach("done"); }
// servers may be renamed or reordered in the configuration: statistics stay with the same host
EX void h_servers() { disk_init(); static char nm[2][2], ho[2][2], us[2][2]; int po[2]; bool swap = sym_pick(2, "reordered"); for (int i = 0; i < 2; i++) { nm[i][0] = 'a' + (int)sym_range(0, 1, "name"); ho[i][0] = 'h' + (int)sym_range(0, 1, "host"); us[i][0] = 'u' + (int)sym_range(0, 1, "user"); po[i] = (int)sym_range(119, 120, "port"); }
  bool dist = (nm[0][0] != nm[1][0]) | (ho[0][0] != ho[1][0]) | (us[0][0] != us[1][0]) | (po[0] != po[1]); sym_assume(dist); for (int i = 0; i < 2; i++) add_server(i + 1, 0, nm[i], ho[i], po[i], us[i]); ServerVolumes a(3), b(3); for (int i = 0; i < 3; i++) a[i].SetTotalBytes(100 + i); sym_assert(ds->SaveStats(sv, &a), "saved");
  Servers* old = sv; sv = new Servers; bool rename = sym_pick(2, "renamed"); for (int i = 0; i < 2; i++) { int k = swap ? 1 - i : i; add_server(i + 1, 0, rename ? (i ? "y" : "x") : nm[k], ho[k], po[k], us[k]); } bool perfect = false; sym_assert(ds->LoadStats(sv, &b, &perfect), "loaded"); sym_assert(perfect == !rename, "changed servers are noticed");
  sym_assert(b[0].GetTotalBytes() == 100, "overall figures"); bool cmp = !rename | (ho[0][0] != ho[1][0]); for (int i = 0; i < 2; i++) { int k = swap ? 1 - i : i; sym_assert(!cmp | (b[i + 1].GetTotalBytes() == 101 + k), "a server keeps its figures when moved or renamed"); } sym_reach(rename ? "matched" : "same"); (void)old; }
EX void h_quick() { disk_init(); q1 = new TQ; q2 = new TQ; auto a = nzb(3, "a", 10), b = nzb(9, "b", 200); FileInfo* f = (sym_pick(2, "which") ? a : b)->GetFileList()->at(sym_pick(2, "file")).get(); q1->GetQueue()->Add(std::move(a)); q1->GetQueue()->Add(std::move(b)); add_server(1, 1, "s1", "h1", 1, ""); add_server(2, 2, "s2", "h2", 2, "");
  int lost = sym_pick(2, "file infos missing"); switch (sym_pick(5, "field")) { case 0: f->SetSubject(text("", "subject")); break; case 1: f->SetFilename(text("", "name")); break; case 2: f->SetSize((int64)sym_range(0, UINT64_MAX, "size")); f->SetRemainingSize(f->GetSize() - f->GetMissedSize()); break; case 3: f->SetTime((int)sym_range(0, INT32_MAX, "time")); break; case 4: f->GetGroups()->at(0) = text("", "group"); break; }
  if (!lost) for (std::unique_ptr<NzbInfo>& n : *q1->GetQueue()) for (std::unique_ptr<FileInfo>& x : *n->GetFileList()) ds->SaveFile(x.get()); ds->SaveDownloadQueue(q1, true); sym_assert(ds->SaveAllFileInfos(q1), "saved"); sym_assert(ds->LoadDownloadQueue(q2, sv), "loaded"); sym_assert(env_open_files() == 0, "no file is left open");
  for (int i = 0; i < 2; i++) { NzbInfo *x = q1->GetQueue()->at(i).get(), *y = q2->GetQueue()->at(i).get(); sym_assert(y->GetFileList()->size() == 2, "no file is lost"); if (y->GetFileList()->size() == 2) for (int k = 0; k < 2; k++) { FileInfo *g = x->GetFileList()->at(k).get(), *h = y->GetFileList()->at(k).get(); sym_assert(same(g->GetSubject(), h->GetSubject()) && same(g->GetFilename(), h->GetFilename()) && g->GetSize() == h->GetSize() && g->GetRemainingSize() == h->GetRemainingSize() && g->GetTime() == h->GetTime() && g->GetGroups()->size() == h->GetGroups()->size() && same(g->GetGroups()->at(0), h->GetGroups()->at(0)), "quickly loaded data of the files are right"); } } sym_reach("done"); }
// partially downloaded files continue after a restart, orphaned state files go, those in use stay
EX void h_parts() { disk_init(); q1 = new TQ; q2 = new TQ; add_server(1, 1, "s1", "h1", 1, ""); add_server(2, 2, "s2", "h2", 2, ""); auto a = nzb(3, "a", 10); NzbInfo* n = a.get(); q1->GetQueue()->Add(std::move(a)); FileInfo* f = n->GetFileList()->at(sym_pick(2, "file")).get(); for (std::unique_ptr<FileInfo>& x : *n->GetFileList()) ds->SaveFile(x.get());
  bool done = sym_pick(2, "completed"), cache = sym_pick(2, "cache was in use"), cont = sym_pick(2, "continue partial"); g_Options->m_continuePartial = cont; f->SetSuccessSize((int64)sym_range(0, 9999, "success")); f->SetSuccessArticles(1); f->GetArticles()->at(0)->SetStatus(ArticleInfo::aiFinished); sym_assert(ds->SaveFileState(f, done), "saved"); if (cache) ds->WriteCacheFlag(); env_put("/q/77", "x", 1); env_put("/q/77s", "x", 1); env_put("/q/n77.log", "x", 1); env_put("/q/n3.log", "x", 1); env_put("/q/other", "x", 1); env_put("/t/77.001", "x", 1); BString<100> part("/t/%i.002", f->GetId()); env_put(part, "x", 1); env_put("/t/1.tmp", "x", 1); env_put("/t/mine", "x", 1);
  sym_assert(ds->SaveDownloadQueue(q1, true) && ds->LoadDownloadQueue(q2, sv), "loaded"); FileInfo* g = q2->GetQueue()->at(0)->GetFileList()->Find(f->GetId()); sym_assert(g != nullptr, "file"); bool use = done || (cont && !cache); sym_assert(g->GetPartialState() == (done ? FileInfo::psCompleted : use ? FileInfo::psPartial : FileInfo::psNone), "the partial state is used exactly when it may be"); sym_assert(g->GetSuccessSize() == (use ? f->GetSuccessSize() : 0), "figures are those of the partial state"); sym_assert(q2->GetQueue()->at(0)->GetFileList()->size() == 2, "no file is lost");
  sym_assert(!env_exists("/q/77") && !env_exists("/q/77s") && !env_exists("/q/n77.log"), "orphaned files are deleted"); sym_assert(env_exists("/q/n3.log") && env_exists("/q/other") && env_exists("/q/queue") && env_exists(BString<100>("/q/%i", f->GetId())), "files in use stay"); ds->CleanupTempDir(q2); sym_assert(!env_exists("/t/77.001") && !env_exists("/t/1.tmp") && env_exists(part) && env_exists("/t/mine"), "only orphaned parts are deleted from the temp directory"); sym_reach("done"); }
EX void h_log() { disk_init(); MessageList m; int kd = (int)sym_pick(5, "kind"); env_now = 1600000000 + (int)sym_pick(3, "time") * 100000; ds->AppendNzbMessage(4, Message::mkInfo, "first"); const char* t = text("", "message"); if (!*t || strlen(t) > 900) return; char cp[1100]; size_t n = strlen(t); for (size_t i = 0; i <= n; i++) { char c = t[i]; cp[i] = sym_ite((c == '\r') | (c == '\t'), ' ', c); } sym_assume((cp[n - 1] != ' ') ); ds->AppendNzbMessage(4, (Message::EKind)kd, t); ds->LoadNzbMessages(4, &m); sym_assert(m.size() == 2, "both messages"); if (m.size() == 2) { sym_assert(m[0].GetKind() == Message::mkInfo && same(m[0].GetText(), "first"), "first message"); sym_assert(m[1].GetKind() == kd && same(m[1].GetText(), cp) && m[1].GetTime() == env_now, "a message is restored with its kind and time"); } sym_reach("done"); }
