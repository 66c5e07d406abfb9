// TUS queue/DupeCoordinator.cpp queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp
// QUICK -DN=2 -DHMAX=1
// THOROUGH -DN=3 -DHMAX=3
// BOUND $N entries in the queue and the history together besides the one in question (downloads, addresses, hidden duplicates); names a, b (A for the one in question); keys none, k, m (K); scores -1..1; contents 0..2; every mode, mark, delete status and par, unpack and url status that matters
// BOUND h_found: keys none or k, scores of others 0..1, without filtered content hashes, states of history entries: mark, delete status and par failure; h_found1: all of them with one entry less
// BOUND h_failed3: three entries besides the failed one, up to $HMAX of them in the history, states as in h_found
// STUB HistoryCoordinator and the queue's EditEntry record what they are asked to do (the latter removes the entry at once or later, as the real one may)
// ENTRY h_found q=150 t=800 reach=added,backup,skipped,replaced
// ENTRY h_found1 q=60 t=400 reach=added,backup,skipped,replaced
// ENTRY h_failed q=60 t=600 reach=returned,none
// ENTRY h_failed3 q=60 t=300 reach=returned,none
// ENTRY h_mark q=60 t=600 reach=good,bad
// ENTRY h_status q=30 t=100 reach=success,failure
#include "common.h"
#include "priv.h"
#include "Options.h"
#include "DownloadInfo.h"
#include "DupeCoordinator.h"
#include "HistoryCoordinator.h"
#include "QueueScript.h"
#include "Log.h"
#include "quietlog.h"
Log* g_Log; Options* g_Options; HistoryCoordinator* g_HistoryCoordinator; DupeCoordinator* g_DupeCoordinator; QueueScriptCoordinator* g_QueueScriptCoordinator;
static HistoryInfo* redl[4]; static int nred; static HistoryInfo* hid[4]; static int nhid; static int ndisk; static NzbInfo* gone[4]; static int ngone; static bool later;
void HistoryCoordinator::Redownload(DownloadQueue*, HistoryInfo* h) { if (nred < 4) redl[nred] = h; nred++; }
void HistoryCoordinator::DeleteDiskFiles(NzbInfo*) { ndisk++; }
void HistoryCoordinator::HistoryHide(DownloadQueue* q, HistoryInfo* h, int rindex) { sym_assert(q->GetHistory()->at(q->GetHistory()->size() - 1 - rindex).get() == h, "the entry to hide is at the given place"); if (nhid < 4) hid[nhid] = h; nhid++; }
void QueueScriptCoordinator::EnqueueScript(NzbInfo*, EEvent) {}
struct TQ : public DownloadQueue { bool EditEntry(int id, EEditAction a, const char*) override { NzbInfo* n = GetQueue()->Find(id); sym_assert(n != nullptr && a == eaGroupDelete, "the entry to remove is in the queue"); if (ngone < 4) gone[ngone] = n; ngone++; if (!later) GetQueue()->Remove(n).release(); return true; }
  bool EditList(IdList*, NameList*, EMatchMode, EEditAction, const char*) override { return true; } void HistoryChanged() override {} void Save() override {} void SaveChanged() override {} };
static TQ* q; static DupeCoordinator* d;
// what is known of an entry
struct R { NzbInfo* n; HistoryInfo* h; DupInfo* dup; int kind; bool force; char name[2], key[2]; int score, mark, del, full, filt, dst; bool post, success, healthy; };
static R qr[4], hr[4], nw;
static bool simple;
static void names(R& r, bool main) { bool a = sym_bool("name"); int k = (int)sym_range(0, simple ? 1 : 2, "key"); r.name[0] = sym_ite(a, main ? 'A' : 'b', 'a'); r.name[1] = 0; r.key[0] = sym_ite(k == 0, 0, sym_ite(k == 1, 'k', main ? 'K' : 'm')); r.key[1] = 0; r.score = (int)sym_irange(simple && !main ? 0 : -1, 1, "score"); r.full = (int)sym_range(0, 2, "content"); r.filt = simple ? 0 : (int)sym_range(0, 2, "filtered content"); int m = (int)sym_range(0, 2, "mode"); r.force = m == dmForce; r.kind = m; }
static int lowc(int c) { return sym_ite(c == 'A', 'a', sym_ite(c == 'K', 'k', c)); }
static bool snk(R& a, R& b) { bool both = (a.key[0] != 0) & (b.key[0] != 0); return (both & (lowc(a.key[0]) == lowc(b.key[0]))) | (!both & (lowc(a.name[0]) == lowc(b.name[0]))); }
static bool same(R& a, R& b) { return ((a.full > 0) & (a.full == b.full)) | ((a.filt > 0) & (a.filt == b.filt)); }
static std::unique_ptr<NzbInfo> make(R& r, int full, bool main) { auto n = std::make_unique<NzbInfo>(); r.n = n.get(); names(r, main); n->SetName(r.name); n->SetDupeKey(r.key); n->m_dupeScore = r.score; n->m_fullContentHash = r.full; n->m_filteredContentHash = r.filt; n->m_dupeMode = (EDupeMode)r.kind;
  r.kind = (int)sym_pick(2, "kind"); n->m_kind = r.kind ? NzbInfo::nkUrl : NzbInfo::nkNzb; r.del = 0; r.mark = 0; r.success = true; r.healthy = true;
  if (full) { r.mark = (int)sym_range(0, 3, "mark"); r.del = sym_ite(sym_bool("backup"), NzbInfo::dsDupe, sym_ite(sym_bool("deleted"), NzbInfo::dsManual, NzbInfo::dsNone)); n->m_markStatus = (NzbInfo::EMarkStatus)r.mark; n->m_deleteStatus = (NzbInfo::EDeleteStatus)r.del;
    int u = NzbInfo::usNone, p, l = NzbInfo::lsNone; if (full == 1) { u = (int)sym_range(NzbInfo::usNone, NzbInfo::usPassword, "unpack"); p = (int)sym_range(NzbInfo::psNone, NzbInfo::psManual, "par"); l = (int)sym_range(NzbInfo::lsNone, NzbInfo::lsScanFailed, "url"); } else p = sym_ite(sym_bool("par failure"), NzbInfo::psFailure, NzbInfo::psNone);  n->m_unpackStatus = (NzbInfo::EPostUnpackStatus)u; n->m_parStatus = (NzbInfo::EParStatus)p; n->m_urlStatus = (NzbInfo::EUrlStatus)l;
    r.healthy = full == 2 || !sym_bool("beyond repair"); n->m_size = 1000; n->m_parSize = 100; n->m_failedSize = n->m_currentFailedSize = sym_ite(r.healthy, 0, 500);
    bool bad = (r.del != NzbInfo::dsNone) | (r.mark == NzbInfo::ksBad) | (p == NzbInfo::psFailure) | (u == NzbInfo::usFailure) | (u == NzbInfo::usPassword) | (l == NzbInfo::lsFailed) | (l == NzbInfo::lsScanSkipped) | (l == NzbInfo::lsScanFailed) | ((p == NzbInfo::psSkipped) & (u == NzbInfo::usSkipped) & !r.healthy); r.success = (r.mark == NzbInfo::ksSuccess) | (r.mark == NzbInfo::ksGood) | !bad; }
  return n; }
static int Q, H; static void start(int full, int qn, int hn, bool mainq = false) { Q = qn; H = hn; env_reset(); g_Options = (Options*)calloc(1, sizeof(Options)); g_Options->m_dupeCheck = true; q = new TQ; d = new DupeCoordinator; simple = full == 2; later = !simple && sym_pick(2, "deletion takes time");
  for (int i = 0; i < Q; i++) { auto n = make(qr[i], false, i == 0 && mainq); qr[i].post = sym_bool("post-processing"); if (qr[i].post) { n->EnterPostProcess(); } qr[i].del = sym_ite(sym_bool("being deleted"), NzbInfo::dsManual, NzbInfo::dsNone); n->m_deleteStatus = (NzbInfo::EDeleteStatus)qr[i].del; q->GetQueue()->Add(std::move(n)); }
  for (int i = 0; i < H; i++) { R& r = hr[i]; std::unique_ptr<HistoryInfo> h; if (sym_pick(2, "hidden")) { auto u = std::make_unique<DupInfo>(); r.dup = u.get(); names(r, false); u->SetName(r.name); u->SetDupeKey(r.key); u->m_dupeScore = r.score; u->m_fullContentHash = r.full; u->m_filteredContentHash = r.filt; u->m_dupeMode = (EDupeMode)r.kind; r.kind = 2; r.dst = (int)sym_range(DupInfo::dsUndefined, DupInfo::dsGood, "status"); u->m_status = (DupInfo::EStatus)r.dst; h = std::make_unique<HistoryInfo>(std::move(u)); } else { auto n = make(r, full, false); h = std::make_unique<HistoryInfo>(std::move(n)); }
    r.h = h.get(); q->GetHistory()->Add(std::move(h), false); } }
static void found(int nn, int full) { int hn = (int)sym_pick(nn + 1, "history"); start(full, nn - hn, hn); auto p = make(nw, false, true); NzbInfo* n = p.get(); bool feed = sym_bool("from a feed"); n->m_feedId = feed; int hint = (int)sym_range(0, 2, "hint"); n->m_dupeHint = (NzbInfo::EDupeHint)hint; bool scoreMode = n->m_dupeMode == dmScore; q->GetQueue()->Add(std::move(p));
  d->NzbFound(q, n);
  bool isNzb = nw.kind == 0, qsame = false, blank = true; for (int i = 0; i < Q; i++) qsame |= isNzb & same(nw, qr[i]);
  // key and score are taken over from an entry of the same name
  if (!qsame) { bool need = (nw.key[0] == 0) & (nw.score == 0); for (int i = 0; i < Q; i++) { bool t = need & (qr[i].name[0] == nw.name[0]) & ((qr[i].key[0] != 0) | (qr[i].score != 0)); nw.key[0] = sym_ite(t, qr[i].key[0], nw.key[0]); nw.score = sym_ite(t, qr[i].score, nw.score); need &= !t; }
    for (int i = 0; i < H; i++) { R& r = hr[i]; bool t = need & (r.kind != 1) & (r.name[0] == nw.name[0]) & ((r.key[0] != 0) | (r.score != 0)); nw.key[0] = sym_ite(t, r.key[0], nw.key[0]); nw.score = sym_ite(t, r.score, nw.score); need &= !t; }
    sym_assert((n->GetDupeScore() == nw.score) & (n->GetDupeKey()[0] == nw.key[0]), "key and score are those given, or those of an entry with the same name"); }
  bool hsame = false, good = false, hsucc = false, dsucc = false;
  for (int i = 0; i < H; i++) { R& r = hr[i]; bool dup = r.kind == 2, m = snk(nw, r) & !r.force; hsame |= (r.kind != 1) & same(nw, r); good |= m & (dup ? r.dst == DupInfo::dsGood : (r.kind == 0) & (r.mark == NzbInfo::ksGood)); if (dup) dsucc |= m & scoreMode & (r.dst == DupInfo::dsSuccess) & (nw.score <= r.score); else hsucc |= m & scoreMode & r.success & (nw.score <= r.score); }
  bool qhigh = false; for (int i = 0; i < Q; i++) { R& r = qr[i]; bool m = scoreMode & (r.del == NzbInfo::dsNone) & ((r.kind == 0) | !isNzb) & !r.force & snk(nw, r); r.success = m; qhigh |= m & (nw.score <= r.score); }
  bool plain = hint == 0; int del = n->GetDeleteStatus();
  bool copy = qsame | hsame, isgood = !copy & plain & good, backup = !copy & !isgood & plain & hsucc, dskip = !copy & !isgood & !backup & plain & dsucc, queue = !copy & !isgood & !backup & !dskip & plain & qhigh, added = !copy & !isgood & !backup & !dskip & !queue;
  bool drop = feed & (plain | qsame);
  sym_assert(!copy | (del == (drop ? NzbInfo::dsManual : NzbInfo::dsCopy)), "an exact copy of something queued or in the history is skipped");
  sym_assert(!isgood | (del == (drop ? NzbInfo::dsManual : NzbInfo::dsGood)), "a duplicate of something marked good is skipped");
  sym_assert(!dskip | (del == (drop ? NzbInfo::dsManual : NzbInfo::dsGood)), "a duplicate of a hidden success with at least its score is skipped");
  sym_assert(!(backup | queue) | (del == NzbInfo::dsDupe), "a duplicate of a success or of a queued entry with at least its score is kept as backup");
  sym_assert(!added | (del == NzbInfo::dsNone), "anything else is added to the queue");
  for (int i = 0; i < Q; i++) { int g = 0; for (int k = 0; k < ngone && k < 4; k++) g += gone[k] == qr[i].n; R& r = qr[i]; bool lower = r.success & (nw.score > r.score) & !r.post; sym_assert(g <= 1, "a queued entry is removed once"); sym_assert(!added | !plain | (g == (lower ? 1 : 0)), "the queued duplicates of a lower score, and only they, make way"); sym_assert((g == 0) | ((added | queue) & lower), "a queued entry makes way only to one with a higher score"); sym_assert((g == 1) == (r.n->m_deleteStatus == NzbInfo::dsDupe), "an entry making way becomes a backup"); if (g) sym_reach("replaced"); }
  if (added) sym_reach("added"); if (backup | queue) sym_reach("backup"); if (copy | isgood | dskip) sym_reach("skipped"); }
EX void h_found() { found(N, 2); }
EX void h_found1() { found(N - 1, 1); }
// the backup to return: the best usable one, better than any success and anything queued
static void returned(R* me, R* failed) {
  bool any = false, goodd = false; int top = -9, qtop = -9; for (int i = 0; i < H; i++) { R& r = hr[i]; bool m = snk(*failed, r) & !r.force, dup = r.kind == 2; bool g = m & (dup ? r.dst == DupInfo::dsGood : (r.kind == 0) & (r.mark == NzbInfo::ksGood)), s = m & (dup ? r.dst == DupInfo::dsSuccess : (r.kind == 0) & r.success); goodd |= g; top = sym_ite((s | g) & (r.score > top), r.score, top); }
  for (int i = 0; i < Q; i++) if (&qr[i] != me) { R& r = qr[i]; bool m = (r.kind == 0) & !r.force & snk(*failed, r); qtop = sym_ite(m & (r.score > qtop), r.score, qtop); }
  bool ok[4]; for (int i = 0; i < H; i++) { R& r = hr[i]; ok[i] = false; if (r.kind != 2) ok[i] = !goodd & !r.force & (r.del == NzbInfo::dsDupe) & r.healthy & (r.mark != NzbInfo::ksBad) & (r.score > top) & (r.score > qtop) & snk(*failed, r); any |= ok[i]; }
  sym_assert(nred == (any ? 1 : 0), "exactly one backup is returned if there is a usable one, otherwise none"); if (nred != 1) { sym_reach("none"); return; }
  for (int i = 0; i < H; i++) { if (hr[i].h == redl[0]) sym_assert(ok[i], "the returned entry is a usable backup"); else for (int k = 0; k < H; k++) if (hr[k].h == redl[0]) sym_assert(!ok[i] | (hr[i].score <= hr[k].score), "no better backup is passed over"); } sym_reach("returned"); }
static void failed(int nn, int full, int lo, int hi) { int hn = lo + (int)sym_pick(hi + 1 - lo, "history"); start(full, nn - hn + 1, hn, true); R& r = qr[0]; r.n->m_markStatus = NzbInfo::ksNone; bool fail = sym_bool("failed"); r.n->m_deleteStatus = NzbInfo::dsNone; r.n->m_kind = NzbInfo::nkNzb; r.n->m_parStatus = (NzbInfo::EParStatus)sym_ite(fail, NzbInfo::psFailure, NzbInfo::psSuccess); bool sc = r.n->m_dupeMode == dmScore; d->NzbCompleted(q, r.n);
  if (!(fail & sc)) { sym_assert(nred == 0, "a success brings no backup back"); return; } returned(&r, &r); }
EX void h_failed() { failed(N, 1, 0, N); }
EX void h_failed3() { failed(3, 2, 1, HMAX); }
EX void h_mark() { int hn = (int)sym_pick(N + 1, "history"); start(true, N - hn, hn + 1); int m = 1 + (int)sym_pick(3, "mark as"); R& r = hr[0]; int before = r.mark; bool dup = r.kind == 2, url = r.kind == 1; bool force = r.force; d->HistoryMark(q, r.h, (NzbInfo::EMarkStatus)m);
  int st = dup ? r.dup->m_status : r.n->m_markStatus; sym_assert(url ? st == before : dup ? st == (m == NzbInfo::ksGood ? DupInfo::dsGood : m == NzbInfo::ksSuccess ? DupInfo::dsSuccess : DupInfo::dsBad) : st == m, "the entry is marked as asked");
  if (url) { sym_assert((nred == 0) & (nhid == 0), "nothing else happens"); return; }
  if (dup) r.dst = st; else { r.mark = m; r.success = (m == NzbInfo::ksGood) | (m == NzbInfo::ksSuccess); }
  if (m == NzbInfo::ksGood) { sym_assert(nred == 0, "a good mark brings no backup back"); for (int i = 1; i < H; i++) { R& x = hr[i]; int g = 0; for (int k = 0; k < nhid && k < 4; k++) g += hid[k] == x.h; bool b = false; if (x.kind != 2) b = !force & !x.force & (x.del == NzbInfo::dsDupe) & snk(r, x); sym_assert(g == (b ? 1 : 0), "exactly the backups of the good entry are hidden"); if (g) sym_reach("good"); } for (int k = 0; k < nhid && k < 4; k++) sym_assert(hid[k] != r.h, "the good entry stays"); return; }
  sym_assert(nhid == 0, "no backup is hidden"); if (m == NzbInfo::ksSuccess || force) { sym_assert(nred == 0, "no backup is returned"); return; } sym_reach("bad"); returned(nullptr, &r); }
EX void h_status() { int hn = (int)sym_pick(N + 1, "history"); start(false, N - hn, hn); R x; names(x, true); int s = d->GetDupeStatus(q, x.name, x.key); bool queued = false, down = false, fail = false, ok = false; for (int i = 0; i < Q; i++) queued |= snk(x, qr[i]);
  for (int i = 0; i < H; i++) { R& r = hr[i]; bool m = snk(x, r); if (r.kind == 2) { ok |= m & ((r.dst == DupInfo::dsSuccess) | (r.dst == DupInfo::dsGood)); fail |= m & ((r.dst == DupInfo::dsFailed) | (r.dst == DupInfo::dsBad)); } }
  sym_assert(((s & DupeCoordinator::dsQueued) != 0) == queued, "queued duplicates are reported"); sym_assert(!ok | ((s & DupeCoordinator::dsSuccess) != 0), "hidden successes are reported"); sym_assert(!fail | ((s & DupeCoordinator::dsFailure) != 0), "hidden failures are reported"); if (ok) sym_reach("success"); if (fail) sym_reach("failure"); }
