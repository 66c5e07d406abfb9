// TUS queue/DiskState.cpp queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp util/FileSystem.cpp feed/FeedInfo.cpp nntp/NewsServer.cpp nntp/StatMeter.cpp
// QUICK -DNB=3 -DSTEP=7
// THOROUGH -DNB=4 -DSTEP=1
// BOUND every kind of state file written by the program (queue, history, progress, file info, file state, completed state, quick file infos, feeds, statistics): cut at every offset; each line in turn replaced with every text of up to $NB bytes, or with a number from a list of extreme ones in place of its first or last field, removed or doubled; every version number of up to 9 digits in the first line
// OUTSIDE several lines damaged at the same time (apart from the cut)
// ENTRY h_cut q=60 t=300 reach=loaded,refused
// ENTRY h_bytes q=100 t=900 reach=loaded,refused
// ENTRY h_number q=60 t=300 reach=loaded,refused
// ENTRY h_lines q=60 t=300 reach=loaded,refused
// ENTRY h_version q=60 t=300 reach=newer,known
// ENTRY h_log q=30 t=200 reach=done
#include "disk.h"
static std::unique_ptr<NzbInfo> nzb(int id, const char* name, int seed) { auto n = std::make_unique<NzbInfo>(); n->SetId(id); n->m_name = name; n->m_filename = "f.nzb"; n->SetPriority(seed); n->EnterPostProcess(); n->GetPostInfo()->SetStage(PostInfo::ptQueued);
  n->GetParameters()->SetParameter("p:1", "v"); n->GetScriptStatuses()->emplace_back("s.sh", ScriptStatus::srSuccess); n->GetCompletedFiles()->emplace_back(seed + 50, "c", "o", CompletedFile::cfPartial, 4000000000u, true, "hash", "set"); n->GetServerStats()->StatOp(1, 5, 6, ServerStatList::soSet);
  file(n.get(), id * 100, seed); return n; }
enum { kQueue, kHistory, kProgress, kFile, kState, kDone, kQuick, kFeeds, kStats, KINDS };
static const char* const names[] = {"/q/queue", "/q/history", "/q/progress", "/q/100", "/q/100s", "/q/100c", "/q/files", "/q/feeds", "/q/stats"};
static int kind; static TQ* q; static Feeds feeds; static FeedHistory fh; static ServerVolumes* vols;
static void setup() { disk_init(); add_server(1, 1, "s1", "h1", 1, "u"); kind = (int)sym_pick(KINDS, "kind"); q = new TQ; for (int i = 1; i <= (kind == kHistory ? 1 : 2); i++) q->GetQueue()->Add(nzb(i, "n", i));
  { auto h = std::make_unique<HistoryInfo>(nzb(8, "h", 3)); h->GetNzbInfo()->LeavePostProcess(); h->SetTime(77); q->GetHistory()->Add(std::move(h), false); auto d = std::make_unique<DupInfo>(); d->SetId(9); d->SetName("d"); auto e = std::make_unique<HistoryInfo>(std::move(d)); q->GetHistory()->Add(std::move(e), false); }
  for (std::unique_ptr<NzbInfo>& n : *q->GetQueue()) for (std::unique_ptr<FileInfo>& f : *n->GetFileList()) ds->SaveFile(f.get());
  ds->SaveDownloadQueue(q, true); FileInfo* f = q->GetQueue()->at(0)->GetFileList()->at(0).get(); f->GetArticles()->at(0)->SetStatus(ArticleInfo::aiFinished); f->GetServerStats()->StatOp(1, 2, 3, ServerStatList::soSet);
  if (kind == kProgress) { q->GetQueue()->at(0)->SetChanged(true); ds->SaveDownloadProgress(q); } if (kind == kState) ds->SaveFileState(f, false); if (kind == kDone) ds->SaveFileState(f, true); if (kind == kQuick) ds->SaveAllFileInfos(q);
  for (int k = 0; k < 2; k++) { feeds.push_back(std::make_unique<FeedInfo>(k + 1, "f", k ? "http://b" : "http://a", false, 5, "", false, "", 0, "")); fh.emplace_back("u", FeedHistoryInfo::hsFetched, 200); } ds->SaveFeeds(&feeds, &fh); vols = new ServerVolumes(2); for (int i = 0; i < 2; i++) { (*vols)[i].SetTotalBytes(5); (*vols)[i].BytesPerDays()->resize(2); (*vols)[i].SetFirstDay(100); } if (kind == kStats) ds->SaveStats(sv, vols); }
static bool bad(int64_t v) { return v < 0; }
// loads; whatever comes out must be sound
static bool load() { sym_limit(60000000); bool ok = false; TQ* r = new TQ; switch (kind) {
  case kQueue: case kHistory: case kProgress: case kQuick: { ok = ds->DownloadQueueExists() && ds->LoadDownloadQueue(r, sv); if (kind == kQuick) ds->LoadAllFileInfos(r);
    for (std::unique_ptr<NzbInfo>& n : *r->GetQueue()) { sym_assert(n && n->GetName() && n->GetFilename(), "every entry exists"); for (std::unique_ptr<FileInfo>& f : *n->GetFileList()) { sym_assert(f && f->GetNzbInfo() == n.get(), "every file belongs to its entry"); for (std::unique_ptr<ArticleInfo>& a : *f->GetArticles()) sym_assert(a && a->GetMessageId(), "every article exists"); } }
    for (std::unique_ptr<HistoryInfo>& h : *r->GetHistory()) { sym_assert(h && (h->GetKind() == HistoryInfo::hkNzb || h->GetKind() == HistoryInfo::hkUrl || h->GetKind() == HistoryInfo::hkDup), "every item is of a known kind"); h->GetName(); } break; }
  case kFile: { FileInfo f(100); ok = ds->LoadFile(&f, true, true); for (std::unique_ptr<ArticleInfo>& a : *f.GetArticles()) sym_assert(a && a->GetMessageId(), "every article exists"); break; }
  case kState: case kDone: { FileInfo f(100); if (kind == kState) ds->LoadFile(&f, true, true); ok = ds->LoadFileState(&f, sv, kind == kDone); for (std::unique_ptr<ArticleInfo>& a : *f.GetArticles()) sym_assert(!!a, "every article exists"); break; }
  case kFeeds: { Feeds a; a.push_back(std::make_unique<FeedInfo>(1, "f", "http://a", false, 5, "", false, "", 0, "")); FeedHistory b; ok = ds->LoadFeeds(&a, &b); break; }
  case kStats: { ServerVolumes b(2); bool pf; ok = ds->LoadStats(sv, &b, &pf); for (ServerVolume& x : b) x.GetTotalBytes(); break; } }
  sym_assert(env_open_files() == 0, "no file is left open"); return ok; }
static const unsigned char* dat; static long len; static int lines, lo[4000], hi[4000];
static void split() { dat = env_data(names[kind]); len = env_size(names[kind]); sym_assert(dat && len > 0, "the file was written"); lines = 0; long b = 0; for (long i = 0; i < len; i++) if (dat[i] == '\n') { sym_assert(lines < 4000, "bound of the harness"); lo[lines] = (int)b; hi[lines++] = (int)i; b = i + 1; } }
static void put(int from, const char* t, size_t n, int to) { char* b = (char*)malloc(len + n + 200); memcpy(b, dat, from); memcpy(b + from, t, n); memcpy(b + from + n, dat + to, len - to); env_put(names[kind], b, from + n + (len - to)); free(b); }
EX void h_cut() { setup(); split(); int n = (int)sym_pick((unsigned)len, "cut"); char* b = (char*)malloc(n + 1); memcpy(b, dat, n); bool must = n <= lo[lines - 1]; env_put(names[kind], b, n); bool ok = load(); if (must && kind != kQuick) sym_assert(!ok, "a cut file is refused"); sym_reach(ok ? "loaded" : "refused"); }
static int line(int step) { int n = (int)sym_pick(lines < 150 ? (unsigned)lines : 150, "line"); (void)step; return n; }
EX void h_bytes() { setup(); split(); int n = line(STEP); int k = (int)sym_pick(NB + 1, "length"); char t[NB + 1]; if (k) sym_bytes(t, k, "text"); put(lo[n], t, k, hi[n]); bool ok = load(); sym_reach(ok ? "loaded" : "refused"); }
EX void h_number() { setup(); split(); int n = line(1); static const char* const x[] = {"0", "1", "2", "-1", "7", "1000", "2147483647", "-2147483648", "4294967295", "99999999999999999999", "x", "", " "}; const char* t = x[sym_pick(sizeof x / sizeof *x, "number")]; bool last = sym_pick(2, "last"); int a = lo[n], b = hi[n]; if (last) { int i = b; while (i > a && dat[i - 1] != ',') i--; a = i; } else { int i = a; while (i < b && dat[i] != ',') i++; b = i; } put(a, t, strlen(t), b); bool ok = load(); sym_reach(ok ? "loaded" : "refused"); }
EX void h_lines() { setup(); split(); int n = line(1); if (sym_pick(2, "doubled")) { put(lo[n], (const char*)dat + lo[n], hi[n] + 1 - lo[n], lo[n]); } else put(lo[n], "", 0, hi[n] + 1); bool ok = load(); sym_reach(ok ? "loaded" : "refused"); }
EX void h_version() { setup(); split(); int a = 0; while (dat[a] != '\n' && !(dat[a] >= '0' && dat[a] <= '9')) a++; int cur = atoi((const char*)dat + a); sym_assert(cur > 0, "the file has a version"); int k = 1 + (int)sym_pick(9, "digits"); char t[10]; sym_bytes(t, k, "version"); int64_t v = 0; for (int i = 0; i < k; i++) { sym_assume((t[i] >= '0') & (t[i] <= '9')); v = v * 10 + (t[i] - '0'); } put(a, t, k, hi[0]); bool newer = sym_split(v > cur); bool ok = load(); if (newer && kind != kQuick && kind != kProgress) sym_assert(!ok, "a newer version is refused"); sym_reach(newer ? "newer" : "known"); }
EX void h_log() { disk_init(); q = new TQ; int k = (int)sym_pick(14, "length"); char t[14]; for (int i = 0; i < k; i++) { sym_bytes(t + i, 1, "b"); char c = t[i]; sym_assume((c == '\n') | (c == '\t') | (c == 'I') | (c == '1') | (c == ' ') | (c == ',')); } env_put("/q/n5.log", t, k); MessageList m; sym_limit(10000000); ds->LoadNzbMessages(5, &m); for (Message& x : m) sym_assert(x.GetText() != nullptr, "every message has a text"); sym_assert(env_open_files() == 0, "no file is left open"); sym_reach("done"); }
