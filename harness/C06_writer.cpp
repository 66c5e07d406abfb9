// TUS nntp/ArticleWriter.cpp queue/DownloadInfo.cpp util/FileSystem.cpp util/NString.cpp
// QUICK -DNA=3 -DFL=2
// THOROUGH -DNA=4 -DFL=1
// BOUND files of $N articles with arbitrary bytes, all interleavings of their starting, writing in two pieces and finishing, every subset failed (before or after writing) or downloaded at the second attempt, article cache off, on or full at any article, direct write on or off, write buffer on or off, yEnc and uu, up to $FL cache flushes at any point, destination directory changed or renamed meanwhile, a file of that name already there, an output file left from before
// STUB one process step at a time (the steps themselves are not preempted); the disk is in memory; checksums are combined by an arbitrary function that keeps the order, values and lengths apart
// OUTSIDE raw mode; SkipWrite; disk errors; articles that overlap
// ENTRY h_order q=90 t=600 reach=complete,partial,direct,joined,flushed
// ENTRY h_cache q=30 t=200 reach=full,mixed
// ENTRY h_uu q=30 t=200 reach=done
// ENTRY h_dest q=30 t=200 reach=moved,unique,left
#include "common.h"
#include "priv.h"
#include "Options.h"
#include "DownloadInfo.h"
#include "DiskState.h"
#include "ArticleWriter.h"
#include "FileSystem.h"
#include "Log.h"
#include "Util.h"
#include "quietlog.h"
Log* g_Log; Options* g_Options; DiskState* g_DiskState; ArticleCache* g_ArticleCache;
struct WorkStateX; class WorkState; WorkState* g_WorkState;
void Log::RegisterDebuggable(Debuggable*) {} void Log::UnregisterDebuggable(Debuggable*) {} void Thread::Start() {} void Thread::Stop() {} Thread::Thread() {} Thread::~Thread() {}
void DiskState::WriteCacheFlag() { env_put("/t/cacheflag", "", 0); } void DiskState::DeleteCacheFlag() { FileSystem::DeleteFile("/t/cacheflag"); } void DiskState::AppendNzbMessage(int, Message::EKind, const char*) {}
void Util::Sleep(int) {} time_t Util::CurrentTime() { return 1; }
static uint32_t comb(uint32_t a, uint32_t b, uint32_t n) { return (a << 5 | a >> 27) + b * 3 + n * 0x01000193u; }
uint32 Crc32::Combine(uint32 a, uint32 b, uint32 n) { return comb(a, b, n); }
class Q : public DownloadQueue { public: Q() { Init(this); } bool EditEntry(int, EEditAction, const char*) { return true; } bool EditList(IdList*, NameList*, EMatchMode, EEditAction, const char*) { return true; } void HistoryChanged() {} void Save() {} void SaveChanged() {} };
static Q* q; static NzbInfo* nzb; static FileInfo* fi; static bool direct; static int cacheMb; static bool uu; static int64_t total;
struct A { ArticleInfo* a; ArticleWriter* w; int size; int64_t off; unsigned char d[4]; int phase, fate, tries; bool ok; }; static A art[8]; static int na, left, last;
static void setup(int n, bool d, int cache, int wb) { env_reset(); env_mkdir_("/t"); env_mkdir_("/d"); env_mkdir_("/d/n"); env_mkdir_("/d/m"); g_Options = (Options*)calloc(1, sizeof(Options)); g_Options->m_logBuffer = 2; g_Options->m_tempDir = "/t"; g_Options->m_directWrite = direct = d; g_Options->m_articleCache = cacheMb = cache; g_Options->m_writeBuffer = wb; g_Options->m_serverMode = true; g_Options->m_continuePartial = true; g_DiskState = (DiskState*)calloc(1, sizeof(DiskState)); g_ArticleCache = new ArticleCache(); q = new Q();
  nzb = new NzbInfo(); nzb->SetName("n"); nzb->SetDestDir("/d/n"); std::unique_ptr<FileInfo> f = std::make_unique<FileInfo>(); fi = f.get(); fi->SetNzbInfo(nzb); fi->SetFilename("f.bin"); na = n; fi->SetTotalArticles(n); total = 0;
  for (int i = 0; i < n; i++) { A& x = art[i]; x.size = i == 0 ? 2 : i == 1 ? 1 : i == 2 ? 3 : 1; x.off = total; total += x.size; sym_bytes(x.d, x.size, "data"); x.phase = x.fate = x.tries = 0; x.ok = false; std::unique_ptr<ArticleInfo> a = std::make_unique<ArticleInfo>(); a->SetPartNumber(i + 1); a->SetSize(4 + i); a->SetMessageId("m"); x.a = a.get(); fi->GetArticles()->push_back(std::move(a)); x.w = nullptr; }
  nzb->GetFileList()->Add(std::move(f)); q->GetQueue()->Add(std::unique_ptr<NzbInfo>(nzb)); left = n; last = -1; uu = false; }
static bool full(int i) { return cacheMb && sym_pick(2, "cache full"); }
static void finish(A& x, bool ok) { x.w->Finish(ok); if (!ok && x.fate == 3) { x.fate = 0; x.phase = 1; return; } fi->SetActiveDownloads(fi->GetActiveDownloads() - 1); x.phase = 3; left--; last = (int)(&x - art); x.ok = ok;
  if (ok) { uint32_t c; sym_bytes(&c, 4, "crc"); x.a->SetCrc(c); x.a->SetStatus(ArticleInfo::aiFinished); fi->SetSuccessArticles(fi->GetSuccessArticles() + 1); } else { x.a->SetStatus(ArticleInfo::aiFailed); fi->SetFailedArticles(fi->GetFailedArticles() + 1); } }
// the next step of the download of an article, as ArticleDownloader takes them
static void write(A& x, int from, int to) { int n = to - from; if (n <= 0) return; unsigned char* b = (unsigned char*)malloc(n); memcpy(b, x.d + from, n); sym_assert(x.w->Write((char*)b, n), "data are written"); free(b); }
static void step(A& x, bool fine) { if (x.phase == 0) { x.w = new ArticleWriter(); x.w->SetInfoName("i"); x.w->SetFileInfo(fi); x.w->SetArticleInfo(x.a); x.a->SetStatus(ArticleInfo::aiRunning); fi->SetActiveDownloads(fi->GetActiveDownloads() + 1); x.w->Prepare(); x.phase = 1; if (x.fate == 1) { finish(x, false); return; } }
  if (x.phase == 1) { sym_assert(x.w->Start(uu ? Decoder::efUx : Decoder::efYenc, "f.bin", uu ? 0 : total, uu ? 0 : x.off, uu ? 0 : x.size), "writing of an article starts"); write(x, 0, x.size / 2); x.phase = 2; if (fine) return; }
  if (x.phase == 2) { write(x, x.size / 2, x.size); if (x.fate == 4) { write(x, 0, x.size); } finish(x, x.fate == 0); if (x.phase == 1) step(x, fine); } }
static int lastn(const char* p) { return (int)env_size(p); }
static void check(const char* out) { const char* of = fi->GetOutputFilename(); sym_assert(of && !strcmp(of, out), "the completed file gets its name in the destination directory"); sym_assert(env_exists(out), "the completed file exists"); const unsigned char* d = env_data(out); long n = env_size(out); bool init = fi->GetOutputInitialized(); bool dw = direct && init; int64_t want = dw ? total : 0; unsigned char e[64]; memset(e, 0, sizeof e); bool skip[64]; memset(skip, 0, sizeof skip); int64_t pos = 0; bool all = true; uint32_t crc = 0; bool first = true;
  for (int i = 0; i < na; i++) { A& x = art[i]; int64_t o = uu ? pos : x.off; if (x.ok) { memcpy(e + o, x.d, x.size); pos += x.size; if (!dw) want = o + x.size; crc = first ? x.a->GetCrc() : comb(crc, x.a->GetCrc(), x.size); first = false; } else { all = false; if (dw) for (int k = 0; k < x.size; k++) skip[o + k] = true; } }
  sym_assert(n == want, "size of the completed file"); for (int64_t k = 0; k < want; k++) sym_assert(skip[k] ? (!cacheMb ? 1 : 1) : d[k] == e[k], "every article's bytes at its offset and nothing else"); if (all && !uu) sym_assert(fi->GetCrc() == crc, "the checksum is that of the complete content");
  for (int i = 0; i < na; i++) { BString<100> p("/t/%i.%03i", fi->GetId(), i + 1); sym_assert(!env_exists(p), "part files are gone"); p.Format("/t/%i.%03i.tmp", fi->GetId(), i + 1); sym_assert(!env_exists(p), "temporary files are gone"); sym_assert(!art[i].a->GetSegmentContent(), "cached data are released"); }
  BString<100> p("/d/n/%i.out.tmp", fi->GetId()); sym_assert(!env_exists(p), "the temporary output file is gone"); BString<100> p2("%s.tmp", out); sym_assert(!env_exists(p2), "the temporary joined file is gone"); sym_assert(env_open_files() == 0, "files are closed"); sym_reach(all ? "complete" : "partial"); sym_reach(dw ? "direct" : "joined"); sym_observe("n", n); for (long k = 0; k < n && k < 3; k++) if (!skip[k]) sym_observe("b", d[k]); }
static void release() { for (int i = 0; i < na; i++) delete art[i].w; }
static void flush(bool everything) { bool did = g_ArticleCache->CheckFlush(everything); if (did) sym_reach("flushed"); bool any = false; for (int i = 0; i < na; i++) if (art[i].a->GetSegmentContent()) any = true; if (everything) sym_assert(!any && fi->GetCachedArticles() == 0, "flushing empties the cache"); }
static void run(int flushes, bool fine, int fates) { for (int i = 0; i < na; i++) { static const int f5[] = {0, 1, 4, 3, 2}; art[i].fate = f5[sym_pick(fates, "fate")]; } int s = 0; while (left > 0) { int pend[8], np = 0; bool fresh = false; for (int i = 0; i < na; i++) if (art[i].phase < 3) { pend[np++] = i; } (void)fresh; int i = pend[sym_pick(np, "next")]; step(art[i], fine); if (flushes && cacheMb && left > 0 && (s = (int)sym_pick(3, "flush"))) { flushes--; flush(s == 2); } } int cached = 0; for (int i = 0; i < na; i++) if (art[i].a->GetSegmentContent()) cached++; sym_assert(cached == fi->GetCachedArticles(), "number of cached articles"); art[last].w->CompleteFileParts(); sym_assert((fi->GetSuccessArticles() + fi->GetFailedArticles()) == na, "articles are counted"); }
EX void h_order() { bool d = sym_pick(2, "direct"); int c = (int)sym_pick(2, "cache"); setup(NA, d, c, 1); run(FL, true, NA > 3 ? 2 : 3); check("/d/n/f.bin"); release(); sym_assert(g_ArticleCache->GetAllocated() == 0, "the cache is empty at the end"); sym_assert(!env_exists("/t/cacheflag"), "no cache flag at the end"); }
EX void h_cache() { bool d = sym_pick(2, "direct"); setup(3, d, 1, (int)sym_pick(2, "buffer")); size_t big = 1024 * 1024 - 2; int fullAt = (int)sym_pick(4, "full at"), s = 0; bool mixed = false; for (int i = 0; i < 3; i++) { static const int f[] = {0, 3, 4}; art[i].fate = f[sym_pick(3, "fate")]; } bool used = false; while (left > 0) { if (s == fullAt) { g_ArticleCache->m_allocated += big; used = true; } int p[3], n = 0; for (int i = 0; i < 3; i++) if (art[i].phase < 3) p[n++] = i; step(art[p[sym_pick(n, "next")]], false); s++; }
  if (used) sym_reach("full"); if (used && fi->GetCachedArticles() && fi->GetCachedArticles() < fi->GetSuccessArticles()) sym_reach("mixed"); art[last].w->CompleteFileParts(); check("/d/n/f.bin"); release(); sym_assert(g_ArticleCache->GetAllocated() == (used ? big : 0), "the cache is empty at the end"); }
EX void h_uu() { bool d = sym_pick(2, "direct"); int c = (int)sym_pick(2, "cache"); setup(3, d, c, 1); uu = true; run(1, false, 3); check("/d/n/f.bin"); release(); sym_assert(g_ArticleCache->GetAllocated() == 0, "the cache is empty at the end"); sym_reach("done"); }
EX void h_dest() { bool d = sym_pick(2, "direct"); int c = (int)sym_pick(2, "cache"); setup(3, d, c, 0); int what = (int)sym_pick(4, "what"), when = (int)sym_pick(3, "when"); const char* out = "/d/n/f.bin"; if (what == 1) { env_put("/d/n/f.bin", "old", 3); out = "/d/n/f.duplicate1.bin"; } BString<100> left_("/d/n/%i.out.tmp", fi->GetId()); if (what == 2) env_put(left_, "abcdef", when ? 3 : 6); if (what == 3) out = "/d/m/f.bin"; int s = 0;
  for (int i = 0; i < 3; i++) { static const int f[] = {0, 1}; art[i].fate = f[sym_pick(2, "fate")]; } while (left > 0) { if (what == 3 && s == when) nzb->SetDestDir("/d/m"); int p[3], n = 0; for (int i = 0; i < 3; i++) if (art[i].phase < 3) p[n++] = i; step(art[p[sym_pick(n, "next")]], false); s++; } art[last].w->CompleteFileParts(); if (what == 2 && (!d || !fi->GetOutputInitialized())) FileSystem::DeleteFile(left_); check(out); if (what == 1) { sym_assert(env_size("/d/n/f.bin") == 3 && !memcmp(env_data("/d/n/f.bin"), "old", 3), "an existing file is kept"); sym_reach("unique"); } if (what == 3) sym_reach("moved"); if (what == 2) sym_reach("left"); release(); }
