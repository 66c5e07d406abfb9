// A queue of the daemon's own objects with the real DiskState on the in-memory disk (no coordinators).
#pragma once
#include "common.h"
#include "priv.h"
#include "Options.h"
#include "DownloadInfo.h"
#include "DiskState.h"
#include "StatMeter.h"
#include "FeedInfo.h"
#include "NewsServer.h"
#include "WorkState.h"
#include "ServerPool.h"
#include "Log.h"
#include "quietlog.h"
Log* g_Log; Options* g_Options; WorkState* g_WorkState; ServerPool* g_ServerPool; DiskState* g_DiskState; StatMeter* g_StatMeter;
struct TQ : public DownloadQueue { bool EditEntry(int, EEditAction, const char*) override { return true; } bool EditList(IdList*, NameList*, EMatchMode, EEditAction, const char*) override { return true; } void HistoryChanged() override {} void Save() override {} void SaveChanged() override {} };
template <class X> static X* raw() { return (X*)calloc(1, sizeof(X)); }
static DiskState* ds; static Servers* sv;
static void add_server(int id, int stateId, const char* name, const char* host, int port, const char* user) { auto s = std::make_unique<NewsServer>(id, true, name, host, port, 0, user, "", false, false, "", 1, 0, 0, 0, false); s->SetStateId(stateId); sv->push_back(std::move(s)); }
static void disk_init() { env_reset(); Thread::Init(); env_mkdir_("/q"); env_mkdir_("/t"); g_Options = raw<Options>(); g_Options->m_queueDir = "/q"; g_Options->m_tempDir = "/t"; g_Options->m_continuePartial = true; g_Options->m_directWrite = true; ds = raw<DiskState>(); g_DiskState = ds; sv = new Servers; }
static std::unique_ptr<NzbInfo> nzb(int id, const char* name, int seed);
static FileInfo* file(NzbInfo* n, int id, int seed) { auto f = std::make_unique<FileInfo>(id); FileInfo* p = f.get(); BString<100> t; p->SetNzbInfo(n); t.Format("subject %i", seed); p->SetSubject(t); t.Format("file %i", seed); p->SetFilename(t); t.Format("orig %i", seed); p->SetOrigname(t); p->SetFilenameConfirmed(seed & 1); p->SetTime(1000 + seed); p->SetSize(10000 + seed); p->SetMissedSize(10 + seed); p->SetRemainingSize(p->GetSize() - p->GetMissedSize()); p->SetParFile(seed & 2); p->SetTotalArticles(3); p->SetMissedArticles(1); p->GetGroups()->push_back("alt.a"); p->GetGroups()->push_back("alt.b");
  for (int i = 0; i < 2; i++) { auto a = std::make_unique<ArticleInfo>(); a->SetPartNumber(i + 1); a->SetSize(500 + seed + i); t.Format("id%i.%i@x", seed, i); a->SetMessageId(t); p->GetArticles()->push_back(std::move(a)); }
  n->GetFileList()->Add(std::move(f)); return p; }
// a string no one wrote: the field is to be shown by the loader to be what was saved
static bool same(const char* a, const char* b) { if (!a || !b) return (!a || !*a) && (!b || !*b); size_t n = strlen(a); return n == strlen(b) && sym_eq(a, b, n); }
