// A download queue made of the daemon's own objects, for the harnesses about the queue.
// STUB: DiskState, ArticleWriter, ArticleCache, DirectRenamer and the article threads are replaced by stand-ins that do no I/O (QueueCoordinator, QueueEditor and DownloadInfo are the real code)
#pragma once
#include "common.h"
#include "priv.h"
#include "Options.h"
#include "WorkState.h"
#include "DownloadInfo.h"
#include "QueueCoordinator.h"
#include "DiskState.h"
#include "StatMeter.h"
#include "ServerPool.h"
#include "Log.h"
#include "ParParser.h"
#include "PrePostProcessor.h"
#include "HistoryCoordinator.h"
#include "UrlCoordinator.h"
#include "DupeCoordinator.h"
#include "quietlog.h"
Log* g_Log; Options* g_Options; WorkState* g_WorkState; ServerPool* g_ServerPool; QueueCoordinator* g_QueueCoordinator; UrlCoordinator* g_UrlCoordinator; StatMeter* g_StatMeter; PrePostProcessor* g_PrePostProcessor; HistoryCoordinator* g_HistoryCoordinator; DupeCoordinator* g_DupeCoordinator; DiskState* g_DiskState; ArticleCache* g_ArticleCache;
#ifndef QUEUE_OWN_DISKSTATE
bool DiskState::SaveDownloadQueue(DownloadQueue*, bool) { return true; }
bool DiskState::SaveDownloadProgress(DownloadQueue*) { return true; }
bool DiskState::SaveFile(FileInfo*) { return true; }
bool DiskState::SaveFileState(FileInfo*, bool) { return true; }
bool DiskState::LoadFileState(FileInfo*, Servers*, bool) { return true; }
static bool (*g_loadArticles)(FileInfo*);
bool DiskState::LoadArticles(FileInfo* f) { return g_loadArticles ? g_loadArticles(f) : true; }
void DiskState::DiscardFile(int, bool, bool, bool) {}
void DiskState::DiscardFiles(NzbInfo*, bool) {}
void DiskState::AppendNzbMessage(int, Message::EKind, const char*) {}
#endif
#ifndef QUEUE_OWN_WRITER
void ArticleWriter::CompleteFileParts() {}
bool ArticleWriter::MoveCompletedFiles(NzbInfo*, const char*) { return true; }
ArticleDownloader::ArticleDownloader() {}
ArticleDownloader::~ArticleDownloader() {}
void ArticleDownloader::Run() {}
void ArticleDownloader::Stop() {}
void ArticleDownloader::LogDebugInfo() {}
void ArticleDownloader::SetInfoName(const char*) {}
std::unique_ptr<ArticleContentAnalyzer> DirectRenamer::MakeArticleContentAnalyzer() { return nullptr; }
void DirectRenamer::ArticleDownloaded(DownloadQueue*, FileInfo*, ArticleInfo*, ArticleContentAnalyzer*) {}
void DirectRenamer::FileDownloaded(DownloadQueue*, FileInfo*) {}
void Crc32::Reset() {}
CachedSegmentData::~CachedSegmentData() {}
void ArticleCache::Run() {}
void ArticleCache::Stop() {}
#endif
template <class X> static X* raw() { return (X*)calloc(1, sizeof(X)); }
static void queue_init() {
  env_reset(); Thread::Init();
  g_Options = raw<Options>(); g_Options->m_logBuffer = 2; g_DiskState = raw<DiskState>(); g_StatMeter = raw<StatMeter>(); g_ServerPool = raw<ServerPool>(); g_ArticleCache = new ArticleCache();
  g_WorkState = new WorkState(); g_QueueCoordinator = new QueueCoordinator();
  g_Options->m_destDir = "/d"; g_Options->m_interDir = "/i";
}
void Log::RegisterDebuggable(Debuggable*) {}
void Log::UnregisterDebuggable(Debuggable*) {}
void Thread::Start() {} // STUB
static DownloadQueue* dq() { return &g_QueueCoordinator->m_downloadQueue; }
static NzbInfo* add_nzb(const char* name) { auto n = std::make_unique<NzbInfo>(); n->SetName(name); n->SetFilename("a.nzb"); n->m_destDir = "/i/x"; NzbInfo* p = n.get(); dq()->GetQueue()->Add(std::move(n)); return p; }
static FileInfo* add_file(NzbInfo* n, const char* name, int arts, int64_t maxSize) {
  auto f = std::make_unique<FileInfo>(); FileInfo* p = f.get(); p->SetNzbInfo(n); p->SetFilename(name); p->SetSubject(name);
  int64_t size = 0; for (int i = 0; i < arts; i++) { auto a = std::make_unique<ArticleInfo>(); a->SetPartNumber(i + 1); a->SetMessageId("m"); a->SetSize((int)sym_range(0, maxSize, "artsize")); size += a->GetSize(); p->GetArticles()->push_back(std::move(a)); }
  p->SetSize(size); p->SetTotalArticles(arts); n->GetFileList()->Add(std::move(f)); return p;
}
