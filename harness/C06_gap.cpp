// TUS nntp/ArticleWriter.cpp queue/DownloadInfo.cpp util/NString.cpp
// QUICK -DX=1
// THOROUGH -DX=1
// BOUND h_gap: joining two articles at arbitrary offsets (up to 2^62) with a missing stretch of any length between them; h_start: any article offset in direct write
// STUB DiskFile and FileSystem record positions and sizes instead of writing
// ENTRY h_gap q=20 t=60 reach=gap,none
// ENTRY h_start q=20 t=60 reach=done
#include "common.h"
#include "priv.h"
#include "Options.h"
#include "DownloadInfo.h"
#include "DiskState.h"
#include "ArticleWriter.h"
#include "FileSystem.h"
#include "Log.h"
#include "Util.h"
#include "quietlog.h"
Log* g_Log; Options* g_Options; DiskState* g_DiskState; ArticleCache* g_ArticleCache; class WorkState; WorkState* g_WorkState;
void Log::RegisterDebuggable(Debuggable*) {} void Log::UnregisterDebuggable(Debuggable*) {} void Thread::Start() {} void Thread::Stop() {} Thread::Thread() {} Thread::~Thread() {}
void DiskState::WriteCacheFlag() {} void DiskState::DeleteCacheFlag() {} void DiskState::AppendNzbMessage(int, Message::EKind, const char*) {}
void Util::Sleep(int) {} time_t Util::CurrentTime() { return 1; } uint32 Crc32::Combine(uint32 a, uint32 b, uint32 n) { return a ^ b ^ n; }
class Q : public DownloadQueue { public: Q() { Init(this); } bool EditEntry(int, EEditAction, const char*) { return true; } bool EditList(IdList*, NameList*, EMatchMode, EEditAction, const char*) { return true; } void HistoryChanged() {} void Save() {} void SaveChanged() {} };
static int64 pos, gapEnd, filled, sought; static int writes, reads; static bool dataNext, direct;
DiskFile::~DiskFile() {} bool DiskFile::Close() { m_file = nullptr; return true; } bool DiskFile::SetWriteBuffer(int) { return true; } bool DiskFile::Eof() { return true; } int64 DiskFile::Position() { return pos; }
bool DiskFile::Open(const char* n, EOpenMode m) { m_file = (FILE*)1; if (m == omRead) reads = 0; else if (!direct) pos = 0; return true; }
int64 DiskFile::Read(void*, int64) { dataNext = !reads; return reads++ ? 0 : 5; }
bool DiskFile::Seek(int64 p, ESeekOrigin o) { sought = p; pos = p; return true; }
int64 DiskFile::Write(const void* b, int64 n) { sym_assert((n >= 0) & (n <= 65536), "only the buffer is written"); if (dataNext) dataNext = false; else if (n > 0 && pos < gapEnd) { sym_assert(n <= gapEnd - pos, "the gap is filled exactly"); sym_assert(sym_valid(b, 65536) && ((char*)b)[0] == 0 && ((char*)b)[65535] == 0, "gaps are filled with zeros"); pos += n; if (++writes == 2 && pos < gapEnd - 7) pos = gapEnd - 7; return n; } if (n > 0) pos += n; return n; }
bool FileSystem::ForceDirectories(const char*, CString&) { return true; } CString FileSystem::MakeUniqueFilename(const char*, const char*) { return "/d/f"; } bool FileSystem::DeleteFile(const char*) { return true; } bool FileSystem::MoveFile(const char*, const char*) { return true; } bool FileSystem::FileExists(const char*) { return false; } int64 FileSystem::FileSize(const char*) { return -1; } bool FileSystem::CreateDirectory(const char*) { return true; } bool FileSystem::SameFilename(const char*, const char*) { return false; } bool FileSystem::DirEmpty(const char*) { return false; } bool FileSystem::RemoveDirectory(const char*) { return true; } CString FileSystem::GetLastErrorMessage() { return ""; } bool FileSystem::AllocateFile(const char*, int64, bool, CString&) { return true; } char* FileSystem::BaseFileName(const char* f) { const char* p = strrchr(f, '/'); return (char*)(p ? p + 1 : f); }
static Q* q; static NzbInfo* nzb; static FileInfo* fi; static ArticleInfo* a[3];
static void setup(bool d) { env_reset(); direct = d; g_Options = (Options*)calloc(1, sizeof(Options)); g_Options->m_logBuffer = 2; g_Options->m_tempDir = "/t"; g_Options->m_directWrite = d; g_ArticleCache = new ArticleCache(); q = new Q(); nzb = new NzbInfo(); nzb->SetName("n"); nzb->SetDestDir("/d"); fi = new FileInfo(); fi->SetNzbInfo(nzb); fi->SetFilename("f"); fi->SetTotalArticles(3); for (int i = 0; i < 3; i++) { std::unique_ptr<ArticleInfo> p = std::make_unique<ArticleInfo>(); a[i] = p.get(); p->SetPartNumber(i + 1); p->SetSize(5); fi->GetArticles()->push_back(std::move(p)); } }
EX void h_gap() { setup(false); int64 off = (int64)sym_range(5, 1ULL << 62, "offset"); a[0]->SetStatus(ArticleInfo::aiFinished); a[0]->SetSegmentOffset(0); a[0]->SetSegmentSize(5); a[0]->SetResultFilename("/t/1"); a[1]->SetStatus(ArticleInfo::aiFailed); a[2]->SetStatus(ArticleInfo::aiFinished); a[2]->SetSegmentOffset(off); a[2]->SetSegmentSize(5); a[2]->SetResultFilename("/t/3"); gapEnd = off; filled = 0; writes = 0; ArticleWriter w; w.SetInfoName("i"); w.SetFileInfo(fi); w.SetArticleInfo(a[2]); w.Prepare(); w.CompleteFileParts(); sym_assert(pos == off + 5, "the article is at its offset"); if (writes > 1) sym_reach("gap"); else sym_reach("none"); }
EX void h_start() { setup(true); int64 off = (int64)sym_range(0, 1ULL << 62, "offset"); gapEnd = 0; ArticleWriter w; w.SetInfoName("i"); w.SetFileInfo(fi); w.SetArticleInfo(a[1]); w.Prepare(); sym_assert(w.Start(Decoder::efYenc, "f", off + 5, off, 5), "started"); sym_assert(sought == off, "writing starts at the offset of the article"); char b[5] = {1, 2, 3, 4, 5}; w.Write(b, 5); w.Finish(true); sym_assert(a[1]->GetSegmentOffset() == off && a[1]->GetSegmentSize() == 5, "offset and size are kept for the article"); sym_reach("done"); }
