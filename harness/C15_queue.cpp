// TUS queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp util/FileSystem.cpp queue/QueueCoordinator.cpp queue/QueueEditor.cpp nntp/Decoder.cpp main/WorkState.cpp main/Options.cpp
// QUICK -DN=4
// THOROUGH -DN=6
// BOUND h_article: file names of up to $N arbitrary characters read from the first article, all three naming modes; h_rename (one character less), h_setcat: names and categories of up to $N arbitrary characters given by remote commands
// ENTRY h_article q=40 t=400 reach=article,nzb
// ENTRY h_rename q=40 t=400 reach=done
// ENTRY h_setcat q=40 t=400 reach=done
#include "queue.h"
static int any(char* b, int max, const char* what) { int n = (int)sym_pick(max + 1, what); if (n) sym_bytes(b, n, what); for (int i = 0; i < n; i++) sym_assume(b[i] != 0); b[n] = 0; return n; }
static void single(const char* r) { int n = strlen(r); sym_assert(n > 0, "a name is never empty"); bool bad = false; for (int i = 0; i < n; i++) { unsigned char c = r[i]; bad |= (c < 32) | (c == '"') | (c == '*') | (c == '/') | (c == ':') | (c == '<') | (c == '>') | (c == '?') | (c == '\\') | (c == '|'); } sym_assert(!bad, "a name has no separators, reserved and control characters"); sym_assert(!(n == 1 && r[0] == '.') && !(n == 2 && (r[0] == '.') & (r[1] == '.')), "a name is not a link to this or the upper directory"); }
static void inside(const char* p, const char* base) { int bn = strlen(base), n = strlen(p); sym_assert(n > bn + 1 && !memcmp(p, base, bn) && p[bn] == '/', "a directory lies in the destination directory"); bool up = false; for (int i = bn; i + 2 < n; i++) up |= (p[i] == '/') & (p[i + 1] == '.') & (p[i + 2] == '.') & (i + 3 == n ? true : p[i + 3] == '/'); sym_assert(!up, "a directory never leads out of the destination directory"); sym_assert(p[n - 1] != '/', "a download has a directory of its own"); }
EX void h_article() { queue_init(); g_Options->m_fileNaming = (Options::EFileNaming)sym_pick(3, "file naming"); g_Options->m_dupeCheck = sym_pick(2, "dupe check"); NzbInfo* z = add_nzb("a"); FileInfo* f = add_file(z, "nzb.rar", 2, 9); f->SetFilenameConfirmed(false); g_QueueCoordinator->StartArticleDownload(f, f->GetArticles()->at(0).get(), nullptr); ArticleDownloader* d = g_QueueCoordinator->m_activeDownloads.back(); d->m_status = ArticleDownloader::adFinished; char b[16]; any(b, N, "name"); d->m_articleFilename = CString(b); g_QueueCoordinator->Update(d, nullptr); single(f->GetFilename()); bool kept = !strcmp(f->GetFilename(), "nzb.rar"); sym_reach(kept ? "nzb" : "article"); if (g_Options->m_fileNaming == Options::nfNzb) sym_assert(kept, "the name from the nzb-file is kept"); }
EX void h_rename() { queue_init(); NzbInfo* z = add_nzb("a"); add_file(z, "f", 1, 9); char b[16]; int n = any(b, N - 1, "name"); bool inter = sym_pick(2, "inter dir"); if (!inter) g_Options->m_interDir = ""; bool ok = dq()->EditEntry(z->GetId(), DownloadQueue::eaGroupSetName, b); single(z->GetName()); if (ok && n) inside(z->GetDestDir(), inter ? "/i" : "/d"); sym_reach("done"); }
EX void h_setcat() { queue_init(); g_Options->m_interDir = ""; g_Options->m_appendCategoryDir = true; NzbInfo* z = add_nzb("a"); add_file(z, "f", 1, 9); char b[16]; any(b, N, "category"); dq()->EditEntry(z->GetId(), DownloadQueue::eaGroupSetCategory, b); inside(z->GetDestDir(), "/d"); sym_reach("done"); }
