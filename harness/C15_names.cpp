// TUS main/Options.cpp util/FileSystem.cpp util/Util.cpp util/NString.cpp queue/DownloadInfo.cpp queue/Scanner.cpp lib:par2/diskfile.cpp lib:par2/par2repairersourcefile.cpp
// QUICK -DN=5 -DC=4 -DS=3
// THOROUGH -DN=6 -DC=6 -DS=5
// BOUND h_valid: every name of up to $N arbitrary characters (also as the name stored in par2 files) and reserved device names of any case with up to two arbitrary characters before or after; h_category: every category of up to $C arbitrary characters, with names of "...", "a", "a/b/.." and up to two arbitrary characters; h_add: names given by remote commands with up to $S arbitrary characters (one less with existing files or .nzb), with and without .nzb, nzb and other contents, existing files of the same name; h_unique: names of six shapes with any of the first three duplicates existing
// STUB none for the names; moving of the added file is recorded
// OUTSIDE names longer than the buffers (1024 characters); symbolic links
// ENTRY h_valid q=60 t=600 reach=done
// ENTRY h_device q=30 t=300 reach=done
// ENTRY h_category q=60 t=600 reach=done
// ENTRY h_add q=60 t=600 reach=done
// ENTRY h_unique q=30 t=300 reach=first,dupe
// ENTRY h_par q=60 t=600 reach=done
#include "common.h"
#include "priv.h"
#include "FileSystem.h"
#include "Options.h"
#include "DownloadInfo.h"
#include "Scanner.h"
#include "Log.h"
#include "quietlog.h"
#include "par2cmdline.h"
#include "par2fileformat.h"
#include "par2repairersourcefile.h"
Log* g_Log; Options* g_Options;
void Log::RegisterDebuggable(Debuggable*) {} void Log::UnregisterDebuggable(Debuggable*) {}
Service::Service() {} static Scanner* sc; void Service::WakeUp() { sc->m_requestedNzbDirScan = sc->m_scanning = false; }
static char moved[1100]; static int nmoved;
bool FileSystem::MoveFile(const char*, const char* d) { nmoved++; strncpy(moved, d, sizeof(moved) - 1); return true; }
static void single(const char* r, const char* what, bool device = true) { int n = strlen(r); sym_assert(n > 0, "a name is never empty"); bool bad = false; for (int i = 0; i < n; i++) { unsigned char c = r[i]; bad |= (c < 32) | (c == '"') | (c == '*') | (c == '/') | (c == ':') | (c == '<') | (c == '>') | (c == '?') | (c == '\\') | (c == '|'); } sym_assert(!bad, "a name has no separators, reserved and control characters"); sym_assert(!(n == 1 && r[0] == '.') && !(n == 2 && (r[0] == '.') & (r[1] == '.')), "a name is not a link to this or the upper directory"); if (device && n >= 3 && n <= 8) { auto up = [&](int i) { char c = r[i]; return (char)sym_ite((c >= 'a') & (c <= 'z'), c - 32, c); }; static const char* dev[] = {"CON", "PRN", "AUX", "NUL", "COM", "LPT"}; for (int k = 0; k < 6; k++) { bool m = (up(0) == dev[k][0]) & (up(1) == dev[k][1]) & (up(2) == dev[k][2]); int e = 3; if (k >= 4) { if (n < 4) continue; m &= (r[3] >= '1') & (r[3] <= '9'); e = 4; } m &= n == e ? true : r[e] == '.'; sym_assert(!m, "a name is not a reserved device"); } } }
static int any(char* b, int max, const char* what) { int n = (int)sym_pick(max + 1, what); if (n) sym_bytes(b, n, what); for (int i = 0; i < n; i++) sym_assume(b[i] != 0); b[n] = 0; return n; }
static void init() { env_reset(); g_Options = (Options*)calloc(1, sizeof(Options)); g_Options->m_destDir = "/d/e"; g_Options->m_interDir = ""; g_Options->m_nzbDir = "/d/n"; g_Options->m_tempDir = "/d/t"; g_Options->m_appendCategoryDir = true; nmoved = 0; env_mkdir_("/d"); env_mkdir_("/d/e"); env_mkdir_("/d/n"); env_mkdir_("/d/t"); env_mkdir_("/d/i"); }
EX void h_valid() { init(); char b[16]; any(b, N, "name"); CString r = FileSystem::MakeValidFilename(b); single(r, "name"); for (int i = 0; b[i]; i++) { } sym_reach("done"); }
EX void h_device() { init(); static const char* dev[] = {"con", "prn", "aux", "nul", "com1", "com9", "lpt1", "lpt9", "lpt0"}; char b[24]; int pre = (int)sym_pick(2, "before"); if (pre) { sym_bytes(b, 1, "before"); sym_assume(b[0] != 0); } const char* d = dev[sym_pick(9, "device")]; int n = pre; for (int i = 0; d[i]; i++) { char up = d[i] >= 'a' ? (char)(d[i] - 32) : d[i]; b[n] = i < 2 ? (sym_bool("upper") ? up : d[i]) : d[i]; n++; } int post = any(b + n, 2, "after"); (void)post; FileInfo f; f.SetFilename(b); f.MakeValidFilename(); single(f.GetFilename(), "device"); sym_reach("done"); }
static void inside(const char* p, const char* base) { int bn = strlen(base), n = strlen(p); sym_assert(n > bn + 1 && !memcmp(p, base, bn) && p[bn] == '/', "a path starts with its directory"); bool up = false; for (int i = bn; i + 1 < n; i++) { if (i + 2 < n) up |= (p[i] == '/') & (p[i + 1] == '.') & (p[i + 2] == '.') & (i + 3 == n ? true : p[i + 3] == '/'); } sym_assert(!up, "a path never leads out of its directory"); sym_assert(p[n - 1] != '/', "a download has a directory of its own"); }
EX void h_category() { init(); char c[16], nm[40]; NzbInfo* z = new NzbInfo; int k = (int)sym_pick(4, "name"); bool arb = sym_pick(2, "arbitrary category"); int cn = 0; if (arb) cn = any(c, C, "category"); else { static const char* some[] = {"../../x", "a/../../..", "..", "x", "/etc", "./.."}; strcpy(c, some[sym_pick(6, "category")]); cn = strlen(c); } if (k == 3) { any(nm, arb && cn > 2 ? 0 : 2, "name"); } else strcpy(nm, k == 0 ? "..." : k == 1 ? "a" : "a/b/.."); z->SetCategory(c); z->SetFilename("/q.nzb"); z->SetName(NzbInfo::MakeNiceNzbName(nm, sym_pick(2, "ext"))); bool inter = sym_pick(2, "inter dir"); if (inter) g_Options->m_interDir = "/d/i"; z->BuildDestDirName(); inside(z->GetDestDir(), inter ? "/d/i" : "/d/e"); CString f = z->BuildFinalDirName(); inside(f, "/d/e"); single(z->GetName(), "name"); sym_reach("done"); }
EX void h_add() { init(); int ex = (int)sym_pick(2, "existing"); char b[32]; bool suffix = sym_pick(2, "nzb"); int n = any(b, ex || suffix ? S - 1 : S, "name"); if (suffix) strcpy(b + n, ".nzb"); bool nzb = sym_pick(2, "content"); Scanner* s = sc = new Scanner; const char* content = nzb ? "<?xml version=1?><nzb" : "Rar!"; if (ex) { env_put("/d/n/a", "x", 1); env_put("/d/n/a.nzb", "x", 1); env_put("/d/n/a_2.nzb", "x", 1); } s->AddExternalFile(b, "", 0, "", 0, dmScore, nullptr, false, false, nullptr, nullptr, content, strlen(content), nullptr);
  for (int i = 0; i < env_nopened; i++) inside(env_opened[i], "/d/t"); sym_assert(nmoved == 1, "the file is queued"); inside(moved, "/d/n"); single(moved + 5, "added", false); sym_assert(!env_exists(moved), "no existing file is replaced"); sym_reach("done"); }
EX void h_unique() { init(); static const char* base[] = {"a", "a.b", ".b", "a.vol0+1.par2", ".vol1.PAR2", "a.par2"}; static const char* dup[] = {"a.duplicate%", "a.duplicate%.b", ".b.duplicate%", "a.duplicate%.vol0+1.par2", ".vol1.duplicate%.PAR2", "a.duplicate%.par2"}; int k = (int)sym_pick(6, "name"); bool e = sym_pick(2, "exists"); if (e) env_put(CString::FormatStr("/d/e/%s", base[k]), "x", 1); for (int i = 1; i <= 3; i++) if (sym_pick(2, "duplicate exists")) { char p[60] = "/d/e/"; int n = 5; for (const char* q = dup[k]; *q; q++) p[n++] = *q == '%' ? (char)('0' + i) : *q; p[n] = 0; env_put(p, "x", 1); } CString r = FileSystem::MakeUniqueFilename("/d/e", base[k]); sym_assert(!FileSystem::FileExists(r) && !env_exists(r), "a unique name belongs to no existing file"); inside(r, "/d/e"); single(*r + 5, "unique"); sym_reach(e ? "dupe" : "first"); }
EX void h_par() { init(); char b[16]; any(b, N - 1, "name"); Par2::DescriptionPacket* d = new Par2::DescriptionPacket; d->filename = b; single(Par2::DiskFile::TranslateFilename(d->FileName()).c_str(), "par"); Par2::Par2RepairerSourceFile* f = new Par2::Par2RepairerSourceFile(d, nullptr); f->ComputeTargetFileName("/d/p/"); inside(f->TargetFileName().c_str(), "/d/p"); single(f->TargetFileName().c_str() + 5, "par"); sym_reach("done"); }
