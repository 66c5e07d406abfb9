// TUS queue/NzbFile.cpp queue/DownloadInfo.cpp util/Util.cpp util/FileSystem.cpp util/NString.cpp
// QUICK -DMAXSIZE=1000000 -DNE=3 -DNG=4 -DNS=3 -DNF=2 -DNT=5
// THOROUGH -DMAXSIZE=2147483647 -DNE=4 -DNG=5 -DNS=4 -DNF=3 -DNT=6
// BOUND h_files: up to $NF files with up to $NS segments with numbers 0..4 in any order (duplicates and gaps included) and sizes up to $MAXSIZE; h_events: every well-nested document of up to $NE elements, of files and segments up to $NG (file, segment with valid, invalid, missing or huge number, group, meta, other), with or without attributes; h_subject: subjects of up to $NT arbitrary bytes inside and around quotation marks and counters; h_long: subjects of any length around the buffer size; h_hash: every order of three files; h_password: passwords with arbitrary characters, files shorter and longer than the buffer
// STUB the XML parser is replaced by the sequence of its events
// OUTSIDE XML syntax itself (libxml2); segment sizes below 0 or from 2^31; the Windows parser
// ENTRY h_files q=60 t=500 reach=files,none
// ENTRY h_events q=90 t=600 reach=ok,failed
// ENTRY h_nested q=60 t=400 reach=ok,failed
// ENTRY h_subject q=90 t=600 reach=quoted,other
// ENTRY h_long q=20 t=60 reach=done
// ENTRY h_hash q=20 t=60 reach=done
// ENTRY h_password q=20 t=100 reach=reread,none
// ENTRY h_text q=20 t=100 reach=done
#include "common.h"
#include <libxml/parser.h>
#include "priv.h"
#include "Options.h"
#include "DownloadInfo.h"
#include "DiskState.h"
#include "NzbFile.h"
#include "FileSystem.h"
#include "Log.h"
#include "Util.h"
#include "quietlog.h"
Log* g_Log; Options* g_Options; DiskState* g_DiskState; class WorkState; WorkState* g_WorkState;
void Log::RegisterDebuggable(Debuggable*) {} void Log::UnregisterDebuggable(Debuggable*) {}
bool DiskState::SaveFile(FileInfo*) { return true; } void DiskState::AppendNzbMessage(int, Message::EKind, const char*) {}
static void (*script)(); static xmlSAXHandler* H; static void* U; static int scriptRet;
extern "C" int xmlSAXUserParseFile(xmlSAXHandlerPtr h, void* u, const char*) { H = h; U = u; scriptRet = 0; script(); return scriptRet; }
extern "C" xmlEntityPtr xmlGetPredefinedEntity(const xmlChar*) { return nullptr; }
static void open(const char* n, const char* a = nullptr, const char* av = nullptr, const char* b = nullptr, const char* bv = nullptr) { const xmlChar* at[5] = {(const xmlChar*)a, (const xmlChar*)av, (const xmlChar*)b, (const xmlChar*)bv, nullptr}; H->startElement(U, (const xmlChar*)n, a ? at : nullptr); }
static void close_(const char* n) { H->endElement(U, (const xmlChar*)n); }
static void text(const char* t, int n = -1) { H->characters(U, (const xmlChar*)t, n < 0 ? (int)strlen(t) : n); }
static void init() { env_reset(); env_mkdir_("/q"); env_mkdir_("/d"); env_now = 1500000000; g_Options = (Options*)calloc(1, sizeof(Options)); g_Options->m_logBuffer = 5; g_Options->m_destDir = "/d"; g_Options->m_interDir = ""; g_Options->m_parIgnoreExt = ".sfv,.nfo"; }
struct F { int n; int num[8]; int size[8]; bool par; }; static F fs[4]; static int nf;
static const char* const ids[] = {"a@b", "c@d", "e@f", "g@h", "i@j"};
static void play_files() { open("nzb"); for (int i = 0; i < nf; i++) { BString<100> s("x \"%s%i.%s\" yEnc (1/9)", "n", i, fs[i].par ? "par2" : "rar"); open("file", "subject", s, "date", "1400000000"); open("groups"); open("group"); text("alt.bin"); close_("group"); close_("groups"); open("segments"); for (int k = 0; k < fs[i].n; k++) { BString<100> num("%i", fs[i].num[k]); const char* sz = "7"; open("segment", "bytes", sz, "number", num); ArticleInfo* a = ((NzbFile*)U)->m_article; if (a && fs[i].num[k] > 0) { sym_assert(a->GetSize() == 7, "size of a segment"); a->SetSize(fs[i].size[k]); } text(ids[k]); close_("segment"); } close_("segments"); close_("file"); } close_("nzb"); }
EX void h_files() { init(); nf = (int)sym_pick(NF + 1, "files"); for (int i = 0; i < nf; i++) { fs[i].par = i == 1; fs[i].n = (int)sym_pick((i ? 2 : NS) + 1, "segments"); for (int k = 0; k < fs[i].n; k++) { fs[i].num[k] = (int)sym_pick(5, "number"); fs[i].size[k] = (int)sym_irange(1, MAXSIZE, "size"); } } script = play_files; NzbFile nzb("/q/x.nzb", ""); bool ok = nzb.Parse(); std::unique_ptr<NzbInfo> info = nzb.DetachNzbInfo();
  int want = 0, pos = 0; int64_t tot = 0, totMiss = 0, parTot = 0; int arts = 0, failed = 0, pars = 0; for (int i = 0; i < nf; i++) { int at[8]; for (int k = 0; k < 8; k++) at[k] = -1; int mx = 0; for (int k = 0; k < fs[i].n; k++) if (fs[i].num[k] > 0) { at[fs[i].num[k]] = k; if (fs[i].num[k] > mx) mx = fs[i].num[k]; } if (!mx) continue; want++; sym_assert(ok && (int)info->GetFileList()->size() > pos, "every file with segments is in the queue item"); FileInfo* f = (*info->GetFileList())[pos++].get(); 
    sym_assert(!strcmp(f->GetFilename(), BString<100>("n%i.%s", i, fs[i].par ? "par2" : "rar")), "name of the file"); sym_assert(f->GetTime() == 1400000000 && f->GetGroups()->size() == 1 && !strcmp((*f->GetGroups())[0], "alt.bin"), "date and groups"); int64_t size = 0; int64_t one = 0; int miss = 0; int idx = 0; for (int n = 1; n <= mx; n++) { if (at[n] < 0) { miss++; continue; } sym_assert(idx < (int)f->GetArticles()->size(), "every segment is listed"); ArticleInfo* a = (*f->GetArticles())[idx++].get(); sym_assert(a->GetPartNumber() == n && a->GetSize() == fs[i].size[at[n]] && !strcmp(a->GetMessageId(), BString<100>("<%s>", ids[at[n]])), "number, size and message id of a segment"); size += fs[i].size[at[n]]; if (idx == 1) one = fs[i].size[at[n]]; } sym_assert(idx == (int)f->GetArticles()->size(), "no other segments"); int64_t ms = one * miss;
    sym_assert(f->GetSize() == size + ms && f->GetRemainingSize() == size && f->GetMissedSize() == ms, "sizes of the file"); sym_assert(f->GetTotalArticles() == mx && f->GetMissedArticles() == miss, "article counts of the file"); sym_assert(f->GetParFile() == fs[i].par, "repair files are recognized"); tot += size + ms; totMiss += ms; arts += mx; failed += miss; if (fs[i].par) { parTot += size + ms; pars++; } }
  sym_assert(ok == (want > 0), "a file without segments is refused"); if (!ok) { sym_reach("none"); return; } sym_assert((int)info->GetFileList()->size() == want && info->GetFileCount() == want, "number of files"); sym_assert(info->GetSize() == tot && info->GetRemainingSize() == tot - totMiss && info->GetFailedSize() == totMiss && info->GetCurrentFailedSize() == totMiss && info->GetParSize() == parTot, "sizes add up"); sym_assert(info->GetTotalArticles() == arts && info->GetFailedArticles() == failed && info->GetRemainingParCount() == pars, "counts add up"); sym_reach("files"); }
static int left; static bool few;
static void element(int depth) { if (left <= 0) return; static const int fk[] = {0, 1, 2, 6}; int k = few ? fk[sym_pick(4, "element")] : (int)sym_pick(7, "element"); left--; const char* n = k == 0 ? "file" : k <= 3 ? "segment" : k == 4 ? "group" : k == 5 ? "meta" : "segment"; if (k == 0) open(n, (few || sym_pick(2, "subject")) ? "subject" : nullptr, "a.b"); else if (k == 1) open(n, "number", "1", "bytes", "5"); else if (k == 2) open(n, "number", "3"); else if (k == 3) open(n, "bytes", "5", "number", "0"); else if (k == 4) open(n); else if (k == 5) open(n, "type", sym_pick(2, "password") ? "password" : "x"); else open(n, "number", "2000000000", "bytes", "1"); if (k != 0 && k < 4 && sym_pick(2, "text")) text("t"); while (left > 0 && depth < 4 && sym_pick(2, "child")) element(depth + 1); close_(n); }
static void play_events() { left = few ? NG : NE; open("nzb"); while (left > 0 && sym_pick(2, "more")) { element(0); } close_("nzb"); }
static void events() { init(); script = play_events; sym_limit(3000000); NzbFile* nzb = new NzbFile("/q/x.nzb", ""); bool ok = nzb->Parse(); std::unique_ptr<NzbInfo> info = nzb->DetachNzbInfo(); sym_assert(ok == !info->GetFileList()->empty(), "accepted exactly if there are files"); for (FileInfo* f : info->GetFileList()) { int last = 0; for (ArticleInfo* a : f->GetArticles()) { sym_assert(a != nullptr, "no empty segments"); sym_assert(a->GetMessageId() && a->GetMessageId()[0], "every segment has a message id"); sym_assert(a->GetPartNumber() > last, "segments are in order"); last = a->GetPartNumber(); } sym_assert(last > 0, "files have segments"); } delete nzb; sym_reach(ok ? "ok" : "failed"); }
EX void h_events() { few = false; events(); }
EX void h_nested() { few = true; events(); }
static char subj[1200];
static void play_one() { open("nzb"); open("file", "subject", subj); open("segment", "bytes", "5", "number", "1"); text("t"); close_("segment"); close_("file"); close_("nzb"); }
EX void h_subject() { init(); static const char* const pre[] = {"", "\"", "x \"", "a.b \"", "x"}; static const char* const post[] = {"", "\"", ".r\" yEnc (1/2)", " yEnc (1/2)", "(1/", ")"}; const char *a = pre[sym_pick(5, "before")], *b = post[sym_pick(6, "after")]; int n = (int)sym_pick(NT + 1, "length"); strcpy(subj, a); int l = (int)strlen(a); if (n) sym_bytes(subj + l, n, "subject"); for (int i = 0; i < n; i++) { char c = subj[l + i]; int in = 0; for (const char* q = "a.\" ()/1"; *q; q++) in |= c == *q; sym_assume(in); } strcpy(subj + l + n, b); script = play_one; sym_limit(500000); NzbFile nzb("/q/x.nzb", ""); bool ok = nzb.Parse(); sym_assert(ok, "the file is accepted"); std::unique_ptr<NzbInfo> info = nzb.DetachNzbInfo(); sym_assert(info->GetFileList()->size() == 1, "one file"); const char* f = (*info->GetFileList())[0]->GetFilename(); sym_assert(f && *f, "every file has a name");
  // documented: the first text in quotation marks, if it contains a dot, is the name
  int len = (int)strlen(subj), q1 = -1, q2 = -1; bool quoted = false; for (int i = 0; i < len; i++) if (subj[i] == '"') { if (q1 < 0) q1 = i; else if (q2 < 0 && i > q1 + 1) q2 = i; } if (q1 >= 0 && q2 >= 0) { for (int i = q1 + 2; i < q2; i++) if (subj[i] == '.') quoted = true; bool cut = len > 12 && !strncmp(subj + len - 11, " yEnc (1/2)", 11) && q2 > len - 12; if (cut) quoted = false; bool plain = quoted; if (quoted) for (int i = q1 + 1; i < q2; i++) if (subj[i] != 'a' && subj[i] != '.' && subj[i] != '1') plain = false; if (plain && subj[q2 - 1] != '.') { sym_assert((int)strlen(f) == q2 - q1 - 1 && !strncmp(f, subj + q1 + 1, q2 - q1 - 1), "the quoted name is the file name"); sym_reach("quoted"); return; } } sym_reach("other"); }
EX void h_long() { init(); int n = 1018 + (int)sym_pick(12, "length"); int kind = (int)sym_pick(4, "kind"); for (int i = 0; i < n; i++) subj[i] = kind == 1 ? '"' : kind == 2 && i % 7 == 3 ? ' ' : kind == 3 && i % 9 == 4 ? '"' : 'a'; subj[n] = 0; if (sym_pick(2, "end")) strcpy(subj + n - 4, "/23)"); script = play_one; NzbFile nzb("/q/x.nzb", ""); bool ok = nzb.Parse(); sym_assert(ok, "accepted"); sym_reach("done"); }
static int perm[3];
static void play_hash() { open("nzb"); for (int i = 0; i < 3; i++) { static const char* const nm[] = {"\"a.rar\"", "\"b.nfo\"", "\"c.par2\""}; open("file", "subject", nm[perm[i]]); for (int k = 0; k < 2; k++) { open("segment", "bytes", "5", "number", k ? "2" : "1"); text(ids[perm[i] + k]); close_("segment"); } close_("file"); } close_("nzb"); }
static void hash(uint32_t& full, uint32_t& filt) { script = play_hash; NzbFile nzb("/q/x.nzb", ""); nzb.Parse(); std::unique_ptr<NzbInfo> i = nzb.DetachNzbInfo(); full = i->GetFullContentHash(); filt = i->GetFilteredContentHash(); }
EX void h_hash() { init(); uint32_t f1, g1, f2, g2; perm[0] = 0; perm[1] = 1; perm[2] = 2; hash(f1, g1); perm[0] = (int)sym_pick(3, "first"); perm[1] = (perm[0] + 1 + (int)sym_pick(2, "second")) % 3; perm[2] = 3 - perm[0] - perm[1]; hash(f2, g2); sym_assert(f1 == f2 && g1 == g2, "the content hash does not depend on the order of the files"); sym_assert(f1 != 0 && g1 != 0 && f1 != g1, "ignored files count for the full hash only"); sym_reach("done"); }
static char pw[32]; static int np; static bool meta;
static void play_pw() { open("nzb"); open("head"); open("meta", "type", "password"); text("xml"); close_("meta"); close_("head"); open("file", "subject", "a.b"); open("segment", "bytes", "5", "number", "1"); text("t"); close_("segment"); close_("file"); close_("nzb"); }
EX void h_password() { init(); np = 1 + (int)sym_pick(4, "length"); sym_bytes(pw, np, "password"); for (int i = 0; i < np; i++) sym_assume((pw[i] != 0) & (pw[i] != '<') & (pw[i] != '&')); pw[np] = 0; static char file[5000]; int pad = sym_pick(2, "pad") ? 100 : 0, tail = (int)sym_pick(4, "tail"); static const int tl[] = {7, 1, 500, 4500}; int n = 0; memset(file, ' ', sizeof file); n = pad; meta = sym_pick(4, "meta") != 0; if (meta) { strcpy(file + n, "<meta type=\"password\">"); n += 22; memcpy(file + n, pw, np); n += np; memcpy(file + n, "</meta>", 7); n += 7; } int size = n + tl[tail]; if (size > 4900) size = 4900; env_put("/q/x.nzb", file, size); script = play_pw; NzbFile nzb("/q/x.nzb", ""); bool ok = nzb.Parse(); sym_assert(ok, "accepted"); const char* p = nzb.GetPassword(); if (meta) { sym_assert(p && sym_eq(p, pw, np) && p[np] == 0, "the password is taken as written"); sym_reach("reread"); } else { sym_assert(p && !strcmp(p, "xml"), "the password from the document"); sym_reach("none"); } }
static char idt[8]; static int cut1;
static void play_text() { open("nzb"); open("file", "subject", "a.b"); open("segment", "bytes", "5", "number", "1"); text(" \n", 2); text(idt, cut1); text(idt + cut1, 6 - cut1); text("\t", 1); close_("segment"); close_("file"); close_("nzb"); }
EX void h_text() { init(); sym_bytes(idt, 6, "id"); for (int i = 0; i < 6; i++) sym_assume((idt[i] != 0) & (idt[i] != ' ') & (idt[i] != 9) & (idt[i] != 10) & (idt[i] != 13)); cut1 = (int)sym_pick(7, "cut"); script = play_text; NzbFile nzb("/q/x.nzb", ""); sym_assert(nzb.Parse(), "accepted"); std::unique_ptr<NzbInfo> i = nzb.DetachNzbInfo(); const char* m = (*(*i->GetFileList())[0]->GetArticles())[0]->GetMessageId(); sym_assert(m[0] == '<' && sym_eq(m + 1, idt, 6) && m[7] == '>' && m[8] == 0, "message ids are taken as written, without surrounding blanks"); sym_reach("done"); }
