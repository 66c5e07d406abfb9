// TUS nntp/ArticleDownloader.cpp nntp/Decoder.cpp lib:yencode/ScalarDecoder.cpp util/Util.cpp util/NString.cpp
// QUICK -DNP=3 -DDEEP=0
// THOROUGH -DNP=6 -DDEEP=1
// BOUND single- and multi-part articles with $NP arbitrary payload bytes, one of them possibly escaped; every announced size of up to 4 digits (thorough: 7) in header or trailer (the other one right, off by one, zero, 65536 more or tenfold), every checksum of 8 digits; every header, part, trailer and end-of-article line present or missing; checking on or off; cut at any offset; split into reads at any point (four points where all fields are arbitrary); two payload areas in one article
// OUTSIDE line structure of long articles (C01)
// ENTRY h_fields q=100 t=600 reach=good,incomplete,size,crc
// ENTRY h_cut q=60 t=300 reach=good,bad
// ENTRY h_lines q=60 t=300 reach=good,bad,text
// ENTRY h_twice q=30 t=100 reach=good,bad
// ENTRY h_result q=60 t=300 reach=finished,failed,crcerror,raw
// ENTRY h_uu q=10 t=20 reach=bad
#include "article.h"

#include "Options.h"
#include "ArticleDownloader.h"
static char t[600]; static int n; static unsigned char pay[64]; static int np; static uint32_t crc;
static void text(const char* s) { strcpy(t + n, s); n += (int)strlen(s); }
static void digits(int64_t v) { BString<100> b("%i", (int)v); text(b); }
static void payload(int k, bool esc) { for (int i = 0; i < k; i++) { unsigned char b; sym_bytes(&b, 1, "p"); unsigned char e = (unsigned char)(b + 42); bool safe = (e != 0) & (e != '\r') & (e != '\n') & (e != '=') & (e != '.'); sym_assume(safe); if (esc && i == 1) { t[n++] = '='; t[n++] = (char)(e + 64); unsigned char x = (unsigned char)(e + 64); sym_assume((x != 'y') & (x != '\r') & (x != '\n') & (x != 0)); } else t[n++] = (char)e; pay[np++] = b; crc = mix(crc, b); } }
static void hex(uint32_t v, bool up) { static const char* const H[] = {"0123456789abcdef", "0123456789ABCDEF"}; for (int i = 28; i >= 0; i -= 4) t[n++] = H[up][v >> i & 15]; }
static void sym_digits(int k, const char* name, uint64_t& v) { v = 0; for (int i = 0; i < k; i++) { sym_bytes(t + n, 1, name); sym_assume((t[n] >= '0') & (t[n] <= '9')); v = v * 10 + (unsigned)(t[n] - '0'); n++; } }
static void sym_hex(uint64_t& v) { v = 0; for (int i = 0; i < 8; i++) { sym_bytes(t + n, 1, "crc"); sym_assume((t[n] >= '0') & (t[n] <= '9')); v = v << 4 | (unsigned)(t[n] - '0'); n++; } }
static void start() { dec_init(); n = np = 0; crc = 7; }
EX void h_fields() { start(); bool multi = sym_pick(2, "multi"), check = sym_pick(2, "check"), hasEnd = sym_pick(2, "end"), hasCrc = hasEnd && sym_pick(2, "has crc"), other = hasEnd && sym_pick(2, "other crc"); uint64_t size, esize, c = 0; static const int DG[] = {1, 2, DEEP ? 7 : 4}; int which = hasEnd ? (int)sym_pick(4, "which is arbitrary") : 0; int ds = which == 1 ? DG[sym_pick(3, "digits of size")] : 0, de = which == 2 ? DG[sym_pick(3, "digits of end size")] : 0; static const int SZ[] = {NP, NP - 1, NP + 65536, 0, NP + 1, NP * 10}; int vs = SZ[sym_pick(which == 3 ? 1 : DEEP ? 6 : 3, "size")], ve = SZ[sym_pick(which == 3 || !hasEnd ? 1 : DEEP ? 6 : 3, "end size")];
  text(multi ? "=ybegin part=1 total=2 line=128 size=" : "=ybegin line=128 size="); if (ds) sym_digits(ds, "size", size); else { digits(vs); size = vs; } text(" name=a.bin\r\n"); if (multi) text("=ypart begin=1 end=4\r\n"); payload(NP, sym_pick(2, "escape")); if (hasEnd) { text("\r\n=yend size="); if (de) sym_digits(de, "endsize", esize); else { digits(ve); esize = ve; } if (multi) text(" part=1"); if (other && multi) text(" crc32=00000000"); if (other && !multi) text(" pcrc32=00000000"); if (hasCrc) { text(multi ? " pcrc32=" : " crc32="); if (which == 3) sym_hex(c); else { c = mixEnd(crc); if (sym_pick(2, "wrong")) c ^= 0x1000; for (int i = 28; i >= 0; i -= 4) t[n++] = (char)('0' + (c >> i & 15)); } } } text("\r\n.\r\n");
  Art a; a.d.Clear(); a.d.SetCrcCheck(check); int at[1] = {(int)sym_pick(4, "split") * n / 4}; feed(a, t, n, at, 1); Decoder::EStatus s = a.d.Check(); sym_assert(a.n == np && sym_eq(a.out, pay, np), "decoded bytes"); sym_assert(a.d.GetEof(), "the end is found");
  if (!hasEnd) { sym_assert(s == Decoder::dsArticleIncomplete, "an article without trailer is incomplete"); sym_reach("incomplete"); return; }
  bool sizeOk = (esize == (uint64_t)np) & (multi | (size == esize)), crcOk = !check | !hasCrc | (c == mixEnd(crc)); sym_assert((s == Decoder::dsFinished) == (sizeOk & crcOk), "good exactly if sizes and checksum agree"); sym_assert((s == Decoder::dsInvalidSize) == !sizeOk, "a wrong size is named"); sym_assert((s == Decoder::dsCrcError) == (sizeOk & !crcOk), "a wrong checksum is named"); if (s == Decoder::dsFinished) { if (check) sym_assert(a.d.GetCalculatedCrc() == mixEnd(crc), "the checksum is the one of the data"); if (hasCrc) sym_assert(a.d.GetExpectedCrc() == c, "the announced checksum"); } sym_reach(sizeOk ? crcOk ? "good" : "crc" : "size"); }
static void good(bool multi) { text(multi ? "=ybegin part=1 total=2 line=128 size=99 name=a.bin\r\n=ypart begin=10 end=13\r\n" : "=ybegin line=128 size=4 name=a.bin\r\n"); payload(4, false); text("\r\n=yend size=4"); text(multi ? " part=1 pcrc32=" : " crc32="); hex(0, false); int p = n - 8; uint32_t v = mixEnd(crc); for (int i = 0; i < 8; i++) t[p + i] = (char)('0' + (v >> (28 - 4 * i) & 15)); }
EX void h_cut() { start(); bool multi = sym_pick(2, "multi"); good(multi); int trailer = n; text("\r\n.\r\n"); int cut = (int)sym_pick(n + 1, "cut"); Art a; a.d.Clear(); a.d.SetCrcCheck(true); int at[1] = {cut ? (int)sym_pick(cut, "split") : 0}; feed(a, t, cut, at, 1); Decoder::EStatus s = a.d.Check(); sym_assert(a.n <= np && sym_eq(a.out, pay, a.n), "nothing else is decoded"); if (cut <= trailer) sym_assert(s != Decoder::dsFinished, "a cut article is not good"); if (cut >= trailer + 2) sym_assert(s == Decoder::dsFinished && a.n == np, "a complete article is good"); if (multi && s == Decoder::dsFinished) sym_assert(a.d.GetBeginPos() == 10 && a.d.GetEndPos() == 13 && a.d.GetSize() == 99, "range of the part"); sym_reach(s == Decoder::dsFinished ? "good" : "bad"); }
// lines removed or in front of the article
EX void h_lines() { start(); bool junk = sym_pick(2, "text"), begin = sym_pick(2, "begin"), part = sym_pick(2, "part"), end = sym_pick(2, "end"), eof = sym_pick(2, "eof"), multi = sym_pick(2, "multi"), data = sym_pick(2, "data"); static const char* const J[] = {"Hello\r\n", "=yend size=4\r\n", "=ybegi\r\n", "\r\n", "..\r\n", "begin x\r\n", " =ybegin line=128 size=4 name=x\r\n"}; if (junk) text(J[sym_pick(7, "which")]); if (begin) text(multi ? "=ybegin part=1 line=128 size=99 name=a\r\n" : "=ybegin line=128 size=4 name=a\r\n"); if (part) text("=ypart begin=1 end=4\r\n"); if (data) { payload(4, false); text("\r\n"); } if (end) text("=yend size=4\r\n"); if (eof) text(".\r\n");
  Art a; a.d.Clear(); a.d.SetCrcCheck(true); int at[1] = {n ? (int)sym_pick(n, "split") : 0}; feed(a, t, n, at, 1); Decoder::EStatus s = a.d.Check(); bool fits = begin && end && (multi ? part : true); if (s == Decoder::dsFinished) { sym_assert(begin && end, "a good article has header and trailer"); sym_assert(a.n == 4, "the decoded size is the one announced"); if (multi || !part) sym_assert(sym_eq(a.out, pay, 4), "decoded bytes"); } if (fits && data && (multi || !part) && !junk) sym_assert(s == Decoder::dsFinished, "a complete article is good"); if (!begin) sym_assert(a.n == 0, "nothing is decoded without header"); sym_reach(s == Decoder::dsFinished ? "good" : "bad"); if (junk) sym_reach("text"); }
// more than one payload area
EX void h_twice() { start(); text("=ybegin part=1 line=128 size=99 name=a\r\n=ypart begin=1 end=4\r\n"); payload(2, false); text("\r\n=ypart begin=3 end=4\r\n"); payload(2, false); text("\r\n=yend size=4 pcrc32="); uint64_t c; sym_hex(c); text("\r\n.\r\n"); Art a; a.d.Clear(); a.d.SetCrcCheck(true); int at[1] = {(int)sym_pick(n, "split")}; feed(a, t, n, at, 1); Decoder::EStatus s = a.d.Check(); if (s == Decoder::dsFinished) { sym_assert(c == mixEnd(crc), "the checksum is the one of the data"); sym_assert(a.n == np && sym_eq(a.out, pay, np), "decoded bytes"); } sym_reach(s == Decoder::dsFinished ? "good" : "bad"); }
EX void h_uu() { start(); text("begin 6x4 f\r\n#86)C\r\n`\r\nend\r\n.\r\n"); Art a; a.d.Clear(); int at[1] = {n}; feed(a, t, n, at, 1); sym_assert(a.d.Check() != Decoder::dsFinished && a.n == 0, "text is no article"); sym_reach("bad"); }
// what the downloader makes of it
EX void h_result() { dec_init(); Options* o = (Options*)calloc(1, sizeof(Options)); g_Options = o; ArticleDownloader* d = (ArticleDownloader*)calloc(1, sizeof(ArticleDownloader)); new (&d->m_decoder) Decoder; ArticleInfo* ai = (ArticleInfo*)calloc(1, sizeof(ArticleInfo)); d->m_articleInfo = ai; Decoder& x = d->m_decoder; o->m_crcCheck = sym_pick(2, "check"); o->m_rawArticle = sym_pick(4, "raw") == 3; x.m_crcCheck = o->m_crcCheck; x.m_format = (Decoder::EFormat)sym_pick(3, "format"); x.m_begin = sym_bool("begin"); x.m_end = sym_bool("end"); x.m_part = sym_bool("part"); x.m_body = sym_bool("body"); x.m_crc = sym_bool("crc"); x.m_size = (int64)sym_range(0, UINT32_MAX, "size"); x.m_endSize = (int64)sym_range(0, UINT32_MAX, "endsize"); x.m_outSize = (int64)sym_range(0, UINT32_MAX, "outsize"); x.m_expectedCRC = (uint32)sym_range(0, UINT32_MAX, "expected"); uint32_t h = (uint32_t)sym_range(0, UINT32_MAX, "state"); *(uint32_t*)x.m_crc32.m_state = h;
  bool yenc = x.m_format == Decoder::efYenc, uu = x.m_format == Decoder::efUx, sizes = (x.m_endSize == x.m_outSize) & (x.m_part | (x.m_size == x.m_endSize)), crcOk = !o->m_crcCheck | !x.m_crc | (x.m_expectedCRC == mixEnd(h)); ArticleDownloader::EStatus s = d->DecodeCheck(); if (o->m_rawArticle) { sym_assert(s == ArticleDownloader::adFinished, "raw articles are not checked"); sym_reach("raw"); return; }
  bool ok = yenc ? (x.m_begin & x.m_end & sizes & crcOk) : uu ? x.m_body : false; sym_assert((s == ArticleDownloader::adFinished) == ok, "finished exactly if the article is good"); if (yenc) sym_assert((s == ArticleDownloader::adCrcError) == (x.m_begin & x.m_end & sizes & !crcOk), "a wrong checksum is reported"); sym_assert(s == ArticleDownloader::adFinished || s == ArticleDownloader::adFailed || s == ArticleDownloader::adCrcError, "anything else is a failure"); if (s == ArticleDownloader::adFinished && yenc) sym_assert(ai->GetCrc() == (o->m_crcCheck ? mixEnd(h) : x.m_expectedCRC), "the checksum is recorded"); sym_reach(s == ArticleDownloader::adFinished ? "finished" : s == ArticleDownloader::adFailed ? "failed" : "crcerror"); }
