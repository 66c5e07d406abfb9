// TUS nntp/Decoder.cpp lib:yencode/ScalarDecoder.cpp util/Util.cpp util/NString.cpp
// QUICK -DNP=5 -DNW=2
// THOROUGH -DNP=10 -DNW=4
// BOUND whole articles: $NP payload bytes of which $NW at any place take every value, encoded with line lengths of 1 to 4, every critical byte and the ones the poster may escape too escaped as described (also dots at line starts, doubled in transmission), single- and multi-part, split into reads at any two points
// ENTRY h_article q=100 t=600 reach=single,multi
// ENTRY h_names q=30 t=200 reach=done
#include "article.h"

static char t[600]; static int n; static unsigned char pay[64];
static void text(const char* s) { strcpy(t + n, s); n += (int)strlen(s); }
// the yEnc encoder of a poster followed by the dot-stuffing of the server
static void encode(const unsigned char* p, int k, int width, bool all) { int col = 0; for (int i = 0; i < k; i++) { unsigned char e = (unsigned char)(p[i] + 42); bool crit = (e == 0) | (e == '\r') | (e == '\n') | (e == '='); if (all) crit |= (e == '\t') | (e == ' ') | ((e == '.') & (col == 0)); bool dot = (e == '.') & (col == 0); if (sym_split(crit)) { t[n++] = '='; t[n++] = (char)(e + 64); col += 2; } else { if (col == 0 && sym_split(dot)) t[n++] = '.'; t[n++] = (char)e; col++; } if (col >= width && i + 1 < k) { t[n++] = '\r'; t[n++] = '\n'; col = 0; } } text("\r\n"); }
EX void h_article() { dec_init(); n = 0; bool multi = sym_pick(2, "multi"), all = sym_pick(2, "escape more"), check = true; int w = 1 + (int)sym_pick(4, "width"), at0 = (int)sym_pick(NP - NW + 1, "place"); for (int i = 0; i < NP; i++) pay[i] = (unsigned char)(i * 5 + 4); sym_bytes(pay + at0, NW, "p"); uint32_t c = 7; for (int i = 0; i < NP; i++) c = mix(c, pay[i]);
  BString<100> b("%i", NP); text(multi ? "=ybegin part=2 total=3 line=128 size=5000000000 name=a b.bin\r\n=ypart begin=4294967297 end=" : "=ybegin line=128 size="); if (multi) { b.Format("%lli", 4294967296ll + NP); text(b); } else { text(b); text(" name=a b.bin"); } text("\r\n"); int body = n; encode(pay, NP, w, all); int end = n; text("=yend size="); b.Format("%i", NP); text(b); text(multi ? " part=2 pcrc32=" : " crc32="); uint32_t v = mixEnd(c); for (int i = 28; i >= 0; i -= 4) t[n++] = (char)('0' + (v >> i & 15)); text("\r\n.\r\n");
  int at[2]; at[0] = body - 2 + (int)sym_pick(end - body + 4, "split"); static const int D[] = {0, 1, 2, 3}; at[1] = at[0] + D[sym_pick(4, "second split")]; Art a; a.d.Clear(); a.d.SetCrcCheck(check); feed(a, t, n, at, 2); sym_assert(a.n == NP, "number of decoded bytes"); sym_assert(sym_eq(a.out, pay, NP), "the payload is decoded exactly"); sym_assert(a.d.GetEof(), "the end is found"); sym_assert(a.d.Check() == Decoder::dsFinished, "the article is good"); sym_assert(a.d.GetCalculatedCrc() == v, "the checksum is the one of the payload"); sym_assert(!strcmp(a.d.GetArticleFilename(), "a b.bin"), "file name"); sym_assert(a.d.GetBeginPos() == (multi ? 4294967297ll : 1) && a.d.GetEndPos() == (multi ? 4294967296ll + NP : NP) && a.d.GetSize() == (multi ? 5000000000ll : NP), "range of the part"); sym_reach(multi ? "multi" : "single"); }
// header fields do not depend on each other or on the name
EX void h_names() { dec_init(); n = 0; static const char* const N[] = {"a.bin", "a part=1.bin", "size=9 begin=7", " x", "=yend size=1", "a\xe4", "x name=y", "a\tb"}; const char* nm = N[sym_pick(8, "name")]; bool multi = sym_pick(2, "multi"), crlf = sym_pick(2, "crlf"); text(multi ? "=ybegin part=1 total=1 line=128 size=4 name=" : sym_pick(2, "order") ? "=ybegin line=128 size=4 name=" : "=ybegin size=4 line=128 name="); text(nm); const char* e = crlf ? "\r\n" : "\n"; text(e); if (multi) { text("=ypart begin=1 end=4"); text(e); } text("klmn\r\n=yend size=4\r\n.\r\n"); int at[1] = {(int)sym_pick(n, "split")}; Art a; a.d.Clear(); a.d.SetCrcCheck(true); feed(a, t, n, at, 1); sym_assert(a.n == 4 && !memcmp(a.out, "ABCD", 4), "the payload is decoded exactly"); sym_assert(a.d.Check() == Decoder::dsFinished && a.d.GetEof(), "the article is good"); sym_assert(a.d.GetBeginPos() == 1 && a.d.GetEndPos() == 4 && a.d.GetSize() == 4, "range of the part"); const char* f = a.d.GetArticleFilename(); sym_assert(f && !strcmp(f, nm == N[5] ? "a\xc3\xa4" : nm), "file name"); sym_reach("done"); }
