// TUS nntp/Decoder.cpp lib:yencode/ScalarDecoder.cpp util/Util.cpp util/NString.cpp
// QUICK -DDEEP=0
// THOROUGH -DDEEP=1
// BOUND an article of up to three lines of 1, 2, 3, 4, 14 (a line starting with a dot), 45 bytes, the first four bytes of every line arbitrary; with and without "begin" line (then the first line is a full one), zeros as blanks or grave accents, incomplete last group cut or padded; both usual endings; split into reads at any two points
// OUTSIDE lines with trailing blanks removed by the poster
// ENTRY h_uu q=100 t=600 reach=done
// ENTRY h_attempts q=30 t=100 reach=done
#include "article.h"
static char t[1000]; static int n; static unsigned char pay[200]; static int np;
static void line(int len, bool grave, bool pad) { unsigned char* p = pay + np; for (int i = 0; i < len; i++) p[i] = (unsigned char)(i * 37 + np); sym_bytes(p, len < 4 ? len : 4, "p"); np += len; char lc = (char)(32 + len); if (lc == '.') t[n++] = '.'; t[n++] = lc;
  for (int i = 0; i < len; i += 3) { int r = len - i < 3 ? len - i : 3; unsigned a = p[i], b = r > 1 ? p[i + 1] : 0, c = r > 2 ? p[i + 2] : 0; unsigned v[4] = {a >> 2, (a << 4 | b >> 4) & 63, (b << 2 | c >> 6) & 63, c & 63}; for (int k = 0; k < (pad ? 4 : r + 1); k++) t[n++] = (char)(grave ? sym_ite(v[k] == 0, 96, v[k] + 32) : v[k] + 32); } t[n++] = '\r'; t[n++] = '\n'; }
static void text(const char* s) { strcpy(t + n, s); n += (int)strlen(s); }
EX void h_uu() { dec_init(); n = np = 0; bool begin = sym_pick(2, "begin"), grave = sym_pick(2, "grave"), pad = sym_pick(2, "padded"); if (begin) text("begin 644 name.bin\r\n"); static const int L[] = {1, 2, 3, 4, 14, 45}; int k = 1 + (int)sym_pick(DEEP ? 3 : 2, "lines"); for (int i = 0; i < k; i++) line(!begin && !i ? 45 : i + 1 < k && !DEEP ? (sym_pick(2, "full") ? 45 : 14) : L[sym_pick(6, "line length")], grave, pad); if (sym_pick(2, "end")) text("`\r\nend\r\n"); else if (begin) text(" \r\nend\r\n"); text(".\r\n");
  int at[2]; at[0] = (int)sym_pick(n, "split"); int d = (int)sym_pick(4, "second split"); static const int D[] = {0, 1, 2, 63}; at[1] = at[0] + D[d]; Art a; a.d.Clear(); feed(a, t, n, at, 2); sym_assert(a.d.GetEof(), "the end of the article is found"); sym_assert(a.n == np, "number of decoded bytes"); sym_assert(sym_eq(a.out, pay, np), "decoded bytes"); sym_assert(a.d.Check() == Decoder::dsFinished, "the article is good"); if (begin) sym_assert(a.d.GetArticleFilename() && !strcmp(a.d.GetArticleFilename(), "name.bin"), "file name"); sym_reach("done"); }
// the next attempt to download the article starts afresh
EX void h_attempts() { dec_init(); n = np = 0; Art a; a.d.Clear(); int k = (int)sym_pick(3, "first"); text(k == 0 ? "=ybegin line=128 size=5 name=a\r\nab" : k == 1 ? "begin 644 f\r\n#" : "text\r\nM"); int at[1] = {n}; feed(a, t, n, at, 1); a.d.Clear(); a.n = a.in = 0; n = 0; text("begin 644 name.bin\r\n"); line(4, true, true); text("`\r\nend\r\n.\r\n"); at[0] = n; feed(a, t, n, at, 1); sym_assert(a.n == np && sym_eq(a.out, pay, np), "decoded bytes"); sym_assert(a.d.Check() == Decoder::dsFinished && a.d.GetEof(), "the article is good"); sym_reach("done"); }
