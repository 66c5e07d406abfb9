// TUS nntp/Decoder.cpp lib:yencode/ScalarDecoder.cpp util/Util.cpp util/NString.cpp
// QUICK -DK=4 -DNB=5
// THOROUGH -DK=5 -DNB=6
// BOUND every sequence of up to $K fragments out of the vocabulary of yEnc and uu articles (header lines, data, line ends, zeros, dots, arbitrary bytes), split at any two fragment boundaries or inside any fragment; all articles of $NB arbitrary bytes behind each kind of beginning
// OUTSIDE articles with more fragments; the vector variants of the yEnc decoder (C01)
// ENTRY h_frag q=100 t=900 reach=yenc,uu,none,eof
// ENTRY h_bytes q=60 t=600 reach=yenc,uu,none
// ENTRY h_raw q=30 t=200 reach=eof,open
// ENTRY h_uu q=60 t=300 reach=done
#include "article.h"
static const char* const V[] = {"=ybegin line=9 size=3 name=x", "=ybegin part=1 line=9 size=3 name=x\r\n", "=ypart begin=1 end=3", "=yend size=3", "begin 644 ab", "\r\n", "\n", "M23456789012345678901234567890123456789012345678901234567890\xff", "#abc", "..", ".", "`", "\r\n=y", "\r\n.\r\n", "=", "\0", " pcrc32=12345678901 size=99999999999999999999 name=\n", "M", " "};
enum { NV = sizeof V / sizeof *V };
static int vlen(int i) { return i == 15 ? 1 : (int)strlen(V[i]); }
static void note(Art& a) { a.d.Check(); if (a.d.GetArticleFilename()) (void)strlen(a.d.GetArticleFilename()); sym_reach(a.d.GetEof() ? "eof" : a.d.GetFormat() == Decoder::efYenc ? "yenc" : a.d.GetFormat() == Decoder::efUx ? "uu" : "none"); sym_reach(a.d.GetFormat() == Decoder::efYenc ? "yenc" : a.d.GetFormat() == Decoder::efUx ? "uu" : "none"); }
EX void h_frag() { dec_init(); char t[400]; int n = 0, at[2], ends[K]; int k = (int)sym_pick(K + 1, "fragments"); for (int i = 0; i < k; i++) { int v = (int)sym_pick(NV, "fragment"); memcpy(t + n, V[v], vlen(v)); n += vlen(v); ends[i] = n; } Art a; a.d.Clear(); a.d.SetCrcCheck(true); int s = k ? (int)sym_pick(2 * k, "split") : 0; at[0] = s < k && k ? ends[s] : k ? ends[s - k] - 1 : 0; at[1] = k && sym_pick(2, "second split") ? ends[k - 1] - 1 : n; if (at[1] < at[0]) { int x = at[0]; at[0] = at[1]; at[1] = x; } feed(a, t, n, at, 2); note(a); }
EX void h_bytes() { dec_init(); char t[400]; static const char* const P[] = {"", "=ybegin line=9 size=3 name=x\r\n", "=ybegin line=9 size=3 name=x\r\nab\r\n=yend", "=ybegin ", "begin ", "begin 644 x\r\n", "M2345678901234567890123456789012345678901234567890123456789\r\n", "=ybegin line=9 size=3 name=", "=ybegin part=1\n=ypart begin="}; int v = (int)sym_pick(sizeof P / sizeof *P, "beginning"); int n = (int)strlen(P[v]); memcpy(t, P[v], n); sym_bytes(t + n, NB, "b"); int at[1] = {n + (int)sym_pick(NB, "split")}; Art a; a.d.Clear(); a.d.SetCrcCheck(true); feed(a, t, n + NB, at, 1); note(a); }
EX void h_raw() { dec_init(); char t[12]; int n = (int)sym_pick(12, "length"); for (int i = 0; i < n; i++) { sym_bytes(t + i, 1, "b"); sym_assume((t[i] == '\r') | (t[i] == '\n') | (t[i] == '.') | (t[i] == 0)); } int at[2] = {n ? (int)sym_pick(n, "split") : 0, n ? (int)sym_pick(n, "split") : 0}; if (at[1] < at[0]) { int x = at[0]; at[0] = at[1]; at[1] = x; } Art a; a.d.Clear(); a.d.SetRawMode(true); bool eof = false; for (int i = 0; i + 5 <= n; i++) eof |= !memcmp(t + i, "\r\n.\r\n", 5); feed(a, t, n, at, 2); sym_assert(a.d.GetEof() == eof, "the end of a raw article is found exactly where it is"); if (!eof) sym_assert(a.n == n && !memcmp(a.out, t, n), "a raw article is passed through"); sym_reach(eof ? "eof" : "open"); }
// data lines of every announced length and every real length
EX void h_uu() { dec_init(); char t[400]; strcpy(t, "begin 644 x\r\n"); int n = (int)strlen(t); sym_bytes(t + n, 1, "announced"); n++; int k = (int)sym_pick(90, "real"); memset(t + n, 'x', k); n += k; strcpy(t + n, sym_pick(2, "end") ? "\r\n" : "\n"); n += (int)strlen(t + n); int at[1] = {n}; Art a; a.d.Clear(); a.d.m_lineBuf.Clear(); a.d.m_lineBuf.Reserve(n, true); feed(a, t, n, at, 1); sym_reach("done"); }
