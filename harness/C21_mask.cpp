// TUS util/Util.cpp util/NString.cpp
// QUICK -DNP=5 -DNT=5 -DNE=2 -DNK=3
// THOROUGH -DNP=6 -DNT=8 -DNE=3 -DNK=4
// BOUND masks: every mask of up to $NP bytes against every text of up to $NT bytes (any byte values other than 0), with and without recording positions
// BOUND extension lists: two entries of up to $NE bytes each (wildcards included, any of the two usual separators) against every name of up to $NK bytes
// OUTSIDE letters beyond A-Z a-z are compared byte for byte (C locale); positions of wildcard parts are checked to lie inside the text only
// ENTRY h_mask q=60 t=400 reach=yes,no
// ENTRY h_pos q=40 t=300 reach=yes,no
// ENTRY h_ext q=60 t=400 reach=yes,no
#include "common.h"
#include "priv.h"
#include "Util.h"
#include "NString.h"
#include "quietlog.h"
static int low(int c) { return (int)sym_ite((c >= 'A') & (c <= 'Z'), c + 32, c); }
// reference: the usual dynamic program, without branches on the characters
static int ref(const char* p, int np, const char* s, int ns, bool hash) {
  int d[12][12]; for (int i = 0; i <= np; i++) for (int j = 0; j <= ns; j++) {
    if (i == 0) { d[i][j] = j == 0; continue; }
    int star = p[i - 1] == '*'; int viaStar = star & (d[i - 1][j] | (j ? d[i][j - 1] : 0)); int via = 0;
    if (j) { int c = (unsigned char)s[j - 1], q = (unsigned char)p[i - 1]; int dig = (c >= '0') & (c <= '9'); int m = (low(q) == low(c)) | (q == '?') | ((q == '#') & dig); via = d[i - 1][j - 1] & m & !star; }
    d[i][j] = viaStar | via; }
  return d[np][ns];
}
static char* text(int n, const char* nm) { char* s = (char*)malloc(n + 1); if (n) sym_bytes(s, n, nm); for (int i = 0; i < n; i++) sym_assume(s[i] != 0); s[n] = 0; return s; }
static void mask(bool pos) {
  int np = (int)sym_pick((pos ? NP - 1 : NP) + 1, "np"), ns = (int)sym_pick((pos ? NT - 1 : NT) + 1, "ns"); char *p = text(np, "mask"), *s = text(ns, "text"); sym_limit(60000);
  WildMask w(p, pos); bool r = w.Match(s); 
  sym_assert((int)r == ref(p, np, s, ns, true), "the mask matches exactly the texts it describes");
  if (pos && r) for (int i = 0; i < w.GetMatchCount(); i++) { int a = w.GetMatchStart(i), l = w.GetMatchLen(i); sym_assert((a >= 0) & (l >= 0) & (a + l <= ns), "a wildcard part lies inside the text"); }
  sym_reach(r ? "yes" : "no");
}
EX void h_mask() { mask(false); }
EX void h_pos() { mask(true); }
EX void h_ext() {
  int k = (int)sym_pick(NK + 1, "k"); char* name = text(k, "name"); char e[2][8]; int n[2]; char list[40]; int o = 0; int sep = (int)sym_pick(3, "sep");
  for (int i = 0; i < 2; i++) { n[i] = (int)sym_pick(NE + 1, "n"); if (n[i]) sym_bytes(e[i], n[i], "ext"); e[i][n[i]] = 0; for (int j = 0; j < n[i]; j++) { char c = e[i][j]; sym_assume((c != 0) & (c != ',') & (c != ';') & (c != ' ') & (c != '\t') & (c != '\r') & (c != '\n')); } if (i) { list[o++] = sep ? ',' : ';'; if (sep == 2) list[o++] = ' '; } memcpy(list + o, e[i], n[i]); o += n[i]; } list[o] = 0;
  sym_limit(100000); bool r = Util::MatchFileExt(name, list, ",;");
  int want = 0; for (int i = 0; i < 2; i++) if (n[i]) { int suf = n[i] <= k; if (suf) for (int j = 0; j < n[i]; j++) suf &= low((unsigned char)e[i][j]) == low((unsigned char)name[k - n[i] + j]); int wild = 0; for (int j = 0; j < n[i]; j++) wild |= (e[i][j] == '*') | (e[i][j] == '?'); want |= suf | (wild & ref(e[i], n[i], name, k, true)); }
  sym_assert((int)r == want, "a name matches the list exactly when an entry is its ending or its mask"); sym_reach(r ? "yes" : "no");
}
