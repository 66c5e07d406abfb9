// TUS feed/FeedFilter.cpp feed/FeedInfo.cpp util/Util.cpp util/NString.cpp
// QUICK -DNR=3 -DNK=6 -DNT=4 -DNP=2 -DNB=2
// THOROUGH -DNR=4 -DNK=8 -DNT=4 -DNP=3 -DNB=3
// BOUND h_number: every numeric field with an arbitrary value, all comparisons, negated or not, against a list of written values with all units; h_rules: $NR rules of any kind (accept, options, reject, require, comment, malformed), terms arbitrarily true or false; h_expr: every sequence of $NK tokens (terms, groups, or); h_text: titles of up to $NT characters (letters of both cases, a digit, separators, a wildcard character, a byte above 127), every mask of up to $NP characters of an alphabet of letters, digits, separators and wildcards; h_any: $NB arbitrary bytes at the start, after a command or among the options of a rule
// STUB regular expressions match arbitrarily
// OUTSIDE and/or mixed in one group without braces (documented as undefined); numbers beyond 2^53
// ENTRY h_number q=60 t=300 reach=yes,no
// ENTRY h_rules q=60 t=600 reach=accepted,rejected,ignored
// ENTRY h_expr q=60 t=600 reach=yes,no,malformed
// ENTRY h_text q=60 t=600 reach=yes,no
// ENTRY h_any q=90 t=600 reach=done
// ENTRY h_regex q=10 t=30 reach=yes,no
#include "common.h"
#include "priv.h"
#include "FeedFilter.h"
#include "FeedInfo.h"
#include "Log.h"
#include "Util.h"
#include "quietlog.h"
Log* g_Log;
static bool regexResult; static int regexCalls;
RegEx::RegEx(const char*, int) { m_valid = true; m_matchBufSize = 0; } RegEx::~RegEx() {} bool RegEx::Match(const char*) { regexCalls++; return regexResult; } int RegEx::GetMatchCount() { return 1; } int RegEx::GetMatchStart(int) { return 0; } int RegEx::GetMatchLen(int) { return 0; }
struct Helper : FeedFilterHelper { std::unique_ptr<RegEx> r[3]; std::unique_ptr<RegEx>& GetRegEx(int id) { return r[id]; } void CalcDupeStatus(const char*, const char*, char* b, int n) { if (n) b[0] = 0; } };
static Helper helper; static FeedItemInfo* it;
static void item() { env_reset(); it = new FeedItemInfo(); it->SetFeedFilterHelper(&helper); it->SetTitle("t"); it->SetFilename("f"); it->SetUrl("u"); it->SetCategory("c"); it->SetDescription("d"); it->SetDupeKey(""); }
static bool accepts(const char* rule) { FeedFilter f(rule); f.Match(*it); return it->GetMatchStatus() == FeedItemInfo::msAccepted; }
// values as written and what they mean in thousandths of the unit
struct Num { const char* t; int64_t milli; }; static const Num nums[] = {{"0", 0}, {"1", 1000}, {"20", 20000}, {"1.5", 1500}, {"700", 700000}, {"2147483648", 2147483648000LL}, {"-3", -3000}, {"-2.5", -2500}, {"0.25", 250}};
EX void h_number() { item(); static const char* const fields[] = {"size", "age", "imdbid", "rageid", "tvdbid", "tvmazeid", "season", "episode", "priority", "dupescore", "SIZE"}; int fi = (int)sym_pick(11, "field"); static const char* const ops[] = {"<", "<=", ">", ">=", "="}; int op = (int)sym_pick(5, "op"); int sign = (int)sym_pick(3, "sign"); bool neg = sign == 1; const Num& nu = nums[sym_pick(9, "value")]; bool size = fi == 0 || fi == 10, age = fi == 1; const char* unit = ""; __int128 mul = 1; 
  if (size) { static const char* const un[] = {"", "K", "KB", "M", "mb", "G", "GB"}; int u = (int)sym_pick(7, "unit"); unit = un[u]; mul = u == 0 ? 1 : u < 3 ? 1024 : u < 5 ? 1048576 : 1073741824; } if (age) { static const char* const un[] = {"", "m", "h", "d", "D"}; int u = (int)sym_pick(5, "unit"); unit = un[u]; mul = u == 1 ? 60 : u == 2 ? 3600 : 86400; }
  bool negUnit = (size || age) && nu.milli < 0; int64_t v; if (size || age) { v = sym_irange(-(1LL << 50), 1LL << 50, "value of the item"); } else v = sym_irange(-2147483647 - 1, 2147483647, "value of the item"); if (size) it->SetSize(v); else if (age) { env_now = 1500000000; it->SetTime(1500000000 - v); } else switch (fi) { case 2: it->SetImdbId((int)v); break; case 3: it->SetRageId((int)v); break; case 4: it->SetTvdbId((int)v); break; case 5: it->SetTvmazeId((int)v); break; case 6: it->m_season = "S"; it->m_seasonNum = (int)v; break; case 7: it->m_episode = "E"; it->m_episodeNum = (int)v; break; case 8: it->SetPriority((int)v); break; default: it->SetDupeScore((int)v); }
  BString<100> rule("A: %s%s:%s%s%s", sign == 1 ? "-" : sign == 2 ? "+" : "", fields[fi], ops[op], nu.t, unit); bool r = accepts(rule); sym_trace("rule", 0); if (negUnit) { sym_assert(!r, "a malformed number makes the rule invalid"); sym_reach("no"); return; }
  // documented: sizes and ages in whole bytes and seconds; other fields compare with the number as written
  int64_t lim = (int64_t)((__int128)nu.milli * mul / 1000); bool want; if (size || age) { want = op == 0 ? v < lim : op == 1 ? v <= lim : op == 2 ? v > lim : op == 3 ? v >= lim : v == lim; } else { int64_t k = nu.milli; int64_t m = v * 1000; want = op == 0 ? m < k : op == 1 ? m <= k : op == 2 ? m > k : op == 3 ? m >= k : m == k; }
  sym_assert(r == (want != neg), "a numeric term compares as written"); sym_reach(r ? "yes" : "no"); }
EX void h_rules() { item(); int id = (int)sym_irange(-5, 5, "imdbid"); it->SetImdbId(id); it->SetCategory("old"); CString f; int kind[8], lim[8]; int n = 1 + (int)sym_pick(NR, "rules"); static const char* const cmds[] = {"A:", "R:", "Q:", "O(p:y):", "#A:", "Accept(cat:new,pause:yes,priority:7,priority+:2,dupescore:-3,dupescore+:5,dupekey:k1,dupekey+:k2,dupemode:force): ", "A:x:", "", "R: size:1Q ", "Require: ", "reject:", "A(pause:maybe): "}; static const int what[] = {0, 1, 2, 3, 4, 5, 6, 0, 6, 2, 1, 6};
  for (int i = 0; i < n; i++) { int c = (int)sym_pick(i == 0 ? 12 : 7, "rule"); kind[i] = what[c]; lim[i] = i == 0 ? 0 : i == 1 ? -2 : i == 2 ? 3 : 1; f.AppendFmt("%s%s%simdbid:%s%i", i ? "%" : "", cmds[c], c == 3 ? " " : "", i % 2 ? "<" : ">", lim[i]); }
  FeedFilter ff(f); ff.Match(*it); int st = it->GetMatchStatus(), ru = it->GetMatchRule(); int wantS = FeedItemInfo::msIgnored, wantR = 0; bool options = false, optPause = false, done = false; bool rich = false; for (int i = 0; i < n && !done; i++) { bool m = i % 2 ? id < lim[i] : id > lim[i]; switch (kind[i]) { case 0: if (m) { wantS = FeedItemInfo::msAccepted; wantR = i + 1; done = true; } break; case 5: if (m) { wantS = FeedItemInfo::msAccepted; wantR = i + 1; done = rich = true; } break; case 1: if (m) { wantS = FeedItemInfo::msRejected; wantR = i + 1; done = true; } break; case 2: if (!m) { wantS = FeedItemInfo::msRejected; wantR = i + 1; done = true; } break; case 3: if (m) optPause = true; break; } } (void)options;
  sym_assert(st == wantS, "the first rule that applies decides"); sym_assert(ru == wantR, "the number of the deciding rule is reported"); sym_assert(it->GetPauseNzb() == (optPause || rich), "the pause option of matching rules is applied"); sym_assert(it->GetPriority() == (rich ? 9 : 0), "priority of the matching rule"); sym_assert(it->GetDupeScore() == (rich ? 2 : 0), "duplicate score of the matching rule"); sym_assert(it->GetDupeMode() == (rich ? dmForce : dmScore), "duplicate mode of the matching rule"); sym_assert(!strcmp(it->GetDupeKey(), rich ? "k1-k2" : ""), "duplicate key of the matching rule"); sym_assert(rich == (it->GetAddCategory() && !strcmp(it->GetAddCategory(), "new")), "category of the matching rule"); sym_reach(st == FeedItemInfo::msAccepted ? "accepted" : st == FeedItemInfo::msRejected ? "rejected" : "ignored"); }
// expressions: tokens with value 0/1, braces and |; -1: malformed, -2: undefined (and, or mixed)
static const char* tk; static int group(bool top); static int elem() { if (*tk == 'T' || *tk == 'F') return *tk++ == 'T'; if (*tk == '(') { tk++; int v = group(false); if (*tk != ')') return -1; tk++; return v; } return -1; }
static int group(bool top) { while (*tk == '|') tk++; int v = -1; bool any = false, anyAnd = false, anyOr = false, mix = false; bool orNext = false; for (;;) { if (*tk == 0 || *tk == ')') { break; } if (*tk == '|') { orNext = true; tk++; continue; } int e = elem(); if (e == -1) return -1; if (e == -2) mix = true; if (!any) v = e; else if (orNext) { anyOr = true; v |= e; } else { anyAnd = true; v &= e; } any = true; orNext = false; } if (orNext && top) return -1; if (!any) return -1; if (mix || (anyAnd && anyOr)) return -2; return v; }
EX void h_expr() { item(); int k = 1 + (int)sym_pick(NK, "tokens"); char t[16]; CString f = "A:"; static const char tok[] = "TF()|"; for (int i = 0; i < k; i++) { t[i] = tok[sym_pick(5, "token")]; f.AppendFmt(" %s", t[i] == 'T' ? "imdbid:0" : t[i] == 'F' ? "-imdbid:0" : t[i] == '(' ? "(" : t[i] == ')' ? ")" : "|"); } t[k] = 0; bool r = accepts(f); 
  // leading "or" at the top level and unbalanced braces are syntax errors
  tk = t; bool lead = t[0] == '|'; int v = group(true); bool bad = v == -1 || *tk || lead; int depth = 0; for (int i = 0; i < k; i++) { depth += t[i] == '(' ? 1 : t[i] == ')' ? -1 : 0; if (depth < 0) bad = true; } if (depth) bad = true; bool empty = strstr(t, "()") || strstr(t, "(|)") || strstr(t, "(||)"); if (empty) bad = true;
  if (bad) { sym_assert(!r, "a malformed rule never matches"); sym_reach("malformed"); } else if (v >= 0) { sym_assert(r == (v == 1), "terms are combined with and, or and groups"); sym_reach(r ? "yes" : "no"); } }
// text terms
static int low(int c) { return (int)sym_ite((c >= 'A') & (c <= 'Z'), c + 32, c); }
static int mm(const char* p, int np, const char* s, int ns) { int d[20][20]; for (int i = 0; i <= np; i++) for (int j = 0; j <= ns; j++) { if (i == 0) { d[i][j] = j == 0; continue; } int q = p[i - 1]; if (q == '*') { d[i][j] = d[i - 1][j] | (j ? d[i][j - 1] : 0); continue; } int c = j ? (unsigned char)s[j - 1] : 0; d[i][j] = j ? d[i - 1][j - 1] & ((q == '?') | ((q == '#') & (c >= '0') & (c <= '9')) | (low(q) == low(c))) : 0; } return d[np][ns]; }
static const char* const seps = " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";
static int isSep(int c) { int r = 0; for (const char* q = seps; *q; q++) r |= c == *q; return r; }
EX void h_text() { item(); static const char al[] = "aB.1_#*?-"; int ns = (int)sym_pick(NT + 1, "title length"), np = 1 + (int)sym_pick(NP, "mask length"); char s[12], p[8]; if (ns) sym_bytes(s, ns, "title"); for (int i = 0; i < ns; i++) { int in = 0; for (const char* q = "aAb1.-#\xe4"; *q; q++) in |= s[i] == *q; sym_assume(in); } s[ns] = 0; for (int i = 0; i < np; i++) p[i] = al[sym_pick(i ? 9 : 8, "mask")]; p[np] = 0; it->SetTitle(s); bool fn = np < NP && sym_pick(2, "field"); it->SetFilename(s); BString<100> rule("A: %s@%s", fn ? "filename:" : "", p); bool r = accepts(rule);
  bool sub = np >= 2 && p[0] == '*' && p[np - 1] == '*'; for (int i = 0; i < np; i++) if (strchr(seps, p[i]) && p[i] != '*' && p[i] != '?' && p[i] != '#') sub = true; int want = 0; if (sub) { char q[12]; int n = 0; if (p[0] != '*') q[n++] = '*'; for (int i = 0; i < np; i++) q[n++] = p[i]; if (p[np - 1] != '*') q[n++] = '*'; want = mm(q, n, s, ns); } else { int sp[12]; for (int i = 0; i < ns; i++) sp[i] = isSep(s[i]); for (int b = 0; b < ns; b++) { int inside = b == 0 ? 1 : sp[b - 1]; for (int e = b + 1; e <= ns; e++) { inside &= !sp[e - 1]; want |= inside & (e == ns ? 1 : sp[e]) & mm(p, np, s + b, e - b); } } }
  sym_assert((int)r == want, "a text term matches whole words or, with separators, parts of the text"); sym_reach(r ? "yes" : "no"); }
EX void h_regex() { item(); regexResult = sym_pick(2, "regex"); bool neg = sym_pick(2, "negative"); const char* const fs[] = {"", "title:", "category:", "attr-x:", "link:", "description:", "size:"}; BString<100> rule("A: %s%s$.*", neg ? "-" : "", fs[sym_pick(7, "field")]); bool r = accepts(rule); bool bad = strstr(rule, "size:") != nullptr; sym_assert(r == (!bad && regexResult != neg), "regular expressions decide"); sym_reach(r ? "yes" : "no"); }
EX void h_any() { item(); static const char* const pre[] = {"", "A:", "A(", "O(k:${", "R: (", "A(c:$", "A: s", "A: size:", "A: age:<1", "A(k:${1}${", "Q:-"}; static const char* const post[] = {"", "", "): t", "}):t", " t", "): *", "", "", "", "}): *?*", ""}; int w = (int)sym_pick(11, "place"); int n = (int)sym_pick(NB + 1, "n"); int a = (int)strlen(pre[w]), b = (int)strlen(post[w]); char* s = (char*)malloc(a + n + b + 1); strcpy(s, pre[w]); if (n) sym_bytes(s + a, n, "text"); for (int i = 0; i < n; i++) sym_assume(s[a + i] != 0); strcpy(s + a + n, post[w]); sym_limit(400000); FeedFilter f(s); f.Match(*it); int st = it->GetMatchStatus(); sym_assert(st == FeedItemInfo::msAccepted || st == FeedItemInfo::msRejected || st == FeedItemInfo::msIgnored, "status"); sym_reach("done"); }
