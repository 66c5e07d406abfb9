// TUS util/Util.cpp util/NString.cpp
// QUICK -DN=6 -DU=10 -DP=4 -DW=3
// THOROUGH -DN=8 -DU=10 -DP=5 -DW=3
// BOUND percent-decoding, HTTP-unquoting, base64 of arbitrary text: every string of up to $N bytes; base64 round trip of every payload of up to $N bytes with a line break at any place
// BOUND Latin-1 and URL encoding: every string of up to $N bytes
// BOUND addresses: every string of up to $U bytes for safety; for correctness every combination of present and absent parts with up to $P arbitrary legal characters each and any port 1..65535
// BOUND RFC 822 dates: every day from 1970 to 2069 at one time; any two of hour, minute, second, zone hours (to 14), zone minutes on one day, the others fixed; every date text with any $W consecutive characters replaced
// ENTRY h_urldecode q=30 t=120
// ENTRY h_unquote q=30 t=120
// ENTRY h_b64_any q=30 t=120
// ENTRY h_b64_rt q=30 t=120
// ENTRY h_latin1 q=20 t=60
// ENTRY h_urlenc q=20 t=60
// ENTRY h_url_any q=40 t=200 reach=valid,invalid
// ENTRY h_url_rt q=40 t=200 reach=done
// ENTRY h_date_day q=40 t=200 reach=done
// ENTRY h_date_time q=60 t=300 reach=done
// ENTRY h_date_any q=30 t=200 reach=done
#include "common.h"
#include "priv.h"
#include "Util.h"
#include "NString.h"
#include "quietlog.h"
typedef unsigned char uc;
static char* text(int max, int* len, bool nz = true) { int n = (int)sym_pick(max + 1, "len"); char* s = (char*)malloc(n + 1); if (n) sym_bytes(s, n, "text"); if (nz) for (int i = 0; i < n; i++) sym_assume(s[i] != 0); s[n] = 0; *len = n; return s; }
static bool hexd(uc c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
static uc hexv(uc c) { return (uc)sym_ite((c >= '0') & (c <= '9'), c - '0', (c & 0xdf) - 'A' + 10); }
EX void h_urldecode() {
  int n; char* s = text(N, &n); char in[N + 1]; memcpy(in, s, n + 1); sym_limit(20000);
  WebUtil::UrlDecode(s);
  char ref[N + 1]; int o = 0; bool strict = true;
  for (int i = 0; i < n;) { if (in[i] == '%') { if (i + 2 < n) { uc a = in[i + 1], b = in[i + 2]; if (!(hexd(a) & hexd(b))) strict = false; ref[o++] = (char)(hexv(a) * 16 + hexv(b)); i += 3; } else { strict = false; break; } } else ref[o++] = in[i++]; }
  if (strict) { sym_assert(s[o] == 0, "decoded text ends where it should"); sym_assert(sym_eq(s, ref, o), "every escape becomes its byte and everything else is kept"); }
}
EX void h_unquote() {
  int n; char* s = text(N, &n); char in[N + 2]; memcpy(in, s, n + 1); sym_limit(20000);
  WebUtil::HttpUnquote(s);
  if (in[0] != '"') { sym_assert(sym_eq(s, in, n + 1), "unquoted text is unchanged"); return; }
  char ref[N + 1]; int o = 0, i = 1; for (; i < n && in[i] != '"';) { if (in[i] == '\\') { i++; if (i < n) ref[o++] = in[i++]; } else ref[o++] = in[i++]; } ref[o] = 0;
  sym_assert(sym_eq(s, ref, o + 1), "quoted string is unquoted per RFC 2616");
}
static const char* AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static char enc6(unsigned v) { return (char)sym_ite(v < 26, 'A' + v, sym_ite(v < 52, 'a' + v - 26, sym_ite(v < 62, '0' + v - 52, sym_ite(v == 62, '+', '/')))); }
EX void h_b64_any() { // arbitrary text; the daemon decodes in place
  int n; char* s = text(N, &n); bool inplace = sym_pick(2, "inplace"); char* out = inplace ? s : (char*)malloc(n ? n : 1); sym_limit(20000);
  uint32 r = WebUtil::DecodeBase64(s, 0, out); sym_assert(r <= (uint32)n * 3 / 4, "no more output than the input encodes"); sym_observe("r", r); sym_reach("done");
}
EX void h_b64_rt() {
  int n = (int)sym_pick(N + 1, "n"); uc d[N + 3] = {0}; if (n) sym_bytes(d, n, "data"); char b[64]; int o = 0; int brk = (int)sym_pick((N + 2) / 3 * 4 + 2, "brk"); int at = 0;
  for (int i = 0; i < n; i += 3) { unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] : 0) << 8 | (i + 2 < n ? d[i + 2] : 0); char q[4] = {enc6(v >> 18), enc6(v >> 12 & 63), enc6(v >> 6 & 63), enc6(v & 63)}; if (i + 1 >= n) q[2] = '='; if (i + 2 >= n) q[3] = '='; for (int k = 0; k < 4; k++) { if (at++ == brk) { b[o++] = '\r'; b[o++] = '\n'; } b[o++] = q[k]; } }
  b[o] = 0; char* s = (char*)malloc(o + 1); memcpy(s, b, o + 1); int how = (int)sym_pick(3, "how"); char* out = how == 0 ? s : (char*)malloc(n ? n : 1); sym_limit(60000);
  if (how == 1) sym_assume(o > 0);
  uint32 r = WebUtil::DecodeBase64(s, how == 1 ? o : 0, out);
  sym_assert(r == (uint32)n, "all bytes are decoded"); sym_assert(sym_eq(out, d, n), "decoded bytes are those encoded"); sym_reach("done");
}
EX void h_latin1() {
  int n; char* s = text(N, &n); CString r = WebUtil::Latin1ToUtf8(s); char ref[2 * N + 1]; int o = 0;
  for (int i = 0; i < n; i++) { uc c = s[i]; if (c < 128) ref[o++] = c; else { ref[o++] = (char)(0xc0 | c >> 6); ref[o++] = (char)(0x80 | (c & 63)); } } ref[o] = 0;
  sym_assert(sym_eq(*r, ref, o + 1), "UTF-8 form of the Latin-1 text"); sym_assert(r.Length() == o, "length");
}
EX void h_urlenc() {
  int n; char* s = text(N, &n); CString r = WebUtil::UrlEncode(s); char ref[3 * N + 1]; int o = 0;
  for (int i = 0; i < n; i++) { if (s[i] == ' ') { ref[o++] = '%'; ref[o++] = '2'; ref[o++] = '0'; } else ref[o++] = s[i]; } ref[o] = 0;
  sym_assert(sym_eq(*r, ref, o + 1), "spaces are escaped, everything else is kept");
}
EX void h_url_any() {
  static const char* pre[] = {"", "a", "a://", "a://b:c@", "a://b:"}; const char* p = pre[sym_pick(5, "pre")]; int k = strlen(p); int n = (int)sym_pick(U - 3, "n"); char* s = (char*)malloc(k + n + 1); memcpy(s, p, k); if (n) sym_bytes(s + k, n, "s"); for (int i = 0; i < n; i++) sym_assume(s[k + i] != 0); s[k + n] = 0;
  sym_limit(50000); URL u(s);
  if (u.IsValid()) { sym_reach("valid"); sym_assert(u.GetHost() && *u.GetHost(), "a valid address has a host"); sym_assert(u.GetProtocol() && *u.GetProtocol(), "a valid address has a protocol"); sym_assert(u.GetResource() && u.GetResource()[0] == '/', "the path starts with a slash");
    size_t L = strlen(s); sym_assert(strlen(u.GetHost()) + strlen(u.GetProtocol()) + 3 <= L, "parts are no longer than the address");
    sym_assert(!strchr(u.GetHost(), '/'), "the host has no path in it"); sym_observe("h", strlen(u.GetHost())); }
  else sym_reach("invalid");
}
static int part(char* o, int max, int min, const char* bad, const char* name) { int n = min + (int)sym_pick(max - min + 1, name); if (n) sym_bytes(o, n, "part"); for (int i = 0; i < n; i++) { sym_assume(o[i] > 32); for (const char* b = bad; *b; b++) sym_assume(o[i] != *b); } o[n] = 0; return n; }
static bool same(const char* a, const char* b, int n) { return a ? sym_eq(a, b, n + 1) : n == 0; }
EX void h_url_rt() {
  char b[100]; int n = 0; char prot[8], user[8], pass[8], host[8], path[8]; int np = (int)sym_pick(2, "prot"); strcpy(prot, np ? "https" : "ftp"); np = strlen(prot); strcpy(b, prot); n = np; b[n++] = ':'; b[n++] = '/'; b[n++] = '/';
  bool hasUser = sym_pick(2, "hasUser"); int nu = 0, nw = 0, nh, nr = 0; bool hasPass = false;
  if (hasUser) { nu = part(user, 2, 0, ":@/", "nuser"); memcpy(b + n, user, nu); n += nu; hasPass = sym_pick(2, "hasPass"); if (hasPass) { nw = part(pass, P, 0, "@/", "npass"); b[n++] = ':'; memcpy(b + n, pass, nw); n += nw; } b[n++] = '@'; } user[nu] = 0; pass[nw] = 0;
  nh = part(host, 2, 1, ":@/", "nhost"); memcpy(b + n, host, nh); n += nh; int portKind = (int)sym_pick(3, "port"); int port = 0;
  if (portKind) { b[n++] = ':'; int nd = portKind == 1 ? 0 : 1 + (int)sym_pick(P, "nd"); for (int i = 0; i < nd; i++) { char c; sym_bytes(&c, 1, "digit"); sym_assume((c >= '0') & (c <= '9')); b[n++] = c; port = port * 10 + (c - '0'); } }
  bool hasPath = sym_pick(2, "hasPath"); path[0] = '/'; path[1] = 0; nr = 1; if (hasPath) { nr = 1 + part(path + 1, P, 0, "", "npath"); memcpy(b + n, path, nr); n += nr; } b[n] = 0;
  char* s = (char*)malloc(n + 1); memcpy(s, b, n + 1); sym_limit(80000);
  URL u(s); sym_assert(u.IsValid(), "a well-formed address is accepted"); sym_assert(same(u.GetProtocol(), prot, np), "protocol"); sym_assert(same(u.GetUser(), user, nu), "user"); sym_assert(same(u.GetPassword(), pass, nw), "password"); sym_assert(same(u.GetHost(), host, nh), "host"); sym_assert(u.GetPort() == port, "port"); sym_assert(same(u.GetResource(), path, nr), "path"); sym_reach("done");
}
static int64_t days(int y, int m, int d) { static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; int64_t r = 365 * (int64_t)(y - 1970) + (y - 1969) / 4 + cum[m] + d - 1; if (m > 1 && y % 4 == 0) r++; return r; }
static const char* mons[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static char* dg2(char* p, int v) { *p++ = (char)('0' + v / 10); *p++ = (char)('0' + v % 10); return p; }
static int dig(char* o, int hi1) { char c[2]; sym_bytes(c, 2, "dd"); sym_assume((c[0] >= '0') & (c[0] <= '0' + hi1) & (c[1] >= '0') & (c[1] <= '9')); o[0] = c[0]; o[1] = c[1]; return (c[0] - '0') * 10 + c[1] - '0'; }
// dates: every day, concrete time; times and zones: any two fields arbitrary, the others fixed
static void date(bool days_) {
  char b[64]; strcpy(b, "Wed, "); char* p = b + 5; int y = 2013, m = 5, d = 26, h = 23, mi = 58, s = 7, zh = 11, zm = 30; bool neg = sym_pick(2, "neg"); int w = 9;
  if (days_) { m = (int)sym_pick(12, "mon"); y = 1970 + (int)sym_pick(100, "year"); d = 1 + (int)sym_pick(m == 1 ? y % 4 ? 28 : 29 : m == 3 || m == 5 || m == 8 || m == 10 ? 30 : 31, "day"); } else w = (int)sym_pick(4, "which");
  p = dg2(p, d); *p++ = ' '; strcpy(p, mons[m]); p += 3; *p++ = ' '; p = dg2(p, y / 100); p = dg2(p, y % 100); *p++ = ' ';
  if (w == 0) { h = dig(p, 2); sym_assume(h < 24); } else dg2(p, h); p[2] = ':'; p += 3;
  if (w == 0 || w == 1) mi = dig(p, 5); else dg2(p, mi); p[2] = ':'; p += 3;
  if (w == 1 || w == 3) s = dig(p, 5); else dg2(p, s); p[2] = ' '; p += 3;
  *p++ = neg ? '-' : '+'; if (w == 2) { zh = dig(p, 1); sym_assume(zh < 15); } else dg2(p, zh); p += 2; if (w >= 2 && w < 9) zm = dig(p, 5); else dg2(p, zm); p += 2; *p = 0;
  int64_t ref = days(y, m, d) * 86400 + h * 3600 + mi * 60 + s; int64_t z = (zh * 60 + zm) * 60; ref -= neg ? -z : z;
  time_t t = WebUtil::ParseRfc822DateTime(b); sym_assert(t == (time_t)ref, "the moment the date names"); sym_reach("done");
}
EX void h_date_day() { date(true); }
EX void h_date_time() { date(false); }
EX void h_date_any() {
  const char* t = "Wed, 26 Jun 2013 01:02:54 -0600"; int n = strlen(t); char* s = (char*)malloc(n + 1); strcpy(s, t); int at = (int)sym_pick(n - W + 2, "at"); bool cut = at == n - W + 1; if (cut) { int c = (int)sym_pick(n, "cut"); s[c] = 0; char* r = (char*)malloc(c + 1); memcpy(r, s, c + 1); s = r; }
  else sym_bytes(s + at, W, "win");
  sym_limit(100000); time_t r = WebUtil::ParseRfc822DateTime(s); sym_observe("t", (uint64_t)r); sym_reach("done");
}
