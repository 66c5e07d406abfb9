// TUS remote/WebServer.cpp remote/XmlRpc.cpp util/Util.cpp util/NString.cpp util/FileSystem.cpp lib:par2/md5.cpp
// QUICK -DL=3 -DG=6
// THOROUGH -DL=4 -DG=8
// BOUND h_auth: control, restricted and add user names and passwords of at most one arbitrary character, credentials of up to $L arbitrary characters given as HTTP, extended HTTP or URL credentials, GET and POST calls of all three protocols and a web page, with and without form authentication
// BOUND h_token: cookies of 0, 1, 47, 48, 49 and 60 arbitrary characters against tokens with arbitrary characters at the beginning, in the middle and at the end; h_any: authorization lines of up to $G arbitrary bytes; h_long: authorization texts and URL credentials around the buffer size of 256; h_ip: client addresses whose last four characters are arbitrary against a list of masks
// STUB socket input and output are scripted and recorded; the remote-call processor records the rights it is called with (h_rights has the real one)
// OUTSIDE the binary remote-control protocol (C16_bin)
// ENTRY h_auth q=60 t=600 reach=control,restricted,add,denied
// ENTRY h_token q=40 t=300 reach=in,out
// ENTRY h_any q=40 t=300 reach=out
// ENTRY h_long q=40 t=300 reach=in,out
// ENTRY h_ip q=30 t=300 reach=in,out
#include "web.h"
static char txt[6][4]; static int len[6];
static void opt(int i, int max, CString& o) { len[i] = (int)sym_pick(max + 1, "len"); if (len[i]) sym_bytes(txt[i], len[i], "option"); for (int k = 0; k < len[i]; k++) sym_assume(txt[i][k] != 0); txt[i][len[i]] = 0; o = CString(txt[i]); }
static const char* names[] = {"control", "restricted", "add"};
static bool eqs(const char* a, int n, int i) { return n == len[i] && sym_eq(a, txt[i], n); }
static void verify(int want, int kind, bool form) {
  bool rpc = kind > 1; sym_reach(want >= 0 ? names[want] : "denied");
  if (rpc) { sym_assert(served == (want >= 0 ? 1 : 0), "a request is executed exactly with valid credentials"); if (want >= 0) sym_assert(access_ == want, "a request runs with the rights of the user"); }
  if (want < 0 && (rpc || !form)) { sym_assert(recvs == 0 && env_nopened == 0, "nothing is read for a request without valid credentials"); sym_assert(!strncmp(out, "HTTP/1.1 401", 12), "a request without valid credentials is refused"); }
  for (int j = 0; j < 3; j++) { char b[64]; strcpy(b, "Auth-Token="); strcat(b, WebProcessor::m_serverAuthToken[j]); sym_assert(has(b) == (j == want), "the session token given is the one of the user"); }
  if (!rpc && (want >= 0 || form)) sym_assert(env_nopened == 1 && has("file"), "pages are served");
}
static const char* kinds[] = {"/a", "/", "/jsonrpc", "/jsonrpc/x?a=1", "/xmlrpc", "/xmlrpc/x", "/jsonprpc", "/jsonprpc/x"};
EX void h_auth() { web_init(); opt(0, 1, g_Options->m_controlUsername); len[1] = 1; opt(1, 1, g_Options->m_controlPassword); opt(2, 1, g_Options->m_restrictedUsername); opt(3, 1, g_Options->m_restrictedPassword); bool third = sym_pick(2, "add-user"); if (third) { opt(4, 1, g_Options->m_addUsername); len[5] = 1; sym_bytes(txt[5], 1, "option"); sym_assume(txt[5][0] != 0); g_Options->m_addPassword = CString(txt[5]); } else len[4] = 0;
  int form = (int)sym_pick(4, "form of the credentials"); bool formAuth = sym_pick(2, "form auth"); g_Options->m_formAuth = formAuth; int kind = (int)(sym_pick(2, "page") ? sym_pick(2, "which") : 2 + sym_pick(6, "kind")); bool post = kind > 1 && (kind & 1) == 0;
  char c[8]; int n = form == 0 ? 0 : (int)sym_pick(L + 1, "text length"); if (n) sym_bytes(c, n, "credentials"); for (int i = 0; i < n; i++) sym_assume(c[i] != 0); c[n] = 0; char url[64] = ""; int colon = -1; for (int i = 0; i < n && colon < 0; i++) if (c[i] == ':') colon = i;
  if (form == 1 || form == 2) { char* p = line(); strcpy(p, form == 1 ? "Authorization: Basic " : "x-authorization: basic "); int k = strlen(p); k += enc64(c, n, p + k); strcpy(p + k, "\r\n"); }
  if (form == 3) { for (int i = 0; i < n; i++) sym_assume((c[i] != '/') & (c[i] != '%')); sym_assume(colon >= 0); url[0] = '/'; memcpy(url + 1, c, n + 1); }
  strcat(url, kinds[kind]); web_run(url, post ? WebProcessor::hmPost : WebProcessor::hmGet);
  int want = -1; if (len[1] == 0) want = 0; else if (colon >= 0) { char* u = c; char* p = c + colon + 1; int pn = n - colon - 1; bool a = (len[0] == 0 || eqs(u, colon, 0)) && eqs(p, pn, 1), r = len[2] > 0 && eqs(u, colon, 2) && eqs(p, pn, 3), d = len[4] > 0 && eqs(u, colon, 4) && eqs(p, pn, 5); want = a ? 0 : r ? 1 : d ? 2 : -1; }
  verify(want, kind, formAuth); }
static void secret() { g_Options->m_controlUsername = "user"; g_Options->m_controlPassword = "secret12"; g_Options->m_restrictedUsername = "ruser"; g_Options->m_restrictedPassword = "rsecret1"; g_Options->m_addUsername = "auser"; g_Options->m_addPassword = "asecret1"; }
EX void h_token() { web_init(); secret(); for (int j = 0; j < 3; j++) { static const int at[] = {0, 23, 47}; for (int i : at) { char& c = WebProcessor::m_serverAuthToken[j][i]; sym_bytes(&c, 1, "token"); sym_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z'))); } for (int i = 0; i < 48; i++) if (i != 0 && i != 23 && i != 47) WebProcessor::m_serverAuthToken[j][i] = 'k'; }
  static const int lens[] = {0, 1, 47, 48, 49, 60}; int n = lens[sym_pick(6, "length")]; char* p = line(); strcpy(p, sym_pick(2, "other cookie") ? "Cookie: Auth-Type=http; Auth-Token=" : "Cookie: Auth-Token="); int k = strlen(p); char c[64]; int same = (int)sym_pick(4, "same as"); if (same < 3 && n >= 47) { memcpy(c, WebProcessor::m_serverAuthToken[same], n < 48 ? n : 48); if (n > 48) sym_bytes(c + 48, n - 48, "rest"); } else if (n) sym_bytes(c, n, "cookie"); for (int i = 0; i < n; i++) sym_assume((c[i] != 0) & (c[i] != '\r')); memcpy(p + k, c, n); strcpy(p + k + n, "\r\n");
  bool user = sym_pick(2, "wrong user"); if (user) { char* q = line(); strcpy(q, "Authorization: Basic "); int m = strlen(q); m += enc64("user:x", 6, q + m); strcpy(q + m, "\r\n"); }
  web_run("/jsonrpc", WebProcessor::hmPost); bool eq[3]; for (int j = 0; j < 3; j++) eq[j] = n >= 48 && sym_eq(c, WebProcessor::m_serverAuthToken[j], 48); if (user) { sym_assert(!served, "a token doesn't make wrong credentials right"); return; }
  if (n < 48) sym_assert(!served, "a part of a token is not accepted"); if (served) { sym_assert(access_ >= 0 && access_ < 3 && eq[access_], "a token gives the rights of its user"); sym_reach("in"); } else { sym_assert(!(eq[0] | eq[1] | eq[2]), "a valid token is accepted"); sym_assert(recvs == 0, "nothing is read"); sym_reach("out"); } }
EX void h_any() { web_init(); secret(); int n = 1 + (int)sym_pick(G, "length"); char* p = line(); strcpy(p, sym_pick(2, "form") ? "Authorization: Basic " : "X-Authorization: Basic "); int k = strlen(p); sym_bytes(p + k, n, "text"); for (int i = 0; i < n; i++) sym_assume(p[k + i] != 0); strcpy(p + k + n, "\r\n"); web_run("/xmlrpc", WebProcessor::hmPost); sym_assert(!served && !recvs, "no arbitrary text is accepted as credentials"); sym_reach("out"); }
EX void h_long() { web_init(); g_Options->m_controlUsername = "u"; int form = (int)sym_pick(3, "form"); static char pass[300]; int n = form < 2 ? (int)(sym_pick(2, "near the limit") ? 186 + sym_pick(12, "password") : 1) : (int)(240 + sym_pick(40, "password")); for (int i = 0; i < n; i++) pass[i] = (char)('a' + i % 20); sym_bytes(pass + n - 1, 1, "last character"); sym_assume((pass[n - 1] != 0) & (pass[n - 1] != '/') & (pass[n - 1] != '%')); pass[n] = 0; static char right[300]; memcpy(right, pass, n + 1); right[n - 1] = 'q'; g_Options->m_controlPassword = CString(right); char cred[400] = "u:"; strcat(cred, pass); char url[500] = ""; bool fits = true;
  if (form < 2) { char* p = line(); strcpy(p, form ? "Authorization: Basic " : "X-Authorization: Basic "); int k = strlen(p), e = enc64(cred, n + 2, p + k); fits = e <= 256; strcpy(p + k + e, "\r\n"); } else { url[0] = '/'; strcat(url, cred); fits = n + 2 <= 256; } strcat(url, "/jsonrpc"); web_run(url, WebProcessor::hmGet);
  if (served) sym_assert((pass[n - 1] == 'q'), "only the right password is accepted"); else if (fits) sym_assert(pass[n - 1] != 'q', "the right password is accepted"); sym_reach(served ? "in" : "out"); }
EX void h_ip() { web_init(); secret(); strcpy(remote, "10.0."); sym_bytes(remote + 5, 4, "address"); for (int i = 5; i < 9; i++) sym_assume(((remote[i] >= '0') & (remote[i] <= '9')) | (remote[i] == '.')); remote[9] = 0; g_Options->m_authorizedIp = sym_pick(2, "mask") ? "127.0.0.1;10.0.1.*" : "10.0.12.4,10.0.10.5"; bool mask = strchr(g_Options->m_authorizedIp, '*'); web_run("/jsonrpc", WebProcessor::hmPost); char* r = remote; bool ok = mask ? (r[5] == '1') & (r[6] == '.') : (sym_eq(r + 5, "12.4", 4)) | (sym_eq(r + 5, "10.5", 4)); sym_assert((served == 1) == ok, "without credentials only requests of authorised addresses are executed"); if (served) { sym_assert(access_ == 0, "rights"); sym_reach("in"); } else { sym_assert(!recvs, "nothing is read"); sym_reach("out"); } }
