// TUS remote/WebServer.cpp remote/XmlRpc.cpp remote/RemoteServer.cpp util/Util.cpp util/NString.cpp util/FileSystem.cpp lib:par2/md5.cpp
// QUICK -DN=6 -DK=3
// THOROUGH -DN=9 -DK=4
// BOUND h_url: request lines of GET and POST made of "/", "/nzbget", credentials in the URL, "/combined.js?" or nothing, followed by up to $N arbitrary bytes, with and without form authentication and with and without valid credentials; h_tokens: $K pieces out of "..", ".", "/", escaped dots and slashes, backslash, plus, colon, question mark, letter, one arbitrary byte; h_long: names around the buffer size of 1024 characters with an arbitrary byte near the cut
// STUB socket input and output; files are on an in-memory disk which records every name opened; the remote-call processor records only that it was called
// OUTSIDE symbolic links within the web directory
// ENTRY h_url q=90 t=600 reach=opened,none
// ENTRY h_tokens q=60 t=400 reach=opened,none
// ENTRY h_long q=40 t=300 reach=opened
#include "web.h"
#include "RemoteServer.h"
static RequestProcessor* rp;
static void check(bool may) { for (int i = 0; i < env_nopened; i++) { const char* f = env_opened[i]; sym_assert(f[0] == '/' && f[1] == 'w' && f[2] == '/', "only files of the web directory are opened"); int n = strlen(f); for (int j = 2; j + 2 < n + 1; j++) if (j + 3 <= n) { bool up = (f[j] == '/') & (f[j + 1] == '.') & (f[j + 2] == '.') & (j + 3 == n ? true : f[j + 3] == '/'); sym_assert(!up, "no name leads out of the web directory"); } }
  if (!may) sym_assert(env_nopened == 0, "no file is opened without valid credentials"); sym_reach(env_nopened ? "opened" : "none"); }
static void request(const char* first, bool post, const char* cred) { if (cred) { char* p = line(); strcpy(p, "Authorization: Basic "); int k = strlen(p); k += enc64(cred, strlen(cred), p + k); strcpy(p + k, "\r\n"); } if (post) strcpy(line(), "Content-Length: 2\r\n"); strcpy(line(), "\r\n"); rp->ServWebRequest(post ? "POST" : "GET "); }
static void setup(int mode) { web_init(); env_put("/secret", "top", 3); env_put("/w/c/d", "file", 4); g_Options->m_controlPassword = mode ? "p" : ""; g_Options->m_controlUsername = mode ? "u" : ""; g_Options->m_formAuth = mode == 2; rp = (RequestProcessor*)calloc(1, sizeof(RequestProcessor)); new (&rp->m_connection) std::unique_ptr<Connection>((Connection*)zcon); }
EX void h_url() { int mode = (int)sym_pick(4, "mode"); setup(mode == 3 ? 1 : mode); static const char* pre[] = {"", "/", "/nzbget", "/nzbget/", "/x:y", "/nzbget/u:p/", "/combined.js?", "/w", "/a"}; int k = (int)sym_pick(9, "beginning"); if (mode) { static const int some[] = {1, 5, 6}; bool in = false; for (int s : some) in |= s == k; sym_assume(in); } bool post = mode == 0 && k <= 1 && sym_pick(2, "post"); char* l = line(); int n = 0; if (post) { l[0] = ' '; n = 1; } strcpy(l + n, pre[k]); n += strlen(pre[k]); int m = (int)sym_pick((mode ? N - 2 : N) + 1, "length"); if (m) sym_bytes(l + n, m, "url"); for (int i = 0; i < m; i++) sym_assume((l[n + i] != 0) & (l[n + i] != '\n')); strcpy(l + n + m, " HTTP/1.1\r\n"); request(0, post, mode == 3 ? "u:p" : nullptr); check(mode != 1 || k == 5 || (k == 1 && m >= 4 && sym_eq(l + n, "u:p/", 4))); }
EX void h_tokens() { setup(0); static const char* tok[] = {"..", ".", "/", "%2e", "%2F", "%2e%2e", "\\", "+", ":", "?", "a", "%", ""}; char* l = line(); strcpy(l, sym_pick(2, "combined") ? "/combined.js?" : "/"); for (int i = 0; i < K; i++) { int t = (int)sym_pick(13, "piece"); int n = strlen(l); if (t == 12) { sym_bytes(l + n, 1, "byte"); sym_assume((l[n] != 0) & (l[n] != '\n')); l[n + 1] = 0; } else strcpy(l + n, tok[t]); } strcat(l, " HTTP/1.1\r\n"); request(0, false, nullptr); check(true); }
EX void h_long() { setup(0); static char url[1100]; bool comb = sym_pick(2, "combined"); strcpy(url, comb ? "/combined.js?" : "/"); int n = strlen(url), len = 1000 + (int)sym_pick(24, "length"); for (int i = n; i < len; i++) url[i] = i % 50 == 0 ? '/' : 'a'; url[len] = 0; sym_bytes(url + 990, 2, "bytes"); sym_bytes(url + len - 2, 2, "last"); for (int i : {990, 991, len - 2, len - 1}) sym_assume((url[i] != 0) & (url[i] != ' ')); strcpy(line(), "\r\n"); WebProcessor* w = new WebProcessor; w->SetConnection((Connection*)zcon); w->SetUrl(url); w->SetHttpMethod(WebProcessor::hmGet); w->Execute(); check(true); delete w; }
