// The real WebProcessor on a scripted connection; what it sends, reads and opens is recorded.
// STUB: socket input and output; the remote-call processor only records that it was called, with which rights
#pragma once
#include "common.h"
#include "priv.h"
#include "WebServer.h"
#include "XmlRpc.h"
#include "Options.h"
#include "Log.h"
#include "quietlog.h"
Log* g_Log; Options* g_Options;

static char hdr[6][640]; static int nhdr, ihdr, recvs, sends, served, access_; static char out[8192]; static int nout; static char remote[40] = "1.1.1.1"; static char okbody[] = "ok"; static char rurl[600];
char* Connection::ReadLine(char* b, int size, int*) { if (ihdr >= nhdr) return nullptr; int n = 0; for (; n < size - 1 && hdr[ihdr][n]; n++) b[n] = hdr[ihdr][n]; b[n] = 0; ihdr++; return b; }
bool Connection::Send(const char* b, int n) { sends++; for (int i = 0; i < n && nout < 8191; i++) out[nout++] = b[i]; out[nout] = 0; return true; }
bool Connection::Recv(char* b, int n) { recvs++; memset(b, 'x', n); return true; }
const char* Connection::GetRemoteAddr() { return remote; }
#ifndef REAL_RPC
void XmlRpcProcessor::Execute() { served++; access_ = m_userAccess; strncpy(rurl, m_url, sizeof(rurl) - 1); m_response.Append("ok"); m_contentType = "text/plain"; }
#endif
static char zcon[sizeof(Connection)];
static void web_init() { env_reset(); g_Options = (Options*)calloc(1, sizeof(Options)); nhdr = ihdr = recvs = sends = served = nout = 0; access_ = -1; out[0] = 0; g_Options->m_webDir = "/w"; env_put("/w/a", "file", 4); env_put("/w/index.html", "file", 4); for (int j = 0; j < 3; j++) { for (int i = 0; i < 48; i++) WebProcessor::m_serverAuthToken[j][i] = (char)('a' + j * 8 + i % 7); WebProcessor::m_serverAuthToken[j][48] = 0; } }
static char* line() { return hdr[nhdr++]; }
static bool has(const char* s) { size_t n = strlen(s); for (int i = 0; i + (int)n <= nout; i++) if (out[i] == s[0] && out[i + n - 1] == s[n - 1] && !memcmp(out + i, s, n)) return true; return false; }
static void web_run(const char* url, WebProcessor::EHttpMethod m) { if (m == WebProcessor::hmPost) strcpy(line(), "Content-Length: 2\r\n"); strcpy(line(), "\r\n"); WebProcessor* w = new WebProcessor; w->SetConnection((Connection*)zcon); w->SetUrl(url); w->SetHttpMethod(m); w->Execute(); delete w; }
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int enc64(const char* s, int n, char* o) { int k = 0; for (int i = 0; i < n; i += 3) { unsigned a = (unsigned char)s[i], b = i + 1 < n ? (unsigned char)s[i + 1] : 0, c = i + 2 < n ? (unsigned char)s[i + 2] : 0; unsigned v = a << 16 | b << 8 | c; o[k++] = b64[v >> 18 & 63]; o[k++] = b64[v >> 12 & 63]; o[k++] = i + 1 < n ? b64[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? b64[v & 63] : '='; } o[k] = 0; return k; }
