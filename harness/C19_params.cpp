// TUS util/Util.cpp util/NString.cpp remote/XmlRpc.cpp
// QUICK -DM=5 -DF=3 -DS=3 -DX=2 -DW=2
// THOROUGH -DM=7 -DF=4 -DS=4 -DX=3 -DW=3
// BOUND malformed JSON/URL requests: every body of up to $M bytes, three parameters of every combination of types
// BOUND malformed XML requests: every sequence of up to $F markup fragments with arbitrary characters between, two parameters
// BOUND well-formed requests: strings of up to $S ($X in XML) arbitrary ASCII characters, integers of up to 3 digits with sign, booleans, three parameters in every order of types
// BOUND whole requests: $W consecutive arbitrary bytes anywhere in a JSON, XML, multicall or URL request
// STUB commands other than the parameter readers are not executed
// ENTRY h_json_any q=40 t=300 reach=some,none
// ENTRY h_get_any q=40 t=300 reach=some,none
// ENTRY h_xml_any q=40 t=300 reach=some,none
// ENTRY h_json_rt q=40 t=300 reach=done
// ENTRY h_xml_rt q=40 t=300 reach=done
// ENTRY h_get_rt q=40 t=300 reach=done
// ENTRY h_json_req q=40 t=300 reach=ok,err
// ENTRY h_xml_req q=40 t=300 reach=ok,err
// ENTRY h_get_req q=40 t=300 reach=ok,err
// ENTRY h_multi_req q=40 t=300 reach=ok,err
#include "common.h"
#include "priv.h"
#include "XmlRpc.h"
#include "quietlog.h"
struct Cmd : XmlCommand { void Execute() {} };
static Cmd* mk(char* req, XmlRpcProcessor::ERpcProtocol p, XmlRpcProcessor::EHttpMethod m) { Cmd* c = new Cmd; c->SetRequest(req); c->SetProtocol(p); c->SetHttpMethod(m); return c; }
static bool next(Cmd* c, int type) {
  if (type == 0) { int v; bool ok = c->NextParamAsInt(&v); if (ok) sym_observe("i", (unsigned)v); return ok; }
  if (type == 1) { bool v; bool ok = c->NextParamAsBool(&v); if (ok) sym_observe("b", v); return ok; }
  char* v; bool ok = c->NextParamAsStr(&v); if (ok) { size_t n = strlen(v); sym_observe("s", n); c->DecodeStr(v); sym_assert(strlen(v) <= n, "decoding does not lengthen"); } return ok;
}
static char* any(int max) { int n = (int)sym_pick(max + 1, "len"); char* s = (char*)malloc(n + 1); if (n) sym_bytes(s, n, "body"); for (int i = 0; i < n; i++) sym_assume(s[i] != 0); s[n] = 0; return s; }
static void anyReq(char* s, XmlRpcProcessor::ERpcProtocol p, XmlRpcProcessor::EHttpMethod m, int k) {
  Cmd* c = mk(s, p, m); sym_limit(400000); int got = 0;
  for (int i = 0; i < k; i++) { int t = (int)sym_pick(3, "type"); if (next(c, t)) got++; else break; }
  sym_reach(got ? "some" : "none");
}
EX void h_json_any() { anyReq(any(M), XmlRpcProcessor::rpJsonRpc, XmlRpcProcessor::hmPost, 3); }
EX void h_get_any() { int j = sym_pick(2, "json"); anyReq(any(M), j ? XmlRpcProcessor::rpJsonRpc : XmlRpcProcessor::rpXmlRpc, XmlRpcProcessor::hmGet, 3); }
EX void h_xml_any() {
  static const char* fr[] = {"<value>", "</value>", "<string>", "</string>", "<i4>", "</i4>", "<i4/>", "<string/>", "<boolean>", "</boolean>", "<boolean/>", "<int>", "</int>", "<value/>"};
  char b[256]; int n = 0; bool open = sym_pick(2, "open"); if (open) { strcpy(b, "<value>"); n = 7; }
  for (int i = 0; i < F; i++) { strcpy(b + n, fr[sym_pick(14, "frag")]); n += strlen(b + n); if (i < 2 && sym_pick(2, "ch")) { sym_bytes(b + n, 1, "c"); sym_assume(b[n] != 0); n++; } }
  b[n] = 0; char* s = (char*)malloc(n + 1); memcpy(s, b, n + 1); anyReq(s, XmlRpcProcessor::rpXmlRpc, XmlRpcProcessor::hmPost, 2);
}
// well-formed requests
struct V { int type; int i; char s[8]; int n; };
static int num(char* o, int* val) { int n = 0; bool neg = sym_pick(2, "neg"); int d = 1 + sym_pick(3, "digits"); if (neg) o[n++] = '-'; int v = 0; for (int i = 0; i < d; i++) { char c; sym_bytes(&c, 1, "digit"); sym_assume(c >= '0'); sym_assume(c <= '9'); o[n++] = c; v = v * 10 + (c - '0'); } *val = neg ? -v : v; return n; }
static void check(Cmd* c, V* v, int k) {
  for (int i = 0; i < k; i++) {
    if (v[i].type == 0) { int x = 0; sym_assert(c->NextParamAsInt(&x), "integer parameter is found"); sym_assert(x == v[i].i, "integer parameter has the value sent"); }
    else if (v[i].type == 1) { bool x = false; sym_assert(c->NextParamAsBool(&x), "boolean parameter is found"); sym_assert(x == (v[i].i != 0), "boolean parameter has the value sent"); }
    else { char* x = 0; sym_assert(c->NextParamAsStr(&x), "string parameter is found"); c->DecodeStr(x); sym_assert(strlen(x) == (size_t)v[i].n && sym_eq(x, v[i].s, v[i].n), "string parameter has the value sent"); }
  }
  int x; bool y; char* z; int e = (int)sym_pick(3, "extra");
  sym_assert(!(e == 0 ? c->NextParamAsInt(&x) : e == 1 ? c->NextParamAsBool(&y) : c->NextParamAsStr(&z)), "no parameter is found behind those sent");
  sym_reach("done");
}
static void text(V& v, int max) { v.n = (int)sym_pick(max + 1, "slen"); if (v.n) sym_bytes(v.s, v.n, "text"); for (int i = 0; i < v.n; i++) sym_assume(v.s[i] > 0); v.s[v.n] = 0; }
EX void h_json_rt() {
  char b[400]; int n = 0; strcpy(b, "{\"method\":\"x\",\"params\":["); n = strlen(b); V v[3]; int sep = (int)sym_pick(2, "sep"); int used = 0;
  for (int i = 0; i < 3; i++) { v[i].type = (int)sym_pick(3, "type"); if (i) { b[n++] = ','; if (sep) b[n++] = ' '; }
    if (v[i].type == 0) { if (used & 1) { v[i].i = 7; b[n++] = '7'; } else n += num(b + n, &v[i].i); used |= 1; }
    else if (v[i].type == 1) { v[i].i = (int)sym_pick(2, "bool"); strcpy(b + n, v[i].i ? "true" : "false"); n += strlen(b + n); }
    else { text(v[i], used & 2 ? 1 : S); used |= 2; b[n++] = '"';
      for (int k = 0; k < v[i].n; k++) { char c = v[i].s[k]; if (c == '"' || c == '\\') { b[n++] = '\\'; b[n++] = c; } else if (c < 32) { b[n++] = '\\'; b[n++] = 'u'; b[n++] = '0'; b[n++] = '0'; b[n++] = '0' + (c >> 4); int l = c & 15; b[n++] = l < 10 ? '0' + l : 'a' + l - 10; } else b[n++] = c; }
      b[n++] = '"'; } }
  strcpy(b + n, "],\"id\":\"k\",\"a\":5,\"b\":true}"); n += strlen(b + n); char* s = (char*)malloc(n + 1); memcpy(s, b, n + 1);
  Cmd* c = mk(s, XmlRpcProcessor::rpJsonRpc, XmlRpcProcessor::hmPost); c->PrepareParams(); check(c, v, 3);
}
EX void h_xml_rt() {
  char b[600]; int n = 0; strcpy(b, "<?xml version=\"1.0\"?><methodCall><methodName>x</methodName><params>"); n = strlen(b); V v[3]; int i4 = (int)sym_pick(2, "i4"), used = 0;
  for (int i = 0; i < 3; i++) { v[i].type = (int)sym_pick(3, "type"); strcpy(b + n, "<param><value>"); n += strlen(b + n);
    if (v[i].type == 0) { strcpy(b + n, i4 ? "<i4>" : "<int>"); n += strlen(b + n); if (used & 1) { v[i].i = 7; b[n++] = '7'; } else n += num(b + n, &v[i].i); used |= 1; strcpy(b + n, i4 ? "</i4>" : "</int>"); n += strlen(b + n); }
    else if (v[i].type == 1) { v[i].i = (int)sym_pick(2, "bool"); strcpy(b + n, v[i].i ? "<boolean>1</boolean>" : "<boolean>0</boolean>"); n += strlen(b + n); }
    else { text(v[i], used & 2 ? 0 : X); used |= 2; strcpy(b + n, "<string>"); n += 8;
      for (int k = 0; k < v[i].n; k++) { char c = v[i].s[k]; sym_assume((c >= 32) | (c == 9) | (c == 10) | (c == 13)); const char* e = c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : 0; if (e) { strcpy(b + n, e); n += strlen(e); } else b[n++] = c; }
      strcpy(b + n, "</string>"); n += 9; }
    strcpy(b + n, "</value></param>"); n += strlen(b + n); }
  strcpy(b + n, "</params></methodCall>"); n += strlen(b + n); char* s = (char*)malloc(n + 1); memcpy(s, b, n + 1);
  Cmd* c = mk(s, XmlRpcProcessor::rpXmlRpc, XmlRpcProcessor::hmPost); c->PrepareParams(); check(c, v, 3);
}
EX void h_get_rt() {
  char b[200]; int n = 0; V v[3]; int json = (int)sym_pick(2, "json"), used = 0;
  for (int i = 0; i < 3; i++) { v[i].type = (int)sym_pick(3, "type"); if (i) b[n++] = '&'; b[n++] = (char)('a' + i); b[n++] = '=';
    if (v[i].type == 0) { if (used & 1) { v[i].i = 7; b[n++] = '7'; } else n += num(b + n, &v[i].i); used |= 1; }
    else if (v[i].type == 1) { v[i].i = (int)sym_pick(2, "bool"); strcpy(b + n, json ? (v[i].i ? "true" : "false") : v[i].i ? "1" : "0"); n += strlen(b + n); }
    else { text(v[i], used & 2 ? 1 : S); used |= 2; for (int k = 0; k < v[i].n; k++) { char c = v[i].s[k]; sym_assume(c > 32); sym_assume(c != '&'); sym_assume(c != '\\'); sym_assume(c != '='); b[n++] = c; } } }
  b[n] = 0; char* s = (char*)malloc(n + 1); memcpy(s, b, n + 1);
  Cmd* c = mk(s, json ? XmlRpcProcessor::rpJsonRpc : XmlRpcProcessor::rpXmlRpc, XmlRpcProcessor::hmGet); check(c, v, 3);
}
// whole requests with a window of arbitrary bytes
static char* window(const char* t) { int n = strlen(t); char* s = (char*)malloc(n + 1); strcpy(s, t); int cut = (int)sym_concretize(sym_range(W, n, "cut")); int trunc = (int)sym_pick(2, "trunc"); sym_bytes(s + cut - W, W, "win"); for (int i = 0; i < W; i++) sym_assume(s[cut - W + i] != 0); if (trunc) { char* r = (char*)malloc(cut + 1); memcpy(r, s, cut); r[cut] = 0; return r; } return s; }
static void req(const char* tmpl, const char* url, bool get) {
  XmlRpcProcessor* p = new XmlRpcProcessor; char* w = window(tmpl); sym_limit(3000000);
  p->SetUserAccess(XmlRpcProcessor::uaAdd); p->SetHttpMethod(get ? XmlRpcProcessor::hmGet : XmlRpcProcessor::hmPost); p->SetUrl(get ? w : url); p->SetRequest(w); if (get && !XmlRpcProcessor::IsRpcRequest(p->m_url)) return; p->Execute();
  const char* r = p->GetResponse(); sym_assert(r && *r, "there is a response"); bool err = strstr(r, "JSONRPCError") || strstr(r, "faultCode"); sym_reach(err ? "err" : "ok"); sym_observe("len", strlen(r));
}
EX void h_json_req() { req("{\"method\":\"version\",\"id\":12,\"params\":[]}", "/jsonrpc", false); }
EX void h_xml_req() { req("<methodCall><methodName>version</methodName></methodCall>", "/xmlrpc", false); }
EX void h_get_req() { req("/jsonprpc/version?callback=x&a=b", "", true); }
EX void h_multi_req() { req("<methodCall><methodName>system.multicall</methodName><struct><name>methodName</name><string>version</string><name>params</name></struct>", "/xmlrpc", false); }
