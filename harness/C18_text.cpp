// TUS util/Util.cpp util/NString.cpp
// QUICK -DN=4 -DM=7 -DR=3
// THOROUGH -DN=5 -DM=9 -DR=4
// BOUND encoders: every string of up to $N bytes (any byte values) in an exactly sized buffer
// BOUND JSON encoder at the full length: strings that begin with a 3- or 4-byte UTF-8 sequence (well-formed or not)
// BOUND in-place decoders: every string of up to $M bytes in an exactly sized buffer
// BOUND round trips: every ASCII string of up to $R characters
// ENTRY h_json_enc q=60 t=400 reach=ascii,utf8,bad
// ENTRY h_xml_enc q=60 t=400 reach=ascii,utf8,bad
// ENTRY h_json_dec q=30 t=300 reach=ok
// ENTRY h_xml_dec q=30 t=300 reach=ok
// ENTRY h_xml_strip q=30 t=300 reach=ok
// ENTRY h_xml_ent q=30 t=300 reach=ok
// ENTRY h_json_rt q=30 t=300 reach=ok
// ENTRY h_xml_rt q=30 t=300 reach=ok
// ENTRY h_json_esc q=30 t=300 reach=ok
// ENTRY h_xml_ref q=30 t=300 reach=ok
// OUTSIDE what text outside ASCII decodes to; strings longer than the bounds
#include "common.h"
#include "nzbget.h"
#include "NString.h"
#include "Util.h"
#include "quietlog.h"
static char* str(int max, const char* nm, bool ascii = false) {
  int n = (int)sym_pick(max + 1, "len"); char* s = (char*)malloc(n + 1); if (n) sym_bytes(s, n, nm);
  for (int i = 0; i < n; i++) sym_assume(ascii ? (s[i] > 0) : (s[i] != 0)); s[n] = 0; return s;
}
// reference UTF-8 reader: code point or -1
static int u8(const unsigned char*& p) {
  int c = *p++; if (c < 0x80) return c;
  int n = c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : 0; if (!n) return -1;
  int v = c & (n == 1 ? 31 : n == 2 ? 15 : 7);
  for (int i = 0; i < n; i++) { int d = *p; if ((d & 0xc0) != 0x80) return -1; p++; v = v << 6 | (d & 63); }
  if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return -1; return v;
}
static int hexv(int c) { int l = c | 32; return (int)sym_ite((unsigned)(c - '0') < 10u, c - '0', sym_ite((unsigned)(l - 'a') < 6u, l - 'a' + 10, (uint64_t)-1)); }
// reference JSON string body reader
static int jsonBody(const unsigned char* p, int* out, int max) {
  int n = 0;
  while (*p) { int c;
    if (*p == '"' || *p < 0x20) return -1;
    if (*p == '\\') { p++; switch (*p++) { case '"': c = '"'; break; case '\\': c = '\\'; break; case '/': c = '/'; break; case 'b': c = 8; break; case 'f': c = 12; break; case 'n': c = 10; break; case 'r': c = 13; break; case 't': c = 9; break;
        case 'u': { c = 0; for (int i = 0; i < 4; i++) { int h = hexv(*p); sym_assert(h >= 0, "\\u is followed by four hex digits"); c = c * 16 + h; p++; } break; } default: return -1; } }
    else { c = u8(p); if (c < 0) return -1; }
    if (n >= max) return -1; out[n++] = c; }
  return n;
}
// reference XML character data reader
static int xmlBody(const unsigned char* p, int* out, int max) {
  int n = 0;
  while (*p) { int c;
    if (*p == '<' || *p == '>') return -1;
    if (*p == '&') { const char* q = (const char*)p + 1;
      if (!strncmp(q, "lt;", 3)) { c = '<'; p += 4; } else if (!strncmp(q, "gt;", 3)) { c = '>'; p += 4; } else if (!strncmp(q, "amp;", 4)) { c = '&'; p += 5; } else if (!strncmp(q, "apos;", 5)) { c = '\''; p += 6; } else if (!strncmp(q, "quot;", 5)) { c = '"'; p += 6; }
      else if (*q == '#') { q++; int hex = *q == 'x'; if (hex) q++; c = 0; int k = 0; for (; *q != ';'; q++) { int h = hexv((unsigned char)*q); if (h < 0 || (!hex && h > 9) || ++k > 8) return -1; c = c * (hex ? 16 : 10) + h; } if (!k) return -1; p = (const unsigned char*)q + 1; }
      else return -1; }
    else { c = u8(p); if (c < 0) return -1; }
    if (!(c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xd7ff) || (c >= 0xe000 && c <= 0xfffd) || (c >= 0x10000 && c <= 0x10ffff))) return -1;
    if (n >= max) return -1; out[n++] = c; }
  return n;
}
static void compare(const char* raw, const int* got, int n, bool json) {
  int want[8], w = 0; bool ok = true, hi = false; const unsigned char* p = (const unsigned char*)raw;
  while (*p && ok) { int c = u8(p); if (c < 0) ok = false; else { if (c > 127) hi = true; want[w++] = c; } }
  sym_reach(!ok ? "bad" : hi ? "utf8" : "ascii"); if (!ok) return;
  if (json) { // characters outside the BMP: a pair or a single replacement
    int k = 0; bool same = true; for (int i = 0; i < w; i++) { if (want[i] > 0xffff) { if (k + 1 < n && got[k] == 0xd800 + ((want[i] - 0x10000) >> 10) && got[k + 1] == 0xdc00 + ((want[i] - 0x10000) & 0x3ff)) k += 2; else if (k < n && (got[k] == want[i] || got[k] == '.' || got[k] == '?' || got[k] == 0xfffd)) k++; else same = false; }
      else { same = same && k < n && got[k] == want[i]; k++; } if (!same) break; }
    sym_assert(same && k == n, "encoded JSON text means the original text");
  } else { bool same = n == w; for (int i = 0; i < w && same; i++) { int c = want[i]; bool valid = c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xd7ff) || (c >= 0xe000 && c <= 0xfffd) || c >= 0x10000; same = valid ? got[i] == c : got[i] < 128; }
    sym_assert(same, "encoded XML text means the original text"); }
}
EX void h_json_enc() { char* s = str(N, "s"); if (strlen(s) > N - 1) { sym_assume((unsigned char)s[0] >= 0xe0); sym_assume((unsigned char)s[1] >= 0x80); sym_assume((unsigned char)s[2] >= 0x80); } CString e = WebUtil::JsonEncode(s); int got[16]; int n = jsonBody((const unsigned char*)(const char*)e, got, 16); sym_assert(n >= 0, "JSON encoding is a valid string body"); compare(s, got, n, true); sym_observe("len", strlen(e)); }
EX void h_xml_enc() { char* s = str(N, "s"); CString e = WebUtil::XmlEncode(s); int got[16]; int n = xmlBody((const unsigned char*)(const char*)e, got, 16); sym_assert(n >= 0, "XML encoding is valid character data"); compare(s, got, n, false); sym_observe("len", strlen(e)); }
static void dec(void (*f)(char*)) { char* s = str(M, "s"); size_t n = strlen(s); sym_limit(200000); f(s); size_t k = strnlen(s, n + 1); sym_assert(k <= n, "decoding in place does not lengthen"); sym_reach("ok"); sym_observe("len", k); for (size_t i = 0; i < k && i < 6; i++) sym_observe("c", (unsigned char)s[i]); }
EX void h_json_dec() { dec(WebUtil::JsonDecode); }
EX void h_xml_dec() { dec(WebUtil::XmlDecode); }
EX void h_xml_strip() { dec(WebUtil::XmlStripTags); }
EX void h_xml_ent() { dec(WebUtil::XmlRemoveEntities); }
EX void h_json_rt() { char* s = str(R, "s", true); CString e = WebUtil::JsonEncode(s); WebUtil::JsonDecode(e); sym_assert(strlen(e) == strlen(s) && sym_eq(s, (const char*)e, strlen(s)), "JSON: decoding the encoded text gives the text"); sym_reach("ok"); sym_observe("len", strlen(e)); }
EX void h_xml_rt() { char* s = str(R, "s", true); for (char* p = s; *p; p++) sym_assume((*p >= 32) | (*p == 9) | (*p == 10) | (*p == 13)); CString e = WebUtil::XmlEncode(s); WebUtil::XmlDecode(e); sym_assert(strlen(e) == strlen(s) && sym_eq(s, (const char*)e, strlen(s)), "XML: decoding the encoded text gives the text"); sym_reach("ok"); sym_observe("len", strlen(e)); }
// escapes written by other clients
EX void h_json_esc() {
  char b[16]; int pre = (int)sym_pick(2, "pre"), post = (int)sym_pick(2, "post"), n = 0; unsigned char v = 0; sym_bytes(&v, 1, "v"); sym_assume(v >= 1); sym_assume(v < 128); char x; sym_bytes(&x, 1, "x"); sym_assume(x > 31); sym_assume(x != '"'); sym_assume(x != '\\');
  char want[4]; int w = 0; static const char* hx = "0123456789abcdef"; bool up = sym_pick(2, "upper");
  if (pre) { b[n++] = x; want[w++] = x; }
  b[n++] = '\\'; b[n++] = 'u'; b[n++] = '0'; b[n++] = '0'; b[n++] = hx[v >> 4]; b[n] = hx[v & 15]; if (up && b[n] >= 'a') b[n] -= 32; n++; want[w++] = (char)v;
  if (post) { b[n++] = x; want[w++] = x; }
  b[n] = 0; want[w] = 0; WebUtil::JsonDecode(b); sym_assert(strlen(b) == (size_t)w && sym_eq(b, want, w), "\\u escape of an ASCII character decodes to it"); sym_reach("ok"); sym_observe("c", (unsigned char)b[0]);
}
EX void h_xml_ref() {
  char b[20]; unsigned char v = 0; sym_bytes(&v, 1, "v"); sym_assume((v >= 32) | (v == 9) | (v == 10) | (v == 13)); sym_assume(v < 128); int post = (int)sym_pick(2, "post"), form = (int)sym_pick(2, "form"); char x; sym_bytes(&x, 1, "x"); sym_assume(x > 31); sym_assume(x != '&'); sym_assume(x != '<');
  int n = form == 0 ? sprintf(b, "&#%i;", (int)v) : sprintf(b, "&#x%x;", (int)v); if (post) b[n++] = x; b[n] = 0;
  WebUtil::XmlDecode(b); sym_assert(b[0] == (char)v && strlen(b) == (size_t)(1 + post) && (!post || b[1] == x), "character reference of an ASCII character decodes to it"); sym_reach("ok"); sym_observe("c", (unsigned char)b[0]);
}
