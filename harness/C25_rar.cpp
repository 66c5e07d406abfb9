// TUS postprocess/RarReader.cpp util/NString.cpp
// QUICK -DN=18 -DM=13 -DV=2
// THOROUGH -DN=24 -DM=18 -DV=3
// BOUND h_any3, h_any5: every contents of $N (rar3) or $M (rar5) arbitrary bytes after the signature, cut at every length; h_header: any first eight bytes; h_file: file blocks of both versions with arbitrary fields and cut at every position; h_rar3, h_rar5: well-formed volumes with a main block, up to $V files with arbitrary sizes (up to 2^63), times, attributes, split marks, name bytes, an unknown block and an end block; h_crypt: encrypted volumes with arbitrary headers (the cipher replaced by the identity)
// STUB the file is a buffer (the gaps left for the data of files have arbitrary sizes); key derivation and decryption are replaced by the identity
// OUTSIDE header checksums (not checked by nzbget); the ciphers
// ENTRY h_header q=20 t=100 reach=rar3,rar5,no
// ENTRY h_any3 q=60 t=600 reach=ok,bad
// ENTRY h_any5 q=60 t=600 reach=ok,bad
// ENTRY h_file3 q=60 t=600 reach=ok,bad
// ENTRY h_file5 q=60 t=600 reach=ok,bad
// ENTRY h_rar3 q=60 t=600 reach=done
// ENTRY h_rar5 q=60 t=600 reach=done
// ENTRY h_crypt3 q=60 t=600 reach=ok,bad
// ENTRY h_crypt5 q=60 t=600 reach=ok,bad
#include "common.h"
#include "priv.h"
#include "RarReader.h"
#include "FileSystem.h"
#include "Log.h"
#include "Util.h"
#include "quietlog.h"
Log* g_Log;
// the file: pieces with gaps between them
struct Piece { unsigned char b[160]; int n; uint64_t gap; }; static Piece pc[8]; static int np, cp, off; static bool strict, past, begun; static int64_t reads, total;
DiskFile::~DiskFile() {} bool DiskFile::Close() { return true; }
bool DiskFile::Open(const char*, EOpenMode) { cp = off = 0; past = begun = false; reads = 0; total = 0; for (int i = 0; i < np; i++) total += pc[i].n; return true; }
int64 DiskFile::Read(void* buf, int64 size) { reads++; sym_assert(reads <= 6 * total + 60, "reading of a file comes to an end"); int64 got = 0; char* o = (char*)buf; if (past) { return 0; } if (strict && begun && size) sym_assert(off + size <= pc[cp].n, "nothing beyond a header is read"); while (got < size) { if (off == pc[cp].n && !begun && cp + 1 < np) { cp++; off = 0; } if (off >= pc[cp].n) break; o[got++] = pc[cp].b[off++]; } if (got < size) past = true; return got; }
bool DiskFile::Eof() { return past; }
bool DiskFile::Seek(int64 p, ESeekOrigin o) { if (o == soSet) { begun = true; cp = 0; off = 0; past = false; while (p > 0) { off++; p--; if (off == pc[cp].n && cp + 1 < np) { cp++; off = 0; } } return true; }
  if (strict) { sym_assert((uint64_t)p == (uint64_t)(pc[cp].n - off) + pc[cp].gap, "the next header is read exactly after the data of the previous one"); cp++; off = 0; return true; }
  if (p > pc[0].n - off) { off = pc[0].n; past = false; return true; } if (p < -off) return false; int64 d = (int64)sym_concretize(p); off += (int)d; past = false; return true; }
bool RarVolume::DecryptRar3Prepare(const uint8*) { return true; } bool RarVolume::DecryptRar5Prepare(uint8 k, const uint8*) { return k <= 24; } bool RarVolume::DecryptInit(int) { m_context = this; return true; } bool RarVolume::DecryptBuf(const uint8 in[16], uint8 out[16]) { memcpy(out, in, 16); return true; } void RarVolume::DecryptFree() { m_context = nullptr; }
static unsigned char sig3[] = {0x52, 0x61, 0x72, 0x21, 0x1A, 0x07, 0x00}, sig5[] = {0x52, 0x61, 0x72, 0x21, 0x1A, 0x07, 0x01, 0x00};
static void p1(unsigned v) { pc[np].b[pc[np].n++] = (unsigned char)v; } static void p2(unsigned v) { p1(v); p1(v >> 8); } static void p4(uint32_t v) { p2(v); p2(v >> 16); }
static void begin() { pc[np].n = 0; pc[np].gap = 0; } static void end(uint64_t gap = 0) { pc[np].gap = gap; np++; }
static void sig(bool five) { np = 0; strict = false; begin(); for (int i = 0; i < (five ? 8 : 7); i++) p1(five ? sig5[i] : sig3[i]); }
static RarVolume* read(bool& ok) { RarVolume* v = new RarVolume("f"); ok = v->Read(); return v; }
static void safe(RarVolume* v, bool ok) { sym_assert((int64_t)v->GetFiles()->size() <= total / 5 + 1, "files have headers"); sym_reach(ok ? "ok" : "bad"); }
EX void h_header() { np = 0; strict = false; begin(); int n = (int)sym_pick(9, "length"); if (n) sym_bytes(pc[0].b, n, "data"); pc[0].n = n; np = 1; DiskFile f; f.Open("f", DiskFile::omRead); RarVolume v("f"); int ver = v.DetectRarVersion(f); bool is3 = n == 8 && sym_eq(pc[0].b, sig3, 7), is5 = n == 8 && sym_eq(pc[0].b, sig5, 8); sym_assert(ver == (is5 ? 5 : is3 ? 3 : 0), "the version is the one of the signature"); sym_reach(ver == 3 ? "rar3" : ver == 5 ? "rar5" : "no"); }
EX void h_any3() { sig(false); int n = 1 + (int)sym_pick(N, "length"); sym_bytes(pc[0].b + 7, n, "data"); pc[0].n = 7 + n; np = 1; bool ok; RarVolume* v = read(ok); if (n > 0) sym_assert(v->GetVersion() == 3, "version"); safe(v, ok); }
EX void h_any5() { sig(true); int n = (int)sym_pick(M + 1, "length"); if (n) sym_bytes(pc[0].b + 8, n, "data"); pc[0].n = 8 + n; np = 1; bool ok; RarVolume* v = read(ok); sym_assert(v->GetVersion() == 5, "version"); safe(v, ok); }
static void file_(bool five) { sig(five); int n; if (!five) { unsigned char* b = pc[0].b + 7; n = 7 + 4 + 21 + 8 + 3; sym_bytes(b, n, "block"); b[2] = 0x74; sym_assume((b[3 + 1] & 0x80) != 0); int nl = (int)sym_pick(5, "name length"); b[26] = (unsigned char)nl; b[27] = nl == 4 ? 0x20 : 0; } else { unsigned char* b = pc[0].b + 8; n = 33; sym_bytes(b, 15, "block"); b[4] = 20; b[5] = 2; bool ex = sym_pick(2, "extra"); memset(b + 15, 0, n - 15); b[29] = 3; b[30] = 5; b[6] = (unsigned char)(ex ? 3 : 2); sym_assume((b[ex ? 8 : 7] <= 2) | (b[ex ? 8 : 7] >= 100)); for (int i = 7; i < 16; i++) if (i != 10 && i != 14) sym_assume(b[i] < 0x80); }
  pc[0].n = (five ? 8 : 7) + (sym_pick(2, "cut") ? (int)sym_pick(n, "cut at") : n); if (pc[0].n < 8) pc[0].n = 8; np = 1; bool ok; RarVolume* v = read(ok); safe(v, ok); for (RarFile& f : *v->GetFiles()) sym_assert(strlen(f.GetFilename()) <= 8192, "names are ended"); }
struct Want { uint64_t size; uint32_t time, attr; bool before, after; unsigned char name[4]; int nl; }; static Want w[4];
static void compare(RarVolume* v, bool ok, int nf) { sym_assert(ok, "a well-formed volume is read"); sym_assert((int)v->GetFiles()->size() == nf, "all files are reported"); for (int i = 0; i < nf; i++) { RarFile& f = (*v->GetFiles())[i]; sym_assert((uint64_t)f.GetSize() == w[i].size, "size of a file"); sym_assert(f.GetTime() == w[i].time, "time of a file"); sym_assert(f.GetAttr() == w[i].attr, "attributes of a file"); sym_assert(f.GetSplitBefore() == w[i].before, "split before"); sym_assert(f.GetSplitAfter() == w[i].after, "split after"); sym_assert(sym_eq(f.GetFilename(), w[i].name, w[i].nl) && f.GetFilename()[w[i].nl] == 0, "name of a file"); } }
static uint32_t u32(const char* nm) { uint32_t v; sym_bytes(&v, 4, nm); return v; }
EX void h_rar3() { sig(false); end(); strict = true; uint16_t mf = (uint16_t)sym_range(0, 0x1ff, "main flags"); sym_assume((mf & 0x80) == 0); begin(); p2(0x1234); p1(0x73); p2(mf); p2(13); for (int i = 0; i < 6; i++) p1(0); end();
  int nf = (int)sym_pick(V + 1, "files"); for (int i = 0; i < nf; i++) { Want& x = w[i]; bool large = sym_pick(2, "large"); bool salt = i == 0 && sym_pick(2, "salt"); x.nl = 1 + (int)sym_pick(3, "name"); sym_bytes(x.name, x.nl, "name"); for (int k = 0; k < x.nl; k++) sym_assume(x.name[k] != 0); x.before = sym_bool("before"); x.after = sym_bool("after"); uint32_t pk = u32("packed"), pkh = large ? u32("packed high") : 0, us = u32("size"), ush = large ? u32("size high") : 0; if (large) sym_assume((pkh < 0x7fffffff) & (ush < 0x80000000u)); x.size = (uint64_t)ush << 32 | us; x.time = u32("time"); x.attr = u32("attr"); unsigned flags = 0x8000u | (unsigned)sym_ite(x.before, 1, 0) | (unsigned)sym_ite(x.after, 2, 0) | (large ? 0x100 : 0) | (salt ? 0x400 : 0);
    begin(); p2(0); p1(0x74); p2(flags); p2(32 + (large ? 8 : 0) + x.nl + (salt ? 8 : 0)); p4(pk); p4(us); p1(3); p4(0xdeadbeef); p4(x.time); p1(29); p1(0x33); p2(x.nl); p4(x.attr); if (large) { p4(pkh); p4(ush); } for (int k = 0; k < x.nl; k++) p1(x.name[k]); if (salt) for (int k = 0; k < 8; k++) p1(k); end((uint64_t)pkh << 32 | pk); }
  int other = (int)sym_pick(3, "other block"); if (other) { begin(); p2(0); p1(other == 1 ? 0x7a : 0x75); uint32_t add = other == 1 ? u32("other size") : 0; p2(other == 1 ? 0x8000 : 0); p2(other == 1 ? 11 : 9); if (other == 1) p4(add); else p2(7); end(add); }
  uint16_t ef = (uint16_t)sym_range(0, 15, "end flags"); bool crc = (ef & 2) != 0, vol = (ef & 8) != 0; uint32_t no = u32("volume"); begin(); p2(0); p1(0x7b); p2(0x4000 | ef); p2(7 + (crc ? 4 : 0) + (vol ? 4 : 0)); if (crc) p4(0); if (vol) p4(no); end(); bool ok; RarVolume* v = read(ok); compare(v, ok, nf); sym_assert(v->GetVersion() == 3, "version"); sym_assert(v->GetNewNaming() == ((mf & 0x10) != 0), "naming"); sym_assert(v->GetMultiVolume() == ((mf & 1) != 0), "multi-volume"); sym_assert(!v->GetEncrypted(), "not encrypted"); sym_assert(v->GetVolumeNo() == (vol ? no : 0), "volume number"); if (vol) sym_assert(v->GetHasNextVolume() == ((ef & 1) != 0), "next volume"); sym_reach("done"); }
static uint64_t pv(int n, const char* nm) { uint64_t r = 0; for (int i = 0; i < n; i++) { unsigned char c; sym_bytes(&c, 1, nm); c &= 0x7f; r |= (uint64_t)c << (7 * i); p1(c | (i + 1 < n ? 0x80 : 0)); } return r; }
EX void h_rar5() { sig(true); end(); strict = true; unsigned mf = (unsigned)sym_range(0, 31, "main flags"); bool hasno = (mf & 2) != 0; begin(); p4(0); p1(hasno ? 5 : 4); p1(1); p1(0); p1(mf); uint64_t no = hasno ? pv(2, "volume") : 0; if (!hasno) p1(0); end();
  int nf = (int)sym_pick(V + 1, "files"); for (int i = 0; i < nf; i++) { Want& x = w[i]; x.nl = 1 + (int)sym_pick(2, "name"); sym_bytes(x.name, x.nl, "name"); for (int k = 0; k < x.nl; k++) sym_assume(x.name[k] != 0); x.before = sym_bool("before"); x.after = sym_bool("after"); int extra = (int)sym_pick(4, "extra"); if (i) extra = 0; bool data = sym_pick(2, "data"); bool hasTime = i == 0 && sym_pick(2, "time"), hasCrc = i == 0 && sym_pick(2, "crc"); int sl = 1 + 8 * (int)sym_pick(2, "size length");
    int esz = extra == 0 ? 0 : extra == 1 ? 7 : extra == 2 ? 11 : 3 + 7; static const int dl[] = {1, 5, 9}; int dlen = data ? dl[sym_pick(3, "data length")] : 0; int sz = 1 + 1 + (extra ? 1 : 0) + dlen + 1 + sl + 2 + (hasTime ? 4 : 0) + (hasCrc ? 4 : 0) + 2 + 1 + x.nl + esz; begin(); p4(0); p1(sz); p1(2); p1((extra ? 1 : 0) | (data ? 2 : 0) | (unsigned)sym_ite(x.before, 8, 0) | (unsigned)sym_ite(x.after, 16, 0)); if (extra) p1(esz); uint64_t gap = data ? pv(dlen, "data size") : 0; p1((hasTime ? 2 : 0) | (hasCrc ? 4 : 0)); x.size = pv(sl, "size"); x.attr = (uint32_t)pv(2, "attributes"); x.time = 0; if (hasTime) { x.time = u32("time"); p4(x.time); } if (hasCrc) p4(0); p1(0); p1(1); p1(x.nl); for (int k = 0; k < x.nl; k++) p1(x.name[k]);
    if (extra == 3) { p1(2); p1(1); p1(0); } if (extra == 1 || extra == 3) { p1(6); p1(3); p1(3); x.time = u32("unix time"); p4(x.time); } if (extra == 2) { static const uint32_t ts[] = {0, 1, 0x50000000, 0x7fffffff, 0x80000000, 0xffffffff}; uint64_t t = 11644473600LL + ts[sym_pick(6, "windows time")]; uint64_t wt = t * 10000000 + 5; p1(10); p1(3); p1(2); p4((uint32_t)wt); p4((uint32_t)(wt >> 32)); x.time = (uint32_t)(t - 11644473600LL); } end(gap); }
  bool other = sym_pick(2, "other block"); if (other) { begin(); p4(0); p1(5); p1(3); p1(2); uint64_t g = pv(2, "other size"); p1(1); end(g); } unsigned ef = (unsigned)sym_range(0, 1, "end flags"); begin(); p4(0); p1(3); p1(5); p1(0); p1(ef); end(); bool ok; RarVolume* v = read(ok); compare(v, ok, nf); sym_assert(v->GetVersion() == 5, "version"); sym_assert(v->GetNewNaming(), "naming"); sym_assert(v->GetMultiVolume() == ((mf & 1) != 0), "multi-volume"); sym_assert(v->GetVolumeNo() == (uint32_t)no, "volume number"); sym_assert(v->GetHasNextVolume() == (ef != 0), "next volume"); sym_reach("done"); }
static void crypt_(bool five) { sig(five); int n = pc[0].n; unsigned char* b = pc[0].b; if (five) { unsigned char e[] = {0, 0, 0, 0, 21, 4, 0, 0, 0, 15}; memcpy(b + n, e, 10); n += 10; memset(b + n, 1, 16); n += 16; memset(b + n, 2, 16); n += 16; } else { unsigned char e[] = {0, 0, 0x73, 0x80, 0, 13, 0, 0, 0, 0, 0, 0, 0}; memcpy(b + n, e, 13); n += 13; memset(b + n, 1, 8); n += 8; } int k = five ? 16 : 16; sym_bytes(b + n, k, "encrypted"); if (five) { memset(b + n + 10, 0, 6); static const unsigned char ty[] = {0, 1, 2, 3, 5, 6}; b[n + 4] = (unsigned char)(2 + sym_pick(13, "block size")); b[n + 5] = ty[sym_pick(6, "type")]; } pc[0].n = n + k; np = 1; RarVolume* v = new RarVolume("f"); bool pass = sym_pick(2, "password"); if (pass) v->SetPassword("p"); bool ok = v->Read(); sym_assert(v->GetEncrypted(), "encryption is reported"); if (!pass) sym_assert(!ok && v->GetFiles()->empty(), "nothing is read without the password"); safe(v, ok); }
EX void h_file3() { file_(false); } EX void h_file5() { file_(true); } EX void h_crypt3() { crypt_(false); } EX void h_crypt5() { crypt_(true); }
