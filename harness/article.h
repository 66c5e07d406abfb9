// An article fed to the real Decoder in pieces, each in a buffer of its own of exactly its size.
// STUB: the checksum routine is replaced with a simpler mixing function (C03 is about the real one)
#pragma once
#include "common.h"
#include "priv.h"
#include "Decoder.h"
#include "YEncode.h"
#include "Log.h"
#include "quietlog.h"
Log* g_Log;
namespace YEncode { void init_decode_scalar(); int (*decode)(const unsigned char**, unsigned char**, size_t, YencDecoderState*); bool decode_simd, crc_simd; void (*crc_init)(crc_state* const); void (*crc_incr)(crc_state* const, const unsigned char*, long); uint32_t (*crc_finish)(crc_state* const); }
static uint32_t mix(uint32_t h, unsigned char c) { return (h << 8 | h >> 24) ^ c ^ 0x5a; }
static uint32_t mixEnd(uint32_t h) { return h & 0x77777777; }
static void myInit(YEncode::crc_state* const s) { *(uint32_t*)s = 7; }
static void myIncr(YEncode::crc_state* const s, const unsigned char* p, long n) { uint32_t h = *(uint32_t*)s; for (long i = 0; i < n; i++) h = mix(h, p[i]); *(uint32_t*)s = h; }
static uint32_t myFinish(YEncode::crc_state* const s) { return mixEnd(*(uint32_t*)s); }
static void dec_init() { env_reset(); YEncode::init_decode_scalar(); YEncode::crc_init = myInit; YEncode::crc_incr = myIncr; YEncode::crc_finish = myFinish; }
struct Art { Decoder d; char out[2048]; int n = 0; int in = 0; };
// feeds text in pieces that end at the given points; stops at the end of the article as the downloader does
static void feed(Art& a, const char* t, int len, const int* at, int k) { int from = 0; for (int i = 0; i <= k && !a.d.GetEof(); i++) { int to = i < k ? at[i] : len; if (to > len) to = len; if (to <= from) continue; char* b = (char*)malloc(to - from); memcpy(b, t + from, to - from); char* p = b; a.in += to - from; sym_limit(20000000); int o = a.d.DecodeBuffer(p, to - from); sym_assert(o >= 0 && a.n + o <= a.in && a.n + o <= 2048, "no more output than input"); if (a.d.m_rawMode || a.d.GetFormat() != Decoder::efUx) sym_assert(o <= to - from, "the output fits into the buffer"); sym_assert(!o || sym_valid(p, o), "the output is valid memory"); memcpy(a.out + a.n, p, o); a.n += o; free(b); from = to; } }
