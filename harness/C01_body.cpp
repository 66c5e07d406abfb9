// TUS lib:yencode/ScalarDecoder.cpp lib:yencode/Sse2Decoder.cpp lib:yencode/Ssse3Decoder.cpp
// QUICK -DN=4 -DW=3 -DL=52 -DNAL=2 -DNSH=1
// THOROUGH -DN=6 -DW=4 -DL=76 -DNAL=4 -DNSH=2
// BOUND scalar decoder: all $N bytes arbitrary, every start state, every split into two calls
// BOUND vector decoders: body of up to $L bytes, $W consecutive arbitrary bytes at every position, buffer alignments 0/11 (thorough: also 1/15), every start state when the window is near the start
// ENTRY h_scalar q=30 t=400 reach=end1,end2,noend
// ENTRY h_sse2 q=120 t=500 reach=end1,end2,noend
// ENTRY h_ssse3 q=120 t=500 reach=end1,end2,noend
// OUTSIDE NEON and AVX variants of the decoder (not compiled on this target)
#include "common.h"
#include "YEncode.h"
#include "yref.h"
namespace YEncode { void init_decode_scalar(); void init_decode_sse2(); void init_decode_ssse3(); int (*decode)(const unsigned char**, unsigned char**, size_t, YencDecoderState*); bool decode_simd; }
using namespace YEncode;
static int mapSt(int s) { return s; }
static int refSt(YencDecoderState s) { switch (s) { case YDEC_STATE_CRLF: return Y_CRLF; case YDEC_STATE_EQ: return Y_EQ; case YDEC_STATE_CR: return Y_CR; case YDEC_STATE_NONE: return Y_NONE; case YDEC_STATE_CRLFDT: return Y_CRLFDT; case YDEC_STATE_CRLFDTCR: return Y_CRLFDTCR; default: return Y_CRLFEQ; } }
static const YencDecoderState sts[] = {YDEC_STATE_CRLF, YDEC_STATE_EQ, YDEC_STATE_CR, YDEC_STATE_NONE, YDEC_STATE_CRLFDT, YDEC_STATE_CRLFDTCR, YDEC_STATE_CRLFEQ};
// decodes data in pieces and compares output, end marker and consumption with the reference
static void run(unsigned char* in, int len, int first, int start) {
  YRef r; r.st = start; r.end = 0; r.n = 0; int used = 0;
  for (int i = 0; i < len && !r.end; i++) { yref_step(r, in[i]); used = i + 1; }
  unsigned char save[256]; memcpy(save, in, len);
  YencDecoderState st = sts[start]; int done = 0, outn = 0, end = 0; unsigned char out[256];
  const unsigned char* src = in;
  for (int k = 0; k < 2 && !end; k++) {
    int a = k == 0 ? 0 : first, n = k == 0 ? first : len - first; if (!n) continue;
    src = in + a; unsigned char* dst = in + a;
    end = decode(&src, &dst, n, &st);
    int o = (int)(dst - (in + a)); sym_assert(o >= 0 && o <= n, "output length within input length");
    memcpy(out + outn, in + a, o); outn += o;
    if (!end) sym_assert(src == in + a + n, "whole input consumed when no end marker was found");
  }
  sym_assert(end == r.end, "end marker found exactly where it is");
  if (end) sym_assert((int)(src - in) == used, "input consumed up to the end marker");
  sym_assert(outn == r.n, "number of decoded bytes");
  sym_assert(sym_eq(out, r.out, r.n), "decoded bytes");
  sym_reach(end == 1 ? "end1" : end == 2 ? "end2" : "noend");
  sym_observe("n", outn); sym_observe("end", end);
  for (int i = 0; i < outn && i < 8; i++) sym_observe("b", out[i]);
}
EX void h_scalar() {
  init_decode_scalar();
  int start = sym_pick(7, "state"), first = sym_pick(N + 1, "split");
  unsigned char* b = (unsigned char*)malloc(N); sym_bytes(b, N, "body");
  run(b, N, first, start);
}
// a long body: filler with a window of arbitrary bytes at any position
static void wide() {
  int al = (int)sym_pick(NAL, "align"); static const int aligns[] = {0, 11, 1, 15};
  al = aligns[al];
  int len = L - (int)sym_pick(NSH, "short") * 5;
  int pos = (int)sym_concretize(sym_range(0, len - W, "pos"));
  int start = pos < 4 ? sym_pick(7, "state") : pos % 2 ? Y_CRLF : Y_EQ; // the state left by an earlier part only matters near the start
  unsigned char* m = (unsigned char*)aligned_alloc(64, 256); unsigned char* b = m + al;
  for (int i = 0; i < len; i++) b[i] = (unsigned char)('a' + i % 23);
  sym_bytes(b + pos, W, "win");
  // the text right before and after the window: ordinary, or the rest of a line end
  int ctx = al ? 0 : sym_pick(3, "ctx");
  if (ctx == 1 && pos >= 2) { b[pos - 2] = '\r'; b[pos - 1] = '\n'; }
  if (ctx == 2 && pos + W + 2 <= len) { b[pos + W] = '\r'; b[pos + W + 1] = '\n'; }
  run(b, len, len, start);
}
EX void h_sse2() { init_decode_sse2(); wide(); }
EX void h_ssse3() { init_decode_ssse3(); wide(); }
