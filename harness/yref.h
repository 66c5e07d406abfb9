// Reference for the yEnc body: one byte at a time, straight from the yEnc and NNTP descriptions.
#pragma once
#include <stdint.h>
enum { Y_CRLF, Y_EQ, Y_CR, Y_NONE, Y_CRLFDT, Y_CRLFDTCR, Y_CRLFEQ };
struct YRef { int st, end; int n; unsigned char out[256]; };
static inline void yref_step(YRef& r, unsigned char c) {
  if (r.end) return;
  int s = r.st;
  if (s == Y_CRLF) { if (c == '.') { r.st = Y_CRLFDT; return; } if (c == '=') { r.st = Y_CRLFEQ; return; } s = Y_NONE; }
  if (s == Y_CRLFDT) { if (c == '\r') { r.st = Y_CRLFDTCR; return; } if (c == '=') { r.st = Y_CRLFEQ; return; } s = Y_NONE; }
  if (s == Y_CRLFDTCR) { if (c == '\n') { r.end = 2; return; } s = Y_NONE; }
  if (s == Y_CRLFEQ) { if (c == 'y') { r.end = 1; return; } s = Y_EQ; }
  if (s == Y_EQ) { r.out[r.n++] = (unsigned char)(c - 106); r.st = c == '\r' ? Y_CR : Y_NONE; return; }
  if (s == Y_CR) { if (c == '\n') { r.st = Y_CRLF; return; } s = Y_NONE; }
  if (c == '\r') { r.st = Y_CR; return; }
  if (c == '\n') { r.st = Y_NONE; return; }
  if (c == '=') { r.st = Y_EQ; return; }
  r.out[r.n++] = (unsigned char)(c - 42); r.st = Y_NONE;
}
