// C library model used inside the symbolic engine only (native replay uses the real one).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
typedef unsigned char uc;
int sym_split(int); int sym_issym(unsigned long long); void sym_same(unsigned long long, unsigned long long); unsigned long long sym_subst(unsigned long long); void sym_bytes(void*, size_t, const char*); void sym_assume_(int);
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); 
static int env_errno; int* __errno_location(void) { return &env_errno; }
char __libc_single_threaded = 1;
size_t strlen(const char* s) { const char* p = s; while (*p) p++; return p - s; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (uc)*a - (uc)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (uc)*a - (uc)*b; if (!*a) return 0; } return 0; }
int tolower(int c) { return ((unsigned)c - 'A' < 26u) ? c + 32 : c; }
int toupper(int c) { return ((unsigned)c - 'a' < 26u) ? c - 32 : c; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((uc)*a), y = tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((uc)*a), y = tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int memcmp(const void* a, const void* b, size_t n) { const uc *x = a, *y = b; int r = 0; for (size_t i = n; i-- > 0;) { int d = x[i] - y[i]; r = d ? d : r; } return r; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* s, int c, size_t n) { const uc* p = s; for (size_t i = 0; i < n; i++) if (p[i] == (uc)c) return (void*)(p + i); return 0; }
void* memrchr(const void* s, int c, size_t n) { const uc* p = s; for (size_t i = n; i-- > 0;) if (p[i] == (uc)c) return (void*)(p + i); return 0; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { const char* p = h; if (!nn) return (void*)h; for (size_t i = 0; i + nn <= hn; i++) if (!memcmp(p + i, n, nn)) return (void*)(p + i); return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(const char* s, int c) { for (;; s++) if (*s == (char)c || !*s) return (char*)s; }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { if (!*n) return (char*)h; for (; *h; h++) { const char *a = h, *b = n; while (*b && *a == *b) { a++; b++; } if (!*b) return (char*)h; if (!*a) return 0; } return 0; }
char* strcasestr(const char* h, const char* n) { if (!*n) return (char*)h; for (; *h; h++) { const char *a = h, *b = n; while (*b && tolower((uc)*a) == tolower((uc)*b)) { a++; b++; } if (!*b) return (char*)h; } return 0; }
void sym_assert_(int, const char*);
static void lap(const char* d, const char* s, size_t n, const char* m) { size_t k = d < s ? s - d : d - s; if (k && n > k && k < 100000 && strnlen(s, k) == k) sym_assert_(0, m); }
char* strcpy(char* d, const char* s) { char* r = d; lap(d, s, (size_t)-1, "strcpy within overlapping memory"); while ((*d++ = *s++)) ; return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; lap(d, s, n, "strncpy within overlapping memory"); for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
size_t strspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { const char* p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
size_t strcspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { const char* p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char* e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
static char* tokSave; char* strtok(char* s, const char* d) { return strtok_r(s, d, &tokSave); }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = malloc(n); memcpy(r, s, n); return r; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
size_t wcslen(const int* s) { size_t n = 0; while (s[n]) n++; return n; }
char* strerror(int e) { return "error"; }
char* strerror_r(int e, char* b, size_t n) { return "error"; }
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isalpha(int c) { return ((unsigned)(c | 32) - 'a') < 26u; }
int isalnum(int c) { return (((unsigned)(c | 32) - 'a') < 26u) | ((unsigned)c - '0' < 10u); }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5u); }
int isxdigit(int c) { return ((unsigned)c - '0' < 10u) | (((unsigned)(c | 32) - 'a') < 6u); }
int isprint(int c) { return (unsigned)c - 32 < 95u; }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); }
int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
// ---- numbers
__attribute__((noinline)) static unsigned long long dstep(unsigned long long v, unsigned long long base, uc c) { return v * base + (unsigned long long)(uc)(c - '0'); }
static unsigned long long conv(const char* s, char** end, int base, int sgn, unsigned long long lim, int* negp) {
  const char* p = s; while (isspace((uc)*p)) p++;
  int neg = 0; if (*p == '+') p++; else if (*p == '-') { neg = 1; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((uc)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = sym_split(*p == '0') ? 8 : 10;
  unsigned long long v = 0; int any = 0, ovf = 0;
  for (;; p++) { int c = (uc)*p, d; if ((unsigned)c - '0' < 10u) d = c - '0'; else if (base > 10 && (unsigned)(c | 32) - 'a' < 26u) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any++;
    if (!ovf) { if (any > 12 && v > (~0ull - d) / base) ovf = 1; else v = d < 10 ? dstep(v, base, (uc)c) : v * base + d; } }
  if (end) *end = (char*)(any ? p : s);
  v = sym_subst(v);
  *negp = neg; if (ovf) { env_errno = 34; *negp |= 2; }
  return v;
}
long strtol(const char* s, char** e, int b) { int n; unsigned long long v = conv(s, e, b, 1, 0, &n); if (n & 1) { if ((n & 2) || v > (1ull << 63)) { env_errno = 34; return (long)(1ull << 63); } return (long)(0 - v); } if ((n & 2) || v > 0x7fffffffffffffffull) { env_errno = 34; return 0x7fffffffffffffffl; } return (long)v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { int n; unsigned long long v = conv(s, e, b, 0, 0, &n); if (n & 2) return ~0ul; return (n & 1) ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); } long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); } unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); } long atol(const char* s) { return strtol(s, 0, 10); } long long atoll(const char* s) { return strtol(s, 0, 10); }
double strtod(const char* s, char** e) {
  const char* p = s; while (isspace((uc)*p)) p++; int neg = 0; if (*p == '+') p++; else if (*p == '-') { neg = 1; p++; }
  unsigned long long m = 0; int any = 0, sc = 0;
  while (isdigit((uc)*p)) { m = m * 10 + (*p - '0'); p++; any = 1; }
  if (*p == '.') { p++; while (isdigit((uc)*p)) { m = m * 10 + (*p - '0'); sc--; p++; any = 1; } }
  if (!any) { if (e) *e = (char*)s; return 0; }
  if ((*p | 32) == 'e') { const char* q = p + 1; int en = 0, ex = 0; if (*q == '+') q++; else if (*q == '-') { en = 1; q++; } if (isdigit((uc)*q)) { while (isdigit((uc)*q)) { ex = ex * 10 + (*q - '0'); q++; } sc += en ? -ex : ex; p = q; } }
  double v = (double)m; double t = 1; int k = sc < 0 ? -sc : sc; while (k-- > 0) t *= 10; v = sc < 0 ? v / t : v * t;
  if (e) *e = (char*)p; return neg ? -v : v;
}
double atof(const char* s) { return strtod(s, 0); } float strtof(const char* s, char** e) { return (float)strtod(s, e); }
// ---- printf
typedef struct { char* b; size_t cap, n; } Out;
static void oc(Out* o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void pad(Out* o, char c, long n) { while (n-- > 0) oc(o, c); }
static void num(Out* o, unsigned long long v, int neg, int base, int upper, int width, int prec, int left, int zero, int plus, int space, int alt) {
  char t[70]; int n = 0; const char* dg = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  if (v == 0) { v = 0; if (prec != 0) t[n++] = '0'; }
  else if (base == 10 && sym_issym(v)) {   // decimal digits of an unknown number: fresh digits whose value is that number
    n = 0; unsigned long long lim = 10; int k = 1; while (k < 20 && v >= lim) { k++; lim = k == 20 ? 0 : lim * 10; }
    char d[20]; sym_bytes(d, k, "digits"); unsigned long long h = 0; int ok = 1;
    for (int i = 0; i < k; i++) { ok &= ((uc)d[i] >= '0') & ((uc)d[i] <= '9'); h = dstep(h, 10, (uc)d[i]); }
    ok &= d[0] != '0'; sym_assume_(ok); sym_same(h, v); // (that these digits are those of v is used where they are read back; other readers see any digits)
    while (k) t[n++] = d[--k]; v = 0;
  }
  if (base == 16) while (v) { unsigned d = (unsigned)(v & 15); t[n++] = (char)(d + '0' + (d > 9 ? (upper ? 7 : 39) : 0)); v >>= 4; }
  else while (v) { unsigned d = (unsigned)(v % base); t[n++] = '0' + d; v /= base; }
  int zeros = prec > n ? prec - n : 0; char sg = neg ? '-' : plus ? '+' : space ? ' ' : 0;
  int pre = (alt && base == 16) ? 2 : 0;
  int len = n + zeros + (sg != 0) + pre;
  if (!left && zero && prec < 0 && width > len) { zeros += width - len; len = width; }
  if (!left) pad(o, ' ', width - len);
  if (sg) oc(o, sg); if (pre) { oc(o, '0'); oc(o, upper ? 'X' : 'x'); }
  pad(o, '0', zeros); while (n) oc(o, t[--n]);
  if (left) pad(o, ' ', width - len);
}
static void flt(Out* o, double v, int width, int prec, int left, int zero, int plus) {
  if (prec < 0) prec = 6; int neg = v < 0; if (neg) v = -v;
  if (v > 1.8e19) { const char* s = "inf"; while (*s) oc(o, *s++); return; }
  double p = 1; for (int i = 0; i < prec; i++) p *= 10;
  unsigned long long ip = (unsigned long long)v; double fr = (v - (double)ip) * p; unsigned long long fi = (unsigned long long)fr; double rem = fr - (double)fi;
  if (rem > 0.5 || (rem == 0.5 && (prec == 0 ? (ip & 1) : (fi & 1)))) fi++;
  if (prec == 0) { if (fi) ip++; } else if (fi >= (unsigned long long)p) { fi -= (unsigned long long)p; ip++; }
  char t[50]; int n = 0; if (prec > 0) { for (int i = 0; i < prec; i++) { t[n++] = '0' + fi % 10; fi /= 10; } t[n++] = '.'; }
  if (!ip) t[n++] = '0'; while (ip) { t[n++] = '0' + ip % 10; ip /= 10; }
  int len = n + (neg || plus); if (!left && !zero) pad(o, ' ', width - len); if (neg) oc(o, '-'); else if (plus) oc(o, '+'); if (!left && zero) pad(o, '0', width - len); while (n) oc(o, t[--n]); if (left) pad(o, ' ', width - len);
}
int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
  Out o = {buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, l = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit(*f)) width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l') l++; else if (*f == 'z' || *f == 'j' || *f == 't' || *f == 'q' || *f == 'L') l = 2; else if (*f == 'h') l--; else break; }
    switch (*f) {
      case 'd': case 'i': { long long v = l > 0 ? va_arg(ap, long long) : (long long)va_arg(ap, int); if (l == -1) v = (short)v; if (l == -2) v = (signed char)v; int neg = v < 0; num(&o, neg ? 0 - (unsigned long long)v : (unsigned long long)v, neg, 10, 0, width, prec, left, zero, plus, space, 0); break; }
      case 'u': case 'x': case 'X': case 'o': { unsigned long long v = l > 0 ? va_arg(ap, unsigned long long) : (unsigned long long)va_arg(ap, unsigned); if (l == -1) v = (unsigned short)v; if (l == -2) v = (uc)v; num(&o, v, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', width, prec, left, zero, 0, 0, alt && v); break; }
      case 'p': num(&o, (uintptr_t)va_arg(ap, void*), 0, 16, 0, width, -1, left, 0, 0, 0, 1); break;
      case 'c': { int c = va_arg(ap, int); if (!left) pad(&o, ' ', width - 1); oc(&o, (char)c); if (left) pad(&o, ' ', width - 1); break; }
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; long n = prec >= 0 ? (long)strnlen(s, prec) : (long)strlen(s); if (!left) pad(&o, ' ', width - n); for (long i = 0; i < n; i++) oc(&o, s[i]); if (left) pad(&o, ' ', width - n); break; }
      case 'f': case 'F': case 'g': case 'e': flt(&o, va_arg(ap, double), width, prec, left, zero, plus); break;
      case '%': oc(&o, '%'); break;
      case 0: f--; break;
      default: oc(&o, '%'); oc(&o, *f);
    }
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1ul << 40, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1ul << 40, f, ap); va_end(ap); return r; }
int printf(const char* f, ...) { return 0; } int vprintf(const char* f, va_list ap) { return 0; } int puts(const char* s) { return 0; } int putchar(int c) { return c; }
void perror(const char* s) {}
// ---- scanf
int vsscanf(const char* s, const char* f, va_list ap) {
  int got = 0; const char* p = s;
  for (; *f; f++) {
    if (isspace((uc)*f)) { while (isspace((uc)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return (!*p && !got) ? -1 : got; p++; continue; }
    f++; int sup = 0, width = 0, l = 0; if (*f == '*') { sup = 1; f++; } while (isdigit(*f)) width = width * 10 + *f++ - '0';
    for (;; f++) { if (*f == 'l') l++; else if (*f == 'z' || *f == 'j' || *f == 't') l = 2; else if (*f == 'h') l--; else break; }
    if (*f == '%') { while (isspace((uc)*p)) p++; if (*p != '%') return got; p++; continue; }
    if (*f == 'n') { if (!sup) *va_arg(ap, int*) = (int)(p - s); continue; }
    if (*f != 'c' && *f != '[') while (isspace((uc)*p)) p++;
    if (!*p) return got ? got : -1;
    switch (*f) {
      case 'd': case 'i': case 'u': case 'x': case 'X': {
        int base = *f == 'd' || *f == 'u' ? 10 : *f == 'i' ? 0 : 16; int w = width ? width : 1 << 30; int neg = 0;
        if (w && (*p == '-' || *p == '+')) { neg = *p == '-'; p++; w--; }
        if ((base == 16 || base == 0) && w > 1 && p[0] == '0' && (p[1] | 32) == 'x') { p += 2; w -= 2; base = 16; if (!w || !isxdigit((uc)*p)) return got; } else if (base == 0) base = sym_split(*p == '0') ? 8 : 10;
        unsigned long long v = 0; int any = 0, ovf = 0;
        for (; w > 0; w--, p++) { int c = (uc)*p, d; if ((unsigned)c - '0' < 10u) d = c - '0'; else if (base > 10 && (unsigned)(c | 32) - 'a' < 6u) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any++; if (!ovf) { if (any > 15 && v > (~0ull - d) / base) ovf = 1; else v = d < 10 ? dstep(v, base, (uc)c) : v * base + d; } }
        if (!any) return got;
        v = sym_subst(v);
        if (*f == 'd' || *f == 'i') { if (neg) { if (ovf || v > (1ull << 63)) v = 1ull << 63; else v = 0 - v; } else if (ovf || v > 0x7fffffffffffffffull) v = 0x7fffffffffffffffull; } else { if (ovf) v = ~0ull; else if (neg) v = 0 - v; }
        if (!sup) { if (l > 0) *va_arg(ap, long long*) = (long long)v; else if (l == -1) *va_arg(ap, short*) = (short)v; else if (l == -2) *va_arg(ap, char*) = (char)v; else *va_arg(ap, int*) = (int)v; got++; }
        break; }
      case 's': { char* d = sup ? 0 : va_arg(ap, char*); int w = width ? width : 1 << 30; while (w-- > 0 && *p && !isspace((uc)*p)) { if (d) *d++ = *p; p++; } if (d) { *d = 0; got++; } break; }
      case 'c': { char* d = sup ? 0 : va_arg(ap, char*); int w = width ? width : 1; while (w-- > 0 && *p) { if (d) *d++ = *p; p++; } if (d) got++; break; }
      case 'f': case 'g': { char* e; double v = strtod(p, &e); if (e == p) return got; p = e; if (!sup) { if (l > 0) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v; got++; } break; }
      case '[': { f++; int inv = 0; if (*f == '^') { inv = 1; f++; } const char* set = f; if (*f == ']') f++; while (*f && *f != ']') f++;
        char* d = sup ? 0 : va_arg(ap, char*); int w = width ? width : 1 << 30, n = 0;
        while (w-- > 0 && *p) { int in = 0; for (const char* q = set; q < f; q++) { if (q + 2 < f && q[1] == '-') { if ((uc)*p >= (uc)q[0] && (uc)*p <= (uc)q[2]) in = 1; q += 2; } else if (*q == *p) in = 1; } if (in == inv) break; if (d) *d++ = *p; p++; n++; }
        if (!n) return got; if (d) { *d = 0; got++; } break; }
      default: return got;
    }
  }
  return got;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_vsscanf(const char* s, const char* f, va_list ap) { return vsscanf(s, f, ap); }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
// ---- sorting
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  char* p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = p[j * sz + k]; p[j * sz + k] = t; }
}
