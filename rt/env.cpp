#include "sym.h"
extern "C" int sym_issym(unsigned long long);
#include "env.h"
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/statvfs.h>
#include <dirent.h>
#include <time.h>
#define MAXN 96
#define MAXP 400
struct Node { char path[MAXP]; int used, dir; unsigned char* data; long size, cap; int links; };
static Node nodes[MAXN];
struct EF { unsigned magic; int used; Node* n; long pos, flushed; int wr, rd, app, eof, err; };
static EF files[16];
struct ED { unsigned magic; int idx; char path[MAXP]; struct dirent de; };
extern "C" {
int64_t env_now = 1600000000, env_tz = 0; int env_crash_at = -1, env_ops = 0, env_crashed = 0, env_fault_at = -1, env_fault_sticky = 0, env_fopen_ro_fail = 0;
uint64_t (*env_rand_hook)(void) = 0; static uint64_t (*crashPrefix)(uint64_t, uint64_t) = 0;
const char* env_opened[64]; int env_nopened = 0;
static unsigned rnd = 12345;
void env_crash_prefix(uint64_t (*f)(uint64_t, uint64_t)) { crashPrefix = f; }
// normalised copy of a path: no duplicate or trailing separators
static void norm(char* o, const char* p) { int n = 0; while (*p && n < MAXP - 1) { if (*p == '/' && n > 0 && o[n - 1] == '/') { p++; continue; } o[n++] = *p++; } while (n > 1 && o[n - 1] == '/') n--; o[n] = 0; }
static Node* look(const char* p) { char b[MAXP]; norm(b, p); for (int i = 0; i < MAXN; i++) if (nodes[i].used && !strcmp(nodes[i].path, b)) return &nodes[i]; return 0; }
static Node* mk(const char* p, int dir) { for (int i = 0; i < MAXN; i++) if (!nodes[i].used) { Node* n = &nodes[i]; norm(n->path, p); n->used = 1; n->dir = dir; n->data = 0; n->size = n->cap = 0; return n; } abort(); }
static void drop(Node* n) { n->used = 0; if (n->data) free(n->data); n->data = 0; n->size = n->cap = 0; }
static int parentOk(const char* p) { char b[MAXP]; norm(b, p); char* s = strrchr(b, '/'); if (!s) return 1; if (s == b) return 1; *s = 0; Node* n = look(b); return n && n->dir; }
static void grow(Node* n, long sz) { if (sz > n->cap) { long c = sz + sz / 2 + 64; unsigned char* d = (unsigned char*)calloc(1, c); if (n->size) memcpy(d, n->data, n->size); if (n->data) free(n->data); n->data = d; n->cap = c; } }
static void setSize(Node* n, long sz) { grow(n, sz); if (sz > n->size) memset(n->data + n->size, 0, sz - n->size); n->size = sz; }
// every mutating operation passes here; returns 0 if it has no effect (dead), -1 if it must fail, 1 to go on
static void die() {
  env_crashed = 1;
  // bytes handed to the library but not flushed may or may not have reached the disk
  for (int i = 0; i < 16; i++) if (files[i].used && files[i].wr && files[i].n && files[i].app == 0 && files[i].pos > files[i].flushed && files[i].n->size == files[i].pos) {
    long keep = crashPrefix ? (long)crashPrefix((uint64_t)files[i].flushed, (uint64_t)files[i].pos) : files[i].flushed; files[i].n->size = keep; }
}
static int op() { if (env_crashed) return 0; int k = env_ops++; if (k == env_crash_at) { die(); return 0; } if (k == env_fault_at || (env_fault_sticky && env_fault_at >= 0 && k > env_fault_at)) { errno = ENOSPC; return -1; } return 1; }
void env_reset(void) { for (int i = 0; i < MAXN; i++) if (nodes[i].used) drop(&nodes[i]); for (int i = 0; i < 16; i++) files[i].used = 0; env_crash_at = -1; env_ops = 0; env_crashed = 0; env_fault_at = -1; env_nopened = 0; }
void env_restart(void) { for (int i = 0; i < 16; i++) files[i].used = 0; env_crashed = 0; env_crash_at = -1; env_fault_at = -1; env_ops = 0; }
void env_put(const char* p, const void* d, size_t n) { Node* x = look(p); if (!x) x = mk(p, 0); setSize(x, 0); setSize(x, (long)n); if (n) memcpy(x->data, d, n); }
void env_mkdir_(const char* p) { if (!look(p)) mk(p, 1); }
int env_exists(const char* p) { return look(p) != 0; }
long env_size(const char* p) { Node* n = look(p); return n ? n->size : -1; }
const unsigned char* env_data(const char* p) { Node* n = look(p); return n ? n->data : 0; }
int env_count(void) { int c = 0; for (int i = 0; i < MAXN; i++) c += nodes[i].used && !nodes[i].dir; return c; }
int env_open_files(void) { int c = 0; for (int i = 0; i < 16; i++) c += files[i].used; return c; }
#define EFP(f) ((EF*)(f))
static EF* ef(FILE* f) { EF* e = (EF*)f; if (e >= files && e < files + 16 && e->used) return e; return 0; }
FILE* env_fopen(const char* p, const char* m) {
  if (env_nopened < 64) env_opened[env_nopened++] = strdup(p);
  int w = m[0] == 'w', a = m[0] == 'a', plus = strchr(m, '+') != 0; Node* n = look(p);
  if (n && n->dir && (w || a || plus)) { errno = EISDIR; return 0; }
  if (!w && !a) { if (!n) { errno = ENOENT; return 0; } if (!plus && env_fopen_ro_fail) { errno = EACCES; return 0; } }
  else if (!n && !parentOk(p)) { errno = ENOENT; return 0; }
  EF* e = 0; for (int i = 0; i < 16; i++) if (!files[i].used) { e = &files[i]; break; } if (!e) { errno = EMFILE; return 0; }
  if (w || (a && !n)) { int r = op(); if (r < 0) return 0; if (r == 0) { // dead: hand out a file that swallows everything
      e->used = 1; e->magic = 0xEF11E; e->n = 0; e->pos = e->flushed = 0; e->wr = 1; e->rd = 0; e->app = 0; e->eof = e->err = 0; return (FILE*)e; }
    if (!n) n = mk(p, 0); if (w) setSize(n, 0); }
  e->used = 1; e->magic = 0xEF11E; e->n = n; e->wr = w || a || plus; e->rd = !w && !a || plus; e->app = a; e->pos = a ? n->size : 0; e->flushed = e->pos; e->eof = e->err = 0; return (FILE*)e;
}
static long wr(EF* e, const void* d, long n) {
  if (!e->n || env_crashed) return n;
  if (!e->wr) { e->err = 1; return 0; }
  if (e->app) e->pos = e->n->size;
  if (e->pos + n > e->n->size) setSize(e->n, e->pos + n);
  if (n) memcpy(e->n->data + e->pos, d, n); e->pos += n; return n;
}
size_t env_fwrite(const void* d, size_t s, size_t c, FILE* f) { EF* e = ef(f); if (!e) return c; if (s * c == 0) return 0; int r = op(); if (r < 0) { e->err = 1; return 0; } return wr(e, d, (long)(s * c)) == (long)(s * c) ? c : 0; }
size_t env_fread(void* d, size_t s, size_t c, FILE* f) { EF* e = ef(f); if (!e || !e->n || !s) return 0; long want = (long)(s * c), have = e->n->size - e->pos; if (have < 0) have = 0; if (want > have) { want = have; e->eof = 1; } if (want) memcpy(d, e->n->data + e->pos, want); e->pos += want; return want / s; }
int env_fflush(FILE* f) { EF* e = f ? ef(f) : 0; if (!e) return 0; if (e->flushed != e->pos) { int r = op(); if (r < 0) { e->err = 1; return -1; } } e->flushed = e->pos; return 0; }
int env_fclose(FILE* f) { EF* e = ef(f); if (!e) abort(); int r = env_fflush(f); e->used = 0; return r; }
char* env_fgets(char* b, int n, FILE* f) { EF* e = ef(f); if (!e || !e->n || n <= 0) return 0; int i = 0; while (i < n - 1) { if (e->pos >= e->n->size) { e->eof = 1; break; } char c = (char)e->n->data[e->pos++]; b[i++] = c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
int env_fgetc(FILE* f) { EF* e = ef(f); if (!e || !e->n || e->pos >= e->n->size) { if (e) e->eof = 1; return -1; } return e->n->data[e->pos++]; }
int env_fputc(int c, FILE* f) { unsigned char x = (unsigned char)c; return env_fwrite(&x, 1, 1, f) == 1 ? x : -1; }
int env_fputs(const char* s, FILE* f) { size_t n = strlen(s); if (!n) return 1; return env_fwrite(s, 1, n, f) == n ? 1 : -1; }
int env_vfprintf(FILE* f, const char* fmt, va_list ap) { EF* e = ef(f); if (!e) return 0; va_list a2; va_copy(a2, ap); int n = vsnprintf(0, 0, fmt, a2); va_end(a2); char* b = (char*)malloc(n + 1); vsnprintf(b, n + 1, fmt, ap); size_t k = n ? env_fwrite(b, 1, n, f) : 0; free(b); return k == (size_t)n ? n : -1; }
int env_fprintf(FILE* f, const char* fmt, ...) { if (!ef(f)) return 0; va_list ap; va_start(ap, fmt); int r = env_vfprintf(f, fmt, ap); va_end(ap); return r; }
int env_fseek(FILE* f, long o, int w) { EF* e = ef(f); if (!e) return -1; long b = w == 0 ? 0 : w == 1 ? e->pos : (e->n ? e->n->size : 0); if (b + o < 0) { errno = EINVAL; return -1; } env_fflush(f); e->pos = e->flushed = b + o; e->eof = 0; return 0; }
long env_ftell(FILE* f) { EF* e = ef(f); return e ? e->pos : -1; }
int env_fseeko(FILE* f, long o, int w) { return env_fseek(f, o, w); } long env_ftello(FILE* f) { return env_ftell(f); }
void env_rewind(FILE* f) { env_fseek(f, 0, 0); }
int env_feof(FILE* f) { EF* e = ef(f); return e ? e->eof : 0; } int env_ferror(FILE* f) { EF* e = ef(f); return e ? e->err : 0; }
int env_fileno(FILE* f) { EF* e = ef(f); return e ? (int)(e - files) + 100 : 1; }
int env_setvbuf(FILE* f, char* b, int m, size_t n) { return 0; }
int env_fsync(int fd) { return 0; } int env_fdatasync(int fd) { return 0; }
int env_ftruncate(int fd, long len) { if (fd < 100 || fd > 115) return -1; int r = op(); if (r <= 0) return r; setSize(files[fd - 100].n, len); return 0; }
int env_truncate(const char* p, long len) { Node* n = look(p); if (!n) { errno = ENOENT; return -1; } int r = op(); if (r <= 0) return r; setSize(n, len); return 0; }
static int under(const char* p, const char* d) { size_t n = strlen(d); return !strncmp(p, d, n) && p[n] == '/'; }
int env_rename(const char* a, const char* b) {
  Node* x = look(a); if (!x) { errno = ENOENT; return -1; } if (!parentOk(b)) { errno = ENOENT; return -1; } Node* y = look(b); int r = op(); if (r <= 0) return r;
  if (y == x) return 0; if (y) { if (y->dir != x->dir) { errno = EEXIST; return -1; } drop(y); }
  char nb[MAXP]; norm(nb, b);
  if (x->dir) for (int i = 0; i < MAXN; i++) if (nodes[i].used && under(nodes[i].path, x->path)) { char t[MAXP]; snprintf(t, MAXP, "%s%s", nb, nodes[i].path + strlen(x->path)); strcpy(nodes[i].path, t); }
  strcpy(x->path, nb); return 0;
}
int env_unlink(const char* p) { Node* n = look(p); if (!n) { errno = ENOENT; return -1; } if (n->dir) { errno = EISDIR; return -1; } int r = op(); if (r <= 0) return r; drop(n); return 0; }
static int empty(Node* d) { for (int i = 0; i < MAXN; i++) if (nodes[i].used && under(nodes[i].path, d->path)) return 0; return 1; }
int env_rmdir(const char* p) { Node* n = look(p); if (!n || !n->dir) { errno = ENOENT; return -1; } if (!empty(n)) { errno = ENOTEMPTY; return -1; } int r = op(); if (r <= 0) return r; drop(n); return 0; }
int env_remove(const char* p) { Node* n = look(p); if (n && n->dir) return env_rmdir(p); return env_unlink(p); }
int env_mkdir(const char* p, unsigned m) { if (look(p)) { errno = EEXIST; return -1; } if (!parentOk(p)) { errno = ENOENT; return -1; } int r = op(); if (r <= 0) return r; mk(p, 1); return 0; }
int env_chmod(const char* p, unsigned m) { return look(p) ? 0 : -1; }
static void fillst(Node* n, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = n->size; s->st_mtime = env_now; s->st_ino = (n - nodes) + 1; s->st_nlink = 1; }
int env_stat(const char* p, struct stat* s) { Node* n = look(p); if (!n) { errno = ENOENT; return -1; } fillst(n, s); return 0; }
int env_lstat(const char* p, struct stat* s) { return env_stat(p, s); }
int env_fstat(int fd, struct stat* s) { if (fd < 100 || fd > 115) return -1; fillst(files[fd - 100].n, s); return 0; }
int env_access(const char* p, int m) { return look(p) ? 0 : -1; }
int env_statvfs(const char* p, struct statvfs* s) { memset(s, 0, sizeof *s); s->f_frsize = 4096; s->f_bsize = 4096; s->f_bavail = 1000000; s->f_blocks = 2000000; return 0; }
char* env_getcwd(char* b, size_t n) { if (n < 2) return 0; strcpy(b, "/"); return b; }
char* env_realpath(const char* p, char* b) { if (!look(p)) return 0; if (!b) b = (char*)malloc(MAXP); norm(b, p); return b; }
DIR* env_opendir(const char* p) { Node* n = look(p); if (!n || !n->dir) { errno = ENOENT; return 0; } ED* d = (ED*)calloc(1, sizeof(ED)); d->magic = 0xD12; d->idx = -2; strcpy(d->path, n->path); return (DIR*)d; }
struct dirent* env_readdir(DIR* x) { ED* d = (ED*)x; d->idx++; if (d->idx == -1) { strcpy(d->de.d_name, "."); d->de.d_type = DT_DIR; d->idx = -1; if (1) { static int phase; } return &d->de; }
  for (; d->idx < MAXN; d->idx++) { Node* n = &nodes[d->idx]; if (!n->used) continue; size_t l = strlen(d->path); if (!under(n->path, d->path)) continue; const char* nm = n->path + l + 1; if (strchr(nm, '/')) continue; strcpy(d->de.d_name, nm); d->de.d_type = n->dir ? DT_DIR : DT_REG; d->de.d_ino = d->idx + 1; return &d->de; }
  return 0; }
int env_closedir(DIR* x) { free(x); return 0; }
time_t env_time(time_t* t) { if (t) *t = (time_t)env_now; return (time_t)env_now; }
int env_gettimeofday(struct timeval* t, void* z) { t->tv_sec = env_now; t->tv_usec = 0; return 0; }
int env_clock_gettime(int c, struct timespec* t) { t->tv_sec = env_now; t->tv_nsec = 0; return 0; }
int env_usleep(unsigned u) { return 0; } unsigned env_sleep(unsigned s) { return 0; }
int env_rand(void) { if (env_rand_hook) return (int)(env_rand_hook() & 0x7fffffff); rnd = rnd * 1103515245u + 12345u; return (int)(rnd >> 1 & 0x7fffffff); }
void env_srand(unsigned s) { rnd = s; }
int env_getpid(void) { return 4242; }
char* env_getenv(const char* n) { return 0; }
int64_t env_civil_lo, env_civil_hi; // if set, the day of a time is one of these; the solver then splits the time without divisions
static void civil(int64_t t, struct tm* o) {
  if (env_civil_hi && sym_is_engine()) {
    int64_t fd = (int64_t)sym_range_((uint64_t)env_civil_lo, (uint64_t)env_civil_hi, "day of the time"); sym_assume_(fd * 86400 <= t && t < fd * 86400 + 86400); fd = (int64_t)sym_concretize((uint64_t)fd); int64_t fs = t - fd * 86400;
    static struct { int64_t fs; uint64_t h, m, x; } memo[16]; static int nmemo; int f = -1; for (int i = 0; i < nmemo; i++) { uint64_t d = (uint64_t)memo[i].fs - (uint64_t)fs; if (!sym_issym(d) && d == 0) f = i; }
    if (f < 0) { uint64_t h = sym_range_(0, 23, "hour"), m = sym_range_(0, 59, "minute"), x = sym_range_(0, 59, "second"); sym_assume_(h * 3600 + m * 60 + x == (uint64_t)fs); f = nmemo < 16 ? nmemo++ : 15; memo[f].fs = fs; memo[f].h = h; memo[f].m = m; memo[f].x = x; }
    int64_t hi = env_civil_hi; env_civil_hi = 0; civil(fd * 86400, o); env_civil_hi = hi; o->tm_hour = (int)memo[f].h; o->tm_min = (int)memo[f].m; o->tm_sec = (int)memo[f].x; return; }
  int64_t days = t >= 0 ? t / 86400 : -((-t + 86399) / 86400); int64_t s = t - days * 86400;
  o->tm_hour = (int)(s / 3600); o->tm_min = (int)(s % 3600 / 60); o->tm_sec = (int)(s % 60);
  int64_t w = (days + 4) % 7; if (w < 0) w += 7; o->tm_wday = (int)w;
  int64_t z = days + 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; int64_t doe = z - era * 146097; int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = yoe + era * 400; int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100); int64_t mp = (5 * doy + 2) / 153;
  o->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1); int m = (int)(mp < 10 ? mp + 3 : mp - 9); o->tm_mon = m - 1; int64_t yy = y + (m <= 2); o->tm_year = (int)(yy - 1900);
  int leap = (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; o->tm_yday = cum[m - 1] + o->tm_mday - 1 + (leap && m > 2);
  o->tm_isdst = 0;
}
static int64_t fromcivil(const struct tm* t) {
  int64_t y = t->tm_year + 1900, m = t->tm_mon; y += m / 12; m %= 12; if (m < 0) { m += 12; y--; } m++;
  int64_t yy = y - (m <= 2); int64_t era = (yy >= 0 ? yy : yy - 399) / 400; int64_t yoe = yy - era * 400; int64_t doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + t->tm_mday - 1; int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; int64_t days = era * 146097 + doe - 719468;
  return days * 86400 + (int64_t)t->tm_hour * 3600 + (int64_t)t->tm_min * 60 + t->tm_sec;
}
struct tm* env_gmtime_r(const time_t* t, struct tm* o) { memset(o, 0, sizeof *o); civil(*t, o); return o; }
struct tm* env_localtime_r(const time_t* t, struct tm* o) { memset(o, 0, sizeof *o); civil(*t + env_tz, o); return o; }
time_t env_timegm(struct tm* t) { int64_t r = fromcivil(t); civil(r, t); return r; }
time_t env_mktime(struct tm* t) { int64_t r = fromcivil(t) - env_tz; civil(r + env_tz, t); return r; }
char* env_ctime_r(const time_t* t, char* b) { strcpy(b, "Thu Jan  1 00:00:00 1970\n"); return b; }
void env_tzset(void) {}
}
