// Native side of the harness interface: replays one assignment of the symbolic inputs.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
static std::map<std::string, std::vector<unsigned char>> vals; static std::map<std::string, int> cnt; static int failed = 0;
static std::vector<unsigned char>* get(const char* n) { std::string k = std::string(n) + "#" + std::to_string(cnt[n]++); auto it = vals.find(k); return it == vals.end() ? nullptr : &it->second; }
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) { auto* v = get(name); memset(p, 0, n); if (v) memcpy(p, v->data(), v->size() < n ? v->size() : n); }
uint64_t sym_range_(uint64_t lo, uint64_t hi, const char* name) { auto* v = get(name); uint64_t x = 0; if (v) for (size_t i = v->size(); i-- > 0;) x = x << 8 | (*v)[i]; return lo + x; }
static void fin() { fflush(stdout); _exit(failed ? 1 : 0); }
void sym_assume_(int c) { if (!c) { printf("ASSUME-FALSE\n"); fin(); } }
void sym_assert_(int c, const char* m) { if (!c) { failed = 1; printf("ASSERT-FAIL %s\n", m); fflush(stdout); static int n; if (++n > 100) _exit(1); } }
void sym_reach(const char* l) { printf("REACH %s\n", l); }
void sym_observe(const char* n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_split(int c) { return c; }
int sym_is_engine(void) { return 0; }
void sym_end(void) { printf("END\n"); fin(); }
int sym_eq(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void sym_limit(uint64_t n) {}
void sym_trace(const char* n, uint64_t v) { printf("TRACE %s %llu\n", n, (unsigned long long)v); }
int sym_issym(unsigned long long) { return 0; }
int sym_valid(const void* p, size_t n) { return 1; }
const char* __asan_default_options() { return "detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=1073741824:redzone=64:max_redzone=2048:detect_odr_violation=0:allocator_may_return_null=1:handle_abort=0:exitcode=77:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=64"; }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2;
  char* line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) { char* sp = strrchr(line, ' '); if (!sp) continue; *sp = 0; char* h = sp + 1; std::vector<unsigned char> b; while (h[0] && h[0] != '\n' && h[1]) { char t[3] = {h[0], h[1], 0}; b.push_back((unsigned char)strtoul(t, 0, 16)); h += 2; } vals[line] = b; }
  fclose(f); free(line);
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  alarm(20);
  fn();
  printf("END\n"); fin();
}
