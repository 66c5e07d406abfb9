// TUS queue/DownloadInfo.cpp util/NString.cpp util/Util.cpp util/Thread.cpp util/Observer.cpp util/FileSystem.cpp queue/QueueCoordinator.cpp queue/QueueEditor.cpp nntp/Decoder.cpp main/WorkState.cpp postprocess/ParParser.cpp
// QUICK -DN=4 -DL=3
// THOROUGH -DN=5 -DL=4
// BOUND moves, merges, splits, reorderings and deletions: $N entries (and one file of another download), every list of up to $L ids including repeated and unknown ones, every offset -$N..$N
// BOUND sorting: $N downloads, every list of ids, all criteria and orders, figures 0..255, a choice of names and categories
// OUTSIDE a target of a move-before or move-after command that is not in the queue
// ENTRY h_filemove q=60 t=600 reach=done
// ENTRY h_groupmove q=60 t=600 reach=done
// ENTRY h_target q=60 t=600 reach=done
// ENTRY h_sort q=60 t=800 reach=done
// ENTRY h_sortname q=60 t=800 reach=done
// ENTRY h_merge q=60 t=600 reach=done
// ENTRY h_split q=60 t=600 reach=done,split
// ENTRY h_reorder q=60 t=600 reach=done
// ENTRY h_delete q=60 t=600 reach=done
// ENTRY h_filesort q=60 t=600 reach=done
#include "queue.h"
static NzbInfo* z[8]; static FileInfo* f[8]; static int sel[8]; static int ord[8]; static int list[8], ll;
static void files(int n) { queue_init(); z[0] = add_nzb("a"); z[1] = add_nzb("b"); static const char* nm[8] = {"f0", "f1", "f2", "f3", "f4", "f5"}; for (int i = 0; i < n; i++) { f[i] = add_file(i < n - 1 || n < N + 1 ? z[0] : z[1], nm[i], 0, 0); f[i]->SetId(10 + i); f[i]->GetNzbInfo()->m_fileCount++; } }
static void groups() { queue_init(); static const char* nm[8] = {"g0", "g1", "g2", "g3", "g4", "g5"}; for (int i = 0; i < N; i++) { z[i] = add_nzb(nm[i]); z[i]->SetId(20 + i); FileInfo* x = add_file(z[i], nm[i], 0, 0); x->SetId(10 + i); f[i] = x; z[i]->m_fileCount = 1; } }
static void ids(IdList* l, int base, int n, int min) { // every list, with repetitions and an unknown id
  memset(sel, 0, sizeof sel); memset(ord, 0, sizeof ord); int k = min + (int)sym_pick(L + 1 - min, "count"); ll = 0; int o = 0; for (int i = 0; i < k; i++) { int x = (int)sym_pick(n + 1, "id"); l->push_back(x == n ? 9999 : base + x); if (x < n) { if (!sel[x]) { ord[o++] = x; } sel[x] = 1; } } ll = o; }
static bool edit(IdList* l, DownloadQueue::EEditAction a, const char* args) { return dq()->EditList(l, nullptr, DownloadQueue::mmId, a, args); }
static int at[8], cnt; // the order after the command: numbers of the entries
static void readf(NzbInfo* n, int total) { cnt = 0; for (FileInfo* x : n->GetFileList()) { int k = -1; for (int i = 0; i < total; i++) if (f[i] == x) k = i; sym_assert(k >= 0 && cnt < 8, "the file list holds only known files"); at[cnt++] = k; } }
static void readg() { cnt = 0; for (NzbInfo* x : dq()->GetQueue()) { int k = -1; for (int i = 0; i < N; i++) if (z[i] == x) k = i; sym_assert(k >= 0 && cnt < 8, "the queue holds only known downloads"); at[cnt++] = k; } }
static void expect(const int* e, int n) { sym_assert(cnt == n, "no entry is lost or doubled"); for (int i = 0; i < n && i < cnt; i++) sym_assert(at[i] == e[i], "each entry is where the command puts it"); }
// selected entries go by off places (as far as there is room, in their order), the others close up
static void moved(int* e, int n, int off) {
  int dst[8]; bool used[8] = {}; if (off <= 0) { int last = -1; for (int i = 0; i < n; i++) if (sel[i]) { int d = i + off; if (d <= last) d = last + 1; dst[i] = d; last = d; used[d] = true; } }
  else { int last = n; for (int i = n - 1; i >= 0; i--) if (sel[i]) { int d = i + off; if (d >= last) d = last - 1; dst[i] = d; last = d; used[d] = true; } }
  for (int i = 0; i < n; i++) if (sel[i]) e[dst[i]] = i; int p = 0; for (int i = 0; i < n; i++) if (!sel[i]) { while (used[p]) p++; e[p++] = i; } }
static int what(const char** arg) { static char buf[16]; int a = (int)sym_pick(3, "action"); *arg = nullptr; int off = a == 1 ? -100 : 100; if (a == 0) { off = (int)sym_pick(2 * N + 1, "offset") - N; snprintf(buf, sizeof buf, "%i", off); *arg = buf; } return off * 10 + a; }
EX void h_filemove() { files(N + 1); IdList l; ids(&l, 10, N + 1, 0); const char* arg; int w = what(&arg); int a = (w % 10 + 10) % 10, off = (w - a) / 10; bool any = ll > 0;
  bool ok = edit(&l, a == 0 ? DownloadQueue::eaFileMoveOffset : a == 1 ? DownloadQueue::eaFileMoveTop : DownloadQueue::eaFileMoveBottom, arg); sym_assert(ok == any, "the command succeeds if it names an entry");
  int e[8]; moved(e, N, off); readf(z[0], N + 1); expect(e, N); readf(z[1], N + 1); e[0] = N; expect(e, 1); sym_reach("done"); }
EX void h_groupmove() { groups(); IdList l; ids(&l, 20, N, 0); const char* arg; int w = what(&arg); int a = (w % 10 + 10) % 10, off = (w - a) / 10; bool any = ll > 0;
  bool ok = edit(&l, a == 0 ? DownloadQueue::eaGroupMoveOffset : a == 1 ? DownloadQueue::eaGroupMoveTop : DownloadQueue::eaGroupMoveBottom, arg); sym_assert(ok == any, "the command succeeds if it names an entry");
  int e[8]; moved(e, N, off); readg(); expect(e, N); sym_reach("done"); }
EX void h_target() { groups(); IdList l; ids(&l, 20, N, 0); bool before = sym_pick(2, "before"); int t = (int)sym_pick(N, "target"); char arg[16]; snprintf(arg, sizeof arg, "%i", 20 + t);
  bool ok = edit(&l, before ? DownloadQueue::eaGroupMoveBefore : DownloadQueue::eaGroupMoveAfter, arg); sym_assert(ok == (ll > 0), "the command succeeds if it names an entry");
  int e[8], n = 0; // a selected target stands for the place before the next entry that is not selected
  int tb; if (!sel[t]) tb = before ? t : t + 1; else { tb = N; for (int i = t + 1; i < N; i++) if (!sel[i]) { tb = i; break; } }
  for (int i = 0; i < tb; i++) if (!sel[i]) e[n++] = i; for (int i = 0; i < N; i++) if (sel[i]) e[n++] = i; for (int i = tb; i < N; i++) if (!sel[i]) e[n++] = i;
  if (!ll) for (int i = 0; i < N; i++) e[i] = i; readg(); expect(e, N); sym_reach("done"); }
static void sorting(const char** crit, int nc, int64_t (*key)(int c, int i)) {
  IdList l; ids(&l, 20, N, 0); if (!l.size()) for (int i = 0; i < N; i++) sel[i] = 1; else if (!ll) for (int i = 0; i < N; i++) sel[i] = 1; // only unknown ids: as an empty list
  int c = (int)sym_pick(nc, "criterion"), o = (int)sym_pick(3, "order"); char arg[32]; snprintf(arg, sizeof arg, "%s%s", crit[c], o == 0 ? "" : o == 1 ? "+" : "-");
  bool ok = edit(&l, DownloadQueue::eaGroupSort, arg); sym_assert(ok, "the command succeeds"); readg(); sym_assert(cnt == N, "no entry is lost or doubled");
  int first = 0; while (first < N && !sel[first]) first++; int k = 0; for (int i = 0; i < N; i++) k += sel[i];
  int seen = 0; for (int i = 0; i < N; i++) seen |= 1 << at[i]; sym_assert(seen == (1 << N) - 1, "no entry is lost or doubled");
  int last = -1; for (int i = 0; i < N; i++) { bool s = i >= first && i < first + k; sym_assert(!!sel[at[i]] == s, "the sorted entries stand together where the first of them was"); if (!sel[at[i]]) { sym_assert(at[i] > last, "the others keep their order"); last = at[i]; } }
  bool up = true, down = true; int64_t tieUp = 1; bool dup = true, ddown = true; (void)tieUp;
  for (int i = first; i + 1 < first + k; i++) { int64_t a = key(c, at[i]), b = key(c, at[i + 1]); up &= a <= b; down &= a >= b; dup &= (a < b) | ((a == b) & (at[i] < at[i + 1])); ddown &= (a > b) | ((a == b) & (at[i] < at[i + 1])); }
  if (o == 1) sym_assert(dup, "the entries are in ascending order, equal ones as before"); else if (o == 2) sym_assert(ddown, "the entries are in descending order, equal ones as before");
  else { bool was = true; /* already sorted the default way */ bool desc = c == 3 && nc > 2; int prev = -1; for (int i = 0; i < N; i++) if (sel[i]) { if (prev >= 0) was &= desc ? key(c, prev) >= key(c, i) : key(c, prev) <= key(c, i); prev = i; }
    sym_assert(was == desc ? up : down, "sorted one way, and the other way if it already was"); }
  sym_reach("done"); }
static int64_t numKey(int c, int i) { return c == 0 ? z[i]->GetSize() : c == 1 ? z[i]->GetRemainingSize() - z[i]->GetPausedSize() : c == 2 ? -(int64_t)z[i]->GetMinTime() : z[i]->GetPriority(); }
EX void h_sort() { groups(); int c = 0; for (int i = 0; i < N; i++) { z[i]->m_size = z[i]->m_remainingSize = z[i]->m_minTime = z[i]->m_priority = (int)sym_range(0, 255, "figure"); if (i == 1) { z[i]->m_pausedSize = 1; z[i]->m_remainingSize++; } } (void)c; static const char* cr[] = {"size", "left", "age", "priority"}; sorting(cr, 4, numKey); }
static int nk[8]; static int64_t nameKey(int, int i) { return nk[i]; }
EX void h_sortname() { groups(); for (int i = 0; i < N; i++) { nk[i] = (int)sym_pick(3, "name"); static const char* s[] = {"a", "ab", "b"}; z[i]->SetName(s[nk[i]]); z[i]->SetCategory(s[nk[i]]); } static const char* cr[] = {"name", "category"}; sorting(cr, 2, nameKey); }
EX void h_merge() { groups(); IdList l; ids(&l, 20, N, 0); bool ok = edit(&l, DownloadQueue::eaGroupMerge, nullptr);
  int n = 0, e[8]; for (int i = 0; i < N; i++) if (!sel[i] || (ll && ord[0] == i)) e[n++] = i; sym_assert(ok == (ll > 0), "merging ordinary downloads succeeds"); readg(); expect(e, n);
  for (int k = 0; k < n; k++) { readf(z[e[k]], N); int x[8], m = 0; x[m++] = e[k]; if (sel[e[k]]) for (int i = 1; i < ll; i++) x[m++] = ord[i]; expect(x, m); } sym_reach("done"); }
EX void h_split() { files(N + 1); IdList l; ids(&l, 10, N + 1, 0); bool mixed = sel[N] && ll > 1; bool ok = edit(&l, DownloadQueue::eaFileSplit, "n");
  sym_assert(ok == (ll > 0 && !mixed), "files of one download can be split off"); int src = sel[N] ? 1 : 0, left = 0, e[8], n; NzbInfo* nn = nullptr; for (NzbInfo* x : dq()->GetQueue()) if (x != z[0] && x != z[1]) nn = x;
  if (ok) { sym_assert(nn != nullptr, "a new download is there"); readf(nn, N + 1); expect(ord, ll); for (int i = 0; i < ll; i++) sym_assert(f[ord[i]]->GetNzbInfo() == nn, "the file belongs to the new download"); sym_reach("split"); }
  for (int d = 0; d < 2; d++) { n = 0; for (int i = d ? N : 0; i < (d ? N + 1 : N); i++) if (!ok || !sel[i]) e[n++] = i; if (!n) { for (NzbInfo* x : dq()->GetQueue()) left += x == z[d]; sym_assert(left == 0, "an emptied download is gone"); continue; } readf(z[d], N + 1); expect(e, n); } (void)src; sym_reach("done"); }
EX void h_reorder() { files(N + 1); IdList l; ids(&l, 10, N + 1, 0); edit(&l, DownloadQueue::eaFileReorder, nullptr); int e[8], n = 0; bool other = ll && ord[0] == N;
  if (!other) for (int i = 0; i < ll; i++) if (ord[i] != N) e[n++] = ord[i]; for (int i = 0; i < N; i++) if (other || !sel[i]) e[n++] = i; readf(z[0], N + 1); expect(e, N); readf(z[1], N + 1); e[0] = N; expect(e, 1); sym_reach("done"); }
EX void h_delete() { files(N + 1); IdList l; ids(&l, 10, N + 1, 0); bool act = sym_pick(2, "downloading"); if (act) f[1]->GetArticles()->push_back(std::make_unique<ArticleInfo>()), g_QueueCoordinator->StartArticleDownload(f[1], f[1]->GetArticles()->at(0).get(), nullptr);
  bool ok = edit(&l, DownloadQueue::eaFileDelete, nullptr); sym_assert(ok == (ll > 0), "the command succeeds if it names an entry"); int e[8], n = 0; for (int i = 0; i < N; i++) if (!sel[i] || (act && i == 1)) e[n++] = i; readf(z[0], N + 1); expect(e, n); if (act && sel[1]) sym_assert(f[1]->GetDeleted(), "a file being downloaded is marked as deleted"); sym_reach("done"); }
EX void h_filesort() { // files of a download: rar before r00, others by name, par files last; whatever the order before
  files(3); int fn[3]; static const char* s[] = {"a.rar", "a.r00", "a.r01", "a.zip", "b.rar", "a.par2", "a.vol0+1.par2", "b.par2"}; static const int rank[] = {0, 1, 2, 3, 4, 5, 6, 7}; for (int i = 0; i < 3; i++) { fn[i] = (int)sym_pick(8, "name"); f[i]->SetFilename(s[fn[i]]); f[i]->SetParFile(fn[i] >= 5); f[i]->SetSize(fn[i] == 6 ? 10 : 5); f[i]->SetFilenameConfirmed(true); }
  IdList l; l.push_back(z[0]->GetId()); edit(&l, DownloadQueue::eaGroupSortFiles, nullptr); readf(z[0], 3); sym_assert(cnt == 3, "no entry is lost or doubled"); int seen = 0; for (int i = 0; i < 3; i++) seen |= 1 << at[i]; sym_assert(seen == 7, "no entry is lost or doubled"); for (int i = 0; i < 2; i++) sym_assert(rank[fn[at[i]]] <= rank[fn[at[i + 1]]], "the files are in download order"); sym_reach("done"); }
