#include <openssl/aes.h>
#include <openssl/sha.h>
#include <zlib.h>
#include <istream>
#include "thr_rt.hh"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include "rng.hh"
#include "sim.hh"

namespace sim { extern bool g_active; extern void (*io_hook)(); }
extern "C" char __data_start, _end;
extern "C" void* __real_memset(void*, int, size_t);

namespace thr {
typedef uintptr_t addr_t;
static __thread int t_id = -1;
static __thread addr_t t_lo = 0, t_hi = 0;
static bool g_on = false;
static int g_n = 0;
static uint32_t g_vc[kMaxT][kMaxT];
static int64_t g_nev[kMaxT];
static uint64_t g_ev = 0, g_switches = 0, g_blocks = 0, g_order = 0, g_races = 0;
static const void* g_wait[kMaxT];                  // what the thread waits for
static bool g_done[kMaxT];
static sem_t g_sem[kMaxT], g_main;
static Sched g_s;
static Rng g_rng(1);
static int64_t g_gap = 0;
static int g_prio[kMaxT];
static int g_low = 0;
static int64_t g_points[16];
static Sw* g_log = nullptr;
static size_t g_nlog = 0;
static const size_t kMaxLog = 60000;
static const uint64_t kMaxEvents = 400000000ull;
static char g_race[1024];

int self() { return t_id; }
static inline bool live() { return t_id >= 0 && g_on && sim::g_active; }

// ---- scheduler -------------------------------------------------------------------------------------------------
[[noreturn]] static void die(const char* cls, const char* text) {
  fprintf(stderr, "SIM-DEATH: %s\n#0 %s\n", cls, text);
  _exit(79);
}
static bool runnable(int u) { return !g_done[u] && !g_wait[u]; }
static int pick(int not_this, bool forced) {
  int c[kMaxT], n = 0;
  for (int u = 0; u < g_n; ++u) if (u != not_this && runnable(u)) c[n++] = u;
  if (!n) return -1;
  if (g_s.policy == 1) return c[g_rng.below(static_cast<uint64_t>(n))];
  if (g_s.policy == 2) { int b = c[0]; for (int i = 1; i < n; ++i) if (g_prio[c[i]] > g_prio[b]) b = c[i]; return b; }
  (void)forced;
  return c[0];
}
static void note(int from, int to) {
  if (g_nlog < kMaxLog) g_log[g_nlog++] = Sw{from, from >= 0 ? g_nev[from] : 0, to};
  int64_t v[3] = {from, from >= 0 ? g_nev[from] : 0, to};
  g_order = hash_bytes(v, sizeof v, g_order);
  ++g_switches;
}
static int listed(int t) {
  for (auto& s : g_s.list) if (s.from == t && s.at == g_nev[t] && s.to >= 0 && s.to < g_n && s.to != t && runnable(s.to)) return s.to;
  return -1;
}
static void hand_over(int to) {
  int me = t_id;
  note(me, to);
  sem_post(&g_sem[to]);
  while (sem_wait(&g_sem[me])) {}
}
static void step(bool hot) {
  int t = t_id, e = errno;
  ++g_nev[t];
  if (++g_ev > kMaxEvents) die("no-progress", "the threads do not come to an end");
  int to = -1;
  switch (g_s.policy) {
    case 0: if (!g_s.list.empty()) to = listed(t); break;
    case 1:
      if (--g_gap <= 0) { g_gap = 1 + static_cast<int64_t>(g_rng.below(static_cast<uint64_t>(2 * g_s.mean))); to = pick(t, false); }
      else if (hot && g_s.hot && g_switches < 20000 && g_rng.below(100) < static_cast<uint64_t>(g_s.hot)) to = pick(t, false);
      break;
    default:
      for (int i = 0; i < g_s.points && i < 16; ++i) if (g_points[i] == static_cast<int64_t>(g_ev)) g_prio[t] = --g_low;
      if (hot && g_s.hot && g_switches < 20000 && g_rng.below(1000) < static_cast<uint64_t>(g_s.hot)) g_prio[t] = --g_low;
      { int b = pick(t, false); if (b >= 0 && g_prio[b] > g_prio[t]) to = b; }
  }
  if (to >= 0) hand_over(to);
  errno = e;
}
static void block_on(const void* o) {
  int t = t_id;
  ++g_nev[t];
  ++g_blocks;
  if (++g_ev > kMaxEvents) die("no-progress", "the threads do not come to an end");
  g_wait[t] = o;
  int to = g_s.policy == 0 ? listed(t) : -1;
  if (to < 0) to = pick(t, true);
  if (to < 0) die("deadlock", "every thread waits for another");
  hand_over(to);
}
static void wake(const void* o, bool all) {
  for (int u = 0; u < g_n; ++u) if (g_wait[u] == o) { g_wait[u] = nullptr; if (!all) return; }
}

// ---- happens-before --------------------------------------------------------------------------------------------
struct SyncVar { addr_t a; uint32_t vc[kMaxT]; };
static SyncVar* g_sync = nullptr;
static const size_t kSync = 1 << 16;
static SyncVar& sync_of(addr_t a) {
  size_t i = mix64(a, 3) & (kSync - 1);
  for (size_t n = 0; n < kSync; ++n, i = (i + 1) & (kSync - 1)) {
    if (g_sync[i].a == a) return g_sync[i];
    if (!g_sync[i].a) { g_sync[i].a = a; return g_sync[i]; }
  }
  die("harness", "too many synchronisation objects");
}
static void acquire(const volatile void* p) {
  SyncVar& s = sync_of(reinterpret_cast<addr_t>(p));
  for (int u = 0; u < kMaxT; ++u) if (s.vc[u] > g_vc[t_id][u]) g_vc[t_id][u] = s.vc[u];
}
static void release(const volatile void* p) {
  SyncVar& s = sync_of(reinterpret_cast<addr_t>(p));
  for (int u = 0; u < kMaxT; ++u) if (g_vc[t_id][u] > s.vc[u]) s.vc[u] = g_vc[t_id][u];
  ++g_vc[t_id][t_id];
}

struct Cell { uint32_t wclk[kMaxT], rclk[kMaxT], wpc[kMaxT], rpc[kMaxT]; uint8_t wm[kMaxT], rm[kMaxT]; };
struct Page { Cell c[512]; };
struct Slot { addr_t page; Page* p; };
static Slot* g_pages = nullptr;
static const size_t kPages = 1 << 16;
static size_t g_npages = 0;
static void* get_pages(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) die("harness", "mmap");
  return p;
}
static Page* page_of(addr_t pg, bool make) {
  size_t i = mix64(pg, 7) & (kPages - 1);
  for (;; i = (i + 1) & (kPages - 1)) {
    if (g_pages[i].page == pg) return g_pages[i].p;
    if (!g_pages[i].page) break;
  }
  if (!make) return nullptr;
  if (++g_npages > kPages / 2) die("harness", "too much shadow memory");
  g_pages[i].page = pg;
  g_pages[i].p = static_cast<Page*>(get_pages(sizeof(Page)));
  return g_pages[i].p;
}
static void forget(const void* p, size_t n) {
  addr_t a = reinterpret_cast<addr_t>(p) & ~7ul, e = reinterpret_cast<addr_t>(p) + n;
  while (a < e) {
    addr_t pg = a >> 12, end = (pg + 1) << 12;
    if (end > e) end = (e + 7) & ~7ul;
    if (Page* s = page_of(pg, false)) __real_memset(&s->c[(a >> 3) & 511], 0, ((end - a) >> 3) * sizeof(Cell));
    a = end;
  }
}

static addr_t g_base = 0;
struct Range { addr_t lo, hi; };
static Range g_libs[64], g_watch[8];
static int g_nlibs = 0, g_nwatch = 0;
static int find_libs(dl_phdr_info* i, size_t, void* first) {
  bool* f = static_cast<bool*>(first);
  if (*f) { g_base = i->dlpi_addr; *f = false; return 0; }
  for (int k = 0; k < i->dlpi_phnum && g_nlibs < 64; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    addr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
    g_libs[g_nlibs++] = Range{lo, lo + i->dlpi_phdr[k].p_memsz + 4096};
  }
  return 0;
}
// Data of the C and C++ runtime is theirs to protect, except what they hand out.
static bool ignored(addr_t a) {
  if (a - t_lo < t_hi - t_lo) return true;
  if (a < reinterpret_cast<addr_t>(&__data_start)) return true;
  if (a < 0x7f0000000000ul) return false;
  for (int i = 0; i < g_nwatch; ++i) if (a - g_watch[i].lo < g_watch[i].hi - g_watch[i].lo) return false;
  for (int i = 0; i < g_nlibs; ++i) if (a - g_libs[i].lo < g_libs[i].hi - g_libs[i].lo) return true;
  return false;
}
static void where(uint32_t pc, char* b, size_t n) {
  Dl_info d;
  if (pc && dladdr(reinterpret_cast<void*>(g_base + pc), &d) && d.dli_sname) {
    int st = 0;
    char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    snprintf(b, n, "%s", s ? s : d.dli_sname);
    free(s);
  } else snprintf(b, n, "code at +0x%x", pc);
}
static void race(int u, bool uw, uint32_t upc, bool w, addr_t pc, addr_t a) {
  ++g_races;
  if (g_race[0]) return;
  bool keep = g_on;
  g_on = false;
  char x[300], y[300];
  where(upc, x, sizeof x);
  where(static_cast<uint32_t>(pc - g_base), y, sizeof y);
  Dl_info d;
  bool st = a < reinterpret_cast<addr_t>(&_end);
  snprintf(g_race, sizeof g_race, "%s in %s and %s in %s, by different threads and unordered, of the same %s%s", uw ? "write" : "read", x, w ? "write" : "read", y,
           st ? "static object " : "memory", st && dladdr(reinterpret_cast<void*>(a), &d) && d.dli_sname ? d.dli_sname : "");
  (void)u;
  g_on = keep;
}
// Returns whether the place is shared in a way that makes the order of accesses matter.
static bool cell_access(addr_t a, unsigned mask, bool w, addr_t pc) {
  int t = t_id;
  Cell& c = page_of(a >> 12, true)->c[(a >> 3) & 511];
  uint32_t now = g_vc[t][t];
  uint8_t m = static_cast<uint8_t>(mask);
  bool hot = false;
  for (int u = 0; u < kMaxT; ++u) {
    if (u == t) continue;
    if (c.wm[u] & m) { hot = true; if (c.wclk[u] > g_vc[t][u]) race(u, true, c.wpc[u], w, pc, a); }
    if (w && (c.rm[u] & m)) { hot = true; if (c.rclk[u] > g_vc[t][u]) race(u, false, c.rpc[u], w, pc, a); }
  }
  uint32_t p = static_cast<uint32_t>(pc - g_base);
  if (w) { if (c.wclk[t] == now) c.wm[t] |= m; else { c.wm[t] = m; c.wclk[t] = now; } c.wpc[t] = p; }
  else { if (c.rclk[t] == now) c.rm[t] |= m; else { c.rm[t] = m; c.rclk[t] = now; } c.rpc[t] = p; }
  return hot || (a < reinterpret_cast<addr_t>(&_end) && w);
}
static void access(addr_t a, size_t n, bool w, addr_t pc) {
  if (!live() || !n || ignored(a)) return;
  bool hot = false;
  if ((a & 7) + n <= 8) hot = cell_access(a, ((1u << n) - 1) << (a & 7), w, pc);
  else {
    addr_t e = a + n;
    for (addr_t x = a & ~7ul; x < e; x += 8) {
      unsigned m = 0xff;
      if (x < a) m &= 0xffu << (a - x);
      if (x + 8 > e) m &= 0xffu >> (x + 8 - e);
      hot |= cell_access(x, m & 0xff, w, pc);
    }
  }
  step(hot);
}
static void watch(const void* p, size_t n) {
  addr_t a = reinterpret_cast<addr_t>(p);
  for (int i = 0; i < g_nwatch; ++i) if (g_watch[i].lo == a) return;
  if (g_nwatch < 8) g_watch[g_nwatch++] = Range{a, a + n};
}
static void io_point() { if (live()) step(true); }

static void* start(void* arg) {
  auto* f = static_cast<std::pair<int, const std::function<void(int)>*>*>(arg);
  pthread_attr_t at;
  void* lo;
  size_t n;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &n);
  pthread_attr_destroy(&at);
  t_lo = reinterpret_cast<addr_t>(lo);
  t_hi = t_lo + n;
  sem_post(&g_main);                               // set up: nothing of this runs beside the others
  while (sem_wait(&g_sem[f->first])) {}
  t_id = f->first;
  (*f->second)(f->first);
  t_id = -1;
  g_done[f->first] = true;
  sem_post(&g_main);
  return nullptr;
}
Report run(int n, const std::function<void(int)>& body, const Sched& s) {
  if (!g_sync) {
    g_sync = static_cast<SyncVar*>(get_pages(kSync * sizeof(SyncVar)));
    g_pages = static_cast<Slot*>(get_pages(kPages * sizeof(Slot)));
    g_log = static_cast<Sw*>(get_pages(kMaxLog * sizeof(Sw)));
    bool first = true;
    dl_iterate_phdr(find_libs, &first);
  }
  sim::Pause hold;
  g_n = n;
  g_s = s;
  g_rng = Rng(s.seed);
  g_gap = 1 + static_cast<int64_t>(g_rng.below(static_cast<uint64_t>(2 * s.mean)));
  for (int i = 0; i < n; ++i) g_prio[i] = 100 + static_cast<int>(g_rng.below(1000));
  for (int i = 0; i < 16; ++i) g_points[i] = static_cast<int64_t>(g_rng.below(static_cast<uint64_t>(s.mean > 0 ? s.mean : 1)));
  sem_init(&g_main, 0, 0);
  pthread_t th[kMaxT];
  std::pair<int, const std::function<void(int)>*> arg[kMaxT];
  for (int i = 0; i < n; ++i) {
    sem_init(&g_sem[i], 0, 0);
    g_nev[i] = 0;
    g_wait[i] = nullptr;
    g_done[i] = false;
    for (int u = 0; u < kMaxT; ++u) g_vc[i][u] = i == u ? 1 : 0;
    arg[i] = {i, &body};
    if (pthread_create(&th[i], nullptr, start, &arg[i])) die("harness", "pthread_create");
    while (sem_wait(&g_main)) {}
  }
  sim::io_hook = io_point;
  g_on = true;
  sim::g_active = true;
  int prev = -1;
  for (int left = n; left > 0; --left) {
    int to = prev >= 0 && g_s.policy == 0 ? listed(prev) : -1;
    if (to < 0) to = pick(-1, true);
    if (to < 0) die("deadlock", "every thread that is left waits for another");
    note(prev, to);
    sem_post(&g_sem[to]);
    while (sem_wait(&g_main)) {}
    for (int i = 0; i < n; ++i) if (g_done[i] && th[i]) {
      // Wait for its very end, so that nothing runs at the same time as the next.
      pthread_join(th[i], nullptr);
      th[i] = 0;
      prev = i;
    }
  }
  g_on = false;
  sim::g_active = false;
  sim::io_hook = nullptr;
  Report r;
  r.race = g_race;
  r.races = g_races;
  r.events = g_ev;
  r.switches = g_switches;
  r.blocks = g_blocks;
  r.order = g_order;
  r.log.assign(g_log, g_log + g_nlog);
  r.log_full = g_nlog == kMaxLog;
  return r;
}

// Process-wide state that the C library keeps for functions that are not safe to use from several threads.
struct Fake { char c[8]; };
static Fake g_fake[8] __attribute__((aligned(8)));
static void fake(int i, bool w, void* pc) { access(reinterpret_cast<addr_t>(&g_fake[i]), 1, w, reinterpret_cast<addr_t>(pc)); }
}  // namespace thr

using namespace thr;
#define PC reinterpret_cast<addr_t>(__builtin_return_address(0))
#define REAL(ret, name, args) \
  static ret (*real) args = nullptr; \
  if (!real) *reinterpret_cast<void**>(&real) = dlsym(RTLD_NEXT, #name)

extern "C" {
// ---- instrumentation -------------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(reinterpret_cast<addr_t>(p), n, false, PC); } \
  void __tsan_write##n(void* p) { access(reinterpret_cast<addr_t>(p), n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(reinterpret_cast<addr_t>(p), n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(reinterpret_cast<addr_t>(p), n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(reinterpret_cast<addr_t>(p), n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(reinterpret_cast<addr_t>(p), n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(reinterpret_cast<addr_t>(p), n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(reinterpret_cast<addr_t>(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(reinterpret_cast<addr_t>(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(reinterpret_cast<addr_t>(p), n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(reinterpret_cast<addr_t>(p), 8, true, PC); }
void __tsan_vptr_read(void** p) { access(reinterpret_cast<addr_t>(p), 8, false, PC); }

#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { if (live()) { step(true); } T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (live()) acquire(a); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { if (live()) { step(true); release(a); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { if (live()) { step(true); acquire(a); release(a); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { if (live()) { step(true); acquire(a); release(a); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { if (live()) { step(true); acquire(a); release(a); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { if (live()) { step(true); acquire(a); release(a); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { if (live()) { step(true); acquire(a); release(a); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { if (live()) { step(true); acquire(a); release(a); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { if (live()) { step(true); acquire(a); release(a); } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { if (live()) { step(true); acquire(a); release(a); } return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, 0, 0); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, 0, 0); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (live()) { access(reinterpret_cast<addr_t>(s), n, false, PC); access(reinterpret_cast<addr_t>(d), n, true, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (live()) { access(reinterpret_cast<addr_t>(s), n, false, PC); access(reinterpret_cast<addr_t>(d), n, true, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  if (live()) access(reinterpret_cast<addr_t>(d), n, true, PC);
  return __real_memset(d, v, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (live()) { access(reinterpret_cast<addr_t>(a), n, false, PC); access(reinterpret_cast<addr_t>(b), n, false, PC); }
  return __real_memcmp(a, b, n);
}

// ---- accesses of uninstrumented libraries through pointers they are given -----------------------------------------
#define AT(p) reinterpret_cast<addr_t>(p)
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (live()) access(AT(s), n + 1, false, PC); return n; }
int __real_strcmp(const char*, const char*);
int __wrap_strcmp(const char* a, const char* b) {
  if (live()) { access(AT(a), __real_strlen(a) + 1, false, PC); access(AT(b), __real_strlen(b) + 1, false, PC); }
  return __real_strcmp(a, b);
}
void* __real__ZNSi4readEPcl(void*, char*, long);
void* __wrap__ZNSi4readEPcl(void* s, char* d, long n) {
  void* r = __real__ZNSi4readEPcl(s, d, n);
  if (live() && n > 0) access(AT(d), static_cast<size_t>(reinterpret_cast<std::istream*>(s)->gcount()), true, PC);
  return r;
}
void* __real__ZNSo5writeEPKcl(void*, const char*, long);
void* __wrap__ZNSo5writeEPKcl(void* s, const char* d, long n) {
  if (live() && n > 0) access(AT(d), static_cast<size_t>(n), false, PC);
  return __real__ZNSo5writeEPKcl(s, d, n);
}
#define ZRUN(name) \
  int __real_##name(z_stream*, int); \
  int __wrap_##name(z_stream* z, int f) { \
    if (live()) access(AT(z), sizeof *z, true, PC); \
    unsigned char *in = z->next_in, *out = z->next_out; \
    int r = __real_##name(z, f); \
    if (live() && z->next_in > in) access(AT(in), static_cast<size_t>(z->next_in - in), false, PC); \
    if (live() && z->next_out > out) access(AT(out), static_cast<size_t>(z->next_out - out), true, PC); \
    return r; \
  }
ZRUN(inflate) ZRUN(deflate)
int __real_SHA256_Init(SHA256_CTX*);
int __wrap_SHA256_Init(SHA256_CTX* c) { if (live()) access(AT(c), sizeof *c, true, PC); return __real_SHA256_Init(c); }
int __real_SHA256_Update(SHA256_CTX*, const void*, size_t);
int __wrap_SHA256_Update(SHA256_CTX* c, const void* d, size_t n) {
  if (live()) { access(AT(c), sizeof *c, true, PC); if (n) access(AT(d), n, false, PC); }
  return __real_SHA256_Update(c, d, n);
}
int __real_SHA256_Final(unsigned char*, SHA256_CTX*);
int __wrap_SHA256_Final(unsigned char* md, SHA256_CTX* c) {
  if (live()) { access(AT(c), sizeof *c, true, PC); access(AT(md), 32, true, PC); }
  return __real_SHA256_Final(md, c);
}
#define AESRUN(name) \
  void __real_##name(const unsigned char*, unsigned char*, const AES_KEY*); \
  void __wrap_##name(const unsigned char* i, unsigned char* o, const AES_KEY* k) { \
    if (live()) { access(AT(k), sizeof *k, false, PC); access(AT(i), 16, false, PC); access(AT(o), 16, true, PC); } \
    __real_##name(i, o, k); \
  }
AESRUN(AES_encrypt) AESRUN(AES_decrypt)
#define AESKEY(name) \
  int __real_##name(const unsigned char*, int, AES_KEY*); \
  int __wrap_##name(const unsigned char* u, int b, AES_KEY* k) { \
    if (live()) { access(AT(u), static_cast<size_t>(b / 8), false, PC); access(AT(k), sizeof *k, true, PC); } \
    return __real_##name(u, b, k); \
  }
AESKEY(AES_set_encrypt_key) AESKEY(AES_set_decrypt_key)

// ---- heap: memory that changes hands through the allocator carries no accesses over ------------------------------
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static inline void* fresh(void* p) { if (g_on && p) forget(p, malloc_usable_size(p)); return p; }
void* malloc(size_t n) { return fresh(__libc_malloc(n)); }
void free(void* p) { fresh(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { fresh(p); return fresh(__libc_realloc(p, n)); }
void* memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
int posix_memalign(void** o, size_t a, size_t n) { *o = fresh(__libc_memalign(a, n)); return *o ? 0 : ENOMEM; }

// ---- static initialisation ---------------------------------------------------------------------------------------
int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  if (live()) step(true);
  while (!b[0] && b[1]) {
    if (!live()) die("deadlock", "a static object needs itself while it is initialised");
    if (b[1] == static_cast<char>(t_id + 2)) die("deadlock", "a static object needs itself while it is initialised");
    block_on(g);
  }
  if (b[0]) { if (live()) acquire(g); return 0; }
  b[1] = static_cast<char>(live() ? t_id + 2 : 1);
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  if (live()) release(g);
  b[1] = 0;
  b[0] = 1;
  if (g_on) wake(g, true);
}
void __cxa_guard_abort(uint64_t* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  if (live()) release(g);
  b[1] = 0;
  if (g_on) wake(g, true);
}

// ---- locks -------------------------------------------------------------------------------------------------------
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
  if (live()) step(true);
  int r = real(m);
  if (!r && live()) acquire(m);
  return r;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
  if (!live()) return real(m);
  for (int r; (r = pthread_mutex_trylock(m)) != 0;) { if (r != EBUSY) return real(m); block_on(m); }
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
  if (live()) release(m);
  int r = real(m);
  if (t_id >= 0 && g_on) wake(m, true);
  if (live()) step(true);
  return r;
}
#define RWTRY(kind) \
  int pthread_rwlock_try##kind##lock(pthread_rwlock_t* m) noexcept { \
    REAL(int, pthread_rwlock_try##kind##lock, (pthread_rwlock_t*)); \
    if (live()) step(true); \
    int r = real(m); \
    if (!r && live()) acquire(m); \
    return r; \
  } \
  int pthread_rwlock_##kind##lock(pthread_rwlock_t* m) noexcept { \
    REAL(int, pthread_rwlock_##kind##lock, (pthread_rwlock_t*)); \
    if (!live()) return real(m); \
    for (int r; (r = pthread_rwlock_try##kind##lock(m)) != 0;) { if (r != EBUSY) return real(m); block_on(m); } \
    return 0; \
  }
RWTRY(rd) RWTRY(wr)
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*));
  if (live()) release(m);
  int r = real(m);
  if (t_id >= 0 && g_on) wake(m, true);
  if (live()) step(true);
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*));
  if (!live()) return real(c, m);
  {
    static int (*unlock)(pthread_mutex_t*) = nullptr;
    if (!unlock) *reinterpret_cast<void**>(&unlock) = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    release(m);
    unlock(m);
    wake(m, true);
  }
  block_on(c);
  return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*));
  if (!live()) return real(c, m, t);
  pthread_mutex_unlock(m);
  step(true);
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  REAL(int, pthread_cond_signal, (pthread_cond_t*));
  if (!live()) return real(c);
  wake(c, false);
  step(true);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  REAL(int, pthread_cond_broadcast, (pthread_cond_t*));
  if (!live()) return real(c);
  wake(c, true);
  step(true);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!live()) {
    if (*o & 2) return 0;
    *o = 1;
    struct Undo { pthread_once_t* o; bool on = true; ~Undo() { if (on) *o = 0; } } u{o};
    f();
    u.on = false;
    *o = 2;
    return 0;
  }
  step(true);
  while (!(*o & 2) && (*o & 1)) block_on(o);
  if (*o & 2) { acquire(o); return 0; }
  *o = 1;
  struct Undo { pthread_once_t* o; bool on = true; ~Undo() { if (on) { *o = 0; wake(o, true); } } } u{o};
  f();
  u.on = false;
  release(o);
  *o = 2;
  wake(o, true);
  return 0;
}
int sched_yield() noexcept { if (live()) { g_gap = 0; step(true); return 0; } REAL(int, sched_yield, ()); return real(); }
int usleep(useconds_t) { if (live()) { g_gap = 0; step(true); } return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if (live()) { g_gap = 0; step(true); } return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if (live()) { g_gap = 0; step(true); } return 0; }

// ---- functions with one buffer for the whole process -------------------------------------------------------------
static void handed_out(void* p, size_t n, addr_t pc) {
  if (!p || !live()) return;
  watch(p, n);
  access(reinterpret_cast<addr_t>(p), n, true, pc);
}
struct tm* localtime(const time_t* t) noexcept { REAL(struct tm*, localtime, (const time_t*)); struct tm* r = real(t); handed_out(r, sizeof *r, PC); return r; }
struct tm* gmtime(const time_t* t) noexcept { REAL(struct tm*, gmtime, (const time_t*)); struct tm* r = real(t); handed_out(r, sizeof *r, PC); return r; }
char* asctime(const struct tm* t) noexcept { REAL(char*, asctime, (const struct tm*)); char* r = real(t); handed_out(r, 26, PC); return r; }
char* ctime(const time_t* t) noexcept { REAL(char*, ctime, (const time_t*)); char* r = real(t); handed_out(r, 26, PC); return r; }
char* strtok(char* s, const char* d) noexcept { REAL(char*, strtok, (char*, const char*)); fake(0, true, __builtin_return_address(0)); return real(s, d); }
int rand() noexcept { REAL(int, rand, ()); fake(1, true, __builtin_return_address(0)); return real(); }
void srand(unsigned s) noexcept { REAL(void, srand, (unsigned)); fake(1, true, __builtin_return_address(0)); real(s); }
char* setlocale(int c, const char* l) noexcept { REAL(char*, setlocale, (int, const char*)); fake(2, l != nullptr, __builtin_return_address(0)); return real(c, l); }
int setenv(const char* n, const char* v, int o) noexcept { REAL(int, setenv, (const char*, const char*, int)); fake(3, true, __builtin_return_address(0)); return real(n, v, o); }
int unsetenv(const char* n) noexcept { REAL(int, unsetenv, (const char*)); fake(3, true, __builtin_return_address(0)); return real(n); }
int putenv(char* s) noexcept { REAL(int, putenv, (char*)); fake(3, true, __builtin_return_address(0)); return real(s); }
char* getenv(const char* n) noexcept { REAL(char*, getenv, (const char*)); fake(3, false, __builtin_return_address(0)); return real(n); }
time_t mktime(struct tm* t) noexcept { REAL(time_t, mktime, (struct tm*)); fake(3, false, __builtin_return_address(0)); return real(t); }
struct tm* localtime_r(const time_t* t, struct tm* o) noexcept { REAL(struct tm*, localtime_r, (const time_t*, struct tm*)); fake(3, false, __builtin_return_address(0)); return real(t, o); }
void tzset() noexcept { REAL(void, tzset, ()); fake(3, false, __builtin_return_address(0)); real(); }
mode_t umask(mode_t m) noexcept { REAL(mode_t, umask, (mode_t)); fake(4, true, __builtin_return_address(0)); return real(m); }
}
