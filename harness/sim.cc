#include "sim.hh"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <poll.h>
#include <random>
#include <stdexcept>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <syslog.h>
#include <unistd.h>
#include <zlib.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));

static bool entropy_fail();
static void entropy_fill(void* b, size_t n);
namespace sim {

Fs fs;
std::vector<JOp> journal;
const char* kFaultName[F_COUNT] = {
  "none", "open_error", "read_error", "write_error", "close_error", "seek_error", "sync_error", "rename_error",
  "short_read", "short_write", "eintr_read", "eintr_write", "file_shrinks", "file_overwritten", "alloc_failure",
  "entropy_failure", "saved_by_other_process"};
bool benign(int k) { return k == F_SHORT_R || k == F_SHORT_W || k == F_EINTR_R || k == F_EINTR_W; }

void Fs::put(const std::string& p, const std::string& d) {
  int id = next++;
  dir[p] = id;
  ino[id] = d;
}

bool g_active = false;            // seams live
void (*io_hook)() = nullptr;      // called before every simulated system call
void (*fire_hook)(int kind) = nullptr;
static void at_io() { if (io_hook) io_hook(); }
static Op* g_op = nullptr;
static std::vector<Fault> g_faults;
static Rng g_entropy(1);
int entropy_mode = 0;
int entropy_prefix = 0;
int64_t now = 1500000000, now_step = 1;
static uint64_t g_covered = 0;
int64_t alloc_cap = 0;
bool cap_hit = false;
uint64_t fill_seed = 0;
bool fill_on = false;
static uint64_t g_fill_ctr = 0;
static uint64_t g_live_new = 0;
static uint64_t g_op_live = 0;

std::map<std::string, uint64_t> counters;
std::vector<uint64_t> states;
static uint64_t g_h = 1;
static bool g_keep = false;
static std::string g_text;

Pause::Pause() : a(g_active) { g_active = false; }
Pause::~Pause() { g_active = a; }

void ev(const char* tag, int64_t a, int64_t b) {
  g_h = hash_bytes(tag, strlen(tag), g_h);
  g_h = hash_bytes(&a, 8, g_h);
  g_h = hash_bytes(&b, 8, g_h);
  if (g_keep) {
    Pause p;
    char buf[160];
    snprintf(buf, sizeof buf, "%s %lld %lld\n", tag, static_cast<long long>(a), static_cast<long long>(b));
    g_text += buf;
  }
}
void ev_str(const char* tag, const std::string& s) {
  ev(tag, static_cast<int64_t>(hash_str(s)), static_cast<int64_t>(s.size()));
  if (g_keep) { Pause p; g_text += "  = " + s.substr(0, 300) + "\n"; }
}
uint64_t ev_hash() { return g_h; }
void ev_reset(bool keep) { g_h = 1469598103934665603ull; g_keep = keep; g_text.clear(); }
const std::string& ev_text() { return g_text; }
void count(const std::string& n, uint64_t k) { Pause p; counters[n] += k; }
void state(uint64_t s) { Pause p; states.push_back(s); }

size_t overwrite_floor = 0;
uint64_t sim_time_covered() { return g_covered; }
void set_now(int64_t t) { g_covered += static_cast<uint64_t>(t > now ? t - now : now - t); now = t; }
void seed_entropy(uint64_t s) { g_entropy = Rng(s); }

// ---- descriptors ---------------------------------------------------------------------------------------------
struct Fd { int ino; int64_t off; int flags; bool used; std::string path; };   // ino -1: the entropy device
static std::vector<Fd> g_fds;
static const int kFdBase = 500000;
static Fd* fd_get(int fd) {
  int i = fd - kFdBase;
  if (i < 0 || i >= static_cast<int>(g_fds.size()) || !g_fds[i].used) return nullptr;
  return &g_fds[i];
}
int open_fds() { int n = 0; for (auto& f : g_fds) n += f.used; return n; }

size_t peer_apply(Fs& f, const JOp& o, size_t from, size_t piece) {
  if (o.kind == JOp::kSync) return 0;
  if (o.kind == JOp::kCreate) { f.dir[o.path] = o.ino; f.ino[o.ino]; if (o.ino >= f.next) f.next = o.ino + 1; return 0; }
  if (o.kind == JOp::kTrunc) { f.ino[o.ino].resize(static_cast<size_t>(o.off)); return 0; }
  if (o.kind == JOp::kRename) { f.dir.erase(o.path); f.dir[o.path2] = o.ino; return 0; }
  if (o.kind == JOp::kUnlink) { f.dir.erase(o.path); return 0; }
  std::string& d = f.ino[o.ino];
  size_t n = std::min(piece, o.data.size() - from), at = static_cast<size_t>(o.off) + from;
  if (d.size() < at + n) d.resize(at + n);
  if (n) memcpy(&d[0] + at, o.data.data() + from, n);
  return o.data.size() - from - n;
}
std::vector<JOp> peer_ops;
static size_t g_peer = 0, g_peer_from = 0;
static size_t some_piece(Rng& r, size_t n) { return r.chance(1, 4) ? n : r.chance(1, 2) ? 512 * (1 + r.below(n / 512 + 1)) : 1 + r.below(n + 1); }
Fs interleave(const Fs& before, const std::vector<JOp>& a, const std::vector<JOp>& b, Rng& rng, int keep_a, int keep_b) {
  Fs im = before;
  const std::vector<JOp>* j[2] = {&a, &b};
  size_t i[2] = {0, 0}, from[2] = {0, 0}, end[2] = {a.size() * static_cast<size_t>(keep_a) / 100, b.size() * static_cast<size_t>(keep_b) / 100};
  if (keep_a >= 100) end[0] = a.size();
  if (keep_b >= 100) end[1] = b.size();
  unsigned bias = 1 + static_cast<unsigned>(rng.below(9));
  while (i[0] < end[0] || i[1] < end[1]) {
    int w = i[0] >= end[0] ? 1 : i[1] >= end[1] ? 0 : rng.chance(bias, 10) ? 0 : 1;
    const JOp& o = (*j[w])[i[w]];
    size_t piece = some_piece(rng, o.data.size());
    size_t left = peer_apply(im, o, from[w], piece);
    if (left) from[w] += piece;
    else { ++i[w]; from[w] = 0; }
  }
  return im;
}

static Fault* armed(int kind) {
  for (auto& f : g_faults) if (f.kind == kind && (f.persist || !f.fired)) return &f;
  return nullptr;
}
static void fire(Fault* f) {
  ++f->fired;
  ev("fault", f->kind, f->at);
  if (fire_hook) fire_hook(f->kind);
  Pause p;
  counters[std::string("fault:") + kFaultName[f->kind]]++;
}

// The other process gets to run before the system call: it performs the next few of its own.
static void peer() {
  for (auto& f : g_faults) {
    if (f.kind != F_PEER || static_cast<int64_t>(g_op->st.rbytes) < f.at || g_peer >= peer_ops.size()) continue;
    Rng r(mix64(f.seed, g_peer * 131 + g_peer_from));
    if (!f.fired) fire(&f);
    for (int64_t k = static_cast<int64_t>(r.below(static_cast<uint64_t>(f.arg) + 1)); k-- > 0 && g_peer < peer_ops.size();) {
      const JOp& o = peer_ops[g_peer];
      size_t piece = some_piece(r, o.data.size());
      size_t left = peer_apply(fs, o, g_peer_from, piece);
      ev("peer", static_cast<int64_t>(g_peer), static_cast<int64_t>(left));
      if (left) g_peer_from += piece;
      else { ++g_peer; g_peer_from = 0; }
    }
    f.seed = mix64(f.seed, 1);
  }
}

static int new_fd(int ino, int flags, const std::string& path) {
  for (size_t i = 0; i < g_fds.size(); ++i)
    if (!g_fds[i].used) { g_fds[i] = Fd{ino, 0, flags, true, path}; return kFdBase + static_cast<int>(i); }
  g_fds.push_back(Fd{ino, 0, flags, true, path});
  return kFdBase + static_cast<int>(g_fds.size() - 1);
}
static bool is_device(int fd) { Fd* f = fd_get(fd); return f && f->ino < 0; }

static int sim_open(const std::string& path, int flags) {
  at_io();
  Pause p;
  OpStats& st = g_op->st;
  peer();
  int64_t n = static_cast<int64_t>(st.opens++);
  ev("open", static_cast<int64_t>(hash_str(path)), flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL));
  if (Fault* f = armed(F_OPEN)) if (n >= f->at) { fire(f); errno = static_cast<int>(f->arg); return -1; }
  auto it = fs.dir.find(path);
  if (it == fs.dir.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    fs.put(path, "");
    it = fs.dir.find(path);
    JOp j; j.kind = JOp::kCreate; j.ino = it->second; j.path = path; journal.push_back(j);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) {
    JOp j; j.kind = JOp::kTrunc; j.ino = it->second; j.path = path; j.off = 0; journal.push_back(j);
    fs.ino[it->second].clear();
  }
  return new_fd(it->second, flags, path);
}

static ssize_t sim_read(int fd, void* buf, size_t n, int64_t pos) {
  at_io();
  if (is_device(fd)) {   // storage faults don't reach it
    if (entropy_fail()) { errno = EIO; return -1; }
    entropy_fill(buf, n);
    return static_cast<ssize_t>(n);
  }
  Pause p;
  Fd* f = fd_get(fd);
  if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  OpStats& st = g_op->st;
  uint64_t idx = st.reads++;
  peer();
  if (Fault* q = armed(F_SHRINK)) if (static_cast<int64_t>(st.rbytes) >= q->at && !q->fired) {
    fire(q);
    std::string& d = fs.ino[f->ino];
    if (static_cast<int64_t>(d.size()) > q->arg) d.resize(static_cast<size_t>(q->arg));
  }
  if (Fault* q = armed(F_OVERWRITE)) if (static_cast<int64_t>(st.rbytes) >= q->at && !q->fired) {
    fire(q);
    std::string& d = fs.ino[f->ino];
    Rng r(q->seed);
    size_t from = d.empty() ? 0 : std::max(static_cast<size_t>(q->arg) % d.size(), overwrite_floor);
    for (size_t i = from; i < d.size(); ++i) d[i] = static_cast<char>(r.byte());
  }
  const std::string& d = fs.ino[f->ino];
  int64_t off = pos >= 0 ? pos : f->off;
  size_t avail = off < static_cast<int64_t>(d.size()) ? d.size() - static_cast<size_t>(off) : 0;
  size_t k = n < avail ? n : avail;
  if (Fault* q = armed(F_EINTR_R)) {
    Rng r(mix64(q->seed, idx));
    if (r.chance(static_cast<unsigned>(q->arg), 100)) { fire(q); ev("read", -2, fd); errno = EINTR; return -1; }
  }
  if (Fault* q = armed(F_SHORT_R)) {
    Rng r(mix64(q->seed, idx + 77));
    size_t m = 1 + r.below(static_cast<uint64_t>(q->arg));
    if (k > m) { k = m; fire(q); }
  }
  if (Fault* q = armed(F_READ)) {
    if (static_cast<int64_t>(st.rbytes) >= q->at) {
      fire(q);
      ev("read", -1, fd);
      errno = static_cast<int>(q->arg);
      return -1;
    }
    if (static_cast<int64_t>(st.rbytes + k) > q->at) k = static_cast<size_t>(q->at - static_cast<int64_t>(st.rbytes));
  }
  memcpy(buf, d.data() + off, k);
  if (pos < 0) f->off += static_cast<int64_t>(k);
  st.rbytes += k;
  ev("read", static_cast<int64_t>(k), fd);
  return static_cast<ssize_t>(k);
}

static ssize_t sim_write(int fd, const void* buf, size_t n, int64_t pos) {
  at_io();
  Pause p;
  Fd* f = fd_get(fd);
  if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  OpStats& st = g_op->st;
  uint64_t idx = st.writes++;
  size_t k = n;
  if (Fault* q = armed(F_EINTR_W)) {
    Rng r(mix64(q->seed, idx));
    if (r.chance(static_cast<unsigned>(q->arg), 100)) { fire(q); ev("write", -2, fd); errno = EINTR; return -1; }
  }
  if (Fault* q = armed(F_SHORT_W)) {
    Rng r(mix64(q->seed, idx + 77));
    size_t m = 1 + r.below(static_cast<uint64_t>(q->arg));
    if (k > m) { k = m; fire(q); }
  }
  if (Fault* q = armed(F_WRITE)) {
    if (static_cast<int64_t>(st.wbytes) >= q->at && n > 0) {
      fire(q);
      ev("write", -1, fd);
      errno = static_cast<int>(q->arg);
      return -1;
    }
    if (static_cast<int64_t>(st.wbytes + k) > q->at) k = static_cast<size_t>(q->at - static_cast<int64_t>(st.wbytes));
  }
  std::string& d = fs.ino[f->ino];
  int64_t off = (f->flags & O_APPEND) ? static_cast<int64_t>(d.size()) : pos >= 0 ? pos : f->off;
  if (d.size() < static_cast<size_t>(off) + k) d.resize(static_cast<size_t>(off) + k);
  memcpy(&d[0] + off, buf, k);
  JOp j; j.kind = JOp::kWrite; j.ino = f->ino; j.path = f->path; j.off = off;
  j.data.assign(static_cast<const char*>(buf), k);
  journal.push_back(j);
  if (pos < 0) f->off = off + static_cast<int64_t>(k);
  st.wbytes += k;
  ev("write", static_cast<int64_t>(k), fd);
  return static_cast<ssize_t>(k);
}

static int64_t sim_seek(int fd, int64_t off, int whence) {
  if (is_device(fd)) return 0;
  Pause p;
  Fd* f = fd_get(fd);
  peer();
  int64_t n = static_cast<int64_t>(g_op->st.seeks++);
  if (Fault* q = armed(F_SEEK)) if (n >= q->at) { fire(q); errno = static_cast<int>(q->arg); return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->off : static_cast<int64_t>(fs.ino[f->ino].size());
  if (base + off < 0) { errno = EINVAL; return -1; }
  f->off = base + off;
  ev("seek", f->off, whence);
  return f->off;
}

static int sim_close(int fd) {
  at_io();
  Pause p;
  Fd* f = fd_get(fd);
  f->used = false;
  if (!g_op || f->ino < 0) return 0;
  int64_t n = static_cast<int64_t>(g_op->st.closes++);
  ev("close", fd, n);
  if (Fault* q = armed(F_CLOSE)) if (n >= q->at) { fire(q); errno = static_cast<int>(q->arg); return -1; }
  return 0;
}

static int sim_trunc(int ino, const std::string& path, int64_t len) {
  Pause p;
  fs.ino[ino].resize(static_cast<size_t>(len));
  JOp j; j.kind = JOp::kTrunc; j.ino = ino; j.path = path; j.off = len; journal.push_back(j);
  ev("trunc", len, 0);
  return 0;
}

static int sim_rename(const char* a, const char* b) {
  Pause p;
  auto it = fs.dir.find(a);
  if (Fault* q = armed(F_RENAME)) { fire(q); errno = static_cast<int>(q->arg); return -1; }
  if (it == fs.dir.end()) { errno = ENOENT; return -1; }
  int id = it->second;
  fs.dir.erase(it);
  fs.dir[b] = id;
  JOp j; j.kind = JOp::kRename; j.ino = id; j.path = a; j.path2 = b; journal.push_back(j);
  ev("rename", static_cast<int64_t>(hash_str(a)), static_cast<int64_t>(hash_str(b)));
  return 0;
}
static int sim_unlink(const char* a) {
  Pause p;
  auto it = fs.dir.find(a);
  if (it == fs.dir.end()) { errno = ENOENT; return -1; }
  JOp j; j.kind = JOp::kUnlink; j.ino = it->second; j.path = a; journal.push_back(j);
  fs.dir.erase(it);
  ev("unlink", static_cast<int64_t>(hash_str(a)), 0);
  return 0;
}
static int sim_sync(int fd) {
  Pause p;
  Fd* f = fd_get(fd);
  ev("sync", fd, 0);
  if (Fault* q = armed(F_SYNC)) { fire(q); errno = static_cast<int>(q->arg); return -1; }
  JOp j; j.kind = JOp::kSync; j.ino = f->ino; j.path = f->path; journal.push_back(j);
  return 0;
}

Fs crash_image(const Fs& before, const std::vector<JOp>& j, size_t k, int mode, Rng& rng) {
  Fs im = before;
  size_t n = k < j.size() ? k + 1 : j.size();   // entry k itself may be torn
  std::map<int, size_t> synced;                 // inode -> journal prefix that is durable
  for (size_t i = 0; i < n && i < k; ++i) if (j[i].kind == JOp::kSync) synced[j[i].ino] = i;
  for (size_t i = 0; i < n; ++i) {
    const JOp& o = j[i];
    bool durable = synced.count(o.ino) && i < synced[o.ino];
    bool last = i == k;
    if (o.kind == JOp::kSync) continue;
    if (o.kind != JOp::kWrite) {
      if (last) continue;                       // metadata operations are atomic and in order
      if (o.kind == JOp::kCreate) { im.dir[o.path] = o.ino; im.ino[o.ino] = ""; if (o.ino >= im.next) im.next = o.ino + 1; }
      else if (o.kind == JOp::kTrunc) im.ino[o.ino].resize(static_cast<size_t>(o.off));
      else if (o.kind == JOp::kRename) { im.dir.erase(o.path); im.dir[o.path2] = o.ino; }
      else im.dir.erase(o.path);
      continue;
    }
    std::string& d = im.ino[o.ino];
    // Sectors of 512 bytes are the unit that survives.
    for (size_t a = 0; a < o.data.size();) {
      size_t len = 512 - static_cast<size_t>(o.off + static_cast<int64_t>(a)) % 512;
      if (len > o.data.size() - a) len = o.data.size() - a;
      bool keep = true;
      if (!durable) {
        if (mode == 0) { if (last && rng.chance(1, 3)) break; }
        else if (mode == 1) keep = !rng.chance(1, 4);
        else keep = false;
      }
      size_t end = static_cast<size_t>(o.off) + a + len;
      if (mode == 2 && !keep) { if (rng.chance(1, 2) && d.size() < end) d.resize(end); }
      else if (keep) { if (d.size() < end) d.resize(end); memcpy(&d[0] + o.off + a, o.data.data() + a, len); }
      else if (rng.chance(1, 2) && d.size() < end) d.resize(end);   // size update survived, data did not
      a += len;
    }
  }
  return im;
}

// ---- operations ----------------------------------------------------------------------------------------------
Op::Op(const std::vector<Fault>& fl) : faults(fl) {
  g_faults = fl;
  journal.clear();
  g_peer = g_peer_from = 0;
  g_op = this;
  cap_hit = false;
  g_op_live = 0;
  g_active = true;
}
void Op::stop() {
  if (stopped) return;
  stopped = true;
  g_active = false;
  faults = g_faults;
  g_faults.clear();
  g_op = nullptr;
  if (cap_hit) capped = "memory";
}
Op::~Op() { stop(); }
bool Op::fired_nonbenign() const { for (auto& f : faults) if (f.fired && !benign(f.kind)) return true; return false; }
bool Op::fired(int k) const { for (auto& f : faults) if (f.fired && f.kind == k) return true; return false; }

__attribute__((noinline)) void smear_stack(uint64_t seed) {
  volatile uint64_t buf[24576];
  Rng r(seed);
  uint64_t v = r.next();
  for (size_t i = 0; i < sizeof(buf) / 8; ++i) { buf[i] = v; v = v * 6364136223846793005ull + 1442695040888963407ull; }
  asm volatile("" ::: "memory");
}

uint64_t live_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
uint64_t live_new() { return g_live_new; }

void reset_world() {
  fs = Fs();
  journal.clear();
  peer_ops.clear();
  g_faults.clear();
  g_fds.clear();
  now = 1500000000; now_step = 1;
  g_entropy = Rng(1);
  entropy_mode = 0;
  entropy_prefix = 0;
  alloc_cap = 0; cap_hit = false;
  overwrite_floor = 0;
  fill_on = false; fill_seed = 0; g_fill_ctr = 0;
}

// Returns true if this allocation must fail.
static bool alloc_hook(size_t n) {
  if (!g_active || !g_op) return false;
  OpStats& st = g_op->st;
  int64_t idx = static_cast<int64_t>(st.allocs++);
  st.allocbytes += n;
  for (auto& f : g_faults)
    if (f.kind == F_ALLOC && (f.persist || !f.fired) && idx >= f.at) { fire(&f); return true; }
  if (alloc_cap && static_cast<int64_t>(n) > alloc_cap) { cap_hit = true; return true; }
  return false;
}
static void alloc_done(void* p, size_t n) {
  if (!g_active || !p) return;
  if (fill_on) {
    uint64_t v = mix64(fill_seed, g_fill_ctr++);
    uint8_t* b = static_cast<uint8_t*>(p);
    size_t m = n < 65536 ? n : 65536;
    for (size_t i = 0; i < m; ++i) { b[i] = static_cast<uint8_t>(v); v = (v >> 8) | (v << 56); v += i; }
  }
  if (g_op) {
    g_op_live += n;
    if (g_op_live > g_op->st.peak) g_op->st.peak = g_op_live;
    if (alloc_cap && static_cast<int64_t>(g_op_live) > alloc_cap) cap_hit = true;
  }
}
static void alloc_freed(void* p) {
  if (!g_active || !p || !__sanitizer_get_allocated_size) return;
  size_t n = __sanitizer_get_allocated_size(p);
  g_op_live = n > g_op_live ? 0 : g_op_live - n;
}
static bool over_cap(size_t n) { return g_active && alloc_cap && static_cast<int64_t>(g_op_live + n) > alloc_cap; }
bool is_active() { return g_active; }
}  // namespace sim

using namespace sim;

// ---- operator new --------------------------------------------------------------------------------------------
static void* do_new(size_t n) {
  if (alloc_hook(n)) return nullptr;
  if (over_cap(n)) { cap_hit = true; return nullptr; }
  void* p = malloc(n ? n : 1);
  if (p) { ++g_live_new; alloc_done(p, n); }
  return p;
}
static void do_delete(void* p) { if (p) { --g_live_new; alloc_freed(p); } free(p); }
void* operator new(size_t n) { void* p = do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) {
  if (alloc_hook(n) || over_cap(n)) { errno = ENOMEM; return nullptr; }
  void* p = __real_malloc(n);
  alloc_done(p, n);
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  if (alloc_hook(a * b) || over_cap(a * b)) { errno = ENOMEM; return nullptr; }
  return __real_calloc(a, b);
}
void* __wrap_realloc(void* q, size_t n) {
  if (alloc_hook(n) || over_cap(n)) { errno = ENOMEM; return nullptr; }
  return __real_realloc(q, n);
}
static void* z_alloc(void*, unsigned a, unsigned b) {
  if (alloc_hook(static_cast<size_t>(a) * b)) return nullptr;
  void* p = __real_malloc(static_cast<size_t>(a) * b);
  return p;
}
static void z_free(void*, void* p) { free(p); }
static void z_seam(z_stream* s) {
  if (is_active() && !s->zalloc) { s->zalloc = z_alloc; s->zfree = z_free; s->opaque = nullptr; }
}
int __real_inflateInit2_(z_stream*, int, const char*, int);
int __real_inflateInit_(z_stream*, const char*, int);
int __real_deflateInit_(z_stream*, int, const char*, int);
int __real_deflateInit2_(z_stream*, int, int, int, int, int, const char*, int);
int __wrap_inflateInit2_(z_stream* s, int w, const char* v, int n) { z_seam(s); return __real_inflateInit2_(s, w, v, n); }
int __wrap_inflateInit_(z_stream* s, const char* v, int n) { z_seam(s); return __real_inflateInit_(s, v, n); }
int __wrap_deflateInit_(z_stream* s, int l, const char* v, int n) { z_seam(s); return __real_deflateInit_(s, l, v, n); }
int __wrap_deflateInit2_(z_stream* s, int l, int m, int w, int ml, int st, const char* v, int n) {
  z_seam(s);
  return __real_deflateInit2_(s, l, m, w, ml, st, v, n);
}
}

// ---- entropy -------------------------------------------------------------------------------------------------
static bool entropy_fail() {
  if (!is_active() || !g_op) return false;
  int64_t n = static_cast<int64_t>(g_op->st.entropy++);
  for (auto& f : g_faults)
    if (f.kind == F_ENTROPY && (f.persist || !f.fired) && n >= f.at) { fire(&f); return true; }
  return false;
}
static uint32_t entropy_word() {
  uint64_t v = g_entropy.next();
  if (entropy_prefix > 0) v = mix64(0x5eed, static_cast<uint64_t>(--entropy_prefix));
  if (entropy_mode == 1) v &= 7;
  return static_cast<uint32_t>(v >> 3);
}
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  if (entropy_fail()) throw std::runtime_error("random_device could not be read");
  return entropy_word();
}
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
}

static void entropy_fill(void* b, size_t n) {
  uint8_t* p = static_cast<uint8_t*>(b);
  for (size_t i = 0; i < n; ++i) p[i] = static_cast<uint8_t>(entropy_word() >> 5);
}
#define REAL(ret, name, args) \
  static ret (*real) args = nullptr; \
  if (!real) *reinterpret_cast<void**>(&real) = dlsym(RTLD_NEXT, #name)

extern "C" {
uint32_t arc4random(void) noexcept {
  if (is_active()) { uint32_t v; entropy_fill(&v, sizeof v); return v; }
  REAL(uint32_t, arc4random, (void));
  return real();
}
void arc4random_buf(void* b, size_t n) noexcept {
  if (is_active()) { entropy_fill(b, n); return; }
  REAL(void, arc4random_buf, (void*, size_t));
  real(b, n);
}
uint32_t arc4random_uniform(uint32_t n) noexcept { return n < 2 ? 0 : arc4random() % n; }
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom && is_active()) return getrandom(reinterpret_cast<void*>(a[0]), static_cast<size_t>(a[1]), static_cast<unsigned>(a[2]));
  REAL(long, syscall, (long, ...));
  return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

ssize_t getrandom(void* b, size_t n, unsigned fl) {
  if (is_active()) { if (entropy_fail()) { errno = EIO; return -1; } entropy_fill(b, n); return static_cast<ssize_t>(n); }
  REAL(ssize_t, getrandom, (void*, size_t, unsigned));
  return real(b, n, fl);
}
int getentropy(void* b, size_t n) {
  if (is_active()) { if (entropy_fail()) { errno = EIO; return -1; } entropy_fill(b, n); return 0; }
  REAL(int, getentropy, (void*, size_t));
  return real(b, n);
}
int RAND_bytes(unsigned char* b, int n) {
  if (is_active()) { if (entropy_fail()) return 0; entropy_fill(b, static_cast<size_t>(n)); return 1; }
  REAL(int, RAND_bytes, (unsigned char*, int));
  return real(b, n);
}

// ---- clock ---------------------------------------------------------------------------------------------------
static int64_t tick() { int64_t t = now; now += now_step; g_covered += static_cast<uint64_t>(now_step > 0 ? now_step : 0); ev("clock", t, 0); return t; }
time_t time(time_t* t) {
  if (is_active()) { time_t v = tick(); if (t) *t = v; return v; }
  struct timespec ts;
  REAL(int, clock_gettime, (clockid_t, struct timespec*));
  real(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (is_active()) { ts->tv_sec = tick(); ts->tv_nsec = 0; return 0; }
  REAL(int, clock_gettime, (clockid_t, struct timespec*));
  return real(c, ts);
}
int gettimeofday(struct timeval* tv, void* tz) {
  if (is_active()) { tv->tv_sec = tick(); tv->tv_usec = 0; return 0; }
  REAL(int, gettimeofday, (struct timeval*, void*));
  return real(tv, tz);
}

// ---- file system entry points --------------------------------------------------------------------------------
static bool is_virtual(const char* p) {
  if (!is_active() || !p) return false;
  if (!strncmp(p, "/dev/shm/", 9)) return true;
  static const char* sys[] = {"/etc/", "/usr/", "/lib", "/proc/", "/sys/", "/dev/"};
  for (auto s : sys) if (!strncmp(p, s, strlen(s))) return false;
  return true;
}
static bool is_urandom(const char* p) { return is_active() && p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int urandom_fd() {
  if (entropy_fail()) { errno = EIO; return -1; }
  Pause q;
  return new_fd(-1, O_RDONLY, "");
}
int open64(const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, int)); va_end(ap); }
  if (is_urandom(p)) return urandom_fd();
  if (is_virtual(p)) return sim_open(p, fl);
  if (is_active()) count("passthrough_open");
  REAL(int, open, (const char*, int, ...));
  return real(p, fl, m);
}
int open(const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, int)); va_end(ap); }
  return open64(p, fl, m);
}
int openat(int d, const char* p, int fl, ...) {
  if (is_urandom(p)) return urandom_fd();
  mode_t m = 0;
  if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, int)); va_end(ap); }
  if (is_virtual(p)) return sim_open(p, fl);
  REAL(int, openat, (int, const char*, int, ...));
  return real(d, p, fl, m);
}
int openat64(int d, const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, int)); va_end(ap); }
  return openat(d, p, fl, m);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static std::vector<std::pair<FILE*, int>> g_files;
static ssize_t ck_read(void* c, char* b, size_t n) { return sim_read(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n, -1); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  // stdio semantics: a cookie write reports 0 on error; retry interrupted calls like the kernel-backed stream would not.
  ssize_t r = sim_write(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n, -1);
  return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* o, int w) {
  int64_t r = sim_seek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void* c) {
  int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
  Pause p;
  for (size_t i = 0; i < g_files.size(); ++i) if (g_files[i].second == fd) { g_files.erase(g_files.begin() + static_cast<long>(i)); break; }
  return fd_get(fd) ? sim_close(fd) : 0;
}
FILE* fopen64(const char* p, const char* mode) {
  if (!is_virtual(p) && !is_urandom(p)) {
    if (is_active()) count("passthrough_open");
    REAL(FILE*, fopen, (const char*, const char*));
    return real(p, mode);
  }
  bool plus = strchr(mode, '+');
  int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY)
      : mode[0] == 'w' ? ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC)
                       : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = is_urandom(p) ? urandom_fd() : sim_open(p, fl);
  if (fd < 0) return nullptr;
  if (mode[0] == 'a') { int s = static_cast<int>(g_op->st.seeks); sim_seek(fd, 0, SEEK_END); g_op->st.seeks = static_cast<uint64_t>(s); }
  Pause q;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
  g_files.push_back({f, fd});
  return f;
}
FILE* fopen(const char* p, const char* mode) { return fopen64(p, mode); }
FILE* fdopen(int fd, const char* mode) {
  if (fd >= kFdBase) {
    Pause q;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
    g_files.push_back({f, fd});
    return f;
  }
  REAL(FILE*, fdopen, (int, const char*));
  return real(fd, mode);
}
int fileno(FILE* f) {
  for (auto& x : g_files) if (x.first == f) return x.second;
  REAL(int, fileno, (FILE*));
  return real(f);
}
ssize_t read(int fd, void* b, size_t n) {
  if (fd >= kFdBase) { if (!fd_get(fd) || !is_active()) { errno = EBADF; return -1; } return sim_read(fd, b, n, -1); }
  REAL(ssize_t, read, (int, void*, size_t));
  return real(fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (fd >= kFdBase) { if (!fd_get(fd) || !is_active()) { errno = EBADF; return -1; } return sim_read(fd, b, n, o); }
  REAL(ssize_t, pread, (int, void*, size_t, off_t));
  return real(fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (fd >= kFdBase) {
    if (!fd_get(fd) || !is_active()) { errno = EBADF; return -1; }
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) {
      if (!v[i].iov_len) continue;
      ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len, -1);
      if (r < 0) return t ? t : -1;
      t += r;
      if (static_cast<size_t>(r) < v[i].iov_len) break;
    }
    return t;
  }
  REAL(ssize_t, readv, (int, const struct iovec*, int));
  return real(fd, v, c);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (fd >= kFdBase) { if (!fd_get(fd) || !is_active()) { errno = EBADF; return -1; } return sim_write(fd, b, n, -1); }
  REAL(ssize_t, write, (int, const void*, size_t));
  return real(fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (fd >= kFdBase) { if (!fd_get(fd) || !is_active()) { errno = EBADF; return -1; } return sim_write(fd, b, n, o); }
  REAL(ssize_t, pwrite, (int, const void*, size_t, off_t));
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (fd >= kFdBase) {
    if (!fd_get(fd) || !is_active()) { errno = EBADF; return -1; }
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) {
      if (!v[i].iov_len) continue;
      ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len, -1);
      if (r < 0) return t ? t : -1;
      t += r;
      if (static_cast<size_t>(r) < v[i].iov_len) break;
    }
    return t;
  }
  REAL(ssize_t, writev, (int, const struct iovec*, int));
  return real(fd, v, c);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  if (fd >= kFdBase) { if (!fd_get(fd) || !is_active()) { errno = EBADF; return -1; } return sim_seek(fd, o, w); }
  REAL(off_t, lseek, (int, off_t, int));
  return real(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) {
  if (fd >= kFdBase) { if (!fd_get(fd)) { errno = EBADF; return -1; } return sim_close(fd); }
  REAL(int, close, (int));
  return real(fd);
}
int fsync(int fd) {
  if (fd >= kFdBase) { if (!fd_get(fd) || !is_active()) { errno = EBADF; return -1; } return sim_sync(fd); }
  REAL(int, fsync, (int));
  return real(fd);
}
int fdatasync(int fd) { return fd >= kFdBase ? fsync(fd) : [&] { REAL(int, fdatasync, (int)); return real(fd); }(); }
int ftruncate(int fd, off_t n) noexcept {
  if (fd >= kFdBase) { Fd* f = fd_get(fd); if (!f || !is_active()) { errno = EBADF; return -1; } return sim_trunc(f->ino, f->path, n); }
  REAL(int, ftruncate, (int, off_t));
  return real(fd, n);
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int rename(const char* a, const char* b) noexcept {
  if (is_virtual(a)) return sim_rename(a, b);
  REAL(int, rename, (const char*, const char*));
  return real(a, b);
}
int unlink(const char* a) noexcept {
  if (is_virtual(a)) return sim_unlink(a);
  REAL(int, unlink, (const char*));
  return real(a);
}
int remove(const char* a) noexcept {
  if (is_virtual(a)) return sim_unlink(a);
  REAL(int, remove, (const char*));
  return real(a);
}
static void fill_stat(struct stat* s, size_t size, int ino) {
  memset(s, 0, sizeof *s);
  s->st_mode = S_IFREG | 0644;
  s->st_size = static_cast<off_t>(size);
  s->st_blksize = 4096;
  s->st_nlink = 1;
  s->st_ino = static_cast<ino_t>(ino);
}
int fstat(int fd, struct stat* s) noexcept {
  if (fd >= kFdBase) { Fd* f = fd_get(fd); if (!f) { errno = EBADF; return -1; } fill_stat(s, f->ino < 0 ? 0 : fs.ino[f->ino].size(), f->ino); if (f->ino < 0) s->st_mode = S_IFCHR | 0666; return 0; }
  REAL(int, fstat, (int, struct stat*));
  return real(fd, s);
}
int fstat64(int fd, struct stat64* s) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(s)); }
int stat(const char* p, struct stat* s) noexcept {
  if (is_virtual(p)) {
    Pause q;
    auto it = fs.dir.find(p);
    if (it == fs.dir.end()) { errno = ENOENT; return -1; }
    fill_stat(s, fs.ino[it->second].size(), it->second);
    return 0;
  }
  REAL(int, stat, (const char*, struct stat*));
  return real(p, s);
}
int stat64(const char* p, struct stat64* s) noexcept { return stat(p, reinterpret_cast<struct stat*>(s)); }
int lstat(const char* p, struct stat* s) noexcept {
  if (is_virtual(p)) return stat(p, s);
  REAL(int, lstat, (const char*, struct stat*));
  return real(p, s);
}
int access(const char* p, int m) noexcept {
  if (is_virtual(p)) { Pause q; if (fs.dir.count(p)) return 0; errno = ENOENT; return -1; }
  REAL(int, access, (const char*, int));
  return real(p, m);
}
int chmod(const char* p, mode_t m) noexcept {
  if (is_virtual(p)) return 0;
  REAL(int, chmod, (const char*, mode_t));
  return real(p, m);
}
int fchmod(int fd, mode_t m) noexcept {
  if (fd >= kFdBase) return 0;
  REAL(int, fchmod, (int, mode_t));
  return real(fd, m);
}
int poll(struct pollfd* f, nfds_t n, int t) {
  if (n == 1 && f[0].fd >= kFdBase) { f[0].revents = f[0].events; return 1; }
  REAL(int, poll, (struct pollfd*, nfds_t, int));
  return real(f, n, t);
}
int truncate(const char* p, off_t n) noexcept {
  if (is_virtual(p)) { auto it = fs.dir.find(p); if (it == fs.dir.end()) { errno = ENOENT; return -1; } return sim_trunc(it->second, p, n); }
  REAL(int, truncate, (const char*, off_t));
  return real(p, n);
}
// Temporary files: their names are as predictable as everything else here.
static int temp_open(char* t, int suffix, int fl) {
  size_t n = strlen(t), at = n - static_cast<size_t>(suffix);
  if (at < 6 || strncmp(t + at - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
  for (int i = 0; i < 100000; ++i) {
    char b[16];
    snprintf(b, sizeof b, "%06d", i);
    memcpy(t + at - 6, b, 6);
    int fd = sim_open(t, O_RDWR | O_CREAT | O_EXCL | fl);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EEXIST;
  return -1;
}
int mkostemps(char* t, int suffix, int fl) {
  if (is_virtual(t)) return temp_open(t, suffix, fl);
  REAL(int, mkostemps, (char*, int, int));
  return real(t, suffix, fl);
}
int mkstemp(char* t) { return mkostemps(t, 0, 0); }
int mkstemp64(char* t) { return mkostemps(t, 0, 0); }
int mkostemp(char* t, int fl) { return mkostemps(t, 0, fl); }
int mkstemps(char* t, int suffix) { return mkostemps(t, suffix, 0); }
FILE* tmpfile64() {
  if (is_active()) {
    char t[] = "/tmp/tmpfXXXXXX";
    int fd = temp_open(t, 0, 0);
    if (fd < 0) return nullptr;
    sim_unlink(t);
    return fdopen(fd, "w+");
  }
  REAL(FILE*, tmpfile, ());
  return real();
}
FILE* tmpfile() { return tmpfile64(); }
int mkdir(const char* p, mode_t m) noexcept {
  if (is_virtual(p)) return 0;                       // directories are not simulated
  REAL(int, mkdir, (const char*, mode_t));
  return real(p, m);
}
int flock(int fd, int op) noexcept {
  if (fd >= kFdBase) return 0;
  REAL(int, flock, (int, int));
  return real(fd, op);
}
int lockf(int fd, int op, off_t n) {
  if (fd >= kFdBase) return 0;
  REAL(int, lockf, (int, int, off_t));
  return real(fd, op, n);
}
int posix_fadvise(int fd, off_t o, off_t n, int a) noexcept {
  if (fd >= kFdBase) return 0;
  REAL(int, posix_fadvise, (int, off_t, off_t, int));
  return real(fd, o, n, a);
}
int posix_fallocate(int fd, off_t o, off_t n) {
  if (fd >= kFdBase) {
    Fd* f = fd_get(fd);
    if (!f || !is_active()) return EBADF;
    if (static_cast<int64_t>(fs.ino[f->ino].size()) < o + n) sim_trunc(f->ino, f->path, o + n);
    return 0;
  }
  REAL(int, posix_fallocate, (int, off_t, off_t));
  return real(fd, o, n);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
  if (fd >= kFdBase) {
    Fd* f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    switch (cmd) {
      case F_GETFL: return f->flags;
      case F_GETFD: return FD_CLOEXEC;
      case F_SETFL: case F_SETFD: case F_SETLK: case F_SETLKW: return 0;
    }
    errno = EINVAL;
    return -1;
  }
  REAL(int, fcntl, (int, int, ...));
  return real(fd, cmd, a);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
  return fcntl64(fd, cmd, a);
}
// A mapping of a simulated file is a copy: a failed read shows up here, later changes of the file do not.
void* mmap(void* at, size_t n, int prot, int fl, int fd, off_t o) noexcept {
  if (fd < kFdBase) return reinterpret_cast<void*>(syscall(SYS_mmap, at, n, prot, fl, fd, o));
  Fd* f = fd_get(fd);
  if (!f || !is_active()) { errno = EBADF; return MAP_FAILED; }
  if ((fl & MAP_SHARED) && (prot & PROT_WRITE)) { errno = ENODEV; return MAP_FAILED; }
  void* p = reinterpret_cast<void*>(syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (p == MAP_FAILED) return p;
  for (size_t got = 0; got < n;) {
    ssize_t r = sim_read(fd, static_cast<char*>(p) + got, n - got, static_cast<int64_t>(got) + o);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) { syscall(SYS_munmap, p, n); errno = EIO; return MAP_FAILED; }
    if (r == 0) break;
    got += static_cast<size_t>(r);
  }
  return p;
}
void* mmap64(void* at, size_t n, int prot, int fl, int fd, off64_t o) noexcept { return mmap(at, n, prot, fl, fd, o); }
// The system log is one more file that bytes can get to.
void vsyslog(int, const char* fmt, va_list ap) {
  if (!is_active()) return;
  char b[4096];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  int fd = sim_open("/var/log/syslog", O_WRONLY | O_CREAT);
  if (fd < 0) return;
  sim_write(fd, b, static_cast<size_t>(n < 0 ? 0 : std::min<int>(n, sizeof b - 1)), -1);
  sim_close(fd);
}
void syslog(int pri, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsyslog(pri, fmt, ap); va_end(ap); }
void __syslog_chk(int pri, int, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsyslog(pri, fmt, ap); va_end(ap); }
void __vsyslog_chk(int pri, int, const char* fmt, va_list ap) { vsyslog(pri, fmt, ap); }
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (fd >= kFdBase) {
    Fd* f = fd_get(fd);
    if (f && req == FIONREAD) {
      int64_t n = static_cast<int64_t>(fs.ino[f->ino].size()) - f->off;
      *static_cast<int*>(a) = static_cast<int>(n > 0 ? n : 0);
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  REAL(int, ioctl, (int, unsigned long, ...));
  return real(fd, req, a);
}
}
