// The simulator: virtual file system, allocator, entropy and clock seams, fault injection, event log.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "rng.hh"

namespace sim {

// ---- virtual file system -------------------------------------------------------------------------------------
struct Fs {                       // value type: copying it snapshots the disk
  std::map<std::string, int> dir; // path -> inode
  std::map<int, std::string> ino; // inode -> content
  int next = 1;
  bool has(const std::string& p) const { return dir.count(p) != 0; }
  const std::string& get(const std::string& p) const { return ino.at(dir.at(p)); }
  void put(const std::string& p, const std::string& d);
  void del(const std::string& p) { dir.erase(p); }
};
extern Fs fs;

struct JOp {                      // journal of mutations, for crash images and for the access audit
  enum Kind { kCreate, kTrunc, kWrite, kRename, kUnlink, kSync } kind;
  int ino = 0;
  std::string path, path2, data;
  int64_t off = 0;                // write offset or truncation size
};
extern std::vector<JOp> journal;
// Disk image if the machine stopped after the first k journal entries; entry k may be torn. Un-synced writes survive
// according to mode (0: in order, 1: arbitrary subset, 2: metadata only) and rng.
// One entry applied as another process would: pieces of a write, at most `piece` bytes of it from `from` on. Returns the
// bytes of the entry still to come.
size_t peer_apply(Fs& f, const JOp& o, size_t from, size_t piece);
extern std::vector<JOp> peer_ops;  // what the other process does to the disk when F_PEER strikes
// Two processes writing at the same time: their entries interleaved in pieces, either of them possibly stopping early.
Fs interleave(const Fs& before, const std::vector<JOp>& a, const std::vector<JOp>& b, Rng& rng, int keep_a, int keep_b);
Fs crash_image(const Fs& before, const std::vector<JOp>& j, size_t k, int mode, Rng& rng);

// ---- faults --------------------------------------------------------------------------------------------------
enum FaultKind {
  F_NONE, F_OPEN, F_READ, F_WRITE, F_CLOSE, F_SEEK, F_SYNC, F_RENAME, F_SHORT_R, F_SHORT_W, F_EINTR_R, F_EINTR_W,
  F_SHRINK, F_OVERWRITE, F_ALLOC, F_ENTROPY, F_PEER, F_COUNT
};
extern const char* kFaultName[F_COUNT];
struct Fault { int kind; int64_t at; int64_t arg; bool persist; uint64_t seed; int fired; };
bool benign(int kind);            // kinds the caller must survive without loss

// ---- running an operation ------------------------------------------------------------------------------------
struct OpStats {
  uint64_t opens = 0, reads = 0, writes = 0, seeks = 0, closes = 0, rbytes = 0, wbytes = 0, allocs = 0, entropy = 0;
  uint64_t peak = 0;              // peak of live bytes allocated by the operation
  uint64_t allocbytes = 0;        // total bytes requested
};
struct Op {                       // RAII: the calls made while it lives run inside the simulation
  explicit Op(const std::vector<Fault>& faults = {});
  ~Op();
  void stop();
  bool fired_nonbenign() const;
  bool fired(int kind) const;
  OpStats st;
  std::vector<Fault> faults;
  std::string capped;             // set when a resource cap was hit
  bool stopped = false;
};
struct Pause { bool a; Pause(); ~Pause(); }; // harness code running inside an operation

extern size_t overwrite_floor;    // F_OVERWRITE leaves the bytes before it alone (key-transformation rounds are work the file asks for)
extern int64_t alloc_cap;         // 0: none; otherwise bad_alloc beyond this many live bytes (and cap_hit)
extern bool cap_hit;
extern uint64_t fill_seed;        // content of fresh heap memory (0: untouched)
extern bool fill_on;
void smear_stack(uint64_t seed);  // garbage below the current stack pointer

extern int64_t now;               // simulated wall clock, seconds
extern int64_t now_step;          // added at each query
uint64_t sim_time_covered();      // simulated seconds that passed by queries and jumps
void set_now(int64_t t);
void seed_entropy(uint64_t seed);
extern int entropy_prefix;        // this many words are the same whatever the seed
extern int entropy_mode;          // 0: good, 1: only 8 different words (weak device)

int open_fds();                   // simulated descriptors currently open
uint64_t live_bytes();            // live heap bytes of the whole process
uint64_t live_new();              // number of live operator new blocks

// ---- event log, counters -------------------------------------------------------------------------------------
void ev(const char* tag, int64_t a = 0, int64_t b = 0);
void ev_str(const char* tag, const std::string& s);
uint64_t ev_hash();
void ev_reset(bool keep_text = false);
const std::string& ev_text();     // only if kept
void count(const std::string& name, uint64_t n = 1);
extern std::map<std::string, uint64_t> counters;
void state(uint64_t sig);         // a state or path reached, for coverage
extern std::vector<uint64_t> states;
void reset_world();               // fresh disk, clock, entropy, no faults
}  // namespace sim
