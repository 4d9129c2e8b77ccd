// Plans (one plan is one simulated run), verdicts, and the operations that properties are made of.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "bridge.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "model.hh"
#include "refcodec.hh"
#include "rng.hh"
#include "sim.hh"

struct Step {
  std::string op;
  std::vector<std::pair<std::string, std::string>> kv;
  Step() {}
  explicit Step(const std::string& o) : op(o) {}
  Step& set(const std::string& k, int64_t v) { kv.push_back({k, std::to_string(v)}); return *this; }
  Step& sets(const std::string& k, const std::string& v) { kv.push_back({k, v}); return *this; }
  int64_t i(const char* k, int64_t def = 0) const;
  uint64_t u(const char* k, uint64_t def = 0) const { return static_cast<uint64_t>(i(k, static_cast<int64_t>(def))); }
  std::string s(const char* k, const char* def = "") const;
};
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::vector<Step> steps;
  std::string text(const char* sep = "\n") const;
  static Plan parse(const std::string& t);
  const Step* find(const char* op, size_t n = 0) const;
  Step& add(const std::string& op) { steps.push_back(Step(op)); return steps.back(); }
};
struct Verdict {
  bool bad = false;
  std::string cls, detail;
};
struct Fail { std::string cls, detail; };           // thrown by executors
[[noreturn]] inline void fail(const std::string& cls, const std::string& detail) { throw Fail{cls, detail}; }

struct PropDef { const char* id; Plan (*gen)(Rng&, uint64_t idx); void (*run)(const Plan&); };
const std::vector<PropDef>& props();
Verdict execute(const Plan& p);                     // resets the world, runs, checks

// ---- operations ----------------------------------------------------------------------------------------------
struct Out {
  bool ok = false;
  std::string cls, what;                            // cls: password format io notfound internal bad_alloc std other
  sim::OpStats st;
  bool hard = false;                                // a fault fired that callers may report
  bool any = false;                                 // some fault fired
  bool capped = false;
  std::vector<sim::Fault> faults;
  std::unique_ptr<kp::Database> db;
  std::string str() const { return ok ? "success" : cls + " (" + what + ")"; }
};
Out attempt(const std::vector<sim::Fault>& faults, const std::function<void()>& f);
struct Files {
  kp::KdbxFile kdbx;
  kp::KdbFile kdb;
};
Out save(Files& f, bool kdbx, const std::string& path, const kp::Database& db, const kp::Key& key, const std::vector<sim::Fault>& faults = {});
Out load(Files& f, bool kdbx, const std::string& path, const kp::Key& key, const std::vector<sim::Fault>& faults = {});
Out save(bool kdbx, const std::string& path, const kp::Database& db, const kp::Key& key, const std::vector<sim::Fault>& faults = {});
Out load(bool kdbx, const std::string& path, const kp::Key& key, const std::vector<sim::Fault>& faults = {});

ref::Key gen_key(Rng& r, int mode = -1);            // mode: 0 password, 1 key file, 2 both, 3 neither
kp::Key make_key(const ref::Key& k);                // through the library, key files on the simulated disk
void put_keyfile(const std::string& path, const std::string& key32, Rng& r);
bool same_key(const ref::Key& a, const ref::Key& b, bool kdbx);

// Model described by a plan step "db" (seed, g, e, f, x = kdbx, big).
Step db_step(Rng& r, bool kdbx, int size = 1, uint32_t feats = 0xffffffff);
GenOpt db_opt(const Step* s, bool kdbx_def = true);
ModelDb db_model(const Step* s, bool kdbx_def = true);
uint32_t swarm(Rng& r, uint32_t mask = fAllFeats);

// Checks the loaded database against the model; empty if equal.
std::string differs(const ModelDb& want, const kp::Database& got, bool kdbx, bool header = true);
// Loads `path` fault-free with a fresh object and checks content; fails with cls.
void must_load(bool kdbx, const std::string& path, const kp::Key& key, const ModelDb& want, const std::string& cls);
std::string content(const kp::Database& db, bool kdbx);  // canonical dump

// Fault placed within the extent that a fault-free run of the operation measured.
Step fault_step(Rng& r, const std::vector<int>& kinds);
sim::Fault place(const Step& s, const sim::OpStats& base);
std::vector<sim::Fault> faults_of(const Plan& p, const sim::OpStats& base, const char* op = "fault");
extern const std::vector<int> kWriteFaults, kReadFaults;
