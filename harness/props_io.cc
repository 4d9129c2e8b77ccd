// Storage, memory and crash faults: C01 C02 C03 C12 C13 C21.
#include <cerrno>

#include "common.hh"
#include "refcrypto.hh"

using namespace sim;

namespace {
const char* kFile = "/d/store.db";

struct Subject {                   // a database under test with its key
  bool x = true;
  GenOpt opt;
  ModelDb m;
  std::unique_ptr<kp::Database> db;
  ref::Key rk;
  kp::Key key;
  explicit Subject(const Plan& p, const char* step = "db") {
    const Step* s = p.find(step);
    opt = db_opt(s);
    x = opt.kdbx;
    m = db_model(s);
    db = build(m);
    Rng r(mix64(p.seed, 5));
    rk = gen_key(r);
    key = make_key(rk);
  }
  void edit_by(uint64_t seed) {
    Rng r(mix64(seed, 3));
    int n = 1 + static_cast<int>(r.below(3));
    for (int i = 0; i < n; ++i) edit(m, r, opt);
    apply(m, *db);
  }
};
OpStats base_save(Subject& s, const std::string& path) {   // extent of a fault-free save, leaving the disk alone
  Fs keep = fs;
  Out b = save(s.x, path, *s.db, s.key);
  if (!b.ok) fail("save-fails-without-fault", b.str());
  OpStats st = b.st;
  fs = keep;
  return st;
}
OpStats base_load(Subject& s, const std::string& path) {
  Out b = load(s.x, path, s.key);
  if (!b.ok) fail("load-fails-without-fault", b.str());
  return b.st;
}
void grow(Rng& r, Step& s) {
  if (r.chance(1, s.i("x") ? 200 : 2500)) s.set("big", static_cast<int64_t>(700000 + r.below(1500000))).set("plain", r.chance(1, 2));
  else if (r.chance(1, 4)) s.set("big", static_cast<int64_t>(r.pick(std::vector<uint64_t>{r.below(300), r.below(9000), 8000 + r.below(500), r.below(70000), 100000 + r.below(200000)})));
}

// ---- C01 -----------------------------------------------------------------------------------------------------
Plan gen01(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(1, 2);
  Step d = db_step(r, x);
  grow(r, d);
  p.steps.push_back(d);
  if (r.chance(1, 3)) p.add("save");
  size_t n = 1 + r.below(3);
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 3)) p.add("edit").set("seed", static_cast<int64_t>(r.below(1000000)));
    size_t k = r.chance(1, 10) ? 0 : 1 + r.below(3);
    for (size_t j = 0; j < k; ++j) p.steps.push_back(fault_step(r, kWriteFaults));
    p.add("save").set("reuse", r.chance(1, 2)).set("path", static_cast<int64_t>(r.below(2)));
  }
  return p;
}
void run01(const Plan& p) {
  Subject s(p);
  Files reused;
  std::vector<Step> pending;
  bool any = false;
  for (auto& st : p.steps) {
    if (st.op == "edit") s.edit_by(st.u("seed"));
    else if (st.op == "fault") pending.push_back(st);
    else if (st.op == "save") {
      any = true;
      std::string path = st.i("path") ? "/d/other.db" : kFile;
      std::vector<Fault> f;
      if (!pending.empty()) { OpStats b = base_save(s, path); for (auto& q : pending) f.push_back(place(q, b)); }
      pending.clear();
      Files fresh;
      Files& files = st.i("reuse") ? reused : fresh;
      Out o = save(files, s.x, path, *s.db, s.key, f);
      state(hash_str(o.cls) ^ mix64(o.st.writes * 8 + o.hard * 4 + o.any * 2 + s.x, o.st.wbytes));
      if (o.ok) {
        for (auto& q : o.faults) if (q.kind == F_CLOSE && q.fired) fail("close-error-unreported", "the storage reported an error at close, the save reported success");
        must_load(s.x, path, s.key, s.m, "reported-success");
      } else {
        if (!o.hard) fail("fails-under-harmless-conditions", "only short or interrupted writes happened, the save reports " + o.str());
        if (o.cls == "other" || o.cls == "password") fail("odd-error", "the save reports " + o.str());
        Out q = save(files, s.x, path, *s.db, s.key);
        if (!q.ok) fail("retry-fails", "the fault has gone, the repeated save reports " + q.str());
        must_load(s.x, path, s.key, s.m, "retry");
      }
    }
  }
  if (!any) {
    Out o = save(s.x, kFile, *s.db, s.key);
    if (!o.ok) fail("save-fails-without-fault", o.str());
    must_load(s.x, kFile, s.key, s.m, "reported-success");
  }
}

// ---- C02 -----------------------------------------------------------------------------------------------------
Plan gen02(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(1, 2);
  Step d = db_step(r, x);
  if (r.chance(1, 250)) {                              // hashes that begin with a zero byte
    d.set("lucky", static_cast<int64_t>(1 + r.below(2)));
    for (size_t i = 12; i-- > 0;) {
      Step s("damage");
      s.set("kind", static_cast<int64_t>(r.chance(1, 2) ? 2 : r.below(8))).set("a", static_cast<int64_t>(r.below(1000000))).set("b", static_cast<int64_t>(r.below(1000000))).set("c", static_cast<int64_t>(r.below(100000))).set("how", static_cast<int64_t>(r.below(3)));
      p.steps.push_back(s);
      p.add("load");
    }
    p.steps.insert(p.steps.begin(), d);
    return p;
  }
  grow(r, d);
  p.steps.push_back(d);
  if (r.chance(2, 3)) p.add("next").set("seed", static_cast<int64_t>(r.below(1000000))).set("same", r.chance(1, 3));
  size_t n = 1 + r.below(4);
  bool crash = r.chance(1, 3);
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 6)) p.add("race").set("seed", static_cast<int64_t>(r.below(1000000))).set("a", r.chance(2, 3) ? 100 : static_cast<int64_t>(r.below(100))).set("b", r.chance(2, 3) ? 100 : static_cast<int64_t>(r.below(100))).set("over", r.chance(2, 3));
    else if (crash) p.add("crash").set("at", static_cast<int64_t>(r.below(1000))).set("mode", static_cast<int64_t>(r.below(3))).set("seed", static_cast<int64_t>(r.below(100000))).set("over", r.chance(3, 4));
    else {
      size_t k = r.chance(1, 5) ? 2 : 1;
      for (size_t j = 0; j < k; ++j)
        p.add("damage").set("kind", static_cast<int64_t>(r.below(8))).set("a", static_cast<int64_t>(r.below(1000000))).set("b", static_cast<int64_t>(r.below(1000000))).set("c", static_cast<int64_t>(r.below(100000))).set("how", static_cast<int64_t>(r.below(4)));
      p.add("load").set("reuse", r.chance(1, 3));
    }
  }
  return p;
}
uint64_t file_rounds(const std::string& f, bool x) {
  auto rd = [&](size_t at, int n) { uint64_t v = 0; for (int i = 0; i < n && at + static_cast<size_t>(i) < f.size(); ++i) v |= static_cast<uint64_t>(static_cast<uint8_t>(f[at + static_cast<size_t>(i)])) << (8 * i); return v; };
  if (!x) return rd(120, 4);
  uint64_t worst = 0;
  for (size_t i = 12; i + 3 <= f.size();) {
    unsigned id = static_cast<uint8_t>(f[i]);
    size_t n = rd(i + 1, 2);
    if (id == 6) worst = std::max(worst, rd(i + 3, 8));
    if (id == 0) break;
    i += 3 + n;
  }
  return worst;
}
void damage(std::string& f, const std::string& other, const Step& s) {
  if (f.empty()) return;
  auto at = [&](const char* k, size_t n) -> size_t {          // biased towards header, ends and 16-byte block edges
    uint64_t v = s.u(k);
    size_t q = static_cast<size_t>(v % (n ? n : 1));
    switch (s.i("how")) {
      case 1: q = v % 260 < n ? v % 260 : q; break;
      case 2: q = n > 48 ? n - 1 - v % 48 : q; break;
      case 3: q -= q % 16; break;
    }
    return q;
  };
  size_t a = at("a", f.size()), b = at("b", f.size()), len = 1 + s.u("c") % 64;
  if (s.i("how") == 3) len = 16 * (1 + s.u("c") % 8);
  if (s.u("c") % 7 == 0) len = 512;
  if (len > f.size() - a) len = f.size() - a;
  switch (s.i("kind")) {
    case 0: f.resize(a); break;
    case 1: { Rng r(s.u("c")); f += s.u("b") % 3 == 0 ? std::string(len, '\0') : s.u("b") % 3 == 1 ? r.bytes(len) : f.substr(f.size() - len); break; }
    case 2: f[a] = static_cast<char>(f[a] ^ (1 << s.u("c") % 8)); break;
    case 3: for (size_t i = 0; i < len; ++i) f[a + i] = s.u("b") % 2 ? '\0' : '\xff'; break;
    case 4: { std::string c = f.substr(a, len); f.insert(b, c); break; }
    case 5: { size_t l2 = std::min(len, f.size() - b); for (size_t i = 0; i < l2; ++i) std::swap(f[a + i], f[b + i]); break; }
    case 6: { if (a < other.size()) f = s.u("b") % 2 ? f.substr(0, a) + other.substr(a) : other.substr(0, a) + f.substr(a); break; }
    case 7: f.erase(a, len); break;
  }
}
// Looks for a save in which the hash of the header, of the first block or of the content begins with a zero byte.
void lucky(Subject& s, int which) {
  s.m.rounds = 1;
  for (uint64_t k = 1; k < 1500; ++k) {
    std::string* text = s.x ? &s.m.root.notes : s.m.root.groups.empty() ? nullptr : &s.m.root.groups[0].name;
    if ((which == 2 || !s.x) && text) *text += static_cast<char>('a' + k % 26);
    apply(s.m, *s.db);
    seed_entropy(k);
    Out o = save(s.x, kFile, *s.db, s.key);
    if (!o.ok) fail("save-fails-without-fault", o.str());
    std::string h;
    try {
      std::string f = fs.get(kFile);
      if (!s.x) h = f.substr(56, 32);
      else { ref::KdbxParts q = ref::kdbx_open(f, s.rk); h = which == 1 ? ref::sha256(q.header) : q.blocks.substr(4, 32); }
    } catch (ref::Err& e) { fail("save-unreadable", e.what()); }
    fs = Fs();
    if (h.empty() || h[0]) continue;
    count("zero-hashes");
    seed_entropy(k);
    return;
  }
}
void run02(const Plan& p) {
  Subject s(p);
  auto fix = [&] { if (!s.x && s.m.rounds == 0) { s.m.rounds = 1; apply(s.m, *s.db); } };  // without rounds the transformation seed has no effect
  fix();
  if (const Step* d = p.find("db")) if (d->i("lucky")) lucky(s, static_cast<int>(d->i("lucky")));
  Out o = save(s.x, kFile, *s.db, s.key);
  if (!o.ok) fail("save-fails-without-fault", o.str());
  Proj pr = s.x ? kKdbx : kKdb;
  std::string a = dump(s.m, pr), b = a, c;
  Fs before = fs;
  std::string file_a = fs.get(kFile), file_b = file_a;
  std::vector<JOp> j;
  std::vector<JOp> j_new;
  if (const Step* n = p.find("next")) {
    if (!n->i("same")) s.edit_by(n->u("seed"));
    fix();
    seed_entropy(n->u("seed") + 77);
  }
  {
    Out q = save(s.x, kFile, *s.db, s.key);
    if (!q.ok) fail("save-fails-without-fault", q.str());
    j = journal;
    b = dump(s.m, pr);
    file_b = fs.get(kFile);
    fs = Fs();
    q = save(s.x, kFile, *s.db, s.key);
    if (!q.ok) fail("save-fails-without-fault", q.str());
    j_new = journal;
    fs = before;
  }
  Files reused;
  std::string f = file_a;
  bool dirty = false;
  auto judge = [&](Files& files, const char* what) {
    if (!fs.has(kFile)) return;
    if (file_rounds(fs.get(kFile), s.x) > 5000) { count("skipped:rounds"); return; }
    Out l = load(files, s.x, kFile, s.key);
    state(hash_str(l.cls + l.what) ^ (l.ok ? 1 : 0));
    if (!l.ok) { if (l.cls == "bad_alloc" || l.cls == "other") fail("odd-error", std::string(what) + ": the load reports " + l.str()); return; }
    count("damaged-but-intact");
    std::string got = dump(extract(*l.db, s.x), pr);
    ev_str("loaded", got);
    if (got != a && got != b && got != c) fail(std::string(what) + "-accepted", "a " + std::string(what) + " file is accepted with different content: " + first_diff(a, got));
  };
  for (auto& st : p.steps) {
    if (st.op == "damage") {
      damage(f, file_b, st);
      dirty = true;
    } else if (st.op == "load") {
      if (dirty) count("fault:stored_damage");
      fs.put(kFile, f);
      Files fresh;
      judge(st.i("reuse") ? reused : fresh, "damaged");
      f = file_a;
      dirty = false;
    } else if (st.op == "race") {             // a third version, saved by another process at the same time
      ModelDb m3 = s.m;
      Rng r(mix64(st.u("seed"), 4));
      edit(m3, r, s.opt);
      m3.rounds = s.m.rounds;
      if (!s.x && m3.rounds == 0) m3.rounds = 1;
      const Fs start = st.i("over", 1) ? before : Fs();
      fs = start;
      seed_entropy(st.u("seed") + 78);
      Out q = save(s.x, kFile, *build(m3), s.key);
      if (!q.ok) fail("save-fails-without-fault", q.str());
      c = dump(m3, pr);
      fs = interleave(start, st.i("over", 1) ? j : j_new, journal, r, static_cast<int>(st.i("a", 100)), static_cast<int>(st.i("b", 100)));
      count("fault:two_writers");
      Files fresh;
      judge(fresh, "twice written");
      c.clear();
    } else if (st.op == "crash") {
      bool over = st.i("over", 1) != 0;
      auto& jj = over ? j : j_new;
      Rng r(st.u("seed"));
      size_t k = jj.empty() ? 0 : st.u("at") % (jj.size() + 1);
      fs = crash_image(over ? before : Fs(), jj, k, static_cast<int>(st.i("mode")), r);
      count("fault:crash");
      Files fresh;
      judge(fresh, "crashed");
    }
  }
  // The undamaged file must load: otherwise refusing everything would pass.
  fs.put(kFile, file_b);
  Out l = load(s.x, kFile, s.key);
  if (!l.ok) fail("intact-refused", l.str());
}

// ---- C03 -----------------------------------------------------------------------------------------------------
Plan gen03(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(1, 2);
  Step d = db_step(r, x);
  grow(r, d);
  p.steps.push_back(d);
  p.add("store").set("ref", r.chance(1, 3)).set("seed", static_cast<int64_t>(r.below(100000)));
  size_t n = 1 + r.below(3);
  for (size_t i = 0; i < n; ++i) {
    size_t k = r.chance(1, 12) ? 0 : 1 + r.below(3);
    bool harmless = r.chance(1, 4);
    if (r.chance(1, 6)) {
      p.add("peer").set("seed", static_cast<int64_t>(r.below(1000000)));
      p.steps.push_back(fault_step(r, {F_PEER}));
      if (r.chance(1, 3)) k = 0;
    }
    for (size_t j = 0; j < k; ++j) p.steps.push_back(fault_step(r, harmless ? std::vector<int>{F_SHORT_R, F_EINTR_R} : kReadFaults));
    p.add("load").set("reuse", r.chance(1, 2));
  }
  return p;
}
void run03(const Plan& p) {
  Subject s(p);
  const Step* st0 = p.find("store");
  if (st0 && st0->i("ref")) {
    ref::Layout l;
    l.seed = st0->u("seed");
    ModelDb m = s.m;
    fs.put(kFile, s.x ? ref::kdbx_write(m, s.rk, l) : ref::kdb_write(m, s.rk, l));
  } else {
    Out o = save(s.x, kFile, *s.db, s.key);
    if (!o.ok) fail("save-fails-without-fault", o.str());
  }
  const std::string file = fs.get(kFile);
  if (st0 && st0->i("ref")) {      // content that does not survive a foreign writer is not this property's business
    Out l = load(s.x, kFile, s.key);
    if (!l.ok) fail("load-fails-without-fault", l.str());
    s.m = extract(*l.db, s.x);
  }
  OpStats base = base_load(s, kFile);
  overwrite_floor = ref::header_size(file, s.x);
  Files reused;
  std::vector<Fault> f;
  // Another process that saves an edited database over the file. Only the content differs, not the shape of the header:
  // a header made of both would otherwise ask for any number of key transformation rounds.
  const Fs disk = fs;
  ModelDb peer_m;
  bool peer = false;
  auto meet = [&](const Step& st) {
    if (st0 && st0->i("ref")) return;
    peer_m = s.m;
    Rng r(mix64(st.u("seed"), 3));
    for (int i = 1 + static_cast<int>(r.below(3)); i-- > 0;) edit(peer_m, r, s.opt);
    peer_m.rounds = s.m.rounds; peer_m.cipher = s.m.cipher; peer_m.compress = s.m.compress;
    fs = disk;
    Out o = save(s.x, kFile, *build(peer_m), s.key);
    if (!o.ok) fail("save-fails-without-fault", o.str());
    peer_ops = journal;
    peer = true;
  };
  auto one = [&](const Step& st) {
    fs = disk;
    Files fresh;
    Files& files = st.i("reuse") ? reused : fresh;
    Out l = load(files, s.x, kFile, s.key, f);
    state(hash_str(l.cls) ^ mix64(l.st.reads * 4 + l.hard * 2 + s.x, l.st.rbytes));
    if (l.ok) {
      std::string d = differs(s.m, *l.db, s.x);
      if (!d.empty() && peer && l.any) { d = differs(peer_m, *l.db, s.x); if (d.empty()) count("peer-content"); }
      if (!d.empty()) fail("faulty-load-wrong-content", d);
    } else {
      if (!l.hard) fail("fails-under-harmless-conditions", "only short or interrupted reads happened, the load reports " + l.str());
      if (l.cls == "other" || l.cls == "bad_alloc") fail("odd-error", "the load reports " + l.str());
    }
    fs = Fs();
    fs.put(kFile, file);
    Out q = load(files, s.x, kFile, s.key);
    if (!q.ok) fail("retry-fails", "the fault has gone, the repeated load reports " + q.str());
    std::string d = differs(s.m, *q.db, s.x);
    if (!d.empty()) fail("retry-content", d);
    f.clear();
    peer_ops.clear();
    peer = false;
  };
  bool any = false;
  for (auto& st : p.steps) {
    if (st.op == "fault") f.push_back(place(st, base));
    else if (st.op == "peer") meet(st);
    else if (st.op == "load") { one(st); any = true; }
  }
  if (!any) one(Step("load"));
}

// ---- operations used by C12 and C13 ------------------------------------------------------------------------------
// kind: 0 save, 1 load, 2 key file. cause: why it may fail besides faults.
enum Cause { kNoCause, kWrongKey, kDamaged, kMissing, kRefused, kMalformed, kCauses };
struct Bench {
  Subject s;
  std::string good, damaged, malformed;
  kp::Key wrong;
  std::string kf;
  explicit Bench(const Plan& p) : s(p) {
    Rng r(mix64(p.seed, 6));
    Out o = save(s.x, kFile, *s.db, s.key);
    if (!o.ok) fail("save-fails-without-fault", o.str());
    good = damaged = fs.get(kFile);
    size_t at = s.x ? 250 : 124;
    if (damaged.size() > at) { at += r.below(damaged.size() - at); damaged[at] = static_cast<char>(damaged[at] ^ 0x10); if (r.chance(1, 3)) damaged.resize(damaged.size() - r.below(damaged.size() - 12)); }
    ref::Key w = s.rk;
    w.has_pw = true;
    w.pw += "!";
    wrong = make_key(w);
    kf = r.bytes(32);
    // Right key, broken inside.
    if (s.x) {
      ref::KdbxParts q = ref::kdbx_open(good, s.rk);
      std::string pl = q.payload;
      if (r.chance(1, 2)) pl.resize(r.below(pl.size()));
      else { size_t a = r.below(pl.size()); pl[a] = r.chance(1, 2) ? '<' : '&'; }
      q.blocks = ref::kdbx_blocks(q.compress ? ref::gzip(pl) : pl);
      if (r.chance(1, 3)) q.blocks.resize(r.below(q.blocks.size()));
      else if (r.chance(1, 3)) q.blocks[r.below(q.blocks.size())] ^= 1;
      malformed = ref::kdbx_seal(q, s.rk);
    } else {
      ref::KdbParts q = ref::kdb_open(good, s.rk);
      if (r.chance(1, 2)) q.content.resize(r.below(q.content.size() + 1));
      else if (!q.content.empty()) q.content[r.below(q.content.size())] ^= 0x21;
      if (r.chance(1, 4)) ++q.entries;
      malformed = ref::kdb_seal(q, s.rk);
    }
  }
  // Prepares the disk and objects outside the measured operation.
  Out run(int kind, int cause, const std::vector<Fault>& f, Files& files, kp::Key* keyout = nullptr) {
    fs = Fs();
    if (kind == 0) {
      fs.put(kFile, good);
      if (cause == kRefused) {
        kp::Database bad;
        return save(files, s.x, kFile, bad, s.key, f);
      }
      return save(files, s.x, kFile, *s.db, s.key, f);
    }
    if (kind == 1) {
      if (cause == kDamaged) fs.put(kFile, damaged);
      else if (cause == kMalformed) fs.put(kFile, malformed);
      else if (cause != kMissing) fs.put(kFile, good);
      return load(files, s.x, kFile, cause == kWrongKey ? wrong : s.key, f);
    }
    Rng r(hash_str(kf));
    std::string t = r.chance(1, 2) ? ref::keyfile_xml(kf, r) : ref::keyfile_hex(kf, r);
    if (cause == kDamaged) t.resize(t.size() / 2);
    if (cause == kMalformed) { size_t a = t.find("<Data>"); t[a == std::string::npos ? 5 : a + 9] = '*'; }
    if (cause != kMissing) fs.put("/k/a.key", t);
    kp::Key local;
    kp::Key& k = keyout ? *keyout : local;
    return attempt(f, [&] { k.SetKeyFile("/k/a.key"); });
  }
};

// ---- C12 -----------------------------------------------------------------------------------------------------
Plan gen12(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(1, 2);
  Step d = db_step(r, x);
  if (r.chance(1, 8)) d.set("big", static_cast<int64_t>(r.below(60000)));
  p.steps.push_back(d);
  size_t n = 1 + r.below(4);
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 2)) p.steps.push_back(fault_step(r, {F_ALLOC, F_ALLOC, F_ALLOC, F_READ, F_WRITE, F_OPEN, F_CLOSE, F_SHORT_R, F_SHORT_W, F_SEEK, F_ENTROPY}));
    p.add("op").set("kind", static_cast<int64_t>(r.below(8) < 7 ? r.below(2) : 2)).set("cause", r.chance(1, 2) ? 0 : static_cast<int64_t>(r.below(kCauses)));
  }
  p.add("reuse").set("on", r.chance(1, 3));
  return p;
}
void run12(const Plan& p) {
  Bench b(p);
  struct One { int kind, cause; std::vector<Fault> f; };
  std::vector<One> ops;
  std::vector<Step> pend;
  Files shared;
  bool reuse = p.find("reuse") && p.find("reuse")->i("on");
  for (auto& st : p.steps) {
    if (st.op == "fault") pend.push_back(st);
    if (st.op != "op") continue;
    One o{static_cast<int>(st.i("kind")), static_cast<int>(st.i("cause")), {}};
    if (!pend.empty()) {
      Files f;
      Out base = b.run(o.kind, o.cause, {}, f);
      for (auto& q : pend) o.f.push_back(place(q, base.st));
      pend.clear();
    }
    ops.push_back(o);
  }
  auto round = [&] {
    for (auto& o : ops) {
      Files fresh;
      Out r = b.run(o.kind, o.cause, o.f, reuse ? shared : fresh);
      state(hash_str(r.cls) ^ mix64(static_cast<uint64_t>(o.kind * 16 + o.cause), r.st.allocs));
      std::string why = r.str();
      if (open_fds()) fail("open-file-left", "after an operation that ended with " + why + " a file is still open");
    }
    fs = Fs();
    journal.clear();
    journal.shrink_to_fit();
  };
  uint64_t b0 = 0, n0 = 0, b1 = 0, n1 = 0, b2 = 0, n2 = 0;
  auto snap = [&](uint64_t& by, uint64_t& n) { Pause q; by = live_bytes(); n = live_new(); };
  size_t cs = 0;
  auto settle = [&] { cs = states.size(); states.reserve(cs + 64); };
  round(); round();
  settle(); snap(b0, n0);
  round();
  states.resize(cs); snap(b1, n1);
  round();
  states.resize(cs); snap(b2, n2);
  ev("live", static_cast<int64_t>(n1 - n0), static_cast<int64_t>(n2 - n1));
  if (n1 > n0 && n2 > n1) fail("memory-accumulates", "live blocks grow by " + std::to_string(n1 - n0) + " and " + std::to_string(n2 - n1) + " per repetition");
  if (b1 > b0 && b2 > b1 && b2 - b1 == b1 - b0) fail("memory-accumulates", "live bytes grow by " + std::to_string(b1 - b0) + " per repetition");
}

// ---- C13 -----------------------------------------------------------------------------------------------------
Plan gen13(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(1, 2);
  Step d = db_step(r, x);
  if (r.chance(1, 8)) d.set("big", static_cast<int64_t>(r.below(60000)));
  p.steps.push_back(d);
  size_t n = 2 + r.below(6);
  for (size_t i = 0; i < n; ++i) {
    Step f = fault_step(r, {F_ALLOC});
    if (r.chance(1, 5)) f = Step("fault").set("kind", F_ALLOC).set("pos", 0).set("idx", static_cast<int64_t>(r.below(60))).set("persist", r.chance(1, 2));
    p.steps.push_back(f);
    if (r.chance(1, 10)) p.steps.push_back(fault_step(r, {F_SHORT_R, F_SHORT_W}));
    p.add("op").set("kind", static_cast<int64_t>(r.below(7) < 6 ? r.below(2) : 2)).set("reuse", r.chance(1, 2));
  }
  return p;
}
void run13(const Plan& p) {
  Bench b(p);
  Subject& s = b.s;
  Files reused;
  std::vector<Step> pend;
  OpStats base[3];
  bool have[3] = {false, false, false};
  for (auto& st : p.steps) {
    if (st.op == "fault") pend.push_back(st);
    if (st.op != "op") continue;
    int kind = static_cast<int>(st.u("kind") % 3);
    if (!have[kind]) { Files f; Out o = b.run(kind, 0, {}, f); if (!o.ok) fail("fails-without-fault", o.str()); base[kind] = o.st; have[kind] = true; }
    std::vector<Fault> f;
    for (auto& q : pend) { Fault x = place(q, base[kind]); if (q.i("idx", -1) >= 0) x.at = q.i("idx"); f.push_back(x); }
    pend.clear();
    Files fresh;
    Files& files = st.i("reuse") ? reused : fresh;
    kp::Key k;
    auto seed = std::array<uint8_t, 32>();
    auto bits = [&](const kp::Key& q) { auto t = q.Transform(seed, 1, kp::Key::SubKeyResolution::kHashSubKeys); return std::string(t.begin(), t.end()); };
    if (kind == 2) k.SetPassword("pw");
    std::string before = bits(k);
    Out o = b.run(kind, 0, f, files, &k);
    state(hash_str(o.cls) ^ mix64(static_cast<uint64_t>(kind * 2 + s.x), static_cast<uint64_t>(f.empty() ? 0 : f[0].at)));
    if (!o.ok && !o.hard) fail("fails-without-failing-allocation", o.str());
    if (o.cls == "other") fail("odd-error", "not a standard exception");
    ref::Key rk;
    rk.has_pw = rk.has_kf = true;
    rk.pw = "pw";
    rk.kf = b.kf;
    auto want_key = [&] { kp::Key w = make_key(rk); return bits(w); };
    if (kind == 0) {
      if (o.ok) must_load(s.x, kFile, s.key, s.m, "save-under-failing-allocation");
      else if (o.cls == "bad_alloc") count("ended:bad_alloc"); else count("ended:" + o.cls);
      Out q = save(files, s.x, kFile, *s.db, s.key);
      if (!q.ok) fail("unusable-afterwards", "the repeated save reports " + q.str());
      must_load(s.x, kFile, s.key, s.m, "save-afterwards");
    } else if (kind == 1) {
      if (o.ok) { std::string d = differs(s.m, *o.db, s.x); if (!d.empty()) fail("load-under-failing-allocation-content", d); }
      o.db.reset();
      Out q = load(files, s.x, kFile, s.key);
      if (!q.ok) fail("unusable-afterwards", "the repeated load reports " + q.str());
      std::string d = differs(s.m, *q.db, s.x);
      if (!d.empty()) fail("load-afterwards-content", d);
    } else {
      if (o.ok ? bits(k) != want_key() : bits(k) != before) fail("keyfile-under-failing-allocation", "the key is wrong after " + o.str());
      Out q = attempt({}, [&] { k.SetKeyFile("/k/a.key"); });
      if (!q.ok) fail("unusable-afterwards", "the repeated key-file load reports " + q.str());
      if (bits(k) != want_key()) fail("keyfile-afterwards", "wrong key");
    }
    std::string d = first_diff(dump(s.m, s.x ? kKdbx : kKdb), content(*s.db, s.x));
    if (!d.empty()) fail("database-changed", d);
  }
}

// ---- C21 -----------------------------------------------------------------------------------------------------
// why: 0 I/O faults, 1 allocation, 2 entropy, 3 content that cannot be stored, 4 crash
Plan gen21(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(1, 2);
  Step d = db_step(r, x);
  if (r.chance(1, 6)) d.set("big", static_cast<int64_t>(r.below(40000)));
  p.steps.push_back(d);
  size_t n = 1 + r.below(4);
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 2)) p.add("edit").set("seed", static_cast<int64_t>(r.below(1000000)));
    switch (r.below(8)) {
      case 0: p.steps.push_back(fault_step(r, kWriteFaults)); p.add("save").set("reuse", r.chance(1, 2)); break;
      case 1: case 2: case 3: p.steps.push_back(fault_step(r, {F_ALLOC})); p.add("save").set("reuse", r.chance(1, 2)); break;
      case 4: p.steps.push_back(fault_step(r, {F_ENTROPY})); p.add("save").set("reuse", r.chance(1, 2)); break;
      case 5: p.add("refuse").set("what", static_cast<int64_t>(r.below(8))).set("reuse", r.chance(1, 2)); break;
      case 6: p.steps.push_back(fault_step(r, {F_OPEN})); p.add("save").set("reuse", r.chance(1, 2)); break;
      default: p.add("crash").set("at", static_cast<int64_t>(r.below(1000))).set("mode", static_cast<int64_t>(r.below(3))).set("seed", static_cast<int64_t>(r.below(100000))); break;
    }
  }
  return p;
}
void run21(const Plan& p) {
  Subject s(p);
  Proj pr = s.x ? kKdbx : kKdb;
  Out o = save(s.x, kFile, *s.db, s.key);
  if (!o.ok) fail("save-fails-without-fault", o.str());
  std::string old = dump(s.m, pr);
  Files reused;
  std::vector<Step> pend;
  auto check_old = [&](const std::string& cls, const std::string& why, const std::string* alt) {
    std::string got;
    if (!fs.has(kFile)) fail(cls, why + " the file is gone");
    Out l = load(s.x, kFile, s.key);
    if (!l.ok) fail(cls, why + " the file does not load any more: " + l.str());
    got = content(*l.db, s.x);
    if (got != old && !(alt && got == *alt)) fail(cls, why + " the file holds something else: " + first_diff(old, got));
  };
  for (auto& st : p.steps) {
    if (st.op == "edit") s.edit_by(st.u("seed"));
    else if (st.op == "fault") pend.push_back(st);
    else if (st.op == "save") {
      std::vector<Fault> f;
      if (!pend.empty()) { OpStats b = base_save(s, kFile); for (auto& q : pend) f.push_back(place(q, b)); }
      pend.clear();
      Fs before = fs;
      Files fresh;
      Out q = save(st.i("reuse") ? reused : fresh, s.x, kFile, *s.db, s.key, f);
      state(hash_str(q.cls) ^ mix64(static_cast<uint64_t>(f.empty() ? 0 : f[0].kind), q.st.writes));
      std::string now_d = dump(s.m, pr);
      if (q.ok) { old = now_d; continue; }
      if (!q.hard) fail("save-fails-without-fault", q.str());
      int kind = 0;
      for (auto& x : q.faults) if (x.fired && !benign(x.kind)) kind = x.kind;
      std::string cls = kind == F_ALLOC ? "previous-lost-after-failed-allocation" : kind == F_ENTROPY ? "previous-lost-after-entropy-failure"
          : kind == F_OPEN ? "previous-lost-after-failed-open" : "previous-lost-after-io-error";
      check_old(cls, std::string("after a save that ended with ") + q.str(), nullptr);
    } else if (st.op == "refuse") {
      auto bad = build(s.m);
      kp::Database empty;
      const kp::Database* d = bad.get();
      std::string what;
      auto first_entry = [&](std::shared_ptr<kp::Group> g) {
        auto e = std::make_shared<kp::Entry>();
        auto a = std::make_shared<kp::Entry::Attachment>();
        a->set_name("no data");
        e->AddAttachment(a);
        auto sub = std::make_shared<kp::Group>();
        sub->AddEntry(e);
        g->AddGroup(sub);
      };
      switch (st.u("what") % 8) {
        case 0: d = &empty; what = "no tree"; break;
        case 1: first_entry(bad->root()); what = "attachment without data"; break;
        case 2: bad->root()->set_creation_time(INT64_MAX / 2); { auto g = std::make_shared<kp::Group>(); g->set_expiry_time(INT64_MAX / 2); bad->root()->AddGroup(g); } what = "time out of range"; break;
        case 3: if (s.x) { bad->set_cipher(kp::Database::Cipher::kTwofish); what = "cipher"; } else { bad->root()->AddEntry(std::make_shared<kp::Entry>()); what = "entry outside groups"; } break;
        case 4: bad->set_master_seed(std::vector<uint8_t>(s.x ? 70000 : 15, 7)); what = "master seed"; break;
        case 5: if (s.x) { d = &empty; } else bad->set_transform_rounds(1ull << 33); what = "rounds"; break;
        case 6: if (s.x) { first_entry(bad->root()); } else {
          auto g = std::make_shared<kp::Group>();
          auto e = std::make_shared<kp::Entry>();
          for (int i = 0; i < 2; ++i) { auto a = std::make_shared<kp::Entry::Attachment>(); a->set_name("a"); a->set_binary(std::make_shared<kp::Binary>(kp::protect<std::string>("x", false))); e->AddAttachment(a); }
          g->AddEntry(e);
          bad->root()->AddGroup(g);
        } what = "several attachments"; break;
        default: bad->set_master_seed(std::vector<uint8_t>(s.x ? 65536 : 17, 7)); what = "master seed"; break;
      }
      Files fresh;
      Out q = save(st.i("reuse") ? reused : fresh, s.x, kFile, *d, s.key);
      state(hash_str(q.cls + what));
      if (q.ok) { Out r = save(s.x, kFile, *s.db, s.key); if (!r.ok) fail("save-fails-without-fault", r.str()); old = dump(s.m, pr); continue; }  // not refused: another property's business
      count("fault:unstorable_content");
      check_old("previous-lost-after-refusal", "after a save refused with " + q.str(), nullptr);
    } else if (st.op == "crash") {
      Fs before = fs;
      Out q = save(s.x, kFile, *s.db, s.key);
      if (!q.ok) fail("save-fails-without-fault", q.str());
      std::vector<JOp> j = journal;
      Fs after = fs;
      Rng r(st.u("seed"));
      size_t k = st.u("at") % (j.size() + 1);
      fs = crash_image(before, j, k, static_cast<int>(st.i("mode")), r);
      count("fault:crash");
      std::string now_d = dump(s.m, pr);
      state(mix64(k, st.u("mode")));
      check_old("previous-lost-after-crash", "after a crash during a save", &now_d);
      Out l = load(s.x, kFile, s.key);
      old = content(*l.db, s.x);
    }
  }
}
}  // namespace

extern const PropDef kIoProps[] = {{"C01", gen01, run01}, {"C02", gen02, run02}, {"C03", gen03, run03}, {"C12", gen12, run12}, {"C13", gen13, run13}, {"C21", gen21, run21}, {nullptr, nullptr, nullptr}};
