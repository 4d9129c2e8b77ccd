// C15 environment, C16 secrecy, C17 stream layers, C18 identifiers and start bytes.
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>
#include <locale>
#include <new>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

#include "common.hh"
#include "refcrypto.hh"
#include "random.hh"
#include "stream.hh"

using namespace sim;

Plan gen14(Rng& r, uint64_t idx);
void run14(const Plan& p);
std::string forge_hostile(const Plan& p, const Step* s, const ref::Key& k, const char* marker = "");
void gen_mutations(Rng& r, bool kdbx, Plan& p);
void set_zone(int64_t i);
extern const int kNumZones;
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));

namespace {
const char* kFile = "/d/store.db";

// ---- C15 -------------------------------------------------------------------------------------------------------
struct OddPunct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1\2"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
struct OddCtype : std::ctype<char> {
  static const mask* table() {
    static const std::vector<mask> t = [] {
      std::vector<mask> v(classic_table(), classic_table() + table_size);
      for (int c = 0x80; c < 0x100; ++c) v[static_cast<size_t>(c)] |= c == 0xa0 || c == 0x85 ? space : alpha;
      v['+'] |= space; v['/'] |= space; v['_'] |= digit; v[':'] |= space; v['T'] |= space;
      return v;
    }();
    return t.data();
  }
  OddCtype() : std::ctype<char>(table()) {}
  char do_toupper(char c) const override { return c == 'i' ? 'i' : std::ctype<char>::do_toupper(c); }
  char do_tolower(char c) const override { return c == 'I' ? 'I' : std::ctype<char>::do_tolower(c); }
};
struct Env {                       // the environment of an operation, restored at the end
  std::locale old = std::locale::classic();
  uint64_t stack = 0;
  explicit Env(const Step* s, bool zone) {
    if (!s) { set_now(1500000000); now_step = 1; set_zone(0); fill_on = false; return; }
    set_now(s->i("now"));
    now_step = s->i("step");
    if (zone) set_zone(s->i("tz"));
    std::locale l = std::locale::classic();
    if (s->i("loc") & 1) l = std::locale(l, new OddPunct);
    if (s->i("loc") & 2) l = std::locale(l, new OddCtype);
    old = std::locale::global(l);
    setlocale(LC_ALL, s->i("loc") & 4 ? "C.utf8" : "C");
    fill_on = true;
    fill_seed = s->u("fill");
    stack = s->u("stack");
  }
  ~Env() { std::locale::global(old); setlocale(LC_ALL, "C"); fill_on = false; }
};
Step env_step(Rng& r) {
  Step s("env");
  static const int64_t times[] = {0, 1, -1, 1500000000, 2147483647, 2147483648ll, 4294967296ll, -2208988800ll, 253402300799ll, 1699, 86399};
  s.set("now", r.chance(1, 2) ? times[r.below(11)] : static_cast<int64_t>(r.below(4000000000u)));
  s.set("step", r.chance(1, 3) ? static_cast<int64_t>(r.below(200000)) - 100000 : static_cast<int64_t>(r.below(3)));
  s.set("loc", static_cast<int64_t>(r.below(8))).set("tz", static_cast<int64_t>(r.below(static_cast<uint64_t>(kNumZones))));
  s.set("fill", static_cast<int64_t>(r.below(1000))).set("stack", static_cast<int64_t>(r.below(1000)));
  return s;
}
Plan gen15(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(1, 2);
  p.add("zone").set("i", static_cast<int64_t>(r.below(static_cast<uint64_t>(kNumZones))));
  Step s = db_step(r, x, 1, swarm(r, fAllFeats));
  s.set("lseed", static_cast<int64_t>(r.below(1000))).set("l", r.chance(1, 2) ? 0 : static_cast<int64_t>(r.next() & ref::lAllLayout));
  p.steps.push_back(s);
  p.steps.push_back(env_step(r));
  p.steps.push_back(env_step(r));
  switch (r.below(4)) {
    case 0: p.add("hostile"); gen_mutations(r, x, p); break;
    case 1: p.add("defaults"); break;
    default: p.add("save"); break;
  }
  if (r.chance(1, 3)) p.add("defaults");
  return p;
}
template <class T> std::string with_garbage(uint64_t seed, const std::function<std::string(T&)>& look) {
  std::vector<uint64_t> mem(sizeof(T) / 8 + 2);
  Rng g(seed);
  for (auto& w : mem) w = seed % 3 == 0 ? 0 : seed % 3 == 1 ? ~0ull : g.next();
  T* o = new (mem.data()) T();
  std::string t = look(*o);
  o->~T();
  return t;
}
std::string defaults() {           // everything that default construction determines
  ModelDb m;
  std::string t;
  uint64_t s = fill_seed;
  t += with_garbage<kp::Database>(s, [](kp::Database& d) { d.set_root(nullptr); return dump(extract(d, true), kKdbx) + std::to_string(d.compress()) + std::to_string(d.transform_rounds()) + hex(d.transform_seed().data(), 32) + hex(d.init_vector().data(), 16) + hex(d.inner_random_stream_key().data(), 32) + std::to_string(d.master_seed().size()) + std::to_string(static_cast<int>(d.cipher())); });
  auto in_db = [](const std::function<void(kp::Database&)>& f) { kp::Database d; d.set_meta(std::make_shared<kp::Metadata>()); d.set_root(std::make_shared<kp::Group>()); f(d); return dump(extract(d, true), kKdbx) + dump(extract(d, false), kKdb); };
  t += in_db([](kp::Database&) {});
  t += in_db([](kp::Database& d) { d.root()->AddEntry(std::make_shared<kp::Entry>()); });
  t += in_db([](kp::Database& d) { auto e = std::make_shared<kp::Entry>(); auto a = std::make_shared<kp::Entry::Attachment>(); a->set_binary(std::make_shared<kp::Binary>(kp::protect<std::string>())); e->AddAttachment(a); e->AddHistoryEntry(std::make_shared<kp::Entry>()); d.root()->AddEntry(e); d.root()->AddGroup(std::make_shared<kp::Group>()); });
  t += in_db([](kp::Database& d) { d.meta()->AddBinary(std::make_shared<kp::Binary>(kp::protect<std::string>())); });
  t += with_garbage<kp::Key>(s, [](kp::Key& k) { std::array<uint8_t, 32> z{}; auto a = k.Transform(z, 1, kp::Key::SubKeyResolution::kHashSubKeys), b = k.Transform(z, 1, kp::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey); return hex(a.data(), 32) + hex(b.data(), 32); });
  return t;
}
void run15(const Plan& p) {
  const Step* z = p.find("zone");
  set_zone(z ? z->i("i") : 0);
  const Step *s = p.find("db"), *ea = p.find("env", 0), *eb = p.find("env", 1);
  bool x = db_opt(s).kdbx;
  ModelDb m = db_model(s);
  Rng r(mix64(p.seed, 5));
  ref::Key rk = gen_key(r);
  kp::Key key = make_key(rk);
  struct R { Out o; std::string text; };
  auto in = [&](const Step* e, const std::function<void()>& f, R& res) {
    seed_entropy(77);
    Env env(e, x);
    res.o = attempt({}, [&] { smear_stack(env.stack); f(); });
  };
  for (auto& st : p.steps) {
    if (st.op == "defaults") {
      R a, b;
      in(ea, [&] { a.text = defaults(); }, a);
      in(eb, [&] { b.text = defaults(); }, b);
      if (a.o.cls != b.o.cls || a.text != b.text) fail("defaults-differ", "objects constructed in two environments differ: " + a.o.str() + "/" + b.o.str() + " " + first_diff(a.text, b.text));
      ev_str("defaults", a.text);
    } else if (st.op == "hostile") {
      ref::Key hk;
      hk.has_pw = true;
      hk.pw = "pw";
      kp::Key k2 = make_key(hk);
      fs.put(kFile, forge_hostile(p, s, hk));
      R v[3];
      int i = 0;
      for (const Step* e : {ea, eb, ea}) {
        std::unique_ptr<kp::Database> db;
        in(e, [&] { if (x) { kp::KdbxFile f; db = f.Import(kFile, k2); } else { kp::KdbFile f; db = f.Import(kFile, k2); } }, v[i]);
        if (v[i].o.ok) v[i].text = dump(extract(*db, x), x ? kKdbx : kKdb);
        ++i;
      }
      count(std::string("hostile:") + (v[0].o.ok ? "accepted" : v[0].o.cls));
      state(mix64(hash_str(v[0].o.cls), 3));
      if (v[0].o.cls != v[1].o.cls) fail("outcome-differs", "a load reports " + v[0].o.str() + " in one environment and " + v[1].o.str() + " in another");
      if (v[0].text != v[1].text) fail("load-differs", first_diff(v[0].text, v[1].text));
      if (v[0].o.cls != v[2].o.cls || v[0].text != v[2].text) fail("load-differs-later", "repeated in the same environment: " + v[0].o.str() + "/" + v[2].o.str() + " " + first_diff(v[0].text, v[2].text));
    } else if (st.op == "save") {
      R a, b;
      std::unique_ptr<kp::Database> da, db;
      in(ea, [&] { da = build(m); Files f; if (x) f.kdbx.Export(kFile, *da, key); else f.kdb.Export(kFile, *da, key); }, a);
      std::string fa = fs.has(kFile) ? fs.get(kFile) : "";
      in(eb, [&] { db = build(m); Files f; if (x) f.kdbx.Export("/d/b.db", *db, key); else f.kdb.Export("/d/b.db", *db, key); }, b);
      std::string fb = fs.has("/d/b.db") ? fs.get("/d/b.db") : "";
      if (a.o.cls != b.o.cls) fail("outcome-differs", "a save reports " + a.o.str() + " in one environment and " + b.o.str() + " in another");
      if (!a.o.ok) continue;
      auto plain = [&](const std::string& f) {
        try {
          if (x) { ref::KdbxParts q = ref::kdbx_open(f, rk); return q.payload + "|" + std::to_string(q.compress) + std::to_string(q.rounds) + q.master_seed + q.iv + q.tseed + q.inner_key; }
          ref::KdbParts q = ref::kdb_open(f, rk);
          return q.content + "|" + std::to_string(q.groups) + "," + std::to_string(q.entries) + "," + std::to_string(q.rounds) + std::to_string(q.flags) + q.master_seed + q.iv + q.tseed;
        } catch (ref::Err& e) { return std::string("unreadable: ") + e.what(); }
      };
      // The header hash covers the random start bytes, which are the same here.
      std::string pa = plain(fa), pb = plain(fb);
      if (pa != pb) {
        size_t i = 0;
        while (i < pa.size() && i < pb.size() && pa[i] == pb[i]) ++i;
        i = i < 40 ? 0 : i - 40;
        fail("saved-content-differs", "what a save stores differs between two environments: " + quote(pa.substr(i, 90)) + " / " + quote(pb.substr(i, 90)));
      }
      for (const char* path : {kFile, "/d/b.db"}) for (const Step* e : {ea, eb}) {
        R l;
        std::unique_ptr<kp::Database> q;
        in(e, [&] { Files f; q = x ? f.kdbx.Import(path, key) : f.kdb.Import(path, key); }, l);
        if (!l.o.ok) fail("load-fails", "a saved file is refused in another environment: " + l.o.str());
        std::string d = differs(m, *q, x);
        if (!d.empty()) fail("load-differs", d);
        state(mix64(x, path[3]));
      }
    }
  }
}

// ---- C16 -------------------------------------------------------------------------------------------------------
const char kMarker[] = "Zq7#sEcReT";
struct Capture {                   // everything that reaches the standard output and error
  int fd = -1, old1 = -1, old2 = -1;
  Capture() {
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    fd = memfd_create("out", 0);
    old1 = dup(1);
    old2 = dup(2);
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<intptr_t>(old2)));
    dup2(fd, 1);
    dup2(fd, 2);
  }
  std::string end() {
    if (fd < 0) return "";
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); std::clog.flush();
    dup2(old1, 1);
    dup2(old2, 2);
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<intptr_t>(2)));
    std::string s;
    char b[4096];
    off_t at = 0;
    for (ssize_t n; (n = pread(fd, b, sizeof b, at)) > 0; at += n) s.append(b, static_cast<size_t>(n));
    close(old1);
    close(old2);
    close(fd);
    fd = -1;
    return s;
  }
  ~Capture() { end(); }
};
struct Secrets {
  std::vector<std::pair<std::string, std::string>> v;   // name, bytes
  std::unordered_map<uint64_t, std::string> parts;      // any 8 bytes of a key
  void add_key(const std::string& name, const std::string& s) {
    add(name, s);
    for (size_t i = 0; i + 8 <= s.size(); ++i) { uint64_t w; memcpy(&w, s.data() + i, 8); parts[w] = "a part of the " + name; }
  }
  const std::string* part_in(const std::string& hay) const {
    for (size_t i = 0; i + 8 <= hay.size(); ++i) {
      uint64_t w;
      memcpy(&w, hay.data() + i, 8);
      auto it = parts.find(w);
      if (it != parts.end()) return &it->second;
    }
    return nullptr;
  }
  void add(const std::string& name, const std::string& s) {
    if (s.size() < 8) return;
    v.push_back({name, s});
    for (size_t a = 0; a < 3; ++a) {  // base64 at each alignment, without the characters that share bits with neighbours
      std::string b = ref::b64(std::string(a, 'x') + s);
      while (!b.empty() && b.back() == '=') b.pop_back();
      size_t from = a ? 4 : 0, cut = (a + s.size()) % 3 ? 1 : 0;
      if (b.size() > from + cut + 8) v.push_back({name + " (base64)", b.substr(from, b.size() - from - cut)});
    }
    std::string h = hex(s.data(), s.size()), u = h;
    for (auto& c : u) c = static_cast<char>(toupper(c));
    v.push_back({name + " (hex)", h});
    v.push_back({name + " (hex)", u});
  }
  const std::string* in(const std::string& hay) const {
    for (auto& s : v) if (hay.find(s.second) != std::string::npos) return &s.first;
    return nullptr;
  }
};
// 12-byte pieces of the plain content that are distinctive enough never to occur by accident.
void windows(const std::string& d, std::unordered_set<std::string>& o) {
  for (size_t i = 0; i + 12 <= d.size() && i < 200000; ++i) {
    bool seen[256] = {};
    int n = 0;
    for (size_t k = i; k < i + 12; ++k) if (!seen[static_cast<uint8_t>(d[k])]) { seen[static_cast<uint8_t>(d[k])] = true; ++n; }
    if (n >= 7) o.insert(d.substr(i, 12));
  }
}
const int kDocs = 2;                                  // hostile documents loaded by one operation
Plan gen16(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(1, 2);
  Step s = db_step(r, x, 1, swarm(r));
  p.steps.push_back(s);
  static const std::vector<int> all = {F_WRITE, F_WRITE, F_OPEN, F_CLOSE, F_SHORT_W, F_EINTR_W, F_ALLOC, F_ALLOC, F_ENTROPY, F_READ, F_SHORT_R, F_SHRINK};
  for (size_t n = 1 + r.below(4); n-- > 0;) {
    Step o("op");
    int64_t kind = static_cast<int64_t>(r.below(8));
    o.set("kind", kind);
    o.set("reuse", r.chance(1, 2));
    if (kind == 7) o.set("hs", static_cast<int64_t>(r.below(1000000)));
    if (kind == 7 && !p.find("mut")) {
      Step& d = p.steps[0];
      d.set("lseed", static_cast<int64_t>(r.below(1000))).set("l", r.chance(1, 2) ? 0 : static_cast<int64_t>(r.next() & ref::lAllLayout));
      gen_mutations(r, x, p);
    }
    if (r.chance(1, 2)) { Step f = fault_step(r, all); for (auto& kv : f.kv) o.sets(kv.first == "kind" ? "fault" : kv.first, kv.second); }
    p.steps.push_back(o);
  }
  return p;
}
void run16(const Plan& p) {
  const Step* s = p.find("db");
  GenOpt opt = db_opt(s);
  opt.marker = kMarker;
  ModelDb m = generate(opt);
  bool x = opt.kdbx;
  if (m.rounds < 1) m.rounds = 1;
  // Nothing of the content may be found in the header by accident.
  Rng r(mix64(p.seed, 5));
  ref::Key rk = gen_key(r, static_cast<int>(r.below(3)));
  if (rk.has_pw) rk.pw = "PaSs" + std::string(kMarker) + rk.pw;
  if (rk.has_kf) rk.kf = r.bytes(32);
  kp::Key key = make_key(rk);
  auto db = build(m);
  Secrets sec;
  sec.add("content or password", kMarker);
  if (rk.has_pw) { sec.add("password", rk.pw); sec.add_key("password hash", ref::sha256(rk.pw)); }
  if (rk.has_kf) sec.add_key("key-file key", rk.kf);
  std::string comp = x ? ref::kdbx_key(rk) : ref::kdb_key(rk), ecb = ref::aes_ecb_rounds(m.tseed, comp, m.rounds), trans = ref::sha256(ecb);
  sec.add_key("composite key", comp);
  sec.add_key("transformed key", ecb);
  sec.add_key("transformed key hash", trans);
  sec.add_key("final key", ref::sha256(m.master_seed + trans));
  std::string kfile = "/k/secret.key";
  Rng kr(7);
  std::string kfkey = kr.bytes(32);
  fs.put(kfile, ref::keyfile_xml(kfkey, kr));
  sec.add_key("key-file key", kfkey);
  Files reused;
  auto bad_doc = [&](const Step& st, int i) { return "/d/bad" + std::to_string(&st - &p.steps[0]) + "-" + std::to_string(i) + ".db"; };
  for (auto& st : p.steps) if (st.op == "op" && st.i("kind") == 7) for (int i = 0; i < kDocs; ++i) {
    Plan q = p;
    for (auto& t : q.steps) if (t.op == "mut") { int64_t n = t.i("seed") + st.i("hs") + i * 7919; t.kv.clear(); const Step& was = p.steps[static_cast<size_t>(&t - &q.steps[0])]; t.set("lv", was.i("lv")).set("kind", was.i("kind")).set("seed", n); }
    fs.put(bad_doc(st, i), forge_hostile(q, s, rk, kMarker));
  }
  { Out o = save(x, "/d/first.db", *db, key); if (!o.ok) return; }   // for loads
  for (auto& st : p.steps) {
    if (st.op != "op") continue;
    Files fresh;
    Files& f = st.i("reuse") ? reused : fresh;
    int kind = static_cast<int>(st.i("kind"));
    std::string dest = kind == 1 ? "/nowhere/../d/two.db" : kFile;
    kp::Key wrong("wrong password");
    auto body = [&](Files& q) {
      switch (kind) {
        case 0: case 1: case 2: if (x) q.kdbx.Export(dest, *db, key); else q.kdb.Export(dest, *db, key); break;
        case 3: if (x) q.kdbx.Import("/d/first.db", key); else q.kdb.Import("/d/first.db", key); break;
        case 4: if (x) q.kdbx.Import("/d/first.db", wrong); else q.kdb.Import("/d/first.db", wrong); break;
        case 7:
          for (int i = 0; i < kDocs; ++i) {                  // each is refused or accepted on its own
            try { if (x) q.kdbx.Import(bad_doc(st, i), key); else q.kdb.Import(bad_doc(st, i), key); } catch (std::exception&) { if (i + 1 == kDocs) throw; }
          }
          break;
        case 5: { kp::Key k; k.SetPassword(std::string("PaSs") + kMarker); k.SetKeyFile(kfile); break; }
        default: if (x) q.kdb.Import("/d/first.db", key); else q.kdbx.Import("/d/first.db", key); break;
      }
    };
    std::vector<Fault> faults;
    if (st.i("fault")) {
      Fs keep = fs;
      Files q;
      Out base = attempt({}, [&] { body(q); });
      fs = keep;
      Step g("fault");
      for (auto& kv : st.kv) if (kv.first != "kind") g.sets(kv.first == "fault" ? "kind" : kv.first, kv.second);
      Fault ft = place(g, base.st);
      if (ft.kind) faults.push_back(ft);
    }
    Fs before = fs;
    std::string out;
    Out o;
    {
      Capture cap;
      o = attempt(faults, [&] { body(f); });
      out = cap.end();
    }
    count(std::string("op:") + std::to_string(kind) + (o.ok ? ":ok" : ":failed"));
    state(mix64(hash_str(o.cls), static_cast<uint64_t>(kind * 64 + st.i("fault"))));
    bool saving = kind <= 2;
    for (auto& kv : fs.dir) {
      if (kv.first == "/dev/urandom" || (saving && kv.first == dest)) continue;
      auto it = before.dir.find(kv.first);
      if (it == before.dir.end()) fail("another-file", (saving ? "a save" : "a load") + std::string(" leaves another file: ") + kv.first);
      bool shrunk = false;
      for (auto& q : o.faults) shrunk |= q.kind == F_SHRINK && q.fired;
      if (!shrunk && fs.get(kv.first) != before.get(kv.first)) fail("another-file-changed", (saving ? "a save" : "a load") + std::string(" changes another file: ") + kv.first);
    }
    for (auto& kv : before.dir) if (!fs.has(kv.first) && kv.first != dest) fail("file-removed", "a file is gone: " + kv.first);
    if (!saving) for (auto& j : journal) if (j.path != "/dev/urandom") fail("load-writes", "a load or key-file load modifies the disk: " + j.path);
    std::unordered_set<std::string> win;
    if (saving && o.ok && fs.has(dest)) {
      try {
        if (x) { ref::KdbxParts q = ref::kdbx_open(fs.get(dest), rk); windows(q.payload, win); windows(q.blocks, win); }
        else windows(ref::kdb_open(fs.get(dest), rk).content, win);
      } catch (ref::Err& e) { if (faults.empty()) fail("unreadable-file", std::string("the reference reader: ") + e.what()); }
    }
    std::map<std::string, std::string> written;
    for (auto& j : journal) if (j.kind == JOp::kWrite) {
      std::string& w = written[j.path];
      if (w.size() < static_cast<size_t>(j.off) + j.data.size()) w.resize(static_cast<size_t>(j.off) + j.data.size());
      memcpy(&w[0] + j.off, j.data.data(), j.data.size());
      if (const std::string* q = sec.in(j.data)) fail("secret-in-file", *q + " is in a write to " + j.path);
    }
    for (auto& w : written) {
      if (const std::string* q = sec.in(w.second)) fail("secret-in-file", *q + " is in what was written to " + w.first);
      if (const std::string* q = sec.part_in(w.second)) fail("secret-in-file", *q + " is in what was written to " + w.first);
      if (!win.empty()) for (size_t i = 0; i + 12 <= w.second.size(); ++i) if (win.count(w.second.substr(i, 12))) fail("plain-content-in-file", "12 bytes of the content are unencrypted at offset " + std::to_string(i) + " of " + w.first + ": " + quote(w.second.substr(i, 12)));
    }
    if (const std::string* q = sec.in(out)) fail("secret-on-terminal", *q + " is in the standard output or error: " + quote(out.substr(0, 200)));
    if (!out.empty()) count("terminal_output");
    fs = before;
    if (saving && o.ok) fs.put(kFile, "older content");
  }
}

// ---- C17 -------------------------------------------------------------------------------------------------------
struct Sink : std::streambuf {     // takes `limit` bytes, then fails in the given way
  std::string data;
  int64_t limit = -1;
  int how = 0;                     // 0 refuse, 1 throw, 2 refuse once
  bool fired = false;
  bool room(size_t n) { return limit < 0 || static_cast<int64_t>(data.size() + n) <= limit || (how == 2 && fired); }
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return 0;
    if (!room(1)) { fired = true; if (how == 1) throw std::runtime_error("sink"); return traits_type::eof(); }
    data += static_cast<char>(c);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    size_t k = static_cast<size_t>(n);
    if (room(k)) { data.append(s, k); return n; }
    fired = true;
    size_t part = static_cast<size_t>(limit) > data.size() ? static_cast<size_t>(limit) - data.size() : 0;
    data.append(s, part);
    if (how == 1) throw std::runtime_error("sink");
    return static_cast<std::streamsize>(part);
  }
  int sync() override { return 0; }
};
struct Source : std::streambuf {   // hands out `data` in pieces and may fail at `limit`
  std::string data;
  size_t at = 0;
  int64_t limit = -1;
  size_t piece = 0;
  bool fired = false;
  Rng r{1};
  std::string buf;
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (limit >= 0 && static_cast<int64_t>(at) >= limit) { fired = true; throw std::runtime_error("source"); }
    if (at >= data.size()) return traits_type::eof();
    size_t n = piece ? 1 + r.below(piece) : 65536;
    if (n > data.size() - at) n = data.size() - at;
    if (limit >= 0 && static_cast<int64_t>(at + n) > limit) n = static_cast<size_t>(limit) - at;
    buf = data.substr(at, n);
    at += n;
    setg(&buf[0], &buf[0], &buf[0] + n);
    return traits_type::to_int_type(*gptr());
  }
};
std::string payload(const Step* s) {
  Rng r(mix64(s ? s->u("seed") : 1, 9));
  size_t n = s ? static_cast<size_t>(s->i("n")) : 10;
  if (n > 4000000) n = 4000000;
  switch (s ? s->i("kind") : 0) {
    case 0: return r.bytes(n);
    case 1: return std::string(n, static_cast<char>(r.byte()));
    case 2: { std::string d; while (d.size() < n) d += "line " + std::to_string(r.below(1000)) + "\n"; d.resize(n); return d; }
    default: { std::string d; while (d.size() < n) d += r.chance(1, 2) ? r.bytes(r.below(3000)) : std::string(r.below(30000), 'a'); d.resize(n); return d; }
  }
}
Plan gen17(Rng& r, uint64_t) {
  Plan p;
  static const int64_t unit[] = {16384, 8192, 1024, 16, 64, 4096, 65536};
  int64_t n;
  switch (r.below(5)) {
    case 0: n = static_cast<int64_t>(r.below(40)); break;
    case 1: n = unit[r.below(7)] * static_cast<int64_t>(r.below(6)) + static_cast<int64_t>(r.below(3)) - 1; break;
    case 2: n = static_cast<int64_t>(r.below(200000)); break;
    default: n = static_cast<int64_t>(r.below(20000)); break;
  }
  if (r.chance(1, 60)) n = (1 << 20) * static_cast<int64_t>(1 + r.below(2)) + static_cast<int64_t>(r.below(3)) - 1;
  if (n < 0) n = 0;
  p.add("data").set("n", n).set("kind", static_cast<int64_t>(r.below(4))).set("seed", static_cast<int64_t>(r.below(1000000)));
  int layers = static_cast<int>(r.below(3));           // 0 blocks, 1 gzip, 2 gzip in blocks
  int64_t block = r.chance(1, 4) ? 0 : r.chance(1, 3) ? static_cast<int64_t>(1 + r.below(20)) : r.chance(1, 2) ? unit[r.below(7)] : static_cast<int64_t>(1 + r.below(5000));
  if (block && n / block > 20000) block = n / 20000 + 1;
  Step w("write");
  w.set("foreign", r.chance(1, 5)).set("seed", static_cast<int64_t>(r.below(1000000)));
  if (r.chance(1, 3)) {
    w.set("limit", static_cast<int64_t>(r.below(1000001))).set("how", static_cast<int64_t>(r.below(3)));
    if (r.chance(1, 3)) w.set("tail", static_cast<int64_t>(1 + r.below(90)));       // in the last bytes: trailers
    else if (block && r.chance(1, 3)) w.set("edge", static_cast<int64_t>(r.below(1000000)));  // where blocks meet
  }
  p.add("stack").set("layers", layers).set("block", block);
  p.steps.push_back(w);
  if (r.chance(1, 2)) p.add("damage").set("kind", static_cast<int64_t>(r.below(8))).set("pos", static_cast<int64_t>(r.below(1000001))).set("arg", static_cast<int64_t>(r.below(1000)));
  Step q("read");
  q.set("seed", static_cast<int64_t>(r.below(1000000))).set("mode", static_cast<int64_t>(r.below(3))).set("piece", r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : static_cast<int64_t>(1 + r.below(3000)));
  if (r.chance(1, 4)) q.set("limit", static_cast<int64_t>(r.below(1000001)));
  p.steps.push_back(q);
  if (r.chance(1, 6)) p.add("veil").set("seed", static_cast<int64_t>(r.below(1000000))).set("n", static_cast<int64_t>(1 + r.below(60)));
  return p;
}
// The protected-value stream: values of any size in sequence, written with one obfuscator and read with another.
void veil(const Step& st) {
  Rng r(mix64(st.u("seed"), 23));
  std::string key = r.bytes(32), iv = r.bytes(8);
  std::array<uint8_t, 32> k;
  std::array<uint8_t, 8> v;
  memcpy(k.data(), key.data(), 32);
  memcpy(v.data(), iv.data(), 8);
  bool big = r.chance(1, 8);
  int64_t n = st.i("n");
  ref::Salsa20 want(key, iv);
  kp::RandomObfuscator to(k, v), from(k, v);
  auto run = [&](kp::RandomObfuscator& o, const std::string& d, bool vec) {
    if (!vec) return o.Process(d);
    std::vector<uint8_t> q = o.Process(std::vector<uint8_t>(d.begin(), d.end()));
    return std::string(q.begin(), q.end());
  };
  for (int64_t i = 0; i < n; ++i) {
    std::string d = r.bytes(r.chance(1, 6) ? 64 * r.below(4) : r.chance(1, 10) ? r.below(big ? 60000 : 3000) : r.below(90)), e, f;
    bool v1 = r.chance(1, 3), v2 = r.chance(1, 3);
    Out o = attempt({}, [&] { e = run(to, d, v1); f = run(from, e, v2); });
    ev_str("veil", e);
    if (!o.ok) fail("protected-stream-error", o.str());
    if (e != want.process(d)) fail("protected-stream-differs", "value " + std::to_string(i) + " of " + std::to_string(d.size()) + " bytes is not covered by the key stream's next bytes");
    if (f != d) fail("protected-stream-lost", "value " + std::to_string(i) + " of " + std::to_string(d.size()) + " bytes is not recovered");
  }
  count("protected_values", static_cast<uint64_t>(n));
}
void put_chunks(std::ostream& o, const std::string& d, Rng& r, int style) {
  for (size_t i = 0; i < d.size() && o.good();) {
    size_t left = d.size() - i, n = 1;
    switch (style) {
      case 0: n = left; break;
      case 1: n = 1; break;
      case 2: n = 1 + r.below(100); break;
      default: n = r.chance(1, 2) ? 1 + r.below(20) : 1 + r.below(40000); break;
    }
    if (n > left) n = left;
    if (n == 1) o.put(d[i]); else o.write(d.data() + i, static_cast<std::streamsize>(n));
    i += n;
  }
}
void run17(const Plan& p) {
  const Step *ds = p.find("data"), *ss = p.find("stack"), *ws = p.find("write"), *rs = p.find("read"), *gs = p.find("damage");
  if (const Step* vs = p.find("veil")) veil(*vs);
  std::string d = payload(ds);
  int layers = ss ? static_cast<int>(ss->i("layers")) : 0;
  uint32_t block = ss ? static_cast<uint32_t>(ss->i("block")) : 0;
  bool gz = layers >= 1, hashed = layers != 1;
  Rng r(mix64(ws ? ws->u("seed") : 1, 21));
  std::string enc;
  auto decode = [&](const std::string& e, std::string& out) {      // the reference
    out = e;
    if (hashed) {
      std::string o;
      size_t i = 0;
      for (uint32_t idx = 0;; ++idx) {
        if (e.size() < i + 40) return false;
        uint32_t bi, bn;
        memcpy(&bi, e.data() + i, 4);
        memcpy(&bn, e.data() + i + 36, 4);
        std::string h = e.substr(i + 4, 32);
        i += 40;
        if (bi != idx) return false;
        if (bn == 0) { if (h != std::string(32, '\0') || i != e.size()) return false; break; }
        if (bn > e.size() - i) return false;
        std::string b = e.substr(i, bn);
        if (ref::sha256(b) != h) return false;
        o += b;
        i += bn;
      }
      out = o;
    }
    if (gz) { std::string o; if (!ref::gunzip(out, o)) return false; out = o; }
    return true;
  };
  if (ws && ws->i("foreign")) {
    std::string y = gz ? ref::gzip(d, static_cast<int>(r.below(10)), r.chance(1, 2) ? 1 + r.below(d.size() + 1) : 0, static_cast<int>(r.below(4)), 1 + static_cast<int>(r.below(9)), r.chance(1, 3)) : d;
    enc = hashed ? ref::kdbx_blocks(y, block ? block : 1 << 20) : y;
  } else {
    int style = static_cast<int>(r.below(4));
    auto write = [&](Sink& sink, Out& o, bool& good) {
      Rng w(mix64(r.s, 4));
      o = attempt({}, [&] {
        std::ostream base(&sink);
        std::unique_ptr<kp::hashed_ostreambuf> hb;
        std::unique_ptr<std::ostream> hs;
        std::ostream* top = &base;
        if (hashed) { hb.reset(block ? new kp::hashed_ostreambuf(base, block) : new kp::hashed_ostreambuf(base)); hs.reset(new std::ostream(hb.get())); top = hs.get(); }
        good = true;
        if (gz) {
          kp::gzip_ostreambuf gb(*top);
          std::ostream g(&gb);
          put_chunks(g, d, w, style);
          g.flush();
          good = g.good();
        } else put_chunks(*top, d, w, style);
        if (hashed) { top->flush(); good = good && top->good(); }
      });
      ev("written", good, static_cast<int64_t>(sink.data.size()));
      ev_str("sink", sink.data);
    };
    Sink whole;
    Out o;
    bool good = false;
    write(whole, o, good);
    if (!o.ok || !good) fail("healthy-write-fails", "writing " + std::to_string(d.size()) + " bytes to a healthy stream reports " + (o.ok ? "failure" : o.str()));
    std::string back;
    if (!decode(whole.data, back)) fail("written-data-undecodable", "the reference decoder refuses what was written, " + std::to_string(d.size()) + " bytes");
    if (back != d) fail("written-data-differs", "the reference decoder finds " + std::to_string(back.size()) + " other bytes than the " + std::to_string(d.size()) + " written");
    if (ws && ws->i("limit")) {
      Sink bad;
      bad.limit = static_cast<int64_t>(whole.data.size()) * ws->i("limit") / 1000001;
      int64_t total = static_cast<int64_t>(whole.data.size());
      if (ws->i("tail")) bad.limit = std::max<int64_t>(0, total - ws->i("tail"));
      else if (ws->i("edge") && block) bad.limit = std::min(total, std::max<int64_t>(0, ws->i("edge") % (total / (block + 40) + 1) * (block + 40) + ws->i("edge") % 83 - 41));
      bad.how = static_cast<int>(ws->i("how"));
      Out q;
      bool g2 = false;
      write(bad, q, g2);
      count(std::string("fault:sink_") + (bad.how == 0 ? "refuses" : bad.how == 1 ? "throws" : "refuses_once"), bad.fired);
      if (q.ok && g2 && bad.fired) fail("write-failure-unreported", "the underlying stream failed after " + std::to_string(bad.limit) + " of " + std::to_string(whole.data.size()) + " bytes and the writer reports success");
      state(mix64(q.ok, mix64(g2, bad.fired * 8u + static_cast<unsigned>(layers))));
    }
    enc = whole.data;
  }
  std::string in = enc;
  bool damaged = false;
  if (gs && !in.empty()) {
    size_t pos = static_cast<size_t>(static_cast<__int128>(in.size()) * gs->i("pos") / 1000001), arg = static_cast<size_t>(gs->i("arg"));
    Rng q(mix64(arg, 31));
    switch (gs->i("kind")) {
      case 0: in.resize(pos); break;
      case 1: in[pos] ^= static_cast<char>(1u << arg % 8); break;
      case 2: for (size_t i = 0; i < 1 + arg % 20 && pos + i < in.size(); ++i) in[pos + i] = static_cast<char>(q.byte()); break;
      case 3: in.erase(pos, 1 + arg % 50); break;
      case 4: in.insert(pos, q.bytes(1 + arg % 50)); break;
      case 5: in.resize(in.size() - 1 - arg % 60 % in.size()); break;
      case 6: if (hashed && block) {                    // whole blocks lost, doubled, exchanged
        size_t u = block + 40u, nb = in.size() / u;
        if (nb) { size_t i = pos / u % nb; std::string b = in.substr(i * u, u); if (arg % 3 == 0) in.erase(i * u, u); else if (arg % 3 == 1) in.insert(i * u, b); else if (nb > 1) { size_t k = (i + 1) % nb; std::string c = in.substr(k * u, u); in.replace(i * u, u, c); in.replace(k * u, u, b); } }
        break;
      }
      [[fallthrough]];
      default: if (hashed && in.size() > 40) { in.resize(in.size() - 40); if (arg % 2) in += std::string(40, '\0'); } else in[in.size() - 1 - pos % (in.size() < 8 ? in.size() : 8)] ^= static_cast<char>(1u << arg % 8); break;
    }
    damaged = in != enc;
    if (damaged) count("fault:stream_damaged");
  }
  if (in.empty() && gz && !hashed) return;              // no data at all: the compressed form of no data
  Source src;
  src.data = in;
  src.piece = rs ? static_cast<size_t>(rs->i("piece")) : 0;
  src.r = Rng(rs ? rs->u("seed") : 1);
  if (rs && rs->i("limit")) src.limit = static_cast<int64_t>(static_cast<__int128>(in.size() + 1) * rs->i("limit") / 1000001);
  std::string got;
  bool bad = false;
  int mode = rs ? static_cast<int>(rs->i("mode")) : 0;
  Out o = attempt({}, [&] {
    Rng w(mix64(rs ? rs->u("seed") : 1, 5));
    std::istream base(&src);
    std::unique_ptr<kp::hashed_istreambuf> hb;
    std::unique_ptr<std::istream> hs;
    std::istream* top = &base;
    if (hashed) { hb.reset(new kp::hashed_istreambuf(base)); hs.reset(new std::istream(hb.get())); top = hs.get(); }
    std::unique_ptr<kp::gzip_istreambuf> gb;
    std::unique_ptr<std::istream> g;
    if (gz) { gb.reset(new kp::gzip_istreambuf(*top)); g.reset(new std::istream(gb.get())); top = g.get(); }
    int style = static_cast<int>(w.below(4));
    std::string tmp(70000, '\0');
    if (mode == 0) {                                    // through the formatted stream: errors show as its state
      while (top->good()) {
        size_t n = style == 0 ? 65536 : style == 1 ? 1 : style == 2 ? 1 + w.below(100) : w.chance(1, 2) ? 1 + w.below(20) : 1 + w.below(40000);
        if (n == 1) { int c = w.chance(1, 3) ? (top->peek(), top->get()) : top->get(); if (c != EOF) got += static_cast<char>(c); }
        else { top->read(&tmp[0], static_cast<std::streamsize>(n)); got.append(tmp, 0, static_cast<size_t>(top->gcount())); }
      }
      bad = top->bad();
    } else if (mode == 1) {                             // the way the library reads
      std::copy(std::istreambuf_iterator<char>(*top), std::istreambuf_iterator<char>(), std::back_inserter(got));
      bad = !top->good();
    } else {                                            // straight from the buffer
      std::streambuf* b = top->rdbuf();
      for (;;) {
        size_t n = style == 0 ? 65536 : style == 1 ? 1 : 1 + w.below(style == 2 ? 100 : 40000);
        std::streamsize k = b->sgetn(&tmp[0], static_cast<std::streamsize>(n));
        got.append(tmp, 0, static_cast<size_t>(k));
        if (k < static_cast<std::streamsize>(n)) break;
      }
    }
  });
  if (src.fired) count("fault:source_fails");
  ev("read", o.ok, bad);
  ev_str("got", got);
  state(mix64(hash_str(o.cls + o.what), mix64(bad, static_cast<uint64_t>(layers * 4 + mode))));
  bool error = !o.ok || bad;
  if (!error && got != d) fail("altered-data-delivered", "a reader without error delivered " + std::to_string(got.size()) + " bytes that differ from the " + std::to_string(d.size()) + " written" + (damaged ? ", its input was damaged" : src.fired ? ", its source failed" : ""));
  if (error && !damaged && !src.fired) fail("healthy-read-fails", "reading intact data of " + std::to_string(d.size()) + " bytes reports " + (o.ok ? "failure" : o.str()));
  if (!o.ok && (o.cls == "other" || o.cls == "bad_alloc")) fail("wrong-error", o.str());
}

// ---- C18 -------------------------------------------------------------------------------------------------------
Plan gen18(Rng& r, uint64_t idx) {
  Plan p;
  p.add("world").set("entropy", static_cast<int64_t>(r.below(1000000000))).set("now", static_cast<int64_t>(r.below(2000000000))).set("step", r.chance(1, 3) ? 0 : static_cast<int64_t>(r.below(3)));
  if (idx % 16 == 3) {
    p.add("restart").set("kind", static_cast<int64_t>(r.below(3))).set("n", static_cast<int64_t>(1 + r.below(6))).set("e2", static_cast<int64_t>(r.below(1000000000))).set("now2", static_cast<int64_t>(r.below(2000000000))).set("prefix", r.chance(1, 2) ? 0 : 1);
    return p;
  }
  size_t n = 1 + r.below(3);
  for (size_t i = 0; i < n; ++i) switch (r.below(4)) {
    case 0: p.add("ids").set("kind", static_cast<int64_t>(r.below(2))).set("n", static_cast<int64_t>(2 + r.below(2000))); break;
    case 1: p.add("saves").set("n", static_cast<int64_t>(2 + r.below(5))).set("reuse", r.chance(1, 2)).set("seed", static_cast<int64_t>(r.below(1000))); break;
    case 2: p.add("fault").set("what", static_cast<int64_t>(r.below(3))).set("at", static_cast<int64_t>(r.below(60))).set("persist", r.chance(1, 2)); break;
    default: p.add("clock").set("what", static_cast<int64_t>(r.below(3))).set("now2", static_cast<int64_t>(r.below(2000000000))).set("e2", static_cast<int64_t>(r.below(1000000000))); break;
  }
  if (idx % 16 == 5) p.add("many").set("n", static_cast<int64_t>(30 + r.below(idx % 160 == 5 ? 1500 : 120))).set("reuse", r.chance(1, 2)).set("ids", r.chance(1, 2));
  if (idx % 400 == 7) { p.add("ids").set("kind", static_cast<int64_t>(r.below(2))).set("n", 150000); }
  return p;
}
std::string raw(const Uuid& u) { return std::string(u.begin(), u.end()); }
// Draws: kind 0 entry identifiers, 1 group identifiers, 2 stream-start bytes of saves.
std::vector<std::string> draw(int kind, size_t n, Out& o, const std::vector<Fault>& faults = {}) {
  std::vector<std::string> v;
  if (kind < 2) {
    std::vector<std::shared_ptr<kp::Entry>> es;
    std::vector<std::shared_ptr<kp::Group>> gs;
    o = attempt(faults, [&] { for (size_t i = 0; i < n; ++i) { if (kind == 0) es.push_back(std::make_shared<kp::Entry>()); else gs.push_back(std::make_shared<kp::Group>()); } });
    for (auto& e : es) v.push_back(raw(e->uuid()));
    for (auto& g : gs) v.push_back(raw(g->uuid()));
  } else {
    GenOpt opt;
    opt.seed = 5;
    opt.groups = 1;
    ModelDb m = generate(opt);
    m.rounds = 2;
    auto db = build(m);
    ref::Key rk;
    rk.has_pw = true;
    rk.pw = "pw";
    kp::Key key = make_key(rk);
    Files f;
    for (size_t i = 0; i < n; ++i) {
      o = attempt(faults, [&] { f.kdbx.Export(kFile, *db, key); });
      if (!o.ok) break;
      v.push_back(ref::kdbx_open(fs.get(kFile), rk).start_bytes);
    }
  }
  return v;
}
void distinct(const std::vector<std::string>& v, std::unordered_set<std::string>& all, const char* what) {
  for (auto& s : v) {
    if (s == std::string(s.size(), '\0')) fail("value-not-random", std::string(what) + " is all zero");
    if (!all.insert(s).second) fail("collision", std::string("among ") + std::to_string(all.size()) + " values, the same " + what + " twice: " + hex(s.data(), s.size()));
  }
}
const char* what_of(int kind) { return kind == 2 ? "start-byte sequence" : "identifier"; }
std::vector<std::string> restart(int kind, size_t n, uint64_t entropy, int prefix, int64_t t) {
  int fd[2];
  if (pipe(fd)) fail("harness", "pipe");
  pid_t c = fork();
  if (c < 0) fail("harness", "fork");
  if (c == 0) {
    dup2(fd[1], 1);
    close(fd[0]);
    std::string a[] = {std::to_string(kind), std::to_string(n), std::to_string(entropy), std::to_string(prefix), std::to_string(t)};
    execl("/proc/self/exe", "sim", "draw", a[0].c_str(), a[1].c_str(), a[2].c_str(), a[3].c_str(), a[4].c_str(), static_cast<char*>(nullptr));
    _exit(99);
  }
  close(fd[1]);
  std::string s;
  char b[4096];
  for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) s.append(b, static_cast<size_t>(k));
  close(fd[0]);
  int st = 0;
  waitpid(c, &st, 0);
  std::vector<std::string> v;
  size_t i = 0;
  for (size_t e; (e = s.find('\n', i)) != std::string::npos; i = e + 1) { std::string x = s.substr(i, e - i), o; ref::unb64(x, o); v.push_back(o); }
  if (!WIFEXITED(st) || WEXITSTATUS(st) || v.size() != n) fail("restart-fails", "a fresh process ends with status " + std::to_string(st) + " after " + std::to_string(v.size()) + " values");
  count("restarts");
  return v;
}
void run18(const Plan& p) {
  const Step* w = p.find("world");
  uint64_t e0 = w ? w->u("entropy") : 1;
  int64_t t0 = w ? w->i("now") : 1500000000;
  seed_entropy(e0);
  set_now(t0);
  now_step = w ? w->i("step") : 0;
  std::unordered_set<std::string> all;
  Out o;
  auto ok = [&](const char* what) { if (!o.ok) fail("refused", std::string(what) + " without a fault reports " + o.str()); };
  for (auto& st : p.steps) {
    if (st.op == "ids") {
      int kind = static_cast<int>(st.i("kind") % 2);
      auto v = draw(kind, static_cast<size_t>(st.i("n") % 200001), o);
      ok("creating elements");
      distinct(v, all, what_of(kind));
      count("identifiers", v.size());
      ev_str("ids", v.empty() ? "" : v.back());
    } else if (st.op == "saves") {
      GenOpt opt;
      opt.seed = st.u("seed");
      ModelDb m = generate(opt);
      if (m.rounds > 50) m.rounds = 2;
      auto db = build(m);
      ref::Key rk;
      rk.has_pw = true;
      rk.pw = "pw";
      kp::Key key = make_key(rk);
      Files reused;
      std::unordered_set<std::string> bytes;
      for (int64_t i = 0; i < st.i("n"); ++i) {
        Files fresh;
        o = save(st.i("reuse") ? reused : fresh, true, kFile, *db, key);
        ok("a save");
        std::string b = ref::kdbx_open(fs.get(kFile), rk).start_bytes;
        distinct({b}, all, what_of(2));
        // Bytes, not something shorter repeated.
        if (!bytes.insert(b.substr(0, 8)).second || !bytes.insert(b.substr(24)).second) fail("collision", "parts of the start bytes repeat");
        Out l = load(st.i("reuse") ? reused : fresh, true, kFile, key);
        if (!l.ok) fail("load-fails", l.str());
        if (st.i("seed") % 2) db = std::move(l.db);     // saving what was loaded must not keep the old bytes
        count("saves");
      }
    } else if (st.op == "many") {
      // A long-running process: many saves, with new elements in between.
      GenOpt opt;
      opt.seed = 5;
      opt.groups = 0;
      opt.entries = 0;
      ModelDb m = generate(opt);
      m.rounds = 1;
      auto db = build(m);
      ref::Key rk;
      rk.has_pw = true;
      rk.pw = "pw";
      kp::Key key = make_key(rk);
      Files reused;
      std::unordered_set<std::string> parts;
      for (int64_t i = 0; i < st.i("n") % 5000; ++i) {
        Files fresh;
        o = save(st.i("reuse") ? reused : fresh, true, kFile, *db, key);
        ok("a save");
        std::string b = ref::kdbx_open(fs.get(kFile), rk).start_bytes;
        distinct({b}, all, what_of(2));
        for (size_t q = 0; q + 8 <= b.size(); q += 8) if (!parts.insert(b.substr(q, 8)).second) fail("collision", "part of the start bytes of save " + std::to_string(i) + " repeats");
        if (st.i("ids")) {
          auto v = draw(static_cast<int>(i % 2), 1, o);
          ok("creating an element");
          distinct(v, all, "identifier");
          for (auto& u : v) if (!parts.insert(u.substr(8)).second) fail("collision", "part of an identifier repeats");
        }
        count("saves");
      }
    } else if (st.op == "fault") {
      int kind = static_cast<int>(st.i("what") % 3);
      Fault f{F_ENTROPY, st.i("at"), 0, st.i("persist") != 0, 1, 0};
      seed_entropy(mix64(e0, 1000 + static_cast<uint64_t>(&st - &p.steps[0])));
      Fs before = fs;
      auto v = draw(kind, 2, o, {f});
      if (o.hard && o.ok) fail("entropy-failure-ignored", std::string("the entropy source failed and ") + (kind == 2 ? "the save" : "creating elements") + " succeeded");
      if (!o.ok && !o.hard) fail("refused", o.str());
      if (!o.ok && kind == 2 && v.empty() && fs.has(kFile) && (!before.has(kFile) || before.get(kFile) != fs.get(kFile))) fail("entropy-failure-destroys", "a save that failed for lack of entropy changed its destination");
      auto v2 = draw(kind, 2, o);
      ok("after an entropy failure, the operation");
      distinct(v2, all, what_of(kind));
      distinct(v, all, what_of(kind));
      state(mix64(o.hard, static_cast<uint64_t>(kind)));
    } else if (st.op == "clock") {
      // Another clock: the same values. Another state of the entropy source: other values.
      int kind = static_cast<int>(st.i("what") % 3);
      auto at = [&](uint64_t e, int64_t t) { seed_entropy(e); set_now(t); auto v = draw(kind, 3, o); ok("drawing values"); return v; };
      uint64_t e1 = mix64(e0, 11), e2 = mix64(st.u("e2"), 13);
      auto a = at(e1, t0), b = at(e1, st.i("now2")), c = at(e1, t0), d = at(e2, t0);
      if (a == c && a != b) fail("depends-on-clock", std::string("the same entropy gives another ") + what_of(kind) + " at another time");
      for (size_t i = 0; i < d.size() && i < a.size(); ++i) if (d[i] == a[i]) fail("independent-of-entropy", std::string("another state of the entropy source gives the same ") + what_of(kind));
      state(mix64(a == c, static_cast<uint64_t>(kind + 100)));
    } else if (st.op == "restart") {
      int kind = static_cast<int>(st.i("kind") % 3), prefix = static_cast<int>(st.i("prefix"));
      size_t n = static_cast<size_t>(st.i("n") % 100 + 1);
      auto a = restart(kind, n, e0, 0, t0), b = restart(kind, n, e0, 0, st.i("now2")), c = restart(kind, n, mix64(st.u("e2"), 17), prefix, t0), d = restart(kind, n, mix64(st.u("e2"), 18), prefix, t0);
      std::unordered_set<std::string> seen;
      distinct(a, seen, what_of(kind));
      distinct(c, seen, what_of(kind));
      distinct(d, seen, what_of(kind));
      if (a != b) { auto a2 = restart(kind, n, e0, 0, t0); if (a2 == a) fail("depends-on-clock", std::string("in a fresh process the same entropy gives another ") + what_of(kind) + " at another time"); }
      ev_str("restart", a[0] + c[0] + d[0]);
      state(mix64(static_cast<uint64_t>(kind), static_cast<uint64_t>(prefix + 300)));
    }
  }
}
}  // namespace

int draw_main(char** a) {
  reset_world();
  seed_entropy(strtoull(a[4], nullptr, 10));
  entropy_prefix = atoi(a[5]);
  now = atoll(a[6]);
  Out o;
  std::vector<std::string> v;
  try { v = draw(atoi(a[2]), static_cast<size_t>(atoll(a[3])), o); } catch (...) { return 3; }
  std::string s;
  for (auto& x : v) s += ref::b64(x) + "\n";
  return fwrite(s.data(), 1, s.size(), stdout) == s.size() && !fflush(stdout) ? 0 : 4;
}

extern const PropDef kMiscProps[] = {
  {"C14", gen14, run14}, {"C15", gen15, run15}, {"C16", gen16, run16}, {"C17", gen17, run17}, {"C18", gen18, run18}, {nullptr, nullptr, nullptr}};
