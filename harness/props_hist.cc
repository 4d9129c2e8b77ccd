// Histories of edits, saves, loads, key changes and conversions: C04 C05 C06 C07 C08 C09 C10 C19 C20.
#include <cstdlib>
#include <cstring>
#include <ctime>

#include "common.hh"
#include "refcrypto.hh"

using namespace sim;

extern const int kNumZones = 11;
static const char* kZones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-5:30", "NPT-5:45",
                        "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "XXX12", "XXX-14", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", "IRST-3:30IRDT,J79/24,J263/24"};

void set_zone(int64_t i) {
  setenv("TZ", kZones[static_cast<uint64_t>(i) % kNumZones], 1);
  tzset();
}

namespace {
const char* kFile = "/d/store.db";
template <class F> void each_entry(MEntry& e, const F& f) { f(e); for (auto& h : e.history) each_entry(h, f); }
template <class F> void each_entry(MGroup& g, const F& f) { for (auto& e : g.entries) each_entry(e, f); for (auto& c : g.groups) each_entry(c, f); }
template <class F> void each_group(MGroup& g, const F& f) { f(g); for (auto& c : g.groups) each_group(c, f); }
// Every text that KDBX stores unprotected.
template <class F> void each_plain(ModelDb& m, const F& f) {
  auto ps = [&](PStr& s) { if (!s.prot) f(s.v); };
  each_group(m.root, [&](MGroup& g) { f(g.name); f(g.notes); f(g.at_seq); });
  each_entry(m.root, [&](MEntry& e) {
    ps(e.title); ps(e.url); ps(e.username); ps(e.password); ps(e.notes);
    f(e.override_url); f(e.tags); f(e.fg); f(e.bg); f(e.at_seq);
    for (auto& a : e.assoc) { f(a.window); f(a.sequence); }
    for (auto& x : e.fields) { f(x.first); ps(x.second); }
    for (auto& a : e.atts) f(a.name);
  });
  MMeta& x = m.meta;
  f(x.generator); f(x.color); f(x.name.v); f(x.desc.v); f(x.user.v);
  for (auto& c : x.custom) { f(c.first); f(c.second); }
}
std::string trimmed_dump(ModelDb m, Proj p) {
  each_plain(m, [](std::string& s) { s = trim(s); });
  return dump(m, p);
}

struct Db {
  bool x = true;
  GenOpt opt;
  ModelDb m;
  std::unique_ptr<kp::Database> db;
  Db() {}
  explicit Db(const Step* s) { init(s); }
  void init(const Step* s) {
    opt = db_opt(s);
    x = opt.kdbx;
    m = db_model(s);
    db = build(m);
  }
  Proj proj() const { return x ? kKdbx : kKdb; }
  void edit_by(uint64_t seed) {
    Rng r(mix64(seed, 3));
    int n = 1 + static_cast<int>(r.below(3));
    for (int i = 0; i < n; ++i) edit(m, r, opt);
    apply(m, *db);
  }
  void match(const ModelDb& got, const std::string& cls) const {
    std::string a = dump(m, proj()), b = dump(got, proj());
    ev_str("content", b);
    if (a == b) return;
    if ((opt.feats & fEdge) && x && trimmed_dump(m, kKdbx) == trimmed_dump(got, kKdbx)) fail("edge-whitespace-lost", first_diff(a, b));
    fail(cls, first_diff(a, b));
  }
};

// ---- C04 C05 C06 C07 -------------------------------------------------------------------------------------------
Step wide_or_deep(Rng& r, bool x, uint32_t feats) {
  Step s = db_step(r, x, 1, feats);
  if (r.chance(1, 60)) {
    Step d("db");
    bool deep = r.chance(1, 2);
    d.set("seed", static_cast<int64_t>(r.below(1000000))).set("g", deep ? static_cast<int64_t>(100 + r.below(500)) : static_cast<int64_t>(20 + r.below(100)));
    d.set("e", static_cast<int64_t>(deep ? r.below(10) : r.below(200))).set("f", (feats & (deep ? fDeep : 0u)) | (feats & static_cast<uint32_t>(r.next()) & ~static_cast<uint32_t>(fBigBin | fLong | fDeep))).set("x", x);
    return d;
  }
  if (r.chance(1, 15)) s.set("big", static_cast<int64_t>(r.below(120000)));
  else if (r.chance(1, x ? 400 : 4000)) s.set("big", static_cast<int64_t>(700000 + r.below(1800000))).set("plain", r.chance(1, 3));
  if (r.chance(1, 300)) s.set("rounds", static_cast<int64_t>(r.pick(std::vector<uint64_t>{65535, 65536, 65537, 70001, 131072 + r.below(1000)})));
  return s;
}
Plan gen_chain(Rng& r, uint64_t idx, bool x, bool interop) {
  Plan p;
  if (!x && idx % 9000 == 4321) {                       // more elements than 16 bits count
    Step d = db_step(r, x, 1, 0);
    d.set("flat", static_cast<int64_t>(65536 + r.below(300)) * (idx / 9000 % 2 ? -1 : 1));
    p.steps.push_back(d);
    p.add("save");
    p.add(interop ? "native" : "load");
    return p;
  }
  uint32_t mask = fAllFeats;
  if (interop && x) mask &= ~static_cast<uint32_t>(fCtrl);
  if (r.chance(1, x ? 6 : 2)) p.add("tz").set("i", static_cast<int64_t>(r.below(kNumZones)));
  p.steps.push_back(wide_or_deep(r, x, swarm(r, mask)));
  size_t n = 1 + r.below(6);
  for (size_t i = 0; i < n; ++i) {
    switch (r.below(interop ? 5 : 4)) {
      case 0: case 1: p.add("edit").set("seed", static_cast<int64_t>(r.below(1000000))); break;
      case 2:
        if (!interop) { p.add("save").set("reuse", r.chance(1, 2)).set("path", static_cast<int64_t>(r.below(2))); p.add("load").set("reuse", r.chance(1, 2)); }
        else p.add("native").set("reuse", r.chance(1, 2)).set("reload", r.chance(1, 2));
        break;
      default:
        if (!interop) p.add("save").set("reuse", r.chance(1, 2)).set("path", static_cast<int64_t>(r.below(2)));
        else p.add("foreign").set("seed", static_cast<int64_t>(r.below(1000000))).set("l", static_cast<int64_t>(r.chance(1, 4) ? 0 : r.next() & ref::lAllLayout)).set("reuse", r.chance(1, 2));
        break;
    }
  }
  if (interop) {
    if (r.chance(1, 2)) p.add("foreign").set("seed", static_cast<int64_t>(r.below(1000000))).set("l", static_cast<int64_t>(r.next() & ref::lAllLayout));
    else p.add("native");
  } else if (r.chance(1, 2)) { p.add("save"); p.add("load"); }
  return p;
}
void run_chain(const Plan& p, bool x) {
  if (const Step* z = p.find("tz")) set_zone(z->i("i"));
  Step none("db");
  none.set("x", x).set("g", 1).set("e", 1);
  const Step* s = p.find("db");
  Db d(s ? s : &none);
  if (d.x != x) return;
  Rng r(mix64(p.seed, 5));
  ref::Key rk = gen_key(r);
  kp::Key key = make_key(rk);
  Files reused;
  std::string path = kFile;
  int saves = 0, loads = 0, edits = 0;
  auto take = [&](const Out& l, std::unique_ptr<kp::Database> db, const char* cls, bool keep) {
    if (!l.ok) fail(std::string(cls) + "-refused", "a fault-free load reports " + l.str());
    d.match(extract(*db, x), cls);
    if (keep) d.db = std::move(db);
  };
  auto store = [&](const Step& st) {
    Files fresh;
    if (d.x && (st.i("path") != 0)) path = "/d/other.db"; else path = kFile;
    Out o = save(st.i("reuse") ? reused : fresh, x, path, *d.db, key);
    if (!o.ok) fail("save-refused", "a fault-free save reports " + o.str());
    ++saves;
  };
  for (auto& st : p.steps) {
    if (st.op == "edit") { d.edit_by(st.u("seed")); ++edits; }
    else if (st.op == "save") {
      store(st);
      Out l = load(x, path, key);
      take(l, std::move(l.db), "content-changed", false);
    } else if (st.op == "load") {
      if (!saves) continue;
      Step sv("save");
      sv.set("reuse", st.i("reuse")).set("path", path == kFile ? 0 : 1);
      store(sv);
      Files fresh;
      Out l = load(st.i("reuse") ? reused : fresh, x, path, key);
      take(l, std::move(l.db), "content-changed", true);
      ++loads;
    } else if (st.op == "native") {
      store(st);
      std::string f = fs.get(path);
      try {
        d.match(x ? ref::kdbx_read(f, rk) : ref::kdb_read(f, rk), "native-file-differs");
      } catch (ref::Err& e) { fail("native-file-invalid", std::string("an independent reader of the format refuses the file: ") + e.what()); }
      if (st.i("reload")) {
        Files fresh;
        Out l = load(st.i("reuse") ? reused : fresh, x, path, key);
        take(l, std::move(l.db), "content-changed", true);
      }
      ++loads;
    } else if (st.op == "foreign") {
      ref::Layout l;
      l.seed = st.u("seed");
      l.opts = static_cast<uint32_t>(st.u("l"));
      fs.put("/d/foreign.db", x ? ref::kdbx_write(d.m, rk, l) : ref::kdb_write(d.m, rk, l));
      Files fresh;
      Out o = load(st.i("reuse") ? reused : fresh, x, "/d/foreign.db", key);
      take(o, std::move(o.db), "foreign-file", true);
      ++loads;
    }
    state(mix64(hash_str(st.op), static_cast<uint64_t>(saves * 100 + loads * 10 + edits)));
  }
  std::vector<const MGroup*> gs;
  all_groups(static_cast<const MGroup&>(d.m.root), gs);
  state(mix64(d.opt.feats, gs.size()));
}
Plan gen04(Rng& r, uint64_t idx) { return gen_chain(r, idx, true, false); }
Plan gen05(Rng& r, uint64_t idx) { return gen_chain(r, idx, false, false); }
Plan gen06(Rng& r, uint64_t idx) { return gen_chain(r, idx, true, true); }
Plan gen07(Rng& r, uint64_t idx) { return gen_chain(r, idx, false, true); }
void run_x(const Plan& p) { run_chain(p, true); }
void run_b(const Plan& p) { run_chain(p, false); }

// ---- C08 -----------------------------------------------------------------------------------------------------
Plan gen08(Rng& r, uint64_t) {
  Plan p;
  p.steps.push_back(db_step(r, true, 1, swarm(r, fAllFeats & ~static_cast<uint32_t>(fBigBin | fLong))));
  p.steps.push_back(db_step(r, false, 1, swarm(r, fAllFeats & ~static_cast<uint32_t>(fBigBin | fLong))));
  size_t n = 4 + r.below(12);
  auto slot = [&] { return static_cast<int64_t>(r.below(3)); };
  auto num = [&] { return static_cast<int64_t>(r.below(1000000)); };
  for (size_t i = 0; i < n; ++i) {
    switch (r.below(10)) {
      case 0: p.add("newkey").set("slot", slot()).set("seed", num()); break;
      case 1: p.add("setpw").set("slot", slot()).set("seed", num()); break;
      case 2: p.add("setkf").set("slot", slot()).set("seed", num()); break;
      case 3: p.add("copy").set("slot", slot()).set("to", slot()); break;
      case 4: case 5: p.add("save").set("slot", slot()).set("file", static_cast<int64_t>(r.below(2))).set("seed", num()).set("reuse", r.chance(1, 2)).set("fails", r.chance(1, 6)); break;
      case 6: case 7: p.add("near").set("seed", num()).set("file", static_cast<int64_t>(r.below(2))).set("reuse", r.chance(1, 2)); break;
      default: p.add("try").set("slot", slot()).set("file", static_cast<int64_t>(r.below(2))).set("reuse", r.chance(1, 2)); break;
    }
  }
  return p;
}
void run08(const Plan& p) {
  struct Slot { ref::Key r; kp::Key k; };
  Slot slots[3];
  Rng r0(mix64(p.seed, 8));
  for (auto& s : slots) { s.r = gen_key(r0); s.k = make_key(s.r); }
  Step def0("db"), def1("db");
  def0.set("x", 1);
  def1.set("x", 0).set("g", 1).set("e", 1);
  const Step *s0 = p.find("db"), *s1 = p.find("db", 1);
  Db dbs[2] = {Db(s0 && db_opt(s0).kdbx ? s0 : &def0), Db(s1 && !db_opt(s1).kdbx ? s1 : &def1)};
  struct File { bool there = false; ref::Key key; std::string content; std::vector<ref::Key> old; } files[2];
  const char* path[2] = {"/d/a.kdbx", "/d/b.kdb"};
  Files reused;
  auto attempt_load = [&](int f, const kp::Key& k, const ref::Key& rk, bool re, const char* what) {
    bool x = f == 0;
    Files fresh;
    Out l = load(re ? reused : fresh, x, path[f], k);
    bool same = same_key(rk, files[f].key, x);
    state(mix64(static_cast<uint64_t>(f * 2 + same), hash_str(l.cls) ^ hash_str(what) ^ (rk.has_pw * 2u + rk.has_kf)));
    count(same ? "right-key" : "wrong-key");
    if (same) {
      if (!l.ok) fail("right-key-refused", std::string("the file does not open with the key of its last save (") + what + "): " + l.str());
      std::string got = content(*l.db, x);
      if (got != files[f].content) fail("right-key-content", first_diff(files[f].content, got));
    } else {
      if (l.ok) fail("wrong-key-accepted", std::string("the file opens with a different key (") + what + ")");
      if (l.cls != "password") fail("wrong-key-odd-error", std::string("a wrong key (") + what + ") is reported as " + l.str());
    }
  };
  auto do_save = [&](int f, Slot& s, const Step& st) {
    Db& d = dbs[f];
    d.edit_by(st.u("seed"));
    std::vector<Fault> flt;
    if (st.i("fails")) flt.push_back({F_OPEN, 0, 13, true, 0, 0});
    Files fresh;
    Out o = save(st.i("reuse") ? reused : fresh, d.x, path[f], *d.db, s.k, flt);
    if (!o.ok) { if (!o.hard) fail("save-refused", o.str()); return; }
    if (files[f].there) files[f].old.push_back(files[f].key);
    files[f].there = true;
    files[f].key = s.r;
    files[f].content = dump(d.m, d.proj());
  };
  for (auto& st : p.steps) {
    Slot& s = slots[st.u("slot") % 3];
    int f = static_cast<int>(st.u("file") % 2);
    Rng r(mix64(st.u("seed"), 17));
    if (st.op == "newkey") { s.r = gen_key(r); s.k = make_key(s.r); }
    else if (st.op == "setpw") {
      ref::Key g = gen_key(r, 0);
      if (r.chance(1, 5)) g.pw = s.r.pw;
      Out o = attempt({}, [&] { s.k.SetPassword(g.pw); });
      if (!o.ok) fail("password-refused", o.str());
      s.r.has_pw = true;
      s.r.pw = g.pw;
    } else if (st.op == "setkf") {
      std::string k = r.bytes(32);
      put_keyfile("/k/s.key", k, r);
      Out o = attempt({}, [&] { s.k.SetKeyFile("/k/s.key"); });
      fs.del("/k/s.key");
      if (!o.ok) fail("keyfile-refused", o.str());
      s.r.has_kf = true;
      s.r.kf = k;
    } else if (st.op == "copy") { Slot& t = slots[st.u("to") % 3]; t.k = s.k; t.r = s.r; }
    else if (st.op == "save") do_save(f, s, st);
    else if (st.op == "try" || st.op == "near") {
      if (!files[f].there) { Step sv("save"); sv.set("seed", static_cast<int64_t>(st.u("seed"))); do_save(f, s, sv); }
      if (st.op == "try") { attempt_load(f, s.k, s.r, st.i("reuse") != 0, "a key in use"); continue; }
      ref::Key k = files[f].key;
      const char* what = "";
      static const char* kEnds[] = {"\n", " ", "\r\n", "\t", "x"};
      switch (r.below(16)) {
        case 12: if (k.has_pw) k.pw += kEnds[r.below(5)]; what = "one character more"; break;
        case 13: if (k.has_pw) k.pw = kEnds[r.below(5)] + k.pw; what = "one character in front"; break;
        case 14: if (!k.pw.empty()) k.pw.back() = static_cast<char>(k.pw.back() ^ 1); what = "last character of the password"; break;
        case 15: if (k.pw.size() > 1) k.pw.resize(k.pw.size() - 1 - r.below(std::min<size_t>(k.pw.size() - 1, 4))); what = "end of the password missing"; break;
        case 0: k.has_pw = true; k.pw += "x"; what = "longer password"; break;
        case 1: if (!k.pw.empty()) k.pw.pop_back(); what = "shorter password"; break;
        case 2: if (!k.pw.empty()) { size_t i = r.below(k.pw.size()); k.pw[i] = static_cast<char>(k.pw[i] ^ (1 << r.below(8))); } what = "one bit of the password"; break;
        case 3: if (k.has_kf) { size_t i = r.below(32); k.kf[i] = static_cast<char>(k.kf[i] ^ (1 << r.below(8))); } what = "one bit of the key file"; break;
        case 4: if (k.has_kf) k.has_pw = false; what = "without password"; break;
        case 5: if (k.has_pw) k.has_kf = false; what = "without key file"; break;
        case 6: k.has_kf = true; if (k.kf.empty()) k.kf = r.bytes(32); else k.kf[31] = static_cast<char>(k.kf[31] + 1); what = "other key file"; break;
        case 7: k.has_pw = true; k.pw += std::string(1, '\0'); what = "trailing zero byte"; break;
        case 8: for (auto& c : k.pw) c = static_cast<char>(islower(c) ? toupper(c) : tolower(c)); what = "letter case"; break;
        case 9: k.has_pw = true; k.pw.clear(); what = "empty password"; break;
        case 10: if (!files[f].old.empty()) { k = files[f].old[r.below(files[f].old.size())]; what = "an earlier key"; } else what = "same key"; break;
        default: what = "same key"; break;
      }
      if (!k.has_pw) k.pw.clear();
      if (!k.has_kf) k.kf.clear();
      attempt_load(f, make_key(k), k, st.i("reuse") != 0, what);
    }
  }
}

// ---- C09 -----------------------------------------------------------------------------------------------------
Plan gen09(Rng& r, uint64_t) {
  Plan p;
  size_t n = 1 + r.below(6);
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 5)) p.add("setpw").set("seed", static_cast<int64_t>(r.below(1000)));
    if (r.chance(1, 8)) p.add("copy");
    size_t k = r.chance(1, 2) ? 0 : 1 + r.below(2);
    for (size_t j = 0; j < k; ++j) p.steps.push_back(fault_step(r, r.chance(1, 3) ? std::vector<int>{F_SHORT_R, F_EINTR_R} : kReadFaults));
    p.add("keyfile").set("seed", static_cast<int64_t>(r.below(1000000))).set("damage", r.chance(1, 2) ? 0 : static_cast<int64_t>(1 + r.below(11))).set("a", static_cast<int64_t>(r.below(100000)));
  }
  return p;
}
std::string transform_of(const kp::Key& k, bool composite_only) {
  std::array<uint8_t, 32> seed;
  seed.fill(0x5a);
  std::array<uint8_t, 32> t = k.Transform(seed, 1, composite_only ? kp::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey : kp::Key::SubKeyResolution::kHashSubKeys);
  return std::string(t.begin(), t.end());
}
std::string key_print(const kp::Key& k) { return transform_of(k, false) + transform_of(k, true); }
std::string ref_print(const ref::Key& k) {
  std::string seed(32, '\x5a');
  std::string b = !k.has_pw && !k.has_kf ? std::string(32, '\0') : ref::kdb_key(k);
  return ref::sha256(ref::aes_ecb_rounds(seed, ref::kdbx_key(k), 1)) + ref::sha256(ref::aes_ecb_rounds(seed, b, 1));
}
// What the file's content means; empty if nothing.
std::string keyfile_decode(const std::string& d) {
  if (d.size() == 64 && d.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos) {
    std::string k;
    for (size_t i = 0; i < 64; i += 2) k += static_cast<char>(strtol(d.substr(i, 2).c_str(), nullptr, 16));
    return k;
  }
  try {
    ref::Xn x = ref::parse_xml(d);
    if (x.name != "KeyFile" || !x.kid("Key") || !x.kid("Key")->kid("Data")) return "";
    std::string k;
    return ref::unb64(x.kid("Key")->kid("Data")->text, k) && k.size() == 32 ? k : "";
  } catch (std::exception&) { return ""; }
}
void run09(const Plan& p) {
  kp::Key key;
  ref::Key rk;
  std::vector<Step> pend;
  for (auto& st : p.steps) {
    if (st.op == "fault") { pend.push_back(st); continue; }
    Rng r(mix64(st.u("seed"), 23));
    if (st.op == "setpw") {
      ref::Key g = gen_key(r, 0);
      Out o = attempt({}, [&] { key.SetPassword(g.pw); });
      if (!o.ok) fail("password-refused", o.str());
      rk.has_pw = true;
      rk.pw = g.pw;
    } else if (st.op == "copy") { kp::Key c = key; key = c; }
    else if (st.op == "keyfile") {
      std::string kf = r.chance(1, 10) ? std::string(32, static_cast<char>(r.byte())) : r.bytes(32);
      bool xml = r.chance(1, 2);
      std::string t = xml ? ref::keyfile_xml(kf, r) : ref::keyfile_hex(kf, r);
      int dmg = static_cast<int>(st.i("damage") % 12);
      size_t a = st.u("a");
      size_t data = xml ? t.find("<Data>") + 6 : 0;
      auto at = [&] { return data + a % (xml ? 40 : 64); };
      switch (dmg) {
        case 1: t.resize(a % (t.size() + 1)); break;
        case 2: t[at()] = '*'; break;
        case 3: t[at()] = "g!<&\xff\n zG-"[a / 64 % 10]; break;
        case 4: if (xml) { size_t e = t.find("</Data>"); t = t.substr(0, data - 6) + t.substr(e + 7); } else t = t.substr(0, 62); break;
        case 5: if (xml) { size_t e = t.find("</Data>"); t = t.substr(0, data) + ref::b64(r.bytes(a % 3 == 0 ? 31 : a % 3 == 1 ? 33 : a % 31)) + t.substr(e); } else t += "00"; break;
        case 6: if (xml) { for (size_t q; (q = t.find("KeyFile")) != std::string::npos;) t.replace(q, 7, "Keyfile"); } else t += "\n"; break;
        case 7: t.clear(); break;
        case 8: t = kf; break;
        case 9: t = t.substr(0, a % t.size()) + t.substr(a % t.size() + 1); break;
        case 10: t.erase(0, 1 + a % 20); break;
        case 11: t.insert(a % t.size(), 1, '*'); break;
      }
      fs = Fs();
      fs.put("/k/f.key", t);
      OpStats base;
      { kp::Key scratch; base = attempt({}, [&] { scratch.SetKeyFile("/k/f.key"); }).st; }
      std::vector<Fault> f;
      // A hexadecimal file has no redundancy: what is overwritten while it is read can be another valid key.
      for (auto& q : pend) if (xml || q.i("kind") != F_OVERWRITE) f.push_back(place(q, base));
      pend.clear();
      std::string before = key_print(key);
      Out o = attempt(f, [&] { key.SetKeyFile("/k/f.key"); });
      std::string after = key_print(key);
      ref::Key want = rk;
      want.has_kf = true;
      want.kf = kf;
      state(hash_str(o.cls) ^ mix64(static_cast<uint64_t>(dmg * 4 + xml * 2 + o.any), o.st.rbytes));
      ev_str("key", after);
      if (o.ok) {
        if (after != ref_print(want)) {
          std::string d2 = keyfile_decode(fs.has("/k/f.key") ? fs.get("/k/f.key") : t), d1 = keyfile_decode(t);
          bool fine = false;
          for (auto& d : {d1, d2}) if (!d.empty()) { ref::Key w = rk; w.has_kf = true; w.kf = d; if (after == ref_print(w)) { fine = true; want = w; } }
          if (!fine) fail(dmg || o.any ? "damaged-key-file-accepted" : "wrong-key", "the key file load succeeds and yields a key that the file does not encode");
        }
        rk = want;
      } else {
        if (after != before) fail("failed-load-changed-key", "the key-file load reports " + o.str() + ", the key is different now");
        if (dmg == 0 && !o.hard) fail("valid-key-file-refused", "a valid key file is refused: " + o.str());
        if (o.cls == "other" || o.cls == "password" || o.cls == "bad_alloc") fail("odd-error", "the key-file load reports " + o.str());
        if (dmg == 0) {
          fs = Fs();
          fs.put("/k/f.key", t);
          Out q = attempt({}, [&] { key.SetKeyFile("/k/f.key"); });
          if (!q.ok) fail("retry-fails", q.str());
          if (key_print(key) != ref_print(want)) fail("retry-key", "the repeated load yields a wrong key");
          rk = want;
        }
      }
    }
  }
}

// ---- C10 -----------------------------------------------------------------------------------------------------
Plan gen10(Rng& r, uint64_t) {
  Plan p;
  size_t nd = 2 + r.below(2);
  int mix = static_cast<int>(r.below(4));
  for (size_t i = 0; i < nd; ++i) p.steps.push_back(db_step(r, mix == 0 ? false : mix == 1 ? true : r.chance(1, 2), 1, swarm(r) & ~static_cast<uint32_t>(r.chance(1, 2) ? fBigBin | fLong : 0)));
  size_t n = 2 + r.below(7);
  auto num = [&] { return static_cast<int64_t>(r.below(1000000)); };
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 3)) p.steps.push_back(fault_step(r, {F_READ, F_WRITE, F_OPEN, F_ALLOC, F_ALLOC, F_ENTROPY, F_CLOSE, F_SEEK}));
    switch (r.below(8)) {
      case 0: case 1: case 2: p.add("save").set("db", num() % 8); break;
      case 3: p.add("keybad").set("db", num() % 8).set("seed", num()); break;
      case 4: p.add("edit").set("db", num() % 8).set("seed", num()); break;
      default: p.add("load").set("db", num() % 8).set("var", r.chance(1, 2) ? 0 : static_cast<int64_t>(r.below(9))).set("seed", num()).set("take", r.chance(1, 4)); break;
    }
  }
  return p;
}
// A file that decrypts and parses, with elements missing that others refer to.
std::string dangling(const std::string& file, const ref::Key& k, uint64_t seed) {
  ref::KdbxParts q = ref::kdbx_open(file, k);
  Rng r(seed);
  std::string& s = q.payload;
  auto cut = [&](const std::string& tag) {
    size_t a = s.find("<" + tag + ">"), e = s.find("</" + tag + ">");
    if (a != std::string::npos && e != std::string::npos && e > a) s.erase(a, e + tag.size() + 3 - a);
  };
  switch (r.below(8)) {
    case 6: cut("HeaderHash"); break;
    case 0: cut("Binaries"); break;
    case 1: cut("CustomIcons"); break;
    case 2: cut("Binaries"); cut("CustomIcons"); break;
    case 3: cut("Meta"); s.insert(s.find("<Root"), "<Meta></Meta>"); break;
    case 4: { size_t a = s.find("<LastTopVisibleGroup>"); if (a != std::string::npos) { s[a + 22] = s[a + 22] == 'A' ? 'B' : 'A'; s[a + 23] = 'Z'; } break; }
    case 5: cut("LastSelectedGroup"); cut("RecycleBinUUID"); cut("EntryTemplatesGroup"); break;
    default: { size_t a = s.find("Ref=\""); while (a != std::string::npos) { s[a + 5] = static_cast<char>('0' + r.below(10)); a = s.find("Ref=\"", a + 5); } break; }
  }
  q.blocks = ref::kdbx_blocks(q.compress ? ref::gzip(s) : s);
  return ref::kdbx_seal(q, k);
}
void run10(const Plan& p) {
  struct Item { Db d; ref::Key rk; std::shared_ptr<kp::Key> reused; std::string path; };
  std::vector<std::unique_ptr<Item>> it;
  Files reused;
  for (auto& s : p.steps) if (s.op == "db" && it.size() < 8) {
    Rng r(mix64(p.seed, it.size() + 40));
    it.push_back(std::unique_ptr<Item>(new Item));
    Item& i = *it.back();
    i.d.init(&s);
    i.rk = gen_key(r);
    // Databases that have much in common: the same key, the same key object, the same key derivation.
    bool same_key = it.size() > 1 && r.chance(1, 2);
    if (same_key) i.rk = it[0]->rk;
    i.reused = same_key && r.chance(2, 3) ? it[0]->reused : std::make_shared<kp::Key>(make_key(i.rk));
    if (it.size() > 1 && r.chance(1, 2)) {
      i.d.m.tseed = it[0]->d.m.tseed;
      i.d.m.rounds = it[0]->d.m.rounds;
      if (!i.d.x && i.d.m.rounds == 0) i.d.m.rounds = 1;
      if (r.chance(1, 2)) i.d.m.iv = it[0]->d.m.iv;
      if (r.chance(1, 2) && i.d.x == it[0]->d.x) i.d.m.master_seed = it[0]->d.m.master_seed;
      i.d.db = build(i.d.m);
    }
    i.path = "/d/" + std::to_string(it.size()) + ".db";
    Out o = save(i.d.x, i.path, *i.d.db, make_key(i.rk));
    if (!o.ok) fail("save-refused", o.str());
  }
  if (it.empty()) return;
  std::vector<std::pair<std::unique_ptr<kp::Database>, std::pair<std::string, bool>>> kept;   // loaded databases and what they were
  std::vector<Step> pend;
  for (auto& st : p.steps) {
    if (st.op == "fault") { pend.push_back(st); continue; }
    if (st.op == "db") continue;
    Item& i = *it[st.u("db") % it.size()];
    bool x = i.d.x;
    std::vector<Step> now_pend;
    now_pend.swap(pend);
    if (st.op == "edit") { i.d.edit_by(st.u("seed")); continue; }
    if (st.op == "keybad") {
      Rng r(st.u("seed"));
      std::string t = r.chance(1, 2) ? ref::keyfile_xml(r.bytes(32), r) : ref::keyfile_hex(r.bytes(32), r);
      t.resize(r.below(t.size() - 20));
      if (r.chance(1, 2)) fs.put("/k/bad.key", t);
      Out o = attempt({}, [&] { i.reused->SetKeyFile("/k/bad.key"); });
      fs.del("/k/bad.key");
      if (o.ok) return;                                  // another property's business
      continue;
    }
    Fs disk = fs;
    uint64_t es = mix64(p.seed, static_cast<uint64_t>(&st - &p.steps[0]));
    if (st.op == "save") {
      // Extent for fault placement and the result on fresh objects.
      std::unique_ptr<kp::Database> fresh_db = build(i.d.m);
      kp::Key fresh_key = make_key(i.rk);
      seed_entropy(es);
      Out a = save(x, "/d/out.db", *fresh_db, fresh_key);
      std::string fa = fs.has("/d/out.db") ? fs.get("/d/out.db") : "";
      fs = disk;
      std::vector<Fault> f;
      for (auto& q : now_pend) f.push_back(place(q, a.st));
      seed_entropy(es);
      Out b = save(reused, x, "/d/out.db", *i.d.db, *i.reused, f);
      std::string fb = fs.has("/d/out.db") ? fs.get("/d/out.db") : "";
      fs = disk;
      state(hash_str("save" + a.cls + b.cls));
      if (b.hard) { count("polluted:save"); continue; }
      if (a.cls != b.cls) fail("reused-save-outcome", "fresh objects: " + a.str() + ", used objects: " + b.str());
      if (!a.ok) continue;
      auto rd = [&](const std::string& s) -> std::string {
        try { return dump(x ? ref::kdbx_read(s, i.rk) : ref::kdb_read(s, i.rk), i.d.proj()); } catch (ref::Err& e) { return std::string("unreadable: ") + e.what(); }
      };
      std::string da = rd(fa), dbb = rd(fb);
      if (da != dbb) fail("reused-save-content", "fresh objects against used objects: " + first_diff(da, dbb));
      count("compared:save");
    } else if (st.op == "load") {
      ref::Key rk = i.rk;
      int var = static_cast<int>(st.i("var") % 9);
      Rng r(st.u("seed"));
      std::string f0 = fs.get(i.path), g = f0;
      bool wrong = false;
      switch (var) {
        case 1: case 2: case 3: if (x) g = dangling(f0, rk, st.u("seed")); break;
        case 4: g[r.below(g.size())] ^= static_cast<char>(1 << r.below(8)); if (x ? r.chance(0, 1) : false) g = f0; break;
        case 5: wrong = true; break;
        case 6: g.resize(r.below(g.size())); break;
        case 7: if (x) { ref::KdbxParts q = ref::kdbx_open(f0, rk); q.payload.resize(r.below(q.payload.size())); q.blocks = ref::kdbx_blocks(q.compress ? ref::gzip(q.payload) : q.payload); g = ref::kdbx_seal(q, rk); } else { ref::KdbParts q = ref::kdb_open(f0, rk); q.content.resize(r.below(q.content.size() + 1)); g = ref::kdb_seal(q, rk); } break;
        case 8: { ref::Layout l; l.seed = st.u("seed"); l.opts = static_cast<uint32_t>(r.next()) & ref::lAllLayout; g = x ? ref::kdbx_write(i.d.m, rk, l) : ref::kdb_write(i.d.m, rk, l); break; }
      }
      if (var == 4) {                                    // leave the amount of work alone
        size_t lo = x ? 12 : 120, hi = ref::header_size(f0, x);
        for (size_t q = lo; q < hi && q < g.size(); ++q) g[q] = f0[q];
      }
      fs.put("/d/in.db", g);
      Fs disk2 = fs;
      kp::Key fresh_key = make_key(rk), bad;
      if (wrong) { ref::Key w = rk; w.has_pw = true; w.pw += "?"; bad = make_key(w); }
      Out a = load(x, "/d/in.db", wrong ? bad : fresh_key);
      std::string ca = a.ok ? content(*a.db, x) : "";
      fs = disk2;
      std::vector<Fault> f;
      for (auto& q : now_pend) f.push_back(place(q, a.st));
      Out b = load(reused, x, "/d/in.db", wrong ? bad : *i.reused, f);
      state(hash_str("load" + a.cls + b.cls) ^ static_cast<uint64_t>(var));
      if (b.hard) { count("polluted:load"); fs = disk; continue; }
      if (a.cls != b.cls) fail("reused-load-outcome", "fresh objects: " + a.str() + ", used objects: " + b.str());
      fs = disk;
      if (!a.ok) continue;
      std::string cb = content(*b.db, x);
      if (ca != cb) fail("reused-load-content", "fresh objects against used objects: " + first_diff(ca, cb));
      count("compared:load");
      if (st.i("take") && (var == 0 || var == 8)) {
        if (cb == dump(i.d.m, i.d.proj())) i.d.db = std::move(b.db);
      } else if (kept.size() < 4) kept.emplace_back(std::move(b.db), std::make_pair(cb, x));
    }
  }
  for (auto& k : kept) {
    std::string d = first_diff(k.second.first, content(*k.first, k.second.second));
    if (!d.empty()) fail("earlier-result-changed", "a database loaded earlier changed while others were handled: " + d);
  }
}

// ---- C19 -----------------------------------------------------------------------------------------------------
Plan gen19(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(2, 3);
  uint32_t f = swarm(r) & ~static_cast<uint32_t>(fCtrl);
  if (x && r.chance(3, 4)) f &= ~static_cast<uint32_t>(fRootEntries);
  p.steps.push_back(wide_or_deep(r, x, f));
  p.add("fit").set("what", static_cast<int64_t>(r.chance(2, 3) ? 63 : r.below(64)));
  if (r.chance(1, 2)) p.add("reload");
  size_t n = 1 + r.below(3);
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 4)) p.add("edit").set("seed", static_cast<int64_t>(r.below(1000000)));
    p.add("conv").set("over", r.chance(1, 2)).set("reuse", r.chance(1, 2)).set("adjust", r.chance(5, 6));
  }
  if (r.chance(1, 30)) p.add("noroot");
  if (r.chance(1, 12)) p.add("calendar").set("seed", static_cast<int64_t>(r.below(1000000)));
  return p;
}
// Makes the model fit what the other format can hold, one kind of obstacle per bit.
void fit(ModelDb& m, int what) {
  auto clean = [&](std::string& s) {
    bool odd = !ref::utf8_ok(s);
    for (unsigned char c : s) if (c < 32 && c != 9 && c != 10 && c != 13) odd = true;
    if (odd) s = hex(s.data(), s.size());
    s = trim(s);
  };
  // Domain of the property: texts both formats can hold.
  each_group(m.root, [&](MGroup& g) { clean(g.name); });
  each_entry(m.root, [&](MEntry& e) {
    for (PStr* s : {&e.title, &e.url, &e.username, &e.password, &e.notes}) clean(s->v);
    for (auto& a : e.atts) {
      clean(a.name);
      // An attachment with neither name nor data is none to KDB.
      if (a.name.empty() && (a.pool >= 0 ? m.meta.bins[static_cast<size_t>(a.pool)].data : a.loose.data).empty()) a.name = "file";
    }
  });
  auto t1 = [&](int64_t& t) { if (t != 0 && (t < 40000000 || t > 29348000000ll || (t >= 32503000000ll && t <= 32504000000ll))) t = 1000000000 + (t & 0xffff); };
  if (what & 1) {
    each_group(m.root, [&](MGroup& g) { for (int64_t* t : {&g.t.creation, &g.t.modification, &g.t.access, &g.t.expiry}) t1(*t); });
    each_entry(m.root, [&](MEntry& e) { for (int64_t* t : {&e.t.creation, &e.t.modification, &e.t.access, &e.t.expiry}) t1(*t); });
  }
  if (what & 2) m.cipher = 0;
  if (what & 4) each_entry(m.root, [&](MEntry& e) { if (e.atts.size() > 1) e.atts.resize(1); });
  if ((what & 8) && !m.root.entries.empty()) {
    if (m.root.groups.empty()) { MGroup g; g.uuid[0] = 1; g.name = "moved"; g.t.creation = g.t.modification = g.t.access = 1000000000; m.root.groups.push_back(g); }
    auto& to = m.root.groups[0].entries;
    to.insert(to.end(), m.root.entries.begin(), m.root.entries.end());
    m.root.entries.clear();
    m.root.last_visible = -1;
  }
}
bool times_fit(ModelDb m) {
  bool ok = true;
  auto t1 = [&](int64_t t) { if (t != 0 && (t < 40000000 || t > 29348000000ll || (t >= 32503000000ll && t <= 32504000000ll))) ok = false; };
  each_group(m.root, [&](MGroup& g) { if (&g == &m.root) return; t1(g.t.creation); t1(g.t.modification); t1(g.t.access); t1(g.t.expiry); });
  for (auto* g : [&] { std::vector<MGroup*> v; all_groups(m.root, v); return v; }())
    for (auto& e : g->entries) { t1(e.t.creation); t1(e.t.modification); t1(e.t.access); t1(e.t.expiry); }
  return ok;
}
std::string without_times(const std::string& d) {
  std::string o;
  size_t i = 0;
  while (i < d.size()) {
    size_t e = d.find('\n', i);
    std::string line = d.substr(i, e - i + 1);
    i = e + 1;
    std::string k = line.substr(0, line.find('='));
    bool t = false;
    for (const char* n : {".created", ".modified", ".accessed", ".expiry"}) if (k.size() >= strlen(n) && k.compare(k.size() - strlen(n), std::string::npos, n) == 0) t = true;
    if (!t) o += line;
  }
  return o;
}
void run19(const Plan& p) {
  Step none("db");
  none.set("x", 1).set("g", 1).set("e", 1);
  const Step* s = p.find("db");
  Db d(s ? s : &none);
  const Step* ft = p.find("fit");
  int what = ft ? static_cast<int>(ft->i("what")) : 63;
  fit(d.m, what);
  d.db = build(d.m);
  Rng r(mix64(p.seed, 5));
  ref::Key rk = gen_key(r);
  kp::Key key = make_key(rk);
  Files reused;
  for (auto& st : p.steps) {
    if (st.op == "reload") {
      Out o = save(d.x, "/d/src.db", *d.db, key);
      if (!o.ok) fail("save-refused", o.str());
      Out l = load(d.x, "/d/src.db", key);
      if (!l.ok) fail("load-refused", l.str());
      d.db = std::move(l.db);
      d.m = extract(*d.db, d.x);
    } else if (st.op == "edit") {
      Rng e(mix64(st.u("seed"), 3));
      edit(d.m, e, d.opt);
      fit(d.m, what & ~8);
      apply(d.m, *d.db);
    } else if (st.op == "noroot") {
      kp::Database empty;
      for (int x = 0; x < 2; ++x) {
        fs.put("/d/none.db", "previous");
        Out o = save(x != 0, "/d/none.db", empty, key);
        if (o.ok) fail("treeless-stored", "a database without a tree is stored");
        if (!fs.has("/d/none.db") || fs.get("/d/none.db") != "previous") fail("refusal-touched-destination", "a refused save changed the destination");
      }
    } else if (st.op == "calendar") {                    // a time no calendar date can express, for either format
      Rng c(mix64(st.u("seed"), 19));
      std::vector<kp::Group*> gs;
      std::function<void(kp::Group&)> walk = [&](kp::Group& g) { for (auto& s2 : g.Groups()) { gs.push_back(s2.get()); walk(*s2); } };
      if (d.db->root()) walk(*d.db->root());
      if (gs.empty()) continue;
      kp::Group* g = gs[c.below(gs.size())];
      static const std::time_t far[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, static_cast<std::time_t>(1) << 60, -(static_cast<std::time_t>(1) << 58)};
      std::time_t t = far[c.below(5)];
      auto put = [&](auto& o, uint64_t w, std::time_t v) {
        std::time_t was = w == 0 ? o.creation_time() : w == 1 ? o.modification_time() : w == 2 ? o.access_time() : o.expiry_time();
        if (w == 0) o.set_creation_time(v); else if (w == 1) o.set_modification_time(v); else if (w == 2) o.set_access_time(v); else o.set_expiry_time(v);
        return was;
      };
      uint64_t w = c.below(4);
      bool on_entry = !g->Entries().empty() && c.chance(1, 2);
      std::shared_ptr<kp::Entry> e = on_entry ? g->Entries()[c.below(g->Entries().size())] : nullptr;
      std::time_t was = e ? put(*e, w, t) : put(*g, w, t);
      for (int x = 0; x < 2; ++x) {
        fs.put("/d/far.db", "previous");
        Out o = save(x != 0, "/d/far.db", *d.db, key);
        if (o.ok) fail("impossible-time-stored", "a time that is no calendar date is stored");
        if (o.cls == "other" || o.cls == "bad_alloc") fail("odd-error", o.str());
        if (!fs.has("/d/far.db") || fs.get("/d/far.db") != "previous") fail("refusal-touched-destination", "a refused save changed the destination");
      }
      if (e) put(*e, w, was); else put(*g, w, was);
      count("impossible_time");
    } else if (st.op == "conv") {
      bool to = !d.x;
      bool adjust = st.i("adjust") != 0;
      if (adjust) {                                      // what a user does before: a key-derivation seed the format can use
        d.m.master_seed = Rng(mix64(p.seed, 77)).bytes(to ? 32 : 16);
        apply(d.m, *d.db);
      }
      std::string want = dump(d.m, kCommon);
      std::string reason;
      bool may_refuse = !adjust;
      if (!to) {
        if (!d.m.root.entries.empty()) reason = "entries outside groups";
        std::vector<const MGroup*> gs;
        all_groups(static_cast<const MGroup&>(d.m.root), gs);
        for (auto g : gs) for (auto& e : g->entries) if (e.atts.size() > 1) reason = "several attachments";
        if (d.m.master_seed.size() != 16) reason = "master seed";
        if (!times_fit(d.m)) may_refuse = true;
      } else if (d.m.cipher != 0) may_refuse = true;
      const char* dst = "/d/conv.db";
      fs = Fs();
      bool over = st.i("over") != 0;
      if (over) fs.put(dst, "what was there before");
      Files fresh;
      Out o = save(st.i("reuse") ? reused : fresh, to, dst, *d.db, key);
      state(mix64(hash_str(o.cls + o.what), static_cast<uint64_t>(to * 2 + may_refuse) ^ hash_str(reason)));
      if (!o.ok) {
        count("refused");
        if (reason.empty() && !may_refuse) fail("representable-refused", "content both formats can hold is refused: " + o.str());
        if (o.cls == "other" || o.cls == "bad_alloc") fail("odd-error", o.str());
        if (over ? !fs.has(dst) || fs.get(dst) != "what was there before" : fs.has(dst)) fail("refusal-touched-destination", "a refused save changed the destination");
        return;
      }
      Out l = load(to, dst, make_key(rk));
      if (!l.ok) fail("converted-unloadable", "the converted file is refused: " + l.str());
      ModelDb got = extract(*l.db, to);
      bool tf = times_fit(d.m);                          // KDB holds local times from 1900 on
      auto view = [&](const std::string& t) { return tf ? t : without_times(t); };
      std::string df = first_diff(view(want), view(dump(got, kCommon)));
      ev_str("converted", dump(got, kCommon));
      if (!df.empty()) fail("converted-content", (reason.empty() ? "" : "(" + reason + ") ") + df);
      if (reason == "master seed") fail("unsuitable-seed-stored", "a KDB file was written for a master seed it cannot hold");
      try {
        ModelDb m2 = to ? ref::kdbx_read(fs.get(dst), rk) : ref::kdb_read(fs.get(dst), rk);
        df = first_diff(view(want), view(dump(m2, kCommon)));
        if (!df.empty()) fail("converted-file-content", df);
      } catch (ref::Err& e) { fail("converted-file-invalid", std::string("an independent reader refuses the file: ") + e.what()); }
      count("converted");
      d.db = std::move(l.db);
      d.x = to;
      d.opt.kdbx = to;
      d.opt.feats &= ~static_cast<uint32_t>(fRootEntries);
      if (d.opt.groups < 1) d.opt.groups = 1;
      d.m = got;
    }
  }
}

// ---- C20 -----------------------------------------------------------------------------------------------------
Plan gen20(Rng& r, uint64_t) {
  Plan p;
  bool x = r.chance(2, 3);
  p.steps.push_back(db_step(r, x));
  size_t n = 2 + r.below(6);
  auto num = [&] { return static_cast<int64_t>(r.below(1000000)); };
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 3)) p.steps.push_back(fault_step(r, {F_READ, F_WRITE, F_OPEN, F_ALLOC, F_ALLOC, F_ENTROPY, F_CLOSE, F_SHORT_R, F_SHORT_W}));
    switch (r.below(9)) {
      case 8: p.add("scribble").set("i", num()).set("foreign", r.chance(1, 2)).set("seed", num()); break;
      case 0: case 1: p.add("save").set("reuse", r.chance(1, 2)).set("other", r.chance(1, 6)); break;
      case 2: p.add("twice").set("reuse", r.chance(1, 2)); break;
      case 3: p.add("edit").set("seed", num()); break;
      case 4: p.add("editloaded").set("seed", num()).set("i", num()); break;
      case 5: p.add("keyfile").set("seed", num()); break;
      default: p.add("load").set("reuse", r.chance(1, 2)).set("bad", r.chance(1, 4)).set("take", r.chance(1, 5)); break;
    }
  }
  return p;
}
bool same_disk(const Fs& a, const Fs& b, std::string* what) {
  for (auto& q : a.dir) { if (!b.has(q.first)) { *what = q.first + " is gone"; return false; } if (a.get(q.first) != b.get(q.first)) { *what = q.first + " has changed"; return false; } }
  for (auto& q : b.dir) if (!a.has(q.first)) { *what = q.first + " has appeared"; return false; }
  return true;
}
void run20(const Plan& p) {
  Step none("db");
  none.set("x", 1).set("g", 1).set("e", 1);
  const Step* s = p.find("db");
  Db d(s ? s : &none);
  Rng r0(mix64(p.seed, 5));
  ref::Key rk = gen_key(r0);
  kp::Key key = make_key(rk);
  Files reused;
  bool x = d.x;
  struct L { std::unique_ptr<kp::Database> db; ModelDb m; std::string dump_; };
  std::vector<L> loaded;
  std::vector<Step> pend;
  std::string stored;                                    // content of kFile
  auto full = [&](const kp::Database& db) { return dump(extract(db, true), kKdbx) + dump(extract(db, false), kKdb); };
  auto check_loaded = [&](const std::string& why) {
    for (auto& l : loaded) { std::string df = first_diff(l.dump_, content(*l.db, x)); if (!df.empty()) fail("loaded-databases-share-state", why + " changed a database loaded before: " + df); }
  };
  auto plain_save = [&] {
    Out o = save(x, kFile, *d.db, key);
    if (!o.ok) fail("save-refused", o.str());
    stored = dump(d.m, d.proj());
  };
  plain_save();
  for (auto& st : p.steps) {
    if (st.op == "fault") { pend.push_back(st); continue; }
    if (st.op == "db") continue;
    std::vector<Step> now_pend;
    now_pend.swap(pend);
    Files fresh;
    Files& files = st.i("reuse") ? reused : fresh;
    std::string before = full(*d.db), kbefore = key_print(key);
    if (st.op == "save" || st.op == "twice") {
      bool to = st.i("other") ? !x : x;
      const char* path = st.i("other") ? "/d/other.db" : kFile;
      Fs keep = fs;
      Out b = save(to, path, *d.db, key);
      if (full(*d.db) != before) fail("save-changes-database", first_diff(before, full(*d.db)));
      fs = keep;
      std::vector<Fault> f;
      for (auto& q : now_pend) f.push_back(place(q, b.st));
      Out o = save(files, to, path, *d.db, key, f);
      state(hash_str(st.op + o.cls));
      std::string after = full(*d.db);
      if (after != before) fail("save-changes-database", "after a save that ended with " + o.str() + ": " + first_diff(before, after));
      if (key_print(key) != kbefore) fail("save-changes-key", "the key is different after a save that ended with " + o.str());
      if (st.op == "twice" && to == x) {
        Out o1 = save(files, x, "/d/t1.db", *d.db, key), o2 = save(files, x, "/d/t2.db", *d.db, key);
        if (!o1.ok || !o2.ok) fail("second-save-fails", o1.str() + ", " + o2.str());
        try {
          ModelDb a = x ? ref::kdbx_read(fs.get("/d/t1.db"), rk) : ref::kdb_read(fs.get("/d/t1.db"), rk), c = x ? ref::kdbx_read(fs.get("/d/t2.db"), rk) : ref::kdb_read(fs.get("/d/t2.db"), rk);
          std::string df = first_diff(dump(a, d.proj()), dump(c, d.proj()));
          if (!df.empty()) fail("second-save-differs", df);
        } catch (ref::Err& e) { fail("second-save-differs", std::string("unreadable: ") + e.what()); }
      }
      check_loaded("a save");
      if (!st.i("other")) { if (o.ok) stored = dump(d.m, d.proj()); else plain_save(); }
    } else if (st.op == "load") {
      kp::Key bad("no such password");
      const kp::Key& k = st.i("bad") ? bad : key;
      Fs disk = fs;
      Out b = load(x, kFile, k);
      std::string what;
      if (!same_disk(disk, fs, &what)) fail("load-changes-files", what + " after a load that ended with " + b.str());
      std::vector<Fault> f;
      for (auto& q : now_pend) f.push_back(place(q, b.st));
      Out o = load(files, x, kFile, k, f);
      state(hash_str("load" + o.cls + b.cls));
      if (!same_disk(disk, fs, &what)) fail("load-changes-files", what + " after a load that ended with " + o.str());
      for (auto& jo : journal) if (jo.kind != JOp::kSync) fail("load-changes-files", "a load modified the file system: " + jo.path);
      if (key_print(key) != kbefore) fail("load-changes-key", "the key is different after a load that ended with " + o.str());
      if (full(*d.db) != before) fail("load-changes-database", first_diff(before, full(*d.db)));
      check_loaded("a load");
      if (o.ok) {
        std::string got = content(*o.db, x), df = first_diff(stored, got);
        if (!df.empty()) fail("load-content", df);
        if (st.i("take")) { d.db = std::move(o.db); d.m = extract(*d.db, x); }
        else if (loaded.size() < 4) { L l; l.m = extract(*o.db, x); l.dump_ = got; l.db = std::move(o.db); loaded.push_back(std::move(l)); }
      }
    } else if (st.op == "keyfile") {
      Rng r(st.u("seed"));
      put_keyfile("/k/f.key", r.bytes(32), r);
      Fs disk = fs;
      kp::Key k2 = key;
      Out b = attempt({}, [&] { kp::Key t; t.SetKeyFile("/k/f.key"); });
      std::vector<Fault> f;
      for (auto& q : now_pend) f.push_back(place(q, b.st));
      Out o = attempt(f, [&] { k2.SetKeyFile("/k/f.key"); });
      std::string what;
      if (!same_disk(disk, fs, &what)) fail("load-changes-files", what + " after a key-file load that ended with " + o.str());
      if (key_print(key) != kbefore) fail("copied-keys-share-state", "loading a key file into a copy changed the original key");
    } else if (st.op == "edit") {
      d.edit_by(st.u("seed"));
      check_loaded("editing the saved database");
    } else if (st.op == "scribble") {
      // A database of another writer, or the stored one, loaded twice; everything in the first result is changed in place.
      if (st.i("foreign")) {
        ref::Layout l;
        l.seed = st.u("seed");
        l.opts = static_cast<uint32_t>(Rng(l.seed).next()) & ref::lAllLayout;
        fs.put("/d/foreign.db", x ? ref::kdbx_write(d.m, rk, l) : ref::kdb_write(d.m, rk, l));
      }
      const char* path = st.i("foreign") ? "/d/foreign.db" : kFile;
      Out a = load(files, x, path, key), b = load(files, x, path, key);
      if (!a.ok || !b.ok) fail("load-refused", a.str() + ", " + b.str());
      std::string was = content(*b.db, x);
      if (content(*a.db, x) != was) fail("loads-differ", first_diff(content(*a.db, x), was));
      scribble(*a.db, "changed " + std::to_string(st.u("seed")));
      std::string df = first_diff(was, content(*b.db, x));
      if (!df.empty()) fail("loaded-databases-share-state", "changing one loaded database changed another: " + df);
      check_loaded("changing a loaded database");
      if (full(*d.db) != before) fail("loaded-databases-share-state", "changing a loaded database changed the one that was saved: " + first_diff(before, full(*d.db)));
      Out c = load(files, x, path, key);
      if (!c.ok) fail("load-refused", c.str());
      df = first_diff(was, content(*c.db, x));
      if (!df.empty()) fail("loaded-databases-share-state", "changing a loaded database changed a later load: " + df);
      count("scribbled");
    } else if (st.op == "editloaded") {
      if (loaded.empty()) continue;
      L& l = loaded[st.u("i") % loaded.size()];
      Rng r(mix64(st.u("seed"), 3));
      for (int i = 0; i < 3; ++i) edit(l.m, r, d.opt);
      apply(l.m, *l.db);
      l.dump_ = dump(l.m, d.proj());
      check_loaded("editing a loaded database");
      if (full(*d.db) != before) fail("loaded-databases-share-state", "editing a loaded database changed the one that was saved: " + first_diff(before, full(*d.db)));
      Out q = load(x, kFile, key);
      if (!q.ok) fail("load-refused", q.str());
      std::string df = first_diff(stored, content(*q.db, x));
      if (!df.empty()) fail("loaded-databases-share-state", "editing a loaded database changed a later load: " + df);
    }
  }
}
}  // namespace

extern const PropDef kHistProps[] = {{"C04", gen04, run_x}, {"C05", gen05, run_b}, {"C06", gen06, run_x}, {"C07", gen07, run_b}, {"C08", gen08, run08},
                                     {"C09", gen09, run09}, {"C10", gen10, run10}, {"C19", gen19, run19}, {"C20", gen20, run20}, {nullptr, nullptr, nullptr}};
