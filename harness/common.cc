#include "common.hh"

#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <stdexcept>

#include "exception.hh"

using namespace sim;

int64_t Step::i(const char* k, int64_t def) const {
  for (auto& p : kv) if (p.first == k) return p.second.size() && p.second[0] == '-' ? strtoll(p.second.c_str(), nullptr, 10) : static_cast<int64_t>(strtoull(p.second.c_str(), nullptr, 10));
  return def;
}
std::string Step::s(const char* k, const char* def) const {
  for (auto& p : kv) if (p.first == k) return p.second;
  return def;
}
std::string Plan::text(const char* sep) const {
  std::string t = "plan " + prop + " seed=" + std::to_string(seed);
  for (auto& s : steps) {
    t += sep + s.op;
    for (auto& p : s.kv) t += " " + p.first + "=" + p.second;
  }
  return t + (strcmp(sep, "\n") ? "" : "\n");
}
Plan Plan::parse(const std::string& t) {
  Plan p;
  size_t i = 0;
  bool first = true;
  while (i < t.size()) {
    size_t e = t.find_first_of("\n;", i);
    std::string line = t.substr(i, e == std::string::npos ? std::string::npos : e - i);
    i = e == std::string::npos ? t.size() : e + 1;
    std::vector<std::string> w;
    size_t a = 0;
    while (a < line.size()) {
      while (a < line.size() && line[a] == ' ') ++a;
      size_t b = a;
      while (b < line.size() && line[b] != ' ') ++b;
      if (b > a) w.push_back(line.substr(a, b - a));
      a = b;
    }
    if (w.empty() || w[0][0] == '#') continue;
    Step s;
    size_t from = 1;
    if (first) {
      if (w[0] != "plan" || w.size() < 2) throw std::runtime_error("not a plan");
      p.prop = w[1];
      from = 2;
    } else s.op = w[0];
    for (size_t k = from; k < w.size(); ++k) {
      size_t q = w[k].find('=');
      if (q == std::string::npos) throw std::runtime_error("bad parameter " + w[k]);
      s.kv.push_back({w[k].substr(0, q), w[k].substr(q + 1)});
    }
    if (first) p.seed = s.u("seed"); else p.steps.push_back(s);
    first = false;
  }
  return p;
}
const Step* Plan::find(const char* op, size_t n) const {
  for (auto& s : steps) if (s.op == op && n-- == 0) return &s;
  return nullptr;
}

Verdict execute(const Plan& p) {
  Verdict v;
  reset_world();
  ev_str("plan", p.text());
  setenv("TZ", "UTC0", 1);
  tzset();
  for (auto& d : props()) if (p.prop == d.id) {
    try { d.run(p); } catch (Fail& f) { v.bad = true; v.cls = f.cls; v.detail = f.detail; }
    ev_str("verdict", v.cls + "|" + v.detail);
    return v;
  }
  throw std::runtime_error("unknown property " + p.prop);
}

// ---- operations ----------------------------------------------------------------------------------------------
Out attempt(const std::vector<Fault>& faults, const std::function<void()>& f) {
  Out o;
  ev("op");
  Op op(faults);
  try {
    f();
    op.stop();
    o.ok = true;
  } catch (kp::PasswordError& e) { op.stop(); o.cls = "password"; o.what = e.what();
  } catch (kp::FormatError& e) { op.stop(); o.cls = "format"; o.what = e.what();
  } catch (kp::FileNotFoundError& e) { op.stop(); o.cls = "notfound"; o.what = e.what();
  } catch (kp::IoError& e) { op.stop(); o.cls = "io"; o.what = e.what();
  } catch (kp::InternalError& e) { op.stop(); o.cls = "internal"; o.what = e.what();
  } catch (std::bad_alloc& e) { op.stop(); o.cls = "bad_alloc"; o.what = e.what();
  } catch (std::exception& e) { op.stop(); o.cls = "std"; o.what = e.what();
  } catch (...) { op.stop(); o.cls = "other"; }
  o.st = op.st;
  o.faults = op.faults;
  o.hard = op.fired_nonbenign();
  for (auto& q : op.faults) o.any |= q.fired > 0;
  o.capped = !op.capped.empty();
  ev_str("end", o.cls);
  return o;
}
Out save(Files& f, bool kdbx, const std::string& path, const kp::Database& db, const kp::Key& key, const std::vector<Fault>& faults) {
  Out o = attempt(faults, [&] { if (kdbx) f.kdbx.Export(path, db, key); else f.kdb.Export(path, db, key); });
  ev_str("file", fs.has(path) ? fs.get(path) : "<none>");
  return o;
}
Out load(Files& f, bool kdbx, const std::string& path, const kp::Key& key, const std::vector<Fault>& faults) {
  std::unique_ptr<kp::Database> db;
  Out o = attempt(faults, [&] { db = kdbx ? f.kdbx.Import(path, key) : f.kdb.Import(path, key); });
  o.db = std::move(db);
  if (o.ok && !o.db) fail("load-returns-nothing", "a load returned a null database");
  return o;
}
Out save(bool kdbx, const std::string& path, const kp::Database& db, const kp::Key& key, const std::vector<Fault>& faults) { Files f; return save(f, kdbx, path, db, key, faults); }
Out load(bool kdbx, const std::string& path, const kp::Key& key, const std::vector<Fault>& faults) { Files f; return load(f, kdbx, path, key, faults); }

ref::Key gen_key(Rng& r, int mode) {
  ref::Key k;
  if (mode < 0) mode = static_cast<int>(r.below(8)) < 5 ? 0 : 1 + static_cast<int>(r.below(2));
  if (mode == 0 || mode == 2) {
    k.has_pw = true;
    switch (r.below(8)) {
      case 0: k.pw = ""; break;
      case 4: k.pw = std::string(r.pick(std::vector<uint64_t>{31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, r.below(9000)}), 'p') + (r.chance(1, 2) ? r.bytes(1) : ""); break;
      case 5: k.pw = r.pick(std::vector<std::string>{" pw", "pw ", "pw\n", "pw\r\n", "\tpw", "\n", " ", "pw\xc3\xa9", "pwe\xcc\x81", "pw\xff", "\xef\xbb\xbfpw"}); break;
      case 1: k.pw = r.bytes(r.below(20)); break;
      case 2: k.pw = std::string("nul\0byte", 8) + std::string(r.below(3), '\0'); break;
      case 3: k.pw = std::string(r.below(300), 'x') + r.bytes(2); break;
      default: k.pw = "password" + std::to_string(r.below(1000)); break;
    }
  }
  if (mode == 1 || mode == 2) { k.has_kf = true; k.kf = r.chance(1, 8) ? std::string(32, r.chance(1, 2) ? '\0' : '\xff') : r.bytes(32); }
  return k;
}
void put_keyfile(const std::string& path, const std::string& key32, Rng& r) {
  fs.put(path, r.chance(1, 2) ? ref::keyfile_xml(key32, r) : ref::keyfile_hex(key32, r));
}
kp::Key make_key(const ref::Key& k) {
  kp::Key key;
  Rng r(hash_str(k.kf) + k.pw.size());
  bool kf_first = r.chance(1, 2);
  auto setkf = [&] {
    if (!k.has_kf) return;
    std::string p = "/k/tmp.key";
    put_keyfile(p, k.kf, r);
    Out o = attempt({}, [&] { key.SetKeyFile(p); });
    fs.del(p);
    if (!o.ok) fail("keyfile-refused", "a valid key file is refused: " + o.str());
  };
  if (kf_first) setkf();
  if (k.has_pw) { Out o = attempt({}, [&] { key.SetPassword(k.pw); }); if (!o.ok) fail("password-refused", o.str()); }
  if (!kf_first) setkf();
  return key;
}
bool same_key(const ref::Key& a, const ref::Key& b, bool kdbx) {
  auto f = [&](const ref::Key& k) {
    if (kdbx) return ref::kdbx_key(k);
    if (!k.has_pw && !k.has_kf) return std::string(32, '\0');
    return ref::kdb_key(k);
  };
  return f(a) == f(b);
}

uint32_t swarm(Rng& r, uint32_t mask) {
  switch (r.below(5)) {
    case 0: return mask;
    case 1: return static_cast<uint32_t>(r.next()) & static_cast<uint32_t>(r.next()) & mask;
    default: return static_cast<uint32_t>(r.next()) & mask;
  }
}
Step db_step(Rng& r, bool kdbx, int size, uint32_t feats) {
  Step s("db");
  s.set("seed", static_cast<int64_t>(r.below(1000000000)));
  int g = static_cast<int>(r.below(static_cast<uint64_t>(3 * size + 1))), e = static_cast<int>(r.below(static_cast<uint64_t>(4 * size + 1)));
  if (r.chance(1, 30)) { g *= 6; e *= 6; }
  s.set("g", g).set("e", e);
  s.set("f", feats == 0xffffffff ? swarm(r) : feats);
  s.set("x", kdbx);
  if (r.chance(1, 14)) s.set("tune", static_cast<int64_t>(1 + r.below(1000)));
  return s;
}
// Gives the stored document the size of some buffer, or one byte more or less: where writers and readers change blocks.
void tune(ModelDb& m, const Step* s) {
  int64_t t = s ? s->i("tune") : 0;
  if (t <= 0) return;
  static const size_t units[] = {16, 64, 512, 1024, 1024, 4096, 4096, 8192, 16384, 16384, 32768, 65536};
  size_t unit = units[t % 12];
  if (t % 97 == 5) unit = 1 << 20;
  long d = t / 12 % 4 - 1;
  if (d > 1) d = 0;
  bool whole = t / 48 % 2;                              // with start bytes and block headers
  std::string* text = m.kdbx ? &m.root.notes : m.root.groups.empty() ? nullptr : &m.root.groups[0].name;
  if (!text) return;
  Fs keep = fs;
  ref::Key rk;
  rk.has_pw = true;
  rk.pw = "t";
  kp::Key key("t");
  uint64_t rounds = m.rounds;
  m.rounds = 1;
  *text += "x";
  for (int i = 0; i < 3; ++i) {
    auto db = build(m);
    Out o = save(m.kdbx, "/d/tune.db", *db, key);
    if (!o.ok) break;
    size_t n = 0;
    try {
      if (m.kdbx) { ref::KdbxParts q = ref::kdbx_open(fs.get("/d/tune.db"), rk); n = whole ? 32 + q.blocks.size() : q.payload.size(); }
      else n = ref::kdb_open(fs.get("/d/tune.db"), rk).content.size();
    } catch (ref::Err&) { break; }
    size_t want = (unit + static_cast<size_t>(d + static_cast<long>(unit) - static_cast<long>(n % unit))) % unit;
    if (want == 0) break;
    *text += std::string(want, 'x');
    if (m.kdbx && m.compress && whole) break;           // compressed sizes can't be aimed at
  }
  count("tuned sizes");
  m.rounds = rounds;
  fs = keep;
}
GenOpt db_opt(const Step* s, bool kdbx_def) {
  GenOpt o;
  o.kdbx = kdbx_def;
  if (!s) { o.groups = 1; o.entries = 1; return o; }
  o.seed = s->u("seed", 1);
  o.groups = static_cast<int>(s->i("g", 1));
  o.entries = static_cast<int>(s->i("e", 1));
  o.feats = static_cast<uint32_t>(s->i("f", 0));
  o.kdbx = s->i("x", kdbx_def) != 0;
  o.big = static_cast<int>(s->i("big", 0));
  o.plain = s->i("plain", 0) != 0;
  o.rounds = s->u("rounds", 0);
  o.flat = static_cast<int>(s->i("flat", 0));
  if (o.groups < 0) o.groups = 0;
  if (o.entries < 0) o.entries = 0;
  if (!o.kdbx && o.groups < 1 && (o.entries > 0 || o.big > 0)) o.groups = 1;
  return o;
}
ModelDb db_model(const Step* s, bool kdbx_def) { ModelDb m = generate(db_opt(s, kdbx_def)); tune(m, s); return m; }

std::string content(const kp::Database& db, bool kdbx) { return dump(extract(db, kdbx), kdbx ? kKdbx : kKdb); }
std::string differs(const ModelDb& want, const kp::Database& got, bool kdbx, bool header) {
  Proj p = kdbx ? kKdbx : kKdb;
  std::string g = dump(extract(got, kdbx), p, header);
  ev_str("loaded", g);
  return first_diff(dump(want, p, header), g);
}
void must_load(bool kdbx, const std::string& path, const kp::Key& key, const ModelDb& want, const std::string& cls) {
  Out l = load(kdbx, path, key);
  if (!l.ok) fail(cls + "-unloadable", "a fault-free load of the file reports " + l.str());
  std::string d = differs(want, *l.db, kdbx);
  if (!d.empty()) fail(cls + "-content", d);
}

// ---- faults --------------------------------------------------------------------------------------------------
const std::vector<int> kWriteFaults = {F_WRITE, F_WRITE, F_WRITE, F_OPEN, F_CLOSE, F_SHORT_W, F_EINTR_W, F_SHORT_W};
const std::vector<int> kReadFaults = {F_READ, F_READ, F_SHORT_R, F_SHORT_R, F_EINTR_R, F_SHRINK, F_OVERWRITE, F_OPEN, F_SEEK};

Step fault_step(Rng& r, const std::vector<int>& kinds) {
  Step s("fault");
  s.set("kind", kinds[r.below(kinds.size())]);
  s.set("pos", static_cast<int64_t>(r.below(1000001)));
  s.set("how", static_cast<int64_t>(r.below(5)));
  s.set("arg", static_cast<int64_t>(r.below(1000)));
  s.set("persist", r.chance(1, 2));
  return s;
}
// how: 0..2 proportional to the extent of the fault-free run, 3 near multiples of the usual buffer sizes, 4 near the end.
static int64_t spread(const Step& s, int64_t extent) {
  if (extent <= 0) return 0;
  int64_t pos = s.i("pos"), how = s.i("how"), a;
  if (pos < 0) pos = -pos;
  pos %= 1000001;
  static const int64_t unit[] = {512, 1024, 4096, 8191, 8192, 16384};
  if (how == 3) {
    int64_t u = unit[pos % 6];
    a = u * (1 + pos / 6 % (extent / u + 1)) + pos / 100 % 3 - 1;
    if (a > extent) a = extent - pos % 3;
  } else if (how == 4) a = extent - 1 - pos % 40;
  else a = static_cast<int64_t>(static_cast<__int128>(extent) * pos / 1000001);
  if (a < 0) a = 0;
  return a;
}
// Half of the time the other process is at work before the first read.
static int64_t pos_of_peer(const Step& s, const OpStats& b) { return s.i("arg") % 2 ? 0 : spread(s, static_cast<int64_t>(b.rbytes)); }
Fault place(const Step& s, const OpStats& b) {
  Fault f;
  f.kind = static_cast<int>(s.i("kind"));
  f.persist = s.i("persist") != 0;
  int64_t arg = s.i("arg");
  if (arg < 0) arg = -arg;
  f.seed = static_cast<uint64_t>(s.i("pos") * 1000 + arg);
  f.fired = 0;
  f.at = 0;
  f.arg = 0;
  static const int werr[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE}, oerr[] = {EACCES, EMFILE, ENOSPC, EROFS, EIO, ENFILE, EISDIR}, rerr[] = {EIO, EIO, ESTALE, EISDIR};
  switch (f.kind) {
    case F_OPEN: f.at = spread(s, static_cast<int64_t>(b.opens)); f.arg = oerr[arg % 7]; break;
    case F_READ: f.at = spread(s, static_cast<int64_t>(b.rbytes)); f.arg = rerr[arg % 4]; break;
    case F_WRITE: f.at = spread(s, static_cast<int64_t>(b.wbytes)); f.arg = werr[arg % 5]; break;
    case F_CLOSE: f.at = spread(s, static_cast<int64_t>(b.closes)); f.arg = arg % 2 ? EIO : ENOSPC; break;
    case F_SEEK: f.at = spread(s, static_cast<int64_t>(b.seeks)); f.arg = EIO; break;
    case F_SYNC: case F_RENAME: f.arg = EIO; break;
    case F_SHORT_R: case F_SHORT_W: f.persist = true; f.arg = 1 + (arg % 3 == 0 ? 0 : arg % 3 == 1 ? arg % 40 : arg * 7); break;
    case F_EINTR_R: case F_EINTR_W: f.persist = true; f.arg = 5 + arg % 80; break;
    case F_SHRINK: f.at = spread(s, static_cast<int64_t>(b.rbytes)); f.arg = b.rbytes ? arg * 7919 % static_cast<int64_t>(b.rbytes) : 0; f.persist = false; break;
    case F_OVERWRITE: f.at = spread(s, static_cast<int64_t>(b.rbytes)); f.arg = arg * 104729 % static_cast<int64_t>(b.rbytes + 1); f.persist = false; break;
    case F_ALLOC: f.at = spread(s, static_cast<int64_t>(b.allocs)); break;
    case F_ENTROPY: f.at = spread(s, static_cast<int64_t>(b.entropy)); break;
    case F_PEER: f.at = pos_of_peer(s, b); f.arg = 1 + arg % 4; f.persist = true; break;
    default: f.kind = F_NONE; break;
  }
  return f;
}
std::vector<Fault> faults_of(const Plan& p, const OpStats& base, const char* op) {
  std::vector<Fault> v;
  for (auto& s : p.steps) if (s.op == op) { Fault f = place(s, base); if (f.kind) v.push_back(f); }
  return v;
}
