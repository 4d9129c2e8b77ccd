#include "model.hh"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <map>
#include <set>

std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string r;
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
  return r;
}
std::string quote(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c >= 127) { r += "\\x"; r += d[c >> 4]; r += d[c & 15]; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}
void all_groups(MGroup& g, std::vector<MGroup*>& out) {
  out.push_back(&g);
  for (auto& c : g.groups) all_groups(c, out);
}
void all_groups(const MGroup& g, std::vector<const MGroup*>& out) {
  out.push_back(&g);
  for (auto& c : g.groups) all_groups(c, out);
}

// ---- dump ----------------------------------------------------------------------------------------------------
namespace {
struct D {
  std::string o;
  Proj p;
  const ModelDb* m;
  void kv(const std::string& pre, const char* k, const std::string& v) { o += pre; o += k; o += '='; o += v; o += '\n'; }
  void n(const std::string& pre, const char* k, int64_t v) { kv(pre, k, std::to_string(v)); }
  void s(const std::string& pre, const char* k, const std::string& v) { kv(pre, k, quote(v)); }
  void ps(const std::string& pre, const char* k, const PStr& v) {
    if (p == kKdbx) kv(pre, k, (v.prot ? "P" : "") + quote(v.v)); else s(pre, k, v.v);
  }
  void bin(const std::string& pre, const char* k, const MBin& b) {
    if (p == kKdbx) kv(pre, k, std::string(b.prot ? "P" : b.compress ? "Z" : "") + quote(b.data)); else s(pre, k, b.data);
  }
  void times(const std::string& pre, const MTimes& t, bool move) {
    n(pre, "created", t.creation); n(pre, "modified", t.modification); n(pre, "accessed", t.access); n(pre, "expiry", t.expiry);
    if (move) n(pre, "moved", t.move);
  }
  void entry(const std::string& pre, const MEntry& e) {
    kv(pre, "uuid", hex(e.uuid.data(), 16));
    n(pre, "icon", e.icon);
    ps(pre, "title", e.title); ps(pre, "url", e.url); ps(pre, "user", e.username); ps(pre, "pass", e.password);
    ps(pre, "notes", e.notes);
    times(pre, e.t, p == kKdbx);
    if (p == kKdbx) {
      n(pre, "cicon", e.custom_icon);
      s(pre, "ourl", e.override_url); s(pre, "tags", e.tags); s(pre, "fg", e.fg); s(pre, "bg", e.bg);
      n(pre, "expires", e.expires); n(pre, "usage", e.usage);
      n(pre, "at.on", e.at_enabled); n(pre, "at.obf", e.at_obf); s(pre, "at.seq", e.at_seq);
      for (auto& a : e.assoc) kv(pre, "at.assoc", quote(a.window) + " -> " + quote(a.sequence));
      for (auto& f : e.fields) ps(pre, ("field " + quote(f.first)).c_str(), f.second);
    }
    size_t i = 0;
    for (auto& a : e.atts) {
      std::string q = pre + "att" + std::to_string(i++) + ".";
      s(q, "name", a.name);
      if (a.null) kv(q, "data", "NULL");
      else if (p == kKdbx && a.pool >= 0) n(q, "pool", a.pool);
      else bin(q, "data", a.pool >= 0 ? m->meta.bins[static_cast<size_t>(a.pool)] : a.loose);
    }
    if (p == kKdbx) {
      i = 0;
      for (auto& h : e.history) entry(pre + "hist" + std::to_string(i++) + ".", h);
    }
  }
  void group(const std::string& pre, const MGroup& g, bool root) {
    if (p == kKdbx) kv(pre, "uuid", hex(g.uuid.data(), 16));
    if (!(root && p != kKdbx)) {
      s(pre, "name", g.name);
      n(pre, "icon", g.icon);
      times(pre, g.t, p == kKdbx);
      if (p == kKdb) n(pre, "flags", g.flags);
    }
    if (p == kKdbx) {
      n(pre, "cicon", g.custom_icon);
      s(pre, "notes", g.notes);
      n(pre, "expires", g.expires); n(pre, "usage", g.usage); n(pre, "expanded", g.expanded);
      s(pre, "at.seq", g.at_seq); n(pre, "at", g.autotype); n(pre, "search", g.search); n(pre, "lastvis", g.last_visible);
    }
    size_t i = 0;
    for (auto& e : g.entries) entry(pre + "e" + std::to_string(i++) + ".", e);
    i = 0;
    for (auto& c : g.groups) { kv(pre, "group", std::to_string(i)); group(pre + "g" + std::to_string(i++) + ".", c, false); }
  }
  std::map<std::string, int> index;
  void ref(const char* k, const MRef& r) {
    if (!r.set) { kv("meta.", k, "none"); return; }
    std::string u = hex(r.uuid.data(), 16);
    auto it = index.find(u);
    if (it == index.end()) kv("meta.", k, r.uuid == Uuid() ? "none" : "outside:" + u);
    else if (!r.in_tree) kv("meta.", k, "copy-of:" + std::to_string(it->second));
    else kv("meta.", k, "group#" + std::to_string(it->second));
  }
  void meta(const MMeta& x) {
    std::string q = "meta.";
    s(q, "generator", x.generator); s(q, "color", x.color);
    s(q, "name", x.name.v); n(q, "name.t", x.name.t);
    s(q, "desc", x.desc.v); n(q, "desc.t", x.desc.t);
    s(q, "user", x.user.v); n(q, "user.t", x.user.t);
    n(q, "histdays", x.hist_days); n(q, "keychanged", x.key_changed); n(q, "keyrec", x.key_rec); n(q, "keyforce", x.key_force);
    n(q, "prot", x.prot_title | x.prot_user << 1 | x.prot_pass << 2 | x.prot_url << 3 | x.prot_notes << 4);
    ref("recycle", x.recycle); n(q, "recycle.t", x.recycle_t);
    ref("templates", x.templates); n(q, "templates.t", x.templates_t);
    n(q, "histitems", x.hist_items); n(q, "histsize", x.hist_size);
    ref("selected", x.selected); ref("visible", x.visible);
    for (auto& i : x.icons) kv(q, "iconpic", hex(i.uuid.data(), 16) + " " + quote(i.data));
    for (auto& b : x.bins) bin(q, "bin", b);
    for (auto& c : x.custom) kv(q, "custom", quote(c.first) + " = " + quote(c.second));
  }
};
}  // namespace

std::string dump(const ModelDb& m, Proj p, bool header) {
  D d;
  d.p = p;
  d.m = &m;
  if (header && p != kCommon) {
    d.n("db.", "cipher", m.cipher);
    d.kv("db.", "seed", hex(m.master_seed.data(), m.master_seed.size()));
    d.kv("db.", "iv", hex(m.iv.data(), m.iv.size()));
    d.kv("db.", "tseed", hex(m.tseed.data(), m.tseed.size()));
    d.n("db.", "rounds", static_cast<int64_t>(m.rounds));
    if (p == kKdbx) {
      d.kv("db.", "inner", hex(m.inner_key.data(), m.inner_key.size()));
      d.n("db.", "compress", m.compress);
    }
  }
  if (p == kKdbx) {
    std::vector<const MGroup*> gs;
    all_groups(m.root, gs);
    int i = 0;
    for (auto g : gs) d.index.insert({hex(g->uuid.data(), 16), i++});
    if (m.has_meta) d.meta(m.meta); else d.kv("meta.", "absent", "1");
  }
  d.group("root.", m.root, true);
  return d.o;
}

std::string first_diff(const std::string& a, const std::string& b) {
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    size_t ie = a.find('\n', i), je = b.find('\n', j);
    std::string x = i < a.size() ? a.substr(i, ie - i) : "<end>", y = j < b.size() ? b.substr(j, je - j) : "<end>";
    if (x != y) {
      if (x.size() > 160) x = x.substr(0, 160) + "...";
      if (y.size() > 160) y = y.substr(0, 160) + "...";
      return "expected " + x + " | got " + y;
    }
    i = ie == std::string::npos ? a.size() : ie + 1;
    j = je == std::string::npos ? b.size() : je + 1;
  }
  return "";
}

// ---- generator -----------------------------------------------------------------------------------------------
static std::string word(Rng& r) {
  static const char* a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";
  std::string s;
  size_t n = 1 + r.below(10);
  for (size_t i = 0; i < n; ++i) s += a[r.below(65)];
  return s;
}
static std::string unicode(Rng& r) {
  static const char* u[] = {"\xc3\xa5", "\xe2\x82\xac", "\xf0\x9f\x94\x91", "\xd0\x96", "\xe4\xb8\xad", "\xcc\x81", "\xe2\x80\xa8", "\xef\xbf\xbd",
                            "\xc2\x85", "\xc2\xa0", "\xef\xbb\xbf", "\xed\x9f\xbf", "\xf4\x8f\xbf\xbf", "\x7f"};
  std::string s;
  size_t n = 1 + r.below(5);
  for (size_t i = 0; i < n; ++i) s += u[r.below(14)];
  return s;
}
static std::string piece(Rng& r, uint32_t f, bool kdbx) {
  for (int tries = 0; tries < 4; ++tries) {
    switch (r.below(9)) {
      case 0: if (f & fUnicode) return unicode(r); break;
      case 1: if (f & fSpace) return std::string(1 + r.below(3), r.chance(1, 4) ? '\t' : ' '); break;
      case 2: if (f & fCr) return r.pick(std::vector<std::string>{"\r\n", "\r", "\n", "\n\n", "\r\r\n"}); break;
      case 3: if (f & fCtrl) return std::string(1, static_cast<char>(1 + r.below(31))); break;
      case 4:
        if (f & fXml)
          return r.pick(std::vector<std::string>{"<", ">", "&", "\"", "'", "&amp;", "&#65;", "]]>", "<!--", "<![CDATA[", "</Value>", "<?x", "&lt",
                                                 "%s%n", "\\", "{REF:T@I:0}", "=", "0", "-1", "true", "2999-12-28T22:59:59Z"});
        break;
      case 5: if (!kdbx && (f & fCtrl)) return std::string(1, static_cast<char>(128 + r.below(128))); break;
      default: return word(r);
    }
  }
  return word(r);
}
std::string trim(std::string s) {
  size_t b = s.find_first_not_of(" \t\r\n");
  if (b == std::string::npos) return "";
  return s.substr(b, s.find_last_not_of(" \t\r\n") - b + 1);
}
// Unprotected KDBX text loses white space at its edges (a known finding), so it has some only if fEdge asks for it.
std::string gen_text(Rng& r, uint32_t f, bool kdbx, bool nonempty) {
  bool edge = !kdbx || (f & fEdge);
  if (!nonempty && r.chance(1, 5)) return "";
  if ((f & fSpaceOnly) && r.chance(1, 10)) {
    std::string w = r.pick(std::vector<std::string>{" ", "   ", "\t", "\n", " \n "});
    if (edge) return w;
    return nonempty ? word(r) : "";
  }
  size_t n = 1 + r.below(4);
  if ((f & fLong) && r.chance(1, 25)) n = 40 + r.below(2500);
  std::string s;
  for (size_t i = 0; i < n; ++i) s += piece(r, f, kdbx);
  if ((f & fSpace) && r.chance(1, 5)) s = (r.chance(1, 2) ? " " : "\t") + s;
  if ((f & fSpace) && r.chance(1, 5)) s += r.chance(1, 2) ? " " : "\n";
  if (!edge) { s = trim(s); if (s.empty() && nonempty) s = word(r); }
  return s;
}

static bool same_wall(int64_t a, int64_t b) {
  time_t x = a, y = b;
  struct tm p, q;
  localtime_r(&x, &p);
  localtime_r(&y, &q);
  return p.tm_sec == q.tm_sec && p.tm_min == q.tm_min && p.tm_hour == q.tm_hour && p.tm_mday == q.tm_mday && p.tm_mon == q.tm_mon && p.tm_year == q.tm_year;
}
static bool ambiguous(int64_t t) {
  for (int d : {900, 1200, 1800, 3600, 5400, 7200, 10800}) if (same_wall(t, t + d) || same_wall(t, t - d)) return true;
  return false;
}
int64_t gen_time(Rng& r, uint32_t f, bool kdbx) {
  static const int64_t kSentinel = 32503417199ll;  // 2999-12-28T22:59:59Z denotes "never"
  if (r.chance(1, 6)) return 0;
  int64_t t;
  if (kdbx) {
    if (!(f & fTimes)) t = 1000000000 + static_cast<int64_t>(r.below(800000000));
    else switch (r.below(6)) {
      case 0: t = r.range(-62135596800ll, 253402300799ll); break;
      case 1: t = r.range(-200, 200); break;
      case 2: t = r.pick(std::vector<int64_t>{-62135596800ll, 253402300799ll, 1, -1, 951782400, 2147483647, 2147483648ll, 4294967296ll, -2147483649ll}); break;
      case 3: t = r.range(32503200000ll, 32503700000ll); break;
      default: t = r.range(0, 4102444800ll); break;
    }
    if (t == kSentinel) t += 5;
    return t;
  }
  if (!(f & fTimes)) t = 1000000000 + static_cast<int64_t>(r.below(800000000));
  else switch (r.below(5)) {
    case 0: t = r.range(40000000, 29348000000ll); break;
    case 1: {                       // around daylight-saving changes: last Sundays and first/second Sundays
      int64_t year = r.range(0, 80);
      int64_t base = 31536000ll * year + 86400 * (year + 1) / 4;
      t = base + 86400 * r.pick(std::vector<int64_t>{66, 73, 86, 89, 96, 276, 280, 300, 303, 307}) + r.range(-90000, 90000);
      if (t < 40000000) t += 40000000;
      break;
    }
    case 2: t = r.pick(std::vector<int64_t>{946684799, 946684800, 951782400, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 4102444799ll, 1456704000}); break;
    default: t = r.range(40000000, 4102444800ll); break;
  }
  while (ambiguous(t) || (t >= 32503000000ll && t <= 32504000000ll)) t += 10801;
  return t;
}
static MTimes gen_times(Rng& r, uint32_t f, bool kdbx) {
  MTimes t;
  t.creation = gen_time(r, f, kdbx); t.modification = gen_time(r, f, kdbx); t.access = gen_time(r, f, kdbx); t.expiry = gen_time(r, f, kdbx);
  if (kdbx) t.move = gen_time(r, f, kdbx);
  return t;
}
static uint32_t gen_u32(Rng& r, uint32_t f) {
  if (f & fInts) return r.pick(std::vector<uint32_t>{0, 1, 68, 69, 255, 65535, 65536, 2147483647u, 2147483648u, 4294967295u, static_cast<uint32_t>(r.next())});
  return static_cast<uint32_t>(r.below(69));
}
static Uuid gen_uuid(Rng& r) { Uuid u; for (auto& b : u) b = r.byte(); return u; }
static PStr gen_pstr(Rng& r, const GenOpt& o) {
  PStr s;
  if (o.kdbx && (o.feats & fProt) && r.chance(1, 3)) {
    s.prot = true;
    if (r.chance(1, 6) && o.marker.empty()) { s.v = r.bytes(r.below(200)); return s; }
  }
  s.v = gen_text(r, s.prot ? o.feats | fEdge : o.feats, o.kdbx);
  if (!o.marker.empty()) s.v = o.marker + s.v;
  return s;
}
static MBin gen_bin(Rng& r, const GenOpt& o, bool pooled) {
  MBin b;
  size_t n = 1 + r.below(60);
  if (r.chance(1, 12)) n = 16 * (1 + r.below(40));
  if ((o.feats & fBigBin) && r.chance(1, 6)) n = 1000 + r.below(40000);
  b.data = r.chance(1, 4) ? std::string(n, static_cast<char>(r.byte())) : r.bytes(n);
  if ((o.feats & fEmptyBin) && r.chance(1, 6)) b.data.clear();
  if (!o.marker.empty()) b.data = o.marker + b.data;
  if (!o.kdbx) return b;
  if ((o.feats & fProtBin) && r.chance(1, 3)) b.prot = true;
  else if (pooled && (o.feats & fCompressBin) && r.chance(1, 2)) b.compress = true;
  return b;
}
MEntry gen_entry(Rng& r, ModelDb& db, const GenOpt& o, int depth) {
  const uint32_t f = o.feats;
  MEntry e;
  e.uuid = gen_uuid(r);
  e.icon = gen_u32(r, f);
  e.title = gen_pstr(r, o); e.url = gen_pstr(r, o); e.username = gen_pstr(r, o); e.password = gen_pstr(r, o); e.notes = gen_pstr(r, o);
  e.t = gen_times(r, f, o.kdbx);
  if (o.marker.empty() && r.chance(1, 25)) {            // what other programs mark as their own records
    static const char* w[] = {"Meta-Info", "$", "SYSTEM"};
    PStr* to[] = {&e.title, &e.url, &e.username};
    bool all = r.chance(3, 4);
    for (int i = 0; i < 3; ++i) if (all || r.chance(2, 3)) to[i]->v = w[i];
    if (e.notes.v.empty() || r.chance(1, 2)) e.notes.v = r.chance(1, 2) ? "KPX_GROUP_TREE_STATE" : "Default User Name";
    MAtt a;
    a.name = "bin-stream";
    a.loose = gen_bin(r, o, false);
    if (!o.kdbx || (f & fLoose)) e.atts.push_back(a);
    if (!o.kdbx) return e;
  }
  if (!o.kdbx) {
    if (r.chance(1, 3)) {
      MAtt a;
      a.loose = gen_bin(r, o, false);
      if (r.chance(4, 5) || a.loose.data.empty()) a.name = o.marker + gen_text(r, f, false, true);
      e.atts.push_back(a);
    }
    return e;
  }
  if ((f & fIcons) && !db.meta.icons.empty() && r.chance(1, 3)) e.custom_icon = static_cast<int>(r.below(db.meta.icons.size()));
  e.override_url = gen_text(r, f, true); e.tags = gen_text(r, f, true); e.fg = gen_text(r, f, true); e.bg = gen_text(r, f, true);
  e.expires = r.chance(1, 2);
  e.usage = gen_u32(r, f);
  e.at_enabled = r.chance(1, 2);
  e.at_obf = static_cast<uint32_t>(r.below(2));
  e.at_seq = gen_text(r, f, true);
  if (f & fAssoc) for (size_t n = r.below(3); n-- > 0;) e.assoc.push_back({gen_text(r, f, true), gen_text(r, f, true)});
  if (f & fFields) for (size_t n = r.below(4); n-- > 0;) e.fields.push_back({"k" + gen_text(r, f, true, true), gen_pstr(r, o)});
  if (f & (fPool | fLoose)) for (size_t n = r.below(3); n-- > 0;) {
    MAtt a;
    a.name = o.marker + gen_text(r, f, true);
    if ((f & fPool) && !db.meta.bins.empty() && (!(f & fLoose) || r.chance(2, 3))) a.pool = static_cast<int>(r.below(db.meta.bins.size()));
    else if (f & fLoose) a.loose = gen_bin(r, o, false);
    else continue;
    e.atts.push_back(a);
  }
  if ((f & fHistory) && depth < 2 && r.chance(1, 3)) for (size_t n = 1 + r.below(3); n-- > 0;) {
    MEntry h = gen_entry(r, db, o, depth + 1 + static_cast<int>(r.below(2)));
    if (r.chance(3, 4)) h.uuid = e.uuid;
    e.history.push_back(h);
  }
  return e;
}
MGroup gen_group(Rng& r, ModelDb& db, const GenOpt& o) {
  const uint32_t f = o.feats;
  MGroup g;
  g.uuid = gen_uuid(r);
  g.icon = gen_u32(r, f);
  g.name = o.marker + gen_text(r, f, o.kdbx);
  if (o.marker.empty() && r.chance(1, 20)) g.name = r.pick(std::vector<std::string>{"Backup", "Recycle Bin", "General", "eMail", "Root", "$"});
  g.t = gen_times(r, f, o.kdbx);
  if (!o.kdbx) { g.flags = static_cast<uint16_t>(f & fInts ? r.next() : r.below(2)); return g; }
  if ((f & fIcons) && !db.meta.icons.empty() && r.chance(1, 4)) g.custom_icon = static_cast<int>(r.below(db.meta.icons.size()));
  g.notes = o.marker + gen_text(r, f, true);
  g.expires = r.chance(1, 2); g.expanded = r.chance(1, 2); g.autotype = r.chance(1, 2); g.search = r.chance(1, 2);
  g.usage = gen_u32(r, f);
  g.at_seq = gen_text(r, f, true);
  return g;
}
static MTemporal gen_temporal(Rng& r, uint32_t f) { MTemporal t; t.v = gen_text(r, f, true); t.t = gen_time(r, f, true); return t; }
static int64_t gen_i64(Rng& r, uint32_t f) {
  if (f & fInts) return r.pick(std::vector<int64_t>{-1, 0, 1, 6291456, 2147483648ll, -2147483649ll, 9223372036854775807ll, -9223372036854775807ll - 1, static_cast<int64_t>(r.next())});
  return static_cast<int64_t>(r.below(10000)) - 1;
}
static MRef pick_ref(Rng& r, ModelDb& db, const GenOpt& o) {
  MRef x;
  if ((o.feats & fUnsetRefs) && r.chance(1, 3)) return x;
  std::vector<MGroup*> gs;
  all_groups(db.root, gs);
  x.set = true;
  x.uuid = gs[r.below(gs.size())]->uuid;
  return x;
}

// Many elements of one kind, more than any other database of the run has.
static void many(ModelDb& db, MGroup& g, Rng& r, const GenOpt& o) {
  const uint32_t f = o.feats;
  int n = r.pick(std::vector<int>{9, 10, 11, 16, 17, 33, 64, 65, 100, 128, 129, 200, 255, 256, 257, 300});
  MEntry e = gen_entry(r, db, o);
  auto num = [](const char* p, int i) { return p + std::to_string(i); };
  switch (r.below(9)) {
    case 0: case 1:
      for (int i = 0; i < n; ++i) { MBin b; b.data = o.marker + num("data", i) + r.bytes(r.below(4)); b.prot = (f & fProtBin) && r.chance(1, 4); db.meta.bins.push_back(b); }
      for (int i = 0, k = static_cast<int>(db.meta.bins.size()); i < 12; ++i) { MAtt a; a.name = o.marker + num("file", i); a.pool = r.chance(1, 3) ? k - 1 - i % k : static_cast<int>(r.below(static_cast<uint64_t>(k))); e.atts.push_back(a); }
      break;
    case 2:
      for (int i = 0; i < n; ++i) db.meta.icons.push_back({gen_uuid(r), o.marker + num("icon", i)});
      e.custom_icon = static_cast<int>(r.below(db.meta.icons.size()));
      g.custom_icon = static_cast<int>(db.meta.icons.size()) - 1;
      break;
    case 3: for (int i = 0; i < n; ++i) db.meta.custom.push_back({num("key", i), gen_text(r, f, true)}); break;
    case 4: for (int i = 0; i < n; ++i) e.fields.push_back({num("field", i), gen_pstr(r, o)}); break;
    case 5: for (int i = 0; i < n; ++i) e.assoc.push_back({num("window", i), gen_text(r, f, true)}); break;
    case 6: case 7:
      for (int i = 0; i < n; ++i) { MEntry h; h.uuid = e.uuid; h.title.v = o.marker + num("version", i); h.t = gen_times(r, f, true); h.usage = gen_u32(r, f); e.history.push_back(h); }
      break;
    case 8: for (int i = 0; i < n; ++i) { MAtt a; a.name = o.marker + num("file", i); a.loose.data = o.marker + num("data", i); e.atts.push_back(a); } break;
  }
  g.entries.push_back(e);
}

ModelDb generate(const GenOpt& o) {
  ModelDb db;
  Rng r(mix64(o.seed, 11));
  const uint32_t f = o.feats;
  db.kdbx = o.kdbx;
  db.has_meta = o.kdbx;
  db.cipher = o.kdbx ? 0 : static_cast<int>(r.below(2));
  size_t ms = o.kdbx ? 32 : 16;
  if (o.kdbx && (f & fInts)) ms = r.pick(std::vector<size_t>{32, 32, 16, 0, 1, 64, 1000});
  db.master_seed = r.bytes(ms);
  db.iv = r.bytes(16);
  db.tseed = r.bytes(32);
  db.inner_key = r.bytes(32);
  db.rounds = r.chance(1, 12) ? 200 + r.below(500) : r.below(7);
  if (o.rounds) db.rounds = o.rounds;
  db.compress = o.kdbx && r.chance(1, 2);
  if (o.plain) db.compress = false;
  if (o.kdbx) {
    MMeta& m = db.meta;
    m.generator = gen_text(r, f, true);
    m.name = gen_temporal(r, f); m.desc = gen_temporal(r, f); m.user = gen_temporal(r, f);
    m.color = gen_text(r, f, true);
    if (f & fMeta) {
      m.hist_days = gen_u32(r, f);
      m.key_changed = gen_time(r, f, true); m.key_rec = gen_i64(r, f); m.key_force = gen_i64(r, f);
      m.prot_title = r.chance(1, 2); m.prot_user = r.chance(1, 2); m.prot_pass = r.chance(1, 2); m.prot_url = r.chance(1, 2); m.prot_notes = r.chance(1, 2);
      m.hist_items = static_cast<int32_t>(gen_i64(r, f)); m.hist_size = gen_i64(r, f);
    }
    m.recycle_t = gen_time(r, f, true); m.templates_t = gen_time(r, f, true);
    if (f & fIcons) for (size_t n = 1 + r.below(3); n-- > 0;) m.icons.push_back({gen_uuid(r), o.marker + r.bytes(1 + r.below(r.chance(1, 20) ? 6000 : 80))});
    if (f & fPool) for (size_t n = 1 + r.below(f & fShared ? 3 : 12); n-- > 0;) m.bins.push_back(gen_bin(r, o, true));
    if (f & fCustom) for (size_t n = r.below(4); n-- > 0;) m.custom.push_back({"c" + gen_text(r, f, true, true), gen_text(r, f, true)});
  }
  db.root = gen_group(r, db, o);
  if (!o.kdbx) { MGroup root; root.uuid = db.root.uuid; db.root = root; }
  int ng = o.groups;
  if (!o.kdbx && ng < 1 && o.entries > 0) ng = 1;
  MGroup* last = &db.root;                       // for deep chains
  for (int i = 0; i < ng; ++i) {
    std::vector<MGroup*> gs;
    all_groups(db.root, gs);
    MGroup* parent = gs[r.below(gs.size())];
    if ((f & fDeep) && (r.chance(3, 4) || (ng >= 100 && o.seed % 3 == 0))) parent = last;
    MGroup g = gen_group(r, db, o);
    size_t at = parent->groups.size();
    parent->groups.push_back(g);
    last = &parent->groups[at];
  }
  std::vector<MGroup*> gs;
  all_groups(db.root, gs);
  for (int i = 0; i < o.entries; ++i) {
    size_t k = o.kdbx && ((f & fRootEntries) || gs.size() == 1) ? r.below(gs.size()) : 1 + r.below(gs.size() - 1);
    gs[k]->entries.push_back(gen_entry(r, db, o));
  }
  if (o.flat != 0 && gs.size() > 1) {
    MEntry e = gen_entry(r, db, o);
    MGroup g = gen_group(r, db, o);
    for (int i = 0; i < std::abs(o.flat); ++i) {
      if (o.flat < 0) { g.name = "g" + std::to_string(i); gs.back()->groups.push_back(g); continue; }
      for (size_t k = 0; k < 4; ++k) e.uuid[k] = static_cast<char>(i >> (8 * k));
      e.title.v = "e" + std::to_string(i);
      gs.back()->entries.push_back(e);
    }
  }
  if (o.big > 0 && !gs.empty()) {
    MGroup* g = gs[gs.size() - 1];
    MEntry e = gen_entry(r, db, o);
    e.atts.clear();
    MAtt a;
    a.name = "big";
    if (o.marker.empty() && (r.chance(1, 3) || o.plain)) {           // a long text instead
      std::string t;
      while (t.size() < static_cast<size_t>(o.big)) t += piece(r, f & ~static_cast<uint32_t>(fSpace | fSpaceOnly | fCr | fCtrl), o.kdbx);
      auto in = [&](PStr& q) { q.prot = o.kdbx && r.chance(1, 2); q.v = t; };
      switch (r.below(o.kdbx ? 16 : 6)) {
        case 0: in(e.title); break;
        case 1: in(e.url); break;
        case 2: in(e.username); break;
        case 3: in(e.password); break;
        case 4: if (g != &db.root || o.kdbx) { g->name = t; break; } [[fallthrough]];
        default: in(e.notes); break;
        case 6: e.tags = t; break;
        case 7: e.override_url = t; break;
        case 8: e.at_seq = t; break;
        case 9: e.assoc.push_back({"w", t}); break;
        case 10: { PStr q; in(q); e.fields.push_back({"big", q}); break; }
        case 11: g->notes = t; break;
        case 12: g->at_seq = t; break;
        case 13: if (db.has_meta) { db.meta.custom.push_back({"big", t}); break; } in(e.title); break;
        case 14: if (db.has_meta) { db.meta.desc.v = t; break; } in(e.url); break;
      }
    }
    else if (o.kdbx && o.marker.empty() && db.has_meta && r.chance(1, 6)) {
      db.meta.icons.push_back({gen_uuid(r), r.bytes(static_cast<size_t>(o.big))});
      e.custom_icon = static_cast<int>(db.meta.icons.size() - 1);
    }
    else a.loose.data = r.bytes(static_cast<size_t>(o.big));
    if (o.kdbx && (o.feats & fPool)) { db.meta.bins.push_back(a.loose); a.pool = static_cast<int>(db.meta.bins.size() - 1); a.loose = MBin(); }
    e.atts.push_back(a);
    g->entries.push_back(e);
  }
  if (o.kdbx && (f & fMany) && r.chance(1, 25)) many(db, *gs[gs.size() - 1], r, o);
  if (o.kdbx) {
    if (f & fRefs) {
      for (auto g : gs) if (!g->entries.empty() && r.chance(1, 2)) g->last_visible = static_cast<int>(r.below(g->entries.size()));
      db.meta.recycle = pick_ref(r, db, o);
      db.meta.templates = pick_ref(r, db, o);
    } else {
      db.meta.templates.set = true;
      db.meta.templates.uuid = db.root.uuid;
    }
    if (f & fRefs) { db.meta.selected = pick_ref(r, db, o); db.meta.visible = pick_ref(r, db, o); }
    else { db.meta.selected.set = db.meta.visible.set = true; db.meta.selected.uuid = db.meta.visible.uuid = db.root.uuid; }
  }
  return db;
}

// ---- edits: scalar changes and additions (the library's object model cannot remove) -----------------------------
void edit(ModelDb& db, Rng& r, const GenOpt& o) {
  std::vector<MGroup*> gs;
  all_groups(db.root, gs);
  const uint32_t f = o.feats;
  MGroup* g = gs[r.below(gs.size())];
  MEntry* e = nullptr;
  for (int i = 0; i < 4 && !e; ++i) {
    MGroup* h = gs[r.below(gs.size())];
    if (!h->entries.empty()) { e = &h->entries[r.below(h->entries.size())]; if (!e->history.empty() && r.chance(1, 4)) e = &e->history[r.below(e->history.size())]; }
  }
  int what = static_cast<int>(r.below(o.kdbx ? 23 : 13));
  if (!o.kdbx && what == 12) what = 22;
  switch (what) {
    case 0: { MGroup n = gen_group(r, db, o); g->groups.push_back(n); break; }
    case 1: {
      if (!o.kdbx && g == &db.root) break;
      MEntry n = gen_entry(r, db, o);
      g->entries.push_back(n);
      break;
    }
    case 2: if (e) e->title = gen_pstr(r, o); break;
    case 3: if (e) e->password = gen_pstr(r, o); break;
    case 4: if (e) e->notes = gen_pstr(r, o); break;
    case 5: if (e) { e->t = gen_times(r, f, o.kdbx); e->icon = gen_u32(r, f); } break;
    case 6: if (g != &db.root || o.kdbx) g->name = o.marker + gen_text(r, f, o.kdbx); break;
    case 7: if (g != &db.root || o.kdbx) { g->t = gen_times(r, f, o.kdbx); g->icon = gen_u32(r, f); } break;
    case 8: if (e) e->username = gen_pstr(r, o); break;
    case 9: if (e) e->url = gen_pstr(r, o); break;
    case 10:
      if (o.kdbx) { if (e && (f & fLoose)) { MAtt a; a.name = gen_text(r, f, true); a.loose = gen_bin(r, o, false); e->atts.push_back(a); } }
      else if (e && e->atts.empty()) { MAtt a; a.name = gen_text(r, f, false, true); a.loose = gen_bin(r, o, false); e->atts.push_back(a); }
      break;
    case 11: db.rounds = r.below(9); db.iv = r.bytes(16); if (o.kdbx) db.compress = !db.compress; else db.cipher ^= 1; break;
    case 12: if (e && (f & fPool)) { db.meta.bins.push_back(gen_bin(r, o, true)); MAtt a; a.name = gen_text(r, f, true); a.pool = static_cast<int>(db.meta.bins.size() - 1); e->atts.push_back(a); } break;
    case 13: if (e && (f & fIcons)) { db.meta.icons.push_back({gen_uuid(r), r.bytes(1 + r.below(50))}); e->custom_icon = static_cast<int>(db.meta.icons.size() - 1); } break;
    case 14: if (e && (f & fHistory)) { MEntry h = *e; h.history.clear(); e->history.push_back(h); e->title = gen_pstr(r, o); } break;
    case 15: if (e && (f & fFields)) e->fields.push_back({"k" + gen_text(r, f, true, true), gen_pstr(r, o)}); break;
    case 16: if (e) { e->tags = gen_text(r, f, true); e->expires = !e->expires; e->usage = gen_u32(r, f); e->at_seq = gen_text(r, f, true); } break;
    case 17: if (f & fRefs) { db.meta.recycle = pick_ref(r, db, o); db.meta.recycle_t = gen_time(r, f, true); } break;
    case 18: if (f & fRefs) { db.meta.selected = pick_ref(r, db, o); db.meta.visible = pick_ref(r, db, o); } break;
    case 19: if (f & fMeta) { db.meta.name = gen_temporal(r, f); db.meta.key_rec = gen_i64(r, f); db.meta.prot_title = !db.meta.prot_title; } break;
    case 20: if ((f & fRefs) && !g->entries.empty()) g->last_visible = static_cast<int>(r.below(g->entries.size())); break;
    case 21: if (!db.meta.bins.empty() && r.chance(1, 2)) { MBin b = gen_bin(r, o, true); db.meta.bins[r.below(db.meta.bins.size())] = b; } break;
    case 22:
      if (e && !e->atts.empty()) {
        MAtt& a = e->atts[r.below(e->atts.size())];
        if (r.chance(1, 2)) a.name = gen_text(r, f, o.kdbx, !o.kdbx);
        if (a.pool < 0 && !a.null && r.chance(1, 2)) a.loose = gen_bin(r, o, false);
        if (!o.kdbx && a.name.empty() && a.loose.data.empty()) a.name = "file";
      }
      break;
  }
}

namespace model {
void PtrIndex::add(const void* p) {
  auto it = std::lower_bound(sorted_.begin(), sorted_.end(), std::make_pair(p, -1));
  if (it != sorted_.end() && it->first == p) return;
  int n = static_cast<int>(sorted_.size());
  sorted_.insert(it, {p, n});
}
int PtrIndex::find(const void* p, int missing) const {
  auto it = std::lower_bound(sorted_.begin(), sorted_.end(), std::make_pair(p, -1));
  return it != sorted_.end() && it->first == p ? it->second : missing;
}
}  // namespace model
