#include "refcodec.hh"

#include <cstdio>
#include <cstring>
#include <ctime>
#include <map>

#include "refcrypto.hh"

namespace ref {

// ---- XML parser ----------------------------------------------------------------------------------------------
const Xn* Xn::kid(const char* n) const {
  for (auto& k : kids) if (k.name == n) return &k;
  return nullptr;
}
const std::string* Xn::attr(const char* n) const {
  for (auto& a : attrs) if (a.first == n) return &a.second;
  return nullptr;
}
namespace {
struct Xp {
  const std::string& s;
  size_t i = 0;
  int depth = 0;
  explicit Xp(const std::string& t) : s(t) {}
  [[noreturn]] void bad(const char* m) { throw Err(std::string("XML: ") + m + " at " + std::to_string(i)); }
  bool at(const char* t) const { return s.compare(i, strlen(t), t) == 0; }
  static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
  void ws() { while (i < s.size() && sp(s[i])) ++i; }
  std::string name() {
    size_t b = i;
    while (i < s.size()) {
      unsigned char c = static_cast<unsigned char>(s[i]);
      if (isalnum(c) || c == '_' || c == ':' || c == '-' || c == '.' || c >= 128) ++i; else break;
    }
    if (b == i) bad("name expected");
    return s.substr(b, i - b);
  }
  void misc(bool& more) {          // comment or PI
    more = false;
    if (at("<!--")) { size_t e = s.find("-->", i + 4); if (e == std::string::npos) bad("comment"); i = e + 3; more = true; }
    else if (at("<?")) { size_t e = s.find("?>", i + 2); if (e == std::string::npos) bad("pi"); i = e + 2; more = true; }
  }
  std::string ref_() {
    size_t e = s.find(';', i);
    if (e == std::string::npos || e - i > 12) bad("reference");
    std::string n = s.substr(i + 1, e - i - 1);
    i = e + 1;
    if (n == "lt") return "<";
    if (n == "gt") return ">";
    if (n == "amp") return "&";
    if (n == "quot") return "\"";
    if (n == "apos") return "'";
    if (n.size() < 2 || n[0] != '#') bad("unknown entity");
    char* end = nullptr;
    unsigned long c = n[1] == 'x' ? strtoul(n.c_str() + 2, &end, 16) : strtoul(n.c_str() + 1, &end, 10);
    if (!end || *end || c == 0 || c > 0x10ffff) bad("character reference");
    std::string o;
    if (c < 0x80) o += static_cast<char>(c);
    else if (c < 0x800) { o += static_cast<char>(0xc0 | c >> 6); o += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += static_cast<char>(0xe0 | c >> 12); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
    else { o += static_cast<char>(0xf0 | c >> 18); o += static_cast<char>(0x80 | (c >> 12 & 63)); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
    return o;
  }
  Xn element() {
    if (++depth > 5000) bad("too deep");
    ++i;
    Xn n;
    n.name = name();
    for (;;) {
      size_t b = i;
      ws();
      if (i >= s.size()) bad("tag");
      if (s[i] == '>') { ++i; break; }
      if (at("/>")) { i += 2; --depth; return n; }
      if (b == i) bad("space expected");
      std::string a = name(), v;
      ws();
      if (i >= s.size() || s[i] != '=') bad("=");
      ++i;
      ws();
      char q = i < s.size() ? s[i] : 0;
      if (q != '"' && q != '\'') bad("quote");
      ++i;
      while (i < s.size() && s[i] != q) {
        if (s[i] == '<') bad("< in attribute");
        if (s[i] == '&') v += ref_(); else v += sp(s[i]) ? ' ' : s[i], ++i;
      }
      if (i >= s.size()) bad("attribute end");
      ++i;
      if (n.attr(a.c_str())) bad("duplicate attribute");
      n.attrs.push_back({a, v});
    }
    for (;;) {
      if (i >= s.size()) bad("unexpected end");
      if (s[i] == '<') {
        if (at("</")) {
          i += 2;
          if (name() != n.name) bad("end tag mismatch");
          ws();
          if (i >= s.size() || s[i] != '>') bad("end tag");
          ++i;
          --depth;
          return n;
        }
        if (at("<![CDATA[")) {
          size_t e = s.find("]]>", i);
          if (e == std::string::npos) bad("cdata");
          for (i += 9; i < e; ++i) eol(n.text);
          i = e + 3;
          continue;
        }
        bool more;
        misc(more);
        if (more) continue;
        n.kids.push_back(element());
      } else if (s[i] == '&') n.text += ref_();
      else { if (at("]]>")) bad("]]> in text"); eol(n.text); ++i; }
    }
  }
  void eol(std::string& o) {       // line end normalisation
    if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; }
    else if (static_cast<unsigned char>(s[i]) < 32 && s[i] != '\n' && s[i] != '\t') bad("illegal character");
    else o += s[i];
  }
};
}  // namespace
bool utf8_ok(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!n || i + n > s.size()) return false;
    for (size_t j = 1; j < n; ++j) if ((s[i + j] & 0xc0) != 0x80) return false;
    i += n;
  }
  return true;
}
Xn parse_xml(const std::string& s) {
  if (!utf8_ok(s)) throw Err("XML: not UTF-8");
  Xp p(s);
  if (p.at("\xef\xbb\xbf")) p.i = 3;
  bool more = true;
  while (more) { p.ws(); p.misc(more); }
  if (p.i >= s.size() || s[p.i] != '<') p.bad("no root element");
  Xn r = p.element();
  more = true;
  while (more) { p.ws(); p.misc(more); }
  if (p.i != s.size()) p.bad("content after root");
  return r;
}

// ---- keys ----------------------------------------------------------------------------------------------------
std::string kdbx_key(const Key& k) {
  std::string c;
  if (k.has_pw) c += sha256(k.pw);
  if (k.has_kf) c += k.kf;
  return sha256(c);
}
std::string kdb_key(const Key& k) {
  if (k.has_pw && k.has_kf) return sha256(sha256(k.pw) + k.kf);
  if (k.has_kf) return k.kf;
  return sha256(k.pw);
}
static std::string le(uint64_t v, int n) { std::string s; for (int i = 0; i < n; ++i) s += static_cast<char>(v >> (8 * i)); return s; }
static uint64_t rd(const std::string& s, size_t at, int n) {
  if (at + static_cast<size_t>(n) > s.size()) throw Err("truncated");
  uint64_t v = 0;
  for (int i = 0; i < n; ++i) v |= static_cast<uint64_t>(static_cast<uint8_t>(s[at + static_cast<size_t>(i)])) << (8 * i);
  return v;
}
static std::string transform(const std::string& key, const std::string& seed, uint64_t rounds) { return sha256(aes_ecb_rounds(seed, key, rounds)); }

// ---- KDBX container ------------------------------------------------------------------------------------------
static const char kAesId[] = "\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff";
static const char kInnerIv[] = "\xe8\x30\x09\x4b\x97\x20\x5d\x2a";

std::string kdbx_blocks(const std::string& payload, size_t block) {
  std::string o;
  uint32_t idx = 0;
  for (size_t i = 0; i < payload.size(); i += block) {
    std::string b = payload.substr(i, block);
    o += le(idx++, 4) + sha256(b) + le(b.size(), 4) + b;
  }
  return o + le(idx, 4) + std::string(32, '\0') + le(0, 4);
}
static std::string unblock(const std::string& s) {
  std::string o;
  size_t i = 0;
  for (uint32_t idx = 0;; ++idx) {
    if (rd(s, i, 4) != idx) throw Err("block index");
    if (i + 40 > s.size()) throw Err("block header");
    std::string h = s.substr(i + 4, 32);
    size_t n = rd(s, i + 36, 4);
    i += 40;
    if (n == 0) {
      if (h != std::string(32, '\0')) throw Err("final block hash");
      if (i != s.size()) throw Err("data after the final block");
      return o;
    }
    if (n > s.size() - i) throw Err("block size");
    std::string b = s.substr(i, n);
    if (sha256(b) != h) throw Err("block hash");
    o += b;
    i += n;
  }
}
static std::string field(int id, const std::string& d) { return le(static_cast<uint64_t>(id), 1) + le(d.size(), 2) + d; }
static std::string make_header(const KdbxParts& p, Rng* r) {
  std::vector<std::string> f = {field(2, std::string(kAesId, 16)), field(3, le(p.compress, 4)), field(4, p.master_seed), field(5, p.tseed),
                                field(6, le(p.rounds, 8)), field(7, p.iv), field(8, p.inner_key), field(9, p.start_bytes), field(10, le(2, 4))};
  if (r) for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r->below(i)]);
  std::string h = le(0x9aa2d903, 4) + le(0xb54bfb67, 4) + le(0x00030001, 4);
  for (auto& x : f) h += x;
  return h + field(0, r && r->chance(1, 2) ? "\r\n\r\n" : "");
}
size_t header_size(const std::string& f, bool kdbx) {
  if (!kdbx) return std::min<size_t>(124, f.size());
  for (size_t i = 12; i + 3 <= f.size();) {
    uint8_t id = static_cast<uint8_t>(f[i]);
    i += 3 + (static_cast<uint8_t>(f[i + 1]) | static_cast<size_t>(static_cast<uint8_t>(f[i + 2])) << 8);
    if (!id) return std::min(i, f.size());
  }
  return f.size();
}
std::string kdbx_header(const KdbxParts& p) { return make_header(p, nullptr); }
static std::string final_key(const KdbxParts& p, const Key& k) { return sha256(p.master_seed + transform(kdbx_key(k), p.tseed, p.rounds)); }
std::string kdbx_seal(const KdbxParts& p, const Key& k) {
  return p.header + cbc_encrypt(0, final_key(p, k), p.iv, p.start_bytes + p.blocks);
}
KdbxParts kdbx_open(const std::string& f, const Key& k) {
  KdbxParts p;
  if (rd(f, 0, 4) != 0x9aa2d903 || rd(f, 4, 4) != 0xb54bfb67) throw Err("signature");
  if ((rd(f, 8, 4) & 0xffff0000) != 0x00030000) throw Err("version");
  size_t i = 12;
  unsigned seen = 0;
  for (;;) {
    unsigned id = static_cast<unsigned>(rd(f, i, 1));
    size_t n = rd(f, i + 1, 2);
    if (i + 3 + n > f.size()) throw Err("header field");
    std::string d = f.substr(i + 3, n);
    i += 3 + n;
    if (id > 10 || id == 1 || (id && (seen & 1u << id))) throw Err("header field id");
    seen |= 1u << id;
    auto want = [&](size_t w) { if (n != w) throw Err("header field size"); };
    switch (id) {
      case 2: if (d != std::string(kAesId, 16)) throw Err("cipher"); break;
      case 3: want(4); if (rd(d, 0, 4) > 1) throw Err("compression"); p.compress = rd(d, 0, 4); break;
      case 4: p.master_seed = d; break;
      case 5: want(32); p.tseed = d; break;
      case 6: want(8); p.rounds = rd(d, 0, 8); break;
      case 7: want(16); p.iv = d; break;
      case 8: want(32); p.inner_key = d; break;
      case 9: want(32); p.start_bytes = d; break;
      case 10: want(4); if (rd(d, 0, 4) != 2) throw Err("stream id"); break;
    }
    if (id == 0) break;
  }
  if (seen != 0x7fd) throw Err("header field missing");
  p.header = f.substr(0, i);
  std::string plain;
  if (!cbc_decrypt(0, final_key(p, k), p.iv, f.substr(i), plain)) throw BadKey("padding");
  if (plain.size() < 32 || plain.substr(0, 32) != p.start_bytes) throw BadKey("start bytes");
  p.blocks = plain.substr(32);
  p.payload = unblock(p.blocks);
  if (p.compress) { std::string o; if (!gunzip(p.payload, o)) throw Err("gzip"); p.payload = o; }
  return p;
}

// ---- KDBX document: reading ----------------------------------------------------------------------------------
namespace {
int64_t days_from_civil(int64_t y, unsigned m, unsigned d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = static_cast<unsigned>(y - era * 400), doy = (153 * (m + (m > 2 ? -3u : 9u)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + static_cast<int64_t>(doe) - 719468;
}
int64_t xml_time(const std::string& s) {
  if (s == "2999-12-28T22:59:59Z") return 0;
  int y, mo, d, h, mi, se, n = 0;
  if (sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2dZ%n", &y, &mo, &d, &h, &mi, &se, &n) != 6 || static_cast<size_t>(n) != s.size()) throw Err("time " + quote(s));
  if (mo < 1 || mo > 12 || d < 1 || d > 31 || h > 23 || mi > 59 || se > 59) throw Err("time " + quote(s));
  return days_from_civil(y, static_cast<unsigned>(mo), static_cast<unsigned>(d)) * 86400 + h * 3600 + mi * 60 + se;
}
std::string time_xml(int64_t t) {
  if (t == 0) return "2999-12-28T22:59:59Z";
  int64_t days = t / 86400, sec = t % 86400;
  if (sec < 0) { sec += 86400; --days; }
  int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = static_cast<unsigned>(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  int64_t y = static_cast<int64_t>(yoe) + era * 400 + (m <= 2);
  char b[64];
  snprintf(b, sizeof b, "%04d-%02u-%02uT%02d:%02d:%02dZ", static_cast<int>(y), m, d, static_cast<int>(sec / 3600), static_cast<int>(sec / 60 % 60), static_cast<int>(sec % 60));
  return b;
}
struct Kr {
  ModelDb m;
  Salsa20 salsa;
  std::map<std::string, int> pool, icons;
  explicit Kr(const std::string& inner) : salsa(sha256(inner), std::string(kInnerIv, 8)) {}
  // Decrypts all protected elements in document order.
  void decrypt(Xn& n) {
    const std::string* p = n.attr("Protected");
    if (p && boolean(*p)) {
      std::string raw;
      if (!n.kids.empty() || !unb64(n.text, raw)) throw Err("protected value of " + n.name);
      n.text = salsa.process(raw);
    }
    for (auto& k : n.kids) decrypt(k);
  }
  static bool boolean(const std::string& s) {
    if (s == "True") return true;
    if (s == "False") return false;
    throw Err("boolean " + quote(s));
  }
  static bool is_prot(const Xn& n) { auto p = n.attr("Protected"); return p && boolean(*p); }
  static std::string str(const Xn& n, const char* k) {
    auto c = n.kid(k);
    if (!c) return "";
    if (!c->kids.empty()) throw Err(std::string("elements inside ") + k);
    return c->text;
  }
  static bool b(const Xn& n, const char* k, bool def = false) { auto c = n.kid(k); return c && !c->text.empty() && c->text != "null" ? boolean(c->text) : def; }
  static int64_t num(const Xn& n, const char* k, int64_t def, int64_t lo, int64_t hi) {
    auto c = n.kid(k);
    if (!c || c->text.empty()) return def;
    char* e = nullptr;
    errno = 0;
    long long v = strtoll(c->text.c_str(), &e, 10);
    if (*e || errno || v < lo || v > hi) throw Err(std::string("number ") + k + " " + quote(c->text));
    return v;
  }
  static uint32_t u32(const Xn& n, const char* k, uint32_t def = 0) { return static_cast<uint32_t>(num(n, k, def, 0, 4294967295ll)); }
  static int64_t time(const Xn& n, const char* k) { auto c = n.kid(k); return c && !c->text.empty() ? xml_time(c->text) : 0; }
  static bool uuid(const Xn& n, const char* k, Uuid& u) {
    u = Uuid();
    auto c = n.kid(k);
    if (!c || c->text.empty()) return false;
    std::string d;
    if (!unb64(c->text, d) || d.size() != 16) throw Err(std::string("identifier ") + k);
    memcpy(u.data(), d.data(), 16);
    return u != Uuid();
  }
  MRef ref(const Xn& n, const char* k) { MRef r; r.set = uuid(n, k, r.uuid); return r; }
  MBin bin(const Xn& n) {
    MBin v;
    v.prot = is_prot(n);
    if (v.prot) { v.data = n.text; return v; }
    if (!unb64(n.text, v.data)) throw Err("base64 of binary");
    auto c = n.attr("Compressed");
    if (c && boolean(*c)) { std::string o; if (!gunzip(v.data, o)) throw Err("gzip of binary"); v.data = o; v.compress = true; }
    return v;
  }
  static int icon(const Xn& n, std::map<std::string, int>& icons) {
    Uuid u;
    if (!uuid(n, "CustomIconUUID", u)) return -1;
    auto it = icons.find(std::string(u.begin(), u.end()));
    return it == icons.end() ? -2 : it->second;
  }
  void meta(const Xn& n) {
    MMeta& x = m.meta;
    x.generator = str(n, "Generator"); x.color = str(n, "Color");
    x.name = {str(n, "DatabaseName"), time(n, "DatabaseNameChanged")};
    x.desc = {str(n, "DatabaseDescription"), time(n, "DatabaseDescriptionChanged")};
    x.user = {str(n, "DefaultUserName"), time(n, "DefaultUserNameChanged")};
    x.hist_days = u32(n, "MaintenanceHistoryDays", 365);
    x.key_changed = time(n, "MasterKeyChanged");
    x.key_rec = num(n, "MasterKeyChangeRec", -1, INT64_MIN, INT64_MAX);
    x.key_force = num(n, "MasterKeyChangeForce", -1, INT64_MIN, INT64_MAX);
    if (auto p = n.kid("MemoryProtection")) {
      x.prot_title = b(*p, "ProtectTitle"); x.prot_user = b(*p, "ProtectUserName"); x.prot_pass = b(*p, "ProtectPassword", true);
      x.prot_url = b(*p, "ProtectURL"); x.prot_notes = b(*p, "ProtectNotes");
    }
    if (b(n, "RecycleBinEnabled", true)) { x.recycle = ref(n, "RecycleBinUUID"); x.recycle.set = true; }   // on without a group: one will be made
    x.recycle_t = time(n, "RecycleBinChanged");
    x.templates = ref(n, "EntryTemplatesGroup");
    x.templates_t = time(n, "EntryTemplatesGroupChanged");
    x.hist_items = static_cast<int32_t>(num(n, "HistoryMaxItems", -1, INT32_MIN, INT32_MAX));
    x.hist_size = num(n, "HistoryMaxSize", -1, INT64_MIN, INT64_MAX);
    x.selected = ref(n, "LastSelectedGroup"); x.visible = ref(n, "LastTopVisibleGroup");
    if (auto c = n.kid("CustomIcons")) for (auto& k : c->kids) if (k.name == "Icon") {
      MIcon i;
      uuid(k, "UUID", i.uuid);
      if (!unb64(str(k, "Data"), i.data)) throw Err("icon data");
      icons[std::string(i.uuid.begin(), i.uuid.end())] = static_cast<int>(x.icons.size());
      x.icons.push_back(i);
    }
    if (auto c = n.kid("Binaries")) for (auto& k : c->kids) if (k.name == "Binary") {
      auto id = k.attr("ID");
      if (!id || pool.count(*id)) throw Err("binary identifier");
      pool[*id] = static_cast<int>(x.bins.size());
      x.bins.push_back(bin(k));
    }
    if (auto c = n.kid("CustomData")) for (auto& k : c->kids) if (k.name == "Item") x.custom.push_back({str(k, "Key"), str(k, "Value")});
  }
  static MTimes times(const Xn& n, bool& expires, uint32_t& usage) {
    MTimes t;
    auto c = n.kid("Times");
    if (!c) return t;
    t.creation = time(*c, "CreationTime"); t.modification = time(*c, "LastModificationTime"); t.access = time(*c, "LastAccessTime");
    t.expiry = time(*c, "ExpiryTime"); t.move = time(*c, "LocationChanged");
    expires = b(*c, "Expires");
    usage = u32(*c, "UsageCount");
    return t;
  }
  MEntry entry(const Xn& n) {
    MEntry e;
    uuid(n, "UUID", e.uuid);
    e.icon = u32(n, "IconID");
    e.custom_icon = icon(n, icons);
    e.fg = str(n, "ForegroundColor"); e.bg = str(n, "BackgroundColor"); e.override_url = str(n, "OverrideURL"); e.tags = str(n, "Tags");
    e.t = times(n, e.expires, e.usage);
    if (auto a = n.kid("AutoType")) {
      e.at_enabled = b(*a, "Enabled"); e.at_obf = u32(*a, "DataTransferObfuscation"); e.at_seq = str(*a, "DefaultSequence");
      for (auto& k : a->kids) if (k.name == "Association") e.assoc.push_back({str(k, "Window"), str(k, "KeystrokeSequence")});
    }
    for (auto& k : n.kids) {
      if (k.name == "String") {
        std::string key = str(k, "Key");
        auto v = k.kid("Value");
        PStr p{str(k, "Value"), v && is_prot(*v)};
        if (key == "Title") e.title = p; else if (key == "URL") e.url = p; else if (key == "UserName") e.username = p;
        else if (key == "Password") e.password = p; else if (key == "Notes") e.notes = p; else e.fields.push_back({key, p});
      } else if (k.name == "Binary") {
        MAtt a;
        a.name = str(k, "Key");
        if (auto v = k.kid("Value")) {
          if (auto r = v->attr("Ref")) { auto it = pool.find(*r); if (it == pool.end()) throw Err("dangling binary"); a.pool = it->second; }
          else { a.loose = bin(*v); a.loose.compress = false; }
        }
        e.atts.push_back(a);
      } else if (k.name == "History") {
        for (auto& h : k.kids) if (h.name == "Entry") e.history.push_back(entry(h));
      }
    }
    return e;
  }
  MGroup group(const Xn& n) {
    MGroup g;
    uuid(n, "UUID", g.uuid);
    g.name = str(n, "Name"); g.notes = str(n, "Notes");
    g.icon = u32(n, "IconID");
    g.custom_icon = icon(n, icons);
    g.t = times(n, g.expires, g.usage);
    g.expanded = b(n, "IsExpanded"); g.at_seq = str(n, "DefaultAutoTypeSequence"); g.autotype = b(n, "EnableAutoType"); g.search = b(n, "EnableSearching");
    for (auto& k : n.kids) {
      if (k.name == "Entry") g.entries.push_back(entry(k));
      else if (k.name == "Group") g.groups.push_back(group(k));
    }
    Uuid u;
    if (uuid(n, "LastTopVisibleEntry", u)) {
      g.last_visible = -2;
      for (size_t i = 0; i < g.entries.size(); ++i) if (g.entries[i].uuid == u) { g.last_visible = static_cast<int>(i); break; }
    }
    return g;
  }
};
}  // namespace

ModelDb kdbx_read(const std::string& f, const Key& k) {
  KdbxParts p = kdbx_open(f, k);
  Kr r(p.inner_key);
  r.m.master_seed = p.master_seed; r.m.iv = p.iv; r.m.tseed = p.tseed; r.m.inner_key = p.inner_key; r.m.rounds = p.rounds; r.m.compress = p.compress;
  Xn x = parse_xml(p.payload);
  if (x.name != "KeePassFile") throw Err("root element");
  r.decrypt(x);
  auto meta = x.kid("Meta"), root = x.kid("Root");
  if (!meta || !root || !root->kid("Group")) throw Err("document structure");
  std::string hh;
  if (!unb64(Kr::str(*meta, "HeaderHash"), hh) || hh != sha256(p.header)) throw Err("header hash");
  r.meta(*meta);
  r.m.root = r.group(*root->kid("Group"));
  return r.m;
}

// ---- KDBX document: writing ----------------------------------------------------------------------------------
namespace {
struct Kw {
  const ModelDb& m;
  Rng r;
  uint32_t o;
  Salsa20 salsa;
  std::string out;
  std::vector<std::string> ids;
  std::string nl, tab;
  Kw(const ModelDb& db, const Layout& l) : m(db), r(mix64(l.seed, 77)), o(l.opts), salsa(sha256(db.inner_key), std::string(kInnerIv, 8)) {
    if (o & lIndent) { nl = r.pick(std::vector<std::string>{"", "\n", "\r\n", "\n\n", " "}); tab = r.pick(std::vector<std::string>{"", "\t", "  "}); }
  }
  // A lazily written element: text is produced when it is emitted, so that the random stream is used in document order.
  struct El { std::string name, raw; std::vector<std::pair<std::string, std::string>> attrs; std::vector<El> kids; int prot = 0; std::string secret; };
  std::string esc(const std::string& s, bool attr, char q = '"') {
    std::string e;
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = static_cast<unsigned char>(s[i]);
      bool must = c == '<' || c == '&' || c == '\r' || (c < 32 && c != '\n' && c != '\t') || (attr && (c == static_cast<unsigned char>(q) || c < 32)) ||
                  (c == '>' && i >= 2 && s[i - 1] == ']' && s[i - 2] == ']');
      bool may = (o & lEscape) && r.chance(1, 8);
      if (!must && !may) {
        if (c == '\n' && !attr && (o & lEscape) && r.chance(1, 4) && (i + 1 >= s.size() || s[i + 1] != '\n')) { e += r.chance(1, 2) ? "\r\n" : "\r"; continue; }
        e += s[i];
        continue;
      }
      uint32_t cp = c;
      size_t n = 1;
      if (c >= 0xc0) {
        n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : 2;
        cp = c & (0x7fu >> n);
        for (size_t j = 1; j < n; ++j) cp = cp << 6 | (static_cast<unsigned char>(s[i + j]) & 63);
        i += n - 1;
      } else if (c >= 0x80) { e += s[i]; continue; }
      const char* ent = cp == '<' ? "&lt;" : cp == '>' ? "&gt;" : cp == '&' ? "&amp;" : cp == '"' ? "&quot;" : cp == '\'' ? "&apos;" : nullptr;
      char b[16];
      if (ent && !((o & lEscape) && r.chance(1, 2))) { e += ent; continue; }
      snprintf(b, sizeof b, (o & lEscape) && r.chance(1, 2) ? (r.chance(1, 2) ? "&#x%x;" : "&#x%04X;") : "&#%u;", cp);
      e += b;
    }
    return e;
  }
  std::string text(const std::string& s) {
    if ((o & lCdata) && !s.empty() && s.find("]]>") == std::string::npos && r.chance(1, 6)) {
      bool ok = true;
      for (unsigned char c : s) if (c < 32 && c != '\n' && c != '\t') ok = false;
      if (ok) return "<![CDATA[" + s + "]]>";
    }
    return esc(s, false);
  }
  void gap(int d) {
    out += nl;
    for (int i = 0; i < d && !tab.empty() && i < 20; ++i) out += tab;
    if ((o & lComments) && r.chance(1, 10)) out += r.pick(std::vector<std::string>{"<!-- a comment -->", "<!---->", "<!-- <Entry> & - > -->", "<?app data?>"});
  }
  void emit(El& e, int d) {
    out += "<" + e.name;
    std::vector<std::pair<std::string, std::string>> at = e.attrs;
    if ((o & lShuffle) && at.size() > 1 && r.chance(1, 2)) std::swap(at[0], at[1]);
    for (auto& a : at) { char q = (o & lEscape) && r.chance(1, 3) ? '\'' : '"'; out += std::string(r.chance(1, 10) && (o & lIndent) ? "  " : " ") + a.first + "=" + q + esc(a.second, true, q) + q; }
    if (e.prot) e.raw = w64(salsa.process(e.secret));
    if (e.raw.empty() && e.kids.empty()) { out += (o & lEscape) && r.chance(1, 2) ? (r.chance(1, 2) ? " />" : "/>") : "></" + e.name + ">"; return; }
    out += ">";
    if (!e.kids.empty()) {
      for (auto& k : e.kids) { gap(d + 1); emit(k, d + 1); }
      gap(d);
    } else out += e.raw;
    out += "</" + e.name + ">";
    if ((o & lIndent) && r.chance(1, 30)) out.insert(out.size() - 1, " ");
  }
  // Base64 text, broken and indented the way generic XML serialisers may write binary data.
  std::string w64(const std::string& d) {
    std::string t = b64(d);
    if (!(o & lWrap) || t.empty() || r.chance(1, 3)) return t;
    std::string br = r.pick(std::vector<std::string>{"\n", "\n\t\t", "\r\n", "&#13;\n", "\r\n    ", " ", "\t", "\n\n"}), q;
    size_t w = r.chance(1, 2) ? r.pick(std::vector<size_t>{64, 76, 72, 4}) : 1 + r.below(90);
    bool lead = r.chance(1, 2), tail = r.chance(1, 2);
    if (lead) q += br;
    for (size_t i = 0; i < t.size(); i += w) { if (i) q += br; q.append(t, i, w); }
    if (tail) q += br;
    return q;
  }
  El leaf(const std::string& n, const std::string& v) { El e; e.name = n; e.raw = text(v); return e; }
  El raw(const std::string& n, const std::string& v) { El e; e.name = n; e.raw = v; return e; }
  bool omit() { return (o & lOmit) && r.chance(1, 2); }
  void str(El& p, const char* n, const std::string& v) { if (v.empty() && omit()) return; p.kids.push_back(leaf(n, v)); }
  void num(El& p, const char* n, int64_t v, int64_t def) { if (v == def && omit()) return; p.kids.push_back(raw(n, std::to_string(v))); }
  void boolean(El& p, const char* n, bool v, bool def = false) { if (v == def && omit()) return; p.kids.push_back(raw(n, v ? "True" : "False")); }
  void time(El& p, const char* n, int64_t t) { if (t == 0 && omit()) return; p.kids.push_back(raw(n, time_xml(t))); }
  void uuid(El& p, const char* n, const Uuid& u) { p.kids.push_back(raw(n, b64(std::string(u.begin(), u.end())))); }
  void unknown(El& p) {
    if (!(o & lUnknown) || !r.chance(1, 6)) return;
    El e = raw("X" + std::to_string(r.below(100)), r.chance(1, 2) ? "" : "data &amp; more");
    if (r.chance(1, 3)) { e.raw.clear(); e.kids.push_back(raw("Name", "n")); e.kids.push_back(raw("UUID", "AAAA")); El g = raw("Group", ""); g.kids.push_back(raw("Name", "hidden")); e.kids.push_back(g); }
    p.kids.push_back(e);
  }
  void mix(std::vector<El>& v) { if (o & lShuffle) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }
  // Interleaves `fixed` (whose order is kept) into the other children at random places.
  void merge(El& p, std::vector<El> fixed) {
    std::vector<El> others;
    others.swap(p.kids);
    mix(others);
    size_t i = 0, j = 0;
    while (i < others.size() || j < fixed.size()) {
      bool first = j >= fixed.size() || (i < others.size() && (!(o & lShuffle) || r.chance(1, 2)));
      p.kids.push_back(first ? others[i++] : fixed[j++]);
    }
  }
  void bin(El& e, const MBin& b, bool pooled) {
    if (b.prot) { e.attrs.push_back({"Protected", "True"}); e.prot = 1; e.secret = b.data; return; }
    bool z = b.compress || (!pooled && (o & lInlineZ) && r.chance(1, 3));
    if (z) {
      e.attrs.push_back({"Compressed", "True"});
      e.raw = w64((o & lGzip) ? gzip(b.data, static_cast<int>(r.below(10)), r.chance(1, 2) ? 1 + r.below(3000) : 0, static_cast<int>(r.below(4)), 1 + static_cast<int>(r.below(9)), r.chance(1, 3)) : gzip(b.data));
    } else e.raw = w64(b.data);
    if ((o & lEscape) && r.chance(1, 6)) e.attrs.push_back({"Protected", "False"});
  }
  static bool secrets(const El& e) { if (e.prot) return true; for (auto& k : e.kids) if (secrets(k)) return true; return false; }
  static bool any(const std::vector<El>& v) { for (auto& e : v) if (secrets(e)) return true; return false; }
  El times(const MTimes& t, bool expires, uint32_t usage) {
    El e;
    e.name = "Times";
    time(e, "CreationTime", t.creation); time(e, "LastModificationTime", t.modification); time(e, "LastAccessTime", t.access);
    time(e, "ExpiryTime", t.expiry); time(e, "LocationChanged", t.move);
    boolean(e, "Expires", expires); num(e, "UsageCount", usage, 0);
    unknown(e);
    mix(e.kids);
    return e;
  }
  El sval(const std::string& key, const PStr& v) {
    El e, x;
    e.name = "String";
    e.kids.push_back(leaf("Key", key));
    x.name = "Value";
    if (v.prot) { x.attrs.push_back({"Protected", "True"}); x.prot = 1; x.secret = v.v; }
    else { x.raw = text(v.v); if ((o & lEscape) && r.chance(1, 8)) x.attrs.push_back({"Protected", "False"}); }
    e.kids.push_back(x);
    mix(e.kids);
    return e;
  }
  std::string icon_b64(int i) { auto& u = m.meta.icons[static_cast<size_t>(i)].uuid; return b64(std::string(u.begin(), u.end())); }
  El entry(const MEntry& e) {
    El x;
    x.name = "Entry";
    uuid(x, "UUID", e.uuid);
    num(x, "IconID", e.icon, 0);
    if (e.custom_icon >= 0) x.kids.push_back(raw("CustomIconUUID", icon_b64(e.custom_icon)));
    str(x, "ForegroundColor", e.fg); str(x, "BackgroundColor", e.bg); str(x, "OverrideURL", e.override_url); str(x, "Tags", e.tags);
    x.kids.push_back(times(e.t, e.expires, e.usage));
    El a;
    a.name = "AutoType";
    boolean(a, "Enabled", e.at_enabled); num(a, "DataTransferObfuscation", e.at_obf, 0); str(a, "DefaultSequence", e.at_seq);
    std::vector<El> as;
    for (auto& q : e.assoc) { El k; k.name = "Association"; str(k, "Window", q.window); str(k, "KeystrokeSequence", q.sequence); mix(k.kids); as.push_back(k); }
    merge(a, as);
    if (!(a.kids.empty() && omit())) x.kids.push_back(a);
    unknown(x);
    std::vector<El> strs, bins, hist;
    const std::pair<const char*, const PStr*> std5[] = {{"Title", &e.title}, {"URL", &e.url}, {"UserName", &e.username}, {"Password", &e.password}, {"Notes", &e.notes}};
    for (auto& f : e.fields) strs.push_back(sval(f.first, f.second));
    for (auto& s : std5) {
      if (s.second->v.empty() && !s.second->prot && omit()) continue;
      El v = sval(s.first, *s.second);
      size_t at = o & lShuffle ? r.below(strs.size() + 1) : 0;
      strs.insert(strs.begin() + static_cast<long>(at), v);
    }
    for (auto& t : e.atts) {
      El b, v;
      b.name = "Binary";
      b.kids.push_back(leaf("Key", t.name));
      v.name = "Value";
      if (t.pool >= 0) v.attrs.push_back({"Ref", ids[static_cast<size_t>(t.pool)]});
      else bin(v, t.loose, false);
      if (!(t.pool < 0 && t.loose.data.empty() && !t.loose.prot && omit())) b.kids.push_back(v);
      mix(b.kids);
      bins.push_back(b);
    }
    if (!e.history.empty() || !omit()) {
      El h;
      h.name = "History";
      for (auto& q : e.history) h.kids.push_back(entry(q));
      hist.push_back(h);
    }
    std::vector<std::vector<El>> parts = {strs, bins, hist};
    int sec = 0;
    for (auto& p : parts) sec += any(p);
    if ((o & lShuffle) && sec == 0) for (size_t i = 3; i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
    std::vector<El> fixed;
    for (auto& p : parts) fixed.insert(fixed.end(), p.begin(), p.end());
    merge(x, fixed);
    return x;
  }
  El group(const MGroup& g) {
    El x;
    x.name = "Group";
    uuid(x, "UUID", g.uuid);
    str(x, "Name", g.name); str(x, "Notes", g.notes);
    num(x, "IconID", g.icon, 0);
    if (g.custom_icon >= 0) x.kids.push_back(raw("CustomIconUUID", icon_b64(g.custom_icon)));
    x.kids.push_back(times(g.t, g.expires, g.usage));
    boolean(x, "IsExpanded", g.expanded); str(x, "DefaultAutoTypeSequence", g.at_seq); boolean(x, "EnableAutoType", g.autotype); boolean(x, "EnableSearching", g.search);
    if (g.last_visible >= 0) uuid(x, "LastTopVisibleEntry", g.entries[static_cast<size_t>(g.last_visible)].uuid);
    else if (!omit()) uuid(x, "LastTopVisibleEntry", Uuid());
    unknown(x);
    std::vector<El> es, gs;
    for (auto& e : g.entries) es.push_back(entry(e));
    for (auto& c : g.groups) gs.push_back(group(c));
    std::vector<El> fixed;
    bool swap = (o & lShuffle) && !any(es) && !any(gs) && r.chance(1, 2);
    auto& a = swap ? gs : es;
    auto& b = swap ? es : gs;
    fixed.insert(fixed.end(), a.begin(), a.end());
    fixed.insert(fixed.end(), b.begin(), b.end());
    merge(x, fixed);
    return x;
  }
  void ref(El& p, const char* n, const MRef& x) {
    if (x.set) uuid(p, n, x.uuid);
    else if (!((o & lRefs) && r.chance(1, 2))) return;
    else uuid(p, n, Uuid());
  }
  El meta(const std::string& hh) {
    const MMeta& x = m.meta;
    El p;
    p.name = "Meta";
    p.kids.push_back(raw("HeaderHash", w64(hh)));
    str(p, "Generator", x.generator); str(p, "Color", x.color);
    str(p, "DatabaseName", x.name.v); time(p, "DatabaseNameChanged", x.name.t);
    str(p, "DatabaseDescription", x.desc.v); time(p, "DatabaseDescriptionChanged", x.desc.t);
    str(p, "DefaultUserName", x.user.v); time(p, "DefaultUserNameChanged", x.user.t);
    num(p, "MaintenanceHistoryDays", x.hist_days, 365);
    time(p, "MasterKeyChanged", x.key_changed); num(p, "MasterKeyChangeRec", x.key_rec, -1); num(p, "MasterKeyChangeForce", x.key_force, -1);
    El mp;
    mp.name = "MemoryProtection";
    boolean(mp, "ProtectTitle", x.prot_title); boolean(mp, "ProtectUserName", x.prot_user); boolean(mp, "ProtectPassword", x.prot_pass, true);
    boolean(mp, "ProtectURL", x.prot_url); boolean(mp, "ProtectNotes", x.prot_notes);
    mix(mp.kids);
    p.kids.push_back(mp);
    if (x.recycle.set) { boolean(p, "RecycleBinEnabled", true, true); uuid(p, "RecycleBinUUID", x.recycle.uuid); }
    else {
      int c = o & lRefs ? static_cast<int>(r.below(4)) : 0;
      if (c == 0) { p.kids.push_back(raw("RecycleBinEnabled", "False")); }
      else if (c == 1) { p.kids.push_back(raw("RecycleBinEnabled", "False")); uuid(p, "RecycleBinUUID", Uuid()); }
      else if (c == 2) { p.kids.push_back(raw("RecycleBinEnabled", "False")); uuid(p, "RecycleBinUUID", m.root.uuid); }
      else { p.kids.push_back(raw("RecycleBinEnabled", "True")); uuid(p, "RecycleBinUUID", Uuid()); }
    }
    time(p, "RecycleBinChanged", x.recycle_t);
    ref(p, "EntryTemplatesGroup", x.templates);
    time(p, "EntryTemplatesGroupChanged", x.templates_t);
    num(p, "HistoryMaxItems", x.hist_items, -1); num(p, "HistoryMaxSize", x.hist_size, -1);
    ref(p, "LastSelectedGroup", x.selected); ref(p, "LastTopVisibleGroup", x.visible);
    El ic, bs, cd;
    ic.name = "CustomIcons";
    for (auto& i : x.icons) { El k; k.name = "Icon"; uuid(k, "UUID", i.uuid); k.kids.push_back(raw("Data", w64(i.data))); mix(k.kids); ic.kids.push_back(k); }
    if (!(ic.kids.empty() && omit())) p.kids.push_back(ic);
    bs.name = "Binaries";
    for (size_t i = 0; i < x.bins.size(); ++i) { El k; k.name = "Binary"; k.attrs.push_back({"ID", ids[i]}); bin(k, x.bins[i], true); bs.kids.push_back(k); }
    if (!(bs.kids.empty() && omit())) p.kids.push_back(bs);
    cd.name = "CustomData";
    for (auto& c : x.custom) { El k; k.name = "Item"; k.kids.push_back(leaf("Key", c.first)); k.kids.push_back(leaf("Value", c.second)); mix(k.kids); cd.kids.push_back(k); }
    if (!(cd.kids.empty() && omit())) p.kids.push_back(cd);
    unknown(p);
    mix(p.kids);
    return p;
  }
  std::string document(const std::string& hh) {
    for (size_t i = 0; i < m.meta.bins.size(); ++i)
      ids.push_back(o & lIds ? r.pick(std::vector<std::string>{"", "id ", "B&", "00"}) + std::to_string(1000 - i * 7) : std::to_string(i));
    if ((o & lDecl) && r.chance(1, 3)) out += "\xef\xbb\xbf";
    if (!(o & lDecl) || r.chance(2, 3)) out += r.pick(std::vector<std::string>{"<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0'?>"});
    gap(0);
    El f, me = meta(hh), ro;
    f.name = "KeePassFile";
    ro.name = "Root";
    ro.kids.push_back(group(m.root));
    if (!omit()) ro.kids.push_back(raw("DeletedObjects", ""));
    bool swap = (o & lShuffle) && !secrets(me) && r.chance(1, 3);
    f.kids.push_back(swap ? ro : me);
    f.kids.push_back(swap ? me : ro);
    emit(f, 0);
    out += nl;
    return out;
  }
};
}  // namespace

std::string kdbx_write(const ModelDb& m, const Key& k, const Layout& l) {
  Rng r(mix64(l.seed, 99));
  KdbxParts p;
  p.master_seed = m.master_seed; p.iv = m.iv; p.tseed = m.tseed; p.inner_key = m.inner_key; p.rounds = m.rounds; p.compress = m.compress;
  p.start_bytes = r.bytes(32);
  p.header = make_header(p, l.opts & lHeader ? &r : nullptr);
  Kw w(m, l);
  std::string x = w.document(sha256(p.header));
  if (p.compress)
    x = l.opts & lGzip ? gzip(x, static_cast<int>(r.below(10)), r.chance(1, 2) ? 1 + r.below(x.size()) : 0, static_cast<int>(r.below(4)), 1 + static_cast<int>(r.below(9)), r.chance(1, 3)) : gzip(x);
  size_t block = 1 << 20;
  if (l.opts & lBlocks) block = r.chance(1, 4) ? 1 + r.below(40) : r.chance(1, 2) ? 1 + r.below(3000) : r.pick(std::vector<size_t>{x.size() ? x.size() : 1, 4096, 65536, 1048577});
  p.blocks = kdbx_blocks(x, block);
  return kdbx_seal(p, k);
}

// ---- KDB -----------------------------------------------------------------------------------------------------
static std::string kdb_time(int64_t t) {
  if (t == 0) return std::string("\x2e\xdf\x39\x7e\xfb", 5);
  time_t x = t;
  struct tm l;
  localtime_r(&x, &l);
  uint64_t v = (static_cast<uint64_t>(l.tm_year + 1900) << 26) | (static_cast<uint64_t>(l.tm_mon + 1) << 22) | (static_cast<uint64_t>(l.tm_mday) << 17) |
               (static_cast<uint64_t>(l.tm_hour) << 12) | (static_cast<uint64_t>(l.tm_min) << 6) | static_cast<uint64_t>(l.tm_sec);
  std::string s;
  for (int i = 4; i >= 0; --i) s += static_cast<char>(v >> (8 * i));
  return s;
}
static int64_t kdb_untime(const std::string& d) {
  if (d.size() != 5) throw Err("time size");
  if (d == std::string("\x2e\xdf\x39\x7e\xfb", 5)) return 0;
  uint64_t v = 0;
  for (unsigned char c : d) v = v << 8 | c;
  struct tm l;
  memset(&l, 0, sizeof l);
  l.tm_year = static_cast<int>(v >> 26) - 1900;
  l.tm_mon = static_cast<int>(v >> 22 & 15) - 1; l.tm_mday = static_cast<int>(v >> 17 & 31); l.tm_hour = static_cast<int>(v >> 12 & 31);
  l.tm_min = static_cast<int>(v >> 6 & 63); l.tm_sec = static_cast<int>(v & 63);
  l.tm_isdst = -1;
  if (l.tm_mon < 0 || l.tm_mon > 11 || l.tm_mday < 1 || l.tm_hour > 23 || l.tm_min > 59 || l.tm_sec > 60) throw Err("time value");
  int64_t t = mktime(&l);
  return t == 0 ? -2 : t;              // a missing time must be stored as such, not as the beginning of 1970
}
static std::string kf(int type, const std::string& d) { return le(static_cast<uint64_t>(type), 2) + le(d.size(), 4) + d; }
static std::string zs(const std::string& s) { return s + std::string(1, '\0'); }
std::string kdb_seal(const KdbParts& p, const Key& k) {
  std::string fk = sha256(p.master_seed + transform(kdb_key(k), p.tseed, p.rounds));
  return le(0x9aa2d903, 4) + le(0xb54bfb65, 4) + le(p.flags, 4) + le(p.version, 4) + p.master_seed + p.iv + le(p.groups, 4) + le(p.entries, 4) +
         sha256(p.content) + p.tseed + le(p.rounds, 4) + cbc_encrypt(p.flags & 2 ? 0 : 1, fk, p.iv, p.content);
}
KdbParts kdb_open(const std::string& f, const Key& k) {
  KdbParts p;
  if (rd(f, 0, 4) != 0x9aa2d903 || rd(f, 4, 4) != 0xb54bfb65) throw Err("signature");
  p.flags = static_cast<uint32_t>(rd(f, 8, 4)); p.version = static_cast<uint32_t>(rd(f, 12, 4));
  if ((p.version & 0xffffff00) != 0x00030000) throw Err("version");
  if (f.size() < 124) throw Err("header");
  p.master_seed = f.substr(16, 16); p.iv = f.substr(32, 16);
  p.groups = static_cast<uint32_t>(rd(f, 48, 4)); p.entries = static_cast<uint32_t>(rd(f, 52, 4));
  p.tseed = f.substr(88, 32); p.rounds = static_cast<uint32_t>(rd(f, 120, 4));
  if (!(p.flags & 10)) throw Err("cipher");
  std::string fk = sha256(p.master_seed + transform(kdb_key(k), p.tseed, p.rounds));
  if (!cbc_decrypt(p.flags & 2 ? 0 : 1, fk, p.iv, f.substr(124), p.content)) throw BadKey("padding");
  if (sha256(p.content) != f.substr(56, 32)) throw BadKey("content hash");
  return p;
}
std::string kdb_write(const ModelDb& m, const Key& k, const Layout& l) {
  Rng r(mix64(l.seed, 99));
  KdbParts p;
  p.flags = (m.cipher == 0 ? 2u : 8u) | (l.opts & lHeader && r.chance(1, 2) ? 0u : 1u);
  if (l.opts & lHeader) p.version = 0x00030000 + static_cast<uint32_t>(r.below(5));
  p.master_seed = m.master_seed; p.iv = m.iv; p.tseed = m.tseed; p.rounds = static_cast<uint32_t>(m.rounds);
  std::vector<std::pair<const MGroup*, int>> gs;
  struct W { static void walk(const MGroup& g, int lv, std::vector<std::pair<const MGroup*, int>>& o) { for (auto& c : g.groups) { o.push_back({&c, lv}); walk(c, lv + 1, o); } } };
  W::walk(m.root, 0, gs);
  auto mixf = [&](std::vector<std::string>& v) { if (l.opts & lShuffle) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); };
  auto extra = [&](std::vector<std::string>& v) { if ((l.opts & lUnknown) && r.chance(1, 4)) v.push_back(kf(0, r.bytes(r.below(20)))); };
  std::vector<uint32_t> ids;
  for (size_t i = 0; i < gs.size(); ++i) {
    uint32_t id = static_cast<uint32_t>(i + 1);
    if (l.opts & lIds) for (bool ok = false; !ok;) { id = static_cast<uint32_t>(r.next()); ok = true; for (uint32_t x : ids) if (x == id) ok = false; }
    ids.push_back(id);
    const MGroup& g = *gs[i].first;
    std::vector<std::string> f = {kf(1, le(id, 4)), kf(2, zs(g.name)), kf(3, kdb_time(g.t.creation)), kf(4, kdb_time(g.t.modification)), kf(5, kdb_time(g.t.access)),
                                  kf(6, kdb_time(g.t.expiry)), kf(7, le(g.icon, 4)), kf(8, le(static_cast<uint64_t>(gs[i].second), 2)), kf(9, le(g.flags, 4))};
    extra(f);
    mixf(f);
    for (auto& x : f) p.content += x;
    p.content += kf(0xffff, "");
  }
  // Entries keep their order inside a group; groups may interleave.
  std::vector<size_t> next(gs.size(), 0), order;
  for (size_t i = 0; i < gs.size(); ++i) for (size_t j = 0; j < gs[i].first->entries.size(); ++j) order.push_back(i);
  if (l.opts & lShuffle) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  for (size_t gi : order) {
    const MEntry& e = gs[gi].first->entries[next[gi]++];
    std::vector<std::string> f = {kf(1, std::string(e.uuid.begin(), e.uuid.end())), kf(2, le(ids[gi], 4)), kf(3, le(e.icon, 4)), kf(4, zs(e.title.v)), kf(5, zs(e.url.v)),
                                  kf(6, zs(e.username.v)), kf(7, zs(e.password.v)), kf(8, zs(e.notes.v)), kf(9, kdb_time(e.t.creation)), kf(10, kdb_time(e.t.modification)),
                                  kf(11, kdb_time(e.t.access)), kf(12, kdb_time(e.t.expiry))};
    if (!e.atts.empty()) { f.push_back(kf(13, zs(e.atts[0].name))); f.push_back(kf(14, e.atts[0].loose.data)); }
    else if (!((l.opts & lOmit) && r.chance(1, 2))) { f.push_back(kf(13, zs(""))); f.push_back(kf(14, "")); }
    extra(f);
    mixf(f);
    for (auto& x : f) p.content += x;
    p.content += kf(0xffff, "");
  }
  p.groups = static_cast<uint32_t>(gs.size());
  p.entries = static_cast<uint32_t>(order.size());
  return kdb_seal(p, k);
}
ModelDb kdb_read(const std::string& file, const Key& k) {
  KdbParts p = kdb_open(file, k);
  ModelDb m;
  m.kdbx = false;
  m.has_meta = false;
  m.cipher = p.flags & 2 ? 0 : 1;
  m.master_seed = p.master_seed; m.iv = p.iv; m.tseed = p.tseed; m.rounds = p.rounds;
  const std::string& c = p.content;
  size_t i = 0;
  auto next = [&](int& type, std::string& d) {
    type = static_cast<int>(rd(c, i, 2));
    size_t n = rd(c, i + 2, 4);
    i += 6;
    if (n > c.size() - i) throw Err("field size");
    d = c.substr(i, n);
    i += n;
  };
  auto want = [&](const std::string& d, size_t n) { if (d.size() != n) throw Err("field size " + std::to_string(d.size()) + " instead of " + std::to_string(n)); };
  auto text = [&](const std::string& d) { if (d.empty() || d.back() != 0 || d.find('\0') != d.size() - 1) throw Err("text field"); return d.substr(0, d.size() - 1); };
  std::map<uint32_t, std::vector<size_t>> path;   // group id -> path in the tree
  std::vector<size_t> cur;
  auto at = [&](const std::vector<size_t>& q) { MGroup* g = &m.root; for (size_t x : q) g = &g->groups[x]; return g; };
  for (uint32_t n = 0; n < p.groups; ++n) {
    MGroup g;
    uint32_t id = 0;
    size_t level = 0;
    unsigned seen = 0;
    for (;;) {
      int ty;
      std::string d;
      next(ty, d);
      if (ty == 0xffff) break;
      if (ty > 9 || (ty && (seen & 1u << ty))) throw Err("group field");
      seen |= 1u << ty;
      switch (ty) {
        case 1: want(d, 4); id = static_cast<uint32_t>(rd(d, 0, 4)); break;
        case 2: g.name = text(d); break;
        case 3: g.t.creation = kdb_untime(d); break;
        case 4: g.t.modification = kdb_untime(d); break;
        case 5: g.t.access = kdb_untime(d); break;
        case 6: g.t.expiry = kdb_untime(d); break;
        case 7: want(d, 4); g.icon = static_cast<uint32_t>(rd(d, 0, 4)); break;
        case 8: want(d, 2); level = rd(d, 0, 2); break;
        case 9: want(d, 4); g.flags = static_cast<uint16_t>(rd(d, 0, 2)); break;
      }
    }
    if ((seen & 0x102) != 0x102 || path.count(id) || level > cur.size()) throw Err("group structure");
    cur.resize(level);
    MGroup* parent = at(cur);
    cur.push_back(parent->groups.size());
    parent->groups.push_back(g);
    path[id] = cur;
  }
  for (uint32_t n = 0; n < p.entries; ++n) {
    MEntry e;
    uint32_t gid = 0;
    unsigned seen = 0;
    std::string an, ad;
    for (;;) {
      int ty;
      std::string d;
      next(ty, d);
      if (ty == 0xffff) break;
      if (ty > 14 || (ty && (seen & 1u << ty))) throw Err("entry field");
      seen |= 1u << ty;
      switch (ty) {
        case 1: want(d, 16); memcpy(e.uuid.data(), d.data(), 16); break;
        case 2: want(d, 4); gid = static_cast<uint32_t>(rd(d, 0, 4)); break;
        case 3: want(d, 4); e.icon = static_cast<uint32_t>(rd(d, 0, 4)); break;
        case 4: e.title.v = text(d); break;
        case 5: e.url.v = text(d); break;
        case 6: e.username.v = text(d); break;
        case 7: e.password.v = text(d); break;
        case 8: e.notes.v = text(d); break;
        case 9: e.t.creation = kdb_untime(d); break;
        case 10: e.t.modification = kdb_untime(d); break;
        case 11: e.t.access = kdb_untime(d); break;
        case 12: e.t.expiry = kdb_untime(d); break;
        case 13: an = text(d); break;
        case 14: ad = d; break;
      }
    }
    if ((seen & 6) != 6 || !path.count(gid)) throw Err("entry structure");
    if (!an.empty() || !ad.empty()) { MAtt a; a.name = an; a.loose.data = ad; e.atts.push_back(a); }
    at(path[gid])->entries.push_back(e);
  }
  if (i != c.size()) throw Err("data after the last entry");
  return m;
}

// ---- key files -----------------------------------------------------------------------------------------------
std::string keyfile_xml(const std::string& key, Rng& r) {
  std::string n = r.pick(std::vector<std::string>{"", "\n", "\r\n", " "}), t = r.pick(std::vector<std::string>{"", "\t", "  "});
  std::string s;
  if (r.chance(3, 4)) s += "<?xml version=\"1.0\" encoding=\"utf-8\"?>" + n;
  if (r.chance(1, 5)) s += "<!-- key -->" + n;
  s += "<KeyFile>" + n;
  std::string meta = t + "<Meta>" + n + t + t + "<Version>1.00</Version>" + n + t + "</Meta>" + n;
  std::string data = t + "<Key>" + n + t + t + "<Data>" + b64(key) + "</Data>" + n + t + "</Key>" + n;
  s += r.chance(3, 4) ? meta + data : data + meta;
  return s + "</KeyFile>" + n;
}
std::string keyfile_hex(const std::string& key, Rng& r) {
  std::string h = hex(key.data(), key.size());
  int mode = static_cast<int>(r.below(3));
  for (auto& c : h) if (mode == 1 || (mode == 2 && r.chance(1, 2))) c = static_cast<char>(toupper(c));
  return h;
}
}  // namespace ref
