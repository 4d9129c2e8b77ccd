// Hostile files: C14. Malformed content at every level of both formats, mostly behind valid encryption.
#include <cstring>

#include "common.hh"
#include "refcrypto.hh"

using namespace sim;

namespace {
const char* kFile = "/d/store.db";
std::string le(uint64_t v, int n) { std::string s; for (int i = 0; i < n; ++i) s += static_cast<char>(v >> (8 * i)); return s; }
uint64_t rd(const std::string& s, size_t at, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n && at + static_cast<size_t>(i) < s.size(); ++i) v |= static_cast<uint64_t>(static_cast<uint8_t>(s[at + static_cast<size_t>(i)])) << (8 * i);
  return v;
}
uint32_t odd_size(Rng& r, size_t real) {
  static const uint32_t v[] = {0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x10000000, 0x01000000};
  switch (r.below(4)) {
    case 0: return static_cast<uint32_t>(real + r.below(5)) - 2;
    case 1: return static_cast<uint32_t>(r.below(64));
    default: return v[r.below(22)];
  }
}
// Damage that does not look at the structure.
std::string damage(std::string d, Rng& r) {
  switch (r.below(9)) {
    case 0: d.resize(r.below(d.size() + 1)); break;
    case 1: d += r.bytes(1 + r.below(100)); break;
    case 2: case 3: for (size_t n = 1 + r.below(4); n-- > 0 && d.size();) d[r.below(d.size())] ^= static_cast<char>(1u << r.below(8)); break;
    case 4: { size_t a = r.below(d.size() + 1), n = 1 + r.below(16); for (size_t i = a; i < a + n && i < d.size(); ++i) d[i] = static_cast<char>(r.byte()); break; }
    case 5: { size_t a = r.below(d.size() + 1), n = r.below(64); d.erase(a, n); break; }
    case 6: { size_t a = r.below(d.size() + 1); d.insert(a, r.bytes(1 + r.below(32))); break; }
    case 7: { size_t a = r.below(d.size() + 1), n = r.below(200); std::string c = d.substr(a, n); d.insert(r.below(d.size() + 1), c); break; }
    case 8: { size_t a = r.below(d.size() + 1), n = 1 + r.below(8); char c = r.chance(1, 2) ? '\0' : '\xff'; for (size_t i = a; i < a + n && i < d.size(); ++i) d[i] = c; break; }
  }
  return d;
}

// ---- KDB -------------------------------------------------------------------------------------------------------
struct KField { uint16_t type; uint32_t size; std::string data; };
typedef std::vector<KField> KRec;
std::vector<KRec> kdb_split(const std::string& c) {
  std::vector<KRec> v(1);
  for (size_t i = 0; i + 6 <= c.size();) {
    KField f;
    f.type = static_cast<uint16_t>(rd(c, i, 2));
    f.size = static_cast<uint32_t>(rd(c, i + 2, 4));
    f.data = c.substr(i + 6, f.size);
    i += 6 + f.data.size();
    v.back().push_back(f);
    if (f.type == 0xffff) v.emplace_back();
  }
  if (v.back().empty()) v.pop_back();
  return v;
}
std::string kdb_join(const std::vector<KRec>& v) {
  std::string o;
  for (auto& rec : v) for (auto& f : rec) o += le(f.type, 2) + le(f.size, 4) + f.data;
  return o;
}
std::string kdb_odd_value(Rng& r, uint16_t type) {
  switch (r.below(8)) {
    case 0: return "";
    case 1: return r.bytes(r.below(40));
    case 2: return std::string(1 + r.below(40), '\0');
    case 3: return std::string(1 + r.below(40), '\xff');
    case 4: return le(r.below(6), 4);
    case 5: return r.bytes(5);                        // a time
    case 6: return std::string("a\xff\xfe\0b", 5);
    default: return le(type, 2) + r.bytes(r.below(4));
  }
}
void kdb_mutate(ref::KdbParts& p, std::vector<KRec>& v, int kind, Rng& r) {
  size_t ng = p.groups < v.size() ? p.groups : v.size();
  auto rec = [&]() -> KRec* { return v.empty() ? nullptr : &v[r.below(v.size())]; };
  KRec* c = rec();
  KField* f = c && !c->empty() ? &(*c)[r.below(c->size())] : nullptr;
  switch (kind) {
    case 0: if (f) f->size = odd_size(r, f->data.size()); break;
    case 1: if (f) { f->data = kdb_odd_value(r, f->type); f->size = static_cast<uint32_t>(f->data.size()); } break;
    case 2: if (f) f->type = r.chance(1, 2) ? static_cast<uint16_t>(r.below(16)) : r.chance(1, 2) ? 0xffff : static_cast<uint16_t>(r.next()); break;
    case 3: if (f) c->erase(c->begin() + (f - &(*c)[0])); break;
    case 4: if (f) { KField g = *f; c->insert(c->begin() + static_cast<long>(r.below(c->size() + 1)), g); } break;
    case 5: if (c) v.erase(v.begin() + (c - &v[0])); break;
    case 6: if (c) { KRec g = *c; v.insert(v.begin() + static_cast<long>(r.below(v.size() + 1)), g); if (r.chance(1, 2)) (r.chance(1, 2) ? p.groups : p.entries)++; } break;
    case 7: for (size_t i = 0; i < ng; ++i) for (auto& g : v[i]) if (g.type == 8 && r.chance(1, 2)) { g.data = le(r.chance(1, 2) ? r.below(5) : r.chance(1, 2) ? 0xffff - r.below(2) : r.next(), 2); g.size = 2; } break;
    case 8: { uint64_t id = r.below(4); for (size_t i = 0; i < ng; ++i) for (auto& g : v[i]) if (g.type == 1 && r.chance(1, 2)) { g.data = le(id, 4); g.size = 4; } break; }
    case 9: for (size_t i = ng; i < v.size(); ++i) for (auto& g : v[i]) if (g.type == 2 && r.chance(1, 2)) { g.data = le(r.chance(1, 2) ? r.below(6) : r.next(), 4); g.size = 4; } break;
    case 10: (r.chance(1, 2) ? p.groups : p.entries) = odd_size(r, r.chance(1, 2) ? p.groups : p.entries); break;
    case 11: { uint32_t d = static_cast<uint32_t>(r.below(4)) - 1; p.groups += d; p.entries -= d; break; }
    case 12: {                                        // a tower or comb of groups
      size_t n = r.chance(1, 2) ? 1 + r.below(60) : r.chance(3, 4) ? 900 + r.below(300) : 20000 + r.below(45000);
      std::vector<KRec> w;
      bool up = r.chance(1, 2);
      for (size_t i = 0; i < n; ++i) {
        KRec g;
        uint64_t lv = up ? i : n > 60 ? i : r.below(i + 2);
        g.push_back({1, 4, le(1000 + i, 4)});
        if (n < 1000) g.push_back({2, 2, std::string("g\0", 2)});
        g.push_back({8, 2, le(lv, 2)});
        g.push_back({0xffff, 0, ""});
        w.push_back(g);
      }
      v.insert(v.begin(), w.begin(), w.end());
      p.groups += static_cast<uint32_t>(n);
      break;
    }
    case 13: if (f) { f->data = std::string(200000, r.chance(1, 2) ? '\0' : 'x'); f->size = 200000; } break;
    case 14: if (f && f->type != 0xffff) { c->erase(c->begin() + (f - &(*c)[0])); } if (c && !c->empty() && c->back().type == 0xffff) c->pop_back(); break;
    default: p.flags = static_cast<uint32_t>(r.chance(1, 2) ? r.below(16) : r.next()); break;
  }
}

// ---- KDBX ------------------------------------------------------------------------------------------------------
void all_nodes(ref::Xn& n, std::vector<ref::Xn*>& o) { o.push_back(&n); for (auto& k : n.kids) all_nodes(k, o); }
std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '<') o += "&lt;";
    else if (c == '&') o += "&amp;";
    else if (c == '"') o += "&quot;";
    else if (c == '>') o += "&gt;";
    else if (c == '\r') o += "&#13;";
    else o += c;
  }
  return o;
}
const char* kNames[] = {"KeePassFile", "Meta", "Root", "Group", "Entry", "History", "UUID", "Name", "Notes", "IconID", "Times", "String", "Key", "Value", "Binary", "Binaries",
                        "CustomIcons", "Icon", "Data", "CustomIconUUID", "AutoType", "Association", "Window", "HeaderHash", "RecycleBinUUID", "EntryTemplatesGroup",
                        "LastSelectedGroup", "LastTopVisibleGroup", "LastTopVisibleEntry", "CustomData", "Item", "MemoryProtection", "Nonsense", "CreationTime", "UsageCount"};
std::string odd_text(Rng& r) {
  static const char* v[] = {"", " ", "-1", "0", "1", "99999999999999999999", "4294967296", "-9223372036854775809", "0x10", "abc", "1e5", "NaN", "True", "tRUE", "False", "null",
                            "2999-12-28T22:59:59Z", "0000-00-00T00:00:00Z", "9999-99-99T99:99:99Z", "2016", "2016-01-01T00:00:60Z", "292277026596-12-04T15:30:08Z",
                            "-2016-01-01T00:00:00Z", "2016-13-32T25:61:61Z", "20160-01-01T00:00:00Z", "2016-01-01T00:00:00", "====", "=", "A", "AA", "AAA", "AAAA", "A===", "AA==", "AAA=", "AA=A", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAAA=",
                            "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "!!!!", "H4sIAAAAAAAAAwMAAAAAAAAAAAA=", "H4sIAAAAAAAA/w==", "\xc3\x28\xff\xfe", "\x01\x02\x7f", "]]>", "&amp;", "../../etc/passwd", "%s%n%d", "{REF:T@I:0}"};
  switch (r.below(6)) {
    case 0: return r.bytes(r.below(40));
    case 1: return ref::b64(r.bytes(r.below(60)));
    case 2: return std::to_string(static_cast<int64_t>(r.next()) >> r.below(64));
    default: return v[r.below(sizeof v / sizeof v[0])];
  }
}
void xml_mutate(ref::Xn& root, int kind, Rng& r) {
  std::vector<ref::Xn*> all;
  all_nodes(root, all);
  ref::Xn* n = all[r.below(all.size())];
  if (r.chance(1, 4)) {                                 // the few nodes that everything hangs from
    std::vector<ref::Xn*> top = {&root};
    for (auto& k : root.kids) { top.push_back(&k); for (auto& q : k.kids) top.push_back(&q); }
    n = top[r.below(std::min<size_t>(top.size(), r.chance(1, 2) ? 3 : 40))];
  }
  auto named = [&](const char* nm) -> ref::Xn* { std::vector<ref::Xn*> v; for (auto* x : all) if (x->name == nm) v.push_back(x); return v.empty() ? nullptr : v[r.below(v.size())]; };
  std::vector<ref::Xn*> leaf;
  for (auto* x : all) if (x->kids.empty()) leaf.push_back(x);
  switch (kind) {
    case 0: if (!n->kids.empty()) n->kids.erase(n->kids.begin() + static_cast<long>(r.below(n->kids.size()))); break;
    case 1: if (!n->kids.empty()) { ref::Xn c = n->kids[r.below(n->kids.size())]; n->kids.insert(n->kids.begin() + static_cast<long>(r.below(n->kids.size() + 1)), c); } break;
    case 2: { ref::Xn c = *all[r.below(all.size())]; if (all.size() < 3000) n->kids.push_back(c); break; }
    case 3: n->name = kNames[r.below(sizeof kNames / sizeof kNames[0])]; break;
    case 4: case 5: case 6: if (!leaf.empty()) leaf[r.below(leaf.size())]->text = odd_text(r); break;
    case 7: {
      static const char* an[] = {"Protected", "Compressed", "Ref", "ID", "ProtectedInMemory", "xml:space"};
      ref::Xn* t = r.chance(2, 3) ? named(r.chance(1, 2) ? "Value" : "Binary") : n;
      if (!t) t = n;
      std::string a = an[r.below(6)], v = r.chance(1, 2) ? "True" : odd_text(r);
      for (auto& x : t->attrs) if (x.first == a) { x.second = v; return; }
      t->attrs.push_back({a, v});
      break;
    }
    case 8: if (ref::Xn* t = named(r.chance(1, 2) ? "Value" : "Binary")) t->attrs.clear(); break;
    case 9: {                                         // towers
      size_t d = r.chance(2, 3) ? 1 + r.below(300) : r.chance(1, 2) ? 480 + r.below(600) : 3000 + r.below(30000);
      const char* el = r.chance(1, 2) ? "Group" : r.chance(1, 2) ? "Entry" : "Nonsense";
      ref::Xn* t = named(!strcmp(el, "Entry") && r.chance(1, 2) ? "Entry" : "Group");
      if (!t) t = n;
      // Marked here, expanded when written: the tree itself must not be deep.
      ref::Xn m;
      m.name = "\x01tower";
      m.text = el;
      m.attrs.push_back({"n", std::to_string(d)});
      t->kids.push_back(m);
      break;
    }
    case 10: if (n->kids.size() > 1) std::swap(n->kids[r.below(n->kids.size())], n->kids[r.below(n->kids.size())]); break;
    case 11: if (!n->kids.empty() && all.size() < 4000) { ref::Xn c = n->kids[r.below(n->kids.size())]; std::vector<ref::Xn*> cs; all_nodes(c, cs); if (cs.size() < 60) for (size_t k = 2 + r.below(300); k-- > 0;) n->kids.push_back(c); } break;
    case 12: n->text = std::string(r.chance(1, 2) ? 70000 : 300000, r.chance(1, 2) ? 'A' : ' '); break;
    case 13: if (ref::Xn* t = named(r.chance(1, 2) ? "Value" : "Binary")) {
      t->attrs = {{"Compressed", "True"}};
      std::string z = ref::gzip(std::string(r.below(50000), 'x'));
      if (r.chance(1, 2)) z = damage(z, r);
      t->text = ref::b64(z);
      t->kids.clear();
      break;
    }
    [[fallthrough]];
    case 14: if (ref::Xn* t = named("Value")) { t->attrs = {{"Ref", r.chance(1, 2) ? std::to_string(r.below(5)) : odd_text(r)}}; t->text.clear(); } break;
    default: if (ref::Xn* t = named("UUID")) if (ref::Xn* u = named("UUID")) t->text = u->text; break;
  }
}
void put_xml2(const ref::Xn& n, std::string& o) {
  if (n.name == "\x01tower") {
    size_t d = static_cast<size_t>(std::stoul(n.attrs[0].second));
    std::string a, b;
    for (size_t i = 0; i < d; ++i) {
      if (n.text == "Entry") { a += "<History><Entry>"; b += "</Entry></History>"; }
      else { a += "<" + n.text + ">"; b += "</" + n.text + ">"; }
    }
    o += n.text == "Entry" ? "<Entry>" + a + b + "</Entry>" : a + b;
    return;
  }
  o += "<" + n.name;
  for (auto& a : n.attrs) o += " " + a.first + "=\"" + esc(a.second) + "\"";
  o += ">" + esc(n.text);
  for (auto& k : n.kids) put_xml2(k, o);
  o += "</" + n.name + ">";
}
std::string text_mutate(std::string x, Rng& r) {
  static const char* ins[] = {"<", ">", "</", "&", "&#x110000;", "&#0;", "&#xffffffffff;", "<![CDATA[", "]]>", "<!--", "-->", "<?xml version=\"1.0\"?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;", "\"", "<Group/>", "<a b=>", "<a b='", "</KeePassFile>"};
  switch (r.below(6)) {
    case 0: return damage(x, r);
    case 1: x.insert(r.below(x.size() + 1), ins[r.below(sizeof ins / sizeof ins[0])]); return x;
    case 2: x.insert(r.below(x.size() + 1), std::string(1 + r.below(4), '\0')); return x;
    case 3: { static const std::string boms[] = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", std::string("\xff\xfe\0\0", 4), std::string("\0\0\xfe\xff", 4), std::string("\0<", 2), std::string("<\0", 2)}; return boms[r.below(7)] + x; }
    case 4: return x.substr(0, r.below(x.size() + 1));
    default: x.insert(r.below(x.size() + 1), std::string(r.below(3000), ins[r.below(5)][0])); return x;
  }
}
struct HField { unsigned id; std::string data; long size = -1; };
std::vector<HField> header_fields(const std::string& h) {
  std::vector<HField> v;
  for (size_t i = 12; i + 3 <= h.size();) {
    HField f;
    f.id = static_cast<uint8_t>(h[i]);
    size_t n = rd(h, i + 1, 2);
    f.data = h.substr(i + 3, n);
    i += 3 + n;
    v.push_back(f);
  }
  return v;
}
void header_mutate(std::vector<HField>& v, Rng& r) {
  HField& f = v[r.below(v.size())];
  switch (r.below(9)) {
    case 0: v.erase(v.begin() + (&f - &v[0])); break;
    case 1: { HField c = f; v.insert(v.begin() + static_cast<long>(r.below(v.size() + 1)), c); break; }
    case 2: f.id = static_cast<unsigned>(r.chance(1, 2) ? r.below(13) : r.below(256)); break;
    case 3: f.data = r.bytes(r.chance(1, 2) ? r.below(40) : odd_size(r, f.data.size()) % 65536); break;
    case 4: f.size = static_cast<long>(odd_size(r, f.data.size()) & 0xffff); break;
    case 5: std::swap(v[r.below(v.size())], v[r.below(v.size())]); break;
    case 6: if (!f.data.empty()) f.data[r.below(f.data.size())] ^= static_cast<char>(1u << r.below(8)); break;
    case 7: for (auto& g : v) if (g.id == 4) g.data = r.bytes(r.chance(1, 2) ? r.below(100) : 65535); break;
    case 8: for (auto& g : v) if (g.id == 3 || g.id == 10) g.data = r.chance(1, 2) ? le(r.below(4), 4) : le(r.next(), 4); break;
  }
}
std::string block_mutate(const std::string& payload, Rng& r) {
  struct B { uint32_t idx; std::string hash; uint32_t size; std::string data; };
  std::vector<B> v;
  size_t block = payload.empty() ? 1 : 1 + r.below(payload.size());
  for (size_t i = 0; i < payload.size(); i += block) { std::string d = payload.substr(i, block); v.push_back({static_cast<uint32_t>(v.size()), ref::sha256(d), static_cast<uint32_t>(d.size()), d}); if (v.size() > 300) { block = payload.size(); } }
  v.push_back({static_cast<uint32_t>(v.size()), std::string(32, '\0'), 0, ""});
  for (size_t n = 1 + r.below(2); n-- > 0 && !v.empty();) {
    B& b = v[r.below(v.size())];
    switch (r.below(9)) {
      case 0: b.size = odd_size(r, b.data.size()); break;
      case 1: b.idx = odd_size(r, b.idx); break;
      case 2: b.hash[r.below(32)] ^= 1; break;
      case 3: v.erase(v.begin() + (&b - &v[0])); break;
      case 4: { B c = b; v.insert(v.begin() + static_cast<long>(r.below(v.size() + 1)), c); break; }
      case 5: v.pop_back(); break;
      case 6: b.data = damage(b.data, r); if (r.chance(1, 2)) { b.size = static_cast<uint32_t>(b.data.size()); b.hash = ref::sha256(b.data); } break;
      case 7: b.data.clear(); b.size = 0; b.hash = r.chance(1, 2) ? std::string(32, '\0') : ref::sha256(""); break;
      case 8: b.data += r.bytes(r.below(30)); break;
    }
  }
  std::string o;
  for (auto& b : v) o += le(b.idx, 4) + b.hash + le(b.size, 4) + b.data;
  return o;
}
// The work that the number of transformation rounds asks for is not in question: keep it small.
void limit_rounds(std::string& f, bool kdbx) {
  if (!kdbx) { for (size_t i = 122; i < 124 && i < f.size(); ++i) f[i] = 0; return; }
  for (size_t i = 12; i + 3 <= f.size();) {
    unsigned id = static_cast<uint8_t>(f[i]);
    size_t n = rd(f, i + 1, 2);
    if (id == 6) for (size_t k = 2; k < 8; ++k) if (i + 3 + k < f.size()) f[i + 3 + k] = 0;
    if (!id) break;
    i += 3 + n;
  }
}

enum Level { kRaw, kHeader, kXml, kText, kGzip, kBlocks, kContent };
const char* kLevelName[] = {"raw", "header", "xml", "xml_text", "gzip", "blocks", "kdb_content"};

std::string forge(const Plan& p, const Step* s, const ref::Key& k, size_t* inner, const char* marker = "") {
  GenOpt o = db_opt(s);
  o.marker = marker;
  ModelDb m = generate(o);
  if (m.rounds > 100) m.rounds = 3;
  ref::Layout l;
  l.seed = s ? s->u("lseed", 1) : 1;
  l.opts = s ? static_cast<uint32_t>(s->u("l", 0)) : 0;
  std::vector<const Step*> ms;
  for (auto& st : p.steps) if (st.op == "mut") ms.push_back(&st);
  auto at = [&](int lv, const std::function<void(int, Rng&)>& f) {
    for (auto* st : ms) if (st->i("lv") == lv) { Rng r(mix64(st->u("seed"), 17)); count(std::string("mutation:") + kLevelName[lv]); f(static_cast<int>(st->i("kind")), r); }
  };
  std::string file;
  *inner = 0;
  if (o.kdbx) {
    file = ref::kdbx_write(m, k, l);
    ref::KdbxParts q = ref::kdbx_open(file, k);
    std::string x = q.payload;
    bool touched = false;
    for (auto* st : ms) touched |= st->i("lv") != kRaw;
    if (touched) {
      std::vector<HField> h = header_fields(q.header);
      at(kHeader, [&](int, Rng& r) { if (!h.empty()) header_mutate(h, r); });
      std::string hd = q.header.substr(0, 12);
      for (auto& f : h) {
        hd += le(f.id, 1) + le(f.size >= 0 ? static_cast<uint64_t>(f.size) : f.data.size(), 2) + f.data;
        if (f.id == 4) q.master_seed = f.data;
        if (f.id == 5 && f.data.size() == 32) q.tseed = f.data;
        if (f.id == 6 && f.data.size() >= 8) q.rounds = rd(f.data, 0, 2);
        if (f.id == 7 && f.data.size() == 16) q.iv = f.data;
        if (f.id == 9 && f.data.size() == 32) q.start_bytes = f.data;
        if (f.id == 3 && f.data.size() >= 4) q.compress = rd(f.data, 0, 4) == 1;
        if (!f.id) break;
      }
      if (hd != q.header) {
        q.header = hd;
        limit_rounds(q.header, true);
        size_t a = x.find("<HeaderHash>"), b = x.find("</HeaderHash>");
        if (a != std::string::npos && b != std::string::npos) x = x.substr(0, a + 12) + ref::b64(ref::sha256(q.header)) + x.substr(b);
      }
      bool tree = false;
      for (auto* st : ms) tree |= st->i("lv") == kXml;
      if (tree) {
        ref::Xn t = ref::parse_xml(x);
        at(kXml, [&](int kind, Rng& r) { xml_mutate(t, kind, r); });
        x.clear();
        put_xml2(t, x);
      }
      at(kText, [&](int, Rng& r) { x = text_mutate(x, r); });
      *inner = x.size();
      std::string y = q.compress ? ref::gzip(x) : x;
      at(kGzip, [&](int, Rng& r) { y = damage(y, r); });
      q.blocks = ref::kdbx_blocks(y);
      at(kBlocks, [&](int, Rng& r) { q.blocks = block_mutate(y, r); });
      file = ref::kdbx_seal(q, k);
    }
    *inner += x.size();
  } else {
    file = ref::kdb_write(m, k, l);
    bool touched = false;
    for (auto* st : ms) touched |= st->i("lv") != kRaw;
    if (touched) {
      ref::KdbParts q = ref::kdb_open(file, k);
      std::vector<KRec> v = kdb_split(q.content);
      at(kContent, [&](int kind, Rng& r) { kdb_mutate(q, v, kind, r); });
      q.content = kdb_join(v);
      at(kText, [&](int, Rng& r) { q.content = damage(q.content, r); });
      file = ref::kdb_seal(q, k);
    }
  }
  at(kRaw, [&](int, Rng& r) { file = damage(file, r); });
  limit_rounds(file, o.kdbx);
  return file;
}

void audit(const Out& o, const char* what) {
  count(std::string("hostile:") + what + ":" + (o.ok ? "accepted" : o.cls));
  if (o.capped) fail("memory-out-of-proportion", std::string(what) + " needs more than " + std::to_string(alloc_cap) + " bytes");
  if (!o.ok && o.cls == "other") fail("not-an-exception-class", std::string(what) + " throws something that is not a std::exception");
}
void use(const kp::Database& db, const kp::Key& key, bool kdbx) {
  // What was loaded can be traversed, printed and saved, or refused.
  ModelDb m;
  Out t = attempt({}, [&] { m = extract(db, kdbx); });
  audit(t, "traverse");
  if (!t.ok) fail("traversal-fails", t.str());
  ev_str("loaded", dump(m, kdbx ? kKdbx : kKdb));
  Out j = attempt({}, [&] { if (db.root()) db.root()->ToJson(); });
  audit(j, "print");
  // Saving indents deep trees, which costs the square of their depth: only a bound on the memory at all.
  alloc_cap = 1000000000;
  for (bool x : {true, false}) {
    Out s = save(x, "/d/again", db, key);
    audit(s, x ? "save_kdbx" : "save_kdb");
    if (s.ok) { Out l = load(x, "/d/again", key); audit(l, "reload"); }
  }
}
}  // namespace

std::string forge_hostile(const Plan& p, const Step* s, const ref::Key& k, const char* marker) { size_t inner; return forge(p, s, k, &inner, marker); }
void gen_mutations(Rng& r, bool x, Plan& p) {
  size_t n = 1 + (r.chance(1, 3) ? r.below(6) : 0);
  for (size_t i = 0; i < n; ++i) {
    int lv, kind = static_cast<int>(r.below(16));
    if (x) { static const int w[] = {kRaw, kHeader, kXml, kXml, kXml, kXml, kXml, kText, kGzip, kBlocks}; lv = w[r.below(10)]; }
    else { static const int w[] = {kRaw, kContent, kContent, kContent, kContent, kText}; lv = w[r.below(6)]; }
    p.add("mut").set("lv", lv).set("kind", kind).set("seed", static_cast<int64_t>(r.below(1000000)));
  }
}
Plan gen14(Rng& r, uint64_t) {
  Plan p;
  if (r.chance(1, 10)) {
    p.add("keyfile").set("seed", static_cast<int64_t>(r.below(1000000))).set("kind", static_cast<int64_t>(r.below(8))).set("n", static_cast<int64_t>(1 + r.below(3)));
    return p;
  }
  bool x = r.chance(3, 5);
  Step s = db_step(r, x, 1, swarm(r, fAllFeats & ~static_cast<uint32_t>(fCtrl | fBigBin | fLong)));
  s.set("lseed", static_cast<int64_t>(r.below(1000))).set("l", r.chance(1, 2) ? 0 : static_cast<int64_t>(r.next() & ref::lAllLayout));
  p.steps.push_back(s);
  gen_mutations(r, x, p);
  if (r.chance(1, 8)) p.add("fill").set("seed", static_cast<int64_t>(r.below(1000)));
  if (r.chance(1, 12)) p.steps.push_back(fault_step(r, kReadFaults));
  return p;
}
void run14(const Plan& p) {
  if (const Step* f = p.find("fill")) { fill_on = true; fill_seed = f->u("seed"); smear_stack(f->u("seed")); }
  Rng r(mix64(p.seed, 5));
  if (const Step* k = p.find("keyfile")) {
    Rng q(mix64(k->u("seed"), 3));
    std::string key32 = q.bytes(32), d = k->i("kind") % 2 ? ref::keyfile_xml(key32, q) : ref::keyfile_hex(key32, q);
    int64_t kind = k->i("kind") / 2;
    if (kind == 1) d = "<?xml version=\"1.0\"?><KeyFile><Key><Data>" + (q.chance(1, 2) ? esc(odd_text(q)) : ref::b64(q.bytes(q.below(2) ? 31 + q.below(3) : q.below(100)))) + "</Data></Key></KeyFile>";
    else if (kind == 2) { d.clear(); for (size_t n = q.chance(1, 2) ? 64 : q.below(200); n-- > 0;) d += q.chance(1, 60) ? static_cast<char>(q.byte()) : "0123456789abcdefABCDEF"[q.below(22)]; }
    else if (kind == 3) d = q.bytes(q.chance(1, 2) ? 64 : q.below(300));
    for (int64_t n = k->i("n"); n-- > 0 && kind != 2;) d = q.chance(1, 4) ? text_mutate(d, q) : damage(d, q);
    fs.put("/k/hostile.key", d);
    kp::Key key;
    alloc_cap = 64000000;
    Out o = attempt({}, [&] { key.SetKeyFile("/k/hostile.key"); });
    audit(o, "keyfile");
    state(mix64(hash_str(o.cls), d.size() % 100));
    return;
  }
  ref::Key rk;
  rk.has_pw = true;
  rk.pw = "pw" + std::to_string(r.below(100));
  kp::Key key = make_key(rk);
  const Step* s = p.find("db");
  Step none("db");
  if (!s) s = &none;
  bool x = db_opt(s).kdbx;
  size_t inner = 0;
  std::string file = forge(p, s, rk, &inner);
  fs.put(kFile, file);
  ev_str("file", file);
  alloc_cap = 64000000 + 400 * static_cast<int64_t>(file.size() + inner);
  overwrite_floor = 4096;
  OpStats ext;
  ext.opens = 1;
  ext.rbytes = file.size();
  Out o = load(x, kFile, key, faults_of(p, ext));
  audit(o, x ? "load_kdbx" : "load_kdb");
  // Work: the bytes asked for, a measure that does not depend on the machine.
  if (o.st.allocbytes > 256000000ull + 4000ull * (file.size() + inner)) fail("work-out-of-proportion", "a load of " + std::to_string(file.size()) + " bytes (content " + std::to_string(inner) + ") asks for " + std::to_string(o.st.allocbytes) + " bytes of memory in total");
  state(mix64(hash_str(o.cls + o.what), x));
  if (o.ok) use(*o.db, key, x);
  alloc_cap = 0;
  // The failure has left nothing behind: the other format's reader refuses it too, or yields a database.
  Out w = load(!x, kFile, key);
  audit(w, "wrong_format");
}
