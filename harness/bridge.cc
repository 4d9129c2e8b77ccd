#include "bridge.hh"

#include <map>
#include <stdexcept>

#include "icon.hh"

using namespace kp;

namespace {
Uuid uu(const std::array<uint8_t, 16>& a) { return a; }
protect<std::string> ps(const PStr& s) { return protect<std::string>(s.v, s.prot); }
PStr sp(const protect<std::string>& s) { PStr p; p.v = *s; p.prot = s.is_protected(); return p; }
bool ne(const protect<std::string>& a, const PStr& b) { return *a != b.v || a.is_protected() != b.prot; }
std::shared_ptr<Binary> mkbin(const MBin& b) {
  auto x = std::make_shared<Binary>(protect<std::string>(b.data, b.prot));
  x->set_compress(b.compress);
  return x;
}
MBin xbin(const Binary& b) {
  MBin m;
  m.data = *b.data();
  m.prot = b.data().is_protected();
  m.compress = b.compress() && !m.prot;
  return m;
}

struct Applier {
  const ModelDb& m;
  Database& db;
  Metadata* meta;
  explicit Applier(const ModelDb& mm, Database& d) : m(mm), db(d), meta(d.meta().get()) {}
  std::map<std::string, std::shared_ptr<Group>> by_uuid;

  std::weak_ptr<Icon> icon(int i) { return i < 0 ? std::weak_ptr<Icon>() : std::weak_ptr<Icon>(meta->icons().at(static_cast<size_t>(i))); }
  void entry(const MEntry& e, Entry& x) {
    if (uu(x.uuid()) != e.uuid) x.set_uuid(e.uuid);
    if (x.icon() != e.icon) x.set_icon(e.icon);
    if (meta && x.custom_icon().lock() != icon(e.custom_icon).lock()) x.set_custom_icon(icon(e.custom_icon));
    if (ne(x.title(), e.title)) x.set_title(ps(e.title));
    if (ne(x.url(), e.url)) x.set_url(ps(e.url));
    if (ne(x.username(), e.username)) x.set_username(ps(e.username));
    if (ne(x.password(), e.password)) x.set_password(ps(e.password));
    if (ne(x.notes(), e.notes)) x.set_notes(ps(e.notes));
    if (x.override_url() != e.override_url) x.set_override_url(e.override_url);
    if (x.tags() != e.tags) x.set_tags(e.tags);
    if (x.bg_color() != e.bg) x.set_bg_color(e.bg);
    if (x.fg_color() != e.fg) x.set_fg_color(e.fg);
    if (x.creation_time() != e.t.creation) x.set_creation_time(e.t.creation);
    if (x.modification_time() != e.t.modification) x.set_modification_time(e.t.modification);
    if (x.access_time() != e.t.access) x.set_access_time(e.t.access);
    if (x.expiry_time() != e.t.expiry) x.set_expiry_time(e.t.expiry);
    if (x.move_time() != e.t.move) x.set_move_time(e.t.move);
    if (x.expires() != e.expires) x.set_expires(e.expires);
    if (x.usage_count() != e.usage) x.set_usage_count(e.usage);
    if (x.auto_type().enabled() != e.at_enabled) x.auto_type().set_enabled(e.at_enabled);
    if (x.auto_type().obfuscation() != e.at_obf) x.auto_type().set_obfuscation(e.at_obf != 0);
    if (x.auto_type().sequence() != e.at_seq) x.auto_type().set_sequence(e.at_seq);
    for (size_t i = x.auto_type().associations().size(); i < e.assoc.size(); ++i) x.auto_type().AddAssociation(e.assoc[i].window, e.assoc[i].sequence);
    for (size_t i = x.custom_fields().size(); i < e.fields.size(); ++i) { std::string k = e.fields[i].first; x.AddCustomField(k, ps(e.fields[i].second)); }
    for (size_t i = 0; i < x.attachments().size() && i < e.atts.size(); ++i) {
      auto& at = *x.attachments()[i];
      const MAtt& a = e.atts[i];
      if (at.name() != a.name) at.set_name(a.name);
      if (a.null || a.pool >= 0) continue;
      if (!at.binary() || at.binary()->data() != protect<std::string>(a.loose.data, a.loose.prot)) {
        bool own = at.binary() != nullptr;
        if (meta) for (auto& b : meta->binaries()) if (b == at.binary()) own = false;
        if (own && a.loose.data.size() % 2 == 0) at.binary()->set_data(protect<std::string>(a.loose.data, a.loose.prot));
        else at.set_binary(mkbin(a.loose));
      }
    }
    for (size_t i = x.attachments().size(); i < e.atts.size(); ++i) {
      const MAtt& a = e.atts[i];
      auto at = std::make_shared<Entry::Attachment>();
      at->set_name(a.name);
      if (!a.null) at->set_binary(a.pool >= 0 ? meta->binaries().at(static_cast<size_t>(a.pool)) : mkbin(a.loose));
      x.AddAttachment(at);
    }
    for (size_t i = 0; i < e.history.size(); ++i) {
      if (i >= x.history().size()) x.AddHistoryEntry(std::make_shared<Entry>());
      entry(e.history[i], *x.history()[i]);
    }
  }
  void group(const MGroup& g, const std::shared_ptr<Group>& xp) {
    Group& x = *xp;
    if (m.kdbx && uu(x.uuid()) != g.uuid) x.set_uuid(g.uuid);
    by_uuid.insert({hex(g.uuid.data(), 16), xp});
    if (x.icon() != g.icon) x.set_icon(g.icon);
    if (meta && x.custom_icon().lock() != icon(g.custom_icon).lock()) x.set_custom_icon(icon(g.custom_icon));
    if (x.name() != g.name) x.set_name(g.name);
    if (x.notes() != g.notes) x.set_notes(g.notes);
    if (x.creation_time() != g.t.creation) x.set_creation_time(g.t.creation);
    if (x.modification_time() != g.t.modification) x.set_modification_time(g.t.modification);
    if (x.access_time() != g.t.access) x.set_access_time(g.t.access);
    if (x.expiry_time() != g.t.expiry) x.set_expiry_time(g.t.expiry);
    if (x.move_time() != g.t.move) x.set_move_time(g.t.move);
    if (x.flags() != g.flags) x.set_flags(g.flags);
    if (x.expires() != g.expires) x.set_expires(g.expires);
    if (x.expanded() != g.expanded) x.set_expanded(g.expanded);
    if (x.usage_count() != g.usage) x.set_usage_count(g.usage);
    if (x.default_autotype_sequence() != g.at_seq) x.set_default_autotype_sequence(g.at_seq);
    if (x.autotype() != g.autotype) x.set_autotype(g.autotype);
    if (x.search() != g.search) x.set_search(g.search);
    for (size_t i = 0; i < g.entries.size(); ++i) {
      if (i >= x.Entries().size()) x.AddEntry(std::make_shared<Entry>());
      entry(g.entries[i], *x.Entries()[i]);
    }
    if (m.kdbx) {
      std::shared_ptr<Entry> lv = g.last_visible >= 0 ? x.Entries().at(static_cast<size_t>(g.last_visible)) : nullptr;
      if (x.last_visible_entry().lock() != lv) x.set_last_visible_entry(lv);
    }
    for (size_t i = 0; i < g.groups.size(); ++i) {
      if (i >= x.Groups().size()) x.AddGroup(std::make_shared<Group>());
      group(g.groups[i], x.Groups()[i]);
    }
  }
  std::shared_ptr<Group> ref(const MRef& r) {
    if (!r.set) return nullptr;
    auto it = by_uuid.find(hex(r.uuid.data(), 16));
    if (it != by_uuid.end()) return it->second;
    auto g = std::make_shared<Group>();
    g->set_uuid(r.uuid);
    return g;
  }
  static bool same(const temporal<std::string>& a, const MTemporal& b) { return *a == b.v && a.time() == b.t; }
  static temporal<std::string> tmp(const MTemporal& b) { return temporal<std::string>(b.v, b.t); }
  void run() {
    db.set_cipher(m.cipher ? Database::Cipher::kTwofish : Database::Cipher::kAes);
    db.set_master_seed(std::vector<uint8_t>(m.master_seed.begin(), m.master_seed.end()));
    std::array<uint8_t, 16> iv; std::copy(m.iv.begin(), m.iv.end(), iv.begin()); db.set_init_vector(iv);
    std::array<uint8_t, 32> k; std::copy(m.tseed.begin(), m.tseed.end(), k.begin()); db.set_transform_seed(k);
    if (m.kdbx) {
      std::copy(m.inner_key.begin(), m.inner_key.end(), k.begin()); db.set_inner_random_stream_key(k);
      db.set_compress(m.compress);
    }
    db.set_transform_rounds(m.rounds);
    if (m.has_meta) {
      if (!db.meta()) { db.set_meta(std::make_shared<Metadata>()); meta = db.meta().get(); }
      for (size_t i = 0; i < m.meta.icons.size(); ++i) {
        std::vector<uint8_t> d(m.meta.icons[i].data.begin(), m.meta.icons[i].data.end());
        if (i >= meta->icons().size()) meta->AddIcon(std::make_shared<Icon>(m.meta.icons[i].uuid, d));
        else if (meta->icons()[i]->data() != d) meta->icons()[i]->set_data(d);
      }
      for (size_t i = 0; i < m.meta.bins.size(); ++i) {
        const MBin& b = m.meta.bins[i];
        if (i >= meta->binaries().size()) { meta->AddBinary(mkbin(b)); continue; }
        Binary& x = *meta->binaries()[i];
        if (*x.data() != b.data || x.data().is_protected() != b.prot) x.set_data(protect<std::string>(b.data, b.prot));
        if (x.compress() != b.compress) x.set_compress(b.compress);
      }
    }
    if (!db.root()) db.set_root(std::make_shared<Group>());
    group(m.root, db.root());
    if (!m.has_meta) return;
    const MMeta& x = m.meta;
    Metadata& d = *meta;
    if (d.generator() != x.generator) d.set_generator(x.generator);
    if (d.database_color() != x.color) d.set_database_color(x.color);
    if (!same(d.database_name(), x.name)) d.set_database_name(tmp(x.name));
    if (!same(d.database_desc(), x.desc)) d.set_database_desc(tmp(x.desc));
    if (!same(d.default_username(), x.user)) d.set_default_username(tmp(x.user));
    if (d.maintenance_hist_days() != x.hist_days) d.set_maintenance_hist_days(x.hist_days);
    if (d.master_key_changed() != x.key_changed) d.set_master_key_changed(x.key_changed);
    if (d.master_key_change_rec() != x.key_rec) d.set_master_key_change_rec(x.key_rec);
    if (d.master_key_change_force() != x.key_force) d.set_master_key_change_force(x.key_force);
    d.memory_protection().set_title(x.prot_title); d.memory_protection().set_username(x.prot_user);
    d.memory_protection().set_password(x.prot_pass); d.memory_protection().set_url(x.prot_url);
    d.memory_protection().set_notes(x.prot_notes);
    if (d.recycle_bin() != ref(x.recycle)) d.set_recycle_bin(ref(x.recycle));
    if (d.recycle_bin_changed() != x.recycle_t) d.set_recycle_bin_changed(x.recycle_t);
    if (d.entry_templates() != ref(x.templates)) d.set_entry_templates(ref(x.templates));
    if (d.entry_templates_changed() != x.templates_t) d.set_entry_templates_changed(x.templates_t);
    if (d.history_max_items() != x.hist_items) d.set_history_max_items(x.hist_items);
    if (d.history_max_size() != x.hist_size) d.set_history_max_size(x.hist_size);
    if (d.last_selected_group().lock() != ref(x.selected)) d.set_last_selected_group(ref(x.selected));
    if (d.last_visible_group().lock() != ref(x.visible)) d.set_last_visible_group(ref(x.visible));
    for (size_t i = d.fields().size(); i < x.custom.size(); ++i) d.AddField(x.custom[i].first, x.custom[i].second);
  }
};

struct Extractor {
  const Database& db;
  bool kdbx;
  Metadata* meta;
  ModelDb m;
  model::PtrIndex bins, icons, groups;
  int nodes = 0;
  explicit Extractor(const Database& d, bool k) : db(d), kdbx(k), meta(d.meta().get()) {}
  int icon(const std::weak_ptr<Icon>& w) {
    auto p = w.lock();
    if (!p) return -1;
    return icons.find(p.get(), -2);
  }
  MEntry entry(Entry& x, int depth) {
    if (depth > 5000 || ++nodes > 2000000) throw std::runtime_error("object graph without end");
    MEntry e;
    e.uuid = x.uuid();
    e.icon = x.icon();
    e.custom_icon = icon(x.custom_icon());
    e.title = sp(x.title()); e.url = sp(x.url()); e.username = sp(x.username()); e.password = sp(x.password()); e.notes = sp(x.notes());
    e.override_url = x.override_url(); e.tags = x.tags(); e.bg = x.bg_color(); e.fg = x.fg_color();
    e.t.creation = x.creation_time(); e.t.modification = x.modification_time(); e.t.access = x.access_time();
    e.t.expiry = x.expiry_time(); e.t.move = x.move_time();
    e.expires = x.expires(); e.usage = x.usage_count();
    e.at_enabled = x.auto_type().enabled(); e.at_obf = x.auto_type().obfuscation(); e.at_seq = x.auto_type().sequence();
    for (auto& a : x.auto_type().associations()) e.assoc.push_back({a.window(), a.sequence()});
    for (auto& f : x.custom_fields()) e.fields.push_back({f.key(), sp(f.value())});
    for (auto& a : x.attachments()) {
      MAtt t;
      t.name = a->name();
      auto b = a->binary();
      if (!b) t.null = true;
      else {
        int at = bins.find(b.get(), -1);
        if (at >= 0) t.pool = at; else { t.loose = xbin(*b); t.loose.compress = false; }
      }
      e.atts.push_back(t);
    }
    for (auto& h : x.history()) e.history.push_back(entry(*h, depth + 1));
    return e;
  }
  MGroup group(const Group& x, int depth) {
    if (depth > 5000 || ++nodes > 2000000) throw std::runtime_error("object graph without end");
    MGroup g;
    groups.add(&x);
    g.uuid = x.uuid();
    g.icon = x.icon();
    g.custom_icon = icon(x.custom_icon());
    g.name = x.name(); g.notes = x.notes();
    g.t.creation = x.creation_time(); g.t.modification = x.modification_time(); g.t.access = x.access_time();
    g.t.expiry = x.expiry_time(); g.t.move = x.move_time();
    g.flags = x.flags(); g.expires = x.expires(); g.expanded = x.expanded(); g.usage = x.usage_count();
    g.at_seq = x.default_autotype_sequence(); g.autotype = x.autotype(); g.search = x.search();
    auto lv = x.last_visible_entry().lock();
    if (lv) {
      g.last_visible = -2;
      for (size_t i = 0; i < x.Entries().size(); ++i) if (x.Entries()[i] == lv) g.last_visible = static_cast<int>(i);
    }
    for (auto& e : x.Entries()) g.entries.push_back(entry(*e, depth + 1));
    for (auto& c : x.Groups()) g.groups.push_back(group(*c, depth + 1));
    return g;
  }
  MRef ref(const std::shared_ptr<Group>& g) {
    MRef r;
    if (!g) return r;
    r.set = true;
    r.uuid = g->uuid();
    r.in_tree = groups.find(g.get(), -1) >= 0;
    return r;
  }
  ModelDb run() {
    m.kdbx = kdbx;
    m.cipher = db.cipher() == Database::Cipher::kTwofish;
    m.master_seed.assign(db.master_seed().begin(), db.master_seed().end());
    m.iv.assign(db.init_vector().begin(), db.init_vector().end());
    m.tseed.assign(db.transform_seed().begin(), db.transform_seed().end());
    m.inner_key.assign(db.inner_random_stream_key().begin(), db.inner_random_stream_key().end());
    m.rounds = db.transform_rounds();
    m.compress = db.compress();
    m.has_meta = meta != nullptr;
    if (meta) {
      for (auto& b : meta->binaries()) { bins.add(b.get()); m.meta.bins.push_back(xbin(*b)); }
      for (auto& i : meta->icons()) {
        icons.add(i.get());
        m.meta.icons.push_back({i->uuid(), std::string(i->data().begin(), i->data().end())});
      }
    }
    if (db.root()) m.root = group(*db.root(), 0);
    if (!meta) return m;
    MMeta& x = m.meta;
    Metadata& d = *meta;
    x.generator = d.generator(); x.color = d.database_color();
    x.name = {*d.database_name(), d.database_name().time()};
    x.desc = {*d.database_desc(), d.database_desc().time()};
    x.user = {*d.default_username(), d.default_username().time()};
    x.hist_days = d.maintenance_hist_days();
    x.key_changed = d.master_key_changed(); x.key_rec = d.master_key_change_rec(); x.key_force = d.master_key_change_force();
    x.prot_title = d.memory_protection().title(); x.prot_user = d.memory_protection().username();
    x.prot_pass = d.memory_protection().password(); x.prot_url = d.memory_protection().url(); x.prot_notes = d.memory_protection().notes();
    x.recycle = ref(d.recycle_bin()); x.recycle_t = d.recycle_bin_changed();
    x.templates = ref(d.entry_templates()); x.templates_t = d.entry_templates_changed();
    x.hist_items = d.history_max_items(); x.hist_size = d.history_max_size();
    x.selected = ref(d.last_selected_group().lock()); x.visible = ref(d.last_visible_group().lock());
    for (auto& f : d.fields()) x.custom.push_back({f.key(), f.value()});
    return m;
  }
};
}  // namespace

std::unique_ptr<Database> build(const ModelDb& m) {
  std::unique_ptr<Database> db(new Database());
  apply(m, *db);
  return db;
}
void apply(const ModelDb& m, Database& db) { Applier a(m, db); a.run(); }
ModelDb extract(const Database& db, bool kdbx) { Extractor e(db, kdbx); return e.run(); }

namespace {
void scribble_entry(Entry& e, const std::string& t, int depth) {
  for (auto& a : e.attachments()) {
    if (a->binary()) { a->binary()->set_data(protect<std::string>(t + *a->binary()->data(), true)); a->binary()->set_compress(!a->binary()->compress()); }
    a->set_name(t + a->name());
  }
  e.set_title(protect<std::string>(t + *e.title(), true));
  e.set_notes(protect<std::string>(t + *e.notes(), false));
  e.set_icon(e.icon() + 1);
  e.set_creation_time(e.creation_time() + 60);
  e.auto_type().set_sequence(t + e.auto_type().sequence());
  e.auto_type().AddAssociation(t, t);
  std::string key = t;
  e.AddCustomField(key, protect<std::string>(t, false));
  if (depth < 5000) for (auto& h : e.history()) scribble_entry(*h, t, depth + 1);
}
void scribble_group(Group& g, const std::string& t, int depth) {
  g.set_name(t + g.name());
  g.set_notes(t + g.notes());
  g.set_icon(g.icon() + 1);
  for (auto& e : g.Entries()) scribble_entry(*e, t, 0);
  if (depth < 5000) for (auto& c : g.Groups()) scribble_group(*c, t, depth + 1);
}
}  // namespace
void scribble(Database& db, const std::string& t) {
  if (db.root()) scribble_group(*db.root(), t, 0);
  if (!db.meta()) return;
  Metadata& m = *db.meta();
  for (auto& b : m.binaries()) b->set_data(protect<std::string>(t + *b->data(), true));
  for (auto& i : m.icons()) { auto d = i->data(); d.push_back(7); i->set_data(d); }
  m.set_generator(t + m.generator());
  m.set_database_color(t);
  m.memory_protection().set_title(!m.memory_protection().title());
  for (auto g : {m.recycle_bin(), m.entry_templates(), m.last_selected_group().lock(), m.last_visible_group().lock()}) if (g) { g->set_name(t); g->set_notes(t); }
}
