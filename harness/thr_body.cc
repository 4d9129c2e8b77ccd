#include "thr.hh"
#include "exception.hh"
#include "thr_rt.hh"

uint64_t thr_fired[8];

static kp::Key own_key(const ThrDesc& d) {
  kp::Key k;
  if (d.rk.has_pw) k.SetPassword(d.rk.pw);
  if (d.rk.has_kf) k.SetKeyFile(d.kf);
  return k;
}
static std::string text_of(const kp::Database& db, bool x) {
  ModelDb m = extract(db, x);
  sim::Pause p;
  return dump(m, x ? kKdbx : kKdb);
}
static std::unique_ptr<kp::Database> get(Files& f, bool x, const std::string& path, const kp::Key& k) { return x ? f.kdbx.Import(path, k) : f.kdb.Import(path, k); }
static void put(Files& f, bool x, const std::string& path, const kp::Database& db, const kp::Key& k) { if (x) f.kdbx.Export(path, db, k); else f.kdb.Export(path, db, k); }
static std::string id(const Uuid& u) { return std::string(u.begin(), u.end()); }

static void go(const ThrShared& s, Files& f, const ThrDesc& d, ThrResult& r) {
  switch (d.k) {
    case oLoad: case oDamaged: r.text = text_of(*get(f, d.x, d.in, own_key(d)), d.x); break;
    case oWrongKey: { kp::Key k = own_key(d); k.SetPassword(d.rk.pw + "?"); r.text = text_of(*get(f, d.x, d.in, k), d.x); break; }
    case oLoadShared: r.text = text_of(*get(f, s.x, s.file, *s.key), s.x); break;
    case oSave: { kp::Key k = own_key(d); auto db = build(d.m); put(f, d.x, d.out, *db, k); break; }
    case oSaveShared: put(f, d.x, d.out, *s.db, *s.key); break;
    case oWalkShared: r.text = text_of(*s.db, s.x); break;
    case oJsonShared: r.text = s.db->root()->ToJson(); break;
    case oJson: r.text = build(d.m)->root()->ToJson(); break;
    case oKeyFile: {
      kp::Key k = own_key(d);
      k.SetKeyFile(d.kf);
      r.text = text_of(*get(f, d.x, d.in, k), d.x);
      break;
    }
    case oEdit: {
      kp::Key k = own_key(d);
      auto db = get(f, d.x, d.in, k);
      apply(d.m2, *db);
      put(f, d.x, d.out, *db, k);
      break;
    }
    case oHandles: {
      std::vector<std::shared_ptr<kp::Group>> g;
      std::vector<std::shared_ptr<kp::Entry>> e;
      g.push_back(s.db->root());
      for (size_t i = 0; i < g.size() && i < 200; ++i) {
        for (auto& x : g[i]->Groups()) g.push_back(x);
        for (auto& x : g[i]->Entries()) e.push_back(x);
      }
      size_t n = 0;
      for (auto& x : e) { n += x->title()->size() + x->password()->size(); for (auto& a : x->attachments()) { auto b = a->binary(); if (b) n += b->data()->size(); } }
      r.text = std::to_string(g.size()) + " " + std::to_string(e.size()) + " " + std::to_string(n);
      break;
    }
    case oKeyCopy: {
      kp::Key k = *s.key;
      k.SetPassword("another");
      kp::Key k2 = *s.key;
      try { get(f, s.x, s.file, k); r.text = "opens"; } catch (kp::PasswordError&) { r.text = "refused"; }
      r.text += text_of(*get(f, s.x, s.file, k2), s.x);
      break;
    }
    case oNewIds:
      for (int i = 0; i < 6; ++i) {
        auto e = std::make_shared<kp::Entry>();
        auto g = std::make_shared<kp::Group>();
        g->AddEntry(e);
        sim::Pause p;
        r.ids.push_back(id(e->uuid()));
        r.ids.push_back(id(g->uuid()));
      }
      break;
    case oConvert: { kp::Key k = own_key(d); auto db = get(f, d.x, d.in, k); put(f, !d.x, d.out, *db, k); break; }
  }
}
void thr_op(const ThrShared& s, ThrLocal& l, const ThrDesc& d, ThrResult& r, int t) {
  uint64_t before = thr_fired[t];
  std::unique_ptr<Files> fresh;
  const char* c = "";
  std::string what;
  try {
    Files* f = &l.files;
    if (d.own_files) { fresh.reset(new Files); f = fresh.get(); }
    go(s, *f, d, r);
    r.ok = true;
  } catch (kp::PasswordError& e) { c = "password"; sim::Pause p; what = e.what();
  } catch (kp::FormatError& e) { c = "format"; sim::Pause p; what = e.what();
  } catch (kp::FileNotFoundError& e) { c = "notfound"; sim::Pause p; what = e.what();
  } catch (kp::IoError& e) { c = "io"; sim::Pause p; what = e.what();
  } catch (kp::InternalError& e) { c = "internal"; sim::Pause p; what = e.what();
  } catch (std::bad_alloc& e) { c = "bad_alloc"; sim::Pause p; what = e.what();
  } catch (std::exception& e) { c = "std"; sim::Pause p; what = e.what();
  } catch (...) { c = "other"; }
  sim::Pause p;
  r.cls = c;
  r.what = what;
  r.done = true;
  r.faults = thr_fired[t] - before;
}
