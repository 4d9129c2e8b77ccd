// C11: several simulated threads using the library at the same time.
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sstream>
#include <unordered_set>

#include "refcrypto.hh"
#include "thr.hh"
#include "thr_rt.hh"

using namespace sim;
namespace sim { extern void (*fire_hook)(int kind); }

namespace {
const char* kOpName[kThrOps] = {"load", "load_shared_file", "save", "save_shared", "walk_shared", "json_shared", "json", "keyfile", "wrong_key", "damaged", "edit", "handles", "key_copy", "new_ids", "convert"};
const char* kTz[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01"};
thr::Report last;

void count_fire(int kind) {
  int t = thr::self();
  if (t >= 0 && !benign(kind)) ++thr_fired[t];
}
Plan gen11(Rng& r, uint64_t) {
  Plan p;
  int n = 2 + static_cast<int>(r.below(3));
  bool cold = r.chance(1, 3);
  p.add("world").set("n", n).set("tz", static_cast<int64_t>(r.below(3))).set("cold", cold);
  Step& s = p.add("sched");
  int64_t mean = 4;
  for (size_t k = r.below(16); k-- > 0;) mean *= 2;
  if (r.chance(2, 3)) s.set("policy", 1).set("seed", static_cast<int64_t>(r.below(1000000000))).set("mean", mean).set("hot", r.chance(1, 3) ? 0 : static_cast<int64_t>(r.below(60)));
  else s.set("policy", 2).set("seed", static_cast<int64_t>(r.below(1000000000))).set("mean", 1000 << r.below(11)).set("points", static_cast<int64_t>(r.below(6))).set("hot", r.chance(1, 2) ? 0 : static_cast<int64_t>(r.below(20)));
  bool x = r.chance(1, 2);
  Step d = db_step(r, x, 1, swarm(r, fAllFeats & ~static_cast<uint32_t>(fBigBin | fLong | fDeep)));
  d.op = "shared";
  p.steps.push_back(d);
  bool theme = r.chance(1, 2);
  int kind = static_cast<int>(r.below(kThrOps));
  bool tx = r.chance(1, 2);
  for (int t = 0; t < n; ++t)
    for (size_t k = 1 + r.below(2); k-- > 0;) {
      Step o = db_step(r, theme ? tx : r.chance(1, 2), 1, swarm(r, fAllFeats & ~static_cast<uint32_t>(fBigBin | fLong | fDeep)));
      o.op = "do";
      o.set("t", t).set("k", theme && r.chance(4, 5) ? kind : static_cast<int64_t>(r.below(kThrOps))).set("key", static_cast<int64_t>(r.below(1000))).set("reuse", r.chance(1, 2)).set("edits", static_cast<int64_t>(1 + r.below(4)));
      p.steps.push_back(o);
    }
  if (r.chance(1, 4)) p.steps.push_back(fault_step(r, r.chance(1, 3) ? std::vector<int>{F_ALLOC} : r.chance(1, 2) ? std::vector<int>{F_READ, F_SHORT_R, F_EINTR_R, F_OPEN, F_SEEK} : kWriteFaults));
  return p;
}
void run11(const Plan& p) {
  const Step* w = p.find("world");
  int n = w ? static_cast<int>(w->i("n", 2)) : 2;
  if (n < 1) n = 1;
  if (n > thr::kMaxT) n = thr::kMaxT;
  bool cold = w && w->i("cold");
  setenv("TZ", kTz[(w ? w->u("tz") : 0) % 3], 1);
  tzset();
  thr::Sched sc;
  if (const Step* s = p.find("sched")) {
    sc.policy = static_cast<int>(s->i("policy"));
    sc.seed = s->u("seed");
    sc.mean = std::max<int64_t>(1, s->i("mean", 1000));
    sc.hot = static_cast<int>(s->i("hot"));
    sc.points = static_cast<int>(s->i("points"));
  }
  for (auto& s : p.steps) if (s.op == "sw") sc.list.push_back({static_cast<int>(s.i("from")), s.i("at"), static_cast<int>(s.i("to"))});
  // A cold start leaves the first use of every part of the library to the threads: files come from the reference
  // writer, and nothing is shared.
  ThrShared sh;
  ModelDb sm = db_model(p.find("shared"), true);
  if (sm.rounds > 60) sm.rounds = 2 + sm.rounds % 50;
  sh.x = sm.kdbx;
  sh.file = "/d/shared.db";
  ref::Key sk;
  sk.has_pw = true;
  sk.pw = "shared";
  ref::Layout lay;
  fs.put(sh.file, sh.x ? ref::kdbx_write(sm, sk, lay) : ref::kdb_write(sm, sk, lay));
  if (!cold) {
    sh.key.reset(new kp::Key(make_key(sk)));
    sh.db = build(sm);
  }
  std::vector<ThrDesc> ds;
  for (auto& s : p.steps) if (s.op == "do") {
    ThrDesc d;
    d.t = static_cast<int>(s.u("t") % static_cast<uint64_t>(n));
    d.i = static_cast<int>(ds.size());
    d.k = static_cast<int>(s.u("k") % kThrOps);
    if (cold) { if (d.k == oLoadShared || d.k == oKeyCopy) d.k = oLoad; if (d.k == oSaveShared) d.k = oSave; if (d.k == oWalkShared || d.k == oHandles) d.k = oEdit; if (d.k == oJsonShared) d.k = oJson; }
    GenOpt o = db_opt(&s);
    d.x = o.kdbx;
    d.own_files = !s.i("reuse");
    d.m = generate(o);
    if (d.m.rounds > 60) d.m.rounds = 2 + d.m.rounds % 50;
    d.m2 = d.m;
    Rng er(mix64(s.u("key"), 31));
    for (int64_t i = std::min<int64_t>(s.i("edits"), 20); i-- > 0;) edit(d.m2, er, o);
    if (d.m2.rounds > 60) d.m2.rounds = 2 + d.m2.rounds % 50;
    d.rk = gen_key(er, d.k == oKeyFile ? 2 : static_cast<int>(er.below(3)));
    std::string id = std::to_string(d.i);
    d.in = "/d/in" + id;
    d.out = "/d/out" + id;
    d.kf = "/k/key" + id;
    if (d.rk.has_kf) put_keyfile(d.kf, d.rk.kf, er);
    std::string file = d.x ? ref::kdbx_write(d.m, d.rk, lay) : ref::kdb_write(d.m, d.rk, lay);
    size_t hd = ref::header_size(file, d.x);
    if (d.k == oDamaged && s.u("key") % 2) {          // what is refused with a message of its own
      size_t ver = d.x ? 8 + er.below(4) : 12 + er.below(4);
      switch (er.below(4)) {
        case 0: case 1: file[ver] = static_cast<char>(file[ver] ^ (16 + er.below(200))); break;
        case 2: {
          if (!d.x) { file.resize(er.below(file.size() + 1)); break; }
          ref::KdbxParts q = ref::kdbx_open(file, d.rk);
          std::string y = q.compress ? ref::gzip(q.payload) : q.payload;
          for (size_t k = 1 + er.below(3); k-- > 0;) y[er.below(y.size())] ^= static_cast<char>(1 + er.below(255));
          q.blocks = ref::kdbx_blocks(y);
          file = ref::kdbx_seal(q, d.rk);
          break;
        }
        default: {
          if (d.x) { file.resize(er.below(file.size() + 1)); break; }
          ref::KdbParts q = ref::kdb_open(file, d.rk);
          for (size_t k = 1 + er.below(3); k-- > 0 && !q.content.empty();) q.content[er.below(q.content.size())] ^= static_cast<char>(1 + er.below(255));
          file = ref::kdb_seal(q, d.rk);
        }
      }
    } else if (d.k == oDamaged) for (size_t k = 1 + er.below(3); k-- > 0 && file.size() > hd;) file[hd + er.below(file.size() - hd)] ^= static_cast<char>(1 + er.below(255));
    fs.put(d.in, file);
    ds.push_back(d);
  }
  for (auto& d : ds) count(std::string("op:") + kOpName[d.k]);
  auto go = [&](int t, std::vector<ThrResult>& res, const ThrShared& s) {
    ThrLocal l;
    for (auto& d : ds) if (d.t == t) thr_op(s, l, d, res[static_cast<size_t>(d.i)], t);
  };
  std::vector<ThrResult> res(ds.size()), alone(ds.size());
  OpStats ext;                                      // rough extent of what happens, to place faults in
  ext.opens = 3 * ds.size(); ext.rbytes = 2500 * ds.size(); ext.wbytes = 1500 * ds.size(); ext.closes = 2 * ds.size(); ext.seeks = 2 * ds.size(); ext.allocs = 700 * ds.size(); ext.reads = ext.writes = 10;
  Fs before = fs;
  fire_hook = count_fire;
  {
    Op op(faults_of(p, ext));
    std::function<void(int)> body = [&](int t) { go(t, res, sh); };
    last = thr::run(n, body, sc);
    op.stop();
  }
  fire_hook = nullptr;
  count("threads", static_cast<uint64_t>(n));
  count("events", last.events);
  count("context_switches", last.switches);
  count("blocked", last.blocks);
  if (cold) count("cold_starts");
  state(last.order);
  ev("order", static_cast<int64_t>(last.order), static_cast<int64_t>(last.events));
  if (!last.race.empty()) fail("data-race", last.race);
  // The same work, one operation after the other, in the same world.
  Fs after = fs;
  fs = before;
  ThrShared sh2;
  sh2.x = sh.x;
  sh2.file = sh.file;
  if (!cold) { sh2.key.reset(new kp::Key(make_key(sk))); sh2.db = build(sm); }
  for (int t = 0; t < n; ++t) { Op op; go(t, alone, sh2); op.stop(); }
  Fs serial = fs;
  std::unordered_set<std::string> ids;
  for (auto& d : ds) {
    ThrResult &a = res[static_cast<size_t>(d.i)], &b = alone[static_cast<size_t>(d.i)];
    std::string who = "thread " + std::to_string(d.t) + ", operation " + std::to_string(d.i) + " (" + kOpName[d.k] + (d.x ? ", kdbx)" : ", kdb)");
    ev_str("result", a.cls + a.text);
    count(std::string("result:") + (a.ok ? "ok" : a.cls));
    if (!a.done || !b.done) fail("operation-lost", who + " did not end");
    for (auto& i : a.ids) if (!ids.insert(i).second) fail("identifier-collision", who + ": two threads got the same identifier");
    if (a.faults && !a.ok) continue;                // its own fault
    if (a.ok != b.ok || (!a.faults && a.cls != b.cls)) fail("other-outcome", who + ": " + (a.ok ? "success" : a.cls + " (" + a.what + ")") + " among other threads, " + (b.ok ? "success" : b.cls + " (" + b.what + ")") + " alone");
    if (!a.ok && !a.faults && a.what != b.what) fail("other-message", who + ": " + a.what + " among other threads, " + b.what + " alone");
    if (a.text != b.text && !a.faults) fail("other-result", who + ": " + first_diff(b.text, a.text));
    if (!a.ok) continue;
    if (d.k == oSave || d.k == oSaveShared || d.k == oEdit || d.k == oConvert) {
      bool ox = d.k == oConvert ? !d.x : d.x;
      kp::Key k = make_key(d.k == oSaveShared ? sk : d.rk);
      fs = after;
      Out la = load(ox, d.out, k);
      fs = serial;
      Out lb = load(ox, d.out, k);
      if (la.ok != lb.ok) fail("other-file", who + ": its file loads with " + la.str() + ", written alone with " + lb.str());
      if (la.ok) { auto c = [&](const kp::Database& db) { return d.k == oConvert || (d.k == oSaveShared && ox != sh.x) ? dump(extract(db, ox), kCommon, false) : content(db, ox); };
        std::string df = first_diff(c(*lb.db), c(*la.db)); if (!df.empty()) fail("other-file", who + ": " + df); }
    }
  }
  // What was shared is as it was.
  if (!cold) { std::string df = first_diff(content(*sh2.db, sh.x), content(*sh.db, sh.x)); if (!df.empty()) fail("shared-object-changed", df); }
}
}  // namespace

extern const PropDef kThrProps[] = {{"C11", gen11, run11}, {nullptr, nullptr, nullptr}};

// Every run starts in a process in which the library has not been used: first uses are part of what is scheduled.
Verdict fork_execute(const Plan& p, uint64_t* hash, bool keep) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(nullptr);
  pid_t c = fork();
  if (c < 0) { perror("fork"); _exit(65); }
  if (c == 0) {
    close(fd[0]);
    struct itimerval t = {{0, 0}, {60, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
    alarm(400);
    counters.clear();
    states.clear();
    ev_reset(keep);
    Verdict v = execute(p);
    std::ostringstream o;
    o << v.bad << " " << ev_hash() << " " << sim_time_covered() << " " << counters.size() << " " << states.size() << " " << (last.log_full ? 0 : last.log.size()) << " " << v.cls.size() << " " << v.detail.size() << "\n";
    for (auto& k : counters) o << k.first << " " << k.second << "\n";
    for (auto s : states) o << s << "\n";
    if (!last.log_full) for (auto& s : last.log) o << s.from << " " << s.at << " " << s.to << "\n";
    o << v.cls << v.detail;
    if (keep) { printf("%s", ev_text().c_str()); fflush(stdout); }
    std::string s = o.str();
    for (size_t i = 0; i < s.size();) { ssize_t k = write(fd[1], s.data() + i, s.size() - i); if (k <= 0) _exit(65); i += static_cast<size_t>(k); }
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char b[65536];
  for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) s.append(b, static_cast<size_t>(k));
  close(fd[0]);
  int st = 0;
  waitpid(c, &st, 0);
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(128 + WTERMSIG(st)); }
  if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
  std::istringstream in(s);
  Verdict v;
  uint64_t cov = 0;
  size_t nc = 0, ns = 0, nl = 0, l1 = 0, l2 = 0;
  in >> v.bad >> *hash >> cov >> nc >> ns >> nl >> l1 >> l2;
  for (; nc-- > 0;) { std::string k; uint64_t n = 0; in >> k >> n; counters[k] += n; }
  states.clear();
  for (; ns-- > 0;) { uint64_t x = 0; in >> x; states.push_back(x); }
  last.log.clear();
  for (; nl-- > 0;) { thr::Sw w{}; in >> w.from >> w.at >> w.to; last.log.push_back(w); }
  std::string rest = s.substr(s.size() - l1 - l2);
  v.cls = rest.substr(0, l1);
  v.detail = rest.substr(l1);
  return v;
}
// The same plan with the schedule that was just taken written out.
Plan explicit_schedule(const Plan& p) {
  Plan q = p;
  q.steps.clear();
  for (auto& s : p.steps) if (s.op != "sched" && s.op != "sw") q.steps.push_back(s);
  if (last.log.size() > 3000) return p;
  for (auto& w : last.log) if (w.from >= 0) q.add("sw").set("from", w.from).set("at", w.at).set("to", w.to);
  return q;
}
