// Entry point: batches of seeded plans, single replays, plan listing.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "common.hh"
#include "refcrypto.hh"

extern const PropDef kIoProps[] __attribute__((weak));
extern const PropDef kThrProps[] __attribute__((weak));
Verdict fork_execute(const Plan& p, uint64_t* hash, bool keep) __attribute__((weak));
Plan explicit_schedule(const Plan& p) __attribute__((weak));
extern const PropDef kHistProps[] __attribute__((weak));
extern const PropDef kMiscProps[] __attribute__((weak));
int draw_main(char** argv) __attribute__((weak));
const std::vector<PropDef>& props() {
  static const std::vector<PropDef> v = [] {
    std::vector<PropDef> a;
    for (auto t : {kIoProps, kHistProps, kMiscProps, kThrProps}) if (t) for (; t->id; ++t) a.push_back(*t);
    return a;
  }();
  return v;
}

static uint64_t run_seed(uint64_t seed, const std::string& prop, uint64_t idx) { return mix64(mix64(seed, hash_str(prop)), idx); }
static Plan make_plan(const PropDef& d, uint64_t seed, uint64_t idx) {
  uint64_t s = run_seed(seed, d.id, idx);
  Rng r(s);
  Plan p = d.gen(r, idx);
  p.prop = d.id;
  p.seed = s % 1000000007;
  return p;
}
static Verdict run_one(const Plan& p, uint64_t* hash, bool keep = false) {
  if (fork_execute) return fork_execute(p, hash, keep);
  struct itimerval t = {{0, 0}, {40, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);  // CPU time: independent of the load of the machine
  alarm(400);
  sim::ev_reset(keep);
  Verdict v = execute(p);
  *hash = sim::ev_hash();
  t.it_value.tv_sec = 0;
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm(0);
  return v;
}
// First uses of iostreams, locales and the library's own statics allocate once per process.
static void warm_up() {
  if (fork_execute) return;
  for (const char* t : {"plan C01 seed=1;db seed=3 g=2 e=3 f=134217727 x=1;save", "plan C01 seed=1;db seed=3 g=2 e=3 f=134217727 x=0;save"}) {
    uint64_t h;
    run_one(Plan::parse(t), &h);
  }
  sim::counters.clear();
  sim::states.clear();
}
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

static int batch(int argc, char** argv) {
  if (argc < 11) return 64;
  std::string prop = argv[2];
  uint64_t seed = strtoull(argv[3], nullptr, 10), count = strtoull(argv[4], nullptr, 10), workers = strtoull(argv[5], nullptr, 10), w = strtoull(argv[6], nullptr, 10);
  double limit = atof(argv[7]);
  const char *progress = argv[8], *out = argv[9];
  std::set<std::string> known;
  { std::stringstream ss(argv[10]); std::string k; while (std::getline(ss, k, ',')) known.insert(k); }
  const PropDef* d = nullptr;
  for (auto& q : props()) if (prop == q.id) d = &q;
  if (!d) { fprintf(stderr, "no such property\n"); return 64; }
  int pf = open(progress, O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (pf < 0 || ftruncate(pf, 64)) return 65;
  volatile uint64_t* prog = static_cast<volatile uint64_t*>(mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0));
  prog[0] = ~0ull;
  warm_up();
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  uint64_t runs = 0, dup = 0, mismatch = 0;
  std::unordered_set<uint64_t> traces, states;
  struct V { uint64_t idx; std::string plan, cls, detail; uint64_t hash, n; };
  std::vector<V> viol;
  std::vector<std::string> samples, bad_det;
  uint64_t t_sim = sim::sim_time_covered();
  bool stop = false;
  for (uint64_t idx = w; idx < count && !stop; idx += workers) {
    if (el() > limit) break;
    prog[0] = idx;
    Plan p = make_plan(*d, seed, idx);
    uint64_t h = 0;
    Verdict v = run_one(p, &h);
    ++runs;
    traces.insert(h);
    for (auto s : sim::states) states.insert(s);
    sim::states.clear();
    if (samples.size() < 2 && idx / workers >= 1) samples.push_back(p.text("; "));
    if (v.bad) {
      bool seen = false;
      for (auto& q : viol) if (q.cls == v.cls) { ++q.n; seen = true; }
      if (!seen && explicit_schedule) {
        Plan q = explicit_schedule(p);
        uint64_t h2 = 0;
        auto keep_c = sim::counters;
        Verdict v2 = run_one(q, &h2);
        sim::counters = keep_c;
        sim::states.clear();
        if (v2.bad && v2.cls == v.cls) { p = q; h = h2; }
      }
      if (!seen) viol.push_back({idx, p.text("; "), v.cls, v.detail, h, 1});
      if (!known.count(v.cls)) stop = true;
    }
    if (idx / workers % 64 == 7) {
      ++dup;
      uint64_t h2 = 0;
      auto keep_c = sim::counters;
      Verdict v2 = run_one(p, &h2);
      sim::counters = keep_c;
      sim::states.clear();
      if (h2 != h || v2.cls != v.cls) { ++mismatch; if (bad_det.size() < 3) bad_det.push_back(p.text("; ")); }
    }
    prog[1] = runs;
  }
  prog[2] = 1;
  std::ofstream o(out);
  o << "{\"runs\":" << runs << ",\"double_runs\":" << dup << ",\"mismatch\":" << mismatch << ",\"sim_seconds\":" << sim::sim_time_covered() - t_sim << ",\"wall\":" << el() << ",\n\"counters\":{";
  bool first = true;
  for (auto& c : sim::counters) { o << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
  o << "},\n\"violations\":[";
  first = true;
  for (auto& q : viol) { o << (first ? "" : ",") << "{\"idx\":" << q.idx << ",\"cls\":" << jstr(q.cls) << ",\"detail\":" << jstr(q.detail.substr(0, 600)) << ",\"hash\":\"" << q.hash << "\",\"n\":" << q.n << ",\"plan\":" << jstr(q.plan) << "}"; first = false; }
  o << "],\n\"samples\":[";
  first = true;
  for (auto& q : samples) { o << (first ? "" : ",") << jstr(q); first = false; }
  o << "],\n\"nondeterministic\":[";
  first = true;
  for (auto& q : bad_det) { o << (first ? "" : ",") << jstr(q); first = false; }
  o << "]}\n";
  o.close();
  auto dumpset = [&](const char* ext, const std::unordered_set<uint64_t>& s) {
    std::ofstream f(std::string(out) + ext, std::ios::binary);
    for (auto x : s) f.write(reinterpret_cast<const char*>(&x), 8);
  };
  dumpset(".traces", traces);
  dumpset(".states", states);
  return 0;
}

static int exec(const char* file, bool verbose) {
  std::ifstream f(file);
  std::vector<std::string> texts;
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    if (line.compare(0, 5, "plan ") == 0) texts.push_back("");
    if (texts.empty()) return 64;
    texts.back() += line + "\n";
  }
  warm_up();
  for (size_t i = 0; i < texts.size(); ++i) {
    Plan p = Plan::parse(texts[i]);
    uint64_t h = 0;
    Verdict v = run_one(p, &h, verbose);
    if (verbose) printf("%s", sim::ev_text().c_str());
    if (v.bad || i + 1 == texts.size()) {
      printf("RESULT %s %s %llu\n", v.bad ? "bad" : "ok", v.bad ? v.cls.c_str() : "-", static_cast<unsigned long long>(h));
      if (v.bad) printf("DETAIL %s\n", jstr(v.detail.substr(0, 1500)).c_str());
      fflush(stdout);
      if (verbose) for (auto& c : sim::counters) printf("  %s = %llu\n", c.first.c_str(), static_cast<unsigned long long>(c.second));
      return v.bad ? 10 : 0;
    }
  }
  return 64;
}

int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    // AddressSanitizer multiplies the size of stack frames: what 8 MB hold otherwise needs more here.
    rlimit st{96ul << 20, RLIM_INFINITY};
    getrlimit(RLIMIT_STACK, &st);
    st.rlim_cur = 96ul << 20;
    setrlimit(RLIMIT_STACK, &st);
    if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  if (!ref::self_test()) { fprintf(stderr, "the reference crypto self test fails\n"); return 66; }
  std::string m = argc > 1 ? argv[1] : "";
  if (m == "batch") return batch(argc, argv);
  if (m == "exec" && argc > 2) return exec(argv[2], argc > 3);
  if (m == "plan" && argc > 4) {
    for (auto& d : props()) if (std::string(argv[2]) == d.id) { printf("%s", make_plan(d, strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10)).text().c_str()); return 0; }
  }
  if (m == "draw" && argc > 6 && draw_main) return draw_main(argv);
  if (m == "list") { for (auto& d : props()) printf("%s\n", d.id); return 0; }
  fprintf(stderr, "usage: batch|exec|plan|list\n");
  return 64;
}
