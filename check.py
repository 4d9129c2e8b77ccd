#!/usr/bin/env python3
"""Builds the simulator with the library of /repo's working tree and runs the check of one property.

  check.py C01 [quick|thorough]     run a check (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE            replay a violation
  check.py --build                  only build
"""
import concurrent.futures as cf
import hashlib, json, os, re, struct, subprocess, sys, tempfile, time, glob, shutil, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
H = os.path.join(VERIF, "harness")
JOBS = 8

LIB_FLAGS = ["-std=c++11", "-include", "limits", "-g", "-O1", "-DDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-w"]
SANITIZE = ["-fsanitize=address,bounds,integer-divide-by-zero,bool,enum,return,unreachable,null,vla-bound,shift-exponent", "-fno-sanitize-recover=all"]
HAR_FLAGS = ["-std=c++17", "-g1", "-O1", "-DDEBUG", "-include", "limits", "-I" + REPO + "/src", "-Wno-deprecated-declarations", "-w"]
WRAPS = ["malloc", "calloc", "realloc", "inflateInit2_", "inflateInit_", "deflateInit_", "deflateInit2_"]
THR_WRAPS = ["memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "_ZNSi4readEPcl", "_ZNSo5writeEPKcl", "inflate", "deflate", "SHA256_Init", "SHA256_Update",
             "SHA256_Final", "AES_encrypt", "AES_decrypt", "AES_set_encrypt_key", "AES_set_decrypt_key"]
LINK = ["-rdynamic", "-lcrypto", "-lz", "-ldl"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def compile_all(jobs):
    """jobs: list of (command, output)."""
    def one(j):
        cmd, out = j
        if os.path.exists(out):
            return None
        tmp = out + ".tmp%d" % os.getpid()
        r = sh(cmd + ["-o", tmp])
        if r.returncode:
            return " ".join(cmd) + "\n" + r.stdout
        os.replace(tmp, out)
        return None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(one, jobs):
            if e:
                print(e[-6000:])
                sys.exit(2)


def build(kind):
    """kind: 'sim' (single threaded, AddressSanitizer) or 'thr' (thread scheduler)."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    libs = sorted(glob.glob(REPO + "/src/*.cc"))
    lib_all = libs + sorted(glob.glob(REPO + "/src/*.hh"))
    har_hdr = sorted(glob.glob(H + "/*.hh"))
    lib_hdr = sorted(glob.glob(REPO + "/src/*.hh"))
    if kind == "sim":
        lflags, hsrc, wraps = LIB_FLAGS + SANITIZE, [p for p in sorted(glob.glob(H + "/*.cc")) if not os.path.basename(p).startswith("thr")], WRAPS
        lcc, link = "g++", LINK + ["-fsanitize=address,undefined"]
    else:
        # Instrumented for ThreadSanitizer, whose runtime harness/thr_rt.cc replaces.
        lflags = LIB_FLAGS + ["-fsanitize=thread", "-include", H + "/thr_prelude.hh"]
        hsrc = [os.path.join(H, n) for n in ("thr_body.cc", "bridge.cc", "thr_rt.cc", "thr.cc", "main.cc", "sim.cc", "common.cc", "model.cc", "refcodec.cc", "refcrypto.cc")]
        wraps, link = WRAPS + THR_WRAPS, LINK + ["-lpthread"]
    jobs, objs = [], []
    # The ciphers are most of the work and have no bounds of their own that depend on input.
    fast = ["-O2", "-fno-sanitize=undefined"] if kind != "thr" else []
    lib_sig = digest(lib_all, lflags + fast)
    for s in libs:
        o = os.path.join(BUILD, "lib-%s-%s.o" % (lib_sig, os.path.basename(s)))
        jobs.append((["g++"] + lflags + (fast if os.path.basename(s) == "cipher.cc" else []) + ["-I" + REPO + "/src", "-c", s], o))
        objs.append(o)
    for s in hsrc:
        hf = HAR_FLAGS + (["-fsanitize=thread", "-include", H + "/thr_prelude.hh"] if kind == "thr" and os.path.basename(s) in ("thr_body.cc", "bridge.cc") else [])
        o = os.path.join(BUILD, "har-%s-%s.o" % (digest([s] + har_hdr + lib_hdr, hf), os.path.basename(s)))
        jobs.append((["g++"] + hf + ["-c", s], o))
        objs.append(o)
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-1]))
    compile_all(jobs)
    exe = os.path.join(BUILD, "%s-%s" % (kind, digest(objs, link + wraps)))
    if not os.path.exists(exe):
        r = sh(["g++", "-o", exe + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in wraps] + link)
        if r.returncode:
            print(r.stdout[-6000:])
            sys.exit(2)
        os.replace(exe + ".tmp", exe)
    lock.close()
    return exe


# ---- properties ------------------------------------------------------------------------------------------------
# runs: size of the quick batch; the thorough batch is `thorough` times as big.
from checks import PROPS, EVIDENCE  # noqa: E402

ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:print_legend=0:malloc_context_size=8:quarantine_size_mb=32:symbolize=0",
           LC_ALL="C", TZ="UTC0", MALLOC_ARENA_MAX="1")
for k in ("SIM_NO_REEXEC",):
    ENV.pop(k, None)


def death(rc, err):
    """Class of a run that ended the process."""
    m = re.search(r"^SIM-DEATH: ([\w-]+)", err, re.M)
    if m:
        return m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"runtime error: (\w+)", err)
    if m:
        return "undefined-" + m.group(1)
    if "Assertion" in err or rc == -6:
        return "abort"
    if rc in (-27, -14, 155, 142):
        return "hang"
    if rc < 0:
        return "signal-%d" % -rc
    return "exit-%d" % rc


def tail(err):
    lines = [l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "Assertion" in l or "what()" in l or l.strip().startswith("#")]
    return " | ".join(l.strip() for l in lines[:8])[:800]


def parse_plans(text):
    """Plans of a text, each a list of lines; ';' separates lines as well."""
    plans = []
    for line in re.split(r"[\n;]", text):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        if line.startswith("plan "):
            plans.append([])
        plans[-1].append(line)
    return plans


class Runner:
    def symbols(self, text):
        """Names the places that the exported symbols do not."""
        def one(m):
            r = sh(["addr2line", "-Cfse", self.exe, m.group(1)]).stdout.split("\n")
            return "%s (%s)" % (r[0], r[1]) if len(r) > 1 else m.group(0)
        return re.sub(r"code at \+(0x[0-9a-f]+)", one, text)

    def __init__(self, exe, work):
        self.exe, self.work, self.n = exe, work, 0

    def exec(self, plans, verbose=False):
        """Runs plans in a fresh process. Returns (bad, cls, hash, detail)."""
        self.n += 1
        fn = os.path.join(self.work, "p%d-%d" % (os.getpid(), self.n))
        with open(fn, "w") as f:
            f.write("\n".join("\n".join(p) for p in plans) + "\n")
        try:
            r = subprocess.run([self.exe, "exec", fn] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=450)
            out, err, rc = r.stdout.decode("latin-1"), r.stderr.decode("latin-1"), r.returncode
        except subprocess.TimeoutExpired:
            return True, "hang", "0", "no end"
        finally:
            os.unlink(fn)
        if verbose:
            print(out)
            print(err[-3000:])
        m = re.search(r"^RESULT (\w+) (\S+) (\d+)", out, re.M)
        if rc in (0, 10) and m:
            d = re.search(r"^DETAIL (.*)", out, re.M)
            return m.group(1) == "bad", m.group(2), m.group(3), self.symbols(json.loads(d.group(1))) if d else ""
        if rc in (64, 65, 66):
            print(err)
            sys.exit(2)
        return True, death(rc, err), "0", tail(err)


def minimise(run, plans, cls, budget):
    """Drops plans and steps and shrinks numbers while the violation keeps its class."""
    t_end = time.time() + budget
    pool = cf.ThreadPoolExecutor(JOBS)

    def still(ps):
        b, c, _, _ = run.exec(ps)
        return b and c == cls

    def first_ok(cands):
        # evaluates candidates in parallel chunks, keeps the first in order: deterministic
        for i in range(0, len(cands), JOBS):
            if time.time() > t_end:
                return None
            chunk = cands[i:i + JOBS]
            for c, ok in zip(chunk, pool.map(still, chunk)):
                if ok:
                    return c
        return None

    def drop(ps, get, put):
        n = max(1, len(get(ps)) // 2)
        while time.time() < t_end:
            items = get(ps)
            cands = [put(ps, items[:i] + items[i + n:]) for i in range(0, len(items), n)]
            cands = [c for c in cands if c is not None]
            c = first_ok(cands)
            if c is not None:
                ps = c
            elif n == 1:
                break
            else:
                n = max(1, n // 2)
        return ps

    if len(plans) > 1:
        plans = drop(plans, lambda ps: ps[:-1], lambda ps, it: it + [ps[-1]])
    for k in range(len(plans)):
        plans = drop(plans, lambda ps: ps[k][1:], lambda ps, it: ps[:k] + [[ps[k][0]] + it] + ps[k + 1:])
    changed = True
    while changed and time.time() < t_end:
        changed = False
        for k in range(len(plans)):
            for i in range(1, len(plans[k])):
                words = plans[k][i].split()
                for j in range(1, len(words)):
                    key, _, val = words[j].partition("=")
                    if not re.fullmatch(r"-?\d+", val) or int(val) == 0:
                        continue
                    v = int(val)
                    if key == "x":
                        continue
                    if key == "f":
                        alts = [0] + [v & ~(1 << b) for b in range(32) if v >> b & 1]
                    else:
                        alts = sorted(set([0, 1, v // 2, v - 1 if v > 0 else v + 1]), key=abs)
                        alts = [a for a in alts if abs(a) < abs(v)]
                    cands = []
                    for a in alts:
                        w = list(words)
                        w[j] = "%s=%d" % (key, a)
                        q = [list(p) for p in plans]
                        q[k][i] = " ".join(w)
                        cands.append(q)
                    c = first_ok(cands)
                    if c is not None:
                        plans, changed = c, True
                        words = plans[k][i].split()
    pool.shutdown()
    return plans


def known_findings(prop):
    """known_findings.txt: finding: property=C04 class=... probe=<plan> -- text"""
    res = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) class=(\S+) probe=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    exe = build(cfg.get("kind", "sim"))
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="simwork")
    try:
        return check2(prop, tier, seed, cfg, exe, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check2(prop, tier, seed, cfg, exe, work, t0, t_build):
    run = Runner(exe, work)
    known = known_findings(prop)
    known_cls = ",".join(c for c, _, _ in known) or "-"
    runs = cfg["runs"] * (cfg.get("thorough", 15) if tier == "thorough" else 1)
    limit = 600 if tier == "thorough" else 150
    procs = []
    tb = time.time()
    for w in range(JOBS):
        base = os.path.join(work, "w%d" % w)
        err = open(base + ".err", "wb")
        procs.append((subprocess.Popen([exe, "batch", prop, str(seed), str(runs), str(JOBS), str(w), str(limit), base + ".prog", base + ".out", known_cls], stdout=err, stderr=err, env=ENV), base))
    tot = dict(runs=0, double=0, mismatch=0, sim=0)
    counters, viol, samples, nondet = {}, [], [], []
    traces, states = set(), set()
    for w, (p, base) in enumerate(procs):
        try:
            rc = p.wait(timeout=limit + 420)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -14
        err = open(base + ".err", "rb").read().decode("latin-1")
        if rc in (64, 65, 66):
            print(err)
            return 2
        prog = struct.unpack("8Q", open(base + ".prog", "rb").read(64)) if os.path.exists(base + ".prog") else (2**64 - 1,) * 8
        if rc != 0 or not os.path.exists(base + ".out"):
            if prog[0] == 2**64 - 1:
                print("worker ended before its first run: rc=%d\n%s" % (rc, err[-3000:]))
                # a library that cannot even do the warm-up: every property of it is broken by the simplest plan
                viol.append(dict(idx=None, cls=death(rc, err), detail=tail(err), w=w, plan="plan %s seed=1" % prop))
                continue
            tot["runs"] += prog[1] + 1
            viol.append(dict(idx=prog[0], cls=death(rc, err), detail=tail(err), w=w, plan=None))
            continue
        d = json.load(open(base + ".out"))
        tot["runs"] += d["runs"]; tot["double"] += d["double_runs"]; tot["mismatch"] += d["mismatch"]; tot["sim"] += d["sim_seconds"]
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for v in d["violations"]:
            v["w"] = w
            viol.append(v)
        samples += d["samples"]
        nondet += d["nondeterministic"]
        for ext, s in ((".traces", traces), (".states", states)):
            b = open(base + ".out" + ext, "rb").read()
            s.update(struct.unpack("%dQ" % (len(b) // 8), b))
    batch_wall = time.time() - tb

    # Known findings: replay the listed history, and fold in what the search met of the same class.
    known_hits = {}
    for cls, probe, text in known:
        b, c, _, det = run.exec(parse_plans(probe))
        if b and c == cls:
            known_hits[cls] = det
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        elif b:
            viol.append(dict(idx=None, cls=c, detail=det, w=0, plan=probe))
    fresh = [v for v in viol if v["cls"] not in [c for c, _, _ in known]]

    def plan_of(v):
        if v["plan"]:
            return v["plan"]
        return sh([exe, "plan", prop, str(seed), str(v["idx"])], env=ENV).stdout

    rc, reported, unrepro = 0, 0, []
    by_cls = {}
    for v in fresh:
        v["plan"] = plan_of(v)
        if v["cls"] not in by_cls or len(v["plan"]) < len(by_cls[v["cls"]]["plan"]):
            by_cls[v["cls"]] = v
    budget = 60 if tier == "quick" else 120
    replays = os.path.join(VERIF, "replays")
    for cls, v in sorted(by_cls.items())[:4]:
        plans = parse_plans(v["plan"])
        b, c, h, det = run.exec(plans)
        if not b and v["idx"] is not None:
            # Something earlier in the same process matters: replay the history of that worker.
            seq = []
            for i in range(v["w"], v["idx"] + 1, JOBS)[-400:]:
                seq += parse_plans(sh([exe, "plan", prop, str(seed), str(i)], env=ENV).stdout)
            b, c, h, det = run.exec(seq)
            plans = seq
        if not b:
            unrepro.append((cls, v["plan"]))
            continue
        if c in [k for k, _, _ in known]:
            continue
        small = minimise(run, plans, c, budget)
        r1, r2 = run.exec(small), run.exec(small)
        if r1[:3] != r2[:3] or not r1[0]:
            small = plans
            r1, r2 = run.exec(small), run.exec(small)
            if r1[:2] != r2[:2] or not r1[0]:
                unrepro.append((cls, v["plan"]))
                continue
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, "%s-%s-%d.plan" % (prop, c, seed))
        with open(path, "w") as f:
            f.write("# property %s, violation class %s, VERIF_SEED=%d, run %s\n# %s\n# event hash %s\n# replay: python3 check.py --replay %s\n" % (prop, c, seed, v["idx"], r1[3].replace("\n", " ")[:1500], r1[2], os.path.relpath(path, VERIF)))
            f.write("\n".join("\n".join(p) for p in small) + "\n")
        print("%s: %s" % (c, r1[3][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        reported += 1
        rc = 1
    if unrepro and rc == 0:
        for c, p in unrepro:
            print("NOT REPRODUCED %s: %s" % (c, p))
        rc = 3
    if nondet:
        print("runs that differ when repeated: %d, e.g. %s" % (tot["mismatch"], nondet[0]))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(traces),
            "rule": cfg["rule"] + " A run counts as distinct and non-trivial by the hash of its complete event log (every library call's outcome, every simulated system call with its bytes, every fired fault, every compared result); runs whose log repeats an earlier one are not counted.",
            "samples": sorted(samples)[:6],
            "runs_per_hour": int(tot["runs"] / max(batch_wall, 0.1) * 3600), "seeds_used": tot["runs"],
            "simulated_seconds_covered": tot["sim"],
            "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")},
            "events": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault:")},
            "distinct_states": len(states), "state_measure": EVIDENCE["states"].get(prop, EVIDENCE["states"]["*"]),
            "runs_executed_twice": tot["double"], "runs_that_differed_when_repeated": tot["mismatch"],
            "real_components": EVIDENCE["real"].get(prop, EVIDENCE["real"]["*"]), "simulated_components": EVIDENCE["stub"].get(prop, EVIDENCE["stub"]["*"]),
            "known_findings_confirmed": sorted(known_hits), "build_s": round(t_build, 1),
        },
        "assumptions": EVIDENCE["assumptions"]["*"] + EVIDENCE["assumptions"].get(prop, []),
        "wall_s": round(wall, 1), "violations": reported,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct) in %.1f s (build %.1f s), %d violations" % (prop, tier, tot["runs"], len(traces), wall, t_build, reported))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(ev["coverage"]["faults_injected"]), json.dumps(ev["coverage"]["events"]), len(states))
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for k in ["sim"] + (["thr"] if os.path.exists(H + "/thr.cc") else []):
            build(k)
        return 0
    if len(a) > 1 and a[0] == "--replay":
        plans = parse_plans(open(a[1]).read())
        prop = plans[-1][0].split()[1]
        work = tempfile.mkdtemp(prefix="simwork")
        b, c, h, d = Runner(build(PROPS[prop].get("kind", "sim")), work).exec(plans, verbose="-v" in a)
        shutil.rmtree(work)
        print("%s %s event hash %s: %s" % ("violation" if b else "ok", c, h, d))
        if b:
            print("VIOLATION property=%s replay=%s" % (prop, a[1]))
        return 1 if b else 0
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


sys.exit(main())
