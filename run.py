#!/usr/bin/env python3
"""Builds and runs the monitors of one property against /repo's working tree.

  run.py ID [--tier quick|thorough] [--seed N]   run the check of property ID
  run.py ID --replay FILE                        run the one case a VIOLATION line names
  run.py --list                                  the properties with a check
  run.py --setup                                 check that the tools are there

Exit 0: held on everything explored.  Exit 1 with `VIOLATION property=<id> replay=<path>`:
broken.  Exit 2: no verdict (build failed, nothing was observed, out of time).
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, struct
import subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NBDL_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
JOBS = max(2, min(8, os.cpu_count() or 2))
BASE = ["-std=c++26", "-I" + REPO + "/include", "-I" + REPO + "/example", "-I/usr/include/jsoncpp", "-I" + HERE + "/harness",
        "-include", "cstdint", "-include", "string", "-include", "algorithm",
        "-DBOOST_HANA_CONFIG_ENABLE_STRING_UDL", "-DBOOST_ASIO_NO_TYPEID",
        "-ftemplate-backtrace-limit=0", "-w", "-fno-omit-frame-pointer"]
SAN = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "asan0": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
              "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "tsan0": ["-O0", "-g1", "-fsanitize=thread", "-DVMON_THREADS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
}
LINK = ["-ljsoncpp", "-lpthread"]
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("abort_on_error=0:halt_on_error=1:detect_leaks=0:handle_abort=1:allocator_may_return_null=0:"
                       "detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=4096:"
                       "hard_rss_limit_mb=5000:exitcode=66:quarantine_size_mb=64:symbolize=1")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
ENV.pop("LD_PRELOAD", None)

DEADLINE = {"quick": 840.0, "thorough": 3000.0}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


# ------------------------------------------------------------------ building

def sha(path):
    h = hashlib.sha1()
    try:
        with open(path, "rb") as f:
            h.update(f.read())
    except OSError:
        return None
    return h.hexdigest()


def parse_dep(path):
    text = open(path).read().replace("\\\n", " ")
    return [d for d in text.split(":", 1)[1].split() if d]


def build(prog, builddir, deadline):
    """Compiles one harness.  Reuses a binary only if the command and the content of every
    file it was made from are the same."""
    src = os.path.join(HERE, "harness", prog["src"])
    san = prog.get("san", "asan")
    tag = os.path.splitext(prog["src"])[0] + "-" + san + prog.get("tag", "")
    exe = os.path.join(builddir, tag)
    cmd = [CXX] + BASE + SAN[san] + prog.get("flags", []) + [src, "-MMD", "-MF", exe + ".d", "-o", exe] + prog.get("link", []) + LINK
    stamp = exe + ".stamp"
    try:
        old = json.load(open(stamp))
        if old["cmd"] == cmd and os.path.exists(exe) and all(sha(p) == h for p, h in old["deps"].items()):
            return exe, 0.0
    except (OSError, ValueError, KeyError):
        pass
    t0 = time.time()
    for f in (stamp, exe):
        if os.path.exists(f):
            os.unlink(f)
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=max(10, deadline - time.time()))
    if p.returncode != 0:
        raise NoVerdict("the harness %s does not compile:\n%s" % (prog["src"], p.stderr[:4000]))
    deps = {d: sha(d) for d in parse_dep(exe + ".d") if not d.startswith("/usr/")}
    json.dump({"cmd": cmd, "deps": deps}, open(stamp, "w"))
    return exe, time.time() - t0


# ------------------------------------------------------------------ running

def classify(stderr, rc):
    """A stable name for a crash: what the sanitizer said and the nbdl file it points at."""
    def where(text):
        m = re.findall(re.escape(REPO) + r"/((?:include|example)/[\w./-]+):\d+", text)
        if m:
            return m[0]
        m = re.findall(r"/(?:include|example)/((?:nbdl|mpdef|tiles)/[\w./-]+\.hpp):\d+", text)
        return m[0] if m else "?"
    m = re.search(r"(\S+): runtime error: (.*)", stderr)
    if m:
        what = re.sub(r"-?\b(0x)?[0-9a-f]*\d[0-9a-f]*\b", "N", m.group(2))
        loc = where(m.group(1)) if REPO in m.group(1) else where(stderr)
        return "ubsan:%s@%s" % (what[:100], loc), m.group(0)[:300]
    m = re.search(r"ERROR: (AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([\w-]+)", stderr)
    if m and m.group(2) not in ("ABRT", "hard"):
        return "%s:%s@%s" % (m.group(1).replace("Sanitizer", "san").lower(), m.group(2), where(stderr)), m.group(0)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", stderr)
    if m:
        return "tsan:%s@%s" % (m.group(1), where(stderr)), m.group(0)
    m = re.search(r"Assertion '(.*?)' failed", stderr)
    if m:
        return "glibcxx-assert@%s" % where(stderr), m.group(0)[:300]
    m = re.search(r"terminate called.*", stderr)
    if m:
        return "terminate@%s" % where(stderr), stderr[m.start():m.start() + 300]
    if "Sanitizer:" in stderr:
        m = re.search(r"(\w+Sanitizer: .*)", stderr)
        return "sanitizer@%s" % where(stderr), m.group(1)[:300]
    if rc < 0:
        try:
            return "signal:%s" % signal.Signals(-rc).name, "killed by signal %d" % -rc
        except ValueError:
            pass
    return "exit:%d" % rc, "exit status %d" % rc


def read_mark(path):
    try:
        with open(path, "rb") as f:
            return struct.unpack("<QQ", f.read(16))
    except (OSError, struct.error):
        return (0, 0)


class Job:
    def __init__(self, prog, exe, mode, start, count, seed, tier, scratch, case_timeout, deadline):
        self.__dict__.update(locals())
        self.violations, self.summaries, self.inconclusive = [], [], []
        self.truncated = False
        self.error = None
        self.hashes = set()

    def proc(self, extra, tag, timeout_case):
        out = os.path.join(self.scratch, "%s.%s.%d.%s" % (os.path.basename(self.exe), self.mode, self.start, tag))
        mark, err = out + ".mark", out + ".err"
        cmd = [self.exe, "--mode", self.mode, "--seed", str(self.seed), "--out", out, "--mark", mark] + extra
        if self.tier == "thorough":
            cmd.append("--thorough")
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=self.scratch,
                                 start_new_session=True)
        last, since, hung, late = None, time.time(), False, False
        while True:
            try:
                p.wait(timeout=0.05 if last is None else 0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            m = read_mark(mark)
            if m != last:
                last, since = m, now
            if now - since > timeout_case or now > self.deadline:
                hung, late = now <= self.deadline, now > self.deadline
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        m = read_mark(mark)
        with open(err, "rb") as f:
            stderr = f.read(400000).decode("utf-8", "replace")
        res = {"rc": p.returncode, "case": m[0], "stage": m[1], "hung": hung, "late": late, "stderr": stderr}
        try:
            res["summary"] = json.load(open(out))
        except (OSError, ValueError):
            res["summary"] = None
        viol = []
        try:
            for line in open(out + ".viol"):
                viol.append(json.loads(line))
        except OSError:
            pass
        res["viol"] = viol
        try:
            data = open(out + ".hash", "rb").read()
            self.hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        except OSError:
            pass
        for f in (out, out + ".viol", out + ".hash", mark, err):
            if os.path.exists(f):
                os.unlink(f)
        return res

    def run(self):
        at, end, n = self.start, self.start + self.count, 0
        while at < end:
            r = self.proc(["--start", str(at), "--count", str(end - at)], "r%d" % n, self.case_timeout)
            n += 1
            for v in r["viol"]:
                self.violations.append(v)
            if r["summary"] is not None and r["rc"] == 0:
                self.summaries.append(r["summary"])
                return self
            if r["late"]:
                self.error = "out of time in mode %s at case %d" % (self.mode, r["case"])
                return self
            if r["stage"] == 0:
                self.error = "mode %s did not start: rc=%s %s" % (self.mode, r["rc"], r["stderr"][:500])
                return self
            case = r["case"]
            if r["hung"]:
                # load of the machine or a real hang?  alone, with a longer limit
                r2 = self.proc(["--only", str(case)], "h%d" % n, self.case_timeout * 2)
                if r2["hung"]:
                    self.violations.append({"mode": self.mode, "case": case, "key": "hang",
                                            "detail": "case makes no progress for %d s, twice" % (self.case_timeout * 2)})
                elif r2["rc"] != 0:
                    key, what = classify(r2["stderr"], r2["rc"])
                    self.violations.append({"mode": self.mode, "case": case, "key": key, "detail": what, "stderr": r2["stderr"][:6000]})
                else:
                    self.inconclusive.append(case)
            elif r["rc"] == -signal.SIGKILL:
                self.error = "the harness was killed from outside (memory?) in mode %s case %d" % (self.mode, case)
                return self
            else:
                key, what = classify(r["stderr"], r["rc"])
                self.violations.append({"mode": self.mode, "case": case, "key": key, "detail": what, "stderr": r["stderr"][:6000]})
            at = case + 1
            if n >= 6:
                self.truncated = True
                return self
        return self


# ------------------------------------------------------------------ known findings

def known_findings(pid):
    """Lines of known-findings.txt:
         finding: property=<id> key=<mode>/<key> <what fails>
         fixed: property=<id> <commit> <what failed>      (suppresses nothing)"""
    res = {}
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=<<(.*?)>> (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--only-src", help="development: only this harness")
    ap.add_argument("--only-mode", help="development: only this mode")
    a = ap.parse_args()
    if a.list:
        print("\n".join(CHECKS))
        return 0
    if a.setup:
        for t in (CXX,):
            if not shutil.which(t):
                log("missing", t)
                return 2
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        print("tools present; each check builds its own harnesses from", REPO)
        return 0
    pid = a.id
    if pid not in CHECKS:
        log("no check for", pid)
        return 2
    c = CHECKS[pid]
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int(hashlib.sha1(a.seed.encode()).hexdigest()[:8], 16)
    if seed < 0:
        seed = -seed
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    deadline = t0 + DEADLINE[tier]
    builddir = os.environ.get("NBDL_BUILD", os.path.join(HERE, "build"))
    os.makedirs(builddir, exist_ok=True)
    scratch = os.path.join(builddir, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    try:
        if a.replay:
            return replay(a.replay, c, builddir, deadline)
        return check(pid, c, tier, seed, builddir, scratch, evdir, t0, deadline, a)
    except NoVerdict as e:
        log("NO VERDICT:", e)
        return 2
    except subprocess.TimeoutExpired:
        log("NO VERDICT: a build ran out of time")
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path, c, builddir, deadline):
    r = json.load(open(path))
    prog = next(p for p in c["programs"] if p["src"] == r["src"] and p.get("san", "asan") == r["san"] and p.get("tag", "") == r["tag"])
    exe, _ = build(prog, builddir, deadline)
    cmd = [exe, "--mode", r["mode"], "--seed", str(r["seed"]), "--only", str(r["case"]), "--verbose"]
    if r["tier"] == "thorough":
        cmd.append("--thorough")
    print(" ".join(cmd))
    p = subprocess.run(cmd, env=ENV)
    return 0 if p.returncode == 0 else 1


def check(pid, c, tier, seed, builddir, scratch, evdir, t0, deadline, a):
    evfile = os.path.join(evdir, pid + ".json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    jobs, errors, buildtime = [], [], 0.0
    lock = threading.Lock()
    progs = [p for p in c["programs"] if (not a.only_src or p["src"] == a.only_src)
             and any(n[0 if tier == "quick" else 1] for n in p["modes"].values())]
    build_failed = []

    with cf.ThreadPoolExecutor(JOBS) as bpool, cf.ThreadPoolExecutor(JOBS) as rpool:
        futs = []

        def after_build(prog):
            exe, dt = build(prog, builddir, deadline)
            res = []
            for mode, counts in prog["modes"].items():
                if a.only_mode and mode != a.only_mode:
                    continue
                total = counts[0] if tier == "quick" else counts[1]
                shards = prog.get("shards", (1, 4))[0 if tier == "quick" else 1]
                shards = max(1, min(shards, total))
                per = -(-total // shards)
                for s in range(shards):
                    st = s * per
                    n = min(per, total - st)
                    if n <= 0:
                        continue
                    j = Job(prog, exe, mode, st, n, seed, tier, scratch,
                            prog.get("case_timeout", 30), deadline)
                    res.append(rpool.submit(j.run))
            return res, dt

        bf = {bpool.submit(after_build, p): p for p in progs}
        for f in cf.as_completed(bf):
            try:
                res, dt = f.result()
                buildtime += dt
                futs += res
            except NoVerdict as e:
                build_failed.append(str(e))
        for f in cf.as_completed(futs):
            jobs.append(f.result())

    # ---- gather
    counters, samples, evaluations, hashes, required = {}, [], 0, set(), {}
    violations, inconclusive = [], 0
    permode, slowest = {}, (0, "")
    for j in sorted(jobs, key=lambda j: (j.prog["src"], j.mode, j.start)):
        if j.error:
            errors.append(j.error)
        hashes |= j.hashes
        inconclusive += len(j.inconclusive)
        for s in j.summaries:
            slowest = max(slowest, (s.get("slowest", 0), "%s %s" % (j.prog["src"], s["mode"])))
            evaluations += s["evaluations"]
            permode[s["mode"]] = permode.get(s["mode"], 0) + s["evaluations"]
            for k, v in s["counters"].items():
                if k.startswith("max_"):
                    counters[k] = max(counters.get(k, 0), v)
                else:
                    counters[k] = counters.get(k, 0) + v
            for r in s["required"]:
                required.setdefault((j.mode, r), 0)
                required[(j.mode, r)] += s["counters"].get(r, 0)
            samples += ["%s: %s" % (s["mode"], x) for x in s["samples"][:3]]
        for v in j.violations:
            v["src"], v["san"], v["tag"] = j.prog["src"], j.prog.get("san", "asan"), j.prog.get("tag", "")
            violations.append(v)

    known = known_findings(pid)
    seen_known, fresh = {}, {}
    for v in violations:
        key = v["mode"] + "/" + v["key"]
        if key in known:
            seen_known.setdefault(key, v)
        else:
            fresh.setdefault(key, v)

    for key, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
        if key not in seen_known:
            log("note: the known finding %s did not show in this run" % key)

    n = 0
    for key, v in sorted(fresh.items()):
        path = os.path.join("evidence", "replays", "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
        rec = {"property": pid, "src": v["src"], "san": v["san"], "mode": v["mode"], "case": v["case"],
               "key": v["key"], "tag": v["tag"], "detail": v["detail"], "stderr": v.get("stderr", ""), "seed": seed, "tier": tier,
               "how": "python3 run.py %s --replay %s" % (pid, path)}
        with open(os.path.join(HERE, path), "w") as f:
            json.dump(rec, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  [%s case %d] %s: %s" % (v["mode"], v["case"], v["key"], v["detail"][:600]))
        n += 1

    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": c["rule"],
                       "samples": samples[:16] or ["(none: every workload ended in a violation)"],
                       "cases_per_workload": permode,
                       "observed": dict(sorted(counters.items())),
                       "instrumentation": sorted({p.get("san", "asan") for p in progs}),
                       "inconclusive_cases": inconclusive, "build_cpu_s": round(buildtime, 1),
                       "slowest_case": "%.2f s in %s" % slowest},
          "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": n}
    if seen_known:
        ev["coverage"]["known_findings_seen"] = sorted(seen_known)
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)

    if n:
        return 1
    if build_failed:
        raise NoVerdict(build_failed[0])
    if errors:
        raise NoVerdict("; ".join(errors))
    blank = [k for k, v in required.items() if v == 0]
    if blank and not (a.only_mode or a.only_src):
        raise NoVerdict("the monitors saw nothing for %s" % blank)
    if evaluations == 0 or not hashes:
        raise NoVerdict("nothing was observed")
    log("%s: held. %d cases, %d distinct, %.1f s; %s" % (pid, evaluations, len(hashes), wall,
        ", ".join("%s=%d" % kv for kv in sorted(counters.items()))))
    return 0


if __name__ == "__main__":
    sys.exit(main())
