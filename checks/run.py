#!/usr/bin/env python3
"""Build and run the runtime monitors of one property.

  run.py <property>                 the check (VERIF_SEED, VERIF_TIER)
  run.py <property> --replay FILE   run the one case a violation came from
Exit: 0 held, 1 violated (VIOLATION line; also when the library no longer accepts an
operation of the property at compile or link time), 2 no verdict (toolchain
failure, crash outside the code under test, or nothing observed).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CML_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
from specs import SPECS  # noqa: E402

SAN = {
    # one sanitizer family per build
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fsanitize=float-cast-overflow", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-omit-frame-pointer"],
    "none": [],
}
BASE = ["-std=c++17", "-w", "-g1", "-pthread"]
ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "malloc_fill_byte=203:max_malloc_fill_size=1048576:max_free_fill_size=1048576:"
                    "alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:report_signal_unsafe=0",
    "MSAN_OPTIONS": "exitcode=96",
    "LC_ALL": "C",
}


def sh(cmd, timeout, **kw):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1"), time.time() - t
    except subprocess.TimeoutExpired as e:
        return None, "", (e.stderr or b"").decode("latin1"), time.time() - t


def classify(err, rc):
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+(?: memory leaks)?)", err)
    if m:
        return "%s:%s" % (m.group(1), m.group(2).replace(" ", "-"))
    m = re.search(r"WARNING: (\w+Sanitizer): ([\w -]+)", err)
    if m:
        return "%s:%s" % (m.group(1), m.group(2).strip().replace(" ", "-"))
    m = re.search(r"runtime error: (.*)", err)
    if m:
        t = re.sub(r"0x[0-9a-f]+", "ADDR", m.group(1))
        t = re.sub(r"-?\d[\d.e+-]*", "N", t)
        return "UBSan:" + re.sub(r"[^\w]+", "-", t)[:60]
    if rc is not None and rc < 0:
        return "signal:%d" % -rc
    return "exit:%s" % rc


class Unit:
    def __init__(self, spec, d, work):
        self.name = d["name"]
        self.src = os.path.join(VERIF, d["src"])
        self.defs = d.get("defs", [])
        self.san = d.get("san", "asan")
        self.cxx = d.get("cxx", "g++")
        self.opt = d.get("opt", "-O1")
        self.gen = d.get("gen")
        self.scale = d.get("scale", 1)
        self.timeout = d.get("timeout", 300)
        self.runner = d.get("runner", [])
        self.exe = os.path.join(work, self.name)
        self.work = work
        self.flags = d.get("flags", [])
        self.args = d.get("args", [])
        self.same = d.get("same")      # builds whose records must be identical
        self.like = d.get("like")      # builds whose records must agree up to rounding
        self.base = d.get("base", False)
        self.dump = self.exe + ".dump" if self.like else None

    def build(self, seed, tier):
        src = self.src
        if self.gen:
            src = os.path.join(self.work, self.name + ".cpp")
            rc, out, err, _ = sh([sys.executable, self.src, "--seed", str(seed), "--tier", tier, "--out", src] + self.gen, 120)
            if rc != 0:
                return "generator failed:\n" + err[-2000:]
        cmd = [self.cxx] + BASE + [self.opt] + SAN[self.san]
        if self.san != "none" or True:
            cmd += ["-ftrivial-auto-var-init=pattern"] if self.san != "msan" else []
        cmd += ["-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
        cmd += self.flags + ["-D" + x for x in self.defs] + [src, "-o", self.exe]
        rc, out, err, t = sh(cmd, 700)
        self.build_s = t
        if rc != 0:
            lines = [l for l in err.splitlines() if "error" in l or "required from" in l or "undefined reference" in l][:8]
            self.broken = rc is not None and self.api_broken(err)
            return "compile failed (rc=%s): %s" % (rc, "\n".join(lines) or err[-1500:])
        return None

    def api_broken(self, err):
        """Is it the library that rejects a documented operation, not the toolchain that failed?"""
        if re.search(r"internal compiler error|Killed|out of memory|virtual memory|No space left|fatal error", err):
            return False
        if not re.search(r"^[^\n]*:\d+: error: |: error: |undefined reference to ", err, re.M):
            return False
        probe = os.path.join(self.work, self.name + "_probe.cpp")
        open(probe, "w").write("#include <vector>\nint main() { std::vector<double> v(3); return int(v[0]); }\n")
        return sh([self.cxx] + BASE + [self.opt] + SAN[self.san] + [probe, "-o", self.exe + "_probe"], 120)[0] == 0

    def run(self, seed, tier, only=None, case=None, timeout=None, leaks=True):
        ctx = self.exe + ".ctx"
        cmd = self.runner + [self.exe, "--seed", str(seed), "--tier", tier, "--scale", str(self.scale), "--ctx", ctx]
        cmd += self.args
        if only:
            cmd += ["--only", only]
        if case is not None:
            cmd += ["--case", str(case)]
        if self.dump:
            cmd += ["--dump", self.dump]
        env = dict(os.environ, **ENV)
        if not leaks:
            env["ASAN_OPTIONS"] += ":detect_leaks=0"
        rc, out, err, t = sh(cmd, timeout or self.timeout, env=env, cwd=self.work)
        where = ""
        try:
            where = open(ctx).read().split("\n")[0].split()
        except Exception:
            pass
        return rc, out, err, t, where


EPS = {"f": 2.0 ** -23, "d": 2.0 ** -52, "l": 2.0 ** -52, "i": 0.0}


def number(t):
    if "nan" in t:
        return "nan"
    if "inf" in t:
        return t
    return float.fromhex(t)


def compare(a, b, exact, st):
    """Records of build b against those of build a: list of violations (one per key)."""
    out = {}
    with open(a.dump) as fa, open(b.dump) as fb:
        n = 0
        while True:
            x, y = fa.readline(), fb.readline()
            if not x and not y:
                break
            n += 1
            st["records"] = st.get("records", 0) + 1
            if x == y:
                continue
            p, q = x.split(), y.split()
            if p[:4] != q[:4] or len(p) != len(q):
                w = p if len(p) > 3 else q
                k = "%s/records-differ/%s" % ((w[0] if w else "?"), w[2] if len(w) > 2 else "end")
                out.setdefault(k, dict(key=k, group=w[0] if w else "?", case=int(w[1]) if len(w) > 1 else 0, count=1, unit=b.name,
                                       detail="%s: %s | %s: %s" % (a.name, x.strip()[:300], b.name, y.strip()[:300])))
                break     # the two programs no longer do the same thing
            u, v = [number(t) for t in p[4:]], [number(t) for t in q[4:]]
            if u == v:
                continue
            nums = [abs(t) for t in u + v if isinstance(t, float)] + [1.0]
            tol = 0.0 if exact else 4096 * EPS[p[3]] * max(nums)
            if all(s == t or (isinstance(s, float) and isinstance(t, float) and abs(s - t) <= tol) for s, t in zip(u, v)):
                continue
            k = "%s/%s/%s" % (p[0], "checks-change-result" if exact else "build-changes-result", p[2])
            if k in out:
                out[k]["count"] += 1
            else:
                out[k] = dict(key=k, group=p[0], case=int(p[1]), count=1, unit=b.name,
                              detail="%s: %s | %s: %s" % (a.name, [float(t) if isinstance(t, float) else t for t in u][:12], b.name, v[:12]))
    return list(out.values()), n


def load_known(pid):
    known = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def main():
    pid = sys.argv[1]
    replay = json.load(open(sys.argv[3])) if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if replay:
        seed, tier = replay["seed"], replay["tier"]
    spec = SPECS[pid]
    t0 = time.time()
    work = os.path.join(VERIF, ".build", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    code = 2
    try:
        code = check(pid, spec, seed, tier, work, t0, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(pid, spec, seed, tier, work, t0, replay):
    defs = list(spec["units"])
    if tier == "thorough":
        defs += spec.get("thorough_units", [])
    units = [Unit(spec, d, work) for d in defs]
    if tier == "thorough":
        for u, d in zip(units, defs):
            u.scale = d.get("thorough_scale", u.scale * spec.get("thorough_mult", 8))
            u.timeout = 1500
    if replay:
        chosen = [u for u in units if u.name == replay["unit"]]
        units = [u for u in units if u in chosen or any(u.like and u.like == c.like and (u.base or u.same == c.same) for c in chosen)]
    problems, viol = [], []          # no-verdict reasons; violations
    tot = dict(cases=0, verdicts=0, distinct=0, trivial=0)
    bins, groups, samples, unit_info = {}, {}, [], []
    notes = set()

    def one(u):
        r = dict(unit=u, problems=[], viol=[], data=None)
        e = u.build(seed, tier)
        if e:
            if getattr(u, "broken", False):
                r["viol"].append(dict(key="build/documented-operation-rejected", group="build", case=0, count=1, detail=e))
            else:
                r["problems"].append("%s: %s" % (u.name, e))
            return r
        only, case = (replay["group"], replay["case"]) if replay else (None, None)
        rc, out, err, t, where = u.run(seed, tier, only, case)
        if rc not in (0, None) and "LeakSanitizer has encountered a fatal error" in err:
            notes.add("leak detection unavailable in this environment; ran without it")
            rc, out, err, t, where = u.run(seed, tier, only, case, leaks=False)
        r["run_s"] = t
        if rc is None:
            g, c = (where + ["?", "0"])[:2] if where else ("?", "0")
            rc2 = 0
            if g != "?":
                rc2, *_ = u.run(seed, tier, g, int(c), timeout=100)
            if rc2 is None:
                r["viol"].append(dict(key="hang/%s" % g, group=g, case=int(c), detail="case does not terminate", count=1))
            else:
                r["problems"].append("%s: ran out of %d s at %s" % (u.name, u.timeout, where))
            return r
        try:
            r["data"] = json.loads(out)
        except Exception:
            r["data"] = None
        if rc != 0:
            g, c = (where + ["?", "0"])[:2] if where else ("?", "0")
            k = classify(err, rc)
            if k.startswith("exit:") and "terminate" not in err:
                r["problems"].append("%s: exit status %s: %s" % (u.name, rc, err[-800:]))
            else:
                frames = re.findall(r"#\d+ \S+ in (\S+)[^\n]*?(/cml/[\w/.]+):(\d+)", err)
                loc = frames[0][1] if frames else ""
                if r["data"] is not None:   # reported at exit (leaks): not tied to a case
                    g = "exit"
                r["viol"].append(dict(key="%s/%s" % (g, k), group=g, case=int(c), count=1,
                                      detail=("%s %s " % (loc, "")) + err[:1500]))
        elif r["data"] is None:
            r["problems"].append("%s: unreadable report" % u.name)
        if r["data"]:
            r["viol"] += r["data"]["violations"]
            if not replay and (r["data"]["verdicts"] == 0 or any(v[1] == 0 for v in r["data"]["groups"].values())):
                z = [k for k, v in r["data"]["groups"].items() if v[1] == 0]
                r["problems"].append("%s: groups without a verdict: %s" % (u.name, z))
        return r

    workers = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
    with cf.ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(one, units))
    for r in results:
        u = r["unit"]
        problems += r["problems"]
        for v in r["viol"]:
            v["unit"] = u.name
            viol.append(v)
        d = r["data"]
        unit_info.append(dict(unit=u.name, compiler=u.cxx, sanitizer=u.san, opt=u.opt, defs=u.defs,
                              build_s=round(getattr(u, "build_s", 0), 1), run_s=round(r.get("run_s", 0), 1),
                              cases=d["cases"] if d else 0))
        if d:
            for k in tot:
                tot[k] += d[k]
            for k, n in d["bins"].items():
                bins[k] = bins.get(k, 0) + n
            for k, (c, n) in d["groups"].items():
                groups["%s:%s" % (u.name, k)] = dict(cases=c, verdicts=n)
            samples += d["samples"][:6]
    # records of differently configured builds of one program
    ran = [r["unit"] for r in results if r["data"] is not None and r["unit"].dump and os.path.exists(r["unit"].dump)]
    for like in sorted(set(u.like for u in ran)):
        us = [u for u in ran if u.like == like]
        pairs = []
        for same in sorted(set(u.same for u in us)):
            g = [u for u in us if u.same == same]
            pairs += [(g[0], u, True) for u in g[1:]]
        base = next((u for u in us if u.base), us[0])
        firsts = [next(u for u in us if u.same == same) for same in sorted(set(u.same for u in us))]
        pairs += [(base, u, False) for u in firsts if u is not base]
        for a, b, exact in pairs:
            st = {}
            try:
                v, n = compare(a, b, exact, st)
            except Exception as e:
                problems.append("cannot compare records of %s and %s: %s" % (a.name, b.name, e))
                continue
            tot["verdicts"] += n
            k = "compared/identical" if exact else "compared/rounding"
            bins[k] = bins.get(k, 0) + n
            bins["compared/%s-with-%s" % (a.name, b.name)] = n
            viol += v
    # required coverage: every bin the spec names must have been seen
    if not replay and not viol:
        for b in spec.get("require_bins", []):
            if not bins.get(b):
                problems.append("required event never observed: %s" % b)

    known = load_known(pid)
    new, seen = {}, {}
    for v in viol:
        k = "%s:%s" % (v["unit"], v["key"])
        (seen if k in known else new).setdefault(k, v)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    rdir = os.path.join(VERIF, "evidence", "replays")
    if not replay:
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"):
                os.remove(os.path.join(rdir, f))
        write_evidence(pid, spec, seed, tier, t0, tot, bins, groups, samples, unit_info, notes, new, seen, problems)
    for n, (k, v) in enumerate(sorted(new.items())):
        path = sys.argv[3] if replay else os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(k.encode()).hexdigest()[:10]))
        if not replay:
            json.dump(dict(property=pid, unit=v["unit"], group=v["group"], case=v["case"], seed=seed, tier=tier,
                           key=k, detail=v["detail"]), open(path, "w"), indent=1)
        if n < 20:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s case %s (x%s): %s" % (k, v["case"], v["count"], v["detail"][:400].replace("\n", "\n  ")))
        elif n == 20:
            print("  ... and %d more" % (len(new) - 20))
    for p in problems:
        print("NO-VERDICT %s" % p)
    print("%s: %d units, %d cases (%d distinct), %d verdicts, %d violations, %.1f s" % (
        pid, len(units), tot["cases"], tot["distinct"], tot["verdicts"], len(new), time.time() - t0))
    if new:
        return 1
    return 2 if problems else 0


def write_evidence(pid, spec, seed, tier, t0, tot, bins, groups, samples, unit_info, notes, new, seen, problems):
    ev = dict(
        property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
        coverage=dict(
            evaluations=tot["cases"], distinct_nontrivial=tot["distinct"], rule=spec["rule"],
            samples=samples[:24] or ["(none)"], oracle_verdicts=tot["verdicts"], trivial_cases=tot["trivial"],
            observed_events=bins, groups=groups, builds=unit_info, exhaustive=False),
        assumptions=spec.get("assumptions", []) + sorted(notes) + [
            "held means: held on the executions counted here; inputs outside the generators are not covered"],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    if seen:
        ev["coverage"]["known_findings_seen"] = sorted(seen)
    if problems:
        ev["coverage"]["no_verdict"] = problems
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


if __name__ == "__main__":
    main()
