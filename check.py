#!/usr/bin/env python3
"""Model checking driver.

  check.py C01                 explore property C01 at the tier of $VERIF_TIER (quick | thorough)
  check.py C01 --tier thorough
  check.py --replay FILE       re-run the counterexample of a replay file

Builds the library from /repo's working tree together with the property's
harness in a scratch directory, runs the exhaustive enumeration in 8 shards,
replays every counterexample on its own before reporting it, and writes
evidence/<property>.json.
Exit: 0 held on everything explored, 1 violation, 2 error of the check.
"""
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from units import UNITS, COMMON_ASSUMPTIONS

JOBS = max(2, min(8, os.cpu_count() or 2))
SHARDS = int(os.environ.get("VP_SHARDS", JOBS))
SCRATCH = None


def scratch_base():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK | os.X_OK) and st.f_bavail * st.f_frsize > 600 << 20:
                return d
        except OSError:
            pass
    return None


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class CheckError(Exception):
    pass


def build(unit, where):
    """compile /repo/src/*.cpp and the harness with the unit's flags; returns the binary"""
    os.makedirs(where, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if not srcs:
        raise CheckError("no sources in %s/src" % REPO)
    cxx = unit.get("cxx", "g++")
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]
    flags = unit.get("flags", ["-O2"])
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(where, "lib_" + os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append([cxx, "-std=gnu++11", "-w"] + flags + unit.get("libflags", []) + inc + ["-c", s, "-o", o])
    for h in [unit["src"]] + unit.get("extra", []):
        o = os.path.join(where, "h_" + os.path.basename(h) + ".o")
        objs.append(o)
        jobs.append([cxx, "-std=gnu++17", "-w"] + flags + unit.get("hflags", []) + inc
                    + ["-I", os.path.join(HERE, "harness"), "-c", os.path.join(HERE, "harness", h), "-o", o])
    with ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    exe = os.path.join(where, "explore")
    r = sh([cxx] + flags + objs + unit.get("ldflags", []) + ["-o", exe])
    if r.returncode:
        raise CheckError("link failed\n%s" % r.stdout[-4000:])
    for o in objs:
        os.unlink(o)
    return exe


def env_of(unit):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("MALLOC_", "ASAN_", "UBSAN_", "LD_"))}
    e.update({"LC_ALL": "C", "MALLOC_PERTURB_": "165", "MALLOC_ARENA_MAX": "1"})
    e.update(unit.get("env", {}))
    return e


class Run:
    """one process of the explorer"""

    def __init__(self, unit, exe, tier, cwd, shard=0, shards=1, case=None, upto=None, soft=None, cpu=None):
        os.makedirs(cwd)
        self.unit, self.cwd, self.shard, self.shards = unit, cwd, shard, shards
        cmd = unit.get("wrap", []) + [exe, "--tier", tier, "--progress", os.path.join(cwd, ".progress")]
        cmd += ["--cpu", str(cpu or unit.get("cpu", 100))]
        if unit.get("variant"):
            cmd += ["--variant", unit["variant"]]
        if case is not None:
            cmd += ["--case", str(case), "-v"]
        else:
            cmd += ["--shard", str(shard), "--shards", str(shards)]
            if upto is not None:
                cmd += ["--upto", str(upto)]
        if soft:
            cmd += ["--soft", "%.0f" % soft]
        self.cmd = cmd
        self.out = open(os.path.join(cwd, ".out"), "wb")
        self.err = open(os.path.join(cwd, ".err"), "wb")
        self.p = subprocess.Popen(cmd, cwd=cwd, stdout=self.out, stderr=self.err, stdin=subprocess.DEVNULL,
                                  env=env_of(unit), start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def wait(self, timeout):
        try:
            self.rc = self.p.wait(timeout)
            self.timed_out = False
        except subprocess.TimeoutExpired:
            self.kill()
            self.rc = self.p.wait()
            self.timed_out = True
        self.out.close()
        self.err.close()
        self.parse()
        return self

    def parse(self):
        self.fails, self.known, self.samples, self.stat, self.done = [], [], [], None, False
        with open(os.path.join(self.cwd, ".out"), errors="replace") as f:
            for line in f:
                a = line.rstrip("\n").split("\t")
                if a[0] == "FAIL" and len(a) >= 4:
                    self.fails.append((int(a[1]), a[2], a[3]))
                elif a[0] == "KNOWN":
                    self.known.append(a[1])
                elif a[0] == "SAMPLE":
                    self.samples.append(a[1])
                elif a[0] == "STAT":
                    self.stat = [int(x) for x in a[1:7]]
                elif a[0] == "DONE":
                    self.done = True
        if not self.done and not self.fails and not self.timed_out:
            # died: blame the case that was running
            case = -1
            try:
                with open(os.path.join(self.cwd, ".progress"), "rb") as f:
                    case = struct.unpack("q", f.read(8))[0]
            except Exception:
                pass
            if self.rc != 3 and case >= 0 and self.rc != -signal.SIGKILL:
                why = "did not finish within its CPU limit" if self.rc == 97 else \
                      "terminated by signal %d" % -self.rc if self.rc < 0 else "process ended with status %d" % self.rc
                tail = ""
                with open(os.path.join(self.cwd, ".err"), errors="replace") as f:
                    t = f.read()
                m = re.search(r"(SUMMARY: .*|runtime error: .*|.*Assertion .*failed.*)", t)
                if m:
                    tail = ": " + m.group(1).strip()
                self.fails.append((case, "(case %d)" % case, why + tail))

    def hashes(self, name):
        try:
            with open(os.path.join(self.cwd, name), "rb") as f:
                d = f.read()
            return struct.unpack("%dQ" % (len(d) // 8), d)
        except OSError:
            return ()


def load_known(prop):
    """keys of the listed findings of a property -> description"""
    r = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def confirm(unit, exe, tier, run, fail):
    """replay a counterexample; returns (how, description, message) or None"""
    case = fail[0]
    n = [0]

    def attempt(**kw):
        n[0] += 1
        r = Run(unit, exe, tier, os.path.join(SCRATCH, "replay%d_%d_%d" % (case, run.shard, n[0])), cpu=150, **kw).wait(240)
        hit = [f for f in r.fails if f[0] == case]
        k = [x for x in r.known]
        shutil.rmtree(r.cwd, ignore_errors=True)
        return hit[0] if hit else None

    h = attempt(case=case)
    if h:
        return ("alone", h[1] if not h[1].startswith("(case") else fail[1], h[2])
    for _ in range(2):
        h = attempt(shard=run.shard, shards=run.shards, upto=case)
        if h:
            return ("after the earlier cases of shard %d/%d in the same process" % (run.shard, run.shards), h[1], h[2])
    return None


def describe(unit, exe, tier, case):
    r = Run(unit, exe, tier, os.path.join(SCRATCH, "desc%d" % case), case=case, cpu=20).wait(60)
    with open(os.path.join(r.cwd, ".out"), errors="replace") as f:
        for line in f:
            if line.startswith("CASE %d " % case):
                return line.split(" ", 2)[2].strip()
    return "(case %d)" % case


def check(prop, tier):
    global SCRATCH
    t0 = time.time()
    base = scratch_base()
    if base is None:
        raise CheckError("no scratch space")
    SCRATCH = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=base)
    try:
        return check_(prop, tier, t0)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def check_(prop, tier, t0):
    spec = UNITS[prop]
    known = load_known(prop)
    budget = 620 if tier == "quick" else float(os.environ.get("VP_BUDGET", 3000))
    hard = 780 if tier == "quick" else budget + 600
    states, outcomes, samples = set(), set(), []
    tot = dict(cases=0, run=0, transitions=0, traces=0, checks=0)
    capped, seen_known, violation, per_unit = False, [], None, []
    for ui, unit in enumerate(spec["units"]):
        if tier not in unit.get("tiers", ("quick", "thorough")):
            continue
        tb = time.time()
        exe = build(unit, os.path.join(SCRATCH, "u%d" % ui))
        tbuild = time.time() - tb
        left = budget - (time.time() - t0)
        soft = max(20, left / (len(spec["units"]) - ui))
        nsh = unit.get("shards", SHARDS)
        runs = [Run(unit, exe, tier, os.path.join(SCRATCH, "u%d" % ui, "s%d" % k), k, nsh, soft=soft) for k in range(nsh)]
        end = t0 + hard
        for r in runs:
            r.wait(max(5, end - time.time()))
        fails = sorted((f, i) for i, r in enumerate(runs) for f in r.fails)
        uninfo = dict(unit=unit["name"], build_s=round(tbuild, 1), run_s=round(time.time() - tb - tbuild, 1))
        for r in runs:
            if r.stat:
                for k, v in zip(("run", "transitions", "traces", "checks"), r.stat[1:5]):
                    tot[k] += v
                    uninfo[k] = uninfo.get(k, 0) + v
                uninfo["cases"] = r.stat[0]
                capped |= bool(r.stat[5])
            states.update((ui, h) for h in r.hashes("states.bin"))
            outcomes.update((ui, h) for h in r.hashes("outcomes.bin"))
            samples += [s for s in r.samples]
            for k in r.known:
                if k not in known:
                    fails.append(((0, "finding " + k, "a defect not listed in known_findings.txt: " + k), 0))
                elif k not in seen_known:
                    seen_known.append(k)
        tot["cases"] += uninfo.get("cases", 0)
        per_unit.append(uninfo)
        for f, i in fails[:4]:
            if f[1].startswith("finding "):
                c = ("alone", f[1], f[2])
            else:
                c = confirm(unit, exe, tier, runs[i], f)
            if c:
                desc = c[1]
                if desc.startswith("(case"):
                    desc = describe(unit, exe, tier, f[0])
                violation = dict(property=prop, tier=tier, unit=ui, unit_name=unit["name"], case=f[0], shard=runs[i].shard,
                                 shards=runs[i].shards, how=c[0], description=desc, message=c[2],
                                 replay="python3 check.py --replay <this file>")
                break
        if violation:
            break
        if fails:
            raise CheckError("counterexample did not replay: %r" % (fails[0],))
        for r in runs:
            if r.timed_out:
                raise CheckError("shard %d of %s ran out of time" % (r.shard, unit["name"]))
            if not r.done:
                with open(os.path.join(r.cwd, ".err"), errors="replace") as f:
                    raise CheckError("shard %d of %s ended with status %d\n%s" % (r.shard, unit["name"], r.rc, f.read()[-2000:]))
        shutil.rmtree(os.path.join(SCRATCH, "u%d" % ui), ignore_errors=True)

    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=len(states), transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"], distinct_outcomes=len(outcomes),
                            cases_enumerated=tot["cases"], cases_run=tot["run"], comparisons=tot["checks"],
                            exhaustive=not capped and not violation, bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
                            rule=spec["rule"], samples=samples[:6], units=per_unit),
              assumptions=COMMON_ASSUMPTIONS + spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    rc = 0
    if violation:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s_%d.json" % (prop, tier, violation["case"]))
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        ev["coverage"]["counterexample"] = violation
        print("%s: %s\n  %s" % (prop, violation["description"], violation["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not violation:
        print("%s %s: held; %d cases, %d states, %d transitions, %d comparisons%s, %.1f s" % (
            prop, tier, tot["run"], len(states), tot["transitions"], tot["checks"], " (CAPPED)" if capped else "", time.time() - t0))
        if any("build_s" in u for u in per_unit) and os.environ.get("VP_VERBOSE"):
            print(json.dumps(per_unit))
    return rc


def replay(path):
    global SCRATCH
    with open(path) as f:
        v = json.load(f)
    SCRATCH = tempfile.mkdtemp(prefix="vp_replay_", dir=scratch_base())
    try:
        unit = UNITS[v["property"]]["units"][v["unit"]]
        exe = build(unit, os.path.join(SCRATCH, "u"))
        kw = dict(case=v["case"]) if v["how"] == "alone" else dict(shard=v["shard"], shards=v["shards"], upto=v["case"])
        r = Run(unit, exe, v["tier"], os.path.join(SCRATCH, "r"), cpu=200, **kw).wait(300)
        with open(os.path.join(r.cwd, ".out"), errors="replace") as f:
            print(f.read())
        with open(os.path.join(r.cwd, ".err"), errors="replace") as f:
            print(f.read()[-4000:])
        if r.fails:
            print("VIOLATION property=%s replay=%s" % (v["property"], path))
            return 1
        print("the recorded case now holds")
        return 0
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if len(a) != 1 or a[0] not in UNITS or tier not in ("quick", "thorough"):
        print(__doc__)
        return 2
    return check(a[0], tier)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e)
        rc = 2
    sys.exit(rc)
