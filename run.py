#!/usr/bin/env python3
"""Builds the harness of a property from /repo's working tree, runs its
sections, merges what the monitors observed, and gives the verdict.

  run.py C05                    the check (tier/seed from VERIF_TIER/VERIF_SEED)
  run.py C05 --tier thorough
  run.py --build-all            compile everything (setup_cmd)
  run.py --replay FILE          re-run one recorded violation with tracing

exit 0: held on what was explored   exit 1: VIOLATION line(s)
exit 2: harness could not be built  exit 3: inconclusive (timeouts, no events)
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re
import struct, subprocess, sys, tempfile, time, shutil, importlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from harness.table import TABLE, VARIANTS  # noqa: E402

NPROC = os.cpu_count() or 4
WALL = 840.0
T0 = time.time()


def left():
    return WALL - (time.time() - T0)


# ---------------------------------------------------------------- building
class BuildError(Exception):
    pass


_hash_cache = {}


def fhash(p):
    h = _hash_cache.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[p] = h
    return h


def compile_one(src, variant, extra):
    v = VARIANTS[variant]
    cmd = [v["cxx"]] + v["flags"] + extra + [
        "-I" + os.path.join(REPO, "include"), "-I" + REPO,
        "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")]
    for e in ("boost", "gtest", "gmock", "catch", "doctest", "boost_test"):
        cmd.append("-I" + os.path.join(REPO, "extras", e, "include"))
    key = hashlib.sha256(("\0".join(cmd) + "\0" + src).encode()).hexdigest()[:24]
    dep = os.path.join(BUILD, "dep", key + ".json")
    try:
        with open(dep) as f:
            rec = json.load(f)
        if os.path.exists(rec["obj"]) and all(
                fhash(p) == h for p, h in rec["files"].items()):
            return rec["obj"]
    except (OSError, ValueError, KeyError):
        pass
    objtmp = os.path.join(BUILD, "obj", key + ".%d.tmp.o" % os.getpid())
    d = objtmp + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", d, "-c", src, "-o", objtmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" %
                         (src, r.stdout.decode("utf8", "replace")[:6000]))
    with open(d) as f:
        txt = f.read().replace("\\\n", " ")
    os.unlink(d)
    files = [p for p in txt.split(":", 1)[1].split() if p]
    files = {os.path.realpath(p): None for p in files}
    for p in files:
        files[p] = fhash(p)
    ck = hashlib.sha256(json.dumps(files, sort_keys=True).encode()).hexdigest()[:16]
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (key, ck))
    os.replace(objtmp, obj)
    with open(dep + ".tmp%d" % os.getpid(), "w") as f:
        json.dump({"obj": obj, "files": files}, f)
    os.replace(dep + ".tmp%d" % os.getpid(), dep)
    return obj


def lib_sources():
    out = []
    for r, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(r, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def build(targets):
    """targets: list of (name, [sources], variant, extra flags, libs).
    Returns {name: exe}."""
    for d in ("obj", "dep", "bin"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs = {}
        lib = lib_sources()
        for name, srcs, variant, extra, libs in targets:
            for s in srcs:
                jobs[(os.path.join(VERIF, "harness", s), variant, tuple(extra))] = None
            # rapidcheck itself: Random.cpp is -O3 in the project's own build
            for s in lib:
                jobs[(s, variant, ())] = None
        order = sorted(jobs, key=lambda j: not j[0].startswith(VERIF))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {j: ex.submit(compile_one, j[0], j[1], list(j[2])) for j in order}
            for j, f in futs.items():
                jobs[j] = f.result()
        exes = {}

        def link(t):
            name, srcs, variant, extra, libs = t
            objs = [jobs[(os.path.join(VERIF, "harness", s), variant, tuple(extra))] for s in srcs]
            objs += [jobs[(s, variant, ())] for s in lib]
            v = VARIANTS[variant]
            h = hashlib.sha256("\0".join(objs + list(libs)).encode()).hexdigest()[:16]
            exe = os.path.join(BUILD, "bin", "%s-%s" % (name, h))
            if not os.path.exists(exe):
                r = subprocess.run([v["cxx"]] + v["flags"] + objs + ["-o", exe + ".tmp"] +
                                   list(libs) + ["-lpthread"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode("utf8", "replace")[:6000]))
                os.replace(exe + ".tmp", exe)
            return name, exe
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for name, exe in ex.map(link, targets):
                exes[name] = exe
        return exes
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def targets_of(pid):
    t = []
    for h in TABLE[pid]["harness"]:
        for variant in h.get("variants", ["asan"]) + (["fast"] if h.get("fast") else []):
            t.append(("%s.%s.%s" % (pid, h["name"], variant),
                      h["src"] + ([] if h.get("nomain") else ["mon.cpp"]), variant,
                      h.get("flags", []), tuple(h.get("libs", []))))
    return t


# ---------------------------------------------------------------- running
def env_for(variant):
    e = {k: v for k, v in os.environ.items() if not k.startswith("RC_")}
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=86:detect_leaks=0:halt_on_error=1:"
                         "detect_stack_use_after_return=1:check_initialization_order=0:"
                         "hard_rss_limit_mb=5000:allocator_may_return_null=0:"
                         "handle_abort=1:detect_invalid_pointer_pairs=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=86"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=86:second_deadlock_stack=1:report_signal_unsafe=0"
    e["RC_PARAMS"] = "seed=424242"
    return e


def crash_key(section, rc, err):
    """A stable key for a sanitizer report, abort or signal."""
    kind = None
    m = re.search(r"ERROR: (Address|Leak|Memory)Sanitizer:? ([\w\-]+)", err)
    if m:
        kind = "asan:" + m.group(2)
    m2 = re.search(r"runtime error: (.*)", err)
    if m2 and not kind:
        txt = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m2.group(1))
        kind = "ubsan:" + re.sub(r"\s+", " ", txt)[:80]
    if re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", err):
        kind = "tsan:" + re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", err).group(1).strip()
    if "hard rss limit exhausted" in err:
        kind = "memory-runaway"
    if not kind:
        m = re.search(r"Assertion [`'](.*)' failed", err)
        if m:
            kind = "assert:" + m.group(1)[:80]
        elif "terminate called" in err:
            kind = "terminate"
        else:
            kind = "exit:%s" % rc
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (\S+):(\d+)", err):
        if "/repo/" in m.group(2) or m.group(2).startswith(REPO):
            fn = re.sub(r"[<(].*", "", m.group(1)).split("::")[-1] or m.group(1)[:60]
            break
    return "%s@%s in %s" % (kind, section, fn or "?")


HUNG = [0]
NVIOL = [0]


def run_chunk(exe, variant, section, a, b, seed, thorough, tmp, cpu=60):
    """Runs cases [a,b) of a section, restarting after a crash."""
    res = {"cases": 0, "counters": {}, "dist": set(), "samples": [], "viol": [], "inconclusive": []}
    pos, tries, crashes = a, 0, 0
    while pos < b:
        # Confirmed hangs cost minutes each; many violations settle the verdict too.
        if HUNG[0] >= 2 or NVIOL[0] >= 12:
            return res
        tag = "%s-%s-%d-%d" % (os.path.basename(exe), section, pos, tries)
        out, dist, prog = [os.path.join(tmp, tag + x) for x in (".json", ".dist", ".prog")]
        for p in (out, dist, prog):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [exe, "--seed", str(seed), "--section", section, "--from", str(pos), "--to", str(b),
               "--out", out, "--dist", dist, "--progress", prog, "--cpu", str(cpu)]
        if thorough:
            cmd.append("--thorough")
        wall = max(5.0, left())
        errp = os.path.join(tmp, tag + ".err")
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, env=env_for(variant), stdout=subprocess.DEVNULL,
                                 stderr=ef, cwd=tmp, start_new_session=True)
            rc, start, quiet, ticks = None, time.time(), time.time(), -1
            while rc is None:
                try:
                    rc = p.wait(timeout=min(5.0, wall))
                    break
                except subprocess.TimeoutExpired:
                    pass
                now, was = time.time(), ticks
                try:
                    with open("/proc/%d/stat" % p.pid) as f:
                        fld = f.read().rsplit(")", 1)[1].split()
                    ticks = sum(int(x) for x in fld[11:15])  # with waited-for children
                except (OSError, IndexError, ValueError):
                    pass
                if ticks != was:
                    quiet = now
                late = NVIOL[0] > 0 and now - start > 60
                stuck = now - quiet > 240
                if not (late or stuck or left() <= 0):
                    continue
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                if late:  # the verdict is clear (and a corrupted process may spin)
                    return res
                if stuck:
                    case = pos
                    try:
                        with open(prog, "rb") as f:
                            case = struct.unpack_from("<Q", f.read(), 64)[0]
                    except (OSError, struct.error):
                        pass
                    NVIOL[0] += 1
                    res["viol"].append({"key": "deadlock@" + section, "section": section, "case": case, "variant": variant,
                                        "msg": "no CPU used for 240 s: the case never ends"})
                    return res
                res["inconclusive"].append("%s[%d..%d) ran out of the wall-clock budget" % (section, pos, b))
                return res
        with open(errp, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            head = f.read(200000).decode("utf8", "replace")
            err = head
            if n > 200000:
                f.seek(max(200000, n - 100000))
                err += f.read().decode("utf8", "replace")
        os.unlink(errp)
        if rc in (0, 1) and os.path.exists(out):
            with open(out) as f:
                j = json.load(f)
            res["cases"] += j["cases"]
            for k, v in j["counters"].items():
                res["counters"][k] = res["counters"].get(k, 0) + v
            res["samples"] += j["samples"]
            with open(dist, "rb") as f:
                d = f.read()
            res["dist"].update(struct.unpack("%dQ" % (len(d) // 8), d))
            for v in j["violations"]:
                v["variant"] = variant
                res["viol"].append(v)
                NVIOL[0] += 1
            for p in (out, dist, prog):
                os.unlink(p)
            return res
        # abnormal end: find the case that was running
        case = pos
        try:
            with open(prog, "rb") as f:
                raw = f.read()
            case = struct.unpack_from("<Q", raw, 64)[0]
        except (OSError, struct.error):
            pass
        if rc in (-9, -15):  # killed from outside (memory guard): try once more
            tries += 1
            if tries > 1:
                res["inconclusive"].append("%s case %d: killed (signal %d) twice" % (section, case, -rc))
                return res
            continue
        if rc == 77:  # hang: confirm alone with a larger budget
            if cpu < 61:
                r2 = run_chunk(exe, variant, section, case, case + 1, seed, thorough, tmp, cpu=100)
                if not r2["viol"] and not r2["inconclusive"]:
                    pass  # merely slow
                res["viol"] += r2["viol"]
                res["inconclusive"] += r2["inconclusive"]
            else:
                HUNG[0] += 1
                res["viol"].append({"key": "hang@" + section, "section": section, "case": case, "variant": variant,
                                    "msg": "case used more than %d s of CPU twice (normal: well under 1 s)" % cpu})
                return res
        else:
            res["viol"].append({"key": crash_key(section, rc, err), "section": section, "case": case,
                                "variant": variant, "msg": "exit %s\n%s" % (rc, trim(err))})
            NVIOL[0] += 1
        crashes += 1
        if crashes >= 3:
            return res
        pos, tries = case + 1, 0
    return res


def trim(err):
    i = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error:"),
            err.find("WARNING: ThreadSanitizer"))
    i = max(0, i - 200) if i >= 0 else max(0, len(err) - 3000)
    return err[i:i + 3500]


# ---------------------------------------------------------------- verdict
def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", line.rstrip("\n"))
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def check(pid, tier, seed):
    spec = TABLE[pid]
    HUNG[0] = NVIOL[0] = 0
    t0 = time.time()
    thorough = tier == "thorough"
    targets = targets_of(pid)
    exes = build(targets)
    tb = time.time()
    tmp = tempfile.mkdtemp(prefix="rcverif-%s-" % pid)
    viol, inconc, counters, dist, samples, cases = [], [], {}, set(), [], 0
    persec = {}
    try:
        work = []
        for name, srcs, variant, extra, libs in targets:
            exe = exes[name]
            if spec.get("driver"):
                continue
            lst = subprocess.run([exe, "--list"], env=env_for(variant), stdout=subprocess.PIPE,
                                 timeout=120, check=True).stdout.decode().split("\n")
            for line in lst:
                if not line.strip():
                    continue
                sec, q, t = line.split()
                n = int(t if thorough else q)
                k = max(1, min(n, 8 if n < 4000 else 16))
                bounds = [n * i // k for i in range(k + 1)]
                if variant == "fast":  # further cases, not the same ones again
                    m = {h["name"]: h for h in spec["harness"]}[name.split(".")[1]]["fast"]
                    bounds = [n + n * m * i // k for i in range(k + 1)]
                for i in range(k):
                    if bounds[i] < bounds[i + 1]:
                        work.append((exe, variant, sec, bounds[i], bounds[i + 1]))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = [(w, ex.submit(run_chunk, *w, seed, thorough, tmp)) for w in work]
            results = [(w, f.result()) for w, f in futs]
        if spec.get("driver"):
            mod = importlib.import_module("harness." + spec["driver"])
            results = mod.run(exes=exes, tmp=tmp, tier=tier, seed=seed, repo=REPO,
                              env_for=env_for, left=left, crash_key=crash_key, nproc=NPROC)
        for w, r in results:
            viol += r["viol"]
            inconc += r["inconclusive"]
            cases += r["cases"]
            dist |= r["dist"]
            s = persec.setdefault("%s/%s" % (w[2], w[1]), 0)
            persec["%s/%s" % (w[2], w[1])] = s + r["cases"]
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for x in r["samples"][:1]:
                if len(samples) < 12:
                    samples.append("%s: %s" % (w[2], x))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = known_findings()
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    reported, seen_known = {}, {}
    for v in viol:
        k = (pid, v["key"])
        if k in known:
            seen_known[v["key"]] = known[k]
            continue
        reported.setdefault(v["key"], v)
    for (p, key), what in sorted(known.items()):
        if p == pid:
            print("KNOWN-FINDING: property=%s %s%s" % (
                pid, what, "" if key in seen_known else " (not reached in this run)"))
    n = 0
    for key, v in sorted(reported.items()):
        n += 1
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "key": key, **v}, f, indent=1)
        if n <= 10:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  key: %s\n  section %s case %s (%s)\n  %s" % (
                key, v["section"], v["case"], v.get("variant", ""), v["msg"].replace("\n", "\n  ")[:1500]))

    for c, m in spec.get("min", {}).items():
        if not reported and counters.get(c, 0) < m:
            inconc.append("monitor counter %r is %d, below the %d needed for a verdict" % (c, counters.get(c, 0), m))
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(dist), "rule": spec["rule"],
            "samples": samples, "observed_events": counters, "cases_per_section": persec,
            "build_s": round(tb - t0, 1),
            "inconclusive": inconc,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct, %d oracle evaluations, %d violation(s), build %.1fs, total %.1fs" % (
        pid, tier, seed, cases, len(dist), counters.get("oracle_evaluations", 0), len(reported), tb - t0, time.time() - t0))
    if reported:
        return 1
    if inconc:
        for x in inconc:
            print("INCONCLUSIVE: " + x)
        return 3
    return 0


def replay(path):
    j = json.load(open(path))
    pid = j["property"]
    exes = build(targets_of(pid))
    rc = 0
    for name, exe in exes.items():
        if not name.endswith("." + j.get("variant", "")):
            continue
        lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, env=env_for(j["variant"])).stdout.decode()
        if (j["section"] + " ") not in lst:
            continue
        cmd = [exe, "--seed", str(j["seed"]), "--section", j["section"], "--from", str(j["case"]),
               "--to", str(int(j["case"]) + 1), "--trace"]
        if j["tier"] == "thorough":
            cmd.append("--thorough")
        print(" ".join(cmd))
        rc |= subprocess.run(cmd, env=env_for(j["variant"])).returncode
    return 1 if rc else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    global WALL
    if a.tier == "thorough":
        WALL = 6 * 3600.0
    try:
        if a.build_all:
            build([t for p in sorted(TABLE) for t in targets_of(p)])
            print("built")
            return 0
        if a.replay:
            return replay(a.replay)
        rc = 0
        for p in a.props or sorted(TABLE):
            rc = max(rc, check(p, a.tier, a.seed))
        return rc
    except BuildError as e:
        print("BUILD ERROR (no verdict): %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
