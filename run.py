#!/usr/bin/env python3
"""Runs the monitored workloads of one property and reports the verdict.

  run.py <property> [--tier quick|thorough] [--seed N]
  run.py --replay <file>          re-executes one recorded violation
  run.py --build                  builds every harness (setup)
Exit: 0 held on everything explored, 1 VIOLATION, 2 the check itself failed.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, VERIF)
from props import SHIM, HARNESSES, PROPS, VARIANTS  # noqa: E402

JOBS = max(2, os.cpu_count() or 8)
TIMEOUT = 280


class Broken(Exception):
    pass


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def deps_of(dfile):
    t = open(dfile).read().replace("\\\n", " ")
    return [x for x in t.split(":", 1)[1].split() if not x.startswith(("/usr/", "/opt/"))]


def compile_one(src, flags, tag):
    """Object file of one source; rebuilt when it or anything it includes changed."""
    os.makedirs(BUILD, exist_ok=True)
    key = hashlib.sha256((" ".join(flags) + src + tag).encode()).hexdigest()[:20]
    obj = os.path.join(BUILD, os.path.basename(src) + "." + key + ".o")
    dep, stamp = obj + ".d", obj + ".sum"
    if os.path.exists(obj) and os.path.exists(dep) and os.path.exists(stamp):
        try:
            h = "".join(sha(d) for d in deps_of(dep))
            if hashlib.sha256(h.encode()).hexdigest() == open(stamp).read():
                return obj
        except OSError:
            pass
    cmd = flags + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    t0 = time.time()
    r = sh(cmd, timeout=800)
    if r.returncode:
        raise Broken("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    h = "".join(sha(d) for d in deps_of(dep))
    open(stamp, "w").write(hashlib.sha256(h.encode()).hexdigest())
    if os.environ.get("VERIF_VERBOSE"):
        print("# %5.1fs %s" % (time.time() - t0, os.path.basename(src)), file=sys.stderr)
    return obj


def sources(name):
    h = HARNESSES[name]
    out = [os.path.join(VERIF, "harness", h["main"])]
    out += [os.path.join(VERIF, s) for s in h.get("extra", [])]
    for pat in h.get("repo", []):
        got = sorted(glob.glob(os.path.join(REPO, pat)))
        if not got and not any(c in pat for c in "*?["):
            raise Broken("missing source %s" % pat)
        out += got
    return out


def compile_flags(name, variant):
    v, h = VARIANTS[variant], HARNESSES[name]
    inc = ["-I" + os.path.join(VERIF, i) for i in h.get("shim", [])]
    inc += ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/harness" % VERIF]
    return (v["cc"] + h.get("flags", []) + inc +
            ['-DVERIF_REPO="%s"' % REPO, '-DVERIF_DIR="%s"' % VERIF])


def lib_sources(name):
    """Library sources of which only the objects the harness needs are linked."""
    return sorted({f for pat in HARNESSES[name].get("lib", []) for f in glob.glob(os.path.join(REPO, pat))})


def build(pairs):
    """pairs: set of (harness, variant) -> {pair: binary}"""
    pairs = set(pairs) | {(n, v) for h, v in pairs for n in HARNESSES[h].get("needs", [])}
    bins, futs, libs, memo = {}, {}, {}, {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        def submit(s, fl, tag):
            k = (s, tuple(fl), tag)
            if k not in memo:
                memo[k] = ex.submit(compile_one, s, fl, tag)
            return memo[k]
        for p in sorted(pairs):
            fl = compile_flags(*p)
            futs[p] = [submit(s, fl, p[1]) for s in sources(p[0])]
            libs[p] = [submit(s, fl, p[1]) for s in lib_sources(p[0])]
        objs = {p: [f.result() for f in fs] for p, fs in futs.items()}
        arch, bad = {}, {}
        for p, fs in libs.items():
            arch[p], bad[p] = [], ""
            for f in fs:
                try:
                    arch[p].append(f.result())
                except Broken as e:  # matters only if the harness needs it: the link tells
                    bad[p] += str(e)[:1500] + "\n"

        def link(p):
            b = os.path.join(BUILD, "%s-%s" % p)
            key = hashlib.sha256("".join(o + sha(o) for o in objs[p] + arch[p]).encode()).hexdigest()
            if os.path.exists(b) and os.path.exists(b + ".sum") and open(b + ".sum").read() == key:
                return b
            extra = []
            if arch[p]:
                a = b + ".a"
                if os.path.exists(a):
                    os.unlink(a)
                r = sh(["ar", "rcs", a] + arch[p])
                if r.returncode:
                    raise Broken("ar failed: %s" % r.stdout[-2000:])
                extra = [a]
            ld = lambda ar: sh(VARIANTS[p[1]]["cc"] + objs[p] + ar + HARNESSES[p[0]].get("libs", []) + ["-lpthread", "-o", b])
            r = ld(extra)
            if r.returncode and not libs[p] and not bad[p]:  # something has moved to another source of the library
                a = b + ".a"
                if os.path.exists(a):
                    os.unlink(a)
                fl = VARIANTS[p[1]]["cc"] + ["-I%s/%s" % x for x in ((VERIF, "shim"), (REPO, "include"), (REPO, "src"), (VERIF, "harness"))]

                def tried(s):
                    try:
                        return compile_one(s, fl, p[1])
                    except Broken:
                        return None
                with cf.ThreadPoolExecutor(JOBS) as ex2:
                    more = [o for o in ex2.map(tried, sorted(f for g in SHIM["lib"] for f in glob.glob(os.path.join(REPO, g)))) if o]
                if sh(["ar", "rcs", a] + more).returncode == 0:
                    r = ld([a])
                if not r.returncode:
                    return b  # linked again by the next build
            if r.returncode:
                raise Broken("link failed: %s\n%s\n%s" % (p, r.stdout[-6000:], bad[p]))
            open(b + ".sum", "w").write(key)
            return b
        lf = {p: ex.submit(link, p) for p in pairs}
        for p in pairs:
            bins[p] = lf[p].result()
    return bins


def classify(text, rc):
    """A stable name for an abnormal end."""
    for pat, name in (
            (r"ERROR: AddressSanitizer: ([\w-]+)", "asan-"),
            (r"WARNING: ThreadSanitizer: ([\w ]+?)(?: \(|$)", "tsan-"),
            (r"runtime error: ([a-zA-Z -]+)", "ubsan-"),
            (r"Assertion `", "assert"),
            (r"ERROR SUMMARY: [1-9]", "valgrind"),
            (r"terminate called", "exception")):
        m = re.search(pat, text, re.M)
        if m:
            return name + (m.group(1).strip().replace(" ", "-")[:40] if m.groups() else "")
    return "signal-%d" % -rc if rc < 0 else "exit-%d" % rc


def run_one(binary, variant, harness, scen, seed, tier, scale, scratch):
    v = VARIANTS[variant]
    env = dict(os.environ)
    env.update(v.get("env", {}))
    env["LC_ALL"] = "C"
    os.makedirs(scratch, exist_ok=True)
    out = os.path.join(scratch, "result.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = v.get("wrap", []) + [binary, "--scenario", scen, "--seed", str(seed), "--tier", tier,
                               "--scale", repr(scale), "--out", out, "--scratch", scratch]
    log = os.path.join(scratch, "log.txt")
    to = TIMEOUT if tier == "quick" else 3000
    t0 = time.time()
    for attempt in (0, 1):
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=scratch,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=to)
                hung = False
            except subprocess.TimeoutExpired:
                hung, rc = True, None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        with open(log, "rb") as lf:
            text = lf.read(400000).decode("utf-8", "replace")
        if not hung:
            break
    res = {"harness": harness, "variant": variant, "scenario": scen, "seed": seed, "tier": tier,
           "scale": scale, "cmd": cmd, "wall": time.time() - t0, "violations": [], "evals": 0,
           "distinct": 0, "checks": 0, "samples": [], "counters": {}}
    m = re.search(r"MON-CTX: (.*)", text)
    ctx = m.group(1) if m else "?"
    if hung:
        res["violations"] = [{"key": "hang", "n": 1, "detail": "no end after %d s, twice" % to}]
        return res
    if rc == 0:
        try:
            res.update(json.load(open(out)))
        except (OSError, ValueError) as e:
            raise Broken("%s/%s ended without a result (%s)\n%s" % (harness, scen, e, text[-2000:]))
        return res
    if rc in (96, 97) or rc == -signal.SIGKILL:
        raise Broken("%s/%s: harness ended with %s\n%s" % (harness, scen, rc, text[-2000:]))
    kind = classify(text, rc)
    m = re.search(r"(?:^.*(?:ERROR: |WARNING: Thread|runtime error:|Assertion `|what\(\)).*$)(?:\n.*){0,14}", text, re.M)
    res["violations"] = [{"key": "crash:" + kind, "n": 1,
                          "detail": "%s [case: %s]" % ((m.group(0) if m else text[-1200:])[:1500], ctx)}]
    return res


def known():
    """(property, harness/scenario, key) -> text, from the committed file."""
    k = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) at=(\S+) key=(\S+) (.*)", line)
            if m:
                k[(m.group(1), m.group(2), m.group(3))] = m.group(4).strip()
    return k


def check(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    runs = []
    for it in P["runs"]:
        harness, variant, scens = it[:3]
        o = it[3] if len(it) > 3 else {}
        if o.get("tier", tier) != tier:
            continue
        for sc in scens:
            n = o.get("seeds", 4) if tier != "quick" else o.get("quick_seeds", P.get("quick_seeds", 3))
            for sd in range(seed, seed + n):
                runs.append((harness, variant, sc, sd, o.get("scale", 1.0)))
            if variant == "debug":  # and once, with other cases, the way it is shipped
                for sd in range(seed + 1000, seed + 1000 + (n + 2) // 3):
                    runs.append((harness, "release", sc, sd, o.get("scale", 1.0)))
    bins = build({(r[0], r[1]) for r in runs})
    root = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=OUT)
    results = []
    try:
        def go(ir):
            i, r = ir
            return run_one(bins[(r[0], r[1])], r[1], r[0], r[2], r[3], tier, r[4], os.path.join(root, str(i)))
        # multi-threaded workloads one at a time, the rest in parallel
        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(go, enumerate(runs)))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    kn = known()
    viol, seen, detail = [], set(), []
    ev = di = ck = 0
    samples, per = [], []
    for r in results:
        ev += r["evals"]
        di += r["distinct"]
        ck += r["checks"]
        samples += ["%s: %s" % (r["scenario"], s) for s in r["samples"][:2]]
        per.append({"workload": r["harness"] + "/" + r["scenario"], "build": r["variant"], "seed": r["seed"],
                    "cases": r["evals"], "distinct_nontrivial": r["distinct"], "oracle_verdicts": r["checks"],
                    "events": r["counters"], "wall_s": round(r["wall"], 2)})
        for v in r["violations"]:
            at = r["harness"] + "/" + r["scenario"]
            kk = (pid, at, v["key"])
            if kk in kn:
                seen.add(kk)
                continue
            viol.append((r, v))
    for kk in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[kk]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    done = set()
    for i, (r, v) in enumerate(viol):
        tag = (r["harness"], r["scenario"], v["key"])
        if tag in done or len(done) >= 12:
            continue
        done.add(tag)
        path = os.path.join(rdir, "%s-%s-%s.json" % (pid, r["scenario"], re.sub(r"\W+", "_", v["key"])[:60]))
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": r["harness"], "variant": r["variant"],
                       "scenario": r["scenario"], "seed": r["seed"], "tier": r["tier"], "scale": r["scale"],
                       "key": v["key"], "occurrences": v["n"], "detail": v["detail"],
                       "rerun": "python3 /verif/run.py --replay " + path}, f, indent=1)
        print("  %s/%s %s (x%d): %s" % (r["harness"], r["scenario"], v["key"], v["n"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    e = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
         "coverage": {"evaluations": ev, "distinct_nontrivial": di, "rule": P["rule"],
                      "samples": samples[:16] or ["none"], "oracle_verdicts": ck, "workloads": per},
         "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)
    if viol:
        return 1
    if not ev or not ck:
        raise Broken("nothing was observed")
    print("%s: held on %d cases (%d distinct), %d oracle verdicts, %.1f s" % (pid, ev, di, ck, time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if "--seed" in a:
        i = a.index("--seed")
        seed = int(a[i + 1])
        del a[i:i + 2]
    try:
        if a[:1] == ["--build"]:
            build({(r[0], r[1]) for p in PROPS.values() for r in p["runs"]})
            return 0
        if a[:1] == ["--replay"]:
            j = json.load(open(a[1]))
            b = build({(j["harness"], j["variant"])})[(j["harness"], j["variant"])]
            d = tempfile.mkdtemp(dir=OUT)
            r = run_one(b, j["variant"], j["harness"], j["scenario"], j["seed"], j["tier"], j["scale"], d)
            shutil.rmtree(d, ignore_errors=True)
            for v in r["violations"]:
                print(v["key"], "x%d" % v["n"], v["detail"])
            return 1 if r["violations"] else 0
        rc = 0
        for pid in (a or sorted(PROPS)):
            rc = max(rc, check(pid, tier, seed))
        return rc
    except Broken as e:
        print("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
