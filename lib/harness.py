"""Runs a property's cases in parallel, collects what the monitors observed, matches known findings, writes evidence.

A check module provides
    PID, LEVEL, RULE, QUICK, THOROUGH (case counts), BUILDS (program names), ASSUMPTIONS
    case(ctx, rng, idx)        drives one execution (or a few) of the real program and checks it with ctx.check/ctx.fail
    FIXED (optional)           number of leading indexes that are deterministic enumerations, run in every tier
"""
import base64, hashlib, importlib, json, multiprocessing, os, random, shutil, signal, sys, tempfile, time, traceback

import build
import rsp

VERIF = build.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")
MAX_VIOLATIONS = 4
RETRY = ("hang",)


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key, self.msg = key, msg


class Inconclusive(Exception):
    pass


def known_findings(pid):
    if not os.path.exists(KNOWN_FILE):
        return []
    with open(KNOWN_FILE) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


class Ctx:
    def __init__(self, pid, tier, paths, workdir, idx, seed, known):
        self.pid, self.tier, self.paths, self.dir, self.idx, self.seed = pid, tier, paths, workdir, idx, seed
        self.known = known
        self.sigs = set()
        self.nsig = 0
        self.counts = {}
        self.log = []
        self.hits = []          # known findings met
        self.sample = None
        self.nfile = 0

    thorough = property(lambda s: s.tier == "thorough")

    def exe(self, name="exe"):
        return self.paths[name]

    def sig(self, *parts):
        """Records that this execution observed the (non-trivial) situation described by `parts`."""
        self.nsig += 1
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def peak(self, name, v):
        self.counts["max_" + name] = max(self.counts.get("max_" + name, 0), v)

    def trace(self, *what):
        self.log.append(" ".join(x if isinstance(x, str) else repr(x) for x in what)[:400])

    def fail(self, key, msg):
        for k in self.known:
            if k["key"] == key:
                self.hits.append(key)
                return
        raise Violation(key, msg)

    def check(self, ok, key, msg):
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return ok

    def file(self, name, data):
        p = os.path.join(self.dir, name)
        if isinstance(data, str):
            data = data.encode("latin-1")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def session(self, args, exe="exe", env=None, **limits):
        self.trace("run", exe, *args)
        return rsp.Session(self.paths[exe], args, self.dir, env=env, **limits)

    def run(self, args, stdin=b"", exe="exe", env=None, **limits):
        self.trace("run", exe, *args)
        return rsp.run(self.paths[exe], args, self.dir, stdin, env=env, **limits)

    def report_env(self, env=None):
        """Environment that makes the program write its resource report."""
        self.report_path = os.path.join(self.dir, "report.txt")
        if os.path.exists(self.report_path):
            os.unlink(self.report_path)
        e = {"VF_REPORT": self.report_path}
        e.update(env or {})
        return e

    def report(self):
        out = {"count": {}, "fired": {}}
        if not os.path.exists(self.report_path):
            return None
        with open(self.report_path) as f:
            for line in f:
                w = line.split()
                if len(w) == 3:
                    out[w[0]][w[1]] = out[w[0]].get(w[1], 0) + int(w[2])
                elif len(w) == 2:
                    out[w[0]] = int(w[1])
        return out


def _excerpt(text, n=1500):
    return text if len(text) <= n else text[:n] + "..."


def guarded(ctx, mod, rng, idx):
    """Runs one case; maps what the program did wrong to violations."""
    try:
        mod.case(ctx, rng, idx)
    except rsp.Dead as e:
        raise Violation("died", "the program ended while an answer was awaited; %s" % _stderr(ctx))
    except rsp.Proto as e:
        raise Violation("protocol", str(e))
    except rsp.Hang:
        raise Violation("hang", "no answer and no end within the CPU/time budget")


def _stderr(ctx):
    p = os.path.join(ctx.dir, "stderr.txt")
    if os.path.exists(p):
        with open(p, "rb") as f:
            return "stderr: " + _excerpt(f.read(4000).decode("latin-1"))
    return ""


_G = {}


def _reset():
    # workers must not keep the parent's handlers
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_case(idx):
    mod, seed, tier, paths, work, known = _G["mod"], _G["seed"], _G["tier"], _G["paths"], _G["work"], _G["known"]
    for attempt in (0, 1):
        d = tempfile.mkdtemp(prefix="c%d-" % idx, dir=work)
        ctx = Ctx(mod.PID, tier, paths, d, idx, seed, known)
        rng = random.Random("%s:%d:%d" % (mod.PID, seed, idx))
        res = {"idx": idx}
        try:
            guarded(ctx, mod, rng, idx)
        except Violation as v:
            if v.key in RETRY and attempt == 0:
                shutil.rmtree(d, ignore_errors=True)
                continue
            if any(k["key"] == v.key for k in known):
                ctx.hits.append(v.key)
            else:
                res["violation"] = (v.key, v.msg)
                res["log"] = ctx.log[-200:]
                res["files"] = _files(d)
        except Inconclusive as e:
            res["inconclusive"] = str(e)
        except Exception as e:
            if isinstance(e, OSError) and attempt == 0:     # the sandbox was short of something for a moment
                time.sleep(0.5)
                continue
            res["error"] = traceback.format_exc()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        break
    res.update(sigs=ctx.sigs, nsig=ctx.nsig, counts=ctx.counts, hits=ctx.hits, sample=ctx.sample)
    return res


def _files(d):
    out = {}
    total = 0
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            p = os.path.join(root, f)
            n = os.path.getsize(p)
            if total + n > 1 << 20:
                continue
            total += n
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = base64.b64encode(fh.read()).decode()
    return out


def run_check(mod, tier, seed, only=None, jobs=None):
    t0 = time.time()
    known = known_findings(mod.PID)
    try:
        paths = {n: build.build(n) for n in mod.BUILDS}
    except build.BuildError as e:
        print("check %s: building the program under test failed\n%s" % (mod.PID, e), file=sys.stderr)
        return 2
    n = mod.THOROUGH if tier == "thorough" else mod.QUICK
    os.makedirs(build.OUT, exist_ok=True)
    work = tempfile.mkdtemp(prefix="work-", dir=build.OUT)
    _G.update(mod=mod, seed=seed, tier=tier, paths=paths, work=work, known=known)
    sigs, counts, hits = set(), {}, {}
    samples, violations, errors, inconclusive = [], [], [], []
    done = judged = 0
    try:
        idxs = list(range(n)) if only is None else [only]
        if len(idxs) == 1:
            results = map(run_case, idxs)
            pool = None
        else:
            pool = multiprocessing.Pool(jobs or min(8, os.cpu_count() or 1), initializer=_reset)
            results = pool.imap_unordered(run_case, idxs, chunksize=1)
        for r in results:
            done += 1
            sigs |= r["sigs"]
            judged += max(1, r["nsig"])
            for k, v in r["counts"].items():
                counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
            for h in r["hits"]:
                hits[h] = hits.get(h, 0) + 1
            if r["sample"] is not None and (len(samples) < 4):
                samples.append(r["sample"])
            if "violation" in r:
                violations.append(r)
            if "error" in r:
                errors.append(r["error"])
            if "inconclusive" in r:
                inconclusive.append(r["inconclusive"])
            if sum(2 if v["violation"][0] in RETRY else 1 for v in violations) >= MAX_VIOLATIONS or len(errors) >= 4:
                break
        if pool:
            pool.terminate()
            pool.join()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for r in violations:
        key, msg = r["violation"]
        path = _replay_file(mod, tier, seed, r)
        print("violated: %s" % key)
        print("  " + _excerpt(msg, 1200).replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (mod.PID, path))
    for k in known:
        if hits.get(k["key"]):
            print("KNOWN-FINDING: property=%s %s" % (mod.PID, k["what"]))
    if only is None:
        cov = {
            "evaluations": judged,
            "executions": done,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples or ["(no sample: the run ended early)"],
            "observed": counts,
            "inconclusive": len(inconclusive),
            "known_findings_met": hits,
        }
        ev = {"property": mod.PID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
              "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, ".%s.%d" % (mod.PID, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(EVIDENCE, mod.PID + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct situations, observed %s, %d inconclusive, %.1fs" % (
        mod.PID, tier, seed, done, len(sigs), json.dumps(counts, sort_keys=True), len(inconclusive), time.time() - t0))
    if violations:
        return 1
    if errors:
        print("check %s: harness error\n%s" % (mod.PID, errors[0]), file=sys.stderr)
        return 2
    if inconclusive:
        print("inconclusive: %s" % inconclusive[0], file=sys.stderr)
    if len(inconclusive) * 10 > done:
        print("check %s: too many inconclusive cases" % mod.PID, file=sys.stderr)
        return 2
    if only is None and not sigs:
        print("check %s observed nothing" % mod.PID, file=sys.stderr)
        return 2
    return 0


def _replay_file(mod, tier, seed, r):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%d-%d.json" % (mod.PID, seed, r["idx"]))
    with open(path, "w") as f:
        json.dump({"property": mod.PID, "tier": tier, "seed": seed, "idx": r["idx"], "key": r["violation"][0],
                   "message": r["violation"][1], "trace": r.get("log", []), "files": r.get("files", {}),
                   "how": "cd /verif && python3 check.py %s --replay %s" % (mod.PID, path)}, f, indent=1)
    return path
