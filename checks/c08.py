"""A failing allocation, open, seek, tell or read during start-up ends in a clean refusal: no leak, no partial session."""
import rsp, world

PID, LEVEL = "C08", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 260, 5000
RULE = ("each case builds valid inputs, runs them once fault-free to count the calls the start-up makes to malloc, realloc, fopen, "
        "fread, fseek, ftell and fgets, then re-runs it with the n-th such call failing, for every n (sampled above 12 calls per "
        "kind; first, last and random ones kept), plus short reads; after each run the report of the link-time wrappers gives live "
        "allocations, open files and bad closes; a situation is (dump kind, image kind, operation, call position class, "
        "outcome) and counts only if the fault fired")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "libraries report a failed read as POSIX stdio does (short count and the stream's error flag)"]
OPS = ["malloc", "realloc", "fopen", "fread", "fseek", "ftell", "fgets"]


def clean(ctx, rep, what):
    ctx.check(rep is not None, "no-report", lambda: what + ": the program did not end through exit()")
    ctx.check(rep["live"] == 0, "leak", lambda: "%s: %d allocations never freed" % (what, rep["live"]))
    ctx.check(rep["open"] == 0, "open-file", lambda: "%s: %d files left open" % (what, rep["open"]))
    ctx.check(rep["badclose"] == 0, "bad-close", lambda: "%s: %d closes of a stream that was not open" % (what, rep["badclose"]))


def run(ctx, w, fault=None):
    env = ctx.report_env({"VF_FAULT": fault} if fault else None)
    s = ctx.session(w.args, env=env)
    out = b""
    try:
        try:
            s.connect()
            out = s.command("?")
        except rsp.Dead:
            pass
        rc, err, _ = s.close()
        out = s.rx
    finally:
        s.kill()
    world.no_sanitizer(ctx, rc, err)
    rep = ctx.report()
    clean(ctx, rep, fault or "no fault")
    return rc, out, err, rep


def case(ctx, rng, idx):
    if idx == 0:
        return log_read_error(ctx)
    kind = ["bin3", "log", "hex2", "bin2", "hex3"][idx % 5]
    w = world.gen_world(rng, dump=kind, aliases=rng.choice([0, 1, 2]), big=24, nreg=rng.choice([0, 1, 2, 3]))
    w.write(ctx)
    rc, out, err, rep = run(ctx, w)
    ctx.check(out.startswith(b"+$T"), "no-session", lambda: "fault-free start-up: exit %d, %r %s" % (rc, out[:60], err[:300]))
    img = w.img_args[0].lower()
    # the session itself may allocate: only count what start-up needs
    for op in OPS:
        total = rep["count"].get(op, 0)
        ns = list(range(1, total + 1))
        if len(ns) > 12:
            ns = ns[:5] + ns[-3:] + rng.sample(ns[5:-3], 4)
        for n in ns:
            for mode in ("", ":short") if op == "fread" else ("",):
                fault = "%s:%d%s" % (op, n, mode)
                rc, out, err, r2 = run(ctx, w, fault)
                if not r2["fired"].get(op):
                    continue
                ctx.count("faults_fired")
                if op == "fgets" and world.error_text(err) is None:
                    # recorded in known_findings.json: a read error in the middle of a GDB log counts as its end
                    ctx.check(out.startswith(b"+$T"), "fault-outcome", lambda: "%s: %r" % (fault, out[:60]))
                    ctx.fail("gdb-log-read-error", "%s: the session started although reading the GDB log failed" % fault)
                    ctx.sig(kind, img, op, "session")
                    continue
                t = world.check_refused(ctx, rc, out, err, "start-up with " + fault)
                ctx.sig(kind, img, op + mode, n if n < 6 else "last" if n == total else "mid",
                        "".join(c for c in t if not c.isdigit())[:30])
    if idx % 20 == 1:
        ctx.sample = {"args": w.args, "calls": rep["count"]}


def log_read_error(ctx):
    """The recorded finding, exercised the same way in every run."""
    import random
    w = world.gen_world(random.Random("C08"), dump="log", nreg=2)
    w.write(ctx)
    rc, out, err, rep = run(ctx, w, "fgets:2")
    ctx.count("faults_fired")
    ctx.sig("log-read-error", rc)
    if world.error_text(err) is None:
        ctx.fail("gdb-log-read-error", "fgets:2: the session started although reading the GDB log failed")
    else:
        world.check_refused(ctx, rc, out, err, "start-up with fgets:2")
