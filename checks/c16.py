"""Command line: every well-formed combination starts the session it describes, every malformed one is refused."""
import itertools
import world, rsp, formats as F

PID, LEVEL = "C16", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 6000, 30000
RULE = ("well-formed cases: every order of --elf/--bin, --dump and 0-3 --alias, with random letter case, numbers in decimal, hex and "
        "octal, odd file names; the session must serve the memory and registers these arguments describe. Malformed cases: every "
        "proper prefix of such a command line that misses a value or a required option, unknown options, single dash, stray words, "
        "empty argument; must be refused with a message and the usage text. A situation is (verdict, option order, number "
        "format, defect, message) and counts when checked")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "giving an option twice, --elf together with --bin, and numbers that are not numbers are unspecified"]
NAMES = ["image", "a b.elf", "-x", "x--dump", "\xe4.bin", "%s%n.elf", "dot.", "UPPER.ELF", "--e", "elf", "a" * 120, "b" * 250, "/".join(["c" * 90] * 15)]


def num(rng, v):
    return rng.choice(["0x%x", "0x%X", "%d", "0%o", "0x%08x", "0X%x"]) % v


def setup(ctx, rng, n=None):
    w = world.World()
    w.placer = world.Placer(rng)
    world.gen_image(w, rng)
    world.gen_dump(w, rng, big=300)
    img, dump = w.img_args[1], w.dump_name
    ni, nd = rng.sample(NAMES, 2)
    if rng.randrange(2):
        w.files[ni] = w.files.pop(img)
        w.img_args = [w.img_args[0], ni] + w.img_args[2:]
    if rng.randrange(2):
        w.files[nd] = w.files.pop(dump)
        w.dump_args = ["--dump", nd]
    if w.img_args[0] == "--bin":
        w.img_args[2] = num(rng, w.segments[0][0])
    world.gen_aliases(w, rng, rng.choice([0, 0, 1, 2, 3]) if n is None else n)
    al = w.alias_args
    opts = [al[i:i + 4] for i in range(0, len(al), 4)]
    for o in opts:
        o[1:] = [num(rng, int(x, 0)) for x in o[1:]]
    return w, opts


def case_of(rng, o):
    k = rng.randrange(4)
    if k == 0:
        return o.upper()
    if k == 1:
        return "".join(c.upper() if rng.randrange(2) else c for c in o)
    return o


def arrange(rng, w, opts):
    """Any order, except that aliases of aliases keep theirs."""
    pos = sorted(rng.sample(range(len(opts) + 2), len(opts)))
    fixed = [w.img_args, w.dump_args]
    rng.shuffle(fixed)
    out, it, fx = [], iter(opts), iter(fixed)
    for i in range(len(opts) + 2):
        out.append(list(next(it)) if i in pos else list(next(fx)))
    for o in out:
        o[0] = case_of(rng, o[0])
    return out


def good(ctx, rng, idx):
    w, opts = setup(ctx, rng, rng.choice(world.MANY) if idx % 60 == 17 else None)
    groups = arrange(rng, w, opts)
    w.args = [x for g in groups for x in g]
    w.write(ctx)
    env = ctx.report_env()
    s = ctx.session(w.args, env=env)
    try:
        s.connect()
        world.check_registers(ctx, s, w)
        world.audit(ctx, s, w.mem)
        for p in world.probes(w.mem, rng, 6):
            world.read_check(ctx, s, w.mem, p, rng.choice([1, 2, 4]))
        world.finish(ctx, s)
        ctx.check(s.rx[:1] == b"+", "noise", lambda: "bytes before the first reply: %r" % s.rx[:40])
        ctx.check(s.stderr() == "", "noise", lambda: "a started session wrote to stderr: %r" % s.stderr()[:200])
    finally:
        s.kill()
    for n, d in w.files.items():
        with open(ctx.dir + "/" + n, "rb") as f:
            ctx.check(f.read() == d, "input-modified", lambda: n + " was changed")
    ctx.count("started")
    ctx.sig("good", tuple(g[0].lower() for g in groups), w.img_args[0])
    if idx % 50 == 1:
        ctx.sample = {"args": w.args, "verdict": "started"}


def bad(ctx, rng, idx):
    w, opts = setup(ctx, rng)
    groups = arrange(rng, w, opts)
    k = (idx // 2) % 10
    tag = None
    flat = lambda: [x for g in groups for x in g]
    if k == 0:              # the last option misses values
        g = groups[-1]
        del g[rng.randrange(1, len(g)):]
        tag = "short " + g[0].lower()
    elif k == 1:            # required option missing
        which = rng.choice(["--dump", "image"])
        groups = [g for g in groups if (g[0].lower() == "--dump") != (which == "--dump") and
                  (which == "--dump" or g[0].lower() not in ("--elf", "--bin")) or g[0].lower() == "--alias"]
        tag = "without " + which
    elif k == 2:
        bogus = rng.choice(["--", "--foo", "--elff", "--el", "--dumps", "--binary", "--alias=1", "--help", "--version", "--dump=x", "--Elf ",
                            " --elf", "--a"])
        if rng.randrange(3) == 0:
            bogus = "--" + world.odd_word(rng) * rng.choice([1, 1, 4, 40])
        groups.insert(rng.randrange(len(groups) + 1), [bogus])
        tag = "unknown " + bogus
    elif k == 3:
        g = rng.choice(groups)
        g[0] = rng.choice([g[0][1:], g[0][2:], "-" + g[0][2:] if len(g[0]) > 2 else "-", "+" + g[0][1:], g[0].replace("--", "-_")])
        tag = "prefix " + g[0]
    elif k == 4:
        groups.insert(rng.randrange(len(groups) + 1), [rng.choice(["stray", "", "-", "x", "0x1000", "e--lf", "\xb5"])])
        tag = "stray"
    elif k == 5:
        groups = []
        tag = "none"
    elif k == 6:            # only aliases / one value too many
        if rng.randrange(2):
            groups = [["--alias", "0x1000", "16", "0x2000"]] * rng.randrange(1, 3)
            tag = "alias only"
        else:
            g = rng.choice(groups)
            g.append(rng.choice(["extra", "0", "0x1000"]))
            tag = "extra value " + g[0].lower()
    elif k == 7:            # a lone option name
        groups = [[rng.choice(["--elf", "--bin", "--dump", "--alias"])] + ["x"] * rng.randrange(0, 1)]
        tag = "alone " + groups[0][0]
    elif k == 8:            # almost an option, with its values
        g = rng.choice(groups)
        n = g[0]
        g[0] = rng.choice([n + c for c in ("s", "=", "file", " ", "\t", "x", "-", "0", n[2:], "\xe9")] +
                          [n[:-1], n[:3], n[:-1] + chr(ord(n[-1]) ^ 1), n[:2] + " " + n[2:], n[:2] + "-" + n[2:], n[:2] + n[3:]])
        tag = "like " + n.lower()
    else:                   # values that are files which do not exist
        g = rng.choice([g for g in groups if g[0].lower() != "--alias"])
        g[1] = rng.choice(["missing", "./none/x", "", "crash.dmp.bak"])
        if rng.randrange(2):
            g[1] = world.odd_path(rng, "m" + world.odd_word(rng)) * rng.choice([1, 1, 2])
        tag = "missing file " + g[0].lower()
    w.args = flat()
    w.write(ctx)
    if any("\0" in a for a in w.args):
        return
    bare = rng.randrange(4) == 0        # nothing but the arguments themselves after the arguments
    env = rsp.NO_ENV if bare else ctx.report_env()
    t, err = world.refused(ctx, w.args, "command line %r" % w.args, env=env)
    for opt in ("--elf", "--bin", "--dump", "--alias"):
        ctx.check(opt in err, "no-usage", lambda: "the usage text does not mention %s" % opt)
    if bare:
        ctx.count("empty_environment")
    else:
        r = ctx.report()
        ctx.check(r is not None and r["live"] == 0 and r["open"] == 0, "leak", lambda: "refused command line leaves %r" % r)
    for n, d in w.files.items():
        with open(ctx.dir + "/" + n, "rb") as f:
            ctx.check(f.read() == d, "input-modified", lambda: n + " was changed")
    ctx.count("refused")
    ctx.sig("bad", k, tag, t[:30])
    if idx % 50 == 1:
        ctx.sample = {"args": w.args, "verdict": t}


def case(ctx, rng, idx):
    if idx % 2:
        bad(ctx, rng, idx)
    else:
        good(ctx, rng, idx)
