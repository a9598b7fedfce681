"""Arbitrary input files never make the program crash, hang or touch memory it does not own."""
import re, struct
import world, formats as F, rsp, convo

PID, LEVEL = "C06", "exploration"
BUILDS = ["exe", "exe_msan"]
QUICK, THOROUGH = 10800, 60000
RULE = ("each case takes valid input files and mutates them (bit flips, interesting integers at random or header offsets, cuts, "
        "splices between formats, repeated lines, logs of a few lines cut anywhere, very long lines and symbols, random bytes), runs the program built with "
        "ASan+UBSan (and every 4th case with MSan) and, if it starts a session, walks it: memory-map and target XML, registers, "
        "reads and writes around every mapped edge, a resume; the monitors are the sanitizers, exit by signal, CPU budget, the "
        "exit protocol (failure status + ERROR + usage, or a session whose map and registers answer), unchanged input files; a "
        "situation is (file kind, mutation kinds, outcome incl. normalised message) and counts when the program ran to its end")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "single allocations above 96 MB fail in the test bench", "alignment UBSan checks are off: the code targets hosts that "
               "allow unaligned access"]
INTS = [0, 1, 2, 3, 4, 7, 8, 0x1F, 0x20, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000,
        0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFC, 0xFFFFFFE0, 0xACCE55ED, 0x5000000]


def mutate(rng, data, others):
    data = bytearray(data)
    names = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6])):
        k = rng.randrange(11)
        n = len(data)
        p = rng.randrange(n) if n else 0
        if rng.randrange(2):
            p = min(p, rng.randrange(120))
        if k == 0 and n:
            data[p] ^= 1 << rng.randrange(8)
        elif k == 1 and n:
            data[p] = rng.choice(INTS) & 0xFF
        elif k == 2:
            w = rng.choice([2, 4, 4])
            q = p & ~(w - 1)
            v = rng.choice(INTS + [n, n - 1, n + 1, -n, n - p]) & ((1 << 8 * w) - 1)
            data[q:q + w] = v.to_bytes(w, "little")
        elif k == 3:
            del data[p:]
        elif k == 4:
            del data[p:p + rng.choice([1, 2, 4, 16])]
        elif k == 5:
            data[p:p] = bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 2, 4, 16, 64])))
        elif k == 6:
            o = rng.choice(others)
            if o:
                q = rng.randrange(len(o))
                data[p:p] = o[q:q + rng.randrange(1, 300)]
        elif k == 7 and n:
            q = rng.randrange(n)
            data += data[q:q + rng.randrange(1, 500)]
        elif k == 8:
            data[p:p] = rng.choice([b"\n", b"\r\n", b"\0", b"0x", b"<", b">", b">:", b":", b"\t", b"0x12345678:", b"0xffffffff <",
                                    b"0x2000000g:", b"r0             ", b"s1             ", b"s1             1.5\t(raw ", b"msp            0x",
                                    b"0xfffffff0:\t0x1\t0x2\t0x3\t0x4\t0x5\t0x6\n", b"6343", b"cC\3\0", b"\x7fELF"])
        elif k == 9:
            c = rng.choice([b"a", b"<", b">", b" ", b"0", b"\t0x1", b"F", b"\n", b"\xB5"])
            data[p:p] = c * rng.choice([100, 1022, 1023, 1024, 1025, 3000])
        else:
            data[p:p + 8] = bytes(rng.getrandbits(8) for _ in range(8))
        names.append(k)
    return bytes(data), tuple(sorted(set(names)))


def walk(ctx, rng, s):
    """A session is up: everything it advertises must answer."""
    xml = s.xfer("memory-map:read:", rng.choice([0x100, 0xFFF])).decode("latin-1")
    regions = [(t, int(a, 16), int(n, 16)) for t, a, n in re.findall(r'<memory type="(\w+)" start="0x(\w+)" length="0x(\w+)"', xml)]
    s.xfer("features:read:target.xml")
    g = s.command("g")
    ctx.check(len(g) in (152, 416), "registers", lambda: "g answers %r" % g[:60])
    s.command("?")
    for t, a, n in regions[:12]:
        for q in {a, a + n - 1, a + n, a + n // 2, a - 1}:
            for k in (1, 2, 4, 40):
                if 0 <= q and q + k <= world.TOP:
                    s.read_mem(q, k)
                    ctx.count("reads")
        if n >= 2 and a + n <= world.TOP and len(regions) == 1:
            got = s.read_mem(a, min(n, 2000))
            ctx.check(len(got) == 2 * min(n, 2000), "map-unreadable", lambda: "0x%x+0x%x is advertised but reads %r" % (a, n, got[:40]))
        q = min(a + n - 1 if n else a, world.TOP - 4)
        s.command("M%x,1:5a" % q)
        s.command("M%x,4:11223344" % (q & ~3))
    s.resume(rng.choice(["c", "s"]))
    s.command("G" + g.decode("latin-1"))
    ctx.check(s.command("g") == g, "registers", "registers changed by writing them back")
    return len(regions)


def case(ctx, rng, idx):
    exe = "exe_msan" if idx % 4 == 3 else "exe"
    w = world.gen_world(rng, aliases=rng.choice([0, 0, 1]), big=600)
    if idx % 9 == 8:        # nothing but random bytes
        for n in w.files:
            w.files[n] = bytes(rng.getrandbits(8) for _ in range(rng.randrange(400)))
            if rng.randrange(2):
                w.files[n] = rng.choice([b"cC\3\0", b"cC\2\0", b"6343", b"63430300", b"\x7fELF\1\1\1", b"0x20000000"]) + w.files[n]
    if idx % 9 == 4:        # a log of a line or two, each cut short: nothing may be read past its end
        w = world.World()
        w.placer = world.Placer(rng)
        world.gen_image(w, rng)
        world.gen_dump(w, rng, kind="log", nreg=1, fp=True)
        w.args = w.img_args + w.dump_args
        lines = [x for x in w.files[w.dump_name].split(b"\n") if x.strip()]
        cut = [rng.choice(lines[-60:] if rng.randrange(2) else lines) for _ in range(rng.choice([1, 1, 2, 4]))]
        if rng.randrange(3) == 0:
            cut[-1] = rng.choice([x for x in lines if b"<" in x] or lines)
        low = [rng.choice([0, 0] + [i for i, c in enumerate(x) if c in b"<>:"]) for x in cut]     # often inside a symbol
        w.files[w.dump_name] = b"\n".join(x[:rng.randrange(n, len(x) + 1)] for n, x in zip(low, cut)) + rng.choice([b"", b"", b"\n", b"\r\n"])
    names = {}
    targets = [w.dump_name] if rng.randrange(5) < 3 else list(w.files)
    if rng.randrange(3) == 0:
        targets = [n for n in w.files if n != w.dump_name]
    others = list(w.files.values())
    for n in targets:
        if idx % 9 == 4:
            names[n] = ("cut-lines",)
        else:
            w.files[n], names[n] = mutate(rng, w.files[n], others)
    if rng.randrange(6) == 0:
        world.odd_names(w, rng)
    w.write(ctx)
    s = ctx.session(w.args, exe=exe)
    nreg = None
    try:
        try:
            s.send(b"+")
            s.command("?")
        except rsp.Dead:
            rc, err, rest = s.finish()
            t = world.check_refused(ctx, rc, rest, err, "damaged input", message=False)
            outcome = re.sub(r"[0-9]+|\"[^\"]*\"|0x\w+", "#", t)[:50]
            ctx.count("refused")
        else:
            nreg = walk(ctx, rng, s)
            rc, err, _ = world.finish(ctx, s)
            ctx.check(world.error_text(err) is None, "session-and-error", lambda: "session started but stderr says %r" % err[:200])
            outcome = "session%d" % min(nreg, 4)
            ctx.count("sessions_walked")
    finally:
        s.kill()
    for n, d in w.files.items():
        with open(ctx.dir + "/" + n, "rb") as f:
            ctx.check(f.read() == d, "input-modified", lambda: n + " was changed")
    ctx.count("runs_" + exe)
    ctx.sig(w.dump_kind, "elf" in w.img_args[0], tuple(sorted(map(str, names.values()))), outcome)
    if idx % 50 == 1:
        ctx.sample = {"args": w.args, "mutations": {k: list(v) for k, v in names.items()}, "outcome": outcome}
