"""FLASH stays read-only and RAM writes change exactly the written bytes."""
import world, convo

PID, LEVEL = "C04", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 4500, 40000
RULE = ("each case builds a random world (image, RAM regions up to 16 MB, sometimes aliases) and sends 40-120 random M/X writes, reads and other "
        "commands aimed at RAM, FLASH, region edges and aliases; after every write neighbouring bytes are read back and at the "
        "end all memory is compared with a byte-array model; a situation is (previous operation, operation, outcome incl. size and "
        "alignment) and counts when its reply was compared with the model")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "one halfword/word write that straddles two adjacent regions is unspecified and not sent"]
W = dict(write=8, writeflash=4, read=3, writebad=1, setregs=1, resume=1, **{"break": 1}, audit=1)


def case(ctx, rng, idx):
    if idx % 8 == 7:
        return overlap(ctx, rng)
    kw = {}
    if idx % 500 == 300:
        kw = dict(dump=rng.choice(["bin3", "bin2"]), huge=(1 << 18 + idx // 500 % 7) + rng.choice([1, 4, rng.randrange(70000)]))
        ctx.count("huge_regions")
    w, s = world.start(ctx, rng, aliases=None if idx % 3 == 0 else 0, **kw)
    try:
        c = convo.Convo(ctx, rng, w, s, W)
        c.run(rng.randrange(40, 120))
        world.audit(ctx, s, w.mem)
        world.check_registers(ctx, s, w)
        world.finish(ctx, s)
    finally:
        s.kill()
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc, "commands": ctx.log[-12:]}


def overlap(ctx, rng):
    """ELF entries that share addresses: still no byte of the image may be changed by GDB."""
    import formats as F
    n = rng.randrange(8, 200)
    segs = [dict(paddr=0x1000, data=world.rand_bytes(rng, n))]
    for _ in range(rng.randrange(1, 3)):
        segs.append(dict(paddr=0x1000 + rng.randrange(n), data=world.rand_bytes(rng, rng.randrange(1, 200))))
    rng.shuffle(segs)
    ctx.file("o.elf", F.elf(segs))
    ctx.file("d.dmp", F.crashcatcher(F.Regs(rng), [(0x20000000, b"\0" * 16)]))
    s = ctx.session(["--elf", "o.elf", "--dump", "d.dmp"])
    s.connect()
    try:
        lo, hi = min(x["paddr"] for x in segs), max(x["paddr"] + len(x["data"]) for x in segs)
        before = [s.read_mem(a, 1) for a in range(lo, hi)]
        for _ in range(30):
            a = rng.randrange(lo, hi)
            k = rng.choice([1, 2, 4, 8])
            got = s.command("M%x,%x:%s" % (a, k, rng.getrandbits(8 * k).to_bytes(k, "big").hex()))
            ctx.check(got == b"E03", "write-reply", lambda: "write to image at 0x%x: %r" % (a, got))
            ctx.count("flash_writes_attempted")
        after = [s.read_mem(a, 1) for a in range(lo, hi)]
        ctx.check(before == after, "flash-changed", "image bytes changed")
        ctx.sig("overlap", len(segs), n % 8)
        world.finish(ctx, s)
    finally:
        s.kill()
