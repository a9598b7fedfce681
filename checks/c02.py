"""CrashCatcher dump fidelity: registers and RAM that GDB reads are the ones in the dump, binary or hex."""
import world, formats

PID, LEVEL = "C02", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 9000, 40000
RULE = ("each case writes a CrashCatcher dump (binary or hex text, version 2 or 3, with or without floating point, 0-6, or 17-300 small, RAM "
        "regions of 0..2000 bytes at any alignment up to the top of memory, now and then one of up to 16 MB; hex text with random line lengths, line ends and "
        "letter case), starts the sanitized program, then compares every register and every RAM byte GDB reads with the dump; a "
        "situation is (encoding, version, fp, region count, region size class, base alignment, line style) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "regions of one dump overlap neither each other nor the image"]


def case(ctx, rng, idx):
    kind = ["bin3", "bin2", "hex3", "hex2"][idx % 4]
    big = 12000 if idx % 30 == 29 else 2000
    if idx % 60 in (17, 18):
        w, s = world.start(ctx, rng, dump=kind, big=24, nreg=rng.choice(world.MANY))
    elif idx % 1000 in (800, 802):
        n = (1 << 18 + idx // 1000 % (7 if kind[0] == "b" else 4)) + rng.choice([1, 4, rng.randrange(70000)])
        w, s = world.start(ctx, rng, dump=kind, huge=n)
        ctx.count("huge_dumps")
    else:
        w, s = world.start(ctx, rng, dump=kind, big=big)
    try:
        order = rng.randrange(2)
        if order:
            world.check_registers(ctx, s, w)
        regions = list(w.regions)
        rng.shuffle(regions)
        for a, d in regions:
            if d:
                world.dump_range(ctx, s, w.mem, a, len(d), rng)
            ctx.count("ram_bytes_compared", len(d))
            ctx.sig(kind, w.regs.fp is not None, min(len(regions), 4), len(d).bit_length(), len(d) % 4, a % 4,
                    a + len(d) == world.TOP)
        if not regions:
            ctx.sig(kind, w.regs.fp is not None, 0)
        world.check_registers(ctx, s, w)
        for a, d in w.segments:                      # the image is untouched by the dump
            world.dump_range(ctx, s, w.mem, a, min(len(d), 200), rng)
        for p in world.probes(w.mem, rng, 6):
            world.read_check(ctx, s, w.mem, p, rng.choice([1, 2, 4, 16]))
        world.finish(ctx, s)
    finally:
        s.kill()
    ctx.count("dumps_" + kind)
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc}
