"""GDB log fidelity: registers and RAM that GDB reads are the ones printed in the log."""
import struct
import world, formats as F

PID, LEVEL = "C03", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 9000, 40000
RULE = ("each case renders random registers and 0-5, or 17-300 small, RAM regions as the text GDB prints for x/4wx and info all-registers (layouts "
        "of several GDB versions, symbols with spaces/templates/operators, short lines, GDB error text, unrelated lines mixed "
        "in, blocks in any order, re-dumped lines, now and then a region of hundreds of KB), starts the sanitized program and compares every register, every RAM word and "
        "the addresses around them; a situation is (fp, region count, msp/psp present, has symbols, has short line, line "
        "end, order) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "log lines are shorter than 1000 characters, addresses are word aligned, values are 32-bit words"]


def case(ctx, rng, idx):
    w = world.World()
    w.placer = world.Placer(rng)
    world.gen_image(w, rng)
    if idx % 60 == 17:
        world.gen_dump(w, rng, kind="log", fp=idx // 60 % 2, nreg=rng.choice(world.MANY), big=24)
    elif idx % 1500 == 700:
        world.gen_dump(w, rng, kind="log", fp=idx % 2, huge=(1 << 18 + idx // 1500 % 4) + 4 * rng.randrange(100))
        ctx.count("huge_logs")
    else:
        world.gen_dump(w, rng, kind="log", fp=idx % 2)
    text = w.files["gdb.txt"]
    redump = 0
    if w.regions and rng.randrange(4) == 0:
        # the same region dumped again later in the log: the last contents count
        b, d = rng.choice(w.regions)
        lo, more = 0, 0
        if rng.randrange(2):
            lo = 4 * rng.randrange(len(d) // 4)                     # from inside it
        if rng.randrange(2):
            more = 4 * rng.randrange(1, 20)                         # and past its end
            if not w.placer.free(b + len(d), more):
                more = 0
        new = world.rand_bytes(rng, len(d) - lo + more)
        nl = b"\r\n" if b"\r\n" in text else b"\n"
        if not text.endswith(nl):
            text += nl
        text += nl.join(l.encode() for l in F.gdb_memory(b + lo, new, rng, full_lines=True)) + nl
        r, off = w.mem.find(b)
        r.data[off + lo:off + len(d)] = new[:len(d) - lo]
        if more:
            w.mem.add(b + len(d), new[len(d) - lo:], False, "ram")
            w.regions.append((b + len(d), new[len(d) - lo:]))
            ctx.count("dumped_again_past_the_end")
        w.files["gdb.txt"] = text
        redump = 1
    w.args = w.img_args + w.dump_args
    w.write(ctx)
    s = ctx.session(w.args)
    s.connect()
    try:
        world.check_registers(ctx, s, w)
        for a, d in w.regions:
            world.dump_range(ctx, s, w.mem, a, len(d), rng)
            ctx.count("ram_bytes_compared", len(d))
        for p in world.probes(w.mem, rng, 12):
            world.read_check(ctx, s, w.mem, p, rng.choice([1, 2, 4, 16]))
        for a, d in w.segments:
            world.dump_range(ctx, s, w.mem, a, min(len(d), 200), rng)
        world.finish(ctx, s)
    finally:
        s.kill()
    ctx.count("log_lines", text.count(b"\n"))
    ctx.sig(w.regs.fp is not None, min(len(w.regions), 4), w.regs.r[17] == F.Regs.DEFAULT_SP, b" <" in text, b"operator" in text,
            b"Cannot" in text, b"\r\n" in text, redump, text.endswith(b"\n"),
            tuple(sorted((b >> 28) for b, _ in w.regions))[:2])
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc, "log_head": text[:300].decode("latin-1")}
