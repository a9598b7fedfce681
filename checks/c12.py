"""The fault description shown on resume states exactly what the dump's fault status registers say."""
import itertools, struct
import world, convo, oracle, formats as F

PID, LEVEL = "C12", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 9000, 40000
RULE = ("each case writes a dump whose RAM regions hold some, all or none of the fault status registers (single bits enumerated by "
        "index over CFSR, HFSR and the two address-valid bits, then random words; region edges cut through the registers; registers "
        "reached through an alias), with a fault exception, and compares the text on GDB's console at every resume with an "
        "independent ARMv7-M decoder; some cases write the registers through GDB between resumes; a situation is (exception, "
        "CFSR bits, HFSR bits, which registers are present) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)"]
BASE = 0xE000ED20


def layout(rng, words):
    """Which part of 0xE000ED20.. the dump holds."""
    data = struct.pack("<8I", *words)
    k = rng.randrange(10)
    if k < 4:
        return [(BASE, data)], "all"
    if k == 4:
        return [], "none"
    if k == 5:
        a, b = sorted(rng.sample(range(0, 33), 2))
        return [(BASE + a, data[a:b])], "cut"
    if k == 6:          # only some of the registers, one region each
        out = []
        for a in (8, 12, 20, 24):
            if rng.randrange(3):
                out.append((BASE + a, data[a:a + 4]))
        return out, "separate%d" % len(out)
    if k == 7:
        out = [(BASE + 8, data[8:16])]
        if rng.randrange(2):
            out.append((BASE + 20, data[20:28]))
        return out, "noaddr"
    if k == 8:
        return [(BASE + 8, data[8:8 + rng.choice([1, 2, 3, 4, 5, 7, 8])])], "short"
    return [(BASE + 8, data[8:])], "scb"


def words_for(rng, idx):
    w = [rng.getrandbits(32) for _ in range(8)]
    k = idx % 4
    bit = (idx // 4) % 64
    if k == 0:                                   # one bit
        w[2] = 1 << (bit % 32)
        w[3] = 1 << 30 if bit < 32 else 1 << (bit % 32)
    elif k == 1:                                 # one bit plus the address-valid bits
        w[2] = 1 << (bit % 32) | 0x8080
        w[3] = 1 << 30 | rng.choice([0, 2, 1 << 31])
    elif k == 2:
        w[2] = rng.choice([0, rng.getrandbits(32), rng.getrandbits(8), rng.getrandbits(8) << 8, rng.getrandbits(16) << 16])
        w[3] = rng.choice([0, 1 << 30, 1 << 31, 2, rng.getrandbits(32), 1 << 30 | 1 << 31 | 2])
    if rng.randrange(3) == 0:
        w[5] = rng.choice([0, 1, 0xF, 0x10, 0xFF, 0x100, 0xFFF, 0x1000, 0xFFFFF, 0x100000, 0xFFFFFFF, 0xFFFFFFFF])
        w[6] = rng.choice([0, 1, 0xF, 0x10, 0xFF, 0x100, 0xFFF, 0x1000, 0xFFFFF, 0x100000, 0xFFFFFFF, 0xFFFFFFFF])
    return w


def resume(ctx, s, w, cmd):
    texts, r = s.resume(cmd)
    text = "".join(texts)
    want = oracle.console(w.mem, w.regs.exc)
    ctx.trace(cmd, text)
    ctx.check(text == want, "fault-text", lambda: "exception %d: console shows\n%r, expected\n%r" % (w.regs.exc & 0x1FF, text, want))
    ctx.check(oracle.stop_ok(r, w.regs), "stop-reply", lambda: "stop reply %r" % r)
    ctx.count("resumes")
    ctx.count("text_bytes", len(want))


def case(ctx, rng, idx):
    words = words_for(rng, idx)
    regs = F.Regs(rng, bool(rng.randrange(2)))
    exc = [3, 4, 5, 6, 3][(idx + idx // 7) % 5] if rng.randrange(8) else rng.choice([0, 1, 2, 7, 11, 12, 15, 16, 255, 256, 259, 260, 261, 262, 511])
    regs.exc = exc | rng.choice([0, 0x01000000, 0x61000200])
    fault, how = layout(rng, words)
    alias = how == "all" and rng.randrange(5) == 0
    if alias:
        fault = []
    w = world.World()
    w.placer = world.Placer(rng)
    w.placer.take(BASE, 32)
    world.gen_image(w, rng)
    kind = rng.choice(["bin3", "hex3", "bin2", "hex2"])
    world.gen_dump(w, rng, kind=kind, regs=regs, fp=regs.fp is not None, fault=fault, nreg=rng.choice([0, 1]))
    w.args = w.img_args + w.dump_args
    if alias:                                    # the registers' contents sit elsewhere in RAM
        b = w.placer.place(32, 4)
        data = struct.pack("<8I", *words)
        w.mem.add(b, data, False, "ram")
        v = int(kind[3])
        binary = F.crashcatcher(w.regs, w.regions + [(b, data)], v)
        w.files[w.dump_name] = F.hexdump(binary, rng) if kind[:3] == "hex" else binary
        w.mem.alias(BASE, b, 32)
        w.args += ["--alias", "0x%x" % BASE, "32", "0x%x" % b]
        how = "alias"
    w.write(ctx)
    s = ctx.session(w.args)
    s.connect()
    try:
        resume(ctx, s, w, rng.choice(["c", "s", "c1000", "S05"]))
        for _ in range(rng.randrange(0, 4)):
            k = rng.randrange(3)
            if k == 0 and how != "none":         # GDB changes a fault register
                a = rng.choice([oracle.CFSR, oracle.HFSR, oracle.MMFAR, oracle.BFAR])
                v = rng.getrandbits(32)
                want = w.mem.write(a, struct.pack("<I", v))
                if w.mem.find(a, 4)[0] is None and w.mem.mapped(a):
                    want = [b"E03"]
                got = s.command(b"M%x,4:" % a + struct.pack("<I", v).hex().encode())
                ctx.check(got in want, "write-reply", lambda: "write 0x%x: %r" % (a, got))
            elif k == 1:
                world.read_check(ctx, s, w.mem, rng.choice([BASE, BASE + 8, BASE + 13, BASE - 4, BASE + 32]), rng.choice([1, 4, 32]))
            resume(ctx, s, w, rng.choice(["c", "s"]))
        if idx % 100 == 17:
            for _ in range(rng.choice([64, 128, 256, 300])):
                resume(ctx, s, w, "c")
        world.finish(ctx, s)
    finally:
        s.kill()
    c, h = oracle.word(w.mem, oracle.CFSR), oracle.word(w.mem, oracle.HFSR)
    ctx.sig(exc, how, c is None, h is None)
    for b in range(32):
        if c is not None and c >> b & 1:
            ctx.sig("cfsr", exc, b, h is not None and h >> 30)
        if h is not None and h >> b & 1:
            ctx.sig("hfsr", exc, b)
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc, "console": ctx.log[-1]}
