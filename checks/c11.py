"""The stop report names the signal of the exception that was executing, with the current r12, sp, lr and pc."""
import re
import world, convo, oracle, formats as F

PID, LEVEL = "C11", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 6000, 30000
RULE = ("cases 0-511 of every run take each exception number once (the rest repeat them at random) with random other PSR bits, dump "
        "formats and registers; the stop report is read at connection, after register writes and after resumes of every form, and "
        "compared with the signal table of the ARMv7-M exceptions in GDB's numbering and with the model's registers; a situation is "
        "(exception, dump format, how asked, signal seen) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "the exception number is the low 9 bits of the exception PSR"]
T = re.compile(rb"^T([0-9a-f]{2})((?:[0-9a-f]{2}:[0-9a-f]{8};)*)$")


def check_stop(ctx, reply, regs, how):
    m = T.match(reply)
    ctx.check(m is not None, "stop-format", lambda: "%s: %r" % (how, reply[:100]))
    got = int(m.group(1), 16)
    want, host = oracle.signals(regs.exc)
    n = regs.exc & 0x1FF
    if got != want and got == host:
        key = "signal-busfault-07" if n == 5 else "signal-default-13"
        ctx.fail(key, "%s: exception %d is reported as signal 0x%02x, GDB's number is 0x%02x" % (how, n, got, want))
    else:
        ctx.check(got == want, "signal", lambda: "%s: exception %d is reported as signal 0x%02x, expected 0x%02x" % (how, n, got, want))
    ctx.check(m.group(2) == oracle.t_registers(regs), "stop-registers", lambda: "%s: %r, expected %r" % (how, m.group(2), oracle.t_registers(regs)))
    ctx.count("stop_reports")
    return got


def case(ctx, rng, idx):
    n = idx if idx < 512 else rng.choice([2, 3, 4, 5, 6, 12, rng.randrange(512), 256 + rng.choice([2, 3, 4, 5, 6, 12])])
    kind = ["bin3", "hex3", "bin2", "hex2", "log"][(idx + idx // 512) % 5]
    regs = F.Regs(rng, bool(rng.randrange(2)))
    regs.exc = n | rng.choice([0, 0x01000000, rng.getrandbits(23) << 9, 0xFFFFFE00])
    w, s = world.start(ctx, rng, dump=kind, regs=regs, fp=regs.fp is not None, nreg=rng.choice([0, 1, 2]))
    try:
        for _ in range(rng.randrange(2, 7)):
            k = rng.randrange(4)
            if k == 0:
                r = rng.choice(["?", "?"])
                got = check_stop(ctx, s.command(r), w.regs, "?")
            elif k == 1:
                cmd = rng.choice(["c", "s", "C05", "S0b;1000", "c20000000"])
                _, r = s.resume(cmd)
                got = check_stop(ctx, r, w.regs, cmd)
            else:
                for i in rng.sample(range(19), rng.randrange(1, 8)):
                    w.regs.r[i] = rng.getrandbits(32)
                ctx.check(s.command(b"G" + w.regs.g_bytes().hex().encode()) == b"OK", "register-write", "G refused")
                got = check_stop(ctx, s.command("?"), w.regs, "? after G")
            ctx.sig(w.regs.exc & 0x1FF, kind, k, got)
        if idx % 100 == 17:
            for i in range(rng.choice([128, 256, 300])):
                got = check_stop(ctx, s.resume("c")[1] if i % 3 else s.command("?"), w.regs, "stop report %d" % i)
        got = check_stop(ctx, s.command("?"), w.regs, "?")
        _, r = s.resume("c")
        check_stop(ctx, r, w.regs, "c")
        world.finish(ctx, s)
    finally:
        s.kill()
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "exception": n, "signal": got}
