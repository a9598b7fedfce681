"""Post-mortem immutability: continue, step, breakpoints and queries never change memory or registers."""
import world, convo, oracle

PID, LEVEL = "C10", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 3000, 40000
RULE = ("each case starts a random session, compares all registers and memory with the dump, sends 30-120 commands which must not "
        "change the crashed program (continue/step with and without addresses or signals, set/clear breakpoints and "
        "watchpoints of every kind on RAM, FLASH and unmapped memory, with pc at BKPT and other special instructions, queries, stop-reason, refused writes, bad packets) mixed with a few "
        "successful writes, checks each reply and the stop report after every resume, and compares all registers and memory with the model "
        "again; a situation is (previous operation, operation, outcome) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)"]
W = dict(resume=8, stop=2, softbreak=2, map=1, target=1, unknown=2, readbad=1, read=1, writeflash=2, writebad=1, write=1, setregs=1, special=1,
         regs=2, audit=1, malformed=2, **{"break": 8})


class C(convo.Convo):
    def op_malformed(self):
        """Commands with missing or bad arguments: an error reply, and nothing else."""
        c = self.rng.choice(["m", "m1000", "m1000,", "mzz,4", "M1000", "M20000000,4", "M20000000,4:11", "X20000000,4", "Z", "Z1", "Z1,",
                             "z2,zz,4", "Z9,1000,4", "C", "Czz", "S", "qXfer", "qXfer:memory-map", "qXfer:memory-map:read:",
                             "qXfer:features:read:other.xml:0,10", "m20000000,0"])
        if c.startswith("M20000000,4:11") and self.w.mem.mapped(0x20000000):
            return
        got = self.s.command(c)
        self.ctx.trace(c, got.decode("latin-1"))
        self.ctx.check(got[:1] == b"E" or got == b"", "malformed", lambda: "%s: %r" % (c, got[:60]))
        self.note("malformed", c)


def case(ctx, rng, idx):
    w, s = world.start(ctx, rng, aliases=rng.choice([0, 0, 1, 2]), bkpt=idx % 3 == 0)
    if idx % 2 and w.dump_kind != "log":
        s.kill()
        w, s = scb(ctx, rng)
    try:
        world.audit(ctx, s, w.mem)
        world.check_registers(ctx, s, w)
        c = C(ctx, rng, w, s, W)
        c.run(rng.randrange(30, 120))
        if idx % 60 == 17:
            c.burst(rng.choice([127, 128, 255, 256, 257, 300]))
            c.run(20)
        elif idx in (5, 6):             # past a 16-bit count
            c.burst(rng.randrange(65534, 65540), ["break", "unbreak"][idx % 2])
            c.run(20)
        world.audit(ctx, s, w.mem)
        world.check_registers(ctx, s, w)
        c.op_stop()
        world.finish(ctx, s)
    finally:
        s.kill()
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc, "commands": ctx.log[-12:]}


def scb(ctx, rng):
    """A dump which holds the fault status registers, with a fault exception."""
    import formats as F
    regs = F.Regs(rng, bool(rng.randrange(2)))
    regs.exc = rng.choice([3, 3, 4, 5, 6]) | (rng.getrandbits(23) << 9)
    return world.start(ctx, rng, dump=rng.choice(["bin3", "hex3", "bin2"]), regs=regs, fp=regs.fp is not None,
                       fault=[(oracle.CFSR, bytes(rng.getrandbits(8) for _ in range(20)))])
