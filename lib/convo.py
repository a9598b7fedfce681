"""Model-checked conversations: random GDB commands against the program, every reply predicted by the model."""
import struct
import world, oracle
from world import TOP

KNOWN_SAFE_Q = [b"qC", b"qOffsets", b"qSymbol::", b"qTStatus", b"qfThreadInfo", b"vCont?", b"Hg0", b"Hc-1", b"qAttached",
                b"D", b"k1", b"vMustReplyEmpty", b"QStartNoAckMode", b"!", b"T1", b"X", b"P0=0", b"p0"]


def escape(data):
    out = bytearray()
    for b in data:
        if b in (0x23, 0x24, 0x7D, 0x2A):
            out += bytes([0x7D, b ^ 0x20])
        else:
            out.append(b)
    return bytes(out)


class Convo:
    """weights: operation name -> weight."""

    def __init__(self, ctx, rng, w, s, weights):
        self.ctx, self.rng, self.w, self.s = ctx, rng, w, s
        self.ops = [k for k, n in weights.items() for _ in range(n)]
        self.prev = None
        self.faulted = False

    def addr(self):
        rng, mem = self.rng, self.w.mem
        k = rng.randrange(10)
        live = [r for r in mem.regions if r.size]
        if k < 5 and live:
            r = rng.choice(live)
            return r.base + rng.randrange(r.size)
        return next(iter(world.probes(mem, rng, 8)), 0)

    def length(self):
        return self.rng.choice([1, 1, 2, 2, 4, 4, 4, 3, 5, 8, 16, self.rng.randrange(1, 200)])

    def run(self, n):
        for _ in range(n):
            op = self.rng.choice(self.ops)
            getattr(self, "op_" + op)()
            self.ctx.count("commands")
            self.prev = op

    def note(self, op, outcome):
        self.ctx.sig(self.prev, op, outcome)

    # -- operations ----------------------------------------------------------------------------------------
    def op_read(self):
        a = self.addr()
        got = world.read_check(self.ctx, self.s, self.w.mem, a, self.length())
        self.note("read", got == b"E03")

    def op_readbad(self):
        """Reads at an address nothing is mapped at."""
        for _ in range(20):
            a = next(iter(world.probes(self.w.mem, self.rng, 8)), 0)
            if not self.w.mem.mapped(a):
                n = min(self.length(), TOP - a)
                got = self.s.read_mem(a, n)
                self.ctx.trace("m%x,%x" % (a, n), got[:40].decode("latin-1"))
                self.ctx.check(got == b"E03", "unmapped-read", lambda: "m%x,%x of unmapped memory: %r" % (a, n, got[:80]))
                self.ctx.count("unmapped_reads")
                self.note("readbad", n if n < 5 else 5)
                return

    def op_readedge(self):
        """A read which starts in a region and runs past its end."""
        live = [r for r in self.w.mem.regions if r.size]
        if not live:
            return
        r = self.rng.choice(live)
        k = min(r.size, self.rng.choice([1, 2, 3, 4, 7]))
        a = r.base + r.size - k
        got = world.read_check(self.ctx, self.s, self.w.mem, a, k + self.rng.choice([1, 2, 3, 4, 9]))
        self.ctx.count("edge_reads")
        self.note("readedge", (k, len(got) // 2))

    def write_at(self, a, data):
        rng, mem = self.rng, self.w.mem
        n = len(data)
        if mem.wide(a, n) and mem.find(a, n)[0] is None and all(mem.mapped(a + i) for i in range(n)):
            return None                       # one halfword/word across two regions: unspecified
        want = mem.write(a, data)
        if rng.randrange(3) == 0:
            cmd = b"X%x,%x:" % (a, n) + escape(data)
        else:
            cmd = b"M%x,%x:" % (a, n) + data.hex().encode()
        got = self.s.command(cmd)
        self.ctx.trace(cmd[:60].decode("latin-1"), got[:40].decode("latin-1"))
        self.ctx.check(got in want, "write-reply", lambda: "%r: got %r, expected %r" % (cmd[:80], got[:40], want))
        self.ctx.count("writes_ok" if want == [b"OK"] else "writes_refused")
        return want[0]

    def op_write(self):
        a = self.addr()
        n = min(self.length(), TOP - a)
        r = self.write_at(a, world.rand_bytes(self.rng, n))
        for _ in range(2):
            b = max(0, min(TOP - 1, a + self.rng.choice([-4, -2, -1, 0, 1, n - 1, n, n + 1])))
            world.read_check(self.ctx, self.s, self.w.mem, b, self.rng.choice([1, 2, 4, 8]))
        for g in self.w.mem.regions:          # where a narrow offset would have put it
            if g.size > 65536 and g.base <= a < g.base + g.size:
                for k in range(16, g.size.bit_length()):
                    world.read_check(self.ctx, self.s, self.w.mem, g.base + ((a - g.base) & ((1 << k) - 1)), 1)
        self.note("write", r)

    def op_writeflash(self):
        ro = [r for r in self.w.mem.regions if r.ro and r.size]
        if not ro:
            return
        r = self.rng.choice(ro)
        off = self.rng.choice([0, r.size - 1, self.rng.randrange(r.size)])
        a = r.base + off
        n = min(self.length(), TOP - a)
        self.write_at(a, world.rand_bytes(self.rng, n))
        world.read_check(self.ctx, self.s, self.w.mem, a, self.rng.choice([1, 2, 4, 8]))
        self.ctx.count("flash_writes_attempted")
        self.note("writeflash", (n if n < 5 else 5, a % 4))

    def op_writebad(self):
        for _ in range(20):
            a = next(iter(world.probes(self.w.mem, self.rng, 8)), 0)
            if not self.w.mem.mapped(a):
                n = min(self.length(), TOP - a)
                self.write_at(a, world.rand_bytes(self.rng, n))
                self.ctx.count("unmapped_writes")
                self.note("writebad", n if n < 5 else 5)
                return

    def op_regs(self):
        world.check_registers(self.ctx, self.s, self.w)
        self.note("regs", 0)

    def op_setregs(self):
        rg = self.w.regs
        for i in range(19):
            if self.rng.randrange(3):
                rg.r[i] = self.rng.getrandbits(32)
        if rg.fp is not None:
            for i in range(33):
                if self.rng.randrange(2):
                    rg.fp[i] = self.rng.getrandbits(32)
        got = self.s.command(b"G" + rg.g_bytes().hex().encode())
        self.ctx.check(got == b"OK", "register-write", lambda: "G: %r" % got[:40])
        self.ctx.count("register_writes")
        self.note("setregs", 0)

    def op_special(self):
        """Moves pc to an instruction a debugger treats specially (BKPT, semihosting, SVC, UDF), then resumes."""
        rng = self.rng
        live = [r for r in self.w.mem.regions if r.size >= 4 and not r.ro]
        if not live:
            return
        r = rng.choice(live)
        a = (r.base + rng.randrange(r.size - 3) + 1) & ~1
        code = rng.choice([0xBE00, 0xBEAB, 0xBEFF, 0xBE01, 0xDFAB, 0xDF00, 0xDE00, 0xE7FE, 0xBF00])
        if self.write_at(a, struct.pack("<H", code)) != b"OK":
            return
        self.w.regs.r[15] = a
        got = self.s.command(b"G" + self.w.regs.g_bytes().hex().encode())
        self.ctx.check(got == b"OK", "register-write", lambda: "G: %r" % got[:40])
        self.op_resume()
        self.op_regs()
        world.read_check(self.ctx, self.s, self.w.mem, a, 2)
        self.ctx.count("resumes_at_special_instructions")
        self.note("special", code)

    def op_stop(self):
        got = self.s.command("?")
        self.ctx.check(oracle.stop_ok(got, self.w.regs), "stop-reply", lambda: "?: got %r, expected %r with registers %r" % (
            got, ["T%02x" % x for x in oracle.signals(self.w.regs.exc)], oracle.t_registers(self.w.regs)))
        self.note("stop", 0)

    def op_break(self):
        rng = self.rng
        t = rng.choice("1234")
        cmd = "%s%s,%x,%x" % (rng.choice("Zz"), t, self.addr(), rng.choice([1, 2, 2, 3, 4, 8]))
        got = self.s.command(cmd)
        self.ctx.trace(cmd, got.decode("latin-1"))
        self.ctx.check(got == b"OK", "breakpoint-reply", lambda: "%s: %r" % (cmd, got[:40]))
        self.ctx.count("breakpoint_commands")
        self.note("break" + cmd[:2], 0)

    def op_softbreak(self):
        cmd = "%s0,%x,2" % (self.rng.choice("Zz"), self.addr())
        got = self.s.command(cmd)
        self.ctx.check(got == b"", "breakpoint-reply", lambda: "%s: %r" % (cmd, got[:40]))
        self.note("softbreak", 0)

    def op_resume(self):
        rng = self.rng
        k = rng.randrange(6)
        cmd = ["c", "s", "c%x" % self.addr(), "s%x" % self.addr(), "C%02x" % rng.randrange(1, 32),
               "S%02x;%x" % (rng.randrange(1, 32), self.addr())][k]
        texts, r = self.s.resume(cmd)
        text = "".join(texts)
        self.ctx.trace(cmd, text[:100], r.decode("latin-1"))
        want = oracle.console(self.w.mem, self.w.regs.exc)
        self.ctx.check(text == want, "fault-text", lambda: "%s: console shows %r, expected %r" % (cmd, text, want))
        self.ctx.check(oracle.stop_ok(r, self.w.regs), "stop-reply", lambda: "%s: stop reply %r, expected %r with %r" % (
            cmd, r, ["T%02x" % x for x in oracle.signals(self.w.regs.exc)], oracle.t_registers(self.w.regs)))
        self.ctx.count("resumes")
        self.note("resume%d" % k, want[:6])

    def op_unknown(self):
        c = self.rng.choice(KNOWN_SAFE_Q[:-3])
        if c == b"X":
            return
        got = self.s.command(c)
        self.ctx.check(got == b"", "unknown-command", lambda: "%r: %r" % (c, got[:40]))
        self.note("unknown", c)

    def op_map(self):
        self.s.xfer("memory-map:read:", self.rng.choice([0x40, 0x200, 0xFFF]))
        self.note("map", 0)

    def op_target(self):
        self.s.xfer("features:read:target.xml", self.rng.choice([0x40, 0x200, 0xFFF]))
        self.note("target", 0)

    def burst(self, n, what=None):
        """One command n times, as a debugger which polls does: every reply is the same."""
        rng = self.rng
        what = what or rng.choice(["readbad", "writebad", "stop", "break", "unbreak", "resume", "regs", "unknown", "target"])
        bad = next((a for a in world.probes(self.w.mem, rng, 60) if not self.w.mem.mapped(a) and a + 1 < TOP), None)
        at = [self.addr() for _ in range(min(n, 300))]
        for i in range(n):
            if what in ("readbad", "writebad"):
                if bad is None:
                    return
                cmd, want = (b"m%x,1" % bad if what == "readbad" else b"M%x,1:5a" % bad), [b"E03"]
            elif what == "stop":
                cmd, want = b"?", [b"T%02x" % x + oracle.t_registers(self.w.regs) for x in oracle.signals(self.w.regs.exc)]
            elif what in ("break", "unbreak"):
                cmd, want = b"%s%d,%x,%x" % (b"Z" if what == "break" else b"z", 1 + i % 4, at[i % len(at)], 2), [b"OK"]
            elif what == "regs":
                cmd, want = b"g", [self.w.regs.g_bytes().hex().encode()]
            elif what == "target":
                cmd, want = b"qXfer:features:read:target.xml:0,8", [b"m<?xml ve"]
            elif what == "unknown":
                cmd, want = b"qC", [b""]
            else:
                self.op_resume()
                continue
            got = self.s.command(cmd)
            self.ctx.check(got in want, "burst", lambda: "%r for the %dth time: %r, expected %r" % (cmd, i + 1, got[:60], want[0][:60]))
        self.ctx.trace("burst", what, n)
        self.ctx.count("commands_in_bursts", n)
        self.note("burst-" + what, n)

    def op_audit(self):
        if sum(r.size for r in self.w.mem.regions) < 20000:
            world.audit(self.ctx, self.s, self.w.mem)
            self.note("audit", 0)
