"""The target interface itself: any sequence of monitor calls is answered from the dump, whatever monitor makes them."""
import struct, xml.etree.ElementTree as ET
import driver, c13, c14, c24, formats, rsp, world, oracle

PID, LEVEL = "C26", "exploration"
BUILDS = ["lifedrv"]
QUICK, THOROUGH = 2700, 12000
RULE = ("each case loads 1-3 random dumps in one process and makes 60-250 calls of the target interface in random order, most of them "
        "at or around the edges of memory, including calls the monitor stand-in never makes and bursts of up to 2^24 calls; results, fault indications, register blocks, "
        "stop reports, console text and both XML documents are compared with the model, and all registers and memory are compared "
        "after each dump; a situation is (previous call, call, outcome) and counts when compared")
ASSUMPTIONS = ["a halfword/word access across two adjacent regions is left out",
               "buffer and packet functions come from a small stand-in for the absent mri submodule (stubs/mri_core.c)"]
M32 = 0xFFFFFFFF


class Calls(c24.Life):
    def p(self, *words):
        v, e = self.d.op("p", *words)
        self.ctx.check(e is None, "throws", lambda: "%r threw mriMax+%s" % (words, e))
        return v

    def note(self, call, outcome):
        self.ctx.sig(self.last, call, outcome)
        self.ctx.count("calls")
        self.last = call

    def addr(self):
        rng = self.rng
        live = [r for r in self.w.mem.regions if r.size]
        if rng.randrange(2) and live:
            r = rng.choice(live)
            a = r.base + rng.choice([0, r.size - 1, rng.randrange(r.size), max(0, r.size - 4), max(0, r.size - 2)])
        else:
            a = next(iter(world.probes(self.w.mem, rng, 8)), 0)
        return min(a, M32)

    def span(self, a, n):
        """None when the outcome is unspecified, else (region, offset) or False."""
        if a + n > world.TOP:
            return None
        r, off = self.w.mem.find(a, n)
        if r is not None:
            return r, off
        if all(self.w.mem.mapped(a + i) for i in range(n)):
            return None
        return False

    def c_read(self):
        n, a = self.rng.choice([1, 2, 4]), self.addr()
        if self.rng.randrange(2):
            a -= a % n
        at = self.span(a, n)
        if at is None:
            return
        v = self.p("r%d" % n, a)
        if at:
            want = int.from_bytes(at[0].data[at[1]:at[1] + n], "little")
            self.ctx.check(int(v, 16) == want, "read", lambda: "read of %d at 0x%x: %s, expected %x" % (n, a, v, want))
        else:
            self.faults = True
        self.note("read%d" % n, (bool(at), at and at[0].ro, a % 4))

    def c_write(self):
        rng = self.rng
        n, a = rng.choice([1, 2, 4]), self.addr()
        if rng.randrange(2):
            a -= a % n
        at = self.span(a, n)
        if at is None:
            return
        v = rng.choice([rng.getrandbits(8 * n), 0, (1 << 8 * n) - 1])
        self.p("w%d" % n, a, v)
        ok = at and not at[0].ro
        if ok:
            at[0].data[at[1]:at[1] + n] = v.to_bytes(n, "little")
        else:
            self.faults = True
        if rng.randrange(2):
            self.c_fault()
        self.note("write%d" % n, (bool(at), bool(ok), a % 4))

    def c_fault(self):
        v = self.p("fault")
        self.ctx.check(v == "%d" % self.faults, "fault-indication", lambda: "fault indication is %s, expected %d" % (v, self.faults))
        self.note("fault", self.faults)
        self.faults = False

    def c_burst(self):
        """Accesses nobody asks the outcome of, hundreds of them or past a 16-bit count."""
        rng = self.rng
        n, a = rng.choice([1, 2, 4]), self.addr()
        at = self.span(a, n)
        if at is None:
            return
        times = rng.choice([128, 255, 256, 257, 512] + [65535, 65536, 131072] * (rng.randrange(8) == 0) + [1 << 20, 1 << 24] * (rng.randrange(400) == 0))
        times -= times % 256 == 0 and not at and self.faults        # with an earlier fault: exactly as many again
        w = rng.randrange(2)
        v = rng.getrandbits(8 * n)
        _, e, threw = self.d.rep(times, "p", "%s%d" % ("w" if w else "r", n), a, *([v] if w else []))
        self.ctx.check(e is None and not threw, "throws", lambda: "an access at 0x%x threw" % a)
        if not at or (w and at[0].ro):
            self.faults = True
        elif w:
            at[0].data[at[1]:at[1] + n] = v.to_bytes(n, "little")
        self.ctx.count("accesses_in_bursts", times)
        self.note("burst", (times, w, bool(at)))
        self.c_fault()

    def full(self):
        return self.w.regs.g_bytes().hex()

    def c_get(self):
        want = self.full()
        n = self.rng.choice([len(want), len(want), len(want) + 1, len(want) + 100, self.rng.randrange(len(want))])
        v = self.p("ctx", n).split(" ")
        if n >= len(want):
            self.ctx.check(v[0] == "0" and v[1] == want, "registers", lambda: "register block %r, expected %s" % (v, want))
        else:
            self.ctx.check(v[0] == "1", "overrun", "a register block fits into a buffer too small for it")
        self.note("get", n >= len(want))

    def c_t(self):
        want = oracle.t_registers(self.w.regs).decode()
        n = self.rng.choice([len(want), len(want) + 7, self.rng.randrange(len(want))])
        v = self.p("t", n).split(" ")
        self.ctx.check(v == (["0", want] if n >= len(want) else ["1", ""]), "stop-registers", lambda: "%r, expected %r" % (v, want))
        self.note("t", n >= len(want))

    def c_set(self):
        rg, rng = self.w.regs, self.rng
        for i in range(19):
            if rng.randrange(2):
                rg.r[i] = rng.getrandbits(32)
        if rg.fp is not None:
            for i in range(33):
                if rng.randrange(2):
                    rg.fp[i] = rng.getrandbits(32)
        more = rng.choice([0, 0, 0, 1, 8])
        t = self.full()
        if rng.randrange(3) == 0:
            t = t.upper()
        v = self.p("set", (t + "0" * more).encode().hex()).split()
        self.ctx.check(v[0] == "0" and int(v[1], 16) == more, "register-write", lambda: "reading a full register block: %r" % v)
        self.note("set", more)

    def c_cause(self):
        v = int(self.p("cause"), 16)
        want = oracle.signals(self.w.regs.exc)
        self.ctx.check(v in want, "cause", lambda: "cause 0x%x, expected one of %r" % (v, want))
        self.note("cause", v)

    def c_why(self):
        out = bytes.fromhex(self.p("why"))
        text, i = "", 0
        while i < len(out):
            j = out.find(b"#", i)
            self.ctx.check(out[i:i + 2] == b"$O" and j > 0, "console", lambda: "sent %r" % out[i:i + 80])
            text += bytes.fromhex(out[i + 2:j].decode()).decode("latin-1")
            i = j + 3
        want = oracle.console(self.w.mem, self.w.regs.exc)
        self.ctx.check(text == want, "fault-text", lambda: "console shows %r, expected %r" % (text, want))
        self.note("why", want[:8])

    def c_xml(self):
        k = self.rng.randrange(2)
        x = bytes.fromhex(self.d.op("xml", "map" if k else "target")[0])
        if k:
            got = c14.parse(self.ctx, x)
            for t, ro in (("ram", False), ("flash", True)):
                want = c14.union([(r.base, r.base + r.size) for r in self.w.mem.regions if r.ro == ro])
                self.ctx.check(c14.union(got[t]) == want, "map", lambda: "%s: map has %s, memory is %s" % (
                    t, ["0x%x-0x%x" % y for y in c14.union(got[t])], ["0x%x-0x%x" % y for y in want]))
        else:
            _, layout = c13.parse(self.ctx, x)
            c13.decode(self.ctx, layout, self.full().encode())
        self.faults = False             # the driver starts the platform anew for this
        self.note("xml", k)

    def c_buffer(self):
        n = int(self.p("buffer", self.rng.randrange(256)), 16)
        self.ctx.check(n >= len(self.full()) + 1, "packet-buffer", lambda: "the packet buffer has %d bytes, a register write needs %d" % (
            n, len(self.full()) + 1))
        self.note("buffer", 0)

    def c_break(self):
        k = self.rng.randrange(12)
        self.p("break", self.addr(), self.rng.choice([1, 2, 3, 4, 8, 0, 0x100]), k)
        self.note("break", k)

    def c_semihost(self):
        v = self.p("semihost", self.rng.getrandbits(32), self.rng.getrandbits(8))
        self.ctx.check(v == "0 0 0 0 0 0", "semihost", lambda: "semihost call made / handled / parameters: %s" % v)
        self.note("semihost", 0)

    def c_resume(self):
        k = self.rng.randrange(4)
        self.p("resume", self.addr(), k & 1, k >> 1)
        self.note("resume", k)

    def c_step(self):
        v = self.p("step", self.rng.randrange(2))
        self.ctx.check(v == "0", "step", "the dead target is said to be single stepping")
        self.note("step", 0)

    def c_debugger(self):
        v = self.p("debugger")
        self.ctx.check(v == "0 0", "debugger", lambda: "interrupt / sharing: %s" % v)
        self.note("debugger", 0)

    def c_init(self):
        self.p("init")
        self.faults = False
        self.note("init", 0)

    OPS = (["read"] * 8 + ["write"] * 5 + ["fault"] * 4 + ["get"] * 2 + ["set"] + ["t", "cause", "why", "xml", "buffer"] + ["break"] * 3 +
           ["semihost", "resume", "resume", "step", "debugger", "init"])

    def special(self):
        """pc at an instruction a monitor would treat specially."""
        live = [r for r in self.w.mem.regions if r.size >= 4 and not r.ro]
        if live:
            r = self.rng.choice(live)
            a = (r.base + self.rng.randrange(r.size - 3) + 1) & ~1
            v = self.rng.choice([0xBE00, 0xBEAB, 0xBE01, 0xDFAB, 0xDE00, 0xE7FE])
            if self.span(a, 2):
                t, off = self.w.mem.find(a, 2)
                if not t.ro:
                    self.p("w2", a, v)
                    t.data[off:off + 2] = struct.pack("<H", v)
                    self.w.regs.r[15] = a
                    self.p("set", self.full().encode().hex())
                    self.ctx.count("special_instructions")

    def life(self, fault):
        rng = self.rng
        kw = {}
        if fault:
            regs = formats.Regs(rng, bool(rng.randrange(2)))
            regs.exc = rng.choice([3, 4, 5, 6]) | (rng.getrandbits(23) << 9)
            n = rng.choice([20, 20, 16, 8, 4])
            kw = dict(dump=rng.choice(["bin3", "hex3", "bin2"]), regs=regs, fp=regs.fp is not None,
                      fault=[(oracle.CFSR, bytes(rng.getrandbits(8) & rng.getrandbits(8) for _ in range(n)))])
        w = self.w = world.gen_world(rng, aliases=rng.choice([0, 0, 1, 2]), big=300, **kw)
        self.n += 1
        names = {k: "%d_%s" % (self.n, k) for k in w.files}
        w.files = {names[k]: v for k, v in w.files.items()}
        w.args = [names.get(a, a) for a in w.args]
        w.write(self.ctx)
        v, e = self.load(w.args)
        self.ctx.check(e is None and v == "1", "load", lambda: "a valid load threw mriMax+%s" % e)
        self.d.op("talk", (b"+" + rsp.frame(b"?") + b"+").hex())       # connects, then the input ends
        self.faults, self.last = False, None
        self.p("init")
        for _ in range(rng.randrange(60, 250)):
            if rng.randrange(150) == 0:
                self.c_burst()
            if rng.randrange(40) == 0:
                self.special()
            getattr(self, "c_" + rng.choice(self.OPS))()
        self.c_fault()
        self.check(w)
        self.unload()


def case(ctx, rng, idx):
    l = Calls(ctx, rng)
    try:
        for k in range(rng.randrange(1, 4)):
            l.life((idx + k) % 2)
        l.d.close()
    finally:
        l.d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": [x[:200] for x in ctx.log[-10:]]}
