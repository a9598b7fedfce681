"""Loading and unloading crash dumps repeatedly in one process: every load starts afresh, every unload or failure releases everything."""
import xml.etree.ElementTree as ET
import driver, c14, formats, rsp, world, oracle

PID, LEVEL = "C24", "exploration"
BUILDS = ["lifedrv"]
QUICK, THOROUGH = 2800, 10000
RULE = ("each case drives 4-10 loads in one process through the public API, on struct memory filled with garbage: valid worlds (often at the same "
        "addresses as earlier ones), refused command lines, damaged files and injected allocation/file faults in random order; after each successful load "
        "registers, flags and all memory are compared with the model, a GDB conversation over an in-memory connection is compared with its "
        "prediction and memory is written to; after each failure or unload the numbers of live allocations and open files must be back at their "
        "start; a situation is (previous load, load, outcome, dump kind) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)"]


class Life:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.d = driver.Driver(ctx, "lifedrv", env={"LC_ALL": "C"})
        self.base = self.d.op("live")[0]
        self.prev = None
        self.n = 0

    def clean(self, what):
        v, _ = self.d.op("live")
        self.ctx.check(v == self.base, "leak", lambda: "%s: (allocations, open files, bad closes) is (%s), was (%s)" % (what, v, self.base))

    def load(self, args):
        return self.d.op("init", *[a.encode("latin-1").hex() or "-" for a in args])

    def world(self):
        w = world.gen_world(self.rng, aliases=self.rng.choice([0, 0, 1, 2]), big=300)
        self.n += 1
        # a fresh name for each life
        names = {k: "%d_%s" % (self.n, k) for k in w.files}
        w.files = {names[k]: v for k, v in w.files.items()}
        w.args = [names.get(a, a) for a in w.args]
        w.write(self.ctx)
        return w

    def good(self):
        w = self.world()
        v, e = self.load(w.args)
        self.ctx.check(e is None and v == "1", "load", lambda: "a valid load threw mriMax+%s after %s" % (e, self.prev))
        self.check(w)
        if self.rng.randrange(2):
            self.scribble(w)
            self.check_memory(w)
        if self.rng.randrange(3):
            self.talk(w)
        self.ctx.sig(self.prev, "good", w.dump_kind, w.regs.fp is not None)
        self.prev = "good"
        self.unload()

    def unload(self):
        _, e = self.d.op("uninit")
        self.ctx.check(e is None, "unload", "unloading threw")
        self.clean("after unloading")
        self.ctx.count("lives")

    def check(self, w):
        v, _ = self.d.op("regs")
        flags, exc, r, fpr = v.split()
        want = w.regs.g_bytes().hex()
        n = 19 * 8
        self.ctx.check(int(exc, 16) == w.regs.exc, "registers", lambda: "exception PSR %s, expected %x" % (exc, w.regs.exc))
        self.ctx.check(r == want[:n], "registers", lambda: "registers %s, expected %s" % (r, want[:n]))
        self.ctx.check((int(flags, 16) & 1) == (w.regs.fp is not None), "registers", lambda: "flags %s" % flags)
        if w.regs.fp is not None:
            self.ctx.check(fpr == want[n:], "registers", lambda: "floating point registers %s, expected %s" % (fpr, want[n:]))
        self.ctx.count("register_sets")
        self.check_memory(w)
        if self.rng.randrange(2):
            self.check_xml(w)

    def check_xml(self, w):
        """The descriptions GDB is given are those of this dump, not of an earlier one."""
        v, e = self.d.op("xml", "target")
        x = bytes.fromhex(v)
        try:
            names = [r.get("name") for r in ET.fromstring(x).iter("reg")]
        except ET.ParseError:
            names = None
        fp = w.regs.fp is not None
        self.ctx.check(names is not None and ("fpscr" in names) == fp and len(names) == (36 if fp else 19), "target-xml",
                       lambda: "%d register names for fp=%d (after %s): %r" % (len(names or []), fp, self.prev, x[-200:]))
        v, e = self.d.op("xml", "map")
        got = c14.parse(self.ctx, bytes.fromhex(v))
        for t, ro in (("ram", False), ("flash", True)):
            want = c14.union([(r.base, r.base + r.size) for r in w.mem.regions if r.ro == ro])
            self.ctx.check(c14.union(got[t]) == want, "map", lambda: "%s after %s: map has %s, memory is %s" % (
                t, self.prev, ["0x%x-0x%x" % y for y in c14.union(got[t])], ["0x%x-0x%x" % y for y in want]))
        self.ctx.count("descriptions")

    def check_memory(self, w):
        for r in w.mem.regions:
            if r.size:
                v, e = self.d.op("read", r.base, r.size)
                want = bytes(w.mem.get(r.base + i) for i in range(r.size)).hex()
                self.ctx.check(v == want, "memory", lambda: "0x%x+0x%x (after %s): %s, expected %s" % (
                    r.base, r.size, self.prev, "exception" if v is None else v[:200], want[:200]))
                self.ctx.count("bytes_compared", r.size)
        for a in world.probes(w.mem, self.rng, 12):
            v, e = self.d.op("read", a, 1)
            b = w.mem.get(a)
            self.ctx.check((v is None) == (b is None), "stale-memory", lambda: "0x%x: %s" % (a, "readable" if v else "not readable"))
            self.ctx.count("probes")

    def scribble(self, w):
        for _ in range(self.rng.randrange(1, 10)):
            a = next(iter(world.probes(w.mem, self.rng, 6)), 0)
            b = self.rng.getrandbits(8)
            ok = w.mem.write(a, bytes([b])) == [b"OK"]
            _, e = self.d.op("write", a, b)
            self.ctx.check((e is None) == ok, "write", lambda: "write to 0x%x: %s" % (a, "done" if e is None else "refused"))

    def talk(self, w):
        """A GDB session over an in-memory connection, replies predicted."""
        rng = self.rng
        wait = rng.randrange(4) != 0
        self.d.op("wait", int(wait))
        want, send = b"", b""
        t = [b"T%02x" % s + oracle.t_registers(w.regs) for s in oracle.signals(w.regs.exc)]
        if wait:
            send += b"+"
        else:                       # reports the stop on its own: the fault text and a T packet
            text = oracle.console(w.mem, w.regs.exc)
            if text:
                return              # how the text is cut into packets is not specified; C12 decides it
            want += b"\x01"
            send += b"+"
        for _ in range(rng.randrange(1, 8)):
            k = rng.randrange(4)
            if k == 0:
                c, r = b"?", b"\x01"
            elif k == 1:
                c, r = b"g", rsp.frame(w.regs.g_bytes().hex())
            else:
                a = next(iter(world.probes(w.mem, rng, 6)), 0)
                n = min(rng.choice([1, 2, 4, 5, 16]), world.TOP - a)
                x = w.mem.read(a, n)
                if len(x) > 1:
                    continue
                c, r = b"m%x,%x" % (a, n), rsp.frame(x[0])
            send += rsp.frame(c) + b"+"
            want += b"+" + r
        v, e = self.d.op("talk", send.hex())
        code, used, out = (v + " ").split(" ")[:3]
        self.ctx.check(int(used, 16) == len(send), "talk", lambda: "%s of %d bytes were read" % (used, len(send)))
        got = bytes.fromhex(out)
        self.ctx.check(any(got == want.replace(b"\x01", rsp.frame(x)) for x in t), "talk", lambda: "sent %r\ngot %r\nexpected %r" % (
            send, got[:600], want.replace(b"\x01", rsp.frame(t[0]))[:600]))
        self.ctx.count("conversations")
        self.d.op("wait", 1)

    def bad(self):
        """A load that must be refused."""
        rng = self.rng
        w = self.world()
        k = rng.randrange(6)
        what = ["no-args", "missing-file", "bad-option", "truncated-dump", "bad-image", "bad-alias"][k]
        args = list(w.args)
        if k == 0:
            args = []
        elif k == 1:
            i = rng.choice([i for i, a in enumerate(args) if a in w.files])
            args[i] = "missing"
        elif k == 2:
            args.insert(rng.randrange(0, 2) * len(args), rng.choice(["x", "--nope", "-e"]))
        elif k == 3:
            if w.dump_kind == "log" or not w.regions or not w.regions[-1][1]:
                return
            name = [n for n in w.files if n.endswith(w.dump_name)][0]
            data = w.files[name]
            cut = rng.randrange(1, len(w.regions[-1][1]) + 1) if w.dump_kind[:3] == "bin" else None
            if cut is None:
                return
            self.ctx.file(name, data[:-cut])
        elif k == 4:
            if w.img_args[0] != "--elf":
                return
            name = [n for n in w.files if n.endswith(".elf")][0]
            self.ctx.file(name, w.files[name][:rng.randrange(0, 52)])
        else:
            a = next((a for a in world.probes(w.mem, rng, 10) if not w.mem.mapped(a)), None)
            if a is None:
                return
            args += ["--alias", "0x77000000", "16", "0x%x" % a]
        v, e = self.load(args)
        self.ctx.check(e is not None, "accepted", lambda: "%s: accepted" % what)
        self.after_failure(what)
        self.ctx.sig(self.prev, what, e)
        self.prev = what

    def quick(self, i):
        """A small world, over and over."""
        if i % 20 == 0:
            w = self.small = world.gen_world(self.rng, aliases=self.rng.choice([0, 1]), nreg=1, nseg=1, big=24)
            self.n += 1
            names = {k: "%d_%s" % (self.n, k) for k in w.files}
            w.files = {names[k]: v for k, v in w.files.items()}
            w.args = [names.get(a, a) for a in w.args]
            w.write(self.ctx)
        v, e = self.load(self.small.args)
        self.ctx.check(e is None and v == "1", "load", lambda: "a valid load (number %d) threw mriMax+%s" % (i + 1, e))
        if i % 10 == 9:
            self.check(self.small)
        self.ctx.sig("quick", min(i, 257))
        self.unload()

    def after_failure(self, what):
        m, _ = self.d.op("memory")
        if self.rng.randrange(2):
            self.d.op("uninit")             # as main() does
        self.clean("after %s" % what)
        self.ctx.count("refusals")

    def fault(self):
        w = self.world()
        op = self.rng.choice(["malloc", "malloc", "realloc", "fopen", "fread", "fseek", "ftell", "fgets"])
        spec = "%s:%d" % (op, self.rng.choice([1, 2, 3, self.rng.randrange(1, 12), self.rng.randrange(1, 40)]))
        self.d.op("fault", spec)
        v, e = self.load(w.args)
        fired, _ = self.d.op("fired")
        if int(fired, 16) == 0:
            self.ctx.check(e is None, "load", lambda: "a valid load threw mriMax+%s after %s" % (e, self.prev))
            self.check(w)
            self.unload()
        elif e is None:
            # a failed read of a GDB log counts as its end: the recorded finding of C08; resources must be released all the same
            self.ctx.check(op == "fgets", "accepted", lambda: "%s: accepted" % spec)
            self.unload()
        else:
            self.after_failure(spec)
            self.ctx.count("faults_fired")
        self.ctx.sig(self.prev, op, e, int(fired, 16) > 0)
        self.prev = "fault-" + op


def case(ctx, rng, idx):
    l = Life(ctx, rng)
    try:
        if idx % 60 == 17:              # a long life
            for i in range(rng.choice([40, 130, 260, 300])):
                l.quick(i)
        for _ in range(rng.randrange(4, 10)):
            rng.choice([l.good, l.good, l.bad, l.fault])()
        l.good()
        l.d.close()
    finally:
        l.d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": [x[:200] for x in ctx.log[-10:]]}
