"""Random debugging worlds (image + crash dump + aliases) together with the model that predicts what GDB must see."""
import re, struct
import formats as F
import rsp

M32 = 0xFFFFFFFF
TOP = 1 << 32


class Region:
    __slots__ = ("base", "size", "data", "ro", "target", "delta", "what")

    def __init__(self, base, data, ro, what, target=None, delta=0, size=None):
        self.base, self.data, self.ro, self.what = base, data, ro, what
        self.target, self.delta = target, delta
        self.size = len(data) if size is None else size


class Mem:
    """What the simulated address space must contain. Regions are found in creation order."""

    def __init__(self):
        self.regions = []

    def add(self, base, data, ro, what):
        r = Region(base, bytearray(data), ro, what)
        self.regions.append(r)
        return r

    def find(self, a, n=1):
        for r in self.regions:
            if a >= r.base and a + n <= r.base + r.size:
                if r.target is not None:
                    return r.target, a - r.base + r.delta
                return r, a - r.base
        return None, 0

    def alias(self, base, redirect, size):
        t, off = self.find(redirect)
        if t is None:
            return None
        n = min(size, t.size - off)
        r = Region(base, None, t.ro, "alias", t, off, n)
        self.regions.append(r)
        return r

    def mapped(self, a):
        return self.find(a)[0] is not None

    def get(self, a):
        r, off = self.find(a)
        return None if r is None else r.data[off]

    def wide(self, a, n):
        """mri uses one 16/32-bit access for this request."""
        return (n == 2 and a % 2 == 0) or (n == 4 and a % 4 == 0)

    def read(self, a, n):
        """Expected reply to m a,n: a set of acceptable payloads."""
        out = bytearray()
        for i in range(n):
            b = self.get(a + i) if a + i < TOP else None
            if b is None:
                break
            out.append(b)
        if self.wide(a, n):
            if len(out) < n:
                return [b"E03"]
            if self.find(a, n)[0] is None:          # spans two regions: a halfword/word access may be refused
                return [b"E03", bytes(out).hex().encode()]
        if not out:
            return [b"E03"]
        return [bytes(out).hex().encode()]

    def write(self, a, data):
        """Applies M a,len:data; returns the acceptable replies."""
        n = len(data)
        if self.wide(a, n):
            r, off = self.find(a, n)
            if r is None or r.ro:
                return [b"E03"]
            r.data[off:off + n] = data
            return [b"OK"]
        for i in range(n):
            r, off = self.find(a + i) if a + i < TOP else (None, 0)
            if r is None or r.ro:
                return [b"E03"]
            r.data[off] = data[i]
        return [b"OK"]

    def snapshot(self):
        return [(r.base, bytes(r.data)) for r in self.regions if r.target is None]

    def edges(self):
        out = set()
        for r in self.regions:
            for e in (r.base, r.base + r.size):
                out.add(e)
        return sorted(out)


class Placer:
    """Hands out non-overlapping ranges, often adjacent to each other, at word boundaries or not, up to the very top."""
    BASES = [0, 0x1000, 0xACCE55ED, 0x08000000, 0x10000000, 0x1FFF0000, 0x20000000, 0x2007C000, 0x7FFFFFF0, 0x80000000, 0xE000ED00,
             0x00010000, 0x40000000, 0xFFFF0000]

    def __init__(self, rng):
        self.rng = rng
        self.used = []

    def free(self, a, n):
        if a < 0 or a + n > TOP:
            return False
        return all(a + n <= b or a >= b + m for b, m in self.used if m or n)

    def take(self, a, n):
        self.used.append((a, n))
        return a

    def place(self, n, align=1, zero_ok=True):
        rng = self.rng
        for _ in range(60):
            k = rng.randrange(10)
            if k < 5:
                a = rng.choice(self.BASES) + rng.choice([0, 0, 0, rng.randrange(64), rng.randrange(4096)])
            elif k < 8 and self.used:
                b, m = rng.choice(self.used)
                a = b + m + rng.choice([0, 0, 1, 2, 4])
            elif k == 8:
                a = TOP - n - rng.choice([0, 0, 1, 4, 16])
            else:
                a = rng.getrandbits(32)
            a -= a % align
            if not zero_ok and a == 0:
                continue
            if self.free(a, n):
                return self.take(a, n)
        while True:
            a = rng.getrandbits(32)
            a -= a % align
            if self.free(a, n):
                return self.take(a, n)


MANY = [17, 33, 64, 65, 100, 129, 200, 255, 256, 257, 300]      # counts past the sizes a fixed table or a byte holds


def huge_size(rng, top=25):
    """A size a little off a power of two which a narrow counter, offset or length field could not hold."""
    return (1 << rng.randrange(18, top)) + rng.choice([0, 1, 4, rng.randrange(70000)])


def rand_size(rng, big=2000):
    if big < 30:
        return rng.randrange(1, big)
    k = rng.randrange(10)
    if k < 4:
        return rng.randrange(1, 20)
    if k < 8:
        return rng.randrange(1, 300)
    if k == 9 and big >= 1000 and rng.randrange(25) == 0:          # past 16-bit sizes, now and then
        return 65536 + rng.choice([-1, 0, 1, rng.randrange(-40, 40), rng.randrange(70000)])
    return rng.randrange(1, big)


MEANING = [struct.pack("<I", v) for v in
           (0, 0xFFFFFFFF, 0xBAADBAAD, 0xACCE55ED, 0xDEADBEEF, 0x80000000, 0x7FFFFFFF, 1, 0xBEBEBEBE, 0x0000BE00, 0xFF800000, 0x7FC00000)] + [
           b"cC\3\0", b"cC\2\0", b"6343", b"\x7fELF", b"\r\n\r\n", b"\n", b"\0", b"\xff", b"\x03", b"+$#-", b"}*#", b"\xab\xbe", b"%s%n"]


def rand_bytes(rng, n):
    k = rng.randrange(8)
    if k == 0:
        return bytes([rng.choice([0, 0xFF, 0x5A])]) * n
    if k == 1:
        return bytes((i + n) & 0xFF for i in range(n))
    if k == 2:          # values which mean something to someone
        return b"".join(rng.choice(MEANING) for _ in range(min(n, 1000)))[:n].ljust(n, b"\x1a")
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


class World:
    """Everything a run needs: files, arguments, and the model."""

    def __init__(self):
        self.files, self.args, self.mem, self.desc = {}, [], Mem(), []
        self.regs = None
        self.placer = None
        self.segments = []
        self.regions = []

    def write(self, ctx):
        for n, d in self.files.items():
            ctx.file(n, d)
        ctx.trace("world", *self.desc)


def odd_word(rng):
    """Text which a program that copies or prints it carelessly trips over."""
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(["%s", "%n", "%s%n", "%d%n%s", "%1$n", "%*d%n"]) * rng.choice([1, 4, 12])
    if k == 1:
        return rng.choice(["100%", "%", "%%n", "a%5000d", "%.3000x", "%s.elf", "x%hhn"])
    if k == 2:
        return "y" * rng.choice([100, 200, 240, 248])
    return rng.choice(["\xff\xfe", "\xc3\xa9", "a\"b", "'", "\\n", "a b", "\x7f", "\t", "$HOME", "*"])


def odd_path(rng, name):
    """The same file by another path, up to the longest there are."""
    n = rng.choice([0, 0, 1, 60, 480, 500, 505, 510, 1000, 1900, 2000])
    return "./" * n + name if rng.randrange(4) else "." + "/" * (2 * n + 1) + name


def odd_names(w, rng):
    """Gives the input files odd names, and refers to them by odd paths."""
    for name in list(w.files):
        if rng.randrange(2):
            new = name[:5] + odd_word(rng) if rng.randrange(2) else name
            path = odd_path(rng, new)
            w.files[new] = w.files.pop(name)
            w.args = [path if a == name else a for a in w.args]
            if getattr(w, "dump_name", None) == name:
                w.dump_name = new


def gen_image(w, rng, kind=None, nseg=None, exotic=True, many=False, big=4000, huge=0):
    """many: a lot of segments of at least 1 KB high up in memory; huge: the size of the first one."""
    if many:
        kind, nseg = "elf", rng.randrange(8, 30)
    kind = kind or rng.choice(["elf", "elf", "bin"])
    p = w.placer
    if kind == "bin":
        n = huge or rand_size(rng, 4000)
        data = rand_bytes(rng, n)
        a = p.place(n)
        w.files["image.bin"] = data
        base = rng.choice(["0x%x", "0x%08X", "%d"]) % a
        w.img_args = ["--bin", "image.bin", base]
        w.mem.add(a, data, True, "bin")
        w.segments.append((a, data))
        w.desc.append("bin 0x%x+0x%x" % (a, n))
        return kind
    nseg = nseg or rng.choice([1, 1, 2, 2, 3, 4, 6])
    segs, load = [], []
    for i in range(nseg):
        n = huge if huge and i == 0 else rng.randrange(0x400, 0x600) if many else rand_size(rng, big)
        data = rand_bytes(rng, n)
        a = p.place(n)
        if many and a < 0x10000000:
            p.used.pop()
            a = p.take(next(x for x in iter(lambda: rng.randrange(0x10000000, TOP - n), 0) if p.free(x, n)), n)
        s = dict(paddr=a, data=data, flags=rng.choice([4, 5, 6, 7, 7, 0, 1, 0x80000005]), align=rng.choice([0, 1, 4, 4, 8, 0x10000]))
        if exotic and rng.randrange(2):
            s["vaddr"] = rng.getrandbits(32)
        if exotic and rng.randrange(3) == 0:
            s["memsz"] = min(M32, n + rng.choice([1, 4, 100, 0x10000, 0x7FFFFFFF, 0x80000000, M32]))
        segs.append(s)
        load.append((a, data))
    if exotic:
        for _ in range(rng.choice([0, 0, 1, 2])):       # entries which must be ignored
            n = rand_size(rng, 100)
            k = rng.randrange(3)
            s = dict(paddr=p.place(n), data=rand_bytes(rng, n))
            p.used.pop()                                 # they occupy nothing
            if k == 0:
                s["type"] = rng.choice([0, 2, 3, 4, 6, 0x70000001, 0x6474E551])
            elif k == 1:
                s.update(data=b"", filesz=0, memsz=n)
            else:
                s.update(memsz=n - 1)
            segs.insert(rng.randrange(len(segs) + 1), s)
    kw = {}
    if exotic:
        kw["phentsize"] = rng.choice([32, 32, 32, 33, 36, 40, 64])
        kw["phoff"] = rng.choice([52, 52, 53, 56, 64, 200])
        kw["extra"] = rand_bytes(rng, rng.choice([0, 0, 1, 40]))
        if rng.randrange(2):
            pads = [rng.choice([0, 0, 1, 2, 3, 5, 64]) for _ in segs]
            kw["pad"] = lambda i: pads[min(i, len(pads) - 1)]
        kw["ehdr"] = dict(entry=rng.getrandbits(32), machine=rng.choice([40, 40, 40, 0, 3]))
        if rng.randrange(3) == 0:               # fields that say nothing about the segments
            kw["ehdr"].update(shoff=rng.getrandbits(32), flags=rng.getrandbits(32), shnum=rng.randrange(65536),
                              shstrndx=rng.randrange(65536), shentsize=rng.choice([0, 40, 41]),
                              ident=b"\x7fELF\x01\x01\x01" + bytes(rng.choice([0, 3, 97, 255]) for _ in range(9)))
        k = rng.randrange(6)
        if k == 0:                              # the table behind the data, now and then far behind it
            kw["phoff"] = "end"
            if rng.randrange(6) == 0:
                kw["gap"] = 65536 + rng.randrange(300)
        elif k == 1:                            # data in another order than the table
            kw["order"] = rng.sample(range(len(segs)), len(segs))
        elif k == 2 and len(load) > 1:          # two entries which load the same bytes of the file
            i, j = [x for x in range(len(segs)) if segs[x].get("type", 1) == 1 and segs[x]["data"]
                    and segs[x].get("memsz", 1 << 40) >= len(segs[x]["data"])][:2]
            n = min(len(segs[i]["data"]), len(segs[j]["data"]))
            segs[j]["data"] = segs[i]["data"][:n] + segs[j]["data"][n:]
            if n == len(segs[j]["data"]):
                segs[j]["share"] = i
    mirror = None
    if exotic and rng.randrange(4) == 0:        # an entry which loads the file's own headers, or any other part of the file
        n = rng.choice([1, 16, 52, 53, 84, 116, rng.randrange(1, 400)])
        mirror = dict(paddr=p.place(n), data=b"", offset=rng.choice([0, 0, 0, 1, 4, 52, rng.randrange(300)]), filesz=n, memsz=n)
        segs.insert(rng.randrange(len(segs) + 1), mirror)
        kw.pop("order", None)
        if "pad" in kw:
            kw["pad"] = lambda i: pads[i % len(pads)]
        for s in segs:
            if "share" in s and s["share"] >= segs.index(mirror):
                s["share"] += 1
    img = F.elf(segs, **kw)
    if mirror:
        o, n = mirror["offset"], mirror["filesz"]
        img += rand_bytes(rng, max(0, o + n - len(img)))
        mirror["data"] = img[o:o + n]
    w.files["image.elf"] = img
    w.img_args = ["--elf", "image.elf"]
    for s in segs:
        if s.get("type", 1) == 1 and s.get("filesz", len(s["data"])) and s.get("memsz", len(s["data"])) >= len(s["data"]):
            w.mem.add(s["paddr"], s["data"], True, "elf")
            w.segments.append((s["paddr"], s["data"]))
            w.desc.append("seg 0x%x+0x%x" % (s["paddr"], len(s["data"])))
    return kind


def gen_dump(w, rng, kind=None, nreg=None, regs=None, fp=None, zero_regions=True, fault=None, big=2000, huge=0):
    """kind: bin3 bin2 hex3 hex2 log; huge: the size of the first region."""
    kind = kind or rng.choice(["bin3", "bin3", "bin2", "hex3", "hex2", "log"])
    w.dump_kind = kind
    nreg = rng.choice([0, 1, 1, 2, 3, 5]) if nreg is None else nreg
    fp = rng.randrange(2) if fp is None else fp
    regs = regs or F.Regs(rng, bool(fp))
    p = w.placer
    regions = []
    if fault is not None:
        for a, v in fault:
            regions.append((p.take(a, len(v)), v))
    if huge:
        n = huge & ~3 if kind == "log" else huge
        regions.append((p.place(n, 4 if kind == "log" else 1), rand_bytes(rng, n)))
    for _ in range(nreg):
        if kind == "log":
            n = 4 * rng.randrange(1, 60 if big >= 30 else 4)
            if big >= 1000 and rng.randrange(60) == 0:
                n = 4 * rng.choice([rng.randrange(60, 3000), 16384 + rng.randrange(-3, 1000)])
            regions.append((p.place(n, 4), rand_bytes(rng, n)))
        else:
            n = rand_size(rng, big)
            if zero_regions and rng.randrange(12) == 0:
                n = 0
            regions.append((p.place(n), rand_bytes(rng, n)))
    if kind == "log":
        regs.exc = 0
        if rng.randrange(2):
            regs.r[17] = regs.r[18] = F.Regs.DEFAULT_SP
        data = F.gdblog(regs, regions, rng)
        name = "gdb.txt"
    else:
        version = int(kind[3])
        if version == 2:
            regs.r[17] = regs.r[18] = F.Regs.DEFAULT_SP
        flags = regs.flags | (rng.choice([0, 0, 2, 4, 0x80000000, 0xFFFFFFFE]) if rng.randrange(4) == 0 else 0)
        data = F.crashcatcher(regs, regions, version, flags=flags)
        name = "crash.dmp"
        if kind[:3] == "hex":
            data = F.hexdump(data, rng)
            name = "crash.txt"
    w.files[name] = data
    w.dump_name = name
    w.dump_args = ["--dump", name]
    w.regs = regs
    for b, d in regions:
        w.mem.add(b, d, False, "ram")
        w.desc.append("ram 0x%x+0x%x" % (b, len(d)))
    w.regions = regions
    w.desc.append(kind + (" fp" if regs.fp is not None else ""))
    return kind


def gen_aliases(w, rng, n=None):
    """Aliases in free space which redirect into existing regions (or other aliases)."""
    n = rng.choice([0, 0, 1, 2, 3]) if n is None else n
    w.alias_args = []
    cands = [r for r in w.mem.regions if r.size]
    for _ in range(n):
        if not cands:
            break
        t = rng.choice(cands)
        off = rng.choice([0, 0, rng.randrange(t.size), t.size - 1])
        size = rng.choice([t.size - off, t.size - off, rng.randrange(1, t.size - off + 1), t.size - off + rng.randrange(1, 50),
                           rng.randrange(1, 64)])
        u, uo = w.mem.find(t.base + off)
        if w.mem.mapped(u.base + u.size):           # whether neighbours form one region is not specified
            size = min(size, u.size - uo)
        align = rng.choice([1, 4])
        base = w.placer.place(size, align)
        r = w.mem.alias(base, t.base + off, size)
        cands.append(r)
        fmt = rng.choice(["0x%x", "%d", "0x%08X"])
        w.alias_args += ["--alias", fmt % base, fmt % size, fmt % (t.base + off)]
        w.desc.append("alias 0x%x+0x%x->0x%x" % (base, size, t.base + off))
    return w.alias_args


def gen_world(rng, image=None, dump=None, aliases=0, **kw):
    w = World()
    w.placer = Placer(rng)
    fault = kw.get("fault")
    if fault is not None:
        for a, v in fault:
            w.placer.take(a, len(v))
    nseg = kw.pop("nseg", None)
    gen_image(w, rng, image, many=kw.pop("many", False), nseg=nseg, big=24 if nseg else 4000, huge=kw.pop("huge_image", 0))
    if fault is not None:
        w.placer.used = w.placer.used[len(fault):]
    if kw.pop("bkpt", False):           # the crash was at a BKPT instruction, as an assert() or a debugger leaves it
        at = [b + i - 1 for b, d in w.segments for i in range(1, len(d)) if d[i] == 0xBE and (b + i) & 1]
        if at:
            regs = kw.get("regs") or F.Regs(rng, bool(rng.randrange(2)))
            regs.r[15] = rng.choice(at)
            kw.update(regs=regs, fp=regs.fp is not None)
            w.desc.append("pc at BKPT 0x%x" % regs.r[15])
    gen_dump(w, rng, dump, **kw)
    gen_aliases(w, rng, aliases)
    parts = [w.img_args, w.dump_args]
    # options may come in any order
    al = [w.alias_args[i:i + 4] for i in range(0, len(w.alias_args), 4)]
    order = parts[:]
    rng.shuffle(order)
    for a in al:
        order.append(a)
    if al and rng.randrange(3) == 0:
        order = al + order[:2]
    w.args = [x for p in order for x in p]
    if rng.randrange(6) == 0:
        w.args = [x.upper() if x[:2] == "--" else x for x in w.args]
    return w


# ---- conversations -------------------------------------------------------------------------------------------
def read_check(ctx, s, mem, a, n, key="read"):
    n = min(n, TOP - a)         # a request never runs past the end of the 32-bit address space
    want = mem.read(a, n)
    got = s.read_mem(a, n)
    ctx.trace("m%x,%x" % (a, n), got[:60].decode("latin-1"))
    ctx.count("reads")
    ctx.check(got in want, key, lambda: "m%x,%x: got %s, expected %s" % (
        a, n, got[:200].decode("latin-1"), " or ".join(x[:200].decode() for x in want)))
    return got


def dump_range(ctx, s, mem, a, n, rng=None, key="read"):
    """Reads [a, a+n) with packets of varied size; of a huge range, pieces around the powers of two and elsewhere."""
    if n > 250000:
        at = {0, n} | {1 << k for k in range(16, n.bit_length())} | {n - (1 << k) for k in range(16, n.bit_length())}
        at |= {(i * 0x1234567 + n) % n for i in range(6)}
        for o in sorted(at):
            lo = max(0, o - 150)
            read_check(ctx, s, mem, a + lo, min(n - lo, 300), key)
        ctx.count("huge_ranges_sampled")
        return
    off = 0
    while off < n:
        k = min(n - off, rng.choice([1, 2, 3, 4, 4, 8, 16, 61, 64, 256, 1000, 3000]) if rng else 2000)
        read_check(ctx, s, mem, a + off, k, key)
        off += k


def audit(ctx, s, mem, key="read", rng=None):
    """Reads all of every region back and compares it with the model."""
    for r in mem.regions:
        if r.size:
            dump_range(ctx, s, mem, r.base, r.size, rng, key)
            ctx.count("bytes_compared", r.size if r.size <= 250000 else 9000)


def probes(mem, rng, n):
    """Addresses that lie around region boundaries, or anywhere."""
    e = mem.edges() or [0]
    for _ in range(n):
        if rng.randrange(6):
            a = rng.choice(e) + rng.choice([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7])
        else:
            a = rng.getrandbits(32)
        if 0 <= a < TOP:
            yield a


def finish(ctx, s):
    """Ends the session; the program must end without crash or sanitizer report."""
    import rsp
    rc, err, rest = s.close()
    rep = rsp.sanitizer_report(err)
    ctx.check(rep is None and rc != 99, "sanitizer", lambda: "exit %d\n%s" % (rc, rep or err[:1000]))
    ctx.check(rc >= 0, "crash", lambda: "killed by signal %d\n%s" % (-rc, err[:500]))
    return rc, err, rest


def start(ctx, rng, exe="exe", env=None, **kw):
    w = gen_world(rng, **kw)
    w.write(ctx)
    s = ctx.session(w.args, exe=exe, env=env)
    s.connect()
    ctx.count("sessions")
    return w, s


def check_registers(ctx, s, w, key="registers"):
    want = w.regs.g_bytes().hex().encode()
    got = s.command("g")
    ctx.check(got == want, key, lambda: "g: got %s\nexpected %s" % (got.decode("latin-1"), want.decode()))
    ctx.count("register_values", len(want) // 8)


def no_sanitizer(ctx, rc, err):
    import rsp
    rep = rsp.sanitizer_report(err)
    ctx.check(rep is None and rc != 99, "sanitizer", lambda: "exit %d\n%s" % (rc, rep or err[:1000]))
    ctx.check(rc >= 0, "crash", lambda: "killed by signal %d\n%s" % (-rc, err[:500]))


def error_text(err):
    """The text after ERROR: on the first such line, or None."""
    for line in err.split("\n"):
        if line.startswith("ERROR:"):
            return line[6:].strip()
    return None


def check_refused(ctx, rc, out, err, what, message=True):
    """The program must have ended with a failure status, an error message, the usage text, and no byte sent to GDB."""
    no_sanitizer(ctx, rc, err)
    ctx.check(rc != 0, "accepted", lambda: "%s: exit status 0" % what)
    t = error_text(err)
    ctx.check(t is not None and (t or not message), "no-message",
              lambda: "%s: exit %d but no error message on stderr: %r" % (what, rc, err[:300]))
    ctx.check("Usage: CrashDebug" in err, "no-usage", lambda: "%s: no usage text" % what)
    ctx.check(out == b"", "partial-session", lambda: "%s: %r was sent to GDB" % (what, out[:80]))
    return t


def refused(ctx, args, what, env=None, exe="exe", message=True, stdin=b"+$?#3f"):
    rc, out, err = ctx.run(args, stdin=stdin, env=env, exe=exe)
    if out.startswith(b"+$T"):
        ctx.fail("accepted", "%s: a debugging session was started" % what)
    return check_refused(ctx, rc, out, err, what, message), err


def memory_is_short(ctx):
    with open("/proc/meminfo") as f:
        short = int(re.search(r"MemAvailable: *(\d+)", f.read()).group(1)) < 12 << 20
    if short:
        ctx.count("skipped_for_memory")
    return short


def run_4gb(ctx, args, stdin):
    """Runs the program without sanitizers on a file of 4 GB or more; None if memory is short."""
    if memory_is_short(ctx):
        return None
    try:
        rc, out, err = ctx.run(args, stdin=stdin, exe="exe_plain", wait=300, cpu=200)
    except rsp.Hang:
        ctx.count("skipped_for_time")
        return None
    if rc == -9 or "Failed to allocate" in err:
        ctx.count("skipped_for_memory")
        return None
    return rc, out, err


def unexpected_error(err):
    return "Encountered unexpected error" in err
