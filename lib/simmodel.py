"""Reference model of the simulated memory's API, and the loop which drives the real one against it."""
import xml.etree.ElementTree as ET

import world

OOM, BUS, HWBREAK = 3, 4, 9
READ, WRITE, RW = 1, 2, 3


class Region:
    def __init__(self, base, size, root=None, off=0):
        self.base, self.size = base, size
        self.root = root if root is not None else self
        self.off = off                       # offset into root's data
        self.stale = False                   # alias made before its target became read-only: advertised type unspecified
        if root is None:
            self.data = bytearray(size)
            self.ro = False
            self.counts = None
            self.watch = []                  # (start offset, end offset, kind)

    @property
    def alias(self):
        return self.root is not self


class Model:
    def __init__(self):
        self.regions = []
        self.hits = 0                        # None: unspecified

    def find(self, a, n):
        for r in self.regions:
            if r.base <= a and a + n <= r.base + r.size:
                return r.root, a - r.base + r.off
        return None, 0

    def region(self, b, n):
        r = Region(b, n)
        self.regions.append(r)
        return r

    def make_alias(self, b, target, n):
        root, off = self.find(target, 1)
        if root is None:
            return None
        r = Region(b, min(n, root.size - off), root, off)
        self.regions.append(r)
        return r

    def make_ro(self, a):
        root, off = self.find(a, 1)
        if root is None:
            return False
        if not root.ro:
            root.ro = True
            root.counts = {}
            for r in self.regions:
                if r.alias and r.root is root:
                    r.stale = True
        return True

    def access(self, a, n, kind):
        """Returns (exception, root, offset)."""
        root, off = self.find(a, n)
        if root is None or (kind == WRITE and root.ro):
            return BUS, None, 0
        inside = [w for w in root.watch if w[0] <= off and off + n <= w[1]]
        brk = n == 2 and kind == READ and any(w[2] == "b" for w in inside)
        seen = any(w[2] != "b" and w[2] & kind for w in inside)
        if n == 2 and kind == READ and root.ro:
            if brk:
                root.counts[off // 2] = None                # whether a refused fetch counts is not specified
            elif off % 2:                                   # touches two halfwords
                root.counts[off // 2] = root.counts[off // 2 + 1] = None
            elif root.counts.get(off // 2, 0) is not None:
                root.counts[off // 2] = root.counts.get(off // 2, 0) + 1
        if brk:
            if seen:
                self.hits = None
            return HWBREAK, None, 0
        if seen and self.hits is not None:
            self.hits += 1
        return None, root, off


def union(ranges):
    out = []
    for a, b in sorted(x for x in ranges if x[0] < x[1]):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


class Sim:
    """The real API and the model side by side; every method performs one operation on both and compares."""

    def __init__(self, ctx, rng, drv):
        self.ctx, self.rng, self.d = ctx, rng, drv
        self.m = None
        self.placer = None
        self.holds = {}
        self.xml_ok = False
        self.armed = False
        self.kind = "?"

    # -- comparison ----------------------------------------------------------------------------------------
    def expect(self, words, exc=None, value=None, key="result"):
        v, e = self.d.op(*words)
        text = " ".join(w if isinstance(w, str) else "%x" % w for w in words)[:160]
        if exc is None:
            self.ctx.check(e is None, key, lambda: "%s: threw exception mriMax+%d, expected to succeed" % (text, e))
        else:
            self.ctx.check(e == exc, key, lambda: "%s: %s, expected exception mriMax+%d" % (
                text, "succeeded" if e is None else "threw mriMax+%d" % e, exc))
        if value is not None:
            self.ctx.check(v == value, key, lambda: "%s: got %s, expected %s" % (text, v[:200], value[:200]))
        self.ctx.sig(words[0], exc, self.kind, min(len(self.m.regions), 6) if self.m else -1)
        return v

    def init(self):
        self.expect(["init"], value="1")
        self.m = Model()
        self.placer = world.Placer(self.rng)
        self.holds = {}
        self.xml_ok = False
        self.kind = "init"

    def uninit(self, base_live):
        self.expect(["uninit"])
        v, _ = self.d.op("live")
        self.ctx.check(int(v, 16) == base_live, "leak", lambda: "%s allocations are live after uninit, %d were before init" % (v, base_live))
        self.m = None

    # -- faults --------------------------------------------------------------------------------------------
    def with_fault(self, words, exc, apply, key, kinds=("malloc", "realloc")):
        """Runs an allocating operation, sometimes with an allocation that fails: then it must throw, and nothing changes."""
        if self.rng.randrange(5) == 0 and self.d.name == "simdrv":
            spec = "%s:%d" % (self.rng.choice(kinds), self.rng.randrange(1, 5))
            live, _ = self.d.op("live")
            self.d.op("fault", spec)
            v, e = self.d.op(*words)
            fired, _ = self.d.op("fired")
            text = " ".join(w if isinstance(w, str) else "%x" % w for w in words)[:120]
            if int(fired, 16):
                self.ctx.count("allocation_failures")
                self.ctx.sig("oom", words[0], spec, min(len(self.m.regions), 4))
                if exc is None:
                    self.ctx.check(e == OOM, "oom", lambda: "%s with %s failing: %s" % (text, spec, "succeeded" if e is None else "threw mriMax+%d" % e))
                else:
                    self.ctx.check(e in (OOM, exc), "oom", lambda: "%s with %s failing" % (text, spec))
                after, _ = self.d.op("live")
                self.ctx.check(int(after, 16) <= int(live, 16), "leak", lambda: "%s with %s failing: %s allocations became %s" % (text, spec, live, after))
                return None, False
            self.ctx.check(e == exc, key, lambda: "%s: exception %s, expected %s" % (text, e, exc))
            if exc is None:
                apply()
            return v, e is None
        v = self.expect(words, exc, key=key)
        if exc is None:
            apply()
        return v, exc is None

    # -- building ------------------------------------------------------------------------------------------
    def region(self):
        n = world.rand_size(self.rng, 3000)
        if self.rng.randrange(12) == 0:         # runs past the end of the address space
            a = world.TOP - self.rng.randrange(0, n)
            n = self.rng.choice([n, n, 0xFFFFFFFF])
            if a < world.TOP and a + n > world.TOP:
                self.kind = "past"
                self.ctx.count("regions_past_the_top")
                return self.with_fault(["region", a, n], BUS, lambda: None, "create")
            n = world.rand_size(self.rng, 3000)
        a = self.placer.place(n)
        self.kind = "top" if a + n == world.TOP else "any"
        return self.with_fault(["region", a, n], None, lambda: self.m.region(a, n), "create")

    def many_regions(self):
        """Hundreds of small regions and aliases."""
        n = self.rng.choice(world.MANY)
        for i in range(n):
            if self.rng.randrange(5) and i:
                size = self.rng.randrange(1, 24)
                a = self.placer.place(size)
                self.kind = "many"
                self.expect(["region", a, size], key="create")
                self.m.region(a, size)
            else:
                self.alias()

    def huge_region(self, i):
        """A region whose size and offsets a 16-, 20- or 22-bit field does not hold, and an alias far inside it."""
        n = (1 << 18 + i % 7) + self.rng.choice([1, 4, self.rng.randrange(70000)])
        a = self.placer.place(n)
        self.kind = "huge"
        self.expect(["region", a, n], key="create")
        r = self.m.region(a, n)
        for off in {0, n - 4} | {(1 << k) + self.rng.randrange(-4, 5) for k in range(16, n.bit_length())}:
            if 0 <= off <= n - 4:
                self.write(a + off, 4)
        off = (1 << n.bit_length() - 1) - self.rng.randrange(1, 200)
        m = self.rng.choice([n - off, 500, n - off + 9])
        b = self.placer.place(m)
        self.expect(["alias", b, a + off, m], key="alias")
        self.m.make_alias(b, a + off, m)
        self.ctx.count("huge_regions")
        return r

    def alias(self):
        rng = self.rng
        cands = [r for r in self.m.regions if r.size]
        if not cands or rng.randrange(8) == 0:
            a = self.unmapped()
            if a is not None:
                self.kind = "unmapped"
                self.with_fault(["alias", rng.getrandbits(32), a, rng.randrange(1, 100)], BUS, lambda: None, "alias")
            return
        t = rng.choice(cands)
        off = rng.choice([0, 0, rng.randrange(t.size), t.size - 1])
        room = t.root.size - (t.off + off)
        n = rng.choice([room, rng.randrange(1, room + 1), t.size - off, room + rng.randrange(1, 60)])
        m = min(n, room)
        a = self.placer.place(m)
        self.kind = ("long" if n > room else "fits", "nested" if t.alias else "direct", "ro" if t.root.ro else "rw")
        self.with_fault(["alias", a, t.base + off, n], None, lambda: self.m.make_alias(a, t.base + off, n), "alias")

    def ro(self):
        a = self.address(1)
        exc = None if self.m.find(a, 1)[0] else BUS
        self.kind = "ro"
        self.with_fault(["ro", a], exc, lambda: self.m.make_ro(a), "readonly")

    def flash(self, huge=0):
        """CreateRegionsFromFlashImage: FLASH at 0 from the image, RAM up to the initial stack pointer in its first word."""
        rng = self.rng
        if not huge and rng.randrange(6) == 0:
            n = rng.randrange(0, 4)
            v, e = self.d.op("flash", rng.randbytes(n).hex() or "-")
            self.ctx.check(e is not None, "flash", lambda: "an image of %d bytes was accepted" % n)
            return
        if not self.placer.free(0, max(huge, 3000)):
            return
        n = huge or rng.choice([4, 5, 6, 7, 8, 9, 12, rng.randrange(4, 300), rng.randrange(4, 2000)])
        top = rng.choice([0x10000000, 0x20000000, 0x40000000, 0xF0000000, 0x10000000])
        ram = rng.choice([0, 1, 4, 8, rng.randrange(0, 2000)])
        if huge:
            ram = (1 << rng.randrange(16, 25)) + rng.choice([0, 1, 4, rng.randrange(70000)])
            self.ctx.count("huge_regions", 2)
        if not self.placer.free(top, max(ram, 1)):
            return
        img = (top + ram).to_bytes(4, "little") + world.rand_bytes(rng, n - 4)
        self.kind = ("flash", min(n, 9), min(ram, 2))

        def apply():
            f = self.m.region(0, n)
            f.data[:] = img
            self.m.make_ro(0)
            self.m.region(top, ram)
            self.placer.take(0, n)
            self.placer.take(top, ram)
        self.with_fault(["flash", img.hex()], None, apply, "flash", kinds=("malloc",))

    def load(self):
        rng = self.rng
        k = rng.randrange(8)
        if k == 0:
            a = self.unmapped()
            if a is not None:
                n = rng.randrange(1, 20)
                self.kind = "unmapped"
                root, _ = self.m.find(a, 1)
                if root is None:
                    if any(self.m.find(a + i, 1)[0] for i in range(4)):
                        return
                    self.expect(["load", a, rng.randbytes(n).hex()], BUS, key="load")
            return
        cands = [r for r in self.m.regions if r.size]
        if not cands:
            return
        r = rng.choice(cands)
        off = rng.randrange(r.size)
        n = rng.randrange(0, min(r.size - off, 400) + 1)
        d = rng.randbytes(n)
        if k == 1 and not self.m.find(r.base + r.size, 1)[0] and r.base + r.size + 8 < world.TOP:       # runs over the end
            d = rng.randbytes(r.size - off + rng.randrange(1, 9))
            if len(d) > 1500 or r.size - off == 2:
                return
            self.kind = "overrun"
            self.expect(["load", r.base + off, d.hex()], BUS, key="load")
            old = r.root.data[r.off + off:r.off + r.size]
            v, e = self.d.op("mapr", r.base + off, r.size - off)
            got = bytes.fromhex(v)
            for i, b in enumerate(got):
                self.ctx.check(b in (old[i], d[i]), "load", "a refused load left a byte which is neither old nor new")
            r.root.data[r.off + off:r.off + r.size] = got
            return
        self.kind = ("load", n % 5, "ro" if r.root.ro else "rw", r.alias)
        self.expect(["load", r.base + off, d.hex() or "-"], key="load")
        r.root.data[r.off + off:r.off + off + n] = d

    # -- addresses -----------------------------------------------------------------------------------------
    def unmapped(self):
        for a in world.probes(self, self.rng, 20):
            if self.m.find(a, 1)[0] is None:
                return a
        return None

    def edges(self):
        return sorted({e for r in self.m.regions for e in (r.base, r.base + r.size)})

    def address(self, n):
        rng = self.rng
        if self.m.regions and rng.randrange(5):
            r = rng.choice(self.m.regions)
            k = rng.randrange(6)
            if k == 0:
                a = r.base + r.size - n + rng.choice([-1, 0, 1])
            elif k == 1:
                a = r.base + rng.choice([-2, -1, 0, 1, 2])
            elif r.size > 70000 and k < 5:
                a = r.base + (1 << rng.randrange(16, r.size.bit_length())) + rng.randrange(-4, 5)
            else:
                a = r.base + rng.randrange(max(1, min(r.size, rng.choice([8, 64, 4000]))))
            return min(max(a, 0), world.TOP - n)
        return min(rng.getrandbits(32), world.TOP - n)

    # -- accesses ------------------------------------------------------------------------------------------
    def straddles(self, a, n):
        return self.m.find(a, n)[0] is None and all(self.m.find(a + i, 1)[0] for i in range(n))

    def read(self, a=None, n=None):
        n = n or self.rng.choice([1, 2, 2, 4])
        a = self.address(n) if a is None else a
        if self.straddles(a, n):
            return
        exc, root, off = self.m.access(a, n, READ)
        want = None if exc else "%x" % int.from_bytes(root.data[off:off + n], "little")
        self.kind = ("read", n, a % 4, "ro" if root and root.ro else "rw")
        self.expect(["r%d" % (8 * n), a], exc, want, "read")

    def write(self, a=None, n=None):
        n = n or self.rng.choice([1, 2, 2, 4])
        a = self.address(n) if a is None else a
        if self.straddles(a, n):
            return
        v = self.rng.getrandbits(8 * n)
        exc, root, off = self.m.access(a, n, WRITE)
        self.kind = ("write", n, a % 4, exc)
        self.expect(["w%d" % (8 * n), a, v], exc, key="write")
        if exc is None:
            root.data[off:off + n] = v.to_bytes(n, "little")

    def burst(self, a=None, n=None, times=0, wr=None):
        """One access, hundreds of times or past 16-bit counts."""
        rng = self.rng
        n = n or rng.choice([1, 2, 2, 2, 4])
        a = self.address(n) if a is None else a
        if self.straddles(a, n):
            return
        fixed = times
        times = times or rng.choice([254, 255, 256, 257, 300, 512, 1000])
        if rng.randrange(12) == 0 and not fixed:
            times = rng.choice([65535, 65536, 65537, 70000])
            if rng.randrange(20) == 0:
                times = rng.choice([(1 << 18) + 1, 1 << 20, (1 << 20) + 1])
        wr = rng.randrange(4) == 0 if wr is None else wr
        v = rng.getrandbits(8 * n)
        for _ in range(times):
            exc, root, off = self.m.access(a, n, WRITE if wr else READ)
        if wr and exc is None:
            root.data[off:off + n] = v.to_bytes(n, "little")
        want = None if exc or wr else "%x" % int.from_bytes(root.data[off:off + n], "little")
        got, e, threw = self.d.rep(times, "%s%d" % ("w" if wr else "r", 8 * n), a, *([v] if wr else []))
        self.ctx.check(e == exc and threw == (times if exc else 0) and (want is None or got == want), "burst", lambda: (
            "%d %s of %d at 0x%x: last %s / exception %s, %d threw; expected %s / exception %s" % (
                times, "writes" if wr else "reads", n, a, got, e, threw, want, exc)))
        self.kind = ("burst", n, wr, exc, times > 60000)
        self.ctx.sig("burst", self.kind)
        self.ctx.count("accesses_in_bursts", times)

    def mapped(self):
        """Host pointers: whole range inside one region, no watchpoint/breakpoint effect; a write needs writable memory."""
        rng = self.rng
        n = rng.choice([1, 3, 4, 8, rng.randrange(1, 200)])
        a = self.address(n)
        if self.straddles(a, n):
            return
        root, off = self.m.find(a, n)
        if n == 2 and root is not None and root.ro:         # whether this counts as a read of FLASH is not specified
            root.counts[off // 2] = root.counts[off // 2 + 1] = None
        self.kind = ("map", min(n, 5), root is not None and root.ro)
        k = rng.randrange(4)
        if k < 2:
            want = None if root is None else bytes(root.data[off:off + n]).hex()
            self.expect(["mapr", a, n], BUS if root is None else None, want, "map")
        elif k == 2:
            d = rng.randbytes(n)
            ok = root is not None and not root.ro
            self.expect(["mapw", a, n, d.hex()], None if ok else BUS, key="map")
            if ok:
                root.data[off:off + n] = d
        elif root is not None:
            h = rng.randrange(8)
            w = not root.ro and rng.randrange(2)
            self.expect(["holdw" if w else "holdr", h, a, n], key="map")
            self.holds[h] = (root, off, n, w)

    def held(self):
        if not self.holds:
            return
        rng = self.rng
        h = rng.choice(list(self.holds))
        root, off, n, w = self.holds[h]
        k = rng.randrange(n)
        m = rng.randrange(1, n - k + 1)
        self.kind = ("held", w)
        if w and rng.randrange(2):
            d = rng.randbytes(m)
            self.expect(["hput", h, k, d.hex()], key="held-pointer")
            root.data[off + k:off + k + m] = d
        else:
            self.expect(["hget", h, k, m], None, bytes(root.data[off + k:off + k + m]).hex(), "held-pointer")

    # -- memory map ----------------------------------------------------------------------------------------
    def xml(self):
        v, ok = self.with_fault(["xml"], None, lambda: None, "xml")
        if not ok:
            return                  # the text an earlier call returned must still be there
        try:
            root = ET.fromstring(v)
        except ET.ParseError as e:
            self.ctx.fail("xml", "not well-formed: %s %r" % (e, v[:200]))
        got = {"ram": [], "flash": []}
        for x in root.findall("memory"):
            a, n = int(x.get("start"), 0), int(x.get("length"), 0)
            self.ctx.check(x.get("type") in got, "xml", "memory type %r" % x.get("type"))
            got[x.get("type")].append((a, a + n))
        stale = [(r.base, r.base + r.size) for r in self.m.regions if r.stale]
        want = {"ram": [], "flash": []}
        for r in self.m.regions:
            if not r.stale:
                want["flash" if r.root.ro else "ram"].append((r.base, r.base + r.size))
        if stale:
            everything = union(want["ram"] + want["flash"] + stale)
            self.ctx.check(union(got["ram"] + got["flash"]) == everything, "xml", lambda: "map covers %r, memory is %r" % (got, everything))
        else:
            for t in want:
                self.ctx.check(union(got[t]) == union(want[t]), "xml", lambda: "%s: map has %r, memory is %r" % (
                    t, union(got[t]), union(want[t])))
        self.kind = ("xml", min(len(self.m.regions), 12))
        self.expect(["xmlagain"], None, "1", "xml")
        self.expect(["xmlold"], None, v, "xml-pointer")

    # -- break/watchpoints ---------------------------------------------------------------------------------
    def many_watches(self):
        """Hundreds of distinct break/watchpoints in one region."""
        rng = self.rng
        live = [r for r in self.m.regions if r.size >= 40]
        if not live:
            return
        r = rng.choice(live)
        for i in range(rng.choice(world.MANY)):
            n = rng.choice([1, 2, 4, 8, 2 + i % 30])
            self.watch(False, rng.choice(["b", READ, WRITE, RW]), r.base + rng.randrange(r.size - n + 1), n, may_fail=False)

    def watch(self, clear=None, kind=None, a=None, n=None, may_fail=True):
        rng = self.rng
        kind = kind or rng.choice(["b", "b", READ, WRITE, RW])
        n = n or rng.choice([1, 2, 2, 4, 4, 8, 16, rng.randrange(1, 40)])
        a = self.address(n) if a is None else a
        if self.straddles(a, n):
            return
        clear = rng.randrange(3) == 0 if clear is None else clear
        root, off = self.m.find(a, n)
        self.kind = ("watch", kind, clear, min(n, 5), root is not None and off + n == root.size and root.base + root.size == world.TOP)
        exc = BUS if root is None else None
        name = ("cbp" if clear else "bp") if kind == "b" else ("cwp" if clear else "wp")
        words = [name, a, n] + ([] if kind == "b" else [kind])

        def apply():
            w = (off, off + n, kind)
            if clear:
                if w in root.watch:
                    root.watch.remove(w)
            elif w not in root.watch:
                root.watch.append(w)
        if may_fail:
            self.with_fault(words, exc, apply, "watchpoint")
        else:
            self.expect(words, exc, key="watchpoint")
            apply()

    def was(self):
        v, e = self.d.op("was")
        self.ctx.check(e is None, "watchpoint", "was: threw")
        if self.m.hits is not None:
            self.ctx.check((int(v, 16) != 0) == (self.m.hits != 0), "watchpoint-hit", lambda: "reports %s, %d accesses hit a watchpoint" % (v, self.m.hits))
            self.ctx.count("watch_queries_hit" if self.m.hits else "watch_queries_none")
        self.kind = ("was", bool(self.m.hits))
        self.m.hits = 0
        self.expect(["was"], None, "0", "watchpoint-hit")

    def count(self, a=None):
        a = self.address(2) if a is None else a
        if self.straddles(a, 2):
            return
        root, off = self.m.find(a, 2)
        if root is None or not root.ro:
            self.kind = ("count", "refused")
            self.expect(["rc", a], BUS, key="read-count")
            return
        if off % 2:
            return
        c = root.counts.get(off // 2, 0)
        self.kind = ("count", min(c or 0, 4))
        v = self.expect(["rc", a], key="read-count")
        if c is not None:
            self.ctx.check(int(v, 16) == c, "read-count", lambda: "0x%x: %s reads counted, %d were made" % (a, v, c))
            self.ctx.count("read_counts_compared")

    def audit(self):
        for r in self.m.regions:
            if r.size > 70000:
                at = {0, r.size} | {1 << k for k in range(16, r.size.bit_length())}
                spans = [(max(0, o - 50), min(r.size, o + 50)) for o in at]
            else:
                spans = [(0, r.size)] if r.size else []
            for x, y in spans:
                want = bytes(r.root.data[r.off + x:r.off + y]).hex()
                if y - x == 2:
                    continue                            # a 2-byte host mapping counts as a read of FLASH
                self.expect(["mapr", r.base + x, y - x], None, want, "contents")
                self.ctx.count("bytes_compared", y - x)
