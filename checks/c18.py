"""Breakpoints, watchpoints and FLASH read counters of the simulated memory fire exactly when they should."""
import driver, simmodel
import world

PID, LEVEL = "C18", "exploration"
BUILDS = ["simdrv"]
QUICK, THOROUGH = 2500, 40000
RULE = ("each case sets and clears 20-80 breakpoints and watchpoints of random kind, range and order (duplicates, unknown ones, on FLASH, RAM, "
        "aliases, ending at the end of a region or at 2^32; with failing allocations; every 50th case in regions of up to 32 MB, at offsets past 16, 18, 20, 22 bits) around a few addresses, issues random 8/16/32-bit reads and "
        "writes there after every change, and compares exceptions, the watchpoint report, FLASH read counts and data with a model; a "
        "situation is (operation, outcome, kind/size/alignment of operands) and counts when compared")
ASSUMPTIONS = ["a break/watchpoint covers an access when the access lies entirely within its range",
               "whether a fetch refused by a breakpoint counts as a FLASH read is not specified"]


class Sim(simmodel.Sim):
    def near(self, n):
        a = self.rng.choice(self.spots) + self.rng.choice([-4, -3, -2, -1, 0, 0, 0, 1, 2, 3, 4, 6])
        return min(max(a, 0), world.TOP - n)


def case(ctx, rng, idx):
    d = driver.Driver(ctx, "simdrv")
    try:
        live = int(d.op("live")[0], 16)
        s = Sim(ctx, rng, d)
        s.init()
        if idx % 100 == 71:
            s.flash((1 << 16 + idx // 100 % 6) + rng.randrange(0, 70))
        elif rng.randrange(2):
            s.flash()
        for _ in range(rng.randrange(1, 4)):
            s.region()
        if rng.randrange(3) == 0:
            n = rng.randrange(8, 64)
            if s.placer.free(world.TOP - n, n):
                s.placer.take(world.TOP - n, n)
                d.op("region", world.TOP - n, n)
                s.m.region(world.TOP - n, n)
        for _ in range(rng.randrange(0, 3)):
            s.ro()
        for _ in range(rng.randrange(0, 3)):
            s.alias()
        live_regions = [r for r in s.m.regions if r.size]
        if not live_regions:
            s.region()
            live_regions = [r for r in s.m.regions if r.size]
        if not live_regions:            # every allocation was made to fail
            s.uninit(live)
            d.close()
            return
        s.spots = []
        for _ in range(rng.randrange(1, 4)):
            r = rng.choice(live_regions)
            if r.size > 70000:
                s.spots.append(r.base + (1 << rng.randrange(16, r.size.bit_length())))
            s.spots += [r.base + rng.choice([0, r.size, r.size // 2, rng.randrange(r.size)])]
        if idx % 100 == 31:
            r = s.huge_region(idx // 100)
            s.spots = [r.base + (1 << k) for k in range(16, r.size.bit_length())] + [r.base, r.base + r.size]
            if rng.randrange(2):
                s.expect(["ro", r.base], key="readonly")
                s.m.make_ro(r.base)
        known = []
        if idx % 40 == 13:
            s.many_watches()
        for _ in range(rng.randrange(20, 80)):
            k = rng.randrange(10)
            kind = rng.choice(["b", "b", 1, 2, 3])
            n = rng.choice([1, 2, 2, 4, 4, 8, rng.randrange(1, 24)])
            if k < 5:
                a = s.near(n)
                s.watch(False, kind, a, n)
                known.append((kind, a, n))
            elif k == 5 and known:
                s.watch(False, *rng.choice(known))              # a duplicate
            elif k < 8 and known:
                s.watch(True, *rng.choice(known))
            elif k == 8:
                s.watch(True, kind, s.near(n), n)
            for _ in range(rng.randrange(0, 7)):
                z = rng.choice([1, 2, 2, 2, 4])
                (s.read if rng.randrange(3) else s.write)(s.near(z), z)
                if rng.randrange(3) == 0:
                    s.was()
            if rng.randrange(3) == 0:
                s.count(s.near(2))
            if rng.randrange(40) == 0:
                z = rng.choice([1, 2, 2, 2, 4])
                a = s.near(z)
                s.burst(a, z)
                s.was()
                if z == 2:
                    s.count(a)
            if rng.randrange(8) == 0:
                s.mapped()
            if rng.randrange(12) == 0:
                s.load()
        if idx % 250 == 57:          # counts past 16, 18, 20 bits
            ro = [r for r in s.m.regions if r.root.ro and r.size >= 4 and not r.base & 1 and not r.off & 1]
            if ro:
                r = rng.choice(ro)
                a = r.base + rng.randrange(r.size // 2) * 2
                s.burst(a, 2, rng.choice([(1 << 18) + 3, 1 << 20, (1 << 20) + 1]), False)
                s.count(a)
                s.was()
                ctx.count("counts_past_16_bits")
        s.audit()
        s.was()
        s.uninit(live)
        d.close()
    finally:
        d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": ctx.log[-15:]}
