"""The simulated memory behaves as a model of regions, aliases, read-only FLASH and host mappings for every history of calls."""
import driver, simmodel

PID, LEVEL = "C17", "exploration"
BUILDS = ["simdrv", "simdrv_msan"]
QUICK, THOROUGH = 2500, 40000
RULE = ("each case drives the real API through 2-3 lifetimes of 40-150 operations chosen at random (regions, aliases, aliases of aliases, "
        "read-only marking, image loads, 8/16/32-bit reads and writes at edges and inside, host pointers kept and used later, memory "
        "map text, failing allocations) side by side with a model, compares every result, exception and the exception-handler chain, and "
        "at the end all memory (of huge regions: around the powers of two) and the number of live allocations; every 50th case has regions of 64 KB to 32 MB; a situation is (operation, outcome, kind of operands, regions) and "
        "counts when compared; every 8th case runs under MemorySanitizer")
ASSUMPTIONS = ["regions do not overlap or wrap past 2^32; one access which straddles two adjacent regions is not specified",
               "a 2-byte host mapping of FLASH is not used where read counts are compared"]


def case(ctx, rng, idx):
    d = driver.Driver(ctx, "simdrv_msan" if idx % 8 == 7 else "simdrv")
    try:
        live = int(d.op("live")[0], 16)
        s = simmodel.Sim(ctx, rng, d)
        for _ in range(rng.choice([2, 2, 3])):
            s.init()
            if idx % 100 == 71:
                s.flash((1 << 16 + idx // 100 % 6) + rng.randrange(0, 70))
            elif rng.randrange(3):
                s.flash()
            for _ in range(rng.randrange(0, 5)):
                s.region()
            if idx % 40 == 13:
                s.many_regions()
            if idx % 100 == 31:
                s.huge_region(idx // 100)
            ops = ([s.region] * 2 + [s.alias] * 4 + [s.ro] * 2 + [s.flash, s.xml, s.xml] + [s.load] * 3 + [s.read] * 9 + [s.write] * 9 +
                   [s.mapped] * 5 + [s.held] * 4)
            if idx % 3 == 0:
                ops += [s.watch] * 2 + [s.was, s.count]
            for _ in range(rng.randrange(40, 150)):
                rng.choice(ops)()
            if idx % 4 == 1:
                s.burst()
            s.audit()
            s.xml()
            s.uninit(live)
        d.op("uninit0")
        d.close()
    finally:
        d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": ctx.log[-15:]}
