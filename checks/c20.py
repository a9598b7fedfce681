"""Allocation-failure injection fails exactly the chosen allocation, for every sequence of allocation calls."""
import driver

PID, LEVEL = "C20", "exploration"
BUILDS = ["mockdrv", "mockdrv_msan"]
QUICK, THOROUGH = 2400, 20000
RULE = ("each case makes 80-250 random calls: arming a failure (n = 0-12, or a huge n), restoring, and allocations, reallocations (grow, shrink, "
        "to nothing, of NULL) and frees through the hooks; a few allocations are of 64 KB to 16 MB; every 4th case arms failures hundreds or tens of thousands of allocations away; every result, and the contents of every block after a successful or failed call, is compared "
        "with a model which counts allocations; a situation is (call, countdown, outcome) and counts when compared")
ASSUMPTIONS = []


def case(ctx, rng, idx):
    d = driver.Driver(ctx, "mockdrv_msan" if idx % 8 == 7 else "mockdrv")
    try:
        armed, left = False, 0
        mem = {}
        for _ in range(rng.randrange(80, 250)):
            k = rng.randrange(12)
            if k == 0:
                left = rng.choice([0, 1, 1, 2, 3, 4, rng.randrange(1, 13), 0xFFFFFFFF])
                if idx % 4 == 1 and rng.randrange(2):
                    left = rng.choice([128, 255, 256, 257, 258, 300, 512, 513, 1000])
                    if rng.randrange(4) == 0:
                        left = rng.choice([32768, 65535, 65536, 65537, 65538, 70000, 131072 + 5, 0x80000000, 0x80000001])
                armed = True
                d.op("fail", left)
                ctx.sig("arm", left, bool(mem))
            elif k == 1:
                d.op("restore")
                ctx.sig("restore", armed, min(left, 3))
                armed, left = False, 0
            elif idx % 4 == 1 and armed and k < 4:
                n = rng.choice([1, 10, 200, 255, 256, 300, left - 1, left, left + 1, left + 5])
                n = max(0, min(n, 140000))
                first = left if 0 < left <= n else 0
                left = max(0, left - n)
                v, _ = d.op("mburst", n)
                ctx.check(v == "%x %x" % (first != 0, first), "burst", lambda: "%d allocations: (failures, first) = %s, expected %d, %d" % (
                    n, v, first != 0, first))
                ctx.sig("mburst", min(n, 300), bool(first), min(left, 3))
                ctx.count("allocations_in_bursts", n)
            elif k < 10:
                i = rng.randrange(8)
                n = rng.choice([0, 1, 2, 16, 100, rng.randrange(1, 3000)] + [70000, 1 << 20] * (rng.randrange(20) == 0) + [(1 << 24) + 5] * (rng.randrange(400) == 0))
                fails = False
                if armed and left:
                    left -= 1
                    fails = left == 0
                if k < 6 and i not in mem:
                    v, _ = d.op("malloc", i, n)
                    ctx.check(v == ("0" if fails else "1"), "malloc", lambda: "malloc returned %s, expected %s" % (v, "failure" if fails else "memory"))
                    ctx.sig("malloc", fails, min(left, 13), armed)
                elif n == 0 and i in mem:
                    v, _ = d.op("realloc0", i, int(fails))
                    ctx.check(v == "0 1", "realloc", lambda: "realloc to size 0: (result, contents kept) = %s, expected 0 1" % v)
                    ctx.sig("realloc0", fails, min(left, 13), armed)
                    if not fails:
                        mem.pop(i)
                    continue
                else:
                    v, _ = d.op("realloc", i, n)
                    ctx.check(v == ("0 1" if fails else "1 1"), "realloc", lambda: "realloc: (result, contents kept) = %s, expected %s" % (
                        v, "failure" if fails else "success"))
                    ctx.sig("realloc", fails, min(left, 13), armed, i in mem)
                if not fails:
                    mem[i] = n
                ctx.count("failures" if fails else "successes")
            else:
                i = rng.choice(list(mem) + [0])
                v, _ = d.op("free", i)
                ctx.check(v == "1", "contents", "a block was overwritten")
                mem.pop(i, None)
        d.close()
    finally:
        d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": ctx.log[-15:]}
