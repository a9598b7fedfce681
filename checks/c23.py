"""The size of an open file is reported correctly with the position back at its start, or an error is raised, whatever fails."""
import os
import driver

PID, LEVEL = "C23", "exploration"
BUILDS = ["mockdrv", "mockdrv_msan"]
QUICK, THOROUGH = 2400, 10000
RULE = ("each case makes 20-60 queries on files of random size (0 to 200000 bytes, plus sparse files up to 1 TB) from random positions with every "
        "combination of failing seeks and tells, of the injected kind and in the C library itself (one call or all), and on pipes, and compares value, exception, position and handler chain; a situation is (size class, position "
        "class, failures) and counts when compared")
ASSUMPTIONS = []
FILE = 12


def case(ctx, rng, idx):
    d = driver.Driver(ctx, "mockdrv_msan" if idx % 8 == 7 else "mockdrv")
    try:
        sizes = {}
        for i in range(rng.randrange(1, 4)):
            n = rng.choice([0, 1, 2, 4095, 4096, 4097, rng.randrange(0, 200000)])
            name = "f%d" % i
            if rng.randrange(6) == 0:
                n = rng.choice([0x7FFFFFFF, 0x80000000, 0x80000001, 3 << 30, 0xFFFFFFFF, 1 << 32, (1 << 32) + 100, 5 << 30, (1 << 40) + 3])
                with open(ctx.dir + "/" + name, "wb") as f:
                    try:
                        f.truncate(n)
                    except OSError:         # the file system cannot hold it
                        n = 3 << 30
                        f.truncate(n)
            else:
                ctx.file(name, bytes(n))
            d.op("fopen", i, name, "rb")
            sizes[i] = n
        pipe = None
        if idx % 5 == 2:
            pipe = 3
            os.mkfifo(ctx.dir + "/pipe")
            d.op("fopen", pipe, "pipe", "r+b")
            sizes[pipe] = 0
        for _ in range(rng.randrange(20, 60)):
            i = rng.choice(list(sizes))
            pos = rng.choice([0, 1, sizes[i], sizes[i] // 2, sizes[i] + 10])
            d.op("realseek", i, str(pos))
            if rng.randrange(4) == 0 and i != pipe:
                d.op("fread", i, 1, 10)
            seek = rng.choice([None, None, None, 0, 1, 2])
            tell = rng.choice([None, None, None, None, -1, -5])
            if seek is not None:
                d.op("fseekSet", "-1")
                if seek or rng.randrange(2):
                    d.op("fseekPass", str(seek))
            if tell is not None:
                d.op("ftellFail", str(tell))
            real = None
            if seek is None and tell is None and d.name == "mockdrv" and rng.randrange(3) == 0:       # the C library's own call fails, once
                real = rng.choice(["fseek:1", "fseek:2", "ftell:1", "fseek:0", "ftell:0"])
                d.op("fault", real)
            v, e = d.op("size", i)
            if real:
                d.op("fault", "-")
                ctx.check(e == FILE, "error", lambda: "%s failing: %s" % (real, "size %s" % v if e is None else "exception mriMax+%d" % e))
                ctx.count("library_failures")
            elif pipe is not None and i == pipe:
                ctx.check(e == FILE, "error", lambda: "a pipe has no size, but: %s" % ("size %s" % v if e is None else "exception mriMax+%d" % e))
            elif seek in (0, 1) or tell is not None:
                ctx.check(e == FILE, "error", lambda: "seek failing after %s, tell giving %s: %s" % (seek, tell, "size %s" % v if e is None else "exception mriMax+%d" % e))
            else:
                ctx.check(e is None and v == str(sizes[i]), "size", lambda: "reported %s (exception %s) for a file of %d bytes" % (v, e, sizes[i]))
                p, _ = d.op("realtell", i)
                ctx.check(p == "0", "position", lambda: "the position is %s after asking for the size" % p)
            ctx.sig(real, i == pipe, min(sizes[i], 5000) if sizes[i] < 5000 else "big", min(pos, 3), seek, tell)
            ctx.count("queries")
            d.op("fseekRestore")
            d.op("ftellRestore")
        d.close()
    finally:
        d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": ctx.log[-15:]}
