"""The printf spy reports exactly what the code under test printed, per stream, for every sequence of calls."""
import driver

PID, LEVEL = "C21", "exploration"
BUILDS = ["mockdrv", "mockdrv_msan"]
QUICK, THOROUGH = 3200, 20000
RULE = ("each case makes 40-150 random calls: hooking with buffer sizes 0-300 (every 4th case: up to 70000, with bursts of up to 70000 calls; rarely 1-16 MB with equally long text), unhooking, printing through both hooks to both streams with several "
        "formats and text lengths around the buffer size, and reading the last four outputs, call count and return values, compared with a model; "
        "while unhooked, text must reach the real stream; a situation is (call, stream, length against buffer, position) and counts when compared")
ASSUMPTIONS = ["what a stream's accessor returns for a call that went to the other stream is not specified"]

FORMATS = [lambda s: s, lambda s: "<-12345|%s|z>" % s, lambda s: "0000BEEF %s    77 -5000000000 %%" % s, lambda s: "plain",
           lambda s: "1.500 %s 1 2 3 4 5 6" % s, lambda s: "", lambda s: "%s|%-9s" % (s, s[:3])]


def case(ctx, rng, idx):
    d = driver.Driver(ctx, "mockdrv_msan" if idx % 8 == 7 else "mockdrv")
    try:
        size = None
        calls = []          # (stream, text) since the hook was set
        hooked_once = False
        for _ in range(rng.randrange(40, 150)):
            k = rng.randrange(14)
            if k == 0 or not hooked_once:
                size = rng.choice([0, 1, 2, 5, 10, 64, 128, rng.randrange(0, 300)])
                if idx % 4 == 1 and rng.randrange(4) == 0:
                    size = rng.choice([255, 256, 257, 1023, 1024, 1025, 4096, 5000])
                    if rng.randrange(6) == 0:
                        size = rng.choice([65535, 65536, 65537, 70000])
                    elif idx % 500 == 101 or rng.randrange(60) == 0:
                        size = (1 << rng.randrange(20, 25)) + rng.randrange(-3, 100)
                d.op("hook", size)
                calls = []
                hooked_once = True
                ctx.sig("hook", min(size, 12))
            elif k == 1:
                d.op("unhook")
                size = None
                ctx.sig("unhook")
            elif k == 2 and idx % 4 == 1 and size is not None:       # hundreds of calls, now and then past a 16-bit count
                n = rng.choice([255, 256, 257, 300, 1000] + [65535, 65536, 70000] * (rng.randrange(6) == 0))
                s = "".join(rng.choice("abc") for _ in range(rng.randrange(0, 12)))
                f, stream = rng.randrange(7), rng.choice(["out", "err"])
                text = FORMATS[f](s)
                v, e, threw = d.rep(n, stream, f, s.encode().hex() or "-", "f")
                ctx.check(v == "\t%d" % len(text) and not threw, "return", lambda: "%s of %r returned %s" % (stream, text, v))
                calls += [(stream, text[:size])] * n
                v, _ = d.op("calls")
                ctx.check(int(v, 16) == len(calls), "count", lambda: "%s calls counted, %d were made" % (v, len(calls)))
                ctx.sig("burst", min(n, 1001), stream)
                ctx.count("prints", n)
            elif k < 9:
                f = rng.choice([0, 0, 1, 2, 3, 4, 5, 6])
                base = rng.randrange(0, 30) if size is None or rng.randrange(3) == 0 else max(0, size - len(FORMATS[f]("")) + rng.choice([-2, -1, 0, 1, 2, 30]))
                s = "".join(rng.choice("abcXYZ 0189%{}") for _ in range(min(base, 5000)))
                if base > 5000:
                    s = (s * (base // 5000 + 1))[:base]
                    ctx.sig("long text", base.bit_length())
                text = FORMATS[f](s)
                stream = rng.choice(["out", "out", "err"])
                v, _ = d.op(stream, f, s.encode().hex() or "-", rng.choice("pf"))
                shown, r = v.rsplit("\t", 1)
                ctx.check(int(r) == len(text), "return", lambda: "%s of %r returned %s" % (stream, text, r))
                if size is None:
                    ctx.check(shown == (text if stream == "out" else ""), "unhooked", lambda: "%s printed %r, expected %r" % (stream, shown, text))
                else:
                    ctx.check(shown == "", "leak-through", lambda: "hooked output reached the real stream: %r" % shown)
                    calls.append((stream, text[:size]))
                ctx.sig("print", stream, f, size is not None and (len(text) > size) - (len(text) < size), len(calls) % 6)
                ctx.count("prints")
            elif size is not None:
                n = rng.randrange(1, 5)
                stream, text = calls[-n] if n <= len(calls) else (None, None)
                pre = "e" if stream == "err" else ""
                names = [(pre + "nth", n)] + ([(pre + "last",)] if n == 1 else []) + ([(pre + "prev",)] if n == 2 else [])
                name = rng.choice(names)
                if stream is None:
                    if not calls:
                        v, _ = d.op(*rng.choice([("nth", n), ("enth", n), ("last",), ("eprev",)]))
                        ctx.check(v == "NULL", "stale", lambda: "nothing printed since the hook was set, but %r is reported" % v)
                        ctx.sig("none", n)
                    continue
                v, _ = d.op(*name)
                ctx.check(v == "=" + text, "output", lambda: "%s: reports %r, the call printed %r" % (name, v, text))
                ctx.sig("get", name, size > 0)
                ctx.count("outputs_compared")
                v, _ = d.op("calls")
                ctx.check(int(v, 16) == len(calls), "count", lambda: "%s calls counted, %d were made" % (v, len(calls)))
        d.op("unhook")
        v, _ = d.op("live")
        ctx.check(v == "0", "leak", lambda: "%s buffers are still allocated after unhooking" % v)
        d.close()
    finally:
        d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": ctx.log[-15:]}
