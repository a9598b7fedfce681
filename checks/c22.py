"""File-failure injection fails exactly the chosen calls and otherwise leaves the real file operations untouched."""
import driver

PID, LEVEL = "C22", "exploration"
BUILDS = ["mockdrv", "mockdrv_msan"]
QUICK, THOROUGH = 4000, 20000
RULE = ("each case makes 80-250 random calls through the file hooks on scratch files (open, close, seek, tell, read, write, read lines, far seeks past the end) with failure results of every width while "
        "failures are armed (every 4th case: hundreds or tens of thousands of calls away), re-armed and restored in random order, and compares results, data and file positions with a model of the injection and of "
        "the file; a situation is (call, injection state, outcome) and counts when compared")
ASSUMPTIONS = ["which read fails is chosen after the failure was armed (as the existing tests do)"]


def case(ctx, rng, idx):
    d = driver.Driver(ctx, "mockdrv_msan" if idx % 8 == 7 else "mockdrv")
    try:
        F = {}                      # slot -> [content, position]
        passes = 0
        open_mode = close_ignored = seek = tell = write = read = lines = None
        lines_at = 0
        n_files = 0
        for _ in range(rng.randrange(80, 250)):
            k = rng.randrange(20)
            if k < 2 or not F:
                i = rng.randrange(8)
                if i in F:
                    continue
                n_files += 1
                v, _ = d.op("fopen", i, "f%d" % n_files, "w+b")
                want = "real" if open_mode is None else open_mode
                ctx.check(v == want, "fopen", lambda: "fopen gave %s, expected %s" % (v, want))
                ctx.sig("fopen", open_mode)
                if v == "real":
                    F[i] = [bytearray(), 0]
                elif not F:
                    d.op("fopenRestore")
                    open_mode = None
                continue
            i = rng.choice(list(F))
            f = F[i]
            if k == 2:
                c = rng.randrange(3)
                if c < 2:
                    d.op("fopenSet", c)
                    open_mode = "fake" if c else "null"
                else:
                    d.op("fopenRestore")
                    open_mode = None
            elif k == 3:
                close_ignored = not close_ignored
                d.op("fcloseIgnore" if close_ignored else "fcloseRestore")
            elif k == 4 and len(F) > 1:
                v, _ = d.op("fclose", i)
                ctx.check(v == ("0 1" if close_ignored else "0 0"), "fclose", lambda: "fclose: (result, still open) = %s with closing %s" % (
                    v, "ignored" if close_ignored else "real"))
                ctx.sig("fclose", close_ignored)
                del F[i]
                continue
            elif k == 5:                                # arm or restore seeks
                if rng.randrange(3):
                    seek = rng.choice([-1, -1, 5, 0, -0x80000000, 0x7FFFFFFF])
                    d.op("fseekSet", str(seek))
                    if rng.randrange(3):
                        passes = rng.choice([0, 0, 1, 2, 3, 7])
                        if idx % 4 == 1:
                            passes = rng.choice([1, 127, 128, 255, 256, 257, 300] + [32768, 65535, 65536, 65537] * (rng.randrange(6) == 0))
                        d.op("fseekPass", str(passes))
                else:
                    d.op("fseekRestore")
                    seek, passes = None, 0
            elif k == 6:
                if rng.randrange(2):
                    tell = rng.choice([-1, -1, 12345, 0, 0x7FFFFFFF, 0x80000000, -0x80000001, 5 << 32, (1 << 63) - 1, -(1 << 63)])
                    d.op("ftellFail", str(tell))
                else:
                    d.op("ftellRestore")
                    tell = None
            elif k == 7:
                if rng.randrange(2):
                    write = rng.choice([0, 0, 1, 3, 0xFFFFFFFF, 1 << 32, (1 << 64) - 1])
                    d.op("fwriteFail", write)
                else:
                    d.op("fwriteRestore")
                    write = None
            elif k == 8:
                c = rng.randrange(4)
                if c == 0:
                    d.op("freadRestore")
                    read = None
                else:
                    r = rng.choice([0, 0, 1, 2, 0xFFFFFFFF, 1 << 32, (1 << 64) - 1])
                    d.op("freadFail", r)
                    read = [r, None]
                    if c > 1:
                        read[1] = rng.choice([1, 1, 2, 3, 6])
                        if idx % 4 == 1:
                            read[1] = rng.choice([1, 127, 128, 255, 256, 257, 300] + [32768, 65535, 65536, 65537] * (rng.randrange(6) == 0))
                        d.op("freadTo", read[1])
            elif k == 9:
                if idx % 4 == 1 and rng.randrange(3) == 0:
                    lines = [rng.choice(["a", "bc\n", "\n", "", "x%d" % x]) for x in range(rng.choice([255, 256, 257, 300, 1000]))]
                    d.op("fgetsSet", *[x.encode("latin-1").hex() or "-" for x in lines])
                    lines_at = 0
                elif rng.randrange(3):
                    lines = ["".join(rng.choice("abc \t#\x80\xFF") for _ in range(rng.choice([0, rng.randrange(1, 30)]))) + rng.choice(["\n", ""])
                             for _ in range(rng.randrange(0, 5))]
                    d.op("fgetsSet", *[x.encode("latin-1").hex() or "-" for x in lines])
                    lines_at = 0
                else:
                    d.op("fgetsRestore")
                    lines = None
            elif idx % 4 == 1 and k in (10, 15):           # many calls: up to and past where an armed failure is due
                if seek is not None and rng.randrange(2):
                    n = max(2, min(70000, rng.choice([passes - 1, passes, passes + 1, 256])))
                    v, _, _ = d.rep(n, "fseek", i, "0", "0")
                    want = 0 if passes >= n else seek
                    if passes:
                        f[1] = 0
                    passes = max(0, passes - n)
                    ctx.check(v == str(want), "fseek", lambda: "fseek number %d gave %s, expected %d" % (n, v, want))
                    ctx.sig("fseek-many", want, min(passes, 3))
                elif read is not None and read[1] is not None and read[1] > 2:
                    n = max(2, read[1] - rng.choice([1, 1, 2, 5]))
                    if n < read[1]:
                        v, _, _ = d.rep(n, "fread", i, 1, 0)
                        read[1] -= n
                        ctx.check(v == "0 ", "fread", lambda: "an empty read gave %r" % v)
                        ctx.sig("fread-many", min(read[1], 6))
                elif lines is not None and len(lines) > 200:
                    n = max(2, min(len(lines) - lines_at, rng.randrange(2, 300)))
                    if n < len(lines) - lines_at:
                        v, _, _ = d.rep(n, "fgets", i, 20)
                        lines_at += n
                        want = "1 " + lines[lines_at - 1][:19].encode("latin-1").hex()
                        ctx.check(v == want, "fgets", lambda: "line %d: %r, expected %r" % (lines_at - 1, v, want))
                        ctx.sig("fgets-many", lines_at > 255)
            elif k < 12:
                whence = rng.randrange(3)
                base = (0, f[1], len(f[0]))[whence]
                to = rng.choice([0, len(f[0]), rng.randrange(len(f[0]) + 1)])
                if rng.randrange(10) == 0 and (seek is None or passes > 0):      # far past the end, as a real seek may go
                    to = len(f[0]) + rng.choice([1, 70000, 0x7FFFFFFF, 1 << 32, 5 << 32])
                off = to - base
                v, _ = d.op("fseek", i, str(off), str(whence))
                want = 0
                if seek is not None:
                    if passes > 0:
                        passes -= 1
                        f[1] = to
                    else:
                        want = seek
                else:
                    f[1] = to
                ctx.check(v == str(want), "fseek", lambda: "fseek gave %s, expected %d" % (v, want))
                ctx.sig("fseek", whence, want, None if seek is None else min(passes, 3), to > len(f[0]))
                if f[1] > len(f[0]):
                    v, _ = d.op("realtell", i)
                    ctx.check(v == str(f[1]), "position", lambda: "file position is %s, expected %d" % (v, f[1]))
                    f[1] = len(f[0])
                    d.op("realseek", i, str(f[1]))
            elif k < 14:
                v, _ = d.op("ftell", i)
                want = f[1] if tell is None else tell
                ctx.check(v == str(want), "ftell", lambda: "ftell gave %s, expected %d" % (v, want))
                ctx.sig("ftell", tell)
            elif k < 16:
                size = rng.choice([1, 1, 2, 4])
                data = rng.randbytes(size * rng.randrange(0, 20))
                v, _ = d.op("realseek", i, str(f[1]))
                v, _ = d.op("fwrite", i, size, data.hex() or "-")
                want = len(data) // size if write is None else write
                ctx.check(v == str(want), "fwrite", lambda: "fwrite gave %s, expected %d" % (v, want))
                if write is None:
                    f[0][f[1]:f[1] + len(data)] = data
                    f[1] += len(data)
                ctx.sig("fwrite", write, size, bool(data))
                d.op("realseek", i, str(f[1]))
            elif k < 19:
                size, items = rng.choice([1, 1, 2, 4]), rng.randrange(0, 20)
                v, _ = d.op("fread", i, size, items)
                fails = read is not None
                if read is not None and read[1] is not None:
                    read[1] -= 1
                    fails = read[1] == 0
                if fails:
                    want_n, got = read[0], b""
                    if read[1] is not None:
                        read = None
                else:
                    raw = bytes(f[0][f[1]:f[1] + size * items])
                    want_n, got = len(raw) // size, raw
                    f[1] += len(raw)
                want = "%d %s" % (want_n, (got + b"\xA5" * (size * items - len(got))).hex())
                ctx.check(v == want, "fread", lambda: "fread gave %s, expected %s" % (v, want))
                ctx.sig("fread", fails, None if read is None else read[1], size, items == 0)
                d.op("realseek", i, str(f[1]))
            else:
                n = rng.choice([1, 2, 5, 8, 32, 100])
                v, _ = d.op("fgets", i, n)
                if lines is not None:
                    if lines_at >= len(lines):
                        want, lines_at = "null", 0
                    else:
                        want = "1 " + lines[lines_at][:n - 1].encode("latin-1").hex()
                        lines_at += 1
                    ctx.sig("fgets", n, want == "null", lines_at)
                else:
                    raw = bytes(f[0][f[1]:f[1] + n - 1])
                    e = raw.find(b"\n")
                    raw = raw if e < 0 else raw[:e + 1]
                    f[1] += len(raw)
                    z = raw.find(b"\0")
                    want = "null" if not raw and n > 1 else "1 " + (raw if z < 0 else raw[:z]).hex()
                    ctx.sig("fgets-real", n, want == "null")
                ctx.check(v == want, "fgets", lambda: "fgets gave %r, expected %r" % (v, want))
                d.op("realseek", i, str(f[1]))
            v, _ = d.op("realtell", i)
            ctx.check(v == str(f[1]), "position", lambda: "file position is %s, expected %d" % (v, f[1]))
            ctx.count("positions_compared")
        d.close()
    finally:
        d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": ctx.log[-15:]}
