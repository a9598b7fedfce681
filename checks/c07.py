"""Truncated or corrupted inputs are refused with an error message; a session never starts on part of the data."""
import copy, os, random, struct
import world, formats as F

PID, LEVEL = "C07", "exploration"
BUILDS = ["exe", "exe_plain"]
QUICK, THOROUGH = 12750, 45000
RULE = ("each case writes valid inputs, damages one of them in a way whose verdict is known (cut at a random or critical byte of any file layout, one "
        "header field made invalid, offsets outside the file or wrapping 32 bits, bad hex digit, odd digit count, stack-overflow "
        "marker, dump RAM colliding with the image or running past the top of memory, alias of nothing, a raw image of 4 GB) and starts the "
        "program; the oracle says refuse (status, message, usage, no byte to GDB) or, when the cut only removed whole regions or "
        "unused bytes, that exactly the remaining contents are served; a situation is (format, damage, outcome, message)")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "a dump file of fewer than 2 bytes, or without CrashCatcher's signature, is a GDB log",
               "the test bench caps single allocations at 96 MB"]


def base_world(rng, dump=None, image=None, exotic=False, **kw):
    w = world.World()
    w.placer = world.Placer(rng)
    world.gen_image(w, rng, image, exotic=exotic)
    world.gen_dump(w, rng, dump, **kw)
    w.args = w.img_args + w.dump_args
    return w


def refuse(ctx, w, tag, what):
    rng = random.Random("names:%d:%d" % (ctx.seed, ctx.idx))
    if rng.randrange(4) == 0:           # the error message may have to tell the name
        w = copy.copy(w)
        w.files = dict(w.files)
        world.odd_names(w, rng)
        ctx.count("odd_names")
    w.write(ctx)
    t, _ = world.refused(ctx, w.args, what)
    ctx.count("refused")
    ctx.sig(tag, "refused", "".join(c for c in t if not c.isdigit())[:50])


def accept(ctx, w, tag):
    w.write(ctx)
    s = ctx.session(w.args)
    s.connect()
    try:
        world.check_registers(ctx, s, w)
        world.audit(ctx, s, w.mem)
        for r in w.gone:
            for a in {r.base, r.base + r.size - 1} if r.size else ():
                if not w.mem.mapped(a):
                    world.read_check(ctx, s, w.mem, a, 1)
        world.finish(ctx, s)
    finally:
        s.kill()
    ctx.count("accepted")
    ctx.sig(tag, "accepted", len(w.gone))


# ---- ELF ---------------------------------------------------------------------------------------------------------
def elf_cut(ctx, rng):
    w = base_world(rng, image="elf")
    img = w.files["image.elf"]
    nph = struct.unpack_from("<H", img, 44)[0]
    crit = [0, 1, 4, 16, 51, 52, 53, 52 + 32 * nph - 1, 52 + 32 * nph, len(img) - 1, len(img) - 2, len(img) // 2]
    n = rng.choice(crit + [rng.randrange(len(img))] * 4)
    n = min(n, len(img) - 1)
    w.files["image.elf"] = img[:n]
    # no padding in these images: every byte belongs to the headers or to a segment
    refuse(ctx, w, "elf-cut-%s" % ("hdr" if n < 52 else "ph" if n < 52 + 32 * nph else "data"), "ELF cut to %d of %d bytes" % (n, len(img)))


def elf_cut_layouts(ctx, rng):
    """Any file layout (table behind the data, odd entry size, gaps, shared bytes), cut at or around the last byte of any part."""
    w = base_world(rng, image="elf", exotic=True)
    img = w.files["image.elf"]
    phoff, = struct.unpack_from("<I", img, 28)
    entsize, nph = struct.unpack_from("<HH", img, 42)
    ends = {52}
    for i in range(nph):
        t, off, _, _, n, m, _, _ = struct.unpack_from("<8I", img, phoff + i * entsize)
        ends.add(phoff + i * entsize + 32)
        if t == 1 and n and m >= n:
            ends.add(off + n)
    need = max(ends)
    n = rng.choice([need - rng.randrange(1, 40), need - rng.randrange(1, 9), need - 1, need, rng.choice(sorted(ends)) - rng.randrange(1, 33),
                    rng.randrange(len(img)), rng.randrange(need, len(img) + 1)])
    n = max(0, min(n, len(img)))
    w.files["image.elf"] = img[:n]
    w.gone = []
    if n >= need:
        return accept(ctx, w, "elf-cut-unused")
    refuse(ctx, w, "elf-cut-%s" % ("table-last" if need == phoff + (nph - 1) * entsize + 32 and n >= need - 32 else "layout"),
           "ELF of which %d bytes are needed cut to %d" % (need, n))


def elf_tiny(ctx, rng):
    """A one-entry table inside the header itself, so that nothing but the header's own length stands against a short file."""
    w = base_world(rng, image="elf")
    hdr = bytearray(52)
    hdr[0:7] = b"\x7fELF\x01\x01\x01"           # the entry starts at byte 6: type 1, then offset, vaddr, paddr, filesz, memsz
    struct.pack_into("<I", hdr, 10, rng.choice([0, 4, 16]))
    struct.pack_into("<HH", hdr, 16, 2, 40)
    struct.pack_into("<I", hdr, 18, 40 | 1 << 16)
    struct.pack_into("<I", hdr, 22, rng.choice([1, 4, 30]) & 0xFFFF)
    struct.pack_into("<I", hdr, 26, 0)
    struct.pack_into("<I", hdr, 28, 6)
    struct.pack_into("<HH", hdr, 42, 32, 1)
    n = rng.choice([51, 50, 49, 48, 47, 46])
    w.files["image.elf"] = bytes(hdr[:n])
    refuse(ctx, w, "elf-cut-tiny", "ELF of %d bytes" % n)


def elf_field(ctx, rng):
    w = base_world(rng, image="elf")
    img = bytearray(w.files["image.elf"])
    k = rng.randrange(13)
    nph = struct.unpack_from("<H", img, 44)[0]
    p = 52 + 32 * rng.randrange(nph)
    size = struct.unpack_from("<I", img, p + 16)[0]
    if k == 0:
        i = rng.randrange(4)
        img[i] ^= rng.choice([1, 0x80, 0x20])
        tag = "magic%d" % i
    elif k == 1:
        img[4] = rng.choice([0, 2, 3, 0xFF])
        tag = "class"
    elif k == 2:
        img[5] = rng.choice([0, 2, 3, 0xFF])
        tag = "data"
    elif k == 3:
        struct.pack_into("<H", img, 16, rng.choice([0, 1, 3, 4, 0x200, 0xFE02, 0xFFFF]))
        tag = "type"
    elif k == 4:
        struct.pack_into("<I", img, 28, 0)
        tag = "phoff0"
    elif k == 5:
        struct.pack_into("<H", img, 44, 0)
        tag = "phnum0"
    elif k == 6:
        struct.pack_into("<H", img, 42, rng.choice([0, 1, 16, 31]))
        tag = "phentsize"
    elif k == 7:
        struct.pack_into("<I", img, 28, rng.choice([len(img), len(img) - 1, len(img) + 1, len(img) - 31 if nph == 1 else len(img) - 1,
                                                    0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFE0, 0xFFFFFFF0]))
        tag = "phoff"
    elif k == 8:
        struct.pack_into("<I", img, p + 4, rng.choice([len(img), len(img) - size + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF,
                                                       (1 << 32) - size, (1 << 32) - 1 - size // 2]))
        tag = "offset"
    elif k == 9:
        off = struct.unpack_from("<I", img, p + 4)[0]
        n = rng.choice([len(img) - off + 1, len(img) + 1, len(img), 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, (1 << 32) - off,
                        (1 << 32) - off + 1, (1 << 32) - off + 60])
        n = min(max(n, len(img) - off + 1), 0xFFFFFFFF)
        struct.pack_into("<I", img, p + 16, n)
        struct.pack_into("<I", img, p + 20, rng.choice([n, 0xFFFFFFFF]))
        tag = "filesz"
    elif k == 10:
        for i in range(nph):
            q = 52 + 32 * i
            j = rng.randrange(3)
            if j == 0:
                struct.pack_into("<I", img, q, rng.choice([0, 2, 6, 0x70000001]))
            elif j == 1:
                struct.pack_into("<I", img, q + 16, 0)
            else:
                struct.pack_into("<I", img, q + 20, struct.unpack_from("<I", img, q + 16)[0] - 1)
        tag = "noloadable"
    elif k == 11:
        struct.pack_into("<H", img, 44, rng.choice([0xFFFF, len(img) // 32 + 1]))
        # entries beyond the table are file bytes; at the latest the one past the end of the file must be refused
        tag = "phnum"
    else:
        # a segment that runs past the top of memory
        if size < 2:
            return elf_cut(ctx, rng)
        struct.pack_into("<I", img, p + 12, (1 << 32) - rng.choice([1, size - 1, size // 2, rng.randrange(1, size)]))
        tag = "paddrwrap"
    w.files["image.elf"] = bytes(img)
    refuse(ctx, w, "elf-" + tag, "ELF with bad " + tag)


# ---- CrashCatcher ------------------------------------------------------------------------------------------------
def layout(w):
    """(end of fixed part, [region start offsets], [region data end offsets]) in the binary form."""
    v = int(w.dump_kind[3])
    pos = 8 + 4 * (19 if v == 3 else 17) + 4 + (132 if w.regs.fp is not None else 0)
    fixed, starts, ends = pos, [], []
    for _, d in w.regions:
        starts.append(pos)
        pos += 8 + len(d)
        ends.append(pos)
    return fixed, starts, ends


def rebuild(w, binary, rng):
    name = w.dump_name
    w.files[name] = F.hexdump(binary, rng) if w.dump_kind[:3] == "hex" else binary


def cc_cut(ctx, rng):
    kind = rng.choice(["bin3", "bin2", "hex3", "hex2"])
    w = base_world(rng, dump=kind)
    version = int(kind[3])
    binary = F.crashcatcher(w.regs, w.regions, version)
    fixed, starts, ends = layout(w)
    assert len(binary) == (ends[-1] if ends else fixed)
    crit = [2, 3, 4, 5, 7, 8, 9, 12, fixed - 1, fixed - 4, fixed - 5, fixed] + [s + i for s in starts for i in (1, 3, 4, 5, 7, 8, 9)] \
        + [e + i for e in ends for i in (-2, -1, 0)]
    n = rng.choice(crit + [rng.randrange(2, len(binary))] * 4)
    n = max(2, min(n, len(binary)))
    whole = [fixed] + ends
    rebuild(w, binary[:n], rng)
    w.gone = []
    if n in whole:
        k = whole.index(n)
        while k + 1 < len(whole) and whole[k + 1] == n:
            k += 1
        keep = {b for b, _ in w.regions[:k]}
        w.gone = [r for r in w.mem.regions if r.what == "ram" and r.base not in keep]
        drop = set(map(id, [r for i, r in enumerate([r for r in w.mem.regions if r.what == "ram"]) if i >= k]))
        w.gone = [r for r in w.mem.regions if id(r) in drop]
        w.mem.regions = [r for r in w.mem.regions if id(r) not in drop]
        return accept(ctx, w, "cc-whole-" + kind)
    where = "sig" if n < 4 else "fixed" if n < fixed else "region-header" if any(s < n < s + 8 for s in starts) else "region-data"
    # 4 bytes of a region header that look like the overflow marker are the marker; random data never is
    refuse(ctx, w, "cc-cut-%s-%s" % (kind, where), "%s dump cut to %d of %d bytes" % (kind, n, len(binary)))


def cc_field(ctx, rng):
    kind = rng.choice(["bin3", "bin2", "hex3", "hex2"])
    w = base_world(rng, dump=kind, nreg=rng.choice([0, 1, 2, 3]))
    version = int(kind[3])
    k = rng.randrange(5)
    binary = bytearray(F.crashcatcher(w.regs, w.regions, version, sentinel=k == 0))
    if k == 0:
        tag = "sentinel"
    elif k == 1:
        binary[2:4] = rng.choice([b"\0\0", b"\x01\0", b"\x02\x01", b"\x03\x01", b"\x04\0", b"\xFF\xFF", b"\0\x03", b"\x13\0"])
        tag = "version"
    elif k == 2:
        a = rng.choice([0xFFFFFFF0, 0x80000000, 0x20000000, 1])
        # ends before it starts: never holds that many bytes
        binary += struct.pack("<II", a, rng.choice([a - 1, (a - 4) & F.M32, 0, a >> 1])) + world.rand_bytes(rng, rng.choice([0, 4, 100]))
        tag = "reversed"
    elif k == 3:
        s = rng.randrange(1, 64)
        e = rng.randrange(1, 64)
        binary += struct.pack("<II", (1 << 32) - s, e) + world.rand_bytes(rng, s + e)
        tag = "wrap"
    else:
        # RAM in the dump collides with the image
        a, d = rng.choice(w.segments)
        n = rng.randrange(1, 40)
        base = rng.choice([a, a + len(d) - 1, a + rng.randrange(len(d)), max(0, a - n + 1)])
        n = min(n, world.TOP - base)
        if any(not r.ro and base < r.base + r.size and r.base < base + n for r in w.mem.regions):
            return cc_cut(ctx, rng)
        binary += struct.pack("<II", base, (base + n) & F.M32) + world.rand_bytes(rng, n)
        tag = "on-image"
    rebuild(w, bytes(binary), rng)
    w.write(ctx)
    t, err = world.refused(ctx, w.args, "%s dump: %s" % (kind, tag))
    if tag == "sentinel":
        ctx.check("stack overflow" in t.lower(), "overflow-message", lambda: "stack-overflow marker reported as %r" % t)
    ctx.count("refused")
    ctx.sig("cc-" + kind, tag, "".join(c for c in t if not c.isdigit())[:40])


NOT_HEX = bytes(c for c in range(256) if c not in b"0123456789abcdefABCDEF\r\n")


def hex_text(ctx, rng):
    kind = rng.choice(["hex3", "hex2"])
    w = base_world(rng, dump=kind)
    text = bytearray(w.files["crash.txt"])
    pos = [i for i, c in enumerate(text) if c not in b"\r\n"]
    k = rng.randrange(5)
    if k >= 2:
        n = ctx.idx // len(KINDS) * 3
        for t in range(8):
            i = rng.choice(pos[4:])
            bad = bytearray(text)
            c = NOT_HEX[(n + t // 2) % len(NOT_HEX)] if t < 6 else rng.choice(b"GgZz/:@`{ \t.-\0\x7F\xB5\xFFxX")
            if t & 1:
                bad[i] = c
            else:                    # next to a full set of digits, so that ignoring it is not refused for another reason
                bad[i:i] = bytes([c])
            ctx.sig("not-hex", c)
            w.files["crash.txt"] = bytes(bad)
            refuse(ctx, w, "%s-digit" % kind, "hex dump: digit")
        return
    elif k == 1:
        text = text[:pos[-1]]
        tag = "odd"
    else:
        i = rng.choice(pos[4:])
        text[i:i + 1] = b""
        tag = "lost-digit"
    w.files["crash.txt"] = bytes(text)
    refuse(ctx, w, "%s-%s" % (kind, tag), "hex dump: " + tag)


# ---- logs, aliases, files ----------------------------------------------------------------------------------------
def log_on_image(ctx, rng):
    w = base_world(rng, dump="log")
    a, d = rng.choice(w.segments)
    base = (a + rng.randrange(len(d))) & ~3
    n = 4 * rng.randrange(1, 4)
    if base < a or base + n > a + len(d) + 3 or base + 4 > a + len(d):
        base = (a + 3) & ~3
        if base + 4 > a + len(d):
            return alias(ctx, rng)
        n = 4
    if any(not r.ro and base < r.base + r.size and r.base < base + n for r in w.mem.regions):
        return alias(ctx, rng)
    text = w.files["gdb.txt"]
    nl = b"\r\n" if b"\r\n" in text else b"\n"
    extra = nl.join(x.encode() for x in F.gdb_memory(base, world.rand_bytes(rng, n), rng, full_lines=True))
    if text and not text.endswith(nl):
        text += nl
    w.files["gdb.txt"] = (text + extra + nl) if rng.randrange(2) else (extra + nl + text)
    refuse(ctx, w, "log-on-image", "GDB log with memory inside the image")


def past_top(ctx, rng):
    """Contents which run past the top of memory, in worlds where there may be other contents at address 0 for them to land on."""
    kind = rng.choice(["elf", "bin3", "hex3", "hex2", "log"])
    k = rng.randrange(2, 60)
    m = rng.randrange(1, k)
    low = world.rand_bytes(rng, rng.choice([0, 4 * rng.randrange(1, 40)]))
    w = world.World()
    regs = F.Regs(rng)
    img = [dict(paddr=0x08000000, data=world.rand_bytes(rng, 40))]
    regions = []
    high = ((1 << 32) - m, world.rand_bytes(rng, k))
    if kind == "elf":
        new = [dict(paddr=high[0], data=high[1])]
        old = [dict(paddr=0, data=low)] if low else []
        img = (img + old + new) if rng.randrange(3) else (new + old + img)
    elif kind == "log":
        high = ((1 << 32) - 4 * rng.randrange(1, 4), world.rand_bytes(rng, 16))
        regions = ([(0, low)] if low else []) + [high]
    else:
        regions = ([(0, low)] if low else []) + [high]
    w.files["image.elf"] = F.elf(img)
    if kind == "log":
        rng.shuffle(regions)
        lines = sum((F.gdb_memory(a, d, rng, full_lines=True) for a, d in regions), [])
        w.files["gdb.txt"] = "\n".join(lines + [""]).encode()
        name = "gdb.txt"
    else:
        d = F.crashcatcher(regs, regions, 2 if kind == "hex2" else 3)
        name = "crash.dmp"
        w.files[name] = F.hexdump(d, rng) if kind[:3] == "hex" else d
    w.args = ["--elf", "image.elf", "--dump", name]
    refuse(ctx, w, "top-%s-%d" % (kind, bool(low)), "%s contents which run past the top of memory" % kind)


def alias(ctx, rng):
    w = base_world(rng)
    for _ in range(50):
        a = rng.choice([rng.getrandbits(32)] + [x for x in w.mem.edges()])
        if not w.mem.mapped(a) and a < world.TOP:
            break
    else:
        return
    w.args += ["--alias", "0x%x" % rng.getrandbits(32), "0x%x" % rng.randrange(1, 1000), "0x%x" % a]
    if rng.randrange(2):
        w.args = w.args[-4:] + w.args[:-4]
    refuse(ctx, w, "alias-of-nothing", "alias of an unmapped address")


def files(ctx, rng):
    w = base_world(rng)
    k = rng.randrange(5)
    w.write(ctx)
    if k == 0:
        i = w.args.index(w.dump_name)
        w.args[i] = rng.choice(["missing.dmp", world.odd_path(rng, "m" + world.odd_word(rng))])
    elif k == 1:
        w.args[w.args.index(w.img_args[1])] = rng.choice(["missing.img", world.odd_path(rng, "m" + world.odd_word(rng))])
    elif k == 2:
        os.mkdir(os.path.join(ctx.dir, "dir"))
        w.args[w.args.index(w.dump_name)] = "dir"
    elif k == 3:
        os.mkdir(os.path.join(ctx.dir, "dir"))
        w.args[w.args.index(w.img_args[1])] = "dir"
    else:
        ctx.file("empty", b"")
        w.files = {}
        w.args[w.args.index(w.img_args[1])] = "empty"
    t, _ = world.refused(ctx, w.args, "unusable file %d" % k)
    ctx.count("refused")
    ctx.sig("file", k, t[:20])


def bin_wrap(ctx, rng):
    """A raw image that runs past the top of memory, or is empty at no address."""
    w = base_world(rng, image="bin")
    n = len(w.files["image.bin"])
    if n < 2:
        return files(ctx, rng)
    w.args[w.args.index("--bin") + 2] = "0x%x" % ((1 << 32) - rng.randrange(1, n))
    refuse(ctx, w, "bin-wrap", "raw image past the top of memory")


def bin_4gb(ctx, rng):
    """A raw image larger than the address space, whose size in 32 bits is small."""
    w = base_world(rng, dump="bin3", image="bin")
    w.write(ctx)
    n = len(w.files["image.bin"]) + 1
    with open(os.path.join(ctx.dir, "image.bin"), "r+b") as f:
        f.truncate((1 << 32) + n)
    r = world.run_4gb(ctx, w.args, b"+$?#3f")
    if r:
        world.check_refused(ctx, *r, "raw image of 2^32 + %d bytes" % n)
        ctx.count("refused")
        ctx.count("images_of_4_gb")
        ctx.sig("bin-4gb")


KINDS = [elf_cut, elf_cut_layouts, elf_tiny, elf_field, elf_field, cc_cut, cc_cut, cc_field, cc_field, hex_text, log_on_image, alias, files, bin_wrap, past_top]


def case(ctx, rng, idx):
    if idx % QUICK == 7:
        return bin_4gb(ctx, rng)
    KINDS[idx % len(KINDS)](ctx, rng)
    if idx % 50 == 1:
        ctx.sample = {"damage": KINDS[idx % len(KINDS)].__name__, "trace": ctx.log[-3:]}
