"""Writers for the input formats CrashDebug reads, produced independently of its parsers."""
import struct

M32 = 0xFFFFFFFF


def elf(segments, phoff=None, phentsize=32, ehdr=None, order=None, extra=b"", pad=None, gap=0):
    """segments: list of dict(paddr, data, [vaddr, memsz, type, flags, align, offset, share]). Returns the ELF image bytes.
    ehdr: overrides of header fields; phoff: "end" puts the table behind the data; order: of the data in the file;
    share: index of a segment whose bytes in the file begin with this one's data."""
    n = len(segments)
    phoff = 52 if phoff is None else phoff
    body = bytearray(52 + gap if phoff == "end" else phoff + n * phentsize)
    offs = {}
    for i in order or range(n):
        s = segments[i]
        if "offset" in s or "share" in s:
            continue
        if pad:
            body += b"\xA5" * pad(i)
        offs[i] = len(body)
        body += s["data"]
    ph = []
    for i, s in enumerate(segments):
        off = s["offset"] if "offset" in s else offs[s["share"]] if "share" in s else offs[i]
        ph.append(struct.pack("<8I", s.get("type", 1), off, s.get("vaddr", s["paddr"]) & M32, s["paddr"] & M32,
                              s.get("filesz", len(s["data"])) & M32, s.get("memsz", len(s["data"])) & M32,
                              s.get("flags", 5), s.get("align", 4)))
    if phoff == "end":
        phoff = len(body)
        body += bytes(n * phentsize)
    h = dict(ident=b"\x7fELF\x01\x01\x01" + b"\0" * 9, type=2, machine=40, version=1, entry=0, phoff=phoff, shoff=0,
             flags=0x5000000, ehsize=52, phentsize=phentsize, phnum=n, shentsize=40, shnum=0, shstrndx=0)
    h.update(ehdr or {})
    hdr = h["ident"] + struct.pack("<HHIIIIIHHHHHH", h["type"], h["machine"], h["version"], h["entry"], h["phoff"],
                                   h["shoff"], h["flags"], h["ehsize"], h["phentsize"], h["phnum"], h["shentsize"],
                                   h["shnum"], h["shstrndx"])
    body[0:52] = hdr
    for i, e in enumerate(ph):
        o = phoff + i * phentsize
        body[o:o + 32] = e
    return bytes(body) + extra


class Regs:
    """A Cortex-M register set as a crash dump carries it."""
    NAMES = ["r%d" % i for i in range(13)] + ["sp", "lr", "pc", "xpsr", "msp", "psp"]
    DEFAULT_SP = 0xBAADBAAD

    def __init__(self, rng=None, fp=False):
        rnd = (lambda: _word(rng)) if rng else (lambda: 0)
        self.r = [rnd() for _ in range(19)]
        self.exc = rnd()
        self.flags = 1 if fp else 0
        self.fp = [rnd() for _ in range(33)] if fp else None

    def g_bytes(self):
        w = list(self.r) + (list(self.fp) if self.fp is not None else [])
        return struct.pack("<%dI" % len(w), *w)


def _word(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, 0xFF, 0x100, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xDEADBEEF, 0x00FF00FF, 0xFFFFFFFE,
                           0xFFFFFFF1, 0xFFFFFFF9, 0xFFFFFFFD, 0xFFFFFFE1, 0xFFFFFFE9, 0xFFFFFFED,      # EXC_RETURN
                           0xBAADBAAD, 0xACCE55ED, 0x01000000, 0x61000000, 0x20008000, 0x08000101, 0xE000ED28])
    return rng.getrandbits(32)


def crashcatcher(regs, regions, version=3, sentinel=False, flags=None):
    """regions: [(base, bytes)]"""
    out = bytearray(b"cC" + bytes([version, 0]))
    out += struct.pack("<I", regs.flags if flags is None else flags)
    n = 19 if version == 3 else 17
    out += struct.pack("<%dI" % n, *regs.r[:n])
    out += struct.pack("<I", regs.exc)
    if regs.fp is not None:
        out += struct.pack("<33I", *regs.fp)
    for base, data in regions:
        out += struct.pack("<II", base & M32, (base + len(data)) & M32)
        out += data
    if sentinel:
        out += struct.pack("<I", 0xACCE55ED)
    return bytes(out)


def hexdump(binary, rng=None):
    """CrashCatcher's hex rendering; with rng: any line structure (the reader must not care).  The first two bytes stay
    on one line, as the documentation asks, and in upper/lower case that leaves '6343' as it is."""
    h = binary.hex()
    if rng is None:
        h = h.upper()
        return ("".join(h[i:i + 32] + "\r\n" for i in range(0, len(h), 32))).encode()
    style = rng.randrange(4)
    nl = rng.choice(["\n", "\r\n", "\r", "\n\n", "\r\n\r\n", "\r\r\n", "\n\r", None])
    if rng.randrange(2):
        h = h.upper()
    elif rng.randrange(2):
        h = "".join(c.upper() if rng.randrange(2) else c for c in h)
    if style == 0:
        w = rng.choice([1, 2, 3, 7, 8, 16, 32, 33, 64, 128])
        parts = [h[:4]] + [h[i:i + w] for i in range(4, len(h), w)]
    elif style == 1:
        parts, i = [h[:4]], 4
        while i < len(h):
            n = rng.randrange(1, 70)
            parts.append(h[i:i + n])
            i += n
    elif style == 2:
        parts = [h]
    else:
        parts = [h[:8], h[8:16]] + [h[i:i + 32] for i in range(16, len(h), 32)]
    if nl is None:                  # files whose lines come from several systems
        s = parts[0] + "".join(rng.choice(["\n", "\r\n", "\r", "\n\n\r", "\r\r\n"]) + x for x in parts[1:])
        nl = "\r\n"
    else:
        s = nl.join(parts)
    if rng.randrange(3):
        s += nl
    return s.encode()


# ---- GDB logs ------------------------------------------------------------------------------------------------
_NOISE = ["(gdb) x/4wx $ptr", "Num Enb Low Addr   High Addr  Attrs ", "0   y  \t0x00000000 0x00010000 flash blocksize 0x1000 nocache",
          "Already logging to gdb.txt.", "Continuing.", "", "Program received signal SIGSEGV, Segmentation fault.",
          "0x0000023c in main () at main.c:71", "0x000001d4\t56\t    *pCount += 1;", "71\t    while (1)",
          "#0  0x0000023c in main ()", "$1 = 0x10000000", "Breakpoint 1, main () at main.cpp:12", "r0 = 5", "sp at 0x2007c000",
          "0x10000000", "0x100:", "0x1000000g:\t0x00000001\t0x00000002\t0x00000003\t0x00000004",
          "0x2zz00000 <a>:\t0x00000001\t0x00000002", "0x2000000~:\t0x00000001", "0x/0000000:\t0x00000005", "0x1000G000:\t0x00000001", "0x200@`000:\t0x00000001", "   0x000001d4 <main+4>:\tbx lr", "Cannot access memory at address 0x20000000"]
_SYMBOLS = ["impure_data", "impure_data+16", "main", "_ZN3FooC1Ev+4", "Foo::bar(int, char)+8", "std::vector<int, A<int> >::x+4",
            "operator<(A const&, B const&)::n", "A::operator->()+4", "operator>>(S&, int)::c", "operator<<(S&, int)+12",
            "(anonymous namespace)::g_x", "f<1 < 2>(int)+4"]


def symbol(rng):
    """A symbol as GDB prints it after an address; now and then as long as C++ makes them."""
    s = rng.choice(_SYMBOLS)
    if rng.randrange(6):
        return s
    n = rng.choice([60, 100, 130, 200, 255, 256, 300, 500, 512, 700, 850])
    while len(s) < n:
        k = rng.randrange(3)
        if k == 0:
            s = "ns%d::%s" % (rng.randrange(100), s)
        elif k == 1:
            s = "std::map<%s, std::vector<int, std::allocator<int> > >::_M_impl+%d" % (s, rng.randrange(64))
        else:
            s = s + "::inner_object_with_a_long_name<unsigned long>::value"
    return s[:850]


def gdb_registers(regs, rng):
    """`info all-registers` output in the layouts GDB versions produce."""
    sep = rng.choice(["\t", " " * 5, None])

    def col(name, first, second):
        if sep is None:
            return "%-15s%-19s%s" % (name, first, second)
        return "%-15s%s%s%s" % (name, first, sep, second)
    out = []
    for i, n in enumerate(Regs.NAMES[:17]):
        v = regs.r[i]
        second = "%d" % (v - (1 << 32) if v & 0x80000000 else v)
        if n in ("sp", "pc"):
            second = rng.choice(["0x%x" % v, "0x%x <main+%d>" % (v, v & 15)])
        out.append(col(n, "0x%x" % v, second))
    tail = []
    if regs.fp is not None:
        for i in range(16):
            tail.append(col("d%d" % i, "0", "(raw 0x%08x%08x)" % (regs.fp[2 * i + 1], regs.fp[2 * i])))
        fl = []
        for i in range(32):
            v = regs.fp[i]
            f = struct.unpack("<f", struct.pack("<I", v))[0]
            t = "-nan(0x%x)" % (v & 0x7FFFFF) if f != f else repr(round(f, 6)) if abs(f) < 1e9 else "%.8g" % f
            fl.append(col("s%d" % i, t, "(raw 0x%08x)" % v))
        tail += fl
        tail.append(col("fpscr", "0x%x" % regs.fp[32], "%d" % regs.fp[32]))
    if regs.r[17:19] != [Regs.DEFAULT_SP] * 2:
        tail.append(col("msp", "0x%x" % regs.r[17], "0x%x" % regs.r[17]))
        tail.append(col("psp", "0x%x" % regs.r[18], "0x%x" % regs.r[18]))
    for n in ("primask", "basepri", "faultmask", "control"):
        tail.append(col(n, "0x0", "0"))
    return out + tail


def gdb_memory(base, data, rng, symbols=True, full_lines=False):
    """x/4wx output for one region (data: whole words)."""
    out = []
    off = 0
    upper = rng.randrange(6) == 0
    while off < len(data):
        n = min(4, (len(data) - off) // 4)
        if not full_lines and rng.randrange(12) == 0:
            n = rng.randrange(1, n + 1)
        words = struct.unpack("<%dI" % n, data[off:off + 4 * n])
        a = "0x%08x" % ((base + off) & M32)
        if upper:
            a = "0x%08X" % ((base + off) & M32)
        if symbols and rng.randrange(4) == 0:
            a += " <%s>" % symbol(rng)
        line = a + ":" + "".join("\t0x%08x" % w for w in words)
        off += 4 * n
        if n < 4 and off >= len(data) and rng.randrange(2):
            line += "\tCannot access memory at address 0x%x" % ((base + off) & M32)
        out.append(line)
    return out


def gdblog(regs, regions, rng, noise=True):
    blocks = [gdb_memory(b, d, rng) for b, d in regions]
    blocks.append(gdb_registers(regs, rng))
    rng.shuffle(blocks)
    lines = []
    for b in blocks:
        for l in b:
            if noise and rng.randrange(15) == 0:
                lines.append(rng.choice(_NOISE))
            lines.append(l)
    nl = rng.choice(["\n", "\n", "\r\n"])
    s = nl.join(lines)
    if rng.randrange(5):
        s += nl
    return s.encode()
