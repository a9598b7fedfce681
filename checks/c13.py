"""Registers: g serves the dump's values, G replaces them, and the target description describes exactly what g carries."""
import struct
import xml.etree.ElementTree as ET
import world, convo, formats as F

PID, LEVEL = "C13", "exploration"
BUILDS = ["exe", "exe_msan"]
QUICK, THOROUGH = 3000, 40000
RULE = ("each case starts a session from a random dump (all formats, with/without FPU), fetches the target description in chunks of random "
        "size, lays its registers out by register number and decodes the g packet with that layout; every register must have the "
        "dump's value under its own name; then G writes random values (also FPU ones), interleaved with memory traffic, resumes and "
        "truncated or over-long G packets, and g / the stop report must show them; a situation is (dump format, fpu, chunk class, "
        "operation sequence) and counts when all registers were compared by name")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "what registers hold after a G packet that carries too few or invalid digits is not specified, only that the session goes on"]
W = dict(read=3, write=2, writeflash=1, resume=2, stop=2, regs=4, setregs=5, target=1, map=1, **{"break": 1})
CORE = ["r%d" % i for i in range(13)] + ["sp", "lr", "pc"]


def parse(ctx, xml):
    """[(name, bits)] in register-number order, as GDB lays the g packet out."""
    try:
        root = ET.fromstring(xml)
    except ET.ParseError as e:
        ctx.fail("target-xml", "not well-formed: %s: %r" % (e, xml[:200]))
    ctx.check(root.tag == "target", "target-xml", lambda: "root element %s" % root.tag)
    n, regs = 0, {}
    features = {}
    for f in root.findall("feature"):
        features[f.get("name")] = [r.get("name") for r in f.findall("reg")]
        for r in f.findall("reg"):
            n = int(r.get("regnum", n))
            ctx.check(n not in regs, "target-xml", lambda: "register number %d is used twice" % n)
            regs[n] = (r.get("name"), int(r.get("bitsize")), r.get("type"))
            n += 1
    return features, [regs[i] for i in sorted(regs)]


def decode(ctx, regs, packet):
    data = bytes.fromhex(packet.decode("latin-1"))
    total = sum(b for _, b, _ in regs) // 8
    ctx.check(len(data) == total, "layout", lambda: "g carries %d bytes, the target description %d" % (len(data), total))
    out, o = {}, 0
    for name, bits, _ in regs:
        out[name] = int.from_bytes(data[o:o + bits // 8], "little")
        o += bits // 8
    return out


def expected(r):
    e = dict(zip(F.Regs.NAMES, r.r))
    if r.fp is not None:
        for i in range(16):
            e["d%d" % i] = r.fp[2 * i] | r.fp[2 * i + 1] << 32
        e["fpscr"] = r.fp[32]
    return e


def by_name(ctx, s, w, layout):
    got = decode(ctx, layout, s.command("g"))
    want = expected(w.regs)
    for n in want:
        ctx.check(got.get(n) == want[n], "register-value", lambda: "%s: got %s, expected 0x%x" % (
            n, "nothing" if n not in got else "0x%x" % got[n], want[n]))
    ctx.check(set(got) == set(want), "register-names", lambda: "registers %s" % sorted(set(got) ^ set(want)))
    ctx.count("register_values", len(want))


def case(ctx, rng, idx):
    fp = idx % 2
    kind = ["bin3", "hex3", "bin2", "hex2", "log"][idx % 5]
    w, s = world.start(ctx, rng, exe="exe_msan" if idx % 10 == 9 else "exe", dump=kind, fp=fp, aliases=0)
    try:
        chunk = rng.choice([1, 7, 33, 64, 100, 500, 0xFFF, 0x3000])
        xml = s.xfer("features:read:target.xml", chunk)
        features, layout = parse(ctx, xml)
        ctx.check(features.get("org.gnu.gdb.arm.m-profile") == CORE + ["xpsr"], "target-features", lambda: repr(features))
        ctx.check(("org.gnu.gdb.arm.vfp" in features) == bool(fp), "target-features", lambda: "fp=%d %r" % (fp, sorted(features)))
        by_name(ctx, s, w, layout)
        c = convo.Convo(ctx, rng, w, s, W)
        ops = []
        for _ in range(rng.randrange(3, 20)):
            if rng.randrange(6) == 0:            # too long, or register writes followed by reads of the same
                w.regs.r[rng.randrange(19)] = rng.getrandbits(32)
                payload = b"G" + w.regs.g_bytes().hex().encode() + (rng.choice([b"", b"00", b"ffffffff"]))
                if rng.randrange(2):
                    payload = payload[:1] + payload[1:].upper()
                got = s.command(payload)
                ctx.check(got == b"OK", "register-write", lambda: "G: %r" % got)
                ops.append("G+")
            else:
                c.run(1)
                ops.append(c.prev)
            if rng.randrange(3) == 0:
                by_name(ctx, s, w, layout)
        if idx % 100 == 17:
            for _ in range(rng.choice([128, 256, 300])):
                c.op_setregs()
        by_name(ctx, s, w, layout)
        ctx.check(s.xfer("features:read:target.xml", rng.choice([50, 0xFFF])) == xml, "target-xml", "the target description changed")
        if rng.randrange(4) == 0:                # a G packet that ends early
            g = w.regs.g_bytes().hex().encode()
            s.command(b"G" + g[:rng.randrange(len(g))])
            ctx.check(len(s.command("g")) == len(g), "layout", "g changed its length after a short G")
        world.audit(ctx, s, w.mem)
        world.finish(ctx, s)
        ctx.sig(kind, fp, min(chunk, 65), tuple(ops[:3]))
    finally:
        s.kill()
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "layout": [n for n, _, _ in layout][:20], "chunk": chunk}
