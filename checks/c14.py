"""The memory map advertised to GDB is exactly the memory that can be accessed, with FLASH and RAM told apart correctly."""
import xml.etree.ElementTree as ET
import world, convo

PID, LEVEL = "C14", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 3900, 40000
RULE = ("each case starts a random world (0-40, or up to 900, regions and aliases, or one of up to 16 MB), fetches the memory map repeatedly in chunks of random size with other "
        "commands in between, parses it, and checks that the union of its ram / flash ranges is the model's union of writable / "
        "read-only memory, then that reads succeed exactly inside it and writes exactly in ram ranges, at every edge and at random "
        "addresses; a situation is (regions, flash/ram mix, aliases, chunk class, kind of edge probed) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "how adjacent memory is split into ranges is not specified"]
W = dict(read=3, write=2, writeflash=2, resume=1, stop=1, regs=1, target=1, unknown=1, **{"break": 2})


def union(ranges):
    out = []
    for a, b in sorted(x for x in ranges if x[0] < x[1]):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


def parse(ctx, xml):
    try:
        root = ET.fromstring(xml)
    except ET.ParseError as e:
        ctx.fail("map-xml", "not well-formed: %s: %r" % (e, xml[:300]))
    ctx.check(root.tag == "memory-map", "map-xml", lambda: "root element %s" % root.tag)
    out = {"ram": [], "flash": []}
    for m in root.findall("memory"):
        t = m.get("type")
        ctx.check(t in out, "map-xml", lambda: "memory type %r" % t)
        a, n = int(m.get("start"), 0), int(m.get("length"), 0)
        out[t].append((a, a + n))
        if t == "flash":
            p = m.find("property")
            ctx.check(p is not None and p.get("name") == "blocksize" and int(p.text, 0) > 0, "map-xml", "flash without block size")
    ctx.count("map_ranges", sum(len(x) for x in out.values()))
    return out


def case(ctx, rng, idx):
    many = idx % 5 == 4
    big = idx % 13 == 12
    flash = idx % 11 == 10
    if idx % 60 == 17:          # more of everything than a fixed table or one packet holds
        many = True
        n = rng.choice(world.MANY)
        w, s = world.start(ctx, rng, image="elf", nseg=rng.choice([1, n]), nreg=rng.choice([2, n]), aliases=rng.choice([0, n]), big=24)
        ctx.count("maps_of_many_regions")
    elif idx % 400 == 250:
        n = [(1 << 18 + (idx // 400 + k * 3) % 7) + rng.choice([1, 4, rng.randrange(70000)]) for k in (0, 1)]
        w, s = world.start(ctx, rng, dump=rng.choice(["bin3", "bin2"]), aliases=3, huge=n[0], huge_image=n[1])
        ctx.count("maps_of_huge_regions")
    elif flash:                   # nothing but long FLASH entries
        w, s = world.start(ctx, rng, aliases=0, nreg=0, many=True)
        ctx.count("flash_only_maps")
    else:
        w, s = world.start(ctx, rng, aliases=rng.choice([0, 0, 1, 2, 4]), nreg=rng.randrange(6, 40) if many else None,
                           big=3000 if big else 400)
    try:
        chunk = rng.choice([1, 13, 64, 100, 256, 0x400, 0xFFF, 0x3FFF])
        if many and chunk < 64:
            chunk = 64
        xml = s.xfer("memory-map:read:", chunk)
        got = parse(ctx, xml)
        for t, ro in (("ram", False), ("flash", True)):
            want = union([(r.base, r.base + r.size) for r in w.mem.regions if r.ro == ro])
            ctx.check(union(got[t]) == want, "map-coverage", lambda: "%s: map has %s, memory is %s" % (
                t, ["0x%x-0x%x" % x for x in union(got[t])], ["0x%x-0x%x" % x for x in want]))
        inside = lambda t, a: any(x <= a < y for x, y in got[t])
        edges = sorted({a + d for t in got for x, y in got[t] for a in (x, y) for d in (-1, 0)})
        pts = [a for a in edges if 0 <= a < world.TOP]
        if len(pts) > 60:
            pts = rng.sample(pts, 60)
        pts += [a for a in world.probes(w.mem, rng, 10)] + [rng.getrandbits(32) for _ in range(5)]
        for a in pts:
            r = s.read_mem(a, 1)
            m = inside("ram", a) or inside("flash", a)
            ctx.check((r != b"E03") == m, "map-read", lambda: "0x%x is %sin the map but a read gives %r" % (a, "" if m else "not ", r))
            data = r if m else b"5a"
            q = s.command(b"M%x,1:" % a + data)
            ctx.check((q == b"OK") == inside("ram", a), "map-write", lambda: "0x%x is %sin a ram range but a write gives %r" % (
                a, "" if inside("ram", a) else "not ", q))
            ctx.count("probes")
            ctx.sig(m, inside("ram", a), a % 4, a in edges, min(len(w.mem.regions), 8))
        c = convo.Convo(ctx, rng, w, s, W)
        for _ in range(rng.randrange(0, 4)):
            c.run(rng.randrange(0, 6))
            n = rng.choice([13, 64, 0x400, 0xFFF]) if not many else 0xFFF
            ctx.check(s.xfer("memory-map:read:", n) == xml, "map-changed", "the memory map changed during the session")
            ctx.count("map_reads")
        k = rng.randrange(len(xml) + 1)          # any piece of it
        n = rng.randrange(1, 200)
        got = s.command("qXfer:memory-map:read::%x,%x" % (k, n))
        ctx.check(got[1:] == xml[k:k + n], "map-piece", lambda: "offset %d length %d: %r" % (k, n, got[:80]))
        ctx.sig("chunk", min(chunk, 300), min(len(w.mem.regions), 10))
        world.audit(ctx, s, w.mem)
        world.finish(ctx, s)
    finally:
        s.kill()
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc, "map": xml.decode()[-300:]}
