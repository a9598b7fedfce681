"""An alias is the memory it redirects to: same bytes, same writes, same protection, same limits."""
import world, convo

PID, LEVEL = "C15", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 6000, 40000
RULE = ("each case defines 1-5 aliases (of RAM, FLASH and of other aliases; at the start, middle or last byte of their target; shorter "
        "than, as long as, or longer than what is left of it; adjacent to other memory; far into or as long as a huge target; decimal or hex; before or after the other "
        "options) and sends 40-120 reads and writes aimed at aliases, targets and both sides of their edges; the model applies "
        "each write to the one underlying byte array, so views that diverge, wrong offsets, lost protection and wrong ends show; "
        "a situation is (target kind, alias depth, offset class, size class, operation, outcome) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "an alias ends where the region it points into ends; where separate dump blocks touch, whether they are one region is not specified"]


def case(ctx, rng, idx):
    kw = {}
    if idx % 400 == 300:
        n = [(1 << 18 + (idx // 400 + k * 3) % 7) + rng.choice([1, 4, rng.randrange(70000)]) for k in (0, 1)]
        kw = dict(dump=rng.choice(["bin3", "bin2"]), huge=n[0], huge_image=n[1])
        ctx.count("huge_targets")
    w = world.gen_world(rng, aliases=0, nreg=rng.choice([1, 2, 3]), big=300, **kw)
    depth = {}
    args = []
    cands = [(r, 0) for r in w.mem.regions if r.size]
    made = []
    for _ in range(rng.randrange(1, 6) if idx % 60 != 17 else rng.choice(world.MANY)):
        t, d = rng.choice(cands if rng.randrange(3) else [c for c in cands if c[1]] or cands)
        off = rng.choice([0, 0, t.size - 1, rng.randrange(t.size), min(4, t.size - 1)])
        left = t.size - off
        if t.target is not None:
            left = min(t.size - off, t.target.size)
        size = rng.choice([left, left, left - 1, left + 1, left + 100, rng.randrange(1, left + 1), 1, 2, 4])
        end_mapped = w.mem.mapped(t.base + t.size)
        size = max(1, size)
        if end_mapped or (t.target is not None and w.mem.mapped(t.target.base + t.target.size)):
            size = min(size, left)
        base = w.placer.place(size, rng.choice([1, 1, 4]))
        if t.target is not None:
            # what is left of the memory behind the alias counts, not of the alias itself
            real = t.target
            roff = off + t.delta
            n = min(size, real.size - roff)
            r = world.Region(base, None, real.ro, "alias", real, roff, n)
            w.mem.regions.append(r)
        else:
            r = w.mem.alias(base, t.base + off, size)
        cands.append((r, d + 1))
        made.append((r, d + 1, off == 0, size > left, t.ro))
        f = rng.choice(["0x%x", "%d", "0x%08X"])
        args.append(["--alias", f % base, f % size, f % (t.base + off)])
        w.desc.append("alias 0x%x+0x%x->0x%x" % (base, size, t.base + off))
    flat = [x for a in args for x in a]
    w.args = flat + w.args if rng.randrange(3) == 0 else w.args + flat
    w.write(ctx)
    s = ctx.session(w.args)
    s.connect()
    try:
        c = convo.Convo(ctx, rng, w, s, dict(read=1))
        for r, d, at0, longer, ro in made if len(made) < 10 else rng.sample(made, 10) + made[-3:]:
            world.read_check(ctx, s, w.mem, r.base, min(r.size, 64), "alias-read")
        for _ in range(rng.randrange(40, 120)):
            r, d, at0, longer, ro = rng.choice(made)
            view = rng.randrange(3)
            base = r.base if view < 2 else r.target.base + r.delta
            off = rng.choice([0, r.size - 1, r.size, -1, rng.randrange(r.size), rng.randrange(r.size), r.size - 4, r.size - 2])
            a = base + off
            if not 0 <= a < world.TOP:
                continue
            n = min(rng.choice([1, 1, 2, 2, 4, 4, 3, 8, 30]), world.TOP - a)
            k = rng.randrange(5)
            if k < 3:
                res = c.write_at(a, world.rand_bytes(rng, n))
                # the written bytes through the other view
                o = (r.target.base + r.delta if view < 2 else r.base) + off
                if 0 <= o < world.TOP:
                    world.read_check(ctx, s, w.mem, o, min(n, world.TOP - o), "alias-view")
            else:
                got = world.read_check(ctx, s, w.mem, a, n, "alias-read")
                res = got == b"E03"
            ctx.count("alias_accesses")
            ctx.sig(ro, d, at0, longer, view, k < 3, res, off == 0, off == r.size, off == r.size - 1, min(n, 5))
        world.audit(ctx, s, w.mem)
        if rng.randrange(3) == 0:
            s.resume("c")
            world.audit(ctx, s, w.mem)
        world.check_registers(ctx, s, w)
        world.finish(ctx, s)
    finally:
        s.kill()
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc}
