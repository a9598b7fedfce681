"""Image fidelity: what GDB reads where the image was loaded is the image file's bytes."""
import os
import formats, rsp, world

PID, LEVEL = "C01", "exploration"
BUILDS = ["exe", "exe_plain"]
QUICK, THOROUGH = 7500, 40000
RULE = ("each case writes a random executable image (ELF32: 1-6, or 17-300 small, loadable segments of 1..4000 bytes plus ignorable entries, "
        "odd header and file layouts, shared file bytes, random physical addresses incl. the top of memory; or raw binary at a random base; now and then a segment of up to 16 MB, one ELF file of 4 GB, entries which load any part of the file such as its own headers), starts the "
        "sanitized program and reads every image byte back through memory-read packets of mixed size and alignment, plus "
        "probes at segment edges; a situation is (image kind, segment count class, size class mod 4, base alignment, adjacency, "
        "top-of-memory, read order) and counts once its bytes were compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "segments of one image do not overlap", "the ELF file itself is produced by lib/formats.py"]


def elf_4gb(ctx, rng):
    """An ELF file of 4 GB and more, with bytes at the far end of the offsets a header can hold."""
    if world.memory_is_short(ctx):
        return
    w = world.World()
    w.placer = world.Placer(rng)
    n = rng.randrange(2, 4000)
    offset = (1 << 32) - rng.choice([1, n // 2, n - 1, n, n + 1, 0x1000])
    segs = []
    for i in range(2):
        k = n if i else rng.randrange(1, 4000)
        d = world.rand_bytes(rng, k)
        segs.append((w.placer.place(k), d))
    img = formats.elf([dict(paddr=segs[0][0], data=segs[0][1]),
                       dict(paddr=segs[1][0], data=b"", offset=offset, filesz=n, memsz=n)])
    w.img_args = ["--elf", "image.elf"]
    for a, d in segs:
        w.mem.add(a, d, True, "4gb")
        w.segments.append((a, d))
    world.gen_dump(w, rng, "bin3", nreg=1)
    w.args = w.img_args + w.dump_args
    w.files["image.elf"] = img
    w.write(ctx)
    with open(os.path.join(ctx.dir, "image.elf"), "r+b") as f:
        f.seek(offset)
        f.write(segs[1][1])
        f.truncate(max(offset + n, (1 << 32) + rng.choice([0, 1, 52, 100, 5000])))
    s = ctx.session(w.args, exe="exe_plain", wait=300, cpu=200)
    try:
        try:
            s.connect()
            s.command("?")
        except rsp.Hang:
            return ctx.count("skipped_for_time")
        except rsp.Dead:
            with open(os.path.join(ctx.dir, "stderr.txt"), errors="replace") as f:
                if s.p.wait(60) == -9 or "Failed to allocate" in f.read():
                    return ctx.count("skipped_for_memory")
            raise
        for a, d in segs:
            world.dump_range(ctx, s, w.mem, a, len(d), rng)
            ctx.count("image_bytes_compared", len(d))
        for p in world.probes(w.mem, rng, 10):
            world.read_check(ctx, s, w.mem, p, rng.choice([1, 2, 4, 16]))
        ctx.count("images_of_4_gb")
        ctx.sig("elf-4gb", offset + n > 1 << 32)
        world.finish(ctx, s)
    finally:
        s.kill()


def case(ctx, rng, idx):
    if idx % QUICK == 11:
        return elf_4gb(ctx, rng)
    kw = {}
    big = idx % 40 == 39
    w = world.World()
    w.placer = world.Placer(rng)
    if big:
        n = rng.randrange(60000, 200000 if not ctx.thorough else 1500000)
        data = world.rand_bytes(rng, n)
        a = w.placer.take(rng.choice([0, 0x08000000, 0x00004000]), n)
        if rng.randrange(2):
            w.files["image.elf"] = formats.elf([dict(paddr=a, data=data)])
            w.img_args = ["--elf", "image.elf"]
        else:
            w.files["image.bin"] = data
            w.img_args = ["--bin", "image.bin", "0x%x" % a]
        w.mem.add(a, data, True, "big")
        w.segments.append((a, data))
        kind = "big"
    elif idx % 1000 == 700:          # sizes and file offsets past what a narrow field holds
        n = (1 << 18 + idx // 1000 % 7) + rng.choice([1, 4, rng.randrange(70000)])
        kind = world.gen_image(w, rng, ["elf", "bin", "elf"][idx // 1000 % 3], huge=n, nseg=rng.choice([2, 3]))
        big = True
        ctx.count("huge_images")
    elif idx % 60 == 17:
        world.gen_image(w, rng, "elf", nseg=rng.choice(world.MANY), big=24)
        kind = "many"
    else:
        kind = world.gen_image(w, rng)
    world.gen_dump(w, rng, nreg=rng.choice([0, 1, 2]))
    w.args = w.img_args + w.dump_args if rng.randrange(2) else w.dump_args + w.img_args
    w.write(ctx)
    s = ctx.session(w.args)
    s.connect()
    try:
        for a, n in [(p, rng.choice([1, 2, 4, 8])) for p in world.probes(w.mem, rng, 10)]:
            world.read_check(ctx, s, w.mem, a, n)
        segs = list(w.segments)
        rng.shuffle(segs)
        for a, d in segs:
            world.dump_range(ctx, s, w.mem, a, len(d), None if big else rng)
            ctx.count("image_bytes_compared", len(d))
            b = {x for r in w.mem.regions for x in (r.base, r.base + r.size)}
            ctx.sig(kind, min(len(segs), 4), len(d) % 4, len(d).bit_length(), a % 4, a + len(d) == world.TOP,
                    sum(1 for r in w.mem.regions if r.base == a + len(d) or r.base + r.size == a))
        for p in world.probes(w.mem, rng, 10):
            world.read_check(ctx, s, w.mem, p, rng.choice([1, 2, 4, 16]))
        world.finish(ctx, s)
    finally:
        s.kill()
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc}
