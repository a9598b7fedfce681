"""Accesses outside mapped memory give GDB an error, and nothing else happens."""
import world, convo

PID, LEVEL = "C05", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 3000, 40000
RULE = ("each case builds a random world and sends 50-150 commands, most of them reads/writes at unmapped addresses or running over "
        "a region's end, interleaved with valid accesses, register access, resumes and queries; every reply is compared with the "
        "model, so a stale error, a lost error or a side effect shows in the reply or in the final comparison of all memory "
        "and registers; a situation is (previous operation, operation, outcome) and counts when compared")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c)",
               "requests do not run past the end of the 32-bit address space"]
W = dict(readbad=8, readedge=5, writebad=4, read=4, write=2, writeflash=1, regs=1, resume=1, stop=1, unknown=1, map=1,
         **{"break": 1})


def case(ctx, rng, idx):
    w, s = world.start(ctx, rng, aliases=None if idx % 3 == 0 else 0)
    try:
        c = convo.Convo(ctx, rng, w, s, W)
        c.run(rng.randrange(50, 150))
        if idx % 60 == 17:
            c.burst(rng.choice([127, 128, 255, 256, 257, 300]), rng.choice(["readbad", "writebad"]))
            c.run(20)
        elif idx in (5, 6):             # past a 16-bit count
            c.burst(rng.randrange(65534, 65540), ["readbad", "writebad"][idx % 2])
            c.run(20)
        world.audit(ctx, s, w.mem)
        world.check_registers(ctx, s, w)
        world.finish(ctx, s)
    finally:
        s.kill()
    if ctx.idx % 50 == 1:
        ctx.sample = {"args": w.args, "world": w.desc, "commands": ctx.log[-12:]}
