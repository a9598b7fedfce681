"""Exceptions: whatever the nesting of guarded blocks, calls, rethrows and handlers, control and codes arrive where they must."""
import re, sys
import driver, rsp

sys.setrecursionlimit(20000)

PID, LEVEL = "C19", "exploration"
BUILDS = ["trydrv"]
QUICK, THOROUGH = 4500, 30000
RULE = ("each case runs 20 random programs (up to 60 statements, nesting depth 8; two of the 20 with nesting up to 300 or rows of up to 300 blocks) of guarded blocks, calls, throws with and without "
        "messages (up to 5000 characters), rethrows, clears and swallowing functions, written with the real macros, and compares the marks, "
        "codes, messages and handler depth printed by every statement with a model; every 10th case ends with an uncaught throw, which must "
        "end the process; a situation is (how a block ended, nesting, what its handler did) and counts when compared")
ASSUMPTIONS = ["not specified, and not generated: a guarded block whose body ends normally with an exception still pending that an inner handler "
               "did not clear; rethrowing after a guarded block within the same handler",
               "codes: the higher one wins when a handler throws while one is pending, as the existing tests require"]


def gen_body(rng, budget, nest, in_handler):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 6])):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        k = rng.randrange(20)
        if k < 3:
            budget[1] += 1
            out.append(("k", budget[1]))
        elif k < 6:
            out.append(("p",))
        elif k < 11 and nest < 8:
            b = gen_body(rng, budget, nest + 1, False)
            h = [("p",)] if rng.randrange(3) else []
            h += gen_body(rng, budget, nest + 1, True)
            if rng.randrange(3):
                h.insert(rng.randrange(len(h) + 1), ("c",))
            out.append(("T", b, h))
        elif k == 11 and nest < 8:
            out.append(("F", gen_body(rng, budget, nest + 1, in_handler)))
        elif k < 14 and nest < 8:
            out.append((rng.choice("NV"), gen_body(rng, budget, nest + 1, False)))
        elif k < 15 and in_handler:
            out.append(("r",))
        elif k < 19:
            c = rng.choice([1, 2, rng.randrange(1, 40), rng.randrange(1, 40), 1000, rng.choice([127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1])])
            j = rng.randrange(4)
            if j == 0:
                out.append(("m", c, rng.choice([0, 1, 20, 1000, 1022, 1023, 1024, 1025, 2000, 4999]), rng.randrange(26)))
            elif j == 1:
                out.append(("f", c, rng.randrange(5, 1 << 31)))
            else:
                out.append(("t", c))
    return out


def words(body):
    out = []
    for s in body:
        if s[0] == "T":
            out += ["T"] + words(s[1]) + ["C"] + words(s[2]) + ["E"]
        elif s[0] in "FNV":
            out += [s[0]] + words(s[1]) + ["E"]
        else:
            out += [str(x) for x in s]
    return out


class Throw(Exception):
    pass


class Unspecified(Exception):
    pass


class Model:
    def __init__(self):
        self.code, self.msg, self.depth, self.out, self.sigs, self.nest = 0, "", 0, [], [], 0

    def guarded(self, body):
        """Runs a body as a guarded block does; returns whether it was left by a throw."""
        self.code, self.msg = 0, ""
        self.depth += 1
        self.nest += 1
        try:
            self.run(body, None)
            if self.code:
                raise Unspecified()
            return False
        except Throw:
            return True
        finally:
            self.depth -= 1
            self.nest -= 1

    def run(self, body, handler):
        """handler: the state of the handler we are in ({"fresh": no guarded block ran in it yet}), or None in a guarded body."""
        for s in body:
            k = s[0]
            if k == "k":
                self.out.append("k%d" % s[1])
            elif k == "p":
                self.out.append("p%d/%d/%s" % (self.code, self.depth, self.msg))
            elif k == "c":
                self.code = 0
            elif k == "F":
                self.run(s[1], handler)
            elif k in "NV":
                t = self.guarded(s[1])
                self.code = 0 if t else self.code
                if k == "V":
                    self.out.append("v-7" if t else "v11")
                if handler is not None:
                    handler["fresh"] = False
                self.sigs.append(("swallow", k, t, self.nest))
            elif k == "T":
                t = self.guarded(s[1])
                if handler is not None:
                    handler["fresh"] = False
                if t:
                    self.out.append("[")
                    code = self.code
                    try:
                        self.run(s[2], {"fresh": True})
                    except Throw:
                        self.sigs.append(("handler-threw", self.nest, self.code > code, self.depth))
                        raise
                    self.out.append("]")
                    self.sigs.append(("handled", self.nest, self.code != 0))
                    if self.code and self.depth:
                        raise Unspecified()
                else:
                    self.sigs.append(("normal", self.nest))
                self.out.append("y" if t else "n")
            elif k == "r":
                if self.code == 0 or handler is None or not handler["fresh"]:
                    raise Unspecified()
                self.sigs.append(("rethrow", self.depth))
                raise Throw()
            else:
                if self.code and (handler is None or not handler["fresh"]) and s[1] < self.code:
                    raise Unspecified()
                if k == "m":
                    self.msg = "".join(chr(97 + (s[3] + i * 7) % 26) for i in range(s[2]))[:1023]
                elif k == "f":
                    self.msg = "at 0x%08X: %d of x y !%%" % (s[2], s[2] - 5)
                self.sigs.append(("throw", k, s[2] if k == "m" else None, self.code != 0, s[1] > self.code))
                self.code = max(self.code, s[1])
                raise Throw()


def gen_deep(rng):
    """Guarded blocks and calls nested dozens to hundreds deep, with throws that pass many of them; or a long row of blocks."""
    if rng.randrange(3) == 0:
        out = []
        for i in range(rng.choice([130, 257, 300])):
            out += [("T", [("t", rng.randrange(1, 40))] if rng.randrange(3) else [("k", i)], [("c",)])]
        return out + [("p",)]
    n = rng.choice([20, 40, 65, 100, 129, 200, 257, 300])
    body = [("k", 0)] + ([rng.choice([("t", 5), ("m", 7, 1000, 3), ("f", 9, 77)])] if rng.randrange(6) else [])
    for i in range(n):
        k = rng.randrange(6)
        if k == 0:
            body = [("F", body)]
        else:
            h = [("p",)] if rng.randrange(4) == 0 else []
            end = rng.randrange(30)
            if end == 0:
                h += [("c",)]
            elif end < 4:
                h += [("t", rng.randrange(1, 1000))]
            else:
                h += [("r",)]
            body = [("T", body, h)] + ([("k", i)] if rng.randrange(4) == 0 else [])
    return [("T", body, [("p",), ("c",)]), ("p",)]


def program(rng, deep=False):
    while True:
        body = gen_deep(rng) if deep else gen_body(rng, [rng.choice([8, 15, 30, 60]), 0], 0, False)
        if not any(s[0] in "TNV" for s in body):
            continue
        m = Model()
        yield_ = None
        try:
            m.run(body, None)
        except Unspecified:
            continue
        except Throw:
            yield_ = True
        w = words(body)
        if len(w) < 4000 and len(m.out) < (1500 if deep else 400):
            return body, w, m, yield_ is True


def case(ctx, rng, idx):
    d = driver.Driver(ctx, "trydrv")
    try:
        n = 0
        last = None
        code, msg = 0, ""
        while n < 20:
            body, w, m, uncaught = program(rng, n % 10 == 9)
            if uncaught:
                last = w, m
                continue
            n += 1
            # the first guarded block or clear makes the program independent of what earlier ones left behind
            d.send(" ".join(["T", "C", "E"] + w))
            got = d.line()
            want = "ok n " + "".join(x + " " for x in m.out) + "depth0"
            ctx.trace(" ".join(w)[:400])
            if got.endswith("depth-1"):         # built without a view of the chain: what it does still shows
                want = re.sub(r"\bp(\d+)/\d+/", r"p\1/-1/", want)[:-1] + "-1"
            if got != want:
                ctx.fail("trace", "program %s\nprinted  %s\nexpected %s" % (" ".join(w)[:600], got[:800], want[:800]))
            ctx.count("programs")
            ctx.count("observations", len(m.out))
            for x in m.sigs:
                ctx.sig(*x)
        if idx % 10 == 0 and last:
            w, m = last
            d.send(" ".join(["T", "C", "E"] + w + ["k", "12345"]))
            rest = d.buf
            while True:
                import os
                x = os.read(d.p.stdout.fileno(), 65536)
                if not x:
                    break
                rest += x
            rc = d.p.wait(60)
            ctx.check(rc != 0 and b"k12345" not in rest and b"depth" not in rest, "uncaught", lambda: "exit %d, printed %r" % (rc, rest[-200:]))
            err = open(d.err_path, "rb").read().decode("latin-1")
            rep = rsp.sanitizer_report(err)
            ctx.check(rep is None or "ABRT" in rep or "TRAP" in rep, "sanitizer", lambda: rep)
            ctx.count("uncaught")
            ctx.sig("uncaught", rc, m.nest)
        else:
            d.close()
    finally:
        d.kill()
    if idx % 50 == 1:
        ctx.sample = {"program": ctx.log[-1]}
