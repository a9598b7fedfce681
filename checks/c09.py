"""The conversation depends only on the bytes GDB sends: fragmentation is invisible and a dead line ends the program."""
import fcntl, os, signal, socket, struct, subprocess, time
import rsp, world, convo, oracle, formats

PID, LEVEL = "C09", "exploration"
BUILDS = ["exe"]
QUICK, THOROUGH = 900, 16000
RULE = ("each case records the reply bytes of a random lock-step conversation, then repeats it with the same bytes cut into random "
        "fragments (single bytes up to whole packets, with delays inside packets, over a pipe or a socket, with a slow reader "
        "on a 4 KB pipe) and requires the same bytes back; then it ends the input after a random byte, or fails the n-th read / write / "
        "poll call, and requires the program to end by itself with a failure status having sent a prefix of the recorded replies "
        "(a failed poll must change nothing); a situation is (mode, command before, position in the packet, outcome)")
ASSUMPTIONS = ["the GDB packet layer is a small stand-in for the absent mri submodule (stubs/mri_core.c); it drops a packet when more "
               "input is waiting right behind it, so commands are sent in lock-step as GDB does",
               "an interrupted system call (EINTR) on the console is not injected"]
W = dict(read=4, readedge=1, write=4, regs=1, setregs=1, stop=1, resume=2, unknown=1, map=1, target=1, softbreak=1, **{"break": 1})


def record(ctx, rng, w, fault=False):
    """[(bytes sent, bytes received before the next send)]"""
    s = ctx.session(w.args)
    steps = []
    orig = s.send

    def send(data):
        steps.append([data, len(s.rx)])
        orig(data)
    s.send = send
    try:
        s.connect()
        c = convo.Convo(ctx, rng, w, s, W)
        c.run(rng.randrange(3, 14))
        if fault:
            c.op_resume()
        sent = list(steps)
        total = len(s.rx)
        rx = s.rx
        rc, err, rest = s.close()
        world.no_sanitizer(ctx, rc, err)
        ctx.check(rest == b"", "extra-bytes", lambda: "bytes nobody asked for: %r" % rest[:60])
        ctx.check(rc != 0, "eof-status", lambda: "end of input: exit status 0")
    finally:
        s.kill()
    out = []
    for i, (data, before) in enumerate(sent):
        after = sent[i + 1][1] if i + 1 < len(sent) else total
        out.append((data, rx[before:after]))
    return out, rx


def fragments(rng, data):
    k = rng.randrange(5)
    if k == 0:
        return [data[i:i + 1] for i in range(len(data))] if len(data) < 200 else [data[:100]] + [data[i:i + 1] for i in range(100, 140)] + [data[140:]]
    if k == 1:
        p = rng.randrange(len(data))
        return [x for x in (data[:p], data[p:]) if x]
    if k == 2:          # cut inside the checksum, in front of '#', behind '$'
        p = [x for x in (1, len(data) - 3, len(data) - 2, len(data) - 1) if 0 < x < len(data)]
        cut = sorted(set(rng.choice(p) for _ in range(2))) if p else []
        return [x for x in (data[a:b] for a, b in zip([0] + cut, cut + [len(data)])) if x]
    out = []
    while data:
        n = rng.choice([1, 2, 3, 7, 20, 200])
        out.append(data[:n])
        data = data[n:]
    return out


class Line:
    """The program on a pipe or a socket."""

    def __init__(self, ctx, w, env, sock, slow):
        self.sock = None
        if sock:
            a, b = socket.socketpair()
            e = dict(os.environ)
            e.update(rsp.SAN_ENV)
            e.update(env or {})
            self.err = open(os.path.join(ctx.dir, "stderr.txt"), "wb")
            self.p = subprocess.Popen([ctx.exe()] + w.args, cwd=ctx.dir, env=e, stdin=b, stdout=b, stderr=self.err,
                                      preexec_fn=rsp.limits)
            b.close()
            self.sock = a
            self.fd = a.fileno()
            self.wfd = self.fd
        else:
            self.s = ctx.session(w.args, env=env)
            self.p = self.s.p
            self.fd = self.p.stdout.fileno()
            self.wfd = self.p.stdin.fileno()
            if slow:
                fcntl.fcntl(self.fd, 1031, 4096)        # F_SETPIPE_SZ
        self.errpath = os.path.join(ctx.dir, "stderr.txt")
        self.rx = b""

    def write(self, data):
        while data:
            n = os.write(self.wfd, data)
            data = data[n:]

    def read(self, n, deadline):
        import select
        while len(self.rx) < n:
            r, _, _ = select.select([self.fd], [], [], max(0, min(1, deadline - time.monotonic())))
            if not r:
                if time.monotonic() > deadline:
                    raise rsp.Hang()
                continue
            try:
                d = os.read(self.fd, 65536)
            except ConnectionResetError:
                d = b""
            if not d:
                return False
            self.rx += d
        return True

    def eof(self):
        if self.sock:
            self.sock.shutdown(socket.SHUT_WR)
        else:
            self.p.stdin.close()

    def end(self):
        """Reads the rest and waits. Returns (status, stderr)."""
        self.read(1 << 60, time.monotonic() + rsp.WAIT_S)
        try:
            rc = self.p.wait(timeout=rsp.WAIT_S)
        except subprocess.TimeoutExpired:
            raise rsp.Hang()
        if rc == -signal.SIGXCPU:
            raise rsp.Hang()
        with open(self.errpath, "rb") as f:
            return rc, f.read().decode("latin-1")

    def close(self):
        self.p.kill()
        self.p.wait()
        if self.sock:
            self.sock.close()
            self.err.close()
        else:
            self.s._release()


def replay(ctx, rng, w, steps, rx, env=None, stop=None, frag=True, may_die=False):
    """Sends the recorded bytes. stop: (step, byte) at which the input ends. Returns (status, stderr, received)."""
    sock = rng.randrange(4) == 0
    slow = rng.randrange(3) == 0
    ln = Line(ctx, w, env, sock, slow)
    try:
        want = b""
        died = False
        for i, (data, reply) in enumerate(steps):
            part = data if stop is None or stop[0] != i else data[:stop[1]]
            try:
                for f in fragments(rng, part) if frag and part else [part]:
                    if f:
                        ln.write(f)
                    if frag and rng.randrange(4) == 0:
                        time.sleep(rng.choice([0, 0.0003, 0.001]))
            except (BrokenPipeError, ConnectionResetError):
                died = True
            if stop is not None and stop[0] == i:
                break
            want += reply
            if slow and len(reply) > 3000:
                time.sleep(0.003)
            if not died and not ln.read(len(want), time.monotonic() + rsp.WAIT_S):
                died = True
            if died:
                break
            ctx.check(ln.rx == want, "fragmentation", lambda: "step %d (%r): received %r, expected %r" % (
                i, data[:60], ln.rx[len(want) - len(reply):][:80], reply[:80]))
            ctx.count("steps_compared")
        ctx.check(may_die or not died, "died", "the program ended in the middle of the conversation")
        ln.eof()
        rc, err = ln.end()
        return rc, err, ln.rx, sock
    finally:
        ln.close()


def case(ctx, rng, idx):
    fault = idx % 3 == 0            # every resume sends a long explanation in many small packets
    kw = {}
    if fault:
        regs = formats.Regs(rng, bool(rng.randrange(2)))
        regs.exc = rng.choice([3, 4, 5, 6])
        words = [rng.getrandbits(32) | 0x8080, rng.getrandbits(32) | 1 << 30] + [rng.getrandbits(32) for _ in range(3)]
        kw = dict(dump=rng.choice(["bin3", "hex3", "bin2"]), regs=regs, fp=regs.fp is not None,
                  fault=[(oracle.CFSR, struct.pack("<5I", *words))])
    w = world.gen_world(rng, aliases=rng.choice([0, 1]), big=300, **kw)
    w.write(ctx)
    steps, rx = record(ctx, rng, w, fault)
    ctx.count("conversations")
    kinds = [bytes(d[:2]) for d, _ in steps]
    # 1. fragmentation
    for _ in range(2):
        rc, err, got, sock = replay(ctx, rng, w, steps, rx)
        world.no_sanitizer(ctx, rc, err)
        ctx.check(got == rx, "fragmentation", lambda: "received %r..., expected %r..." % (got[-80:], rx[-80:]))
        ctx.sig("fragments", sock, tuple(sorted(set(kinds))))
    # 2. the input ends anywhere
    for n in range(8 if fault else 3):
        i = rng.randrange(len(steps)) if n % 2 == 0 else rng.randrange(max(0, len(steps) - 45), len(steps))
        k = rng.randrange(len(steps[i][0]) + 1)
        rc, err, got, sock = replay(ctx, rng, w, steps, rx, stop=(i, k), frag=rng.randrange(2), may_die=True)
        world.no_sanitizer(ctx, rc, err)
        ctx.check(rc != 0, "eof-status", "input ended inside a conversation: exit status 0")
        limit = rx[:sum(len(r) for _, r in steps[:i + (k == len(steps[i][0]))])]
        # once a packet is complete its reply may still be sent (or be cut off by the end of the line)
        ctx.check(rx.startswith(got) and len(got) <= sum(len(r) for _, r in steps[:i + 1]), "eof-output",
                  lambda: "input ended at byte %d of %r: sent %r, replies up to there are %r" % (k, steps[i][0][:40], got[-80:], limit[-80:]))
        ctx.count("input_ends")
        ctx.sig("eof", sock, kinds[i], min(k, 3), min(len(steps[i][0]) - k, 3))
    # 3. I/O errors
    nread = sum(len(d) for d, _ in steps)
    for op, top in (("read", nread), ("write", len(rx)), ("select", len(steps) * 2)):
        n = rng.choice([1, 2, rng.randrange(1, top + 1), rng.randrange(1, top + 1), top])
        if fault and op != "select":
            n = rng.randrange(max(1, top - (1200 if op == "write" else 60)), top + 1)
        rep = ctx.report_env({"VF_FAULT": "%s:%d" % (op, n)})
        rc, err, got, sock = replay(ctx, rng, w, steps, rx, env=rep, frag=False, may_die=op != "select")
        world.no_sanitizer(ctx, rc, err)
        r = ctx.report()
        ctx.check(r is not None, "no-report", "the program did not end through exit()")
        ctx.check(r["live"] == 0 and r["open"] == 0, "leak", lambda: "%s:%d: %d allocations and %d files left" % (op, n, r["live"], r["open"]))
        if not r["fired"].get(op):
            continue
        ctx.count("io_faults")
        if op == "select":
            ctx.check(got == rx, "select-error", lambda: "a failed poll changed the replies: %r, expected %r" % (got[-80:], rx[-80:]))
        else:
            ctx.check(rc != 0, "io-status", lambda: "failed %s: exit status 0" % op)
            ctx.check(rx.startswith(got), "io-output", lambda: "failed %s %d: sent %r, expected a prefix of %r" % (op, n, got[-80:], rx[-80:]))
            if op == "write":
                ctx.check(len(got) < len(rx), "io-output", "a byte could not be written but the conversation went on")
            if op == "read":
                seen, allowed = 0, 0
                for d, rep_bytes in steps:
                    seen += len(d)
                    if seen >= n:
                        break
                    allowed += len(rep_bytes)
                # of the packet whose byte was lost nothing can be answered
                ctx.check(len(got) <= allowed, "io-output", lambda: "read %d failed but %d bytes were answered, %d at most" % (n, len(got), allowed))
        ctx.sig(op, sock, min(n, 4), n == top)
    if idx % 50 == 1:
        ctx.sample = {"args": w.args, "steps": [d[:40].decode("latin-1") for d, _ in steps[:12]]}
