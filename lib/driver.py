"""Talks to an in-process driver (drivers/*.c): one operation per line, one result line back."""
import os, select, subprocess, time
import rsp


class Driver:
    CPU = 60

    def __init__(self, ctx, name, args=(), env=None, stdin_fd=None):
        self.ctx, self.name = ctx, name
        e = dict(os.environ)
        e.update(rsp.SAN_ENV)
        e.update(env or {})
        self.err_path = os.path.join(ctx.dir, "stderr.txt")
        self.err = open(self.err_path, "wb")
        self.p = subprocess.Popen([ctx.paths[name]] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=ctx.dir, env=e)
        self.buf = b""
        ctx.count("driver_runs")

    def line(self, timeout=120):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                raise rsp.Hang()
            d = os.read(fd, 1 << 16)
            if not d:
                self._died()
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("latin-1")

    def _died(self):
        rc = self.p.wait()
        self.err.flush()
        text = open(self.err_path, "rb").read().decode("latin-1")
        rep = rsp.sanitizer_report(text)
        self.ctx.fail("sanitizer" if rep or rc == 99 else "crash", "the driver ended with %d after: %s\n%s" % (
            rc, " / ".join(self.ctx.log[-6:]), rep or text[:800]))
        raise rsp.Dead()

    def send(self, text):
        try:
            self.p.stdin.write(text.encode("latin-1") + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self._died()

    def op(self, *words):
        """Runs one operation; returns (value, exception) with exactly one of them None."""
        text = " ".join(w if isinstance(w, str) else "%x" % w for w in words)
        self.send(text)
        l = self.line()
        self.ctx.trace(text[:200], "=>", l[:200])
        self.ctx.count("operations")
        if "handlers-damaged" in l:
            self.ctx.fail("handlers", "%s: the exception handler chain is not what it was before the call: %s" % (text[:200], l))
        if not l.startswith("ok "):
            self.ctx.fail("driver", "unexpected line %r" % l[:200])
        v = l[3:]
        k = v.find("ex ")
        if k >= 0:
            return None, int(v[k + 3:].split()[0], 16)
        return v, None

    def rep(self, n, *words):
        """Runs one operation n (> 1) times; returns (value of the last, exception of the last, how many threw)."""
        text = "rep %x " % n + " ".join(w if isinstance(w, str) else "%x" % w for w in words)
        self.send(text)
        l = self.line()
        self.ctx.trace(text[:200], "=>", l[:200])
        self.ctx.count("operations", n)
        if "handlers-damaged" in l:
            self.ctx.fail("handlers", "%s: the exception handler chain is not what it was before the call: %s" % (text[:200], l))
        if not l.startswith("ok "):
            self.ctx.fail("driver", "unexpected line %r" % l[:200])
        v, threw = l[3:].rsplit(" threw ", 1)
        k = v.find("ex ")
        if k >= 0:
            return None, int(v[k + 3:].split()[0], 16), int(threw, 16)
        return v, None, int(threw, 16)

    def close(self):
        self.p.stdin.close()
        try:
            rc = self.p.wait(120)
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise rsp.Hang()
        self.err.flush()
        text = open(self.err_path, "rb").read().decode("latin-1")
        rep = rsp.sanitizer_report(text)
        self.ctx.check(rep is None and rc == 0, "sanitizer" if rep else "crash", lambda: "the driver ended with %d\n%s" % (rc, rep or text[:800]))

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.err.close()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
