"""The connection to GDB over standard input and output delivers every byte once and in order, and reports failures as errors."""
import os, select, subprocess, time
import driver, rsp

PID, LEVEL = "C25", "exploration"
BUILDS = ["commdrv"]
QUICK, THOROUGH = 2800, 12000
RULE = ("each case drives the connection object of the real code over real pipes with 60-300 random steps: bytes of every value arriving in bursts, "
        "has-data / receive / send / stop / connected calls, re-initialisation, failing select, read and write, end of input, and a reader that "
        "goes away; every result, exception, pending exception and every byte received at the other end is compared with a model of the two byte "
        "streams; a situation is (call, data waiting, connected before, fault, outcome) and counts when compared")
ASSUMPTIONS = ["whether GDB counts as connected at the end of input before any byte was received is not specified"]
FILE = 12


class Comm(driver.Driver):
    def __init__(self, ctx):
        self.ctx, self.name, self.buf = ctx, "commdrv", b""
        e = dict(os.environ)
        e.update(rsp.SAN_ENV)
        self.err_path = os.path.join(ctx.dir, "stderr.txt")
        self.err = open(self.err_path, "wb")
        ci, self.ctl = os.pipe()
        self.res, co = os.pipe()
        ri, self.wi = os.pipe()
        self.ro, wo = os.pipe()
        self.p = subprocess.Popen([ctx.paths["commdrv"]], stderr=self.err, cwd=ctx.dir, env=e, preexec_fn=_placer(ci, co, ri, wo), close_fds=False)
        for fd in (ci, co, ri, wo):
            os.close(fd)
        ctx.count("driver_runs")

    def send(self, text):
        try:
            os.write(self.ctl, text.encode("latin-1") + b"\n")
        except BrokenPipeError:
            self._died()

    def line(self, timeout=60):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.res], [], [], max(0, end - time.time()))
            if not r:
                raise rsp.Hang()
            d = os.read(self.res, 1 << 16)
            if not d:
                self._died()
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("latin-1")

    def take(self, n):
        """Receives n bytes; returns (hex, None, calls which threw)."""
        v, e = self.op("takes", n)
        data, threw = v.split(" ")
        return data, e, int(threw, 16)

    def give(self, data):
        """Sends bytes, in pieces the control channel can carry."""
        threw = 0
        for i in range(0, len(data), 20000):
            v, e = self.op("gives", data[i:i + 20000].hex())
            threw += int(v, 16)
        return None, None, threw

    def close(self):
        os.close(self.ctl)
        self.ctl = None
        rc = self.p.wait(60)
        text = open(self.err_path, "rb").read().decode("latin-1")
        rep = rsp.sanitizer_report(text)
        self.ctx.check(rep is None and rc == 0, "sanitizer" if rep else "crash", lambda: "the driver ended with %d\n%s" % (rc, rep or text[:800]))

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.err.close()
        for fd in (self.ctl, self.res, self.wi, self.ro):
            if fd is not None:
                os.close(fd)
        self.ctl = self.res = self.wi = self.ro = None


def _placer(ci, co, ri, wo):
    def place():
        tmp = [os.dup(fd) for fd in (ci, co, ri, wo)]
        while min(tmp) < 10:
            tmp = [os.dup(fd) for fd in tmp]
        for fd, to in zip(tmp, (3, 4, 0, 1)):
            os.dup2(fd, to)
        os.closerange(5, 4096)
    return place


def long_stream(ctx, rng, d, n):
    """Tens of thousands of bytes each way, in bursts larger and smaller than any buffer on the way."""
    got = back = 0
    while got < n:
        data = rng.randbytes(rng.choice([1, 64, 255, 256, 1000, 4095, 4096, 4097, 20000]))
        os.write(d.wi, data)
        v, e, threw = d.take(len(data))
        ctx.check(v == data.hex() and not threw, "stream", lambda: "%d bytes after %d others: received %s..., %d calls threw" % (
            len(data), got, v[:80], threw))
        got += len(data)
        if rng.randrange(2):
            out = rng.randbytes(rng.choice([1, 255, 256, 1000, 4096, 20000]))
            v, e, threw = d.give(out)
            r = b""
            while len(r) < len(out) and select.select([d.ro], [], [], 20)[0]:
                r += os.read(d.ro, 65536)
            ctx.check(r == out and not threw, "stream", lambda: "%d bytes sent after %d others: %d arrived, first difference at %d" % (
                len(out), back, len(r), next((i for i in range(len(out)) if out[i:i + 1] != r[i:i + 1]), -1)))
            back += len(out)
        v, _ = d.op("has")
        ctx.check(v == "0 0", "has", lambda: "has data: (%s), nothing waits" % v)
    ctx.count("bytes_to_program", got)
    ctx.count("bytes_sent", back)
    ctx.sig("stream", n)


def case(ctx, rng, idx):
    d = Comm(ctx)
    try:
        waiting = bytearray()           # sent to the program, not read yet
        connected = False
        eof = gone = False
        d.op("init")
        if idx % 20 == 7:
            long_stream(ctx, rng, d, rng.choice([1000, 5000, 5000, 70000]) if idx > 20 else 140000)
            connected = True
        for _ in range(rng.randrange(60, 300)):
            k = rng.randrange(20)
            if k < 3 and not eof:
                data = rng.choice([b"+", b"\x03", b"$?#3f", rng.randbytes(rng.randrange(1, 20)), bytes(range(256)), b"\xff", b"\0"])
                os.write(d.wi, data)
                waiting += data
                ctx.count("bytes_to_program", len(data))
                ctx.sig("arrive", min(len(data), 3), min(len(waiting), 3))
            elif k < 6:
                spec = "select:1" if rng.randrange(6) == 0 else None
                if spec:
                    d.op("fault", spec)
                v, e = d.op("has")
                if spec:
                    f, _ = d.op("fired")
                    if int(f, 16):
                        ctx.check(v == "0 0", "has-fault", lambda: "a failing poll: %s / exception %s" % (v, e))
                        ctx.sig("has", "fault", bool(waiting))
                        continue
                want = "1 0" if waiting or eof else "0 0"
                ctx.check(v == want, "has", lambda: "has data: (%s) exception %s, expected (%s): %d bytes wait" % (v, e, want, len(waiting)))
                ctx.sig("has", bool(waiting), eof, connected)
                ctx.count("polls")
            elif k < 13 and (waiting or eof):
                if rng.randrange(10) == 0:
                    d.op("fault", "read:1")
                    v, e = d.op("recv")
                    f, _ = d.op("fired")
                    if int(f, 16):          # (a program which reads by other means is judged as without the fault)
                        ctx.check(e == FILE, "recv-fault", lambda: "a failing read gave %s / exception %s" % (v, e))
                        ctx.sig("recv", "fault", connected)
                        if not connected:           # nothing was received: with polls which see nothing, not connected by that
                            d.op("fault", "select:1")
                            d.op("has")
                            f, _ = d.op("fired")
                            d.op("fault", "select:1")
                            v, e = d.op("conn")
                            d.op("fired")
                            if int(f, 16):          # (polls are made with select)
                                ctx.check(v == "0 0", "connected", lambda: "connected: %s although the only read failed" % v)
                                ctx.sig("conn", "read failed")
                        continue
                else:
                    v, e = d.op("recv")
                if waiting:
                    ctx.check(v == "%02x" % waiting[0], "recv", lambda: "received %s / exception %s, expected %02x" % (v, e, waiting[0]))
                    ctx.sig("recv", waiting[0], connected)
                    del waiting[0]
                    connected = True
                    ctx.count("bytes_received")
                else:
                    ctx.check(e == FILE, "recv-eof", lambda: "the end of input gave %s / exception %s" % (v, e))
                    ctx.sig("recv", "eof", connected)
                    ctx.count("ends_of_input")
            elif k < 16:
                b = rng.choice([rng.randrange(256), 0, 0xFF, 0x80, 0x24, 0x1FF, 0xFFFFFFFF])
                spec = "write:1" if rng.randrange(8) == 0 else None
                fired = False
                if gone or spec:
                    if spec:
                        d.op("fault", spec)
                    v, e = d.op("send", b)
                    if spec:
                        fired = int(d.op("fired")[0], 16)
                if gone or fired:
                    ctx.check(e == FILE, "send-fault", lambda: "a failing write gave %s / exception %s" % (v, e))
                    if not gone:
                        r, _, _ = select.select([d.ro], [], [], 0)
                        ctx.check(not r, "send-fault", "a byte was sent although the write failed")
                    ctx.sig("send", "fault", gone)
                    continue
                if not spec:
                    v, e = d.op("send", b)
                ctx.check(e is None, "send", lambda: "sending threw mriMax+%s" % e)
                r, _, _ = select.select([d.ro], [], [], 0)
                got = os.read(d.ro, 100) if r else b""
                ctx.check(got == bytes([b & 0xFF]), "send", lambda: "sent %02x, %r arrived" % (b & 0xFF, got))
                ctx.sig("send", b)
                ctx.count("bytes_sent")
            elif k == 16:
                v, _ = d.op("stop")
                ctx.check(v == "0", "stop", "asked to stop the session")
                ctx.sig("stop", connected, eof)
            elif k < 19:
                if eof and not connected and not waiting:
                    continue
                spec = "select:1" if rng.randrange(6) == 0 else None
                if spec:
                    d.op("fault", spec)
                v, e = d.op("conn")
                want = connected or bool(waiting)
                if spec:
                    f, _ = d.op("fired")
                    if int(f, 16):
                        want = connected
                ctx.check(v is not None and v[0] == str(int(want)), "connected", lambda: "connected: %s, expected %d" % (v, want))
                ctx.check(v[2:] == "0", "pending", lambda: "an exception is left pending: %s" % v)
                ctx.sig("conn", connected, bool(waiting), spec)
            else:
                j = rng.randrange(12)
                if j < 5:
                    d.op(rng.choice(["uninit", "uninit0"]))
                    d.op("init")
                    connected = False
                    ctx.sig("reinit", bool(waiting))
                elif j == 5 and not eof:
                    os.close(d.wi)
                    d.wi = None
                    eof = True
                elif j == 6 and not gone:
                    os.close(d.ro)
                    d.ro = None
                    gone = True
        d.close()
    finally:
        d.kill()
    if idx % 50 == 1:
        ctx.sample = {"operations": ctx.log[-15:]}
