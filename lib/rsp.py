"""Lock-step GDB remote-protocol client that drives the real CrashDebug program over pipes."""
import ctypes, os, resource, select, signal, subprocess, time

_libc = ctypes.CDLL(None, use_errno=True)

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:"
                    "max_allocation_size_mb=96:handle_segv=1:handle_abort=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=96",
}
NO_ENV = {}          # pass as env to run(): an empty environment
WAIT_S = 40          # wall-clock watchdog: inconclusive on its own
CPU_S = 15           # CPU seconds one program run may burn; thousands of times what a run needs


def limits(cpu=CPU_S):
    _libc.prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG: no program outlives the check that started it
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


class Hang(Exception):
    """No answer within the watchdog (or the CPU budget was used up)."""


class Dead(Exception):
    """The program ended (or closed its output) while an answer was awaited."""


class Proto(Exception):
    """Bytes that are not a well-formed reply."""


def sanitizer_report(stderr):
    for mark in ("ERROR: AddressSanitizer", "AddressSanitizer:DEADLYSIGNAL", "runtime error:", "WARNING: MemorySanitizer: use",
                 "MemorySanitizer:DEADLYSIGNAL", "ERROR: MemorySanitizer", "Assertion `"):
        if mark in stderr:
            i = stderr.find(mark)
            return stderr[max(0, i - 100):i + 1500]
    return None


def frame(payload):
    if isinstance(payload, str):
        payload = payload.encode("latin-1")
    return b"$" + payload + b"#" + b"%02x" % (sum(payload) & 0xFF)


class Session:
    def __init__(self, exe, args, cwd, env=None, wait=WAIT_S, cpu=CPU_S):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e["LC_ALL"] = "C"
        if env:
            e.update(env)
        self.errpath = os.path.join(cwd, "stderr.txt")
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen([exe] + list(args), cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, preexec_fn=lambda: limits(cpu), bufsize=0)
        self.wait_s = wait
        self.buf = b""
        self.rx = b""        # everything received
        self.console = []
        self.packets = 0

    # -- bytes ---------------------------------------------------------------------------------------------
    def send(self, data):
        try:
            self.p.stdin.write(data)
        except (BrokenPipeError, OSError):
            raise Dead()

    def _fill(self, deadline):
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                raise Hang()
            r, _, _ = select.select([self.p.stdout], [], [], min(left, 1.0))
            if r:
                d = os.read(self.p.stdout.fileno(), 65536)
                if not d:
                    raise Dead()
                self.buf += d
                self.rx += d
                return

    def byte(self):
        deadline = time.monotonic() + self.wait_s
        while not self.buf:
            self._fill(deadline)
        c, self.buf = self.buf[:1], self.buf[1:]
        return c

    def packet(self):
        """Next packet from the program; its bytes must be exactly `$payload#cc` with a right checksum."""
        deadline = time.monotonic() + self.wait_s
        while True:
            i = self.buf.find(b"#")
            if i >= 0 and len(self.buf) >= i + 3:
                break
            self._fill(deadline)
        raw, self.buf = self.buf[:i + 3], self.buf[i + 3:]
        if raw[:1] != b"$":
            raise Proto("expected a packet, got %r" % raw[:80])
        if raw[i + 1:i + 3] != b"%02x" % (sum(raw[1:i]) & 0xFF):
            raise Proto("bad checksum in %r" % raw[-40:])
        self.packets += 1
        return raw[1:i]

    # -- conversations -------------------------------------------------------------------------------------
    def connect(self):
        self.send(b"+")

    def command(self, payload):
        """Sends one command; returns its reply payload."""
        self.send(frame(payload))
        c = self.byte()
        if c != b"+":
            raise Proto("expected '+' for %r, got %r" % (payload[:60], c))
        r = self.packet()
        self.send(b"+")
        return r

    def resume(self, payload):
        """Sends c/s...; returns ([console texts], stop reply)."""
        self.send(frame(payload))
        c = self.byte()
        if c != b"+":
            raise Proto("expected '+' for %r, got %r" % (payload[:60], c))
        texts = []
        while True:
            r = self.packet()
            self.send(b"+")
            if r[:1] == b"O" and r != b"OK":
                texts.append(bytes.fromhex(r[1:].decode("latin-1")).decode("latin-1"))
                continue
            return texts, r

    def read_mem(self, addr, n):
        return self.command("m%x,%x" % (addr & 0xFFFFFFFF, n))

    def xfer(self, what, chunk=0xFFF):
        out = b""
        while True:
            r = self.command("qXfer:%s:%x,%x" % (what, len(out), chunk))
            if r[:1] not in (b"m", b"l"):
                raise Proto("qXfer reply %r" % r[:60])
            out += r[1:]
            if r[:1] == b"l":
                return out
            if len(r) == 1:
                raise Proto("qXfer makes no progress")

    # -- ending --------------------------------------------------------------------------------------------
    def close(self, wait=None):
        """Ends input, waits for the program. Returns (exit status, stderr, stdout bytes after the last reply)."""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        return self.finish(wait)

    def finish(self, wait=None):
        deadline = time.monotonic() + (wait or self.wait_s)
        rest = self.buf
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                self.kill()
                raise Hang()
            r, _, _ = select.select([self.p.stdout], [], [], min(left, 1.0))
            if r:
                d = os.read(self.p.stdout.fileno(), 65536)
                if not d:
                    break
                rest += d
        try:
            rc = self.p.wait(timeout=max(0.1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            self.kill()
            raise Hang()
        self._release()
        if rc == -signal.SIGXCPU:
            raise Hang()
        return rc, self.stderr(), rest

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        try:
            self.p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            pass
        self._release()

    def _release(self):
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass

    def stderr(self):
        with open(self.errpath, "rb") as f:
            return f.read(1 << 20).decode("latin-1")


def run(exe, args, cwd, stdin=b"", env=None, wait=WAIT_S, cpu=CPU_S):
    """Runs a program to its end with the given input. Returns (rc, stdout, stderr). Raises Hang."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    if env:
        e.update(env)
    if env is NO_ENV:
        e = {}
    p = subprocess.Popen([exe] + list(args), cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, preexec_fn=lambda: limits(cpu))
    try:
        out, err = p.communicate(stdin, timeout=wait)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Hang()
    if p.returncode == -signal.SIGXCPU:
        raise Hang()
    return p.returncode, out, err.decode("latin-1")
