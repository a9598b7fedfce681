"""Predicts stop replies and fault descriptions from the dump's contents (ARMv7-M fault status registers)."""
import struct

CFSR, HFSR, MMFAR, BFAR = 0xE000ED28, 0xE000ED2C, 0xE000ED34, 0xE000ED38
GDB_SIGNAL = {2: 0x02, 3: 0x0B, 4: 0x0B, 5: 0x0A, 6: 0x04, 12: 0x05}
GDB_STOP = 0x11                                   # SIGSTOP in GDB's numbering
HOST_SIGNAL = dict(GDB_SIGNAL)
HOST_SIGNAL[5] = 0x07                             # what Linux calls SIGBUS
HOST_STOP = 0x13

MEM_BITS = [(5, "FP Lazy Preservation"), (4, "Stacking Error"), (3, "Unstacking Error"), (1, "Data Access"),
            (0, "Instruction Fetch")]
BUS_BITS = [(5, "FP Lazy Preservation"), (4, "Stacking Error"), (3, "Unstacking Error"), (2, "Imprecise Data Access"),
            (1, "Precise Data Access"), (0, "Instruction Prefetch")]
USAGE_BITS = [(9, "Divide by Zero"), (8, "Unaligned Access"), (3, "Coprocessor Access"),
              (2, "Invalid Exception Return State"), (1, "Invalid State"), (0, "Undefined Instruction")]


def word(mem, a):
    r, off = mem.find(a, 4)
    return None if r is None else struct.unpack("<I", bytes(r.data[off:off + 4]))[0]


def hexval(v):
    s = "%x" % v
    return "0x" + ("0" + s if len(s) % 2 else s)


def _section(title, status, bits, far):
    if not status:
        return ""
    t = "\n**%s**\n  Status Register: %s" % (title, hexval(status))
    if far is not None:
        t += "\n    Fault Address: %s" % hexval(far)
    for b, name in bits:
        if status >> b & 1:
            t += "\n    " + name
    return t


def _mem(mem):
    c = word(mem, CFSR)
    if c is None:
        return ""
    v = c & 0xFF
    return _section("MPU Fault", v, MEM_BITS, word(mem, MMFAR) if v & 0x80 else None)


def _bus(mem):
    c = word(mem, CFSR)
    if c is None:
        return ""
    v = c >> 8 & 0xFF
    return _section("Bus Fault", v, BUS_BITS, word(mem, BFAR) if v & 0x80 else None)


def _usage(mem):
    c = word(mem, CFSR)
    if c is None:
        return ""
    return _section("Usage Fault", c >> 16, USAGE_BITS, None)


def console(mem, exc):
    """Text the GDB console must show when the crashed program is resumed."""
    n = exc & 0x1FF
    if n == 3:
        t = "\n**Hard Fault**"
        h = word(mem, HFSR)
        if h is not None:
            t += "\n  Status Register: " + hexval(h)
            if h >> 31 & 1:
                t += "\n    Debug Event"
            if h >> 1 & 1:
                t += "\n    Vector Table Read"
            if h >> 30 & 1:
                t += "\n    Forced" + _mem(mem) + _bus(mem) + _usage(mem)
        return t + "\n"
    if n == 4:
        return _mem(mem) + "\n"
    if n == 5:
        return _bus(mem) + "\n"
    if n == 6:
        return _usage(mem) + "\n"
    return ""


def signals(exc):
    """(GDB's number, the host's number) for this exception."""
    n = exc & 0x1FF
    return GDB_SIGNAL.get(n, GDB_STOP), HOST_SIGNAL.get(n, HOST_STOP)


def t_registers(regs):
    return b"".join(b"%02x:%s;" % (i, struct.pack("<I", regs.r[i]).hex().encode()) for i in (12, 13, 14, 15))


def stop_ok(reply, regs):
    return any(reply == b"T%02x" % s + t_registers(regs) for s in signals(regs.exc))
