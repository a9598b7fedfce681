"""Builds the programs under test from /repo's current working tree (sanitized), keyed by content hash."""
import hashlib, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
STUBS = os.path.join(VERIF, "stubs")
DRIVERS = os.path.join(VERIF, "drivers")


class BuildError(Exception):
    pass


def _c_files(*dirs):
    out = []
    for d in dirs:
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            for root, _, files in os.walk(p):
                out += [os.path.join(root, f) for f in files if f.endswith(".c")]
    return sorted(out)


def _tree_hash(extra, flags):
    h = hashlib.sha256()
    files = list(extra)
    for d in ("include", "libCrashDebug/src", "libCrashDebug/include", "libcommon/src", "libcommon/include",
              "libmocks/src", "libmocks/include", "main"):
        for root, dirs, fs in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            files += [os.path.join(root, f) for f in sorted(fs)]
    files += sorted(os.path.join(DRIVERS, f) for f in os.listdir(DRIVERS) if f.endswith(".h"))
    for root, dirs, fs in os.walk(STUBS):
        dirs.sort()
        files += [os.path.join(root, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(repr(flags).encode())
    return h.hexdigest()[:20]


WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "fopen", "fclose", "fread", "fseek", "ftell", "fgets",
         "read", "write", "select", "rewind"]
WRAP_FLAGS = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"],
    "plain": [],
    "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fsanitize-memory-track-origins"],
}
BASE = ["-std=gnu90", "-g", "-fno-omit-frame-pointer", "-ffunction-sections", "-fdata-sections", "-fno-common", "-w",
        "-include", "stdlib.h", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
# 1 << 31 is defined in the makefile's dialect
LATER = ["-Wno-implicit-function-declaration", "-Wno-int-conversion", "-Wno-implicit-int", "-fno-sanitize=shift-base"]
INC_REPO = ["-I", os.path.join(STUBS, "inc"), "-I", "{repo}/include"]


def _variants():
    repo_lib = _c_files("libCrashDebug/src", "libcommon/src")
    main = _c_files("main")
    mocks = _c_files("libmocks/src")
    mri = os.path.join(STUBS, "mri_core.c")
    wrap = os.path.join(STUBS, "faultwrap.c")
    nomain = [f for f in main if os.path.basename(f) != "main.c"]
    d = lambda n: os.path.join(DRIVERS, n)
    return {
        # the CrashDebug program, as the makefile links it (main + libCrashDebug + libcommon + mri core)
        "exe": dict(repo=main + repo_lib, own=[mri, wrap], san="asan", opt="-O2", ld=WRAP_FLAGS),
        # without sanitizers, for files of 4 GB and more
        "exe_plain": dict(repo=main + repo_lib, own=[mri], san="plain", opt="-O2", ld=[]),
        "exe_msan": dict(repo=main + repo_lib, own=[mri], san="msan", opt="-O1", ld=[], cc="clang"),
        # API-level drivers: production hooks (MockDefaults.c), no main
        "simdrv": dict(repo=nomain + repo_lib, own=[mri, wrap, d("simdrv.c")], san="asan", opt="-O2", ld=WRAP_FLAGS),
        "simdrv_msan": dict(repo=nomain + repo_lib, own=[mri, d("simdrv.c")], san="msan", opt="-O1", ld=[], cc="clang",
                            cflags=["-DNO_WRAP"]),
        "commdrv": dict(repo=nomain + repo_lib, own=[mri, wrap, d("commdrv.c")], san="asan", opt="-O2", ld=WRAP_FLAGS),
        "trydrv": dict(repo=nomain + repo_lib, own=[mri, wrap, d("trydrv.c")], san="asan", opt="-O2", ld=WRAP_FLAGS),
        "lifedrv": dict(repo=nomain + repo_lib, own=[mri, wrap, d("lifedrv.c")], san="asan", opt="-O2", ld=WRAP_FLAGS),
        # libmocks drivers
        "mockdrv": dict(repo=mocks + _c_files("libcommon/src"), own=[wrap, d("mockdrv.c")], san="asan", opt="-O2", ld=WRAP_FLAGS),
        "mockdrv_msan": dict(repo=mocks + _c_files("libcommon/src"), own=[d("mockdrv.c")], san="msan", opt="-O1", ld=[], cc="clang",
                            cflags=["-DNO_WRAP"]),
    }


def build(name):
    """Returns the path of the built program `name`."""
    v = _variants()[name]
    cc = v.get("cc", "gcc")
    cflags = BASE + [v["opt"]] + SAN[v["san"]] + v.get("cflags", [])
    key = _tree_hash(v["own"], (cc, cflags, v["ld"], v["repo"]))
    dest = os.path.join(OUT, name + "-" + key)
    exe = os.path.join(dest, name)
    if os.path.exists(exe):
        try:
            os.utime(dest)
        except OSError:
            pass
        return exe
    os.makedirs(OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=OUT)
    try:
        inc = ["-I", os.path.join(STUBS, "inc"), "-I", os.path.join(REPO, "include"),
               "-I", os.path.join(REPO, "libCrashDebug/src")]
        jobs = []
        for i, src in enumerate(v["repo"] + v["own"]):
            o = os.path.join(tmp, "%d_%s.o" % (i, os.path.basename(src)))
            if os.path.basename(src) == "mri_core.c":
                flags = ["-I", STUBS, "-I", os.path.join(STUBS, "inc")]
            elif os.path.basename(src) == "faultwrap.c":
                flags = []
            else:
                flags = inc
            jobs.append((o, [cc] + cflags + flags + ["-c", src, "-o", o], src))

        def one(j):
            r = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:        # the makefile's dialect first, a later one for sources which need it
                j[1][j[1].index("-std=gnu90")] = "-std=gnu11"
                r2 = subprocess.run(j[1] + LATER, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                r = r if r2.returncode else r2
            if r.returncode and os.path.dirname(j[2]) == DRIVERS:
                r = subprocess.run(j[1] + LATER + ["-DNO_INTERNALS"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError(" ".join(j[1]) + "\n" + r.stdout[-4000:])
            return j[0]
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, jobs))
        cmd = [cc] + SAN[v["san"]] + ["-g", "-Wl,--gc-sections"] + objs + v["ld"] + ["-o", os.path.join(tmp, name), "-lm"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.exists(exe):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    _prune(name, keep=dest)
    return exe


def _prune(name, keep):
    """Keep at most a few old builds of each program."""
    def age(d):
        try:
            return time.time() - os.path.getmtime(d)
        except OSError:             # another run has just removed it
            return 0
    ds = [os.path.join(OUT, d) for d in os.listdir(OUT) if d.rsplit("-", 1)[0] == name]
    for d in sorted((d for d in ds if d != keep), key=age)[6:]:
        if age(d) > 1800:           # a younger one may be in use by another run
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(build(n))
