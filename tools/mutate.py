#!/usr/bin/env python3
"""Mutation campaign over /repo's sources, to find what the checks miss.
   mutate.py OUTDIR [--files substr] [--max N] [--seed S] [--shard i/n] [--late K]
With --late K, an edit takes effect only the K-th time it is executed in a process, which takes a history to show.
Each mutant is a scratch copy of /repo with one small edit; checks run (quick) until one reports a violation."""
import argparse, json, os, random, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "libCrashDebug/src/"
ALL = ["C%02d" % i for i in range(1, 27)]
ORDER = {
    "MemorySim.c": "C17 C18 C14 C15 C24 C04 C05 C06",
    "mriPlatform.c": "C12 C13 C11 C10 C05 C04 C24 C26",
    "CrashDebugCommandLine.c": "C16 C08 C24 C07 C01 C15",
    "CrashCatcherDump.c": "C02 C07 C08 C24 C06",
    "GdbLogParser.c": "C03 C07 C08 C24 C06",
    "ElfLoad.c": "C01 C07 C06 C24",
    "StandardIComm.c": "C25 C09",
    "MockDefaults.c": "C25 C09",
    "main.c": "C09 C06 C07 C08",
    "common.c": "C23",
    "try_catch.c": "C19",
    "try_catch.h": "C19 C24 C05",
    "FileFailureInject.c": "C22",
    "MallocFailureInject.c": "C20",
    "printfSpy.c": "C21",
}


def strip(line):
    return re.sub(r"//.*|/\*.*?\*/", "", line)


def mutants(text):
    """(line number, new line, description)"""
    lines = text.split("\n")
    out = []
    incomment = False
    win = False
    for i, raw in enumerate(lines):
        line = raw.rstrip("\r")
        s = line.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if s.startswith("#ifdef WIN32"):
            win = True
        if s.startswith("#else") or s.startswith("#endif"):
            win = False
        if win or not s or s.startswith("//") or s.startswith("#") or s.startswith("static") and s.endswith(";") and "(" in s and "=" not in s:
            continue

        def add(new, what):
            if new != line:
                out.append((i, new + ("\r" if raw.endswith("\r") else ""), what))
        code = strip(line)
        q = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x00" * len(m.group()), code)
        for m in re.finditer(r"(?<![<>=!\-+])(<=|>=|==|!=|<|>)(?![<>=])", q):
            op = m.group()
            if op in "<>" and ("#include" in code or q[m.start() - 1:m.start()] == "-"):
                continue
            for new in {"<": ["<=", ">="], ">": [">=", "<="], "<=": ["<", ">"], ">=": [">", "<"], "==": ["!="], "!=": ["=="]}[op]:
                add(line[:m.start()] + new + line[m.end():], "%s -> %s" % (op, new))
        for m in re.finditer(r"&&|\|\|", q):
            add(line[:m.start()] + ("||" if m.group() == "&&" else "&&") + line[m.end():], "logic")
        for m in re.finditer(r"(?<=[\w\)\]]) ([+\-]) (?=[\w\(])", q):
            add(line[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + line[m.end(1):], "arith")
        for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])", q):
            v = int(m.group(), 0)
            for n in (v + 1, v - 1):
                if n >= 0:
                    add(line[:m.start()] + str(n) + line[m.end():], "const %d->%d" % (v, n))
        for m in re.finditer(r"\bsizeof\(([^()]|\([^()]*\))*\)", q):
            add(line[:m.start()] + "(" + line[m.start():m.end()] + " - 1)" + line[m.end():], "sizeof-1")
        for m in re.finditer(r"\buint64_t\b", q):
            add(line[:m.start()] + "uint32_t" + line[m.end():], "64->32")
        for m in re.finditer(r"\bvolatile\b ?", q):
            add(line[:m.start()] + line[m.end():], "volatile")
        m = re.match(r"(\s*)(else )?if \((.*)\)\s*$", q)
        if m:
            a, b = m.span(3)
            add(line[:a] + "!(" + line[a:b] + ")" + line[b:], "negate if")
            add(line[:a] + "0" + line[b:], "if false")
            add(line[:a] + "1" + line[b:], "if true")
        if re.match(r"\s*[\w\*\(][^{}=]*\(.*\);\s*$", q) and not re.match(r"\s*(return|static|extern|int|void|uint|char|const|size_t|struct)\b", q):
            add(re.match(r"\s*", line).group() + ";", "delete call")
        if re.match(r"\s*[\w>\-\.\[\]\*]+\s*([+\-|&]?=)[^=].*;\s*$", q):
            add(re.match(r"\s*", line).group() + ";", "delete assignment")
        if re.match(r"\s*(break|continue|return);\s*$", q):
            add(re.match(r"\s*", line).group() + ";", "delete jump")
        if re.match(r"\s*return .*;\s*$", q) :
            m = re.match(r"(\s*return )(.*);", line)
            add(m.group(1) + "0;", "return 0")
            if m.group(2).strip() in ("FALSE", "0"):
                add(m.group(1) + "1;", "return 1")
        if "__throw" in q and q.strip().endswith(";") and q.strip().startswith("__throw"):
            add(re.match(r"\s*", line).group() + ";", "delete throw")
    return lines, out


def late_mutants(text, k):
    """Edits which take effect at their K-th execution only."""
    lines, ms = mutants(text)
    now = "({ static unsigned n_; ++n_ == %d; })" % k
    out = []
    for i, new, what in ms:
        end = "\r" if new.endswith("\r") else ""
        old, ind = lines[i].rstrip("\r"), re.match(r"\s*", lines[i]).group()
        if what == "negate if":
            m = re.match(r"(\s*(?:else )?if \()(.*)(\)\s*)$", old)
            if m:
                out.append((i, m.group(1) + "%s ? !(%s) : (%s)" % (now, m.group(2), m.group(2)) + m.group(3) + end, "late " + what))
        elif what in ("delete call", "delete assignment", "delete throw") and not lines[i - 1].strip().endswith(")"):
            out.append((i, ind + "if (!%s) { %s }" % (now, old.strip()) + end, "late " + what))
        elif what in ("return 0", "return 1"):
            m = re.match(r"\s*return (.*);", old)
            out.append((i, ind + "return %s ? %s : %s;" % (now, what[-1], m.group(1)) + end, "late " + what))
        elif what.startswith("const "):
            a, b = what[6:].split("->")
            body = new.rstrip("\r")
            # the edit's place is where the two lines begin to differ
            j = len(os.path.commonprefix([old, body]))
            while j and (old[j - 1].isalnum()):
                j -= 1
            m = re.match(r"0x[0-9A-Fa-f]+|\d+", old[j:])
            if m and int(m.group(), 0) == int(a):
                out.append((i, old[:j] + "(%s ? %s : %s)" % (now, b, m.group()) + old[j + m.end():] + end, "late " + what))
        elif "->" in what and what.split(" -> ")[0] in ("<", ">", "<=", ">=", "==", "!="):
            m = re.match(r"(\s*(?:else )?(?:if|while) \()(.*)(\)\s*)$", old)
            n = re.match(r"(\s*(?:else )?(?:if|while) \()(.*)(\)\s*)$", new.rstrip("\r"))
            if m and n:
                out.append((i, m.group(1) + "%s ? (%s) : (%s)" % (now, n.group(2), m.group(2)) + m.group(3) + end, "late " + what))
    return lines, out


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--max", type=int, default=10 ** 6)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--jobs", default="4")
    ap.add_argument("--late", type=int, default=0)
    a = ap.parse_args()
    files = []
    for d in (L, "libcommon/src", "libmocks/src", "main"):
        files += [os.path.join(d, f) for f in sorted(os.listdir(os.path.join("/repo", d))) if f.endswith(".c")]
    files += ["include/try_catch.h"]
    jobs = []
    for f in files:
        if a.files and not re.search(a.files, f):
            continue
        with open(os.path.join("/repo", f), newline="") as fh:
            lines, ms = late_mutants(fh.read(), a.late) if a.late else mutants(fh.read())
        jobs += [(f, lines, m) for m in ms]
    random.Random(a.seed).shuffle(jobs)
    i, n = map(int, a.shard.split("/"))
    jobs = jobs[:a.max][i::n]
    os.makedirs(a.out, exist_ok=True)
    log = open(os.path.join(a.out, "log.%d.jsonl" % i), "a")
    work = os.path.join(a.out, "w%d" % i)
    for k, (f, lines, (ln, new, what)) in enumerate(jobs):
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        for d in ("include", "libCrashDebug", "libcommon", "libmocks", "main"):
            shutil.copytree(os.path.join("/repo", d), os.path.join(work, d))
        with open(os.path.join(work, f), "w", newline="") as fh:
            fh.write("\n".join(lines[:ln] + [new] + lines[ln + 1:]))
        rec = {"file": f, "line": ln + 1, "what": what, "old": lines[ln].strip(), "new": new.strip(), "killed": None}
        base = os.path.basename(f)
        order = ORDER.get(base, "").split()
        order = order or ALL
        env = dict(os.environ, VERIF_REPO=work)
        for c in order:
            try:
                r = run([sys.executable, os.path.join(VERIF, "check.py"), c, "--tier", "quick", "--jobs", a.jobs], cwd=VERIF, env=env, timeout=300)
            except subprocess.TimeoutExpired:
                rec["killed"] = "timeout " + c
                break
            if r.returncode == 2 and "building the program" in r.stdout:
                rec["killed"] = "nobuild"
                break
            if r.returncode:
                rec["killed"] = "%s rc%d" % (c, r.returncode)
                break
        log.write(json.dumps(rec) + "\n")
        log.flush()
        print(k, len(jobs), rec["killed"], f, ln + 1, what, flush=True)


main()
