#!/usr/bin/env python3
"""mutate.py PROP N SEED FILE[:from-to]... : measures a check's sensitivity. Makes N random small mutations of the given files
(paths under /repo), each in a private copy of /repo, runs the property's quick check on it and prints the survivors
(development tool, not a check; nothing in /repo or /verif changes)."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
pid, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
SRC = os.environ.get("VERIF_REPO", "/repo")
PAR = int(os.environ.get("PAR", "4"))
rnd = random.Random(seed)

RULES = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-])<(?![<=a-zA-Z_:>])", "<="), (r"(?<![>\-])>(?![>=(])", ">="), (r"==", "!="), (r"!=", "=="),
         (r"(?<=[\w\)\] ])\+(?=[ \w\(])(?!\+)", "-"), (r"(?<=[\w\)\] ])(?<!\+)-(?=[ \w\(])(?![->])", "+"),
         (r"(?<=[\w\)\] ])\*(?=[ \w\(])", "/"), (r"(?<=[\w\)\] ])/(?=[ \w\(])(?!/)", "*"), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "3"), (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"), (r"\b0\.5\b", "0.6"),
         (r"\b2\.0\b", "2.1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bni_?\b", "nj"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"),
         (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\+=", "-="), (r"-=", "+="), (r"\bj\b", "i"), (r"\bk\b", "j"), (r"\bi\b", "j"),
         (r"_x\b", "_y"), (r"_y\b", "_x"), (r"_z\b", "_x"), (r"\bx(?=\w*\b)", "y"), (r"\b!(?=\w)", "")]


def candidates(path, lo, hi):
    out = []
    lines = open(path, errors="surrogateescape").read().split("\n")
    incom = False
    for n, l in enumerate(lines):
        st = l.strip()
        if "/*" in l:
            incom = True
        if "*/" in l:
            incom = False
            continue
        if incom or not (lo <= n + 1 <= hi) or st.startswith(("//", "#", "*", "using", "template", "assert")) or len(st) < 4:
            continue
        code = l.split("//")[0]
        for r, s in RULES:
            for m in re.finditer(r, code):
                # skip what is inside a string literal
                if code[:m.start()].count('"') % 2:
                    continue
                out.append((n, code[:m.start()] + s + code[m.end():] + l[len(code):]))
        if re.match(r"^\s+[\w\.\[\]\(\)>\-\*_, ]+(\s*[\+\-\*]?=[^=]|\().*;\s*$", code) and not re.match(r"^\s+(return|throw|double|int|size_t|float|bool|std::|const|for|while|delete|break)", code):
            out.append((n, "/* dropped */;"))
    return lines, out


muts = []
for a in sys.argv[4:]:
    f, _, rg = a.partition(":")
    lo, hi = (int(x) for x in rg.split("-")) if rg else (1, 10**9)
    lines, c = candidates(SRC + "/" + f, lo, hi)
    muts += [(f, n, new, lines[n]) for n, new in c if new != lines[n]]
rnd.shuffle(muts)
muts = muts[:N]
root = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
slots = queue.Queue()
for i in range(PAR):
    r, v = "%s/r%d" % (root, i), "%s/v%d" % (root, i)
    shutil.copytree(SRC, r, ignore=shutil.ignore_patterns("_build", ".git"))
    shutil.copytree("/verif", v, ignore=shutil.ignore_patterns("_build", ".git", "seeded", "evidence", "replays"))
    slots.put((r, v))


def one(mu):
    f, n, new, old = mu
    r, v = slots.get()
    p = r + "/" + f
    orig = open(p, errors="surrogateescape").read()
    try:
        ls = orig.split("\n")
        ls[n] = new
        with open(p, "w", errors="surrogateescape") as fh:
            fh.write("\n".join(ls))
        try:
            c = subprocess.run(["python3-vt", "run.py", pid], cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600,
                               env=dict(os.environ, VERIF_REPO=r, VERIF_FAST="1", VERIF_JOBS=str(max(2, 8 // PAR)), VERIF_TIER="quick", VERIF_SEED="1"))
            rc, o = c.returncode, c.stdout
        except subprocess.TimeoutExpired:
            rc, o = 9, ""
    finally:
        with open(p, "w", errors="surrogateescape") as fh:
            fh.write(orig)
        slots.put((r, v))
    res = {0: "SURVIVED", 1: "killed", 2: "nobuild" if "cannot build" in o else "harness"}.get(rc, "rc%d" % rc)
    if res not in ("killed", "nobuild"):
        print("%s %s:%d\n  - %s\n  + %s%s" % (res, f, n + 1, old.strip(), new.strip(), ("\n" + o[-600:]) if rc == 2 else ""), flush=True)
    return res


try:
    with ThreadPoolExecutor(PAR) as ex:
        rs = list(ex.map(one, muts))
finally:
    shutil.rmtree(root, ignore_errors=True)
print(pid, {k: rs.count(k) for k in set(rs)}, "of", len(rs))
