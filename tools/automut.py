#!/usr/bin/env python3
"""automut.py FILE N SEED PID...: makes N random small changes to a file of a scratch copy of /repo, one at a time, and runs the checks against each
until one reports a violation.  What no check reports is printed with its diff, to be looked at: it is either a change nothing depends on or a gap."""
import sys, re, os, random, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, n, seed, pids = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
src = open("/repo/" + f).read().split("\n"); rng = random.Random(f + seed)
OPS = [(r"(?<![<\-=!>])<(?![<=])(?=[^<>]*[;)])(?!\s*\w+[*&]?\s*>)", "<="), (r"<=", "<"), (r"(?<![>\-=<])>(?![>=])(?=\s*\w)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"(?<![+\w\"] )(?<!\+)\+(?![+=\"])", "-"), (r"(?<!-)-(?![->=\d])", "+"), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"(?<![\w.\"])0(?![\w.\"])", "1"), (r"(?<![\w.\"])1(?![\w.\"])", "2"), (r"(?<![\w.\"x])([2-9]|\d\d+)(?![\w.\"])", lambda m: str(int(m.group(1)) + rng.choice([-1, 1]))),
       (r"\bcontinue;", "break;"), (r"\bif ?\((?=.*\))", "if(!!0 && "), (r"\+\+(\w+)|(\w+)\+\+", lambda m: (m.group(1) or m.group(2))),
       (r"\bint64_t\b|\buint64_t\b", "int"), (r"\+=", "="), (r"\|=", "="), (r"!(?=[\w(])", "")]
def sites():
    inc = False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("/*"): inc = True
        if inc:
            if "*/" in s: inc = False
            continue
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "assert", "%")) or "std::cerr" in s or "errorStream" in s and "return" not in s: continue
        code = re.sub(r"//.*", "", l)
        for r, to in OPS:
            for m in re.finditer(r, code): yield (i, code[:m.start()] + (to(m) if callable(to) else to) + code[m.end():])
        if re.match(r"^[\w\[\]>.\-*()]+(\(|\s*[+\-|]?=[^=]).*;$", s) and not re.match(r"^(return|delete|const|int|float|char|auto|unsigned|std)\b", s): yield (i, "    ;")
        if re.match(r"^if ?\(.*\) ?(return|continue|break|throw)", s): yield (i, "    ;")
todo = list(sites()); rng.shuffle(todo); done = 0; killed = 0
for i, new in todo:
    if done >= n: break
    if new == src[i]: continue
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for x in ("src",): shutil.copytree("/repo/" + x, d + "/" + x)
        out = src[:]; out[i] = new; open(d + "/" + f, "w").write("\n".join(out))
        if f.endswith(".cpp") and "/py/" not in f and subprocess.run(["g++", "-std=c++17", "-w", "-fsyntax-only", "-DPARTIO_USE_ZLIB", "-I/repo/src/lib", d + "/" + f], stderr=subprocess.DEVNULL).returncode: continue
        done += 1; how = "SURVIVED"
        for p in pids:
            r = subprocess.run(["timeout", "900", "./check", p, "quick"], cwd=HERE, env=dict(os.environ, VP_REPO=d, VP_FIRST="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1: how = "killed " + p; killed += 1; break
            if r.returncode != 0: how = ("nobuild" if "build failed" in r.stdout else "rc%d " % r.returncode) + p + r.stdout[-300:]; break
        print("%s:%d [%s]\n  - %s\n  + %s" % (f, i + 1, how, src[i].strip(), new.strip()), flush=True)
    finally: shutil.rmtree(d)
print("%s: %d of %d killed" % (f, killed, done))
