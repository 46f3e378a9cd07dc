#!/usr/bin/env python3
"""mutate.py MODULE [MAX [SEED]]: small changes of one module's sources, each judged by the module's
checks (in a copy of /verif, on a copy of /repo). Prints the changes no check notices."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif")
from checks import CHECKS, MODDIR

mod = sys.argv[1]
MAX = int(sys.argv[2]) if len(sys.argv) > 2 else 100
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
PAR = int(os.environ.get("PAR", "3"))
ONLY = os.environ.get("ONLY", "").split()
work = tempfile.mkdtemp(prefix="mut-%s-" % mod)
for i in range(PAR):
    subprocess.check_call("mkdir -p %s/w%d && cp -r /verif %s/w%d/verif && rm -rf %s/w%d/verif/.git && git -C /repo archive HEAD | tar x -C %s/w%d --one-top-level=repo"
                          % (work, i, work, i, work, i, work, i), shell=True)
d = "/repo/" + MODDIR[mod]
files = [f for f in sorted(os.listdir(d)) if f.endswith((".c", ".h")) and not f.endswith(("_test.c", "_example.c"))]
cost = {}
for k, c in CHECKS.items():
    if any(mod in b["mods"] and mod not in b.get("inc_only", ()) or b["mods"][0] == mod for b in c["builds"]):
        try:
            cost[k] = json.load(open("/verif/evidence/%s.json" % k))["wall_s"]
        except OSError:
            cost[k] = 60
order = ONLY or sorted(cost, key=cost.get)


def strip(s):
    return re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'|//.*', lambda m: " " * len(m.group(0)), s)


def mutants(path):
    src = open(path).read().split("\n")
    out = []
    comment = False
    for n, line in enumerate(src):
        code = strip(line)
        if "/*" in code:
            comment = "*/" not in code
            continue
        if comment:
            comment = "*/" not in code
            continue
        if code.strip().startswith("#") and not code.strip().startswith("#define"):
            continue
        if not code.strip() or re.match(r"^(static |extern |const )*(struct|enum|typedef)\b[^=]*;?$", code.strip()):
            continue

        def sub(a, b, new):
            out.append((n, line[:a] + new + line[b:]))
        for rx, reps in [(r"==", ["!="]), (r"!=", ["=="]), (r"(?<![-<])<(?![<=])(?=[^>]*$|\s)", ["<="]), (r"<=", ["<"]),
                         (r"(?<![->])>(?![>=])", [">="]), (r">=", [">"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
                         (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\+\+", ["--"]), (r"--", ["++"]),
                         (r"(?<=[(\s])!(?=[\w(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
                         (r"<<", [">>"]), (r">>", ["<<"]), (r" \* ", [" + "]), (r" % ", [" / "]), (r" & ", [" | "]), (r" \| ", [" & "]),
                         (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["="]), (r"&=", ["="])]:
            if "#include" in line:
                continue
            for m in re.finditer(rx, code):
                if rx.startswith("(?<![-<])<") and "include" in code:
                    continue
                for r in reps:
                    sub(m.start(), m.end(), r)
        for m in re.finditer(r"(?<![\w.])(\d+)(u|l|ul|ull|U|L|UL|ULL)?(?![\w.])", code):
            v = int(m.group(1))
            sub(m.start(), m.end(), str(v + 1) + (m.group(2) or ""))
            if v > 0:
                sub(m.start(), m.end(), str(v - 1) + (m.group(2) or ""))
        st = code.strip().rstrip("\\").strip()
        if re.match(r"^[\w*(>.\[\]-].*;$", st) and not re.match(r"^(return|goto|case|default|struct|enum|typedef|const|static|int|char|void|size_t|uint\w+|int\w+|bool|long|double|float|unsigned|va_list)\b", st) and "{" not in st:
            ind = line[:len(line) - len(line.lstrip())]
            out.append((n, ind + ";" + (" \\" if line.rstrip().endswith("\\") else "")))
        m = re.search(r"\b(if|while) \((.*)\) \{", code)
        if m and m.group(1) == "if":
            a, b = m.start(2), m.end(2)
            sub(a, b, "0")
            sub(a, b, "1")
    return [(path, n, new) for n, new in out if new != src[n]]


def objsig(root):
    """the code of the module and of its test, which includes the header"""
    sig = []
    dd = root + "/" + MODDIR[mod]
    srcs = [x for x in sorted(os.listdir(dd)) if x.endswith(".c") and not x.endswith("_example.c")]
    if any(f.endswith(".c") for f in files):
        srcs = [x for x in srcs if not x.endswith("_test.c")]
    for x in srcs:
        r = subprocess.run("cd %s && gcc -std=gnu99 -O1 -w -c -o /dev/stdout -S %s" % (dd, x), shell=True, capture_output=True)
        if r.returncode:
            return None
        sig.append(r.stdout)
    return sig


allm = [m for f in files for m in mutants(d + "/" + f)]
random.Random(SEED).shuffle(allm)
base = objsig("/repo")
seen = set()
todo = []
free = list(range(PAR))
stats = dict(same=0, nocompile=0, killed=0, survived=0)
todo = allm
count = [0]
t0 = time.time()


def one(m):
    path, n, new = m
    if count[0] >= MAX:
        return
    w = free.pop()
    root = "%s/w%d" % (work, w)
    p = path.replace("/repo", root + "/repo", 1)
    orig = open(path).read()
    lines = orig.split("\n")
    old = lines[n]
    lines[n] = new
    try:
        open(p, "w").write("\n".join(lines))
        sig = objsig(root + "/repo")
        if sig is None:
            stats["nocompile"] += 1
            return
        if sig == base:
            stats["same"] += 1
            return
        count[0] += 1
        res = []
        for k in order:
            env = dict(os.environ, MC_REPO=root + "/repo")
            try:
                r = subprocess.run(["timeout", "400", "python3", root + "/verif/run.py", k], capture_output=True, text=True, env=env)
            except Exception as e:
                res.append(str(e))
                continue
            if r.returncode == 1:
                stats["killed"] += 1
                return
            if r.returncode:
                res.append("%s rc=%d" % (k, r.returncode))
        stats["survived"] += 1
        print("SURVIVOR %s:%d\n  - %s\n  + %s %s" % (os.path.basename(path), n + 1, old.strip(), new.strip(), res), flush=True)
    finally:
        open(p, "w").write(orig)
        free.append(w)


with ThreadPoolExecutor(PAR) as ex:
    list(ex.map(one, todo))
print("DONE %s candidates=%d %s order=%s %.0fs" % (mod, len(allm), stats, order, time.time() - t0))
shutil.rmtree(work)
