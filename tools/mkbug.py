#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE <<< json {old,new[,n]|edits, needs, breaks, demo}: writes seeded/ID.
The demo is a C program; demo.sh compiles it with the given sources."""
import json, os, subprocess, sys, shutil, tempfile

def make(id, prop, edits, needs, breaks, demo, files, flags="", run="", aux=()):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="bug-")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && "
                              "git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (tmp, tmp), shell=True)
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp, "diff"], text=True)
        # changed lines must be original ones
        base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---"):
                ok = False
                for f in {e[0] for e in edits}:
                    o = subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], capture_output=True, text=True).stdout
                    ok |= l[1:] in o.split("\n")
                assert ok, ("not an original line", id, l)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(tmp)
    open(d + "/demo.c", "w").write(demo)
    for name, text in aux:
        open(d + "/" + name, "w").write(text)
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# run in /repo: compiles demo.c against the library sources and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -g -w {flags} -I"$d" {' '.join('-I"$repo/%s"' % os.path.dirname(f) for f in files)} "$d/demo.c" \\
  {' '.join('"$repo/%s"' % f for f in files if f.endswith('.c'))} -o "$t/demo" -pthread || exit 1
cd "$t" || exit 1
timeout 120 {run}./demo
rc=$?
[ $rc = 0 ] && echo "demo: fine" || echo "demo: FAILED ($rc)"
exit $rc
""")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
