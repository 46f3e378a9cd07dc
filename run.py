#!/usr/bin/env python3
"""Builds a property's harnesses from /repo's working tree, explores, reports.

usage: run.py ID [--replay FILE] [--keep]
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, MODDIR  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ALLOC = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
NCPU = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout


def mod_sources(mod):
    d = os.path.join(REPO, MODDIR[mod])
    return sorted(f for f in glob.glob(d + "/*.c")
                  if not f.endswith("_test.c") and not f.endswith("_example.c"))


def build(spec, out):
    """returns the path of the harness binary"""
    os.makedirs(out, exist_ok=True)
    cc = spec.get("cc", "gcc")
    san = spec.get("san", ["-fsanitize=address"])
    base = ["-g", spec.get("opt", "-O1"), "-fno-omit-frame-pointer", "-pthread", "-w",
            "-U_FORTIFY_SOURCE"]
    inc = ["-I" + VERIF + "/lib", "-I" + VERIF + "/harness"]
    inc += ["-I" + os.path.join(REPO, MODDIR[m]) for m in spec["mods"]]
    defs = spec.get("defs", [])
    objs, jobs = [], []
    for m in spec["mods"]:
        if m in spec.get("inc_only", ()):
            continue
        for src in mod_sources(m):
            o = os.path.join(out, "repo_" + os.path.basename(src) + ".o")
            objs.append(o)
            cmd = [cc, "-c", "-std=c99"] + base + spec.get("repo_san", san) + inc + defs + \
                ["-fno-builtin"] + spec.get("repo_flags", []) + [src, "-o", o]
            oc = ["objcopy"]
            for f in (ALLOC if spec.get("alloc", True) else []) + spec.get("redef", []):
                oc += ["--redefine-sym", f"{f}=mc_{f}"]
            for f in spec.get("bad", []):
                oc += ["--redefine-sym", f"{f}=bad_{f}"]
            if spec.get("globals", True):
                oc += ["--rename-section", ".bss=sc_bss,alloc",
                       "--rename-section", ".data=sc_data"]
            if len(oc) > 1:
                jobs.append([cmd, oc + [o]])
            else:
                jobs.append([cmd])
    for src in [spec["harness"]] + spec.get("extra", []):
        o = os.path.join(out, "h_" + src + ".o")
        objs.append(o)
        j = [[cc, "-c", "-std=gnu11"] + base + spec.get("h_san", san) + inc + defs +
             spec.get("h_flags", []) + [os.path.join(VERIF, "harness", src), "-o", o]]
        if src in spec.get("x_inst", ()):  # scripts instrumented like the library
            j[0] += spec["repo_san"] + ["-fno-builtin"]
            j.append(["objcopy"] + [x for f in ALLOC + spec["redef"]
                                    for x in ("--redefine-sym", f"{f}=mc_{f}")] + [o])
        elif spec.get("h_redef") or spec.get("bad"):
            oc = ["objcopy"]  # header-only modules: the library code is in the harness
            for f in spec.get("bad", []):
                oc += ["--redefine-sym", f"{f}=bad_{f}"]
            for f in spec.get("h_redef", []):
                oc += ["--redefine-sym", f"{f}=mc_{f}"]
            j.append(oc + [o])
        jobs.append(j)
    for src in ["mc.c"] + spec.get("lib", []):
        o = os.path.join(out, "l_" + src + ".o")
        objs.append(o)
        jobs.append([[cc, "-c", "-std=gnu11"] + base + spec.get("h_san", san) + inc + defs +
                     [os.path.join(VERIF, "lib", src), "-o", o]])
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda cs: [sh(c) for c in cs], jobs))
    exe = os.path.join(out, "h")
    sh([cc, "-pthread"] + spec.get("ld_san", san) + objs + ["-o", exe] + spec.get("libs", []))
    return exe


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_one(exe, args, timeout, cwd, log):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=1:allocator_may_return_null=1:" \
        "detect_stack_use_after_return=0:abort_on_error=0:handle_abort=0:detect_odr_violation=0"
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C"
    with open(log, "w") as f:
        p = subprocess.Popen([exe] + args, stdout=f, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, env=env, cwd=cwd, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            pass
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
    return None


def main():
    t0 = time.time()
    args = sys.argv[1:]
    pid = args[0]
    check = CHECKS[pid]
    thorough = TIER == "thorough"
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    work = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    global SHM
    try:
        # harnesses that use real files do so in memory: hundreds of thousands of them
        SHM = tempfile.mkdtemp(prefix="mc-%s-" % pid, dir="/dev/shm")
    except OSError:
        SHM = work
    keep = "--keep" in args
    os.chmod(work, 0o755)
    try:
        return go(pid, check, thorough, work, args, t0)
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        return 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
        if SHM != work:
            shutil.rmtree(SHM, ignore_errors=True)


def go(pid, check, thorough, work, args, t0):
    known = known_findings(pid)
    kargs = []
    for s in known:
        kargs += ["--known", s]
    builds = []
    for i, spec in enumerate(check["builds"]):
        if spec.get("only") and spec["only"] != TIER:
            continue
        builds.append((i, spec))
    limit = check.get("timeout", 300) if not thorough else check.get("timeout_thorough", 840)
    t_end = t0 + limit
    with ThreadPoolExecutor(NCPU) as ex:
        exes = dict(ex.map(lambda b: (b[0], build(b[1], work + "/b%d" % b[0])), builds))

    if "--replay" in args:
        rp = os.path.abspath(args[args.index("--replay") + 1])
        m = re.search(r"^# build (\d+)", open(rp).read(), re.M)
        i = int(m.group(1)) if m else builds[0][0]
        log = work + "/replay.log"
        rc = run_one(exes[i], ["--replay", rp], limit, SHM, log)
        print(open(log, errors="replace").read())
        print("replay exit:", rc)
        return 1 if rc else 0

    jobs = []
    for i, spec in builds:
        n = spec.get("shards", NCPU)
        for s in range(n):
            jobs.append((i, spec, s, n))
    fails = []
    late = []
    results = []

    def work_job(j):
        i, spec, s, n = j
        tag = "%s/r%d_%d" % (work, i, s)
        os.makedirs(tag)
        rp = tag + "/replay"
        a = ["--shard", str(s), str(n), "--out", tag + "/out.json", "--replay-out", rp] + kargs
        if thorough:
            a.append("--thorough")
        left = max(5, t_end - time.time())
        if fails:
            return
        a += ["--limit", "%.1f" % max(1, left - 10)]
        cwd = SHM + "/d%d_%d" % (i, s)
        os.makedirs(cwd)
        rc = run_one(exes[i], a, left, cwd, tag + "/log")
        res = None
        try:
            res = json.load(open(tag + "/out.json"))
            results.append((i, res))
        except (OSError, ValueError):
            pass
        if rc is None:  # the harness stops by itself before: an overloaded machine
            late.append((i, s))
        elif rc != 0:
            fails.append((i, s, n, rc, tag, res))

    with ThreadPoolExecutor(check.get("par", NCPU)) as ex:
        list(ex.map(work_job, jobs))

    if late:
        print("TIME-LIMIT", late)
    violation = None
    noanswer = None
    for i, s, n, rc, tag, res in fails:
        rp = tag + "/replay"
        confirmed = False
        if os.path.exists(rp):
            rc2 = run_one(exes[i], ["--replay", rp] + kargs + (["--thorough"] if thorough else []),
                          120, tag, tag + "/relog")
            confirmed = rc2 is None or rc2 != 0
        if not confirmed:
            # the same part of the space again, alone
            a = ["--shard", str(s), str(n), "--out", tag + "/out2.json", "--replay-out",
                 tag + "/replay2"] + kargs + (["--thorough"] if thorough else [])
            rc2 = run_one(exes[i], a, limit, tag, tag + "/log2")
            confirmed = rc2 is not None and rc2 != 0
            if os.path.exists(tag + "/replay2"):
                rp = tag + "/replay2"
        if not confirmed:
            noanswer = noanswer or "shard %d of build %d failed once (rc=%s), not reproduced" % (s, i, rc)
            print("NOT-REPRODUCED", noanswer)
            continue
        dst = VERIF + "/replays/%s_b%d.txt" % (pid, i)
        with open(dst, "w") as f:
            if os.path.exists(rp):
                f.write(open(rp, errors="replace").read())
            else:
                f.write("config shard %d of %d\n# no trace: the harness ended with %s\n" % (s, n, rc))
            f.write("# build %d\n" % i)
            f.write("# replay with: python3 run.py %s --replay %s\n" % (pid, dst))
            f.write("".join("# log: " + x for x in open(tag + "/log", errors="replace").readlines()[-60:]))
        violation = dst
        log = open(tag + "/log", errors="replace").read()
        m = re.search(r"^SUMMARY.*$", log, re.M)
        print((m.group(0) + "\n" if m else "") + log[max(0, log.find("RAW-VIOLATION")):][:3000])
        break

    tot = dict(states=0, transitions=0, evaluations=0, distinct=0, validated=0)
    counts, samples, inc, hits = {}, [], set(), {}
    for i, r in results:
        for k in tot:
            tot[k] += r.get(k, 0)
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        samples.append(r["samples"])
        if r["incomplete"]:
            inc.update(x for x in r["incomplete"].split("; ") if x)
        for k, v in r["known"].items():
            h = hits.setdefault(k, [0, v["first"]])
            h[0] += v["hits"]
    flat = []
    if late:
        inc.add("time limit reached")
    for k in range(12):
        for s in samples:
            if k < len(s) and len(flat) < 12:
                flat.append(s[k])
    cov = dict(samples=flat or ["(none)"], bounds=check["bounds"], counters=counts,
               bounds_hit=sorted(inc), exhaustive=not inc, builds=len(builds), shards=len(jobs))
    if check["level"] == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"],
                   traces_validated_against_impl=tot["validated"], state_rule=check["rule"])
        if tot["evaluations"]:
            cov["further_cases"] = tot["evaluations"]
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"],
                   rule=check["rule"])
        if tot["states"]:
            cov.update(states=tot["states"])
        if tot["transitions"]:
            cov.update(transitions=tot["transitions"])
    ev = dict(property=pid, tier=TIER, seed=SEED, level=check["level"], coverage=cov,
              assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, (n, first) in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s sig=%s %s (%d hits, first: %s)" % (pid, k, known[k], n, first))
    print("%s %s: states=%d transitions=%d evaluations=%d distinct=%d wall=%.1fs %s" % (
        pid, TIER, tot["states"], tot["transitions"], tot["evaluations"], tot["distinct"],
        time.time() - t0, sorted(inc)))
    if violation:
        print("VIOLATION property=%s replay=%s" % (pid, violation))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
