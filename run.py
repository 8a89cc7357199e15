#!/usr/bin/env python3
"""run.py ID [quick|thorough]   decide one property against /repo's working tree
run.py ID --replay FILE        replay a saved case

Builds the property's suites from /repo/src into build/, runs them, merges what
they covered into evidence/ID.json.  Exit 0: held on everything explored; 1: a
VIOLATION line was printed; 2: no answer (build failure, no progress)."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from suites import SUITES, ASSUME  # noqa: E402

REPO = os.environ.get("RTM_REPO", "/repo")
SAN = ["-fsanitize=address,bounds,null,bool,enum,return,unreachable",
       "-fno-sanitize-recover=all"]
BASE = ["-std=gnu++17", "-mcx16", "-O1", "-fwrapv", "-g1", "-w", "-pthread"]


def sh(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    log.append(" ".join(cmd) + "\n" + p.stdout)
    return p.returncode == 0


def build(suite, out, log, pool):
    """Compiles the objects of a suite and links it.  Returns None or the error.
    An object marked `compiles_is_property` that does not compile breaks the
    property itself."""
    os.makedirs(out, exist_ok=True)
    jobs, objs = [], []
    inc = ["-I" + V + "/engine", "-I" + V + "/checks", "-I" + REPO + "/src"]
    for u in suite["units"]:
        obj = os.path.join(out, u["name"] + ".o")
        objs.append(obj)
        flags = list(BASE)
        kind = u.get("kind", "seq")
        if kind == "seq":
            flags += SAN + ["-fsanitize-coverage=trace-pc"]
        elif kind == "asan":
            flags += SAN
        elif kind == "fiber":   # the code under a harness-owned schedule
            flags += ["-fsanitize=thread", "-fsanitize-coverage=trace-pc"]
        elif kind in ("plain", "alone"):
            pass
        flags += [f.replace("@V@", V) for f in u.get("flags", [])]
        if "gen" in u:          # a generated source: [script, count quick, count thorough]
            src = os.path.join(out, u["name"] + ".cpp")
            n = u["gen"][2 if TIER[0] == "thorough" else 1]
            if not sh([sys.executable, os.path.join(V, u["gen"][0]), src, str(TIER[1]), str(n)], log):
                return u, log[-1]
            u = dict(u, src=src)
        src = u["src"] if u["src"].startswith("/") else os.path.join(V, u["src"])
        jobs.append((u, [u.get("cxx", "g++")] + flags + inc + ["-c", src, "-o", obj], obj))

    def one(j):
        l = []
        ok = sh(j[1], l)
        if ok and j[0].get("kind") == "alone":
            # everything but its entry point is private to the object, so that
            # several versions of the library can be in one program
            tmp = j[2] + ".tmp.o"
            ok = sh(["ld", "-r", "--force-group-allocation", "-o", tmp, j[2]], l) and \
                sh(["objcopy"] + ["--redefine-sym=" + x for x in j[0]["redefine"]] +
                   ["--keep-global-symbol=" + j[0]["entry"], tmp, j[2]], l)
            if not ok:
                return dict(j[0], compile_is_property=False), ok, "\n".join(l)
        return j[0], ok, "\n".join(l)
    bad = None
    for u, ok, l in pool.map(one, jobs):
        log.append(l)
        if not ok and u.get("optional"):
            objs.remove(os.path.join(out, u["name"] + ".o"))
        elif not ok and bad is None:
            bad = (u, l)
    if bad:
        return bad
    exe = os.path.join(out, "check")
    link = ["g++"] + (SAN if suite.get("san", True) else []) + objs + \
        [f.replace("@V@", V) for f in suite.get("link", [])] + ["-latomic", "-pthread", "-o", exe]
    if not sh(link, log):
        return ({"name": "link"}, log[-1])
    return None


TIER = ["quick", 1]


def known(pid):
    """known_findings.txt: `known: property=ID match=<regex> <what fails>`"""
    r = []
    try:
        for line in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line)
            if m and m.group(1) == pid:
                r.append((re.compile(m.group(2)), m.group(3).strip()))
    except OSError:
        pass
    return r


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
    for a in args:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    TIER[:] = [tier, seed]
    scale = os.environ.get("VERIF_SCALE", "1")
    t0 = time.time()
    bdir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(V, "build")), pid)
    rdir = os.path.join(V, "replays")
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(rdir, exist_ok=True)
    log = []
    suites = SUITES[pid]
    pool = ThreadPoolExecutor(8)
    violations, broken = [], False
    # suites of one property build together, then run one after the other
    def b(s):
        return s, build(s, os.path.join(bdir, s["name"]), log, pool2)
    pool2 = ThreadPoolExecutor(8)
    todo = []
    for s, err in ThreadPoolExecutor(4).map(b, suites):
        if err is None:
            todo.append(s)
        elif err[0].get("compile_is_property"):
            rp = os.path.join(rdir, "%s-compile-%s.log" % (pid, err[0]["name"]))
            with open(rp, "w") as f:
                f.write(err[1])
            print("%s: %s does not compile" % (s["name"], err[0]["name"]))
            print(err[1][:2000])
            violations.append(("%s does not compile" % err[0]["name"], rp))
        else:
            broken = True
            print("BUILD FAILED: %s of suite %s" % (err[0]["name"], s["name"]))
            print(err[1][:6000])
    with open(os.path.join(bdir, "build.log"), "w") as f:
        f.write("\n".join(log))
    tb = time.time() - t0
    results = []
    kn = known(pid)
    for s in todo:
        if any(not any(rx.search(m) for rx, _ in kn) for m, _ in violations) and not replay:
            print("suite %s not run: a violation was found before it" % s["name"])
            continue
        exe = os.path.join(bdir, s["name"], "check")
        out = os.path.join(bdir, s["name"], "out.json")
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ)
        env.update(s.get("env", {}))
        if replay:
            if ("-%s-" % s["name"]) in os.path.basename(replay):
                p = subprocess.run([exe, "--replay", replay], env=env)
                sys.exit(p.returncode)
            continue
        cmd = s.get("prefix", []) + [exe, "--seed", str(seed), "--tier", tier, "--out", out,
                                     "--replay-dir", rdir,
                                     "--scale", str(float(scale) * s.get("scale", 1))]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
        sys.stdout.write(p.stdout[-20000:])
        sys.stdout.flush()
        if p.returncode not in (0, 1) or not os.path.exists(out):
            broken = True
            print("NO ANSWER from suite %s (exit %d)" % (s["name"], p.returncode))
            continue
        r = json.load(open(out))
        results.append(r)
        if p.returncode == 1:
            violations.append((r["message"], r["replay"]))
    unlisted = []
    for msg, rp in violations:
        for rx, what in kn:
            if rx.search(msg):
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
                break
        else:
            unlisted.append((msg, rp))
    samples = []
    for r in results:
        for x in r["samples"][:3 if len(results) > 1 else 6]:
            samples.append({"suite": r["suite"], "case": x})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(r["evaluations"] for r in results),
              "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
              "rule": " || ".join("%s: %s" % (r["suite"], r["rule"]) for r in results) or "none ran",
              "samples": samples or ["no suite ran"],
              "suites": [{"suite": r["suite"], "evaluations": r["evaluations"],
                          "nontrivial": r["nontrivial"],
                          "distinct_nontrivial": r["distinct_nontrivial"],
                          "corpus": r["corpus"], "classes": r["labels"],
                          "work": r["counts"], "wall_s": r["wall"]} for r in results]},
          "assumptions": ASSUME.get(pid, []),
          "wall_s": round(time.time() - t0, 2), "violations": len(unlisted)}
    if not replay:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, build %.1f s, total %.1f s" %
          (pid, tier, seed, ev["coverage"]["evaluations"], tb, time.time() - t0))
    if unlisted:
        for msg, rp in unlisted:
            print("FAILURE: " + msg.replace("\n", " ")[:500])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(2 if broken else 0)


main()
