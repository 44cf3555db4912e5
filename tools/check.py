#!/usr/bin/env python3
"""check.py ID  -- build what property ID needs from /repo's working tree, explore, write evidence/ID.json.

Exit 0: held on everything explored (known findings are printed).  Exit 1: VIOLATION line.  Anything else: error.
"""
import json, os, re, subprocess, sys, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

V = B.VERIF


def known():
    """known-findings: lines 'finding: property=<id> key=<key> | text' and 'fixed: property=<id> <commit> <what>'."""
    r = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)", l)
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a.split("=")[1]
        if a.startswith("--replay="):
            replay = a.split("=", 1)[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:malloc_fill_byte=190:max_malloc_fill_size=65536:"
                           "free_fill_byte=221:max_free_fill_size=4096:quarantine_size_mb=4:handle_abort=1:"
                           "allocator_may_return_null=1:malloc_context_size=2:detect_odr_violation=0")
    env["MALLOC_PERTURB_"] = "165"
    env["LC_ALL"] = "C"
    kn = known().get(pid, {})
    parts, viols, knownhit = [], [], {}
    rc = 0
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not replay:
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(rdir, f))
    for part in c["parts"]:
        name = part["name"]
        only = os.environ.get("VF_ONLY")
        if only and only != name:
            continue
        try:
            exe = B.build(part["config"], [os.path.join(V, "harness", s) for s in ["vf.cpp"] + part["src"]],
                          pid + "-" + name, part.get("cxxflags", ()))
        except B.BuildError as e:
            print("BUILD ERROR\n" + str(e)[:6000])
            return 2
        tb = time.time()
        out = os.path.join(B.OUT, "out-%s-%s-%d.json" % (pid, name, os.getpid()))
        args = dict(part.get("args", {}))
        args.update(part.get(tier, {}))
        cmd = [exe, "--tier=" + tier, "--jobs=%d" % int(os.environ.get("VF_JOBS", B.JOBS)), "--tmp=/tmp"]
        cmd += ["--%s=%s" % kv for kv in args.items()]
        if "maxtime" not in args:
            cmd.append("--maxtime=%d" % (600 if tier == "quick" else 3000))
        if replay:
            txt = open(replay).read()
            m = re.search(r"^part: (\S+)", txt, re.M)
            if m and m.group(1) != name:
                continue
            return subprocess.run(cmd + ["--replay=" + os.path.abspath(replay), "--log=1"], env=env).returncode
        cmd.append("--out=" + out)
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        txt = p.stdout.decode("utf-8", "replace")
        if txt.strip():
            print(txt[-3000:])
        try:
            r = json.load(open(out))
            os.remove(out)
        except Exception as e:
            print("harness gave no result: rc=%d %s" % (p.returncode, e))
            return 2
        if r["error"]:
            print("HARNESS ERROR: " + r["error"])
            rc = max(rc, 2)
        for k in part.get("require", []):
            if not r["counters"].get(k):
                print("HARNESS ERROR: vacuous: counter %r is zero" % k)
                rc = max(rc, 2) if not r["violations"] else rc
        r["build_s"] = round(tb - t0, 2)
        for v in r.pop("violations"):
            if v["key"] in kn:
                knownhit[v["key"]] = kn[v["key"]]
                continue
            slug = re.sub(r"[^A-Za-z0-9]+", "-", v["key"]).strip("-")[:60]
            rp = os.path.join(rdir, "%s-%s-%s.txt" % (pid, name, slug))
            with open(rp, "w") as f:
                f.write("property: %s\npart: %s\nkey: %s\nmessage: %s\nchoices: %s\nreplay with: python3 /verif/tools/check.py %s --replay=%s\n\ntrace:\n%s\nlog:\n%s\n"
                        % (pid, name, v["key"], v["msg"], v["choices"], pid, rp, v["trace"], v["log"]))
            viols.append((v["key"], v["msg"], rp))
        parts.append((part, r))
    tot = lambda k: sum(r[k] for _, r in parts)
    samples = []
    for part, r in parts:
        for s in r["samples"][:2]:
            samples.append({"part": part["name"], "choices(value/arity)": s})
    cov = {
        "states": tot("states"), "transitions": tot("steps"), "traces_validated_against_impl": tot("runs"),
        "evaluations": tot("runs"), "distinct_nontrivial": tot("nontrivial"), "rule": c["rule"],
        "samples": samples or ["none"],
        "exhaustive": all(r["exhaustive"] for _, r in parts) and bool(parts),
        "parts": [{"name": p["name"], "config": p["config"], "runs": r["runs"], "states": r["states"],
                   "transitions": r["steps"], "distinct_nontrivial": r["nontrivial"], "pruned": r["pruned"],
                   "longest_choice_sequence": r["maxlen"], "deviation_bound": r["devbound"],
                   "exhaustive_within_bounds": r["exhaustive"], "capped": r["capped"],
                   "counters": r["counters"], "bounds": p.get("bounds", ""), "wall_s": r["wall"],
                   "unreproducible": r["unreproducible"]} for p, r in parts],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"), "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s runs=%d states=%d transitions=%d nontrivial=%d exhaustive=%s wall=%.1fs" % (
        pid, tier, tot("runs"), tot("states"), tot("steps"), tot("nontrivial"), cov["exhaustive"], ev["wall_s"]))
    for k, t in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, t))
    for k, m, rp in viols:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s: %s" % (k, m[:600]))
    if viols:
        return 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
