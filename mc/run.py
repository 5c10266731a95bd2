#!/usr/bin/env python3
"""run.py <property>: builds and runs the check of one property; run.py replay <file>; run.py build-all."""
import json, os, re, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
sys.path.insert(0, os.path.join(B.VERIF, "checks"))
import registry

VERIF = B.VERIF
WALL = int(os.environ.get("KV_WALL", "840"))


def build_unit(u):
    b = B.Builder(u["variant"])
    return b.build(u["name"] + ".bin", u["src"], u.get("tus", "auto"), u.get("extra", ()), u.get("optional", ()), unused=u.get("unused"))


def run_property(prop):
    t0 = time.time()
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.CHECKS[prop]
    known = os.path.join(VERIF, "known_findings.txt")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    total, samples, per_unit = {}, [], {}
    violation, errors, known_lines = None, [], []
    tb = 0.0
    for u in spec["units"]:
        ts = time.time()
        try:
            exe = build_unit(u)
        except RuntimeError as e:
            sys.stderr.write(str(e) + "\n")
            print("ERROR: build of %s failed" % u["name"])
            return 2
        tb += time.time() - ts
        n = u.get("shards", B.JOBS)
        procs = []
        fd, claim = tempfile.mkstemp(prefix="kvclaim.")
        os.close(fd)
        tr = time.time()
        wall = WALL - (time.time() - t0) if not thorough else 6 * 3600
        for i in range(n):
            cmd = [exe, "--shard", "%d/%d" % (i, n), "--property", prop, "--replay-dir", replays, "--known", known]
            if thorough:
                cmd.append("--thorough")
            cmd += u.get("args", [])
            procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                                          env=dict(os.environ, VERIF_SEED=str(seed), KV_CLAIM=claim)))
        import threading
        outs = [None] * n

        seen = []

        def collect(i):
            lines, t_end = [], time.time() + max(5, wall)

            def reader():
                for l in procs[i].stdout:
                    lines.append(l)
                    if l.startswith("VIOLATION "):
                        seen.append(time.time())
            errs = []
            r1 = threading.Thread(target=reader)
            r2 = threading.Thread(target=lambda: errs.append(procs[i].stderr.read()))
            r1.start(), r2.start()
            rc = None
            while rc is None:
                try:
                    rc = procs[i].wait(timeout=0.2)
                except subprocess.TimeoutExpired:
                    # the verdict is known: do not wait long for the other shards
                    if time.time() > t_end or (seen and time.time() > seen[0] + 10):
                        procs[i].kill()
                        procs[i].wait()
                        rc = -99
            r1.join(), r2.join()
            outs[i] = (rc, "".join(lines), "".join(errs))
        th = [threading.Thread(target=collect, args=(i,)) for i in range(n)]
        [t.start() for t in th]
        [t.join() for t in th]
        os.unlink(claim)
        ustat = {}
        for i, (rc, o, e) in enumerate(outs):
            got = False
            for line in o.splitlines():
                if line.startswith("STATS "):
                    st = json.loads(line[6:])
                    got = True
                    samples += st.pop("samples")
                    for k, v in st.items():
                        f = max if k in ("max_choice_depth",) else (lambda a, b: a + b)
                        total[k] = f(total[k], v) if k in total else v
                        ustat[k] = f(ustat[k], v) if k in ustat else v
                elif line.startswith("VIOLATION "):
                    violation = violation or line
                    print(line)
                elif line.startswith("KNOWN-FINDING:"):
                    if line not in known_lines:
                        known_lines.append(line)
                        print(line)
                elif line.startswith(("FAILED", "DIVERGENCE", "NOT-REPLAYED", "NOTE")):
                    print(line)
            if rc not in (0, 1) or not got:
                errors.append("unit %s shard %d: exit %s%s" % (u["name"], i, rc, (" " + (o + e)[-600:])))
        ustat["run_s"] = round(time.time() - tr, 1)
        per_unit[u["name"] + "/" + u["variant"]] = ustat
        if violation:
            break
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": total.get("nodes", 0) + total.get("executions", 0) + total.get("cases", 0),
            "transitions": total.get("transitions", 0) + total.get("nodes", 0) + total.get("cases", 0),
            "traces_validated_against_impl": total.get("executions", 0),
            "evaluations": total.get("executions", 0) + total.get("cases", 0),
            "distinct_nontrivial": total.get("distinct_outcomes", 0) + total.get("cases", 0),
            "rule": spec["rule"],
            "samples": samples[:6],
            "exhaustive": total.get("capped_scenarios", 0) == 0,
            "detail": total, "per_unit": per_unit,
        },
        "assumptions": spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    d = {k: total.get(k) for k in ("scenarios", "executions", "cases", "nodes", "transitions", "distinct_outcomes", "capped_scenarios", "restarts")}
    print("%s %s: %s build %.1fs wall %.1fs" % (prop, ev["tier"], d, tb, ev["wall_s"]))
    if violation:
        return 1
    if errors:
        for e in errors[:4]:
            print("ERROR:", e)
        return 2
    return 0


def replay(path):
    txt = open(path).read()
    prop = re.search(r"^property (\S+)", txt, re.M).group(1)
    exe = re.search(r"^binary (\S+)", txt, re.M).group(1)
    for u in registry.CHECKS[prop]["units"]:
        if exe.endswith("/%s/%s.bin" % (u["variant"], u["name"])):
            exe = build_unit(u)
    return subprocess.call([exe, "--replay", path, "--known", os.path.join(VERIF, "known_findings.txt")])


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "build":
        for p in sys.argv[2:] or registry.CHECKS:
            for u in registry.CHECKS[p]["units"]:
                print(p, build_unit(u))
        sys.exit(0)
    if sys.argv[1] == "setup":
        for tool in ("g++", "python3"):
            subprocess.check_call([tool, "--version"], stdout=subprocess.DEVNULL)
        os.makedirs(B.BUILD, exist_ok=True)
        print("setup ok (checks build on demand)")
        sys.exit(0)
    sys.exit(run_property(sys.argv[1]))
