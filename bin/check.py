#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's working tree.

Exit 0: held on everything explored (listed findings are printed as KNOWN-FINDING lines).
Exit 1: a VIOLATION line was printed.   Exit 2: the check itself could not be carried out.
"""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("VERIF_BUILD", V + "/.build")
CFG = json.load(open(V + "/bin/props.json"))


def error(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def known_findings(pid):
    r = []
    for line in open(V + "/KNOWN_FINDINGS.txt"):
        line = line.rstrip("\n")
        if line.startswith("finding: "):
            m = re.match(r"finding: property=(\S+) driver=(\S+) section=/(.*?)/ class=/(.*?)/ case=/(.*?)/ :: (.*)$", line)
            if not m:
                error("malformed line in KNOWN_FINDINGS.txt: " + line)
            if m.group(1) == pid:
                r.append((m.group(2), re.compile(m.group(3)), re.compile(m.group(4)), re.compile(m.group(5)), m.group(6)))
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = CFG[pid]
    t0 = time.time()
    drivers = p["drivers"]
    rc = subprocess.run([V + "/bin/build.sh"] + drivers).returncode
    if rc:
        error("build failed")
    build_s = time.time() - t0
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"
    kf = known_findings(pid)
    ran, samples, sections, violations, hits = [], [], [], [], {}
    unconfirmed = 0
    capped = False
    states = transitions = executions = 0
    for d in drivers:
        out = "%s/evidence/.%s.%s.json" % (V, pid, d)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [B + "/bin/" + d, "--out", out, "--tier", tier, "--jobs", "8",
               "--budget", str(p.get("budget", 420) / len(drivers) if tier == "quick" else 14400), ]
        print("$ " + " ".join(cmd), flush=True)
        for attempt in (1, 2):
            rc = subprocess.run(cmd, env=env).returncode
            r = None
            if rc == 0 and os.path.exists(out):
                r = json.load(open(out))
                os.unlink(out)
                if not r["fatal"]:
                    break
        else:
            # the implementation died twice while the driver prepared its inputs
            detail = r["fatal"] if r else "driver ended with status %d" % rc
            violations.append((d, {"section": "setup", "cls": "crash", "desc": "start of the driver", "detail": detail,
                                   "unit": -1, "local": -1}))
            if not r:
                continue
        states += r["states"]
        transitions += r["transitions"]
        executions += r["executions"]
        capped = capped or r["capped"] or r["overflow"] > 0 or r["unexamined"] > 0
        for s in r["sections"]:
            if s["executions"]:
                samples += ["%s/%s: %s" % (d, s["name"], x) for x in s["samples"][:2]]
                sections.append({k: s[k] for k in ("name", "executions", "transitions", "distinct_outcomes")} | {"driver": d, "outcomes": s["outcomes"][:6]})
        for f in r["failures"]:
            if not f["confirmed"]:
                unconfirmed += 1
                print("not reproduced when replayed alone (not reported): %s %s %s" % (f["section"], f["cls"], f["desc"]))
                continue
            for k in kf:
                if k[0] == d and k[1].fullmatch(f["section"]) and k[2].fullmatch(f["cls"]) and k[3].fullmatch(f["desc"]):
                    hits[k[4]] = hits.get(k[4], 0) + 1
                    break
            else:
                violations.append((d, f))
        ran.append({"driver": d, "units": r["units"], "executions": r["executions"], "wall_s": r["wall_s"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states or executions, "transitions": transitions, "traces_validated_against_impl": executions,
            "samples": samples[:60], "exhaustive": not capped, "bounds": p["bounds"][tier] if isinstance(p["bounds"], dict) else p["bounds"],
            "rule": "states: distinct explored input/state encodings (hashed), or the enumerated cases themselves, which are all different, where the driver keeps no state; transitions: calls into the implementation whose result was compared with the reference model; traces: executions of the real code (each one enumerated case)",
            "sections": sections, "drivers": ran, "unconfirmed": unconfirmed, "build_s": round(build_s, 1),
        },
        "assumptions": p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for k, n in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, k, n))
    if capped:
        print("NOTE: a cap was hit; the space was not explored completely")
    print("%s %s: %d executions, %d transitions, %d states, %d sections, %.0f s" %
          (pid, tier, executions, transitions, states, len(sections), time.time() - t0))
    if not violations:
        if executions == 0:
            error("nothing was explored")
        sys.exit(0)
    seen = {}
    for n, (d, f) in enumerate(violations):
        key = (d, f["section"], f["cls"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1 or len(seen) > 10:
            continue
        path = "%s/evidence/replay/%s-%d.json" % (V, pid, len(seen))
        json.dump({"property": pid, "driver": d, "tier": tier, "case": "%d:%d" % (f["unit"], f["local"]),
                   "section": f["section"], "class": f["cls"], "input": f["desc"], "detail": f["detail"],
                   "replay": "cd %s && bin/build.sh %s && ASAN_OPTIONS=detect_leaks=0 .build/bin/%s --tier %s --only %d:%d" % (V, d, d, tier, f["unit"], f["local"])},
                  open(path, "w"), indent=1)
        print("  %s [%s] %s: %s -- %s" % (d, f["section"], f["cls"], f["desc"], f["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%d violating cases in %d classes" % (len(violations), len(seen)))
    sys.exit(1)


main()
