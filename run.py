#!/usr/bin/env python3
"""Decides one property: run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--time-scale X]"""
import argparse, json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, VERIF)
from vlib import build as B, props

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--time-scale", type=float, default=1.0); ap.add_argument("--only")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    t0 = time.time(); P = props.PROPS[a.id]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if a.replay:
        txt = open(a.replay).read(); name = re.search(r"^bin (.*)$", txt, re.M).group(1)
        suite = re.search(r"^suite (.*)$", txt, re.M).group(1)
        paths = B.build(props.with_deps([name]))
        if not isinstance(paths[name], str): print(paths[name]); return 2
        r = subprocess.run([paths[name], "--replay", os.path.abspath(a.replay)], env=props.env_for(name, paths))
        if r.returncode == 1: print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
        return 1 if r.returncode == 1 else 0 if r.returncode == 0 else 2
    suites = [s for s in P["suites"] if s["suite"] == a.only or not a.only and (a.tier == "thorough" or s["quick"] > 0)]
    paths = B.build(props.with_deps(sorted({s["bin"] for s in suites})))
    t_build = time.time() - t0
    notes, total, errors = [], dict(ev=0, nt=0, disc=0, inc=0, unrep=0), []
    per_suite, samples, violation, known = {}, [], None, []
    for s in suites:
        tag = s["suite"] + "@" + s["bin"]
        if not isinstance(paths[s["bin"]], str):
            if s.get("optional"): notes.append("suite %s skipped: it uses an internal interface that this tree does not have" % tag); continue
            errors.append("cannot build %s: %s" % (s["bin"], paths[s["bin"]])); continue
        q = s["quick"] if a.tier == "quick" else s.get("thorough", s["quick"] * 20)
        out = os.path.join(VERIF, "build", "out-%s-%s.json" % (a.id, tag)); rep = os.path.join(VERIF, "evidence", "replay-%s-%s.txt" % (a.id, tag))
        for f in (out, rep):
            if os.path.exists(f): os.remove(f)
        cmd = [paths[s["bin"]], "--suite", s["suite"], "--cases", str(s.get("cases", 100000000)), "--seed", str(a.seed), "--maxtime", str(q * a.time_scale),
               "--shrinktime", str(s.get("shrink", 20 if a.tier == "quick" else 120)), "--out", out, "--replay-out", rep]
        if s.get("workers"): cmd += ["--workers", str(s["workers"])]
        r = subprocess.run(cmd, env=props.env_for(s["bin"], paths), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try: d = json.load(open(out))
        except Exception as e:
            if re.search(r"FATAL: \w+Sanitizer|Shadow memory range", r.stdout): notes.append("suite %s skipped: the sanitizer does not run on this machine" % tag); continue
            errors.append("suite %s ended with %d: %s" % (tag, r.returncode, r.stdout[-1500:])); continue
        os.remove(out)
        total["ev"] += d["evaluations"]; total["nt"] += d["distinct_nontrivial"]; total["disc"] += d["discarded"]; total["inc"] += d["inconclusive"]; total["unrep"] += d["unreproduced"]
        per_suite[tag] = {k: d[k] for k in ("evaluations", "distinct_nontrivial", "discarded", "inconclusive", "unreproduced", "wall_s", "labels")}
        per_suite[tag]["rule"] = s["rule"]
        samples += [{"suite": tag, "case": x} for x in d["samples"][:2]]
        if d.get("flaky_note"): notes.append("suite %s: a failure that did not reproduce: %s" % (tag, d["flaky_note"][:300]))
        if s.get("finding"):
            # suite that demonstrates a recorded defect: it is expected to fail, in the recorded way only
            if d["failed"]:
                if re.search(s["finding"]["match"], d["message"]): known.append(s["finding"]["what"]); continue
            elif d["evaluations"]: notes.append("recorded finding no longer shows: " + s["finding"]["what"])
        if d["failed"]:
            txt = open(rep).read(); open(rep, "w").write("property %s\nbin %s\n" % (a.id, s["bin"]) + txt)
            violation = (tag, d["message"], d["case"], rep); break
    ev = {"property": a.id, "tier": a.tier, "seed": a.seed, "level": P.get("level", "exploration"), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
          "coverage": {"evaluations": total["ev"], "distinct_nontrivial": total["nt"], "rule": "; ".join("[%s] %s" % (t, v["rule"]) for t, v in per_suite.items()),
                       "samples": samples[:12], "discarded": total["disc"], "inconclusive": total["inc"], "unreproduced": total["unrep"], "build_s": round(t_build, 2), "suites": per_suite},
          "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS}
    if notes: ev["coverage"]["notes"] = notes
    if known: ev["coverage"]["known_findings"] = known
    if violation: ev["coverage"]["violation"] = {"suite": violation[0], "message": violation[1], "case": violation[2], "replay": violation[3]}
    if errors: ev["coverage"]["errors"] = errors
    json.dump(ev, open(VERIF + "/evidence/%s.json" % a.id, "w"), indent=1)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (a.id, k))
    print("%s %s: %d cases, %d distinct non-trivial, %d discarded, %.0f s (build %.0f s)" % (a.id, a.tier, total["ev"], total["nt"], total["disc"], time.time() - t0, t_build))
    for n in notes: print("note:", n)
    if violation:
        print("violated by suite %s: %s\ncase: %s" % violation[:3]); print("VIOLATION property=%s replay=%s" % (a.id, violation[3])); return 1
    if errors:
        for e in errors: print("ERROR:", e)
        return 2
    return 0
sys.exit(main())
