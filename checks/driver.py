#!/usr/bin/env python3
"""check <property> [--thorough]: builds what the property's jobs need from /repo's working tree, runs every job, writes
evidence/<property>.json, prints VIOLATION / KNOWN-FINDING lines. Exit 0 held, 1 violated, 2 the machinery failed."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks")); sys.path.insert(0, os.path.join(ROOT, "tools"))
import jobs as J
import vbuild

def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding: "): continue
            # finding: property=<id> job=<job> sig=<signature prefix> text=<...>
            d = {}
            head, _, text = line[len("finding: "):].partition(" text=")
            for tok in head.split(" "):
                k, _, v = tok.partition("=")
                d[k] = v
            d["text"] = text
            out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = "thorough" if ("--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough") and "--quick" not in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    js = [j for j in J.PROPERTIES[prop] if tier == "thorough" or j.quick]
    b = vbuild.Builder()
    try:
        for t in sorted(set(j.target for j in js if j.target)): b.build(t)
    except SystemExit as e:
        print("BUILD FAILED for %s\n%s" % (prop, e)); sys.exit(2)
    t_build = time.time() - t0
    budget = 540.0 if tier == "quick" else 6 * 3600.0
    known = [k for k in known_findings() if k["property"] == prop]
    rep_dir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rep_dir, exist_ok=True)
    results, violations, hits, errors = [], [], {}, []
    for j in js:
        if violations and tier == "quick": break
        left = budget - (time.time() - t0)
        base = os.path.join(rep_dir, "%s-%s" % (prop, j.name))
        for ext in (".replay", ".trace"):
            if os.path.exists(base + ext): os.unlink(base + ext)
        kn = [k["sig"] for k in known if k["job"] in (j.name, "*")]
        cmd = j.command(tier, base, kn, max(20.0, left))
        tj = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=(j.time(tier) + 120) * 3)
        except subprocess.TimeoutExpired:
            errors.append("%s: no answer" % j.name); continue
        out = r.stdout.decode(errors="replace")
        try: res = json.loads(out[out.index("{"):])
        except ValueError:
            errors.append("%s: no result (exit %d): %s %s" % (j.name, r.returncode, out[-800:], r.stderr.decode(errors="replace")[-2000:])); continue
        res["job"] = j.name; res["job_wall_s"] = round(time.time() - tj, 2); res["what"] = j.what
        results.append(res)
        for s, n in (res.get("known") or {}).items(): hits[s] = hits.get(s, 0) + n
        if r.returncode == 1 and res.get("violation"):
            v = dict(res["violation"], job=j.name)
            path = base + ".replay"
            if not os.path.exists(path):
                with open(path, "w") as f: f.write(json.dumps(v) + "\n")
            v["replay"] = path
            violations.append(v)
        elif r.returncode != 0:
            errors.append("%s: exit %d: %s" % (j.name, r.returncode, (out[-600:] + r.stderr.decode(errors="replace")[-1500:])))
    for k in known:
        n = sum(c for s, c in hits.items() if s.startswith(k["sig"]))
        if n: print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    samples = []
    for r in results:
        for s in (r.get("samples") or [])[:3]: samples.append({"job": r["job"], "case": s})
    def tot(k): return int(sum(r.get(k) or 0 for r in results))
    cov = {
        "states": tot("choice_tree_nodes") + tot("states"),
        "transitions": tot("decision_points") + tot("transitions"),
        "traces_validated_against_impl": tot("executions"),
        "samples": samples[:60],
        "exhaustive": bool(results) and all(r.get("bound_completed", 0) >= r.get("bound_requested", 0) and r.get("complete", True) and not r.get("truncated") for r in results),
        "explanation": "states: nodes of the tree of scheduling/fault decisions explored plus states of the reference models; transitions: decisions taken plus operations applied; traces_validated_against_impl: complete executions of the implementation. 'exhaustive' is with respect to the bound of every job.",
        "jobs": [{k: r.get(k) for k in ("job", "what", "scenario", "bound_requested", "bound_completed", "complete", "executions", "decision_points", "choice_tree_nodes", "states", "transitions", "distinct_outcomes", "steps", "context_switches", "hot_sites", "level_execs", "truncated", "known", "job_wall_s", "detail") if r.get(k) is not None} for r in results],
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": J.ASSUMPTIONS + [a for j in js for a in j.assumptions],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if errors: ev["coverage"]["errors"] = errors
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for r in results:
        print("%-34s executions=%s bound=%s/%s complete=%s outcomes=%s %.1fs" % (r["job"], r.get("executions"), r.get("bound_completed", "-"), r.get("bound_requested", "-"), r.get("complete"), r.get("distinct_outcomes", "-"), r["job_wall_s"]))
    for v in violations:
        print("  %s: %s: %s" % (v["job"], v["sig"], str(v["msg"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    for e in errors: print("ERROR " + e)
    if violations: sys.exit(1)
    if errors: sys.exit(2)
    print("%s held on everything explored (%d executions, %.0fs)" % (prop, cov["traces_validated_against_impl"], ev["wall_s"]))
    sys.exit(0)

main()
