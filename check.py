#!/usr/bin/env python3
"""Decide one property:  check.py <id> [quick|thorough]      replay:  check.py --replay <file>"""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build, engine, plans, tlc
from build import BuildError


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known_findings(pid):
    """Lines 'finding: property=<id> match=<substring of a scenario> <what>' suppress exactly
    the scenarios that contain the substring."""
    out = []
    for ln in open(os.path.join(HERE, "known_findings.txt")):
        if ln.startswith("finding: property=%s match=" % pid):
            rest = ln.split("match=", 1)[1].strip()
            m, _, what = rest.partition(" :: ")
            out.append((m, what))
    return out


def write_replay(pid, failure, variant):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(dict(property=pid, variant=variant, kind=failure.kind, what=failure.what,
                       actual=failure.actual, scenario=failure.scen.lines), f, indent=1)
    return path


def judge(pid, failures, batch, variant, known, hits):
    """Confirm failures by re-running; returns a confirmed, unlisted failure or None."""
    exe = plans.exe(variant)
    todo = []
    for f in failures:
        text = "\n".join(f.scen.lines)
        k = [x for x in known if x[0] in text]
        if k:
            hits.setdefault(k[0], 0)
            hits[k[0]] += 1
            continue
        todo.append(f)
    for f in todo[:5]:
        again, g = engine.confirm(exe, f, variant)
        if again:
            return g
    if todo:
        # depends on what ran before it: the whole batch again
        r = engine.run(exe, batch, variant=variant)
        names = {f.scen.sid for f in todo}
        for f in r["failures"]:
            if f.scen.sid in names:
                f.scen = engine.Scenario(f.scen.sid, [x for s in batch for x in s.lines])
                return f
    return None


def run(pid, tier):
    t0 = time.time()
    sd = seed()
    plan = plans.PLANS[pid]
    known = known_findings(pid)
    hits = {}
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
               models=[], generators=[], samples=[])
    bad = None
    budget = float(os.environ.get("VERIF_BUDGET", "600"))
    for batch in plan(tier, sd, lambda: time.time() - t0 < budget):
        todo = {}
        for variant, label, scens, m in batch:
            if m:
                cov["states"] += m["distinct"]
                cov["transitions"] += m["states"]
                cov["models"].append(dict(model=label, distinct=m["distinct"], generated=m["states"],
                                          behaviours=len(scens), wall_s=m["wall"]))
            else:
                cov["generators"].append("%s%s" % (label, "" if variant == "boost" else " [%s]" % variant))
            if scens and len(cov["samples"]) < 12:
                cov["samples"].append(scens[len(scens) // 2].lines[:12])
            todo.setdefault(variant, []).extend(scens)
        for variant, scens in todo.items():
            if not scens:
                continue
            r = engine.run(plans.exe(variant), scens, variant=variant)
            cov["traces_validated_against_impl"] += r["scenarios"]
            cov["events_validated"] += r["events"]
            if r["failures"]:
                bad = judge(pid, r["failures"], scens, variant, known, hits)
                if bad:
                    break
        if bad:
            break
    for (m, what), n in hits.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    ev = dict(property=pid, tier=tier, seed=sd, level="model_checking", coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=1 if bad else 0,
              assumptions=["TLC evaluates the specification correctly",
                           "the driver logs what the library did; sanitizer reports are treated as violations"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        path = write_replay(pid, bad, variant)
        print("%s: %s\n  observed %s\n  scenario:\n    %s" %
              (bad.kind, bad.what[:1500], bad.actual[:1500], "\n    ".join(x[:400] for x in bad.scen.lines[:40])))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s %s: held; %d states, %d scenarios, %d events, %.1f s" %
          (pid, tier, cov["states"], cov["traces_validated_against_impl"], cov["events_validated"], time.time() - t0))
    return 0


def replay(path):
    j = json.load(open(path))
    exe = plans.exe(j["variant"])
    r = engine.run(exe, [engine.Scenario("replay", j["scenario"])], jobs=1, variant=j["variant"])
    for f in r["failures"]:
        print(f.kind, f.what, "\nobserved", f.actual)
    return 1 if r["failures"] else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(run(sys.argv[1], tier))
    except (BuildError, tlc.TlcError) as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
