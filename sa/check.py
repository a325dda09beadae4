"""check.py <property>: decide one property on the current source of /repo."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base  # noqa: E402

ROOT = base.ROOT
EV = os.environ.get("OB_EVIDENCE", os.path.join(ROOT, "evidence"))


def known():
    res = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                prop, key, text = line[7:].rstrip("\n").split(" ", 2)
                res[(prop.split("=", 1)[1], key.split("=", 1)[1])] = text
    return res


def key(o):
    return "%s/%s" % (o.rule, o.inst)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    t0 = time.time()
    mod = importlib.import_module("props." + prop)
    K = base.Check(prop)
    K.tier = tier
    mod.check(K)
    floor = getattr(mod, "FLOOR", 1)
    if len(K.obs) < floor:
        raise base.Missing("%d obligations, expected at least %d" % (len(K.obs), floor))
    kn = known()
    bad, listed = [], []
    for o in K.bad():
        (listed if (prop, key(o)) in kn else bad).append(o)
    n = {"proved": 0, "refuted": 0, "undecided": 0}
    for o in K.obs:
        n[o.status] += 1
    rules = {}
    for o in K.obs:
        r = rules.setdefault(o.rule, {"proved": 0, "refuted": 0, "undecided": 0, "text": o.text})
        r[o.status] += 1
    fns = sorted(K.P.insts[i]["path"] for i in K.fns if K.P.insts[i]["local"])
    os.makedirs(EV, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": base.SEED, "level": "other",
        "coverage": {
            "explanation": "static analysis of the compiler's intermediate representation of /repo; every obligation is decided from the program text, nothing is executed",
            "obligations": len(K.obs), "discharged": n["proved"], "undecided": n["undecided"], "refuted": n["refuted"],
            "rules": rules, "functions_analysed": len(fns), "functions": sorted(set(fns)), "analysis_runs": K.runs, "counts": K.counts,
            "checker_cmd": "python3 sa/check.py " + prop,
            "trusted_base": ["rustc MIR construction", "sa/ engine and library models", "harness stubs of dependency crates"],
            "rule": mod.__doc__.strip() if mod.__doc__ else "",
            "samples": [key(o) + " [" + o.status + "] " + o.site for o in K.obs[:: max(1, len(K.obs) // 25)]],
            "undecided_obligations": [{"key": key(o), "site": o.site, "detail": o.detail} for o in K.undecided()][:40],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": K.assume,
        "violations": [{"key": key(o), "site": o.site, "rule": o.text, "detail": o.detail} for o in bad],
    }
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    print("%s: %d functions analysed in %d runs, %d obligations: %d proved, %d refuted, %d undecided" % (prop, len(set(fns)), K.runs, len(K.obs), n["proved"], n["refuted"], n["undecided"]))
    for o in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, key(o))]))
    if "-v" in sys.argv:
        for o in K.undecided():
            print("UNDECIDED", key(o), o.site, json.dumps(o.detail)[:600])
    if bad:
        rp = os.path.join(EV, prop + ".violation.txt")
        with open(rp, "w") as f:
            for o in bad:
                f.write("%s\n  rule: %s\n  where: %s\n" % (key(o), o.text, o.site))
                for k, v in (o.detail or {}).items():
                    f.write("  %s:\n" % k)
                    for x in v if isinstance(v, list) else [v]:
                        f.write("    %s\n" % x)
        for o in bad[:12]:
            print("  %s: %s -- %s" % (o.site, key(o), o.text))
            if "-v" in sys.argv:
                print(json.dumps(o.detail, indent=1)[:2500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except base.Missing as e:
        print("cannot decide: %s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
