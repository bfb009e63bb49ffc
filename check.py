#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough] - verifies one property on /repo's current working tree.

Every run: reads the AST of the current sources with clang, generates the proof obligations of every function
under contract, discharges them with z3 (cvc5 as a second opinion in the thorough tier), and builds and runs the
replay harness of the property on the real code."""
import importlib, json, os, re, shutil, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "contracts")]
import z3
from astdb import DB, ExtractError, REPO
from solve import fork_map
from build import Build, run_harness

TRUSTED = [
    "clang 18 front end (AST dump of the current sources)",
    "the verification-condition generator in /verif/engine (symbolic execution, frame and overflow obligations)",
    "z3 (python z3-solver) as deciding back end",
    "models of the C++ standard library, protobuf accessors, glog, fmt in engine/lib.py",
]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, seed, t0, scratch):
    mod = importlib.import_module(prop.lower())
    hs = mod.HARNESS if isinstance(mod.HARNESS, list) else [mod.HARNESS] if mod.HARNESS else []
    results, db_error, builds = [], None, []
    db = None
    units = list(mod.UNITS) + (list(getattr(mod, "UNITS_THOROUGH", [])) if tier == "thorough" else [])
    try:
        db = DB(scratch)
    except ExtractError as e:
        db_error = str(e)
    # replay harness: built from the current sources while the proofs run
    if db is not None:
        for h in hs:
            builds.append((h, Build(scratch, db.inc, h["src"], h["src"].split(".")[0], san=h.get("san", "address,undefined"),
                                    extra=h.get("extra", ()), only=h.get("only"), opt=h.get("opt", "-O1"),
                                    python=h.get("python", False), workers=h.get("workers", 6), exclude=h.get("exclude", ()))))
    if db is not None and units:
        jobs, bad = [], {}
        for u in units:
            jobs += u.tus
        try:
            db.load(jobs)
        except ExtractError as e:
            db_error = str(e)
    if db is not None and db_error is None:
        def job(u):
            return u.verify1(db, tier, cross=(tier == "thorough"))
        # threads are still compiling: fork only runs z3 and python, no locks shared with the compile threads
        order = sorted(range(len(units)), key=lambda i: -getattr(units[i], "weight", 1))
        rs = fork_map(job, [units[i] for i in order], workers=int(os.environ.get("VERIF_WORKERS", "6")))
        results = [None] * len(units)
        for i, r in zip(order, rs):
            if r is None or isinstance(r, tuple):
                r = dict(unit=units[i].name, status="out-of-reach", error="worker died: %s" % (r,), failed=[], obligations=0,
                         discharged=0, kinds={}, functions=[], inlined=[], contracted=[], solver_time=0.0, queries=0, cvc5=0, wall=0)
            results[i] = r
    oor = [(r["unit"], r["error"]) for r in results if r["status"] == "out-of-reach"]
    if db_error:
        oor.append(("extraction", db_error))

    # ---- replay on the real code
    known = known_findings(prop)
    viol, hlog, hcases, herr, knownhit, samples = [], [], 0, [], set(), []
    deep = tier == "thorough"
    for h, b in builds:
        if not b.wait():
            herr.append("%s: %s" % (h["src"], b.error))
            continue
        env = {"VERIF_SEED": str(seed), "VERIF_TIER": tier, "VERIF_SCRATCH": b.dir}
        to = h.get("timeout", 150) * (3 if deep else 1)
        args = [seed, "thorough" if deep else "quick"]
        rc, out = run_harness(b, args, to, env)
        lines = out.splitlines()
        fails = [l for l in lines if l.startswith("FAIL ")]
        for l in lines:
            m = re.match(r"OK n=(\d+)", l)
            if m:
                hcases += int(m.group(1))
            if l.startswith("SAMPLE ") and len(samples) < 5:
                samples.append(l[7:][:300])
        if rc is None:
            herr.append("%s: no answer within %d s" % (h["src"], to))
        elif not fails and not any(l.startswith("OK n=") for l in lines) and rc in (0, 1):
            herr.append("%s: ended without a result (exit status %s)" % (h["src"], rc))
        elif rc not in (0, 1) and not fails:
            cs = [l for l in lines if l.startswith("CASE ")]
            key = "crash"
            for l in lines:
                m = re.search(r"(AddressSanitizer: \S+|runtime error: .*|ThreadSanitizer: .*|terminate called.*|Check failed.*)", l)
                if m:
                    key = "crash " + m.group(1)[:120]
                    break
            fails.append("FAIL key=crash exit status %s (%s) in %s" % (rc, key, cs[-1][5:] if cs else "?"))
        for l in fails:
            m = re.match(r"FAIL key=(\S+) ?(.*)", l)
            key, desc = (m.group(1), m.group(2)) if m else ("?", l[5:])
            if any(k == key for k, _ in known):
                knownhit.add(key)
                continue
            viol.append((h, args, key, desc, out))
    # failed obligations without a failing input: once more with larger solver limits
    if not viol:
        bad = [i for i, r in enumerate(results) if r["status"] == "failed"]
        if bad:
            rs = fork_map(lambda i: units[i].again(db, results[i], tier, cross=(tier == "thorough")) , bad, workers=4)
            for i, r in zip(bad, rs):
                if isinstance(r, dict):
                    results[i] = r
    failed = [f for r in results for f in r["failed"]]
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))

    rdir = os.path.join(HERE, "evidence")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, "%s.replay.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    nviol = 0
    rc = 0
    if viol or failed:
        nviol = max(len(viol), 1)
        with open(replay, "w") as f:
            f.write("property %s\n" % prop)
            for fl in failed:
                f.write("failed obligation: [%s] %s in %s (unit %s, at %s): %s\n  goal %s\n" %
                        (fl["kind"], fl["label"], fl["fn"], fl["unit"], fl["where"], fl["why"], fl["goal"]))
            for h, args, key, desc, out in viol:
                f.write("failing input on the real code (harness/%s, arguments %s): key=%s %s\n" %
                        (h["src"], args, key, desc))
            if viol:
                f.write("\nharness output:\n%s\n" % viol[0][4][-20000:])
        rel = os.path.relpath(replay, HERE)
        for fl in failed[:5]:
            print("failed obligation: [%s] %s in %s (%s)" % (fl["kind"], fl["label"], fl["fn"], fl["why"]))
        if viol:
            print("failing input: %s %s" % (viol[0][2], viol[0][3][:500]))
            print("VIOLATION property=%s replay=%s" % (prop, rel))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rel))
        rc = 1
    obl = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    kinds = {}
    for r in results:
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    targets = sorted({x for r in results for x in r["functions"]})
    assumed = sorted({x for r in results for x in r["contracted"]} - set(targets))
    level = getattr(mod, "LEVEL", "proof")
    cov = dict(obligations=obl, discharged=dis, checker_cmd="python3-vt check.py %s %s (z3 %s%s)" %
               (prop, tier, z3.get_version_string(), ", cvc5" if deep else ""),
               trusted_base=TRUSTED + list(getattr(mod, "TRUSTED", [])),
               functions_under_contract=targets, functions_inlined=sorted({x for r in results for x in r["inlined"]}),
               contracts_assumed_here=assumed, obligation_kinds=kinds,
               solver_time_s=round(sum(r["solver_time"] for r in results), 2), solver_queries=sum(r["queries"] for r in results),
               cvc5_confirmed=sum(r["cvc5"] for r in results),
               units=[dict(unit=r["unit"], status=r["status"], obligations=r["obligations"], discharged=r["discharged"],
                           wall_s=round(r.get("wall", 0), 2), error=r["error"]) for r in results],
               out_of_reach=[{"unit": u, "reason": e} for u, e in oor],
               bounded_stand_in=getattr(mod, "BOUNDED", "replay harness only: random and adversarial inputs on the real code, "
                                                        "not counted as proved"),
               replay_cases=hcases, replay_errors=herr)
    if level != "proof":
        cov.update(evaluations=hcases, distinct_nontrivial=hcases,
                   rule=getattr(mod, "RULE", "each harness case is generated from the seed, checked against the oracle"),
                   samples=samples or ["see harness"], explanation=getattr(mod, "EXPLANATION", ""))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(rdir, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d/%d obligations discharged, %d units, %d out of reach, %d replay cases, %.1f s" %
          (prop, tier, dis, obl, len(results), len(oor), hcases, time.time() - t0))
    for e in herr:
        print("  replay harness: %s" % e)
    for u, e in oor:
        print("  out of reach (bounded stand-in only): %s: %s" % (u, e))
    for e in herr:
        print("  harness: %s" % e[:800])
    return rc


if __name__ == "__main__":
    main()
