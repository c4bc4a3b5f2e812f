"""Runs the check of one property: model checking of the specification, then conformance
of the real code, judged by TLC.  See DESIGN.md."""
import argparse
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import tlc  # noqa: E402

PY = sys.executable


def driver_env(extra=None):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHASHSEED")}
    e.update(PYTHONPATH=os.path.join(HERE, "fakempi") + ":" + REPO + ":" + HERE,
             PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             MPLBACKEND="Agg", PYTHONHASHSEED="0", OMPI_ALLOW_RUN_AS_ROOT="1",
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_ess_singleton_isolated="1")
    e.update(extra or {})
    return e


def load_findings(prop):
    """Open findings: {(key, clause)} that are reported as KNOWN-FINDING."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) clause=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[(m.group(2), m.group(3))] = m.group(4)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true", help="keep the work directory")
    ap.add_argument("--canaries", action="store_true", help="corrupt recorded fields; every corruption must be rejected")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("checks." + a.prop.lower())
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    os.environ["MPLCONFIGDIR"] = os.path.join(work, "mpl")
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    try:
        rc = check(mod, a, tier, work, t0)
    except tlc.MachineryError as e:
        print("MACHINERY-ERROR property=%s %s" % (a.prop, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work:", work)
    sys.exit(rc)


def check(mod, a, tier, work, t0):
    prop = a.prop
    javadir = tlc.java_overrides(work)
    spec = mod.spec(tier)
    models, gens, streams = spec.get("models", []), spec.get("gens", []), spec["streams"]
    budget = spec.get("timeout", 600 if tier == "quick" else 7200)
    # 1. scenarios generated from the specification
    scn = {}
    gruns = [(g, tlc.Run(work, javadir, g["module"], g["cfg"], env=g.get("env"), workers=g.get("workers", 1),
                         timeout=budget, simulate=g.get("simulate"))) for g in gens]
    # 2. model checking of the specification itself (in the background)
    mruns = []
    if not a.replay:
        mruns = [(m, tlc.Run(work, javadir, m["module"], m["cfg"], workers=m.get("workers", 2), timeout=budget,
                             heap=m.get("heap", "3g"))) for m in models]
    states = trans = 0
    for g, r in gruns:
        r.wait()
        lines = re.findall(r'^<<"SCN", "(.*)">>$', r.out, re.M)
        scn.setdefault(g["name"], []).extend(json.loads(l.replace('\\"', '"')) for l in lines)
        if r.errors or not lines:
            raise tlc.MachineryError("scenario generation %s failed: %s" % (g["module"], r.out[-1500:]))
        states += r.distinct
        trans += r.generated
    with open(os.path.join(work, "scenarios.json"), "w") as fh:
        json.dump(scn, fh)
    marks = [time.time()]
    # 3. the real code
    extra = []
    if a.replay:
        rep = json.load(open(a.replay))
        a.seed, tier = rep.get("seed", a.seed), rep.get("tier", tier)
    drv_timeout = spec.get("drive_timeout", 420 if tier == "quick" else 5400)
    dlog = open(os.path.join(work, "driver.log"), "w+")
    p = subprocess.Popen([PY, os.path.join(HERE, "drive.py"), prop, work, tier, str(a.seed)], stdout=dlog,
                         stderr=subprocess.STDOUT, env=driver_env({"VERIF_REPO": REPO}), start_new_session=True)
    hung = False
    try:
        p.wait(drv_timeout)
    except subprocess.TimeoutExpired:
        hung = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    dlog.flush()
    dlog.seek(0)
    dtext = dlog.read()
    # a driver that failed: what it has recorded so far is judged all the same (see below)
    failed = not hung and p.returncode != 0
    if failed and a.canaries:
        raise tlc.MachineryError("driver failed:\n" + dtext[-3000:])
    marks.append(time.time())
    # 4. conformance: TLC judges the records
    rejects, nrec, kinds, samples = [], 0, {}, []
    truns = []
    for st in streams:
        path = os.path.join(work, st["name"] + ".ndjson")
        recs = [l for l in open(path)] if os.path.exists(path) else []
        if (hung or failed) and recs and not recs[-1].endswith("\n"):
            recs.pop()
        if not recs:
            if hung or failed:
                continue
            raise tlc.MachineryError("no records in stream %s" % st["name"])
        if a.canaries:
            recs = canaries(recs, mod)
        with open(path, "w") as fh:
            fh.writelines(recs)
        nrec += len(recs)
        for l in recs:
            k = re.search(r'"kind": ?"([^"]*)"', l)
            k = k.group(1) if k else st["name"]
            kinds[k] = kinds.get(k, 0) + 1
            if kinds[k] == 1 and len(samples) < 8:
                samples.append(l.strip()[:600])
        run = tlc.Run(work, javadir, st["module"], st.get("cfg", "INIT Init\nNEXT Next\nINVARIANT Accepted\n"),
                      env={"TRACE": path}, workers=st.get("workers", 8 if len(streams) == 1 else 4), timeout=budget,
                      cont=True, heap=st.get("heap", "6g"))
        truns.append((st, recs, run))
    for st, recs, run in truns:
        run.wait()
        states += run.distinct
        trans += run.generated
        rej = sorted({(int(i), c) for i, c in re.findall(r'<<"REJECT", (\d+), "([^"]*)">>', run.out)})
        bad = [e for e in run.errors if "Invariant Accepted is violated" not in e and "behavior up to this point" not in e]
        k = unreadable(run) if bad and not a.canaries else None
        if k:  # the record cannot even be evaluated against the specification
            rejects.append((st, k, "uninterpretable", json.loads(recs[k - 1])))
        elif bad or not run.finished or (bool(rej) != bool(run.violated)) or run.distinct < len(recs) + (0 if rej else 1):
            raise tlc.MachineryError("TLC on %s: %s\n%s" % (st["module"], bad, run.out[-2500:]))
        for i, c in rej:
            rejects.append((st, i, c, json.loads(recs[i - 1])))
    marks.append(time.time())
    for m, r in mruns:
        r.wait()
        if r.violated or r.errors or not r.finished or r.rc != 0:
            raise tlc.MachineryError("the specification itself fails in %s:\n%s" % (m["module"], r.out[-2500:]))
        states += r.distinct
        trans += r.generated
    if a.canaries:
        hit = {i for _, i, _, _ in rejects}
        print("canaries: %d of %d corrupted records rejected" % (len(hit), nrec))
        for st, recs, run in truns:
            for k, l in enumerate(recs, 1):
                if k not in {i for s, i, _, _ in rejects if s is st}:
                    print("ACCEPTED:", json.loads(l).get("canary"), l[:300])
        return 0 if len(hit) == nrec else 1
    # 5. verdict
    findings = load_findings(prop)
    violations, known = [], {}
    for st, i, clause, rec in rejects:
        k = (str(rec.get("key", "")), clause)
        if k in findings:
            known[k] = findings[k]
        else:
            violations.append((st, clause, rec))
    rdir = os.path.join(VERIF, "replays")
    for k, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if hung:
        violations.append(({"name": "driver"}, "no-progress", {"kind": "hang", "log": dtext[-2000:]}))
    if failed and not violations:
        raise tlc.MachineryError("driver failed:\n" + dtext[-3000:])
    if violations:
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for n, (st, clause, rec) in enumerate(violations):
            tag = (rec.get("kind"), clause)
            if tag in seen:
                continue
            seen.add(tag)
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
            with open(path, "w") as fh:
                json.dump({"property": prop, "clause": clause, "stream": st["name"], "module": st.get("module"),
                           "tier": tier, "seed": a.seed, "record": rec}, fh, indent=1)
            print("  clause %s, %s record %s: %s" % (clause, rec.get("kind"), rec.get("key", ""), str(rec.get("err", ""))[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            if len(seen) >= 12:
                break
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": nrec,
                       "samples": samples, "records_by_kind": kinds,
                       "models": [{"module": m["module"], "cfg": m["cfg"].split("\n"), "distinct": r.distinct} for m, r in mruns],
                       "scenarios_from_spec": {k: len(v) for k, v in scn.items()}},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d records judged, %d states, %d violations, %.1f s (scenarios %.1f, code %.1f, judging %.1f)" %
          (prop, tier, nrec, states, len(violations), time.time() - t0, marks[0] - t0, marks[1] - marks[0], marks[2] - marks[1]))
    return 1 if violations else 0


def unreadable(run):
    """The record at which TLC could not evaluate the specification, if that is what stopped it."""
    if "StackOverflow" in run.out or "OutOfMemory" in run.out or "heap space" in run.out:
        return None
    if not any("evaluating" in e or "unexpected exception" in e for e in run.errors):
        return None
    m = re.findall(r"The behavior up to this point is:\s+State 1:[^\n]*\n(?:/\\[^\n]*\n)*?/\\ i = (\d+)", run.out)
    return int(m[-1]) if m else None


def canaries(recs, mod):
    out = []
    for l in recs:
        r = json.loads(l)
        if r.get("err"):
            continue
        for name, c in mod.corrupt(r) if hasattr(mod, "corrupt") else []:
            c["canary"] = name
            out.append(json.dumps(c) + "\n")
    return out


if __name__ == "__main__":
    main()
