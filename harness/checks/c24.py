"""C24: command-line input reaches the calculation unchanged or is refused; scripts and plots."""
import copy
import json
import math
import os
import pickle
import re
import shutil
import subprocess
from collections import OrderedDict

import enc
import jobs
from mpipool import Pool

KB = 8.617333262e-5
LINE = "INIT Init\nNEXT Next\n"
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPTS = ["run_Ni_NiO_Xbath.sh", "run_Ni_NiO_50p10bath.sh", "run_Ni_NiO_CF.sh", "run_Co_CoO_CF.sh", "run_Fe_FeO_CF.sh", "run_Mn_MnO_CF.sh"]


def spec(tier):
    return {
        "models": [{"module": "CliModel", "cfg": LINE + "CONSTANT Flaw = \"none\"\nINVARIANT Total Nothing Sense Exists\n", "workers": 2}],
        "gens": [{"name": "cli", "module": "CliGen", "cfg": LINE}],
        "streams": [{"name": "trace", "module": "C24Trace"}],
    }


def text(v):
    """<<numerator, denominator>> as written on a command line"""
    n, d = v
    if d == 1:
        return str(n)
    k = len(str(d)) - 1
    return "%s%d.%0*d" % ("-" if n < 0 else "", abs(n) // d, k, abs(n) % d)


def num(v):
    return v[0] if v[1] == 1 else float(text(v))


def drive(ctx):
    import numpy as np
    from impurityModel.ed import get_spectra, get_spectra_using_CF

    rng = ctx.rng
    top = os.path.abspath("runs")
    seq = [0]

    def newdir():
        seq[0] += 1
        d = os.path.join(top, "d%d-%d" % (os.getpid(), seq[0]))
        os.makedirs(d)
        return d

    def cli_case(pool, s):
        cf = s["mod"].endswith("CF")
        d = newdir()
        r = [0.05 + .4 * k for k in range(6)]
        R = [round(rng.uniform(.1, 1) * math.exp(-x / 2), 6) for x in r]
        rad = os.path.join(d, "radial.dat")
        np.savetxt(rad, np.array([r, R]).T)
        al = {k: [num(x) for x in v] for k, v in s["all"]}
        if cf:
            f = os.path.join(d, "h0.json")
            with open(f, "w") as fh:
                json.dump({"e_imp": rng.uniform(-2, 0), "v_val_eg": rng.uniform(1, 2)}, fh)
        else:
            f = os.path.join(d, "h0.pickle")
            with open(f, "wb") as fh:
                pickle.dump({(((2, q, m), "c"), ((2, q, m), "a")): rng.choice([-.5, .25]) for q in range(2) for m in range(-2, 3)}, fh)
        rec = {"kind": "cli", "mod": s["mod"], "opts": s["opts"], "size": pool.size, "key": "%s %s" % (s["mod"], " ".join("%s=%s" % (o, ",".join(map(text, v))) for o, v in s["opts"]))}
        rec["err"] = ""
        n, es, psis, op = 26, [-3., -2.9], [{enc.occ_bytes(range(8), 26): 1.}] * 2, None
        if s["ok"]:
            nb = OrderedDict(zip(al["ls"], al["nBaths"]))
            dic = lambda o: OrderedDict(zip(al["ls"], al[o]))  # noqa: E731
            n = 16 + sum(nb.values())
            win = al["energy_cut"][0] * KB * al["T"][0]
            es = [-3.25, -3.25 + rng.choice([.2, .9, .98]) * win, -3.25 + rng.choice([1.02, 1.5]) * win]
            psis = []
            for _ in es:
                psi = {}
                for _ in range(rng.randint(1, 4)):
                    # p shell, d shell, filled baths
                    psi[enc.occ_bytes(rng.sample(range(6), al["n0imps"][0]) + rng.sample(range(6, 16), al["n0imps"][1]) + list(range(16, n)), n)] = complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
                z = math.sqrt(sum(abs(v) ** 2 for v in psi.values()))
                psis.append({k: v / z for k, v in psi.items()})
            build = get_spectra_using_CF.get_hamiltonian_operator_using_CF if cf else get_spectra.get_hamiltonian_operator
            try:
                op = jobs.fingerprint(build(nb, dic("nValBaths"), [al[k] for k in ("Fdd", "Fpp", "Fpd", "Gpd")], [al["xi_2p"][0], al["xi_3d"][0]],
                                            [dic("n0imps"), al["chargeTransferCorrection"][0]], al["hField"], f))
            except Exception as e:  # noqa: BLE001
                rec["err"] = repr(e)[:300]
        argv = [f, rad]
        opts = list(s["opts"])
        rng.shuffle(opts)
        for o, v in opts:
            argv += ["--" + o] + [text(x) for x in v] if len(v) != 1 or rng.random() < .6 else ["--%s=%s" % (o, text(v[0]))]
        res = pool.run("jobs", "cli", {"module": "impurityModel.ed." + s["mod"], "argv": argv, "dir": d, "es": es, "psis": psis, "n": n, "names": [o for o, _ in s["all"]]},
                       mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6))
        rec.update(es=[enc.fx(e) for e in es], psis=[enc.state(x, n) for x in psis], op=op or [], r=[enc.fx(float("%.18e" % x)) for x in r], R=[enc.fx(x) for x in R],
                   status=res["status"], res=[{"ok": x["ok"] or {}, "err": x.get("err") or ""} for x in res["res"]])
        ctx.emit(rec)
        shutil.rmtree(d)

    def script_case(pool, script, a1, a2, deep):
        """the script with stand-ins for mpirun, then the command it would have started"""
        d = newdir()
        log = os.path.join(d, "calls")
        b = os.path.join(d, "bin")
        os.makedirs(b)
        for name in ("mpirun", "mpiexec", "python", "python3"):
            p = os.path.join(b, name)
            with open(p, "w") as fh:
                fh.write("#!/bin/bash\nprintf '%%s\\0' %s \"$@\" >> %s\nprintf '\\n' >> %s\n" % (name, log, log))
            os.chmod(p, 0o755)
        w = os.path.join(d, "work")
        os.makedirs(w)
        env = {"PATH": b + ":/usr/bin:/bin", "HOME": d}
        p = subprocess.run(["/bin/bash", os.path.join(REPO, "scripts", script)] + [x for x in (a1, a2) if x], cwd=w, env=env, capture_output=True, timeout=60)
        calls = [x.split("\0")[:-1] for x in open(log).read().split("\n") if x] if os.path.exists(log) else []
        rec = {"kind": "script", "key": " ".join([script, a1, a2]), "script": script, "a1": a1, "a2": a2, "rc": p.returncode, "calls": len(calls), "mod": "", "ranks": "", "h0": "",
               "radial": "", "exist": False, "opts": [], "end": "", "reached": False, "nspin": 0, "err": ""}
        if calls:
            t = calls[0]
            for k in ("-n", "-np", "-c", "--np"):
                if k in t:
                    rec["ranks"] = t[t.index(k) + 1]
                    break
            if "-m" in t:
                t = t[t.index("-m") + 1:]
                rec["mod"] = t[0]
                pos = [x for x in t[1:3]]
                if len(pos) == 2:
                    rec["h0"], rec["radial"] = os.path.basename(pos[0]), os.path.basename(pos[1])
                    rec["exist"] = all(os.path.isfile(x) for x in pos)
                argv = t[1:]
                for x in argv[2:]:
                    if x.startswith("--"):
                        rec["opts"].append([x[2:].split("=")[0], []])
                        x = x.split("=")[1] if "=" in x else None
                    if x is not None:
                        m = re.fullmatch(r"(-?)(\d*)\.?(\d*)", x)
                        if not m:
                            rec["err"] = "cannot read " + x
                            break
                        k = 10 ** len(m.group(3))
                        rec["opts"][-1][1].append([int(m.group(1) + (m.group(2) or "0") + m.group(3)), k] if k > 1 else [int(x), 1])
                if deep:
                    # the stage of the eigenstates stands in for the rest of the calculation
                    res = pool.run("jobs", "cli_reach", {"module": rec["mod"], "argv": argv, "dir": w}, mode="sync", seed=1, limit=120)
                    o = res["res"][0]["ok"] or {"end": "raised " + str(res["res"][0].get("err")), "reached": False, "nspin": 0}
                    rec.update(end=o["end"], reached=o["reached"], nspin=o["nspin"])
        if not deep:
            rec.update(reached=True, nspin=16 + {"10": 10, "": 10, "20": 20, "50": 50, "100": 100, "300": 300}.get(a1, 10))
        ctx.emit(rec)
        shutil.rmtree(d)

    def plot_case(pool, cmd, how, has, npol):
        import h5py

        d = newdir()
        w, wl = np.linspace(-3, rng.choice([2., 5.]), rng.choice([4, 7])), np.linspace(-1, 3, rng.choice([3, 6]))
        wi = np.linspace(-8, rng.choice([6., 15.]), rng.choice([3, 5]))
        data = {"PS": np.array([[rng.uniform(0, 2) for _ in w] for _ in range(10)]), "XPS": np.array([[rng.uniform(0, 2) for _ in w] for _ in range(6)]),
                "XAS": np.array([[rng.uniform(0, 2) for _ in w] for _ in range(3)]), "NIXS": np.array([[rng.uniform(0, .1) for _ in wl] for _ in range(2)]),
                "RIXS": np.array([[[[rng.choice([rng.uniform(1e-5, 1e-3), rng.uniform(.1, 1), 0]) for _ in wl] for _ in wi] for _ in range(npol[1])] for _ in range(npol[0])])}
        data = {k: v for k, v in data.items() if k in has}
        rec = {"kind": "plot", "key": " ".join([cmd, how, "+".join(has), "%dx%d" % npol]), "cmd": cmd, "missing": how.startswith("missing"), "has": list(has), "w": jobs.fxa(w), "wIn": jobs.fxa(wi), "wLoss": jobs.fxa(wl)}
        name = {"plain": "", "missing-plain": "", "named": "sub/other name.x", "missing-named": "nothing.h5"}[how]
        if how == "named" or cmd == "plotSpectra" and how == "missing-named" or how == "missing-named":
            os.makedirs(os.path.join(d, "sub"))
        f = os.path.join(d, name or ("spectra.h5" if cmd == "plotSpectra" else "RIXS.bin"))
        if how.startswith("missing"):
            # the other default file must not be taken instead
            f = os.path.join(d, "spectra.h5" if how == "missing-named" and cmd == "plotSpectra" else "RIXS.bin" if how == "missing-named" else "elsewhere")
        if cmd == "plotSpectra":
            with h5py.File(f, "w") as h:
                for k, v in (("w", w), ("wIn", wi), ("wLoss", wl), ("qsNIXS", np.array([[1, 1, 1], [4., 4, 4]])), ("r", w), ("RiNIXS", w), ("RjNIXS", w)):
                    h.create_dataset(k, data=v)
                for k, v in data.items():
                    h.create_dataset(k + "thermal", data=v)
        else:
            tot = data["RIXS"].sum(axis=(0, 1)).T
            tmp = np.zeros((len(wl) + 1, len(wi) + 1), dtype=np.float32)
            tmp[0, 0], tmp[0, 1:], tmp[1:, 0], tmp[1:, 1:] = len(wi), wi, wl, tot
            tmp.tofile(f)
        res = pool.run("jobs", "plot", {"module": "impurityModel.plotScripts." + cmd, "argv": [name] if name else [], "dir": d}, mode="sync", seed=1, limit=120)
        ok = res["res"][0]["ok"]
        rec.update({k: jobs.fxa(v) for k, v in data.items()})
        rec.update(ok=ok or {}, err="" if ok else str(res["res"][0].get("err") or res["status"]))
        ctx.emit(rec)
        shutil.rmtree(d)

    scn = ctx.scn["cli"]
    single = [s for s in scn if len(s["opts"]) < 2]
    other = [s for s in scn if len(s["opts"]) >= 2]
    preset = [s for s in other if s["pre"] and s["ok"]]
    # every change on its own, on both commands
    seen = {}
    rng.shuffle(single)
    for s in single:
        seen.setdefault(json.dumps(s["opts"]), []).append(s)
    todo = [s for v in seen.values() for s in v]
    # refused input costs nothing: all of it that is inconsistent in one place only, on both commands
    bad = [s for s in scn if s["pre"] and not s["ok"]]
    todo += bad
    todo += rng.sample(preset, ctx.pick(6, len(preset))) + rng.sample(other, ctx.pick(35, 900))
    # combinations of accepted structural changes are rare among all pairs
    struct = {"nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths"}
    good = [s for s in other if s["ok"] and all(o in struct for o, _ in s["opts"])]
    todo += rng.sample(good, min(len(good), ctx.pick(15, 300)))
    every = ("PS", "XPS", "XAS", "NIXS", "RIXS")
    plots = [("plotSpectra", "plain", every, (3, 3)), ("plotSpectra", "named", every, (3, 3)), ("plotSpectra", "missing-plain", every, (3, 3)),
             ("plotSpectra", "missing-named", every, (3, 3)), ("plotSpectra", "plain", ("PS",), (1, 1)), ("plotSpectra", "plain", ("XAS", "NIXS"), (1, 1)),
             ("plotSpectra", "named", ("XAS", "RIXS"), (1, 1)), ("plotSpectra", "plain", every, (2, 2)), ("plotSpectra", "plain", every, (1, 3)),
             ("plotRIXS", "plain", ("RIXS",), (1, 1)), ("plotRIXS", "named", ("RIXS",), (1, 1)), ("plotRIXS", "missing-plain", ("RIXS",), (1, 1)), ("plotRIXS", "missing-named", ("RIXS",), (1, 1))]
    if not ctx.quick:
        plots += [("plotSpectra", rng.choice(["plain", "named"]), tuple(x for x in every if rng.random() < .6) or ("XPS",), (rng.randint(1, 3), rng.randint(1, 4))) for _ in range(25)]
    scripts = [(x, "", "", True) for x in SCRIPTS]
    scripts += [("run_Ni_NiO_Xbath.sh",) + x for x in [("20", "", True), ("20", "3", False), ("50", "", ctx.pick(False, True)), ("100", "2", False), ("300", "", False)]]
    work = [("cli", s) for s in todo] + [("script", x) for x in scripts] + [("plot", x) for x in plots]
    rng.shuffle(work)
    k = 6

    def part(i):
        pools = {}
        try:
            for j, (what, x) in enumerate(work[i::k]):
                n = rng.choice([2, 3]) if what == "cli" and j % 8 == 0 else 1
                if n not in pools:
                    pools[n] = Pool(n, seed=rng.randrange(1000))
                if what == "cli":
                    cli_case(pools[n], x)
                elif what == "script":
                    script_case(pools[n], *x)
                else:
                    plot_case(pools[n], *x)
        finally:
            for p in pools.values():
                p.close()

    ctx.shards(k, part)


def corrupt(r):
    def new(f):
        c = copy.deepcopy(r)
        f(c)
        return c

    if r["kind"] == "cli":
        if r["res"][0]["ok"].get("end"):
            yield "accepted", new(lambda c: c["res"][0]["ok"].update(end=""))
            yield "computed", new(lambda c: c["res"][0]["ok"].update(files=["data.npz"]))
            return
        o = lambda c: c["res"][0]["ok"]  # noqa: E731
        yield "refused", new(lambda c: o(c).update(end="exit 2"))
        for f in ("T", "delta", "deltaNIXS", "deltaRIXS"):
            yield f, new(lambda c: o(c)["sim"].__setitem__(f, enc.fx(.777)))
        yield "num", new(lambda c: o(c)["eig"].__setitem__("num", 77))
        yield "op", new(lambda c: o(c)["eig"]["op"].__setitem__(0, enc.cx(1 + 1j)))
        yield "npz", new(lambda c: o(c)["npz"][rng_pick(o(c)["npz"], r)][1].__setitem__(0, enc.fx(.777)))
        yield "basis", new(lambda c: o(c)["eig"].__setitem__("basis", o(c)["eig"]["basis"] + 1))
        yield "weights", new(lambda c: o(c).__setitem__("weights", o(c)["weights"] + [1]))
        if o(r)["diag"] and o(r)["diag"][0]:
            yield "diag", new(lambda c: o(c)["diag"][0].pop())
        yield "window", new(lambda c: o(c)["sim"]["es"].pop())
    elif r["kind"] == "script":
        yield "rc", new(lambda c: c.update(rc=1))
        yield "ranks", new(lambda c: c.update(ranks="7"))
        yield "h0", new(lambda c: c.update(h0="x"))
        yield "opts", new(lambda c: c["opts"].append(["nBaths", [[0, 1]]]) if not c["opts"] else c["opts"][0][1].append([1, 1]))
    elif r["kind"] == "plot":
        if r["missing"]:
            yield "end", new(lambda c: c["ok"].update(end=""))
            return
        yield "end", new(lambda c: c["ok"].update(end="exit 1"))
        if "RIXS" in r["has"]:
            yield "images", new(lambda c: c["ok"]["images"].pop() if c["cmd"] == "plotSpectra" and len(c["RIXS"]) > 1 else c["ok"].update(images=[]))
        if "NIXS" in r["has"]:
            yield "nixs", new(lambda c: c["NIXS"][1].__setitem__(0, enc.fx(.5)))
        if "PS" in r["has"]:
            yield "ps", new(lambda c: c["PS"][4].__setitem__(2, enc.fx(5)))


def rng_pick(x, r):
    return len(r["key"]) % len(x)
