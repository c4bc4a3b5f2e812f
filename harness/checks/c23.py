"""C23: the calculation driver hands on and stores exactly what was computed."""
import copy
import json
import math
import os
import pickle
import random
import shutil
from collections import OrderedDict

import enc
import jobs
from mpipool import Pool

KB = 8.617333262e-5
LINE = "INIT Init\nNEXT Next\n"


def spec(tier):
    m = LINE + "CONSTANT NP = %d\nCONSTANT Flaw = \"none\"\nINVARIANT FirstOnly Once WhileOpen Complete\n"
    return {
        "models": [{"module": "DriverModel", "cfg": m % n, "workers": 2} for n in ((2, 3) if tier == "quick" else (1, 2, 3, 4))]
        + [{"module": "WindowModel", "cfg": LINE + "INVARIANT Right\n", "workers": 2}],
        "gens": [{"name": "runs", "module": "DriverGen", "cfg": LINE}],
        "streams": [{"name": "trace", "module": "C23Trace"}],
    }


def d_state(rng, n, dorb, ne, rest):
    """superposition of a few configurations of the d shell"""
    psi = {}
    for _ in range(rng.randint(1, 3)):
        psi[enc.occ_bytes(rest + rng.sample(dorb, ne), n)] = complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
    s = math.sqrt(sum(abs(v) ** 2 for v in psi.values()))
    return {k: v / s for k, v in psi.items()}


def files_args(rng, d):
    """input of the spectra stage of a small system"""
    nb = [(1, 0), (2, rng.choice([0, 0, 2]))]
    n = 16 + nb[1][1]
    dorb, bath = list(range(6, 16)), list(range(16, n))
    ne = rng.choice([9, 9, 8, 1, 2])
    psis = [d_state(rng, n, dorb, ne, list(range(6)) + bath) for _ in range(rng.choice([1, 2, 3, 3, 7]))]
    T = rng.choice([.5, 10., 300., 5000.])
    es = sorted(rng.choice([-4.2, rng.uniform(-5, -5 + 6 * KB * T)]) for _ in psis)
    op = {((i, "c"), (i, "a")): rng.choice([-12., -11.5]) for i in range(6)}
    op.update({((i, "c"), (i, "a")): rng.uniform(-1.5, .5) for i in range(6, n)})
    for _ in range(rng.choice([0, 2, 5])):
        i, j = rng.sample(range(6, n), 2)
        v = rng.choice([rng.uniform(-1, 1), complex(rng.uniform(-1, 1), rng.uniform(-1, 1))])
        op[((i, "c"), (j, "a"))] = v
        op[((j, "c"), (i, "a"))] = complex(v).conjugate()
    for _ in range(rng.choice([0, 3])):
        i, j = rng.sample(range(6, n), 2)
        op[((i, "c"), (j, "c"), (j, "a"), (i, "a"))] = rng.uniform(0, 3)
    restr = {frozenset(dorb): (ne - 1, ne + 1)}
    if bath:
        restr[frozenset(bath)] = (1, 2)
    allp = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [.6, .8, 0]]
    r = [0.05 + .5 * k for k in range(8)]
    return {"dir": d, "nb": nb, "psis": psis, "es": es, "op": op, "T": T, "w": sorted(rng.uniform(-14, 14) for _ in range(rng.choice([1, 3]))),
         "wloss": sorted(rng.uniform(-1, 3) for _ in range(rng.choice([1, 2]))), "win": sorted(rng.uniform(8, 14) for _ in range(rng.choice([1, 3]))),
         "delta": rng.choice([.2, .5]), "dnixs": rng.choice([.1, .3]), "drixs": rng.choice([.05, .25]), "eps": rng.sample(allp, rng.choice([1, 2])),
         "epsin": rng.sample(allp, rng.choice([1, 2])), "epsout": rng.sample(allp, rng.choice([1, 2, 3])),
         "qs": rng.sample([[1, 1, 1], [2., 0, .5], [0, -3, 1]], rng.choice([1, 2])), "r": r, "R": [math.exp(-x / 2) for x in r], "restr": rng.choice([restr, restr, None])}


def drive(ctx):
    import numpy as np
    from impurityModel.ed import get_spectra, get_spectra_using_CF

    rng = ctx.rng
    top = os.path.abspath("runs")
    seq = [0]

    def newdir():
        seq[0] += 1
        d = os.path.join(top, "d%d" % seq[0])
        os.makedirs(d)
        return d

    def radial(d):
        r = [0.05 + .4 * k for k in range(rng.choice([6, 9]))]
        R = [round(rng.uniform(.1, 1) * math.exp(-x / 2), 6) for x in r]
        np.savetxt(os.path.join(d, "radial.dat"), np.array([r, R]).T)
        return r, R

    def shell_dicts(sh, f):
        return OrderedDict((s["l"], s[f]) for s in sh)

    def index(sh):
        pos, k = {}, 0
        for s in sh:
            pos[s["l"]] = list(range(k, k + 2 * (2 * s["l"] + 1)))
            k += 2 * (2 * s["l"] + 1)
        return pos, k

    def main_case(pool, s):
        cf = s["mod"].endswith("CF")
        p = {"l": 1, "nb": rng.choice([0, 0, 2]), "nv": 0, "dv": 0, "dc": 0, "tol": 0, "n0": 6}
        if p["nb"]:
            p["nv"] = 2
        if cf:
            con = False
            dd = {"l": 2, "nb": 10, "nv": 10, "dv": rng.choice([0, 1]), "dc": 0, "tol": rng.choice([0, 1, 2]), "n0": rng.choice([8, 9])}
        else:
            nb = rng.choice([0, 2, 3, 4])
            nv = rng.randint(0, nb)
            dd = {"l": 2, "nb": nb, "nv": nv, "dv": rng.randint(0, min(1, nv)), "dc": rng.randint(0, min(1, nb - nv)), "tol": rng.choice([0, 1, 2]), "n0": rng.choice([1, 2, 8, 9])}
        sh = [p, dd]
        d = newdir()
        if rng.random() < .12:      # many states, in or out of the window
            s = dict(s, levels=[0] + sorted(rng.choice([rng.randint(0, 97), rng.randint(0, 97), rng.randint(103, 180)]) for _ in range(rng.randint(7, 22))))
        s = dict(s, T=s["T"] * rng.choice([1, 1, .05, .005, 3]))     # narrow energy windows too
        r, R = radial(d)
        pos, k = index(sh)
        n = k + sum(x["nb"] for x in sh)
        val = list(range(k, k + p["nb"])) + list(range(k + p["nb"], k + p["nb"] + dd["nv"]))
        win = s["cut"] * KB * s["T"]
        e0 = rng.uniform(-80, 5)
        es = [e0 + f / 100 * win for f in s["levels"]]
        psis = [d_state(rng, n, pos[2], rng.choice([dd["n0"], dd["n0"], min(dd["n0"] + 1, 10)]), pos[1] + val) for _ in es]
        Fdd, Fpp, Fpd, Gpd = (7.5, 0, rng.uniform(5, 9), 0, 6.6), (0., 0., 0.), (8.9, 0, 6.8), (0, rng.uniform(0, 5), 0, 2.8)
        xi_2p, xi_3d, c, h = rng.uniform(5, 12), .096, rng.uniform(-1, 2), (0, rng.choice([0, .1]), .0001)
        kw = dict(radial_filename=os.path.join(d, "radial.dat"), ls=tuple(x["l"] for x in sh), nBaths=tuple(x["nb"] for x in sh), nValBaths=tuple(x["nv"] for x in sh),
                  n0imps=tuple(x["n0"] for x in sh), dnTols=tuple(x["tol"] for x in sh), dnValBaths=tuple(x["dv"] for x in sh), dnConBaths=tuple(x["dc"] for x in sh),
                  Fdd=Fdd, Fpp=Fpp, Fpd=Fpd, Gpd=Gpd, xi_2p=xi_2p, xi_3d=xi_3d, chargeTransferCorrection=c, hField=h, nPsiMax=rng.randint(1, 9),
                  nPrintSlaterWeights=rng.choice([0, 1, 3, 12]), tolPrintOccupation=rng.choice([.1, .5]), T=s["T"], energy_cut=s["cut"],
                  delta=rng.choice([.2, .31, .07]), deltaRIXS=rng.choice([.05, .011]), deltaNIXS=rng.choice([.1, .13]))
        if cf:
            f = os.path.join(d, "h0.json")
            with open(f, "w") as fh:
                json.dump({"e_imp": rng.uniform(-2, 0), "v_val_eg": rng.uniform(1, 2)}, fh)
            kw["h0_CF_filename"] = f
            build = get_spectra_using_CF.get_hamiltonian_operator_using_CF
        else:
            h0 = {(((2, q, m), "c"), ((2, q, m), "a")): rng.choice([-.5, .25]) for q in range(2) for m in range(-2, 3)}
            for b in range(dd["nb"]):
                h0[(((2, b), "c"), ((2, b), "a"))] = -3. + b
                h0[(((2, 0, 0), "c"), ((2, b), "a"))] = h0[(((2, b), "c"), ((2, 0, 0), "a"))] = .7
            f = os.path.join(d, "h0.pickle")
            with open(f, "wb") as fh:
                pickle.dump(h0, fh)
            kw["h0_filename"] = f
            build = get_spectra.get_hamiltonian_operator
        op = build(shell_dicts(sh, "nb"), shell_dicts(sh, "nv"), [Fdd, Fpp, Fpd, Gpd], [xi_2p, xi_3d], [shell_dicts(sh, "n0"), c], h, f)
        a = {"mod": s["mod"], "dir": d, "kw": kw, "es": es, "psis": psis, "n": n}
        res = pool.run("jobs", "driver_main", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6))
        given = []
        for name in ("ls", "nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths", "Fdd", "Fpp", "Fpd", "Gpd", "hField"):
            given.append([name, [enc.fx(x) for x in kw[name]]])
        for name in ("xi_2p", "xi_3d", "chargeTransferCorrection", "nPsiMax", "T", "delta", "deltaRIXS", "deltaNIXS"):
            given.append([name, [enc.fx(kw[name])]])
        ctx.emit({"kind": "main", "mod": s["mod"], "size": pool.size, "shells": sh, "es": [enc.fx(e) for e in es], "psis": [enc.state(x, n) for x in psis],
                  "cut": enc.fx(s["cut"]), "T": enc.fx(s["T"]), "deltas": [enc.fx(kw[x]) for x in ("delta", "deltaNIXS", "deltaRIXS")], "num": kw["nPsiMax"], "most": kw["nPrintSlaterWeights"], "tolocc": enc.fx(kw["tolPrintOccupation"]),
                  "op": jobs.fingerprint(op), "r": [enc.fx(float("%.18e" % x)) for x in r], "R": [enc.fx(x) for x in R], "given": given,
                  "status": res["status"], "res": [{"ok": x["ok"] or {}, "err": x.get("err") or ""} for x in res["res"]], "err": ""})
        shutil.rmtree(d)

    def files_case(pool):
        d = newdir()
        a = files_args(rng, d)
        es, T = a["es"], a["T"]
        res = pool.run("jobs", "sim_files", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6), limit=120)
        ctx.emit({"kind": "files", "size": pool.size, "es": [enc.fx(e) for e in es], "T": enc.fx(T), "w": [enc.fx(x) for x in a["w"]],
                  "wloss": [enc.fx(x) for x in a["wloss"]], "win": [enc.fx(x) for x in a["win"]], "nin": len(a["epsin"]), "nout": len(a["epsout"]),
                  "nq": len(a["qs"]), "neps": len(a["eps"]), "status": res["status"],
                  "res": [{"ok": x["ok"] or {}, "err": x.get("err") or ""} for x in res["res"]], "err": ""})
        shutil.rmtree(d)

    def thermal_case(pool):
        nb = OrderedDict([(1, 0), (2, rng.choice([0, 3]))])
        n = 16 + nb[2]
        psis = [d_state(rng, n, list(range(6, 16)), rng.randint(0, 10), list(range(6))) for _ in range(rng.choice([1, 2, 4, 15]))]
        T, cut = rng.choice([.2, 3., 300., 300., 1000.]), rng.choice([10, 10, 10, 1, 4])
        es = sorted(rng.choice([0, .2, .5, 1.5, 3, 9, 11]) * KB * T for _ in psis)
        es = [e - es[0] - 7.3 for e in es]
        first = rng.choice([[], [None], [rng.randint(1, len(es))]])
        res = pool.run("jobs", "thermal_report", {"nb": nb, "es": es, "psis": psis, "T": T, "cut": cut, "n": first})
        ctx.emit({"kind": "thermal", "ls": [1, 2], "es": [enc.fx(e) for e in es], "psis": [enc.state(x, n) for x in psis], "T": enc.fx(T), "cut": enc.fx(cut), "first": first[0] if first and first[0] else len(es),
                  "status": res["status"], "res": [{"ok": x["ok"] or {}, "err": x.get("err") or ""} for x in res["res"]], "err": ""})

    def full(pool, seed, ref):
        g = random.Random(seed)
        d = newdir()
        r = np.linspace(0.01, 5, 40)
        np.savetxt(os.path.join(d, "radial.dat"), np.array([r, np.exp(-r) * 2]).T)
        f = os.path.join(d, "h0.pickle")
        h0 = {(((2, q, m), "c"), ((2, q, m), "a")): -.3 + .004 * m * m for q in range(2) for m in range(-2, 3)}
        with open(f, "wb") as fh:
            pickle.dump(h0, fh)
        T, cut, num = g.choice([40, 300]), g.choice([3, 10]), g.choice([2, 4])
        kw = dict(h0_filename=f, radial_filename=os.path.join(d, "radial.dat"), ls=(1, 2), nBaths=(0, 0), nValBaths=(0, 0), n0imps=(6, 9), dnTols=(0, 0), dnValBaths=(0, 0),
                  dnConBaths=(0, 0), Fdd=(7.5, 0, 9.9, 0, 6.6), Fpp=(0., 0., 0.), Fpd=(8.9, 0, 6.8), Gpd=(0., 5., 0, 2.8), xi_2p=11.629, xi_3d=.002, chargeTransferCorrection=1.5,
                  hField=(0, 0, .001), nPsiMax=num, nPrintSlaterWeights=1, tolPrintOccupation=.5, T=T, energy_cut=cut, delta=.2, deltaRIXS=.05, deltaNIXS=.1)
        a = {"mod": "get_spectra", "dir": d, "kw": kw, "iw": [0, 700, 1500, 2100, 2999], "il": [0, 571, 600, 3999], "ii": [0, 20, 49]}
        res = pool.run("jobs", "full_run", a, seed=seed, limit=300)
        ctx.emit({"kind": "run", "size": pool.size, "T": enc.fx(T), "cut": enc.fx(cut), "num": num, "n3d": 9, "status": res["status"], "ref": ref,
                  "res": [{"ok": x["ok"] or {}, "err": x.get("err") or ""} for x in res["res"]], "err": ""})
        shutil.rmtree(d)
        ok = res["res"][0]["ok"]
        return [ok["h5"]] if ok else []

    scn = ctx.scn["runs"]

    def part(k):
        seq[0] = 10 ** 6 * (k + 1)
        refs = {}
        for size in ctx.pick([1, 3], [1, 2, 3, 5]):
            pool = Pool(size, ctx.seed + 31 + k)
            try:
                for s in rng.sample(scn, ctx.pick(9 if size == 1 else 3, 40 if size == 1 else 10)):
                    main_case(pool, s)
                for _ in range(ctx.pick(6 if size == 1 else 3, 30 if size == 1 else 10)):
                    files_case(pool)
                for _ in range(ctx.pick(6 if size == 1 else 0, 40)):
                    thermal_case(pool)
                if k == 0:
                    for q in range(ctx.pick(1, 6)):
                        refs[q] = full(pool, 5 + q, refs.get(q, []))
            finally:
                pool.close()
    ctx.shards(4, part)


def corrupt(r):
    def new(f):
        c = copy.deepcopy(r)
        f(c["res"][0]["ok"])
        return c

    def bump(a, k, d=1e-3):
        a[k] = enc.fx(enc.unfx(a[k]) + d)
    if r["kind"] == "main":
        yield "T", new(lambda o: bump(o["sim"], "T"))
        yield "delta", new(lambda o: bump(o["sim"], "deltaNIXS"))
        yield "restr", new(lambda o: o["sim"]["restr"][0].__setitem__("lo", o["sim"]["restr"][0]["lo"] + 1))
        yield "window", new(lambda o: o["sim"]["es"].append(o["sim"]["es"][-1]))
        yield "printed", new(lambda o: bump(o["printed"][4], 1, 5e-3))
        yield "occ", new(lambda o: bump(o["states"]["diag"][0][0], 2, .02)) if r["res"][0]["ok"]["states"]["diag"][0] else r
        for k, x in enumerate(r["res"][0]["ok"]["states"]["off"]):
            if x:
                yield "off", new(lambda o: bump(o["states"]["off"][k][0], 4, .03))
                yield "off-lost", new(lambda o: o["states"]["off"][k].pop())
        if r["most"]:
            yield "slater", new(lambda o: bump(o["states"]["slater"][0]["w"], 0))
            yield "state", new(lambda o: o["states"]["slater"][-1]["ps"][0].__setitem__(-1, 0))
        yield "op", new(lambda o: bump(o["eig"]["op"][0], 0))
        yield "npz", new(lambda o: o["npz"].pop())
        yield "E", new(lambda o: bump(o["h5"]["E"], 0))
        yield "basis", new(lambda o: o["eig"]["basis"].pop())
        if r["size"] > 1:
            c = copy.deepcopy(r)
            c["res"][1]["ok"]["files"] = ["data.npz"]
            yield "writes", c
    if r["kind"] == "files":
        for k in ("PS", "XPS", "NIXS", "XAS", "RIXS"):
            yield k, new(lambda o: bump(o["h5"][k][0][0], 0, 1e-5))
            if len(r["es"]) > 1:
                yield k + "thermal", new(lambda o: bump(o["h5"][k + "thermal"][0], 0, 1e-5))
        yield "table", new(lambda o: bump(o["dat"]["PS"]["rows"][0], 3))
        yield "sum", new(lambda o: bump(o["dat"]["XAS"]["rows"][0], 1))
        yield "map", new(lambda o: bump(o["bin"], -1, 1e-2))
    if r["kind"] == "thermal":
        for k in range(10):
            yield "printed", new(lambda o: bump(o["printed"][k], 1, 2e-3))
        for k in range(11):
            yield "table%d" % k, new(lambda o: bump(o["table"]["rows"][-1][k], 1, .011))
        yield "rows", new(lambda o: o["table"]["rows"].append(o["table"]["rows"][0]))
    if r["kind"] == "run":
        yield "thermal", new(lambda o: bump(o["h5"]["XPSthermal"][0], 1))
        yield "states", new(lambda o: o["h5"]["XPS"].append(o["h5"]["XPS"][0]))
        yield "map", new(lambda o: bump(o["bin"], 1, .1))
