"""C25: a complete run gives the spectra of the model it was asked for."""
import copy
import glob
import json
import os
import pickle
import shutil

import numpy as np

import enc
from checks import runs
import tlc
from mpipool import Pool

LINE = "INIT Init\nNEXT Next\n"
EPS = 1e-3
FAMS = ("PS", "XPS", "XAS", "NIXS", "RIXS")
DATA = {"PS": "PSthermal", "XPS": "XPSthermal", "XAS": "XASthermal", "NIXS": "NIXSthermal", "RIXS": "RIXSthermal"}


def spec(tier):
    return {
        "models": [{"module": "RunModel", "cfg": LINE + 'CONSTANT MaxB = %d\nCONSTANT Flaw = "none"\nINVARIANT Inside\nINVARIANT Conserved\nINVARIANT CoreHole\n' % (2 if tier == "quick" else 4), "workers": 2}],
        "gens": [],
        "streams": [{"name": "trace", "module": "C25Trace"}],
    }


def fxs(a):
    return [enc.fx(x) for x in a]


def cxs(v):
    return [enc.cx(z) for z in v]


def system(rng, kind):
    """parameters of a run, as plain numbers"""
    U = rng.uniform
    p = None
    if rng.random() < .3:
        p = {"l": 1, "nb": 1, "nv": 1, "dv": 0, "dc": 0, "tol": 0, "n0": 6}
    if kind == "cf":
        d = {"l": 2, "nb": 10, "nv": 10, "dv": rng.choice([1, 1, 0]), "dc": 0, "tol": 1, "n0": 9}
    elif kind == "bath":
        nb = rng.choice([1, 2, 2, 3])
        nv = rng.choice([nb, nb, max(nb - 1, 1)])
        d = {"l": 2, "nb": nb, "nv": nv, "dv": 1, "dc": min(nb - nv, rng.choice([0, 1])), "tol": 1, "n0": rng.choice([9, 9, 9, 8]) if nb < 3 else 9}
        if d["dc"]:
            d["n0"] = 9
    else:
        d = {"l": 2, "nb": 0, "nv": 0, "dv": 0, "dc": 0, "tol": rng.choice([0, 0, 1]), "n0": rng.choice([9, 8, 1] if kind == "atom" else [9])}
    sh = runs.shells(d, p)
    a = {"sh": sh, "Fdd": (U(5, 8), 0, U(6, 11), 0, U(4, 8)), "Fpp": (U(0, 3), 0, U(0, 3)), "Fpd": (U(6, 9), 0, U(4, 8)), "Gpd": (0, U(3, 6), 0, U(1, 4)),
         "xi": (U(6, 12), U(.05, .4)), "c": U(0, 2), "h": tuple(U(-.3, .3) for _ in range(3)), "cf": kind == "cf"}
    h0, given = {}, {}

    def hop(x, y, v):
        h0[x, y] = h0.get((x, y), 0) + v
        if x != y:
            h0[y, x] = h0.get((y, x), 0) + complex(v).conjugate()
    if kind == "cf":
        for name, lo, hi in (("e_imp", -2, 0), ("e_deltaO_imp", .3, 1), ("e_val_eg", -5, -3), ("e_val_t2g", -6, -4), ("v_val_eg", .8, 2), ("v_val_t2g", .5, 1.5)):
            if rng.random() < .7:
                given[name] = U(lo, hi)
    else:
        for s in (0, 1):
            for m in range(-2, 3):
                hop((2, s, m), (2, s, m), U(-1, 0))
        for _ in range(rng.choice([2, 5])):
            x, y = ((2, rng.randrange(2), rng.randrange(-2, 3)) for _ in range(2))
            if x != y:
                hop(x, y, complex(U(-.4, .4), U(-.4, .4)))
        for b in range(d["nb"]):
            hop((2, b), (2, b), U(-4, -1) if b < d["nv"] else U(1, 3))
            for _ in range(2):
                hop((2, b), (2, rng.randrange(2), rng.randrange(-2, 3)), rng.choice([1, -1]) * U(.4, 1.2) * rng.choice([1, 1j]))
        for b in range(sh[0]["nb"]):
            hop((1, b), (1, b), U(-4, -1))
            hop((1, b), (1, 1, 0), U(.4, 1.2))
    a["h0"], a["given"] = h0, given
    n = rng.choice([5, 8])
    a["r"] = [.05 + 1.4 / n * k for k in range(n)]
    a["R"] = [round(U(1, 3), 6) for _ in a["r"]]
    a["delta"], a["deltaRIXS"], a["deltaNIXS"] = U(.2, .5), U(.08, .25), U(.08, .25)
    return a


QS = [[2 / 3 ** .5] * 3, [7 / 3 ** .5] * 3]


def question(a):
    return {"sh": a["sh"], "Fdd": fxs(a["Fdd"]), "Fpp": fxs(a["Fpp"]), "Fpd": fxs(a["Fpd"]), "Gpd": fxs(a["Gpd"]), "xi": fxs(a["xi"]), "c": enc.fx(a["c"]),
            "h": fxs(a["h"]), "cf": a["cf"], "given": [{"name": k, "v": enc.fx(v)} for k, v in a["given"].items()],
            "h0": [{"to": list(x), "from": list(y), "v": enc.cx(v)} for (x, y), v in a["h0"].items()],
            "r": [enc.fx(float("%.18e" % x)) for x in a["r"]], "R": fxs(a["R"]), "qs": [fxs(q) for q in QS]}


def shift_core(a, ans, e):
    """core level e, in the input Hamiltonian and in the answer of the specification"""
    for s in (0, 1):
        for m in (-1, 0, 1):
            a["h0"][(1, s, m), (1, s, m)] = e
    for k in range(6):
        j = ans["p0"] + k
        row = [x for x in ans["one"] if x[0] == x[1] == j]
        v = e + (enc.unfx(row[0][2]) if row else 0)
        ans["one"] = [x for x in ans["one"] if not x[0] == x[1] == j] + [[j, j, enc.fx(v), [0]]]


def arguments(rng, a, o):
    """temperature, window and number of states with a clear cut between the states"""
    e = o.g.e
    gaps = [k for k in range(1, len(e) - 2) if e[k] - e[k - 1] > 2e-3 and k <= 6]
    k = rng.choice([g for g in gaps if g > 1] or gaps)
    kT = (e[k - 1] - e[0] + .02) * rng.uniform(.4, 1.5)
    a["T"] = kT / runs.KB
    a["cut"] = ((e[k] + e[k - 1]) / 2 - e[0]) / kT
    a["num"] = rng.choice([k, min(k + 1, len(e) - 2), min(k + 2, len(e) - 2)])
    m = a["num"]
    while m < len(e) and e[m] - e[m - 1] < 1e-6:
        m += 1
    return k, m


def module(a):
    return "get_spectra_using_CF" if a["cf"] else "get_spectra"


def other(rng, a):
    """a different calculation with the same shells"""
    U = rng.uniform
    b = dict(a, Fdd=(U(5, 8), 0, U(6, 11), 0, U(4, 8)), Fpd=(U(6, 9), 0, U(4, 8)), Gpd=(0, U(3, 6), 0, U(1, 4)), xi=(U(6, 12), U(.05, .4)), c=U(0, 2),
             h=tuple(U(-.3, .3) for _ in range(3)), R=[U(1, 3) for _ in a["r"]], delta=U(.2, .5), deltaRIXS=U(.08, .25), deltaNIXS=U(.08, .25), T=a["T"] * U(.5, 2))
    b["h0"] = {q: v * .7 for q, v in a["h0"].items()}
    b["given"] = {q: v * .8 for q, v in a["given"].items()}
    return b


def arrange(d, a):
    """files and arguments of a run"""
    sh = a["sh"]
    np.savetxt(os.path.join(d, "radial.dat"), np.array([a["r"], a["R"]]).T)
    kw = dict(radial_filename=os.path.join(d, "radial.dat"), ls=tuple(x["l"] for x in sh), nBaths=tuple(x["nb"] for x in sh), nValBaths=tuple(x["nv"] for x in sh),
              n0imps=tuple(x["n0"] for x in sh), dnTols=tuple(x["tol"] for x in sh), dnValBaths=tuple(x["dv"] for x in sh), dnConBaths=tuple(x["dc"] for x in sh),
              Fdd=a["Fdd"], Fpp=a["Fpp"], Fpd=a["Fpd"], Gpd=a["Gpd"], xi_2p=a["xi"][0], xi_3d=a["xi"][1], chargeTransferCorrection=a["c"], hField=a["h"], nPsiMax=a["num"],
              nPrintSlaterWeights=1, tolPrintOccupation=.5, T=a["T"], energy_cut=a["cut"], delta=a["delta"], deltaRIXS=a["deltaRIXS"], deltaNIXS=a["deltaNIXS"])
    if a["cf"]:
        kw["h0_CF_filename"] = os.path.join(d, "h0.json")
        with open(kw["h0_CF_filename"], "w") as fh:
            json.dump(a["given"], fh)
    else:
        kw["h0_filename"] = os.path.join(d, "h0.pickle")
        with open(kw["h0_filename"], "wb") as fh:
            pickle.dump({((x, "c"), (y, "a")): v for (x, y), v in a["h0"].items()}, fh)
    return kw


class Reference:
    """thermal spectra on whole meshes"""
    def __init__(self, o, a, nw, w, win, wloss):
        self.o, self.a, self.nw, self.w, self.win, self.wl = o, a, nw, w, win, wloss
        self.psis = [o.g.dic(o.g.u[:, k]) for k in range(nw)]
        self.e = o.g.e[:nw]
        b = np.exp(-(self.e - self.e[0]) / (runs.KB * a["T"]))
        self.b = b / b.sum()
        self.img, self.sec = {}, {}
        for f in ("IPS", "PS", "XPS", "XAS", "NIXS"):
            self.img[f], self.sec[f] = o.phis(f, self.psis)
        seeds = [s for f in self.emit_all() for s in f]
        self.sec["RIXS"] = o.sector(seeds)

    def emit_all(self):
        return [lin for t in self.o.emit for lin in [runs.lin(t.on, {s: 1. for s in self.sec["XAS"].st}, self.o.ok)]]

    def wide(self, v, d, s=1.):
        n = np.linalg.norm(v)
        return (2 * EPS * n * s + (EPS * s) ** 2) / d

    def lines(self, fam):
        """ops x mesh: values and tolerances"""
        a = self.a
        num = len(self.o.ops(fam))
        mesh, d = (self.wl, a["deltaNIXS"]) if fam == "NIXS" else (self.w, a["delta"])
        val, tol = np.zeros((num, len(mesh))), np.zeros((num, 1))
        for t in range(num):
            for k in range(self.nw):
                for f, sg in (("IPS", 1), ("PS", -1)) if fam == "PS" else ((fam, -1 if fam == "XPS" else 1),):
                    s = self.sec[f]
                    v = s.vec(self.img[f][t][k])
                    val[t] += self.b[k] * -sg * s.g(v, sg * mesh + 1j * sg * d + self.e[k]).imag
                    tol[t] += self.b[k] * self.wide(v, d)
        return val, tol

    def mid(self, t, k, win):
        s = self.sec["XAS"]
        return s.solve(win + 1j * self.a["delta"] + self.e[k], s.vec(self.img["XAS"][t][k]))

    def rixs(self):
        a = self.a
        s, q = self.sec["XAS"], self.sec["RIXS"]
        val = np.zeros((3, 3, len(self.win), len(self.wl)))
        tol = np.zeros((3, 3, len(self.win), 1))
        out = []
        for t in self.o.emit:
            m = np.zeros((len(q.st), len(s.st)), complex)
            for j, x in enumerate(s.st):
                for y, v in t.on(x).items():
                    if y in q.ix:
                        m[q.ix[y], j] += v
            out.append(m)
        for k in range(self.nw):
            den = 1 / (self.wl[:, None] + 1j * a["deltaRIXS"] + self.e[k] - q.e[None, :])
            for ti in range(3):
                for iw, win in enumerate(self.win):
                    x = self.mid(ti, k, win)
                    for to in range(3):
                        v = out[to] @ x
                        c = abs(q.u.conj().T @ v) ** 2
                        val[ti, to, iw] += self.b[k] * -(den @ c).imag
                        tol[ti, to, iw] += self.b[k] * self.wide(v, a["deltaRIXS"], 1 / a["delta"])
        return val, tol


def drive(ctx):
    rng = ctx.rng
    top = os.path.abspath("runs25")
    kinds = ctx.pick(["bath", "cf", "bath", "atom9"], ["bath", "cf", "atom", "bath", "atom9"] * 6)
    todo = [system(rng, k) for k in kinds]
    answers = runs.ask(ctx.work, tlc.java_overrides(ctx.work), [question(a) for a in todo])

    def one(k):
        a, ans = todo[k], answers[k]
        o = runs.Oracle(ans)
        if not a["cf"]:
            psis = [o.g.dic(o.g.u[:, 0])]
            img, sec = o.phis("XAS", psis)
            num = den = 0
            for row in img:
                v = sec.vec(row[0])
                num, den = num + (v.conj() @ sec.m @ v).real, den + np.linalg.norm(v) ** 2
            if den > 0:
                shift_core(a, ans, round(num / den - o.g.e[0] - rng.uniform(-3, 10), 6))
                o = runs.Oracle(ans)
        nw, m = arguments(rng, a, o)
        d = os.path.join(top, "d%d" % k)
        os.makedirs(d)
        size = [1, 3, 2, 1][k % 4]
        before = k % 4 in (0, 3) or not ctx.quick and k % 4 == 1
        pool = Pool(size, ctx.seed + 97 + k)
        try:
            if before:      # another calculation of the same sizes by the same processes, in the same place
                b = other(rng, a)
                pool.run("jobs", "main_spectra", {"mod": module(a), "dir": d, "kw": arrange(d, b)}, mode="sync", seed=rng.randrange(10 ** 6), limit=ctx.pick(240, 900))
            res = pool.run("jobs", "main_spectra", {"mod": module(a), "dir": d, "kw": arrange(d, a)}, mode=rng.choice(["sync", "eager"]),
                           seed=rng.randrange(10 ** 6), limit=ctx.pick(240, 900))
        finally:
            pool.close()
        shutil.rmtree(d)
        rec = {"kind": "spectra", "par": question(a), "T": enc.fx(a["T"]), "cut": enc.fx(a["cut"]), "num": a["num"], "nw": nw, "m": m, "size": size, "before": before,
               "delta": enc.fx(a["delta"]), "dnixs": enc.fx(a["deltaNIXS"]), "drixs": enc.fx(a["deltaRIXS"]),
               "status": res["status"], "bad": "; ".join(x.get("err") or "" for x in res["res"]).strip("; "), "err": ""}
        got = res["res"][0].get("ok") or {}
        ctx.emit(judge_input(ctx, rec, a, o, got, nw, m))
    ctx.shards(len(todo), one)


def judge_input(ctx, rec, a, o, got, nw, m):
    rng = ctx.rng
    ok = bool(got) and all(np.all(np.isfinite(np.asarray(got[f], float))) for f in got)
    rec["full"] = ok
    rec.update(E=[], es=[], gap=[0], sec=[], of={}, psi=[], items=[])
    if not ok:
        return rec
    w, win, wl = got["w"], got["wIn"], got["wLoss"]
    ref = Reference(o, a, nw, w, win, wl)
    num = {"PS": (10, len(w)), "XPS": (6, len(w)), "XAS": (3, len(w)), "NIXS": (2, len(wl)), "RIXS": (3, 3, len(win), len(wl))}
    rec["shape"] = {f: list(np.shape(got[DATA[f]])) for f in FAMS}
    rec["want"] = {f: list(num[f]) for f in FAMS}
    rec["E"] = fxs(np.ravel(got["E"]))
    e = o.g.e
    rec["es"] = fxs(e[:m])
    rec["gap"] = enc.fx((e[m - 1] + e[m]) / 2 if m < len(e) else e[m - 1] + 1)
    rec["psi"] = [cxs(o.g.u[:, k]) for k in range(m)]
    names = ["ground", "IPS", "PS", "XPS", "XAS", "NIXS", "RIXS"]
    rec["of"] = {n: k + 1 for k, n in enumerate(names)}
    rec["sec"] = [[runs.occ(s) for s in (o.g if n == "ground" else ref.sec[n]).st] for n in names]
    if rec["shape"] != rec["want"]:
        return rec
    for fam in FAMS:
        g = np.asarray(got[DATA[fam]], float)
        val, tol = ref.rixs() if fam == "RIXS" else ref.lines(fam)
        if fam == "NIXS":
            at = np.unravel_index(np.argmax(val), val.shape)
            g = g / max(g[at] / val[at], 1e-9) if val[at] > 0 else g
        dev = np.abs(g - val) / (tol + 1e-12)
        if os.environ.get("C25_DEBUG"):
            at = np.unravel_index(np.argmax(dev), dev.shape)
            print("C25", rec["num"], nw, len(o.ground), fam, "dev/tol %.4f" % dev.max(), "max want %.4f got %.4f" % (val.max(), g.max()), "tol/max %.4f" % (tol.max() / (val.max() + 1e-30)), at, len(ref.sec[fam].st), flush=True)
        pts = [np.unravel_index(np.argmax(val), val.shape), np.unravel_index(np.argmax(dev), val.shape)]
        for _ in range(ctx.pick(1, 3)):
            t = tuple(rng.randrange(x) for x in val.shape[:-1])
            pts.append(t + (rng.choice([int(np.argmax(val[t])), rng.randrange(val.shape[-1])]),))
        for at in dict.fromkeys(tuple(int(q) for q in p) for p in pts):
            rec["items"].append(item(ref, fam, at, got, a))
    return rec


def item(ref, fam, at, got, a):
    mesh = ref.wl if fam in ("NIXS", "RIXS") else ref.w
    x = float(mesh[at[-1]])
    it = {"fam": fam, "t": at[0] + 1, "u": at[1] + 1 if fam == "RIXS" else 0, "w": enc.fx(x), "win": enc.fx(ref.win[at[2]]) if fam == "RIXS" else [0],
          "got": enc.fx(got[DATA[fam]][at]), "at": "%s" % (at,), "c": []}
    for k in range(ref.nw):
        c = {}
        if fam == "RIXS":
            mid = ref.mid(at[0], k, float(ref.win[at[2]]))
            c["m"] = cxs(mid)
            phi = runs.lin(ref.o.emit[at[1]].on, ref.sec["XAS"].dic(mid), ref.o.ok)
            s = ref.sec["RIXS"]
            c["x"] = cxs(s.solve(x + 1j * a["deltaRIXS"] + ref.e[k], s.vec(phi)))
        else:
            d = a["deltaNIXS"] if fam == "NIXS" else a["delta"]
            for name, f, sg in (("x", "IPS", 1), ("y", "PS", -1)) if fam == "PS" else (("x", fam, -1 if fam == "XPS" else 1),):
                s = ref.sec[f]
                c[name] = cxs(s.solve(sg * (x + 1j * d) + ref.e[k], s.vec(ref.img[f][at[0]][k])))
        it["c"].append(c)
    return it


def corrupt(r):
    """small errors that the specification must reject"""
    yield "energy", dict(r, E=[r["E"][0]] + [shifted(x, 1e-3) for x in r["E"][1:]] if len(r["E"]) > 1 else [shifted(r["E"][0], 1e-3)])
    yield "lost-energy", dict(r, E=r["E"][:-1])
    for f in FAMS:
        mine = [q for q, it in enumerate(r["items"]) if it["fam"] == f]
        if f == "NIXS" and len(mine) < 2:
            continue
        q = mine[0]
        b = copy.deepcopy(r)
        v = enc.unfx(b["items"][q]["got"])
        b["items"][q]["got"] = enc.fx(v * 1.05)
        if f == "NIXS":
            b["items"][mine[-1]]["got"] = enc.fx(enc.unfx(b["items"][mine[-1]]["got"]) * .9)
        yield "spectrum-" + f, b
    b = copy.deepcopy(r)
    b["psi"][0][0][0] = shifted(b["psi"][0][0][0], 1e-3)
    yield "eigenvector", b
    b = copy.deepcopy(r)
    b["items"][0]["c"] = b["items"][0]["c"][:-1]
    yield "certificate", b
    yield "shape", dict(r, shape=dict(r["shape"], XAS=[0]))
    yield "missing-level", dict(r, gap=shifted(r["es"][-1], -1e-3))
    yield "raised", dict(r, bad="error")


def shifted(x, d):
    return enc.fx(enc.unfx(x) + d)
