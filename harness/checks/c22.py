"""C22: the model Hamiltonian is the sum of its documented terms for any input."""
import copy
import json
import os
import pickle
from collections import OrderedDict

import enc

DEF = ("e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg", "v_con_t2g")


def spec(tier):
    return {
        "models": [{"module": "HamModel", "cfg": "INIT Init\nNEXT Next\nINVARIANT Right\n", "workers": 2}],
        "gens": [{"name": "cf", "module": "CFGen", "cfg": "INIT Init\nNEXT Next\n"}],
        "streams": [{"name": "trace", "module": "C22Trace"}],
    }


def labelled(op):
    out = []
    for (a, b), v in op.items():
        assert a[1] == "c" and b[1] == "a", "not a creator followed by an annihilator: %r" % ((a, b),)
        out.append({"to": list(a[0]), "from": list(b[0]), "v": enc.cx(v)})
    return out


def drive(ctx):
    from impurityModel.ed import finite, get_spectra as gs, get_spectra_using_CF as cf

    rng = ctx.rng
    seq = [0]

    def fname(ext):
        seq[0] += 1
        return os.path.abspath("h0_%d.%s" % (seq[0], ext))

    def write(obj, ext):
        f = fname(ext)
        if ext == "json":
            with open(f, "w") as fh:
                json.dump(obj, fh)
        else:
            with open(f, "wb") as fh:
                pickle.dump(obj, fh)
        return f

    def pars():
        zero = rng.random() < .2
        r = lambda lo, hi: 0.0 if zero and rng.random() < .5 else rng.choice([rng.uniform(lo, hi), float(round(rng.uniform(lo, hi)))])
        return {"Fdd": [r(0, 9), 0, r(0, 10), 0, r(0, 7)] if rng.random() < .7 else [r(0, 9) for _ in range(5)],
                "Fpp": [r(0, 3) for _ in range(3)], "Fpd": [r(0, 9) for _ in range(3)], "Gpd": [r(0, 5) for _ in range(4)],
                "xi": [r(-1, 12), r(-1, 2)], "c": r(-2, 3), "h": [r(-1, 1) for _ in range(3)] if rng.random() < .6 else [rng.choice([0, 1e-4, -1e-4, 10 ** rng.uniform(-6, -2)]) for _ in range(3)], "n0": [6, rng.randint(0, 10)]}

    def encpars(p):
        e = {k: [enc.fx(x) for x in p[k]] for k in ("Fdd", "Fpp", "Fpd", "Gpd", "xi", "h")}
        e["c"] = enc.fx(p["c"])
        e["n0"] = p["n0"]
        return e

    def dicts(shells, per_l):
        return OrderedDict((l, per_l[l]) for l in shells)

    def somepairs(n, k):
        al = [[i, j] for i in range(n) for j in range(i + 1, n)]
        return al if k >= len(al) else rng.sample(al, k)

    def size(shells, nb):
        return sum(2 * (2 * l + 1) for l in shells) + sum(nb[l] for l in shells)

    def call(f, p, shells, nb, nv, *last):
        return f(dicts(shells, nb), dicts(shells, nv), [tuple(p["Fdd"]), tuple(p["Fpp"]), tuple(p["Fpd"]), tuple(p["Gpd"])], list(p["xi"]),
                 [dicts(shells, {1: p["n0"][0], 2: p["n0"][1]}), p["c"]], tuple(p["h"]), *last)

    def head(shells, nb, nv, p, kind):
        return dict(encpars(p), kind=kind, shells=shells, nb=[nb[l] for l in shells], nv=nv[2])

    def rand_h0(shells, nb, hermitian=True):
        orbs = [(l, s, m) for l in shells for s in range(2) for m in range(-l, l + 1)] + [(l, b) for l in shells for b in range(nb[l])]
        h = {}
        for _ in range(rng.choice([0, 1, 5, 25, 60, 400])):
            a, b = rng.choice(orbs), rng.choice(orbs)
            v = rng.uniform(-3, 3) if a == b else rng.choice([rng.uniform(-3, 3), complex(rng.uniform(-2, 2), rng.uniform(-2, 2)), complex(rng.uniform(-2, 2), 10 ** rng.uniform(-6, -3)), 0])
            h[((a, "c"), (b, "a"))] = v
            h[((b, "c"), (a, "a"))] = v.conjugate() if isinstance(v, complex) else v
        return h, orbs

    npair = ctx.pick(25, 700)
    for i in range(ctx.pick(14, 60)):
        shells = rng.choice([[1, 2], [2, 1]])
        nb = {1: rng.choice([0, 0, 2, 6]), 2: rng.choice([0, 1, 4, 10, 10, 25, 60])}
        nv = {1: rng.randint(0, nb[1]), 2: rng.randint(0, nb[2])}
        p = pars()
        h0, _ = rand_h0(shells, nb)
        f = write(h0, "pickle")
        rec = head(shells, nb, nv, p, "ham")
        rec["h0"] = labelled(h0)
        rec["pairs"] = somepairs(size(shells, nb), npair)
        ctx.case(rec, lambda: {"op": enc.op(call(gs.get_hamiltonian_operator, p, shells, nb, nv, f))})
    for _ in range(ctx.pick(12, 60)):      # an input that is not Hermitian must not go through
        shells = [1, 2]
        nb, nv = {1: 0, 2: 4}, {1: 0, 2: 4}
        h0, orbs = rand_h0(shells, nb)
        a, b = rng.sample(orbs, 2)
        h0.pop(((a, "c"), (b, "a")), None)
        h0.pop(((b, "c"), (a, "a")), None)
        if rng.random() < .6:
            v = rng.choice([1.5, 2j, .25])
            h0[((a, "c"), (b, "a"))] = v
            if rng.random() < .5:
                h0[((b, "c"), (a, "a"))] = v + rng.choice([.5, 1j])
        else:
            h0[((a, "c"), (a, "a"))] = complex(1, rng.choice([.5, -2]))
        f = write(h0, "pickle")
        p = pars()
        p["xi"], p["h"] = [0, 0], [0, 0, 0]

        def go():
            try:
                call(gs.get_hamiltonian_operator, p, shells, nb, nv, f)
                return {"refused": False}
            except Exception:  # noqa: BLE001
                return {"refused": True}
        ctx.case({"kind": "refuse", "what": "non-Hermitian h0"}, go)

    def value(x):
        if rng.random() < .15:
            return rng.choice([0, 0.0, 1, -2])
        return rng.uniform(-6, 6) if x[0] == "e" else rng.uniform(-2, 2)

    cfs = ctx.scn["cf"]
    for i, s in enumerate(rng.sample(cfs, ctx.pick(60, 800))):
        given = {x: value(x) for x in s["given"]}
        shells, nb = s["shells"], {1: s["pbath"], 2: 20 if s["con"] else 10}
        nv = {1: rng.randint(0, s["pbath"]), 2: 10}
        f = write(given, "json")
        args = () if s["basis"] == "spherical" and rng.random() < .5 else (s["basis"],)
        base = {"cf": [{"name": k, "v": enc.fx(v)} for k, v in given.items()], "bathbasis": s["basis"], "shells": shells,
                "nb": [nb[l] for l in shells], "nv": 10}
        ctx.case(dict(base, kind="cffile"), lambda: {"out": [enc.fx(x) for x in cf.read_h0_CF_file(f)]})
        ctx.case(dict(base, kind="cf"), lambda: {"out": labelled(cf.get_CF_hamiltonian(dicts(shells, nb), dicts(shells, nv), f, *args))})
        if i < ctx.pick(8, 60):
            p = pars()
            rec = dict(head(shells, nb, nv, p, "hamcf"), **{k: base[k] for k in ("cf", "bathbasis")})
            rec["pairs"] = somepairs(size(shells, nb), ctx.pick(15, 700))
            ctx.case(rec, lambda: {"op": enc.op(call(cf.get_hamiltonian_operator_using_CF, p, shells, nb, nv, f, *args))})
    for bad in ("other", ""):
        f = write({}, "json")

        def go2():
            try:
                cf.get_CF_hamiltonian(OrderedDict([(1, 0), (2, 10)]), OrderedDict([(1, 0), (2, 10)]), f, bad)
                return {"refused": False}
            except Exception:  # noqa: BLE001
                return {"refused": True}
        ctx.case({"kind": "refuse", "what": "bath basis " + bad}, go2)
    for _ in range(ctx.pick(60, 600)):
        p = pars()
        both = rng.random() < .6
        kw = dict(n2p_i=6, Fpd=p["Fpd"], Gpd=p["Gpd"]) if both else {}

        def dc():
            r = finite.dc_MLFT(p["n0"][1], p["c"], p["Fdd"], **kw)
            return {"out": [enc.fx(x) for x in (r if both else [r])]}
        ctx.case(dict(encpars(p), kind="dc", both=both), dc)
    for args, kw in (((7.5, 1., [1, 0, 1, 0, 1]), {}), ((8, 1., [1, 0, 1, 0, 1]), dict(n2p_i=5, Fpd=[1, 0, 1], Gpd=[0, 1, 0, 1])),
                     ((8, 1., [1, 0, 1, 0, 1]), dict(n2p_i=5.5, Fpd=[1, 0, 1], Gpd=[0, 1, 0, 1])), ((8, 1., [1, 0, 1, 0, 1]), dict(n2p_i=6)),
                     ((8, 1., [1, 0, 1, 0, 1]), dict(n2p_i=6, Fpd=[1, 0, 1])), ((8, 1., [1, 0, 1, 0, 1]), dict(Fpd=[1, 0, 1], Gpd=[0, 1, 0, 1]))):
        def go3():
            try:
                finite.dc_MLFT(*args, **kw)
                return {"refused": False}
            except Exception:  # noqa: BLE001
                return {"refused": True}
        ctx.case({"kind": "refuse", "what": "double counting input"}, go3)


def corrupt(r):
    def shift(v, d):
        return enc.fx(enc.unfx(v) + d)
    if r["kind"] in ("ham", "hamcf"):
        ops = r["op"]
        for n in (2, 4):
            ks = [k for k, t in enumerate(ops) if len(t["t"]) == n and (n == 2 or sorted({x[0] for x in t["t"][:2]} | {x[0] for x in t["t"][2:]}) in [sorted(p) for p in r["pairs"]])]
            if ks:
                c = copy.deepcopy(r)
                c["op"][ks[len(ks) // 2]]["re"] = shift(ops[ks[len(ks) // 2]]["re"], 1e-3)
                yield "value-%d" % n, c
                c = copy.deepcopy(r)
                c["op"][ks[0]]["t"][0][1] = "a"
                yield "process-%d" % n, c
        c = copy.deepcopy(r)
        c["c"] = shift(c["c"], 1e-3)
        yield "double counting", c
        for k in range(3):
            c = copy.deepcopy(r)
            c["h"][k] = shift(c["h"][k], 1e-3)
            yield "field", c
        for k in range(2):
            c = copy.deepcopy(r)
            c["xi"][k] = shift(c["xi"][k], 1e-3)
            yield "spin-orbit", c
    if r["kind"] == "cf":
        for k in (0, len(r["out"]) // 2, -1):
            c = copy.deepcopy(r)
            c["out"][k]["v"][0] = shift(c["out"][k]["v"][0], 1e-3)
            yield "value", c
        if r["cf"]:
            for k, e in enumerate(r["cf"]):
                if "_con_" in e["name"] and r["nb"][r["shells"].index(2)] == 10:
                    continue
                c = copy.deepcopy(r)
                c["cf"][k]["v"] = shift(e["v"], 1e-2)
                yield e["name"], c
    if r["kind"] == "cffile":
        c = copy.deepcopy(r)
        c["out"] = c["out"][::-1]
        yield "order", c
    if r["kind"] == "dc":
        c = copy.deepcopy(r)
        c["out"][-1] = shift(c["out"][-1], 1e-4)
        yield "value", c
    if r["kind"] == "refuse":
        yield "accepted", dict(r, refused=False)
