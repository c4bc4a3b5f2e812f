"""C19: transition operators have the documented matrix elements."""
import copy
import math
from collections import OrderedDict

import enc


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "HarmonicsModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT ND = %d\nINVARIANT Right\n" % (3 if q else 8), "workers": 2}],
        "gens": [{"name": "trans", "module": "TransGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = 3\n"}],
        "streams": [{"name": "trace", "module": "C19Trace"}],
    }


def n_of(nb):
    return sum(2 * (2 * l + 1) + b for l, b in nb.items())


def drive(ctx):
    import numpy as np
    from impurityModel.ed import spectra

    rng = ctx.rng
    scn = ctx.scn["trans"]

    def make_nb(ls):
        return OrderedDict((l, rng.choice([0, 1, 3])) for l in ls)

    PH = [0, 1, 1j, -1, complex(.6, -.8)]
    dips = [s for s in scn if s["kind"] == "dip"]
    for s in rng.sample(dips, ctx.pick(70, 400)):
        nb = make_nb([s["lj"], s["li"]])
        pols = [[PH[k] for k in s["q"]]]
        for _ in range(rng.randint(0, 3)):
            pols.append([rng.choice([0, 1, rng.uniform(-1, 1), 10 ** -rng.uniform(1, 6), 7.5, complex(rng.uniform(-1, 1), rng.uniform(-1, 1))]) for _ in range(3)])
        if rng.random() < .4:
            pols = [[1, 0, 0], [0, 1, 0], [0, 0, 1]] if rng.random() < .5 else [list(np.array(p, dtype=complex)) for p in pols]

        def go():
            ops = spectra.getDipoleOperators(nb, pols)
            if rng.random() < .3:
                ops = [spectra.getDipoleOperator(nb, p) for p in pols]
            return {"ops": [enc.op(o) for o in ops], "dag": [enc.op(o) for o in spectra.getDaggeredDipoleOperators(nb, pols)]}
        ctx.case({"kind": "dip", "shells": list(nb), "lto": s["li"], "lfrom": s["lj"], "n": n_of(nb), "pols": [[enc.cx(x) for x in p] for p in pols]}, go)

    def radial(l, r):
        a = rng.uniform(1., 1.4)
        R = r ** l * (1 + rng.choice([0, rng.uniform(-.5, .5)]) * r ** 2) * np.exp(-a * r ** 2 / 2)
        R = R / math.sqrt(np.sum(R[1:] ** 2 * r[1:] ** 2 * np.diff(r)))
        return R if rng.random() < .8 else R * complex(.6, .8)

    def direction(d):
        v = [x * rng.choice([1, rng.uniform(.3, 2)]) for x in d]
        if rng.random() < .2:       # almost along an axis
            k = rng.randrange(3)
            v = [x if j == k else x * 10 ** -rng.uniform(1, 6) for j, x in enumerate(v)]
        if not any(v):
            v = [0, 1, 0]
        t = rng.choice([.02, .1, .3, 1, 2.5, 5])
        norm = math.sqrt(sum(x * x for x in v))
        v = [x / norm * t for x in v]
        if rng.random() < .2:
            v = [0, 0, -t] if rng.random() < .5 else [int(x) for x in d]
        return v

    nixs = [s for s in scn if s["kind"] == "nixs"]
    light = [s for s in nixs if max(s["li"], s["lj"]) < 3]
    for _ in range(ctx.pick(40, 250)):
        picked = rng.sample(nixs, 2)
        if max(s[k] for s in picked for k in ("li", "lj")) == 3 and rng.random() < .5:
            picked = rng.sample(light, 2)
        ls = sorted({s[k] for s in picked for k in ("li", "lj")})
        rng.shuffle(ls)
        nb = make_nb(ls)
        loose = rng.random() < .2
        r = np.linspace(0, 6.5, 27)
        if loose:
            r = np.concatenate([[0], np.geomspace(.05, 6., 39)])
        calls = []
        for s in picked:
            Ri, Rj = radial(s["li"], r), radial(s["lj"], r)
            qs = [direction(s["q"])]
            for _ in range(rng.choice([0, 1])):
                qs.append(direction(rng.choice(nixs)["q"]))
            calls.append((qs, s["li"], s["lj"], Ri, Rj, rng.choice([s["kmin"], 0, 1, 1])))

        def go():
            out = []
            for c in calls:
                qs, li, lj, Ri, Rj, kmin = c
                last = [kmin] if kmin != 1 or rng.random() < .3 else []
                if rng.random() < .5:
                    ops = [spectra.getNIXSOperator(nb, q, li, lj, Ri, Rj, r, *last) for q in qs]
                else:
                    ops = spectra.getNIXSOperators(nb, qs, li, lj, Ri, Rj, r, *last)
                out.append({"li": li, "lj": lj, "kmin": kmin, "qs": [[enc.fx(x) for x in q] for q in qs], "r": [enc.fx(x) for x in r],
                            "ri": [enc.cx(x) for x in Ri], "rj": [enc.cx(x) for x in Rj], "ops": [enc.op(o) for o in ops]})
            return {"calls": out}
        ctx.case({"kind": "nixs", "shells": list(nb), "n": n_of(nb), "loose": loose}, go)

    for ls in [(0,), (1,), (2,), (3,), (1, 2), (2, 1), (0, 1, 2, 3), (3, 1)]:
        for l in ls:
            nb = make_nb(ls)
            ctx.case({"kind": "photo", "shells": list(ls), "l": l},
                     lambda: {"ps": [enc.op(o) for o in (spectra.getPhotoEmissionOperators(nb, l) if l != 2 or rng.random() < .5 else spectra.getPhotoEmissionOperators(nb))],
                              "ips": [enc.op(o) for o in (spectra.getInversePhotoEmissionOperators(nb, l) if l != 2 or rng.random() < .5 else spectra.getInversePhotoEmissionOperators(nb))]})


def corrupt(r):
    def new(f):
        c = copy.deepcopy(r)
        f(c)
        return c

    def scale(t, z):
        v = complex(enc.unfx(t["re"]), enc.unfx(t["im"])) * z
        t["re"], t["im"] = enc.cx(v)
    if r["kind"] == "dip":
        for k in ("ops", "dag"):
            if r[k][0]:
                yield k, new(lambda c: scale(c[k][0][-1], 1.001))
                yield "phase", new(lambda c: scale(c[k][0][0], 1j))
                yield "drop", new(lambda c: c[k][0].pop())
    elif r["kind"] == "nixs":
        op = max((o for c in r["calls"] for o in c["ops"]), key=len)
        if op and max(abs(enc.unfx(t["re"])) + abs(enc.unfx(t["im"])) for t in op) > .02 and len(op) > 2:
            k = max(range(len(op)), key=lambda i: abs(enc.unfx(op[i]["re"])) + abs(enc.unfx(op[i]["im"])))
            ci, oi = next((a, b) for a, c in enumerate(r["calls"]) for b, o in enumerate(c["ops"]) if o is op)
            yield "phase", new(lambda c: scale(c["calls"][ci]["ops"][oi][k], 1j))
            if not r["loose"]:
                yield "value", new(lambda c: scale(c["calls"][ci]["ops"][oi][k], 1.0001))
    elif r["kind"] == "photo":
        yield "swap", new(lambda c: c["ps"].insert(0, c["ps"].pop()))
        yield "value", new(lambda c: scale(c["ips"][0][0], -1))
