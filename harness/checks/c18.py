"""C18: observables equal the expectation values of their operators."""
import contextlib
import copy
import io
import re
from collections import OrderedDict

import enc
from checks import common


def spec(tier):
    return {
        "models": [{"module": "CubicModel", "cfg": "INIT Init\nNEXT Next\nINVARIANT Right\n", "workers": 2}],
        "gens": [{"name": "pairs", "module": "ObsGen", "cfg": "INIT Init\nNEXT Next\n"}],
        "streams": [{"name": "trace", "module": "C18Trace"}],
    }


def n_of(nb):
    return sum(2 * (2 * l + 1) + b for l, b in nb.items())


def offset(nb, l):
    k = 0
    for x in nb:
        if x == l:
            return k
        k += 2 * (2 * x + 1)


def drive(ctx):
    import numpy as np
    from impurityModel.ed import finite

    rng = ctx.rng

    def dens(d):
        out = []
        for (a, b), v in d.items():
            re_, im = enc.cx(v)
            out.append({"a": [int(x) for x in a], "b": [int(x) for x in b], "re": re_, "im": im})
        return out

    def mat(u):
        return [[enc.cx(x) for x in row] for row in np.asarray(u)]

    def obs(nb, psi):
        n = n_of(nb)
        shells = list(nb)

        def go():
            before = dict(psi)
            cub = []
            for (x, y), v in finite.getDensityMatrixCubic(nb, psi).items():
                re_, im = enc.cx(v)
                cub.append({"k": [int(x[0]), int(x[1]), int(y[0]), int(y[1])], "re": re_, "im": im})
            return {"lz": enc.cx(finite.getLz3d(nb, psi))[0], "sz": enc.cx(finite.getSz3d(nb, psi))[0],
                    "l2": enc.cx(finite.getLsqr3d(nb, psi))[0], "s2": enc.cx(finite.getSsqr3d(nb, psi))[0],
                    "n": [enc.cx(finite.getTraceDensityMatrix(nb, psi, l))[0] for l in shells],
                    "nd": enc.cx(finite.getTraceDensityMatrix(nb, psi))[0],
                    "dens": [dens(finite.getDensityMatrix(nb, psi, l)) for l in shells], "cubic": cub,
                    "u": mat(finite.get_spherical_2_cubic_matrix()),
                    "occ": [enc.cx(x) for x in finite.getEgT2gOccupation(nb, psi)], "kept": before == psi}
        ctx.case({"kind": "obs", "shells": shells, "psi": enc.state(psi, n)}, go)

    def ladder(nb, psi):
        n = n_of(nb)

        def go():
            before = dict(psi)
            r = {k: enc.state(getattr(finite, f)(nb, psi), n) for k, f in
                 (("sz", "applySz3d"), ("lz", "applyLz3d"), ("sp", "applySplus3d"), ("sm", "applySminus3d"), ("lp", "applyLplus3d"), ("lm", "applyLminus3d"))}
            r["kept"] = before == psi
            return r
        ctx.case({"kind": "ladder", "shells": list(nb), "psi": enc.state(psi, n)}, go)

    def make_nb(shells):
        return OrderedDict((l, rng.choice([0, 0, 1, 2, 5, 10])) for l in shells)

    def core(nb, avoid=()):
        """random occupation of everything but some orbitals"""
        n = n_of(nb)
        p = rng.choice([0, .2, .5, .8, 1])
        return [i for i in range(n) if i not in avoid and rng.random() < p]

    scn = ctx.scn["pairs"]
    for s in rng.sample(scn, ctx.pick(36, 500)):
        nb = make_nb(s["shells"])
        if not s["nb"]:
            nb = OrderedDict((l, 0) for l in nb)
        o = offset(nb, 2)
        i, j = o + s["i"], o + s["j"]
        rest = core(nb, (i, j))
        n = n_of(nb)
        t = rng.choice([.3, .5, .8, 10 ** -rng.uniform(3, 10)])
        psi = {enc.occ_bytes(rest + [i], n): t ** .5, enc.occ_bytes(rest + [j], n): (1 - t) ** .5 * 1j ** s["ph"]}
        obs(nb, psi)

    def coherent(nb, k):
        """k product states connected by moves of single electrons within the d shell, some with other bath electrons"""
        n, o = n_of(nb), offset(nb, 2)
        d = list(range(o, o + 10))
        base = set(core(nb))
        out = {enc.occ_bytes(sorted(base), n): 1}
        for _ in range(k):
            b = set(base)
            for _ in range(rng.choice([1, 1, 2])):
                occ, emp = [x for x in d if x in b], [x for x in d if x not in b]
                if occ and emp:
                    b.remove(rng.choice(occ))
                    b.add(rng.choice(emp))
            if rng.random() < .2:
                b ^= {rng.randrange(n)}
            out[enc.occ_bytes(sorted(b), n)] = common.rand_amp(rng)
            if rng.random() < .5:
                base = b
        psi = {s: a * common.rand_amp(rng, "c") for s, a in out.items()}
        if rng.random() < .4:
            # small admixtures
            psi = {s: a * rng.choice([1, 10 ** -rng.uniform(1.5, 5)]) if q else a for q, (s, a) in enumerate(psi.items())}
        return common.norm(psi)

    shells = [(2,), (1, 2), (2, 1), (0, 2), (2, 3), (1, 2)]
    for _ in range(ctx.pick(16, 120)):
        nb = make_nb(rng.choice(shells))
        obs(nb, coherent(nb, rng.randint(0, 5)))
    for _ in range(ctx.pick(3, 20)):     # many product states
        nb = make_nb(rng.choice(shells[:3]))
        psi = coherent(nb, rng.randint(70, 160))
        obs(nb, psi)
        ladder(nb, psi)
    for _ in range(ctx.pick(40, 600)):
        nb = make_nb(rng.choice(shells))
        psi = coherent(nb, rng.randint(0, 6))
        ladder(nb, psi if rng.random() < .8 else {s: a * 3 for s, a in psi.items()})
    for l in (1, 2):
        for sp in (False, True):
            ctx.case({"kind": "u", "l": l, "spinpol": sp}, lambda: {"u": mat(finite.get_spherical_2_cubic_matrix(spinpol=sp, l=l))})
    ctx.case({"kind": "u", "l": 2, "spinpol": False}, lambda: {"u": mat(finite.get_spherical_2_cubic_matrix())})
    for _ in range(ctx.pick(6, 50)):
        nb = make_nb(rng.choice(shells))
        psis = [coherent(nb, rng.randint(0, 3)) for _ in range(rng.randint(1, 4))]
        es = np.array(sorted(rng.uniform(-5, 5) for _ in psis))
        m = rng.choice([None, len(psis), 1, len(psis) + 2])

        def go():
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                if m is None:
                    finite.printExpValues(nb, es, psis)
                else:
                    finite.printExpValues(nb, es, psis, n=m)
            rows = []
            for line in buf.getvalue().split("\n"):
                x = line.split()
                if len(x) > 3 and re.fullmatch(r"[-+\d.e ]+", line.strip()):
                    rows.append([enc.fx(float(v)) for v in x])
            return {"rows": rows}
        ctx.case({"kind": "print", "shells": list(nb), "psis": [enc.state(p, n_of(nb)) for p in psis], "es": [enc.fx(e) for e in es],
                  "want": len(psis) if m is None else min(m, len(psis))}, go)


def bump(b, d=1e-5):
    return enc.fx(enc.unfx(b) + d)


def corrupt(r):
    def new(f):
        c = copy.deepcopy(r)
        f(c)
        return c
    if r["kind"] == "obs":
        for k in ("lz", "sz", "l2", "s2", "nd"):
            yield k, new(lambda c: c.update({k: bump(c[k])}))
        if r["dens"][-1]:
            yield "dens", new(lambda c: c["dens"][-1][-1].update(im=bump(c["dens"][-1][-1]["im"])))
            yield "drop", new(lambda c: c["dens"][-1].pop(0))
        if r["cubic"]:
            yield "cubic", new(lambda c: c["cubic"][0].update(im=bump(c["cubic"][0]["im"])))
        if any(x["a"] != x["b"] and abs(enc.unfx(x["im"])) > 1e-3 for x in r["dens"][0]):
            def tr(c):
                for x in c["dens"][0]:
                    x["a"], x["b"] = x["b"], x["a"]
            yield "transpose", new(tr)
        yield "occ", new(lambda c: c["occ"].__setitem__(1, [bump(c["occ"][1][0]), c["occ"][1][1]]))
    elif r["kind"] == "ladder":
        for k in ("sz", "lz", "sp", "sm", "lp", "lm"):
            if r[k]:
                yield k, new(lambda c: c[k][0].update(re=bump(c[k][0]["re"])))
    elif r["kind"] == "u":
        yield "swap", new(lambda c: [row.__setitem__(slice(0, 2), [row[1], row[0]]) for row in c["u"]])
        yield "conj", new(lambda c: c["u"][0].__setitem__(-1, [bump(c["u"][0][-1][0]), c["u"][0][-1][1]]))
    elif r["kind"] == "print" and r["rows"]:
        yield "cell", new(lambda c: c["rows"][0].__setitem__(8, bump(c["rows"][0][8], .02)))
