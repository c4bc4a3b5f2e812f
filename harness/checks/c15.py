"""C15: each RIXS entry follows the two-step formula, independent of the others."""
import copy

import enc
from checks import spectral as sp
from checks.common import Spread
from checks.c14 import clean
from mpipool import Pool

MODES = ["serial", "H_build", "wIn", "H_build_wIn"]


def spec(tier):
    c = ("INIT Init\nNEXT Next\nCONSTANT P = %d\nCONSTANT NIn = %d\nCONSTANT NOut = %d\nCONSTANT NW = %d\nCONSTANT NS = %d\n"
         "CONSTANT Flaw = \"none\"\nINVARIANT OwnOnly Complete\n")
    shapes = [(1, 2, 2, 2, 2), (2, 2, 2, 2, 1)] if tier == "quick" else [(1, 3, 3, 2, 2), (2, 2, 2, 2, 2), (3, 1, 2, 3, 1)]
    return {"models": [{"module": "RixsModel", "cfg": c % s, "workers": 3} for s in shapes],
            "streams": [{"name": "trace", "module": "C15Trace"}]}


def drive(ctx):
    rng = ctx.rng

    def record(pool, n, op, restr, psis, es, tin, tout, pmode, nwin, cut):
        if rng.random() < .1:
            m = Spread(rng, n)
            n, op, restr, tin, tout, psis = m.n, m.op(op), m.restr(restr), [m.op(t) for t in tin], [m.op(t) for t in tout], [m.state(p) for p in psis]
        a = {"n": n, "op": op, "tin": tin, "tout": tout, "psis": psis, "es": es, "win": [rng.choice([1, 1, 1, 6]) * rng.uniform(-2, 2) for _ in range(nwin)],
             "wloss": [rng.uniform(-2, 2) for _ in range(rng.choice([1, 2]))], "d1": rng.choice([-1, 1]) * rng.choice([.3, .5, 1.]),
             "d2": rng.choice([-1, 1]) * rng.choice([.1, .3, 1.]), "restr": restr, "k": 150, "cut": cut, "pmode": pmode}
        r = pool.run("jobs", "rixs", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6))
        ctx.emit({"kind": "rixs", "n": n, "op": enc.op(op), "restr": enc.restr(restr), "tin": [enc.op(t) for t in tin],
                  "tout": [enc.op(t) for t in tout], "psis": [enc.state(p, n) for p in psis], "es": [enc.fx(e) for e in es],
                  "win": [enc.fx(x) for x in a["win"]], "wloss": [enc.fx(x) for x in a["wloss"]], "d1": enc.fx(a["d1"]), "d2": enc.fx(a["d2"]),
                  "cut": enc.fx(a["cut"]), "pmode": pmode, "size": pool.size, "status": r["status"], "res": r["res"], "err": ""})

    def core(rng):
        """Core orbitals, valence orbitals, excitation of core electrons and de-excitation, as in the real use."""
        nc, nv = rng.choice([1, 2]), rng.choice([2, 3])
        n = nc + nv
        op = sp.hamiltonian(rng, nv, rng.random() < .3)
        op = {tuple((i + nc, x) for i, x in t): v for t, v in op.items()}
        for i in range(nc):
            op[((i, "c"), (i, "a"))] = -1. - .3 * i
            for j in range(nc, n):
                op[((i, "c"), (j, "c"), (j, "a"), (i, "a"))] = .3
        psis = []
        for _ in range(rng.randint(1, 3)):
            p = sp.rand_psi(rng, nv, rng.randint(0, nv), None)
            psis.append({enc.occ_bytes(list(range(nc)) + [i + nc for i in enc.bytes_occ(b, nv)], n): a for b, a in p.items()})
        def trans(down):
            t = {}
            for _ in range(rng.randint(1, 2)):
                i, j = rng.randrange(nc), rng.randrange(nc, n)
                t[((i, "c"), (j, "a")) if down else ((j, "c"), (i, "a"))] = rng.choice([1, -1, .7, .5j, complex(.4, -.8)])
            return t
        return n, op, None, psis, [trans(False) for _ in range(rng.randint(1, 2))], [trans(True) for _ in range(rng.randint(1, 3))]

    def free(rng):
        n, op, restr = sp.rand_problem(rng, 4)
        psis = [p for p in (sp.rand_psi(rng, n, rng.randint(0, n), restr) for _ in range(rng.randint(1, 2))) if p]
        return n, op, restr, psis, [sp.transition(rng, n) for _ in range(rng.randint(1, 2))], [sp.transition(rng, n) for _ in range(rng.randint(1, 2))]

    sizes = ctx.pick([1, 2, 3], [1, 2, 3, 5])

    def part(which):
        size = sizes[which]
        pool = Pool(size, ctx.seed + 6)
        try:
            for c in range(ctx.pick(130, 600)):
                n, op, restr, psis, tin, tout = (core if rng.random() < .7 else free)(rng)
                if rng.random() < .4:
                    tout.append(sp.twin(rng, tout[0]))
                if rng.random() < .4:
                    tin.insert(0, sp.twin(rng, tin[-1]))
                # the light may couple weakly or strongly
                if rng.random() < .35:
                    x, y = 10 ** rng.uniform(-3, .5), 10 ** rng.uniform(-2, 3)
                    tin = [{q: v * x for q, v in t.items()} for t in tin]
                    tout = [{q: v * y for q, v in t.items()} for t in tout]
                cut = rng.choice([1e-14, 1e-14, 1e-7])
                if rng.random() < .25:    # hardly any absorption, strong emission, and the larger cutoff
                    x, y, cut = 10 ** rng.uniform(-2.6, -1.8), 10 ** rng.uniform(1, 3), 1e-7
                    tin = [{q: v / abs(v) * x for q, v in t.items()} for t in tin]
                    tout = [{q: v / abs(v) * y for q, v in t.items()} for t in tout]
                if any(abs(v) < 10 * cut ** .5 for t in tout for v in t.values()):
                    cut = 1e-14
                if not psis or not clean(n, tin, psis, restr, cut, 4):
                    continue
                if any(x and sp.size_of(n, op, restr, x, 12) is None for t in tin for x in [sp.apply_op(n, t, p, restr) for p in psis]):
                    continue
                if rng.random() < .25:
                    tin.append(tin[0])
                record(pool, n, op, restr, psis, [rng.uniform(-1, 1) for _ in psis], tin, tout, MODES[c % 4], rng.choice([1, 2, 3, 4]), cut)
            # many energies, operators, states
            for c in range(ctx.pick(8, 32)):
                n, op, restr, psis, tin, tout = core(rng)
                nwin = 1
                if c % 4 == 0 or rng.random() < .3:
                    nwin, tin, tout, psis = rng.randint(8, 60), tin[:1], tout[:1], psis[:1]
                elif c % 4 == 1:
                    tin, psis = [sp.twin(rng, tin[0]) for _ in range(rng.randint(5, 12))], psis[:1]
                elif c % 4 == 2:
                    tout, psis = [sp.twin(rng, tout[0]) for _ in range(rng.randint(5, 12))], psis[:1]
                else:
                    tin, tout, psis = tin[:1], tout[:1], [rng.choice(psis) for _ in range(rng.randint(5, 14))]
                if psis and clean(n, tin, psis, restr, 1e-14, 4):
                    record(pool, n, op, restr, psis, [rng.uniform(-1, 1) for _ in psis], tin, tout, rng.choice(MODES), nwin, 1e-14)
        finally:
            pool.close()
    ctx.shards(len(sizes), part)


def corrupt(r):
    g = r["res"][0]["ok"]["g"]
    x = g[-1][-1][-1][-1][-1]
    if abs(enc.unfx(x[0])) + abs(enc.unfx(x[1])) > .01:
        for f in (1.1, .9):
            c = copy.deepcopy(r)
            for p in range(len(c["res"])):
                y = c["res"][p]["ok"]["g"][-1][-1][-1][-1][-1]
                y[0], y[1] = enc.fx(enc.unfx(y[0]) * f), enc.fx(enc.unfx(y[1]) * f)
            yield "value", c
    if len(g[0][0]) > 1 and all(abs(enc.unfx(g[0][0][0][0][0][j]) - enc.unfx(g[0][0][1][0][0][j])) > .05 for j in (0, 1)):
        c = copy.deepcopy(r)
        for p in range(len(c["res"])):
            y = c["res"][p]["ok"]["g"][0][0]
            y[0], y[1] = y[1], y[0]
        yield "swapout", c
