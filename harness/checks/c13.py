"""C13: the Green's function equals the exact resolvent."""
import copy

import enc
from checks import spectral as sp
from checks.common import Spread
from mpipool import Pool


def spec(tier):
    q = tier == "quick"
    c = "INIT Init\nNEXT Next\nCONSTANT N = %d\nCONSTANT Lo = %d\nCONSTANT Hi = %d\nINVARIANT ProjectedOK ExactOK\n"
    g = "INIT Init\nNEXT Next\nCONSTANT N = %d\nCONSTANT Lo = %d\nCONSTANT Hi = %d\n"
    return {
        "models": [{"module": "LanczosModel", "cfg": c % s, "workers": 3} for s in ([(2, 2, 2), (3, 0, 1)] if q else [(2, 4, 4), (3, 1, 1)])]
        + [{"module": "ChainModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANT Right RightAll\n" % (3 if q else 4), "workers": 2}],
        "gens": [{"name": "tri", "module": "LanczosGen", "cfg": g % (3, 0, 1)}] + ([] if q else [{"name": "tri", "module": "LanczosGen", "cfg": g % (3, 1, 1)}]),
        "streams": [{"name": "trace", "module": "C13Trace"}],
    }


def fxm(h):
    return [[enc.cx(x) for x in row] for row in h]


def split(rng, h, size):
    """process-local parts: every column at one process"""
    n = len(h)
    owner = [rng.randrange(size) for _ in range(n)]
    return [[[h[i][j] if owner[j] == r else 0 for j in range(n)] for i in range(n)] for r in range(size)]


def drive(ctx):
    rng = ctx.rng
    scn = ctx.scn["tri"]
    if len(scn) > ctx.pick(150, 2500):
        scn = rng.sample(scn, ctx.pick(150, 2500))
    sizes = ctx.pick([1, 3], [1, 2, 3, 5])

    def part(which):
        size = sizes[which]
        pool = Pool(size, ctx.seed + 4)

        def tri(h, psi, k, near=None):
            local = size > 1 and rng.random() < .7
            per = split(rng, h, size) if local else [h] * size
            a = {"psi0": psi, "k": k, "local": local, "mode": "sparse" if local or rng.random() < .6 else "dense"}
            r = pool.run("jobs", "krylov", a, seed=rng.randrange(10 ** 6), per_rank=per)
            ctx.emit({"kind": "krylov", "size": size, "h": fxm(h), "psi": [enc.cx(x) for x in psi], "k": k, "mode": a["mode"], "local": local,
                      "z": [[enc.fx(rng.uniform(-3, 3)), enc.fx(rng.choice([-1, 1]) * rng.choice([.1, .3, 1]))] for _ in range(2)]
                      + ([] if near is None else [[enc.fx(near + rng.uniform(-1e-3, 1e-3)), enc.fx(.02)]]),
                      "status": r["status"], "res": r["res"], "err": ""})

        def long_chain():
            """one electron on a chain of equal or slowly varying sites: many different Krylov vectors"""
            n, restr = rng.choice([18, 19, 20]), None
            eps, slope, t = rng.uniform(-1, 1), rng.choice([0, 0, 1e-4, .1]), rng.uniform(.3, 1)
            op = {((j, "c"), (j, "a")): eps + slope * j for j in range(n)}
            for j in range(n - 1):
                v = t * rng.choice([1, 1, 1, 1j, .5])
                op[((j + 1, "c"), (j, "a"))] = v
                op[((j, "c"), (j + 1, "a"))] = complex(v).conjugate()
            site = rng.choice([0, 0, 1, n - 1])
            return n, op, restr, [{enc.occ_bytes([site], n): rng.choice([1, -1, 1j])}]

        def weak_chain():
            """one electron at the end of a short chain: every Krylov vector is one site, so no amplitude comes near the cut,
            however weak the couplings"""
            n = rng.randint(2, 6)
            eps = rng.choice([-1, 1]) * rng.uniform(.3, 1)
            op = {((j, "c"), (j, "a")): eps + rng.choice([0, 0, .02, -.05]) for j in range(n)}
            for j in range(n - 1):
                v = 10 ** rng.uniform(-2.7, -.3) * rng.choice([1, -1, 1j])
                op[((j + 1, "c"), (j, "a"))] = v
                op[((j, "c"), (j + 1, "a"))] = complex(v).conjugate()
            return n, op, None, [{enc.occ_bytes([0], n): rng.choice([1, -1, 1j])}]

        def greens(k, mode, pmode, delta=None, empties=True, chain=False, weak=False):
            if weak:
                n, op, restr, psis = weak_chain()
            elif chain:
                n, op, restr, psis = long_chain()
            else:
                n, op, restr = sp.rand_problem(rng, 6)
                ne = rng.randint(1, n - 1)
                psis = [p for p in (sp.rand_psi(rng, n, ne, restr) for _ in range(rng.randint(1, 3))) if p]
            sizes = [sp.size_of(n, op, restr, p, 24 if chain else 16) for p in psis]
            if not psis or None in sizes:
                return
            if rng.random() < .12:
                m = Spread(rng, n)
                n, op, restr, psis = m.n, m.op(op), m.restr(restr), [m.state(p) for p in psis]
            k = rng.choice(k) if k else max(1, rng.choice(sizes) + rng.choice([-2, -1, 0, 0, 1, 2, 10]))
            if rng.random() < .2 and empties:
                psis.insert(rng.randrange(len(psis) + 1), {})
            if rng.random() < .3:
                psis.append(psis[0])
            # cut 0: the dict algorithm keeps everything
            e = rng.choice([0, rng.uniform(-2, 2)])
            # near the energy of the state, where weak couplings matter
            mean = sum((b.get(s, 0).conjugate() * x).real for b in psis[:1] for s, x in sp.apply_op(n, op, b).items())
            a = {"n": n, "e": e, "op": op, "w": [rng.uniform(-3, 3) for _ in range(rng.choice([1, 2]))] + [mean - e] * (rng.random() < .7),
                 "delta": rng.choice([-1, 1]) * rng.choice([.03, .05, .2, 1.]), "k": k, "cut": 0 if mode == "dict" and not weak else rng.choice([0, 1e-7, 1e-7]),
                 "restr": restr, "mode": mode, "pmode": pmode, "share": rng.random() < .7, "psis": psis}
            r = pool.run("jobs", "green", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6))
            ctx.emit({"kind": "green", "n": n, "op": enc.op(op), "restr": enc.restr(restr), "psis": [enc.state(p, n) for p in psis],
                      "e": enc.fx(a["e"]), "w": [enc.fx(x) for x in a["w"]], "delta": enc.fx(a["delta"]), "k": k, "mode": mode, "pmode": pmode,
                      "size": size, "share": a["share"], "status": r["status"], "res": r["res"], "err": ""})
        def very_long(mode, pmode):
            """hundreds of Krylov vectors: one electron starting at an end of a chain. Much disorder would localise the electron, and
            rounding then spoils the orthogonality of the Krylov vectors in any implementation of the recurrence."""
            n = rng.choice([40, rng.randint(60, 110), rng.randint(150, 280)])
            order = rng.sample(range(n), n)
            flat = rng.random() < .4
            eps = [.2 + (rng.uniform(-.03, .03) if not flat else 0) for _ in range(n)]
            t = [rng.uniform(.67, .7) * rng.choice([1, -1, 1j, complex(.6, .8)]) if not flat else .7 for _ in range(n - 1)]
            op = {((j, "c"), (j, "a")): eps[i] for i, j in enumerate(order)}
            for v, i, j in zip(t, order, order[1:]):
                op[((i, "c"), (j, "a"))], op[((j, "c"), (i, "a"))] = v, complex(v).conjugate()
            ends = [rng.randrange(2) for _ in range(rng.randint(1, 2))]
            a = {"n": n, "e": rng.uniform(-1, 1), "op": op, "w": [rng.uniform(-2, 2) for _ in range(3)], "delta": rng.choice([-1, 1]) * rng.choice([.005 if flat else .02, .02, .1]),
                 "k": rng.choice([n, n + 20, 150, 400, rng.randint(20, n)]), "cut": 0 if mode == "dict" else rng.choice([0, 1e-7]), "restr": None, "mode": mode,
                 "pmode": pmode, "share": rng.random() < .5, "psis": [{enc.occ_bytes([order[-x]], n): rng.choice([1, -1, 1j])} for x in ends]}
            r = pool.run("jobs", "green", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6))
            ctx.emit({"kind": "chain", "n": n, "eps": [enc.fx(x) for x in eps], "hop": [enc.cx(x) for x in t], "ends": ends, "e": enc.fx(a["e"]),
                      "w": [enc.fx(x) for x in a["w"]], "delta": enc.fx(a["delta"]), "k": a["k"], "mode": mode, "pmode": pmode, "size": size,
                      "status": r["status"], "res": r["res"], "err": ""})
        try:
            for s in scn:
                n = len(s["h"])
                tri(s["h"], [1. if j == s["e"] - 1 else 0. for j in range(n)], rng.choice([1, 2, 3, 3, 4]))
            for _ in range(ctx.pick(30, 300)):
                n = rng.choice([1, 2, 3, 5, 7])
                h = [[0.] * n for _ in range(n)]
                for a in range(n):
                    for b in range(a + 1):
                        if a == b:
                            h[a][a] = rng.uniform(-1, 1)
                        elif rng.random() < .6:
                            h[a][b] = complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
                            h[b][a] = h[a][b].conjugate()
                v = [complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(n)]
                if rng.random() < .3:
                    v = [x if k == 0 or rng.random() < .3 else 0j for k, x in enumerate(v)]
                near = None
                if rng.random() < .35:
                    # nearly equal levels, weakly coupled
                    x, near = 10 ** rng.uniform(-4.5, -1.5), rng.uniform(-1, 1)
                    h = [[h[a][b] * x + (near if a == b else 0) for b in range(n)] for a in range(n)]
                    if rng.random() < .3:
                        k = rng.randrange(n)
                        h[k][k] += .5
                s = sum(abs(x) ** 2 for x in v) ** .5
                tri(h, [x / s for x in v], rng.choice([1, 2, n, n + 1, max(1, n - 1)]), near)
            for mode, pmode in [("sparse", "serial"), ("dense", "serial"), ("dict", "serial"), ("sparse", "H_build")]:
                if size > 1 and pmode == "serial" and ctx.quick:
                    continue
                for _ in range(ctx.pick(30 if size == 1 else 45, 300)):
                    greens(None, mode, pmode)
                for _ in range(ctx.pick(2, 15)):
                    very_long(mode, pmode)
                for _ in range(ctx.pick(3, 40)):
                    greens([17, 22, 60, 150], mode, pmode, chain=True)
                for _ in range(ctx.pick(10, 120)):
                    greens(None, mode, pmode, weak=True)
                for _ in range(ctx.pick(10, 100)):
                    greens([1, 2, 3, 150], mode, pmode)
        finally:
            pool.close()
    ctx.shards(len(sizes), part)


def corrupt(r):
    if r["kind"] in ("green", "chain"):
        for p, g in enumerate(r["res"][0]["ok"]["g"]):
            c = copy.deepcopy(r)
            x = c["res"][0]["ok"]["g"][p][-1]
            x[0] = enc.fx(enc.unfx(x[0]) + (1e-3 if r["kind"] == "chain" else 1e-5))
            yield "re", c
            break
    elif len(r["res"][0]["ok"]["alpha"]) > 1:
        c = copy.deepcopy(r)
        c["res"][0]["ok"]["alpha"][0] = enc.fx(enc.unfx(c["res"][0]["ok"]["alpha"][0]) + 1e-4)
        yield "alpha", c
