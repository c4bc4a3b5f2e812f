"""C14: each spectrum is independent of the batch, the mode and the process count."""
import copy

import enc
from checks import spectral as sp
from checks.common import Spread, rand_amp
from mpipool import Pool


def spec(tier):
    q = tier == "quick"
    c = "INIT Init\nNEXT Next\nCONSTANT P = %d\nCONSTANT NStates = %d\nCONSTANT NOps = %d\nINVARIANT Independent NoDeadlock\n"
    return {
        "models": [{"module": "BatchModel", "cfg": c % s, "workers": 3} for s in ([(2, 2, 2), (3, 2, 1)] if q else [(2, 3, 2), (3, 3, 1), (3, 2, 2)])],
        "gens": [{"name": "batch", "module": "BatchGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT M = %d\n" % (3 if q else 4)}],
        "streams": [{"name": "trace", "module": "C14Trace"}],
    }


def clean(n, tops, psis, restr, cut=1e-7, far=60):
    """No amplitude of T|psi> near the weight cutoff (there the result is free)."""
    for t in tops:
        for p in psis:
            raw = {}
            for s, a in p.items():
                for k, v in sp.restricted(n, sp.column(n, t, s), restr).items():
                    raw[k] = raw.get(k, 0) + a * v
            if any(1e-9 < abs(v) < far * cut ** .5 + 1e-6 for v in raw.values()):
                return False
    return True


def drive(ctx):
    rng = ctx.rng

    def energies(m):
        """often degenerate, exactly or nearly; ascending or not"""
        e = [rng.uniform(-2, 2) for _ in range(m)]
        x = rng.random()
        if x < .3:
            e = [e[0]] * m
        elif x < .5:
            e = [rng.choice(e[:2]) for _ in e]
        elif x < .6:
            e = [e[0] + rng.choice([0, 1e-12, 1e-9, -1e-9]) for _ in e]
        return sorted(e) if rng.random() < .5 else e

    def record(pool, n, op, restr, tops, psis, es, pmode, k=None, cut=1e-7, nw=None):
        if rng.random() < .1:
            m = Spread(rng, n)
            n, op, restr, tops, psis = m.n, m.op(op), m.restr(restr), [m.op(t) for t in tops], [m.state(p) for p in psis]
        a = {"n": n, "op": op, "tops": tops, "psis": psis, "es": es, "w": [rng.uniform(-3, 3) for _ in range(nw or rng.choice([1, 2]))],
             "delta": rng.choice([-1, 1]) * rng.choice([.05, .2, 1.]), "restr": restr, "k": k or rng.choice([150, 150, 150, 2, 1]),
             "cut": cut, "pmode": pmode}
        r = pool.run("jobs", "spectra_", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6))
        ctx.emit({"kind": "spectra", "n": n, "op": enc.op(op), "restr": enc.restr(restr), "tops": [enc.op(t) for t in tops],
                  "psis": [enc.state(p, n) for p in psis], "es": [enc.fx(e) for e in es], "w": [enc.fx(x) for x in a["w"]],
                  "delta": enc.fx(a["delta"]), "k": a["k"], "pmode": pmode, "size": pool.size, "cut": str(a["cut"]),
                  "status": r["status"], "res": r["res"], "err": ""})

    sizes = ctx.pick([1, 2, 3, 5], [1, 2, 3, 4, 5, 8])

    def part(which):
        size = sizes[which]
        pool = Pool(size, ctx.seed + 5)
        try:
            # batches of the specification: which states and operators, in which order
            for s in rng.sample(ctx.scn["batch"], min(len(ctx.scn["batch"]), ctx.pick(26, 200))):
                n, op, restr = sp.rand_problem(rng, 5)
                ne = rng.randint(1, n - 1)
                states = [p for p in (sp.rand_psi(rng, n, ne, restr) for _ in range(8)) if p]
                ops = [sp.transition(rng, n), sp.transition(rng, n), sp.transition(rng, n, "ca"), sp.transition(rng, n, "zero")]
                if rng.random() < .5:
                    ops[1] = sp.twin(rng, ops[0])
                cut = rng.choice([1e-14, 1e-7])
                if len(states) < 4 or not clean(n, ops, states, restr, cut):
                    continue
                e = energies(len(states))
                for pmode in ("H_build", "eigen_states"):
                    record(pool, n, op, restr, [ops[t - 1] for t in s["ops"]], [states[p - 1] for p in s["states"]],
                           [e[p - 1] for p in s["states"]], pmode, cut=cut)
            for _ in range(ctx.pick(60, 400)):
                n, op, restr = sp.rand_problem(rng, 6)
                # states of different sectors too
                psis = [p for p in (sp.rand_psi(rng, n, rng.randint(0, n), restr) for _ in range(rng.randint(1, 2 * size))) if p][:6]
                tops = [sp.transition(rng, n) for _ in range(rng.randint(1, 3))]
                if rng.random() < .2:
                    tops.append({((rng.randrange(n), "c"),): rand_amp(rng, "f"), ((rng.randrange(n), "a"),): rand_amp(rng, "c")})
                if rng.random() < .3:
                    tops.insert(0, sp.twin(rng, tops[-1]))
                cut = rng.choice([1e-14, 1e-7])
                if rng.random() < .4:     # light that couples weakly or strongly
                    x = 10 ** rng.uniform(-4, 1)
                    tops[0] = {k: v * x for k, v in tops[0].items()}
                    cut = 1e-14
                if not psis or not clean(n, tops, psis, restr, cut):
                    continue
                if any(x and sp.size_of(n, op, restr, x, 14) is None for t in tops for x in [sp.apply_op(n, t, p, restr) for p in psis]):
                    continue
                if rng.random() < .3:
                    psis.append(psis[0])
                if rng.random() < .3:
                    tops.append(tops[0])
                record(pool, n, op, restr, tops, psis, energies(len(psis)), rng.choice(["H_build", "eigen_states"]), cut=cut)
            # many states, operators, energies
            for x in range(ctx.pick(6, 30)):
                n, op, restr = sp.rand_problem(rng, 4)
                ns, no, nw = [(rng.randint(9, 24), rng.randint(1, 2), 1), (rng.randint(1, 2), rng.randint(9, 18), 1), (1, 1, rng.randint(30, 120))][x % 3]
                psis = [p for p in (sp.rand_psi(rng, n, rng.randint(0, n), restr) for _ in range(ns)) if p]
                tops = [sp.transition(rng, n) for _ in range(no)]
                while psis and not clean(n, tops, psis, restr, 1e-14):
                    (psis if len(psis) > len(tops) else tops).pop()
                if not psis or not tops:
                    continue
                record(pool, n, op, restr, tops, psis, energies(len(psis)), rng.choice(["H_build", "eigen_states"]), cut=1e-14, nw=nw)
        finally:
            pool.close()
    ctx.shards(len(sizes), part)


def corrupt(r):
    c = copy.deepcopy(r)
    g = c["res"][0]["ok"]["g"]
    x = g[-1][-1][-1]
    x[1] = enc.fx(enc.unfx(x[1]) + 1e-5)
    yield "value", c
    if len(g) > 1 and abs(enc.unfx(g[0][0][0][0]) - enc.unfx(g[1][0][0][0])) > 1e-3:
        c = copy.deepcopy(r)
        g = c["res"][0]["ok"]["g"]
        g[0], g[1] = g[1], g[0]
        yield "swap", c
