"""C03: operator application is the exact second-quantized action."""
import copy

import enc
from checks.common import rand_amp, rand_op, rand_restr, rand_state, rand_term


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "OpModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANT Final Adjoint Linear\n" % (2 if q else 3), "workers": 4}],
        "gens": [{"name": "terms", "module": "OpGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = %d\nCONSTANT MaxLen = %d\n" %
                  ((2, 4) if q else (3, 4))}],
        "streams": [{"name": "trace", "module": "C03Trace"}],
    }


def drive(ctx):
    from impurityModel.ed import finite

    rng = ctx.rng

    def apply(n, op, psi, restr=None, cut=None, memo=False):
        def go():
            o, p, r = copy.deepcopy(op), dict(psi), copy.deepcopy(restr)
            kw = {} if cut is None else {"slaterWeightMin": cut}
            if memo:
                kw["opResult"] = {}
            out = finite.applyOp(n, o, p, restrictions=r, **kw)
            return {"out": enc.state(out, n), "opsame": o == op and r == restr, "psisame": p == psi and out is not p}
        ctx.case({"kind": "apply", "n": n, "op": enc.op(op), "psi": enc.state(psi, n), "restr": enc.restr(restr),
                  "has_restr": restr is not None, "cut": enc.fx(1e-12 if cut is None else cut), "memo": memo}, go)

    def linear(n, op, restr):
        a, b = rand_state(rng, n, 3), rand_state(rng, n, 3)
        x, y = rand_amp(rng, "c"), rand_amp(rng, "c")
        both = {k: x * a.get(k, 0) + y * b.get(k, 0) for k in set(a) | set(b)}
        ctx.case({"kind": "linear", "n": n, "x": enc.cx(x), "y": enc.cx(y)},
                 lambda: {"out": enc.state(finite.applyOp(n, op, both, restrictions=restr, slaterWeightMin=0), n),
                          "o1": enc.state(finite.applyOp(n, op, a, restrictions=restr, slaterWeightMin=0), n),
                          "o2": enc.state(finite.applyOp(n, op, b, restrictions=restr, slaterWeightMin=0), n)})

    for s in ctx.scn["terms"]:
        psi = {enc.occ_bytes(s["occ"], s["n"]): 1}
        op = {tuple((i, x) for i, x in s["term"]): 2.0}
        apply(s["n"], op, psi, None if rng.random() < .5 else rand_restr(rng, s["n"]), memo=rng.random() < .3)
    for _ in range(ctx.pick(900, 12000)):
        n = rng.choice([1, 2, 3, 4, 5, 8, 9, 12, 16, 17, 20, 33, 64, 70])
        op = rand_op(rng, n, rng.randint(1, 8), conserve=rng.random() < .3)
        psi = rand_state(rng, n, rng.randint(0, 6), ne=None if rng.random() < .5 else rng.randint(0, n))
        restr = rng.choice([None, None, {}, rand_restr(rng, n), rand_restr(rng, n)])
        memo = rng.random() < .35
        apply(n, op, psi, restr, None, memo)
        # interference: few orbitals, many terms, amplitudes that cancel
    for _ in range(ctx.pick(500, 6000)):
        n = rng.choice([2, 3])
        op = rand_op(rng, n, rng.randint(3, 10), kind="i", conserve=rng.random() < .5)
        psi = rand_state(rng, n, rng.randint(2, 6), kind="i")
        apply(n, op, psi, rng.choice([None, rand_restr(rng, n)]), None, rng.random() < .5)
    # cutoffs: amplitudes on both sides of the cutoff, never within one part in 10^6 of it
    for _ in range(ctx.pick(400, 5000)):
        n = rng.choice([3, 4, 6, 9])
        cut = rng.choice([0.0, 1e-6, 1e-3, 0.04, 0.25, 1.0])
        op = rand_op(rng, n, rng.randint(1, 6), kind=rng.choice("fc"))
        psi = {k: v * rng.choice([1, 0.3, 0.05, 1e-3]) for k, v in rand_state(rng, n, rng.randint(1, 6)).items()}
        apply(n, op, psi, rng.choice([None, rand_restr(rng, n)]), cut)
    # strengths and amplitudes of very different sizes, long terms, many product states, many restrictions
    for _ in range(ctx.pick(250, 3000)):
        n = rng.choice([3, 4, 6, 9, 13])
        op = {t: v * 10 ** rng.uniform(-5, 2) for t, v in rand_op(rng, n, rng.randint(1, 5), conserve=rng.random() < .5).items()}
        if rng.random() < .4:
            op[rand_term(rng, n, rng.choice([6, 7, 8, 12]))] = rand_amp(rng)
        if rng.random() < .3:
            i = rng.sample(range(n), 3)
            op[tuple((j, "c") for j in i) + tuple((j, "a") for j in rng.sample(i, 3))] = rand_amp(rng)
        psi = {k: v * 10 ** rng.choice([0, 0, rng.uniform(-5, 1)]) for k, v in rand_state(rng, n, rng.choice([1, 3, 8])).items()}
        apply(n, op, psi, rng.choice([None, {}, rand_restr(rng, n), rand_restr(rng, n, 6)]), rng.choice([None, None, 0.0]), rng.random() < .4)
    for _ in range(ctx.pick(6, 60)):
        n = rng.choice([9, 12])
        apply(n, rand_op(rng, n, 12, conserve=rng.random() < .7), rand_state(rng, n, rng.choice([120, 300])), rng.choice([None, rand_restr(rng, n)]), None, rng.random() < .5)
    for _ in range(ctx.pick(6, 60)):      # hundreds of terms
        n = rng.choice([4, 6, 9])
        apply(n, rand_op(rng, n, rng.choice([100, 250, 400]), conserve=rng.random() < .7), rand_state(rng, n, rng.choice([1, 3, 6])),
              rng.choice([None, rand_restr(rng, n)]), None, rng.random() < .4)
    for _ in range(ctx.pick(80, 800)):
        n = rng.choice([3, 5, 9])
        linear(n, rand_op(rng, n, 5), rng.choice([None, rand_restr(rng, n)]))


def corrupt(r):
    for k in ("opsame", "psisame"):
        if k in r:
            c = copy.deepcopy(r)
            c[k] = False
            yield k, c
    if r.get("out"):
        c = copy.deepcopy(r)
        c["out"][0]["re"] = enc.fx(enc.unfx(c["out"][0]["re"]) + 1e-5)
        yield "amp", c
