"""C04: reusing memoised operator results never changes an answer."""
import copy

import enc
from checks.common import Spread, rand_amp, rand_op, rand_ps, rand_restr


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "MemoModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = 2\nCONSTANT MaxCalls = %d\nINVARIANT Transparent MemoRight\n" % (3 if q else 5), "workers": 3}],
        "gens": [{"name": "hist", "module": "MemoGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = %d\nCONSTANT Depth = %d\n" %
                  ((2, 2) if q else (2, 3))}],
        "streams": [{"name": "trace", "module": "C04Trace"}],
    }


def drive(ctx):
    from impurityModel.ed import finite

    rng = ctx.rng

    def history(n, op, restr, calls, cut=None):
        if n < 20 and rng.random() < .1:
            m = Spread(rng, n)
            n, op, restr, calls = m.n, m.op(op), m.restr(restr), [(m.state(p), edit) for p, edit in calls]

        def go():
            memo, out = {}, []
            for psi, edit in calls:
                p = dict(psi)
                kw = {} if cut is None else {"slaterWeightMin": cut}
                res = finite.applyOp(n, op, p, restrictions=restr, opResult=memo, **kw)
                out.append({"psi": enc.state(psi, n), "out": enc.state(res, n), "cut": enc.fx(1e-12 if cut is None else cut),
                            "same": p == psi,
                            "memo": [{"s": enc.bytes_occ(k, n), "v": enc.state(v, n)} for k, v in memo.items()]})
                if edit:      # the caller owns the returned state
                    for k in list(res):
                        res[k] = 7.5
                    res[enc.occ_bytes([0], n)] = 3
                    for k in list(p):
                        p[k] = -9
            return {"calls": out}
        ctx.case({"kind": "memo", "n": n, "op": enc.op(op), "restr": enc.restr(restr)}, go)

    for s in ctx.scn["hist"]:
        n = s["n"]
        op = rand_op(rng, n, rng.randint(2, 6), kind=rng.choice("ic"), conserve=rng.random() < .5)
        restr = rng.choice([None, rand_restr(rng, n)])
        history(n, op, restr, [({enc.occ_bytes(o, n): rand_amp(rng) for o in c["ps"]}, c["edit"]) for c in s["calls"]])
    for _ in range(ctx.pick(350, 5000)):
        n = rng.choice([2, 3, 4, 6, 9, 17])
        ne = rng.randint(1, n - 1) if n > 2 and rng.random() < .6 else None
        pool = [rand_ps(rng, n, ne) for _ in range(rng.randint(2, 6))]
        op = rand_op(rng, n, rng.randint(2, 12), kind=rng.choice(["i", "c", None]), conserve=rng.random() < .6)
        restr = rng.choice([None, {}, rand_restr(rng, n), rand_restr(rng, n, 1)])
        calls = []
        for _ in range(rng.randint(2, 6)):
            ps = rng.sample(pool, rng.randint(0, len(pool)))
            calls.append(({p: rand_amp(rng) for p in ps}, rng.random() < .5))
        history(n, op, restr, calls)
    # many states, memos that grow large, long histories
    for _ in range(ctx.pick(5, 60)):
        n = rng.choice([9, 10, 12])
        op = rand_op(rng, n, rng.randint(2, 6), conserve=True)
        pool = [rand_ps(rng, n, n // 2) for _ in range(120)]
        history(n, op, rng.choice([None, rand_restr(rng, n, 1)]),
                [({p: rand_amp(rng) for p in rng.sample(pool, rng.randint(0, 60))}, rng.random() < .5) for _ in range(rng.choice([3, 9]))])
    # strengths and amplitudes of very different sizes
    for _ in range(ctx.pick(60, 800)):
        n = rng.choice([3, 4, 6])
        pool = [rand_ps(rng, n) for _ in range(4)]
        op = {t: v * 10 ** rng.uniform(-4, 1) for t, v in rand_op(rng, n, 6).items()}
        history(n, op, rng.choice([None, rand_restr(rng, n)]),
                [({p: rand_amp(rng) * 10 ** rng.uniform(-4, 1) for p in rng.sample(pool, rng.randint(1, len(pool)))}, rng.random() < .5) for _ in range(4)],
                rng.choice([None, 1e-14, 0.]))
    # weak amplitudes under strong operators: each product state is remembered however little of it is asked about
    for _ in range(ctx.pick(80, 1000)):
        n = rng.choice([3, 4, 9])
        pool = [rand_ps(rng, n) for _ in range(4)]
        op = {t: v * 10 ** rng.uniform(0, 4) for t, v in rand_op(rng, n, 5).items()}
        history(n, op, rng.choice([None, {}, rand_restr(rng, n)]),
                [({p: rand_amp(rng) * 10 ** rng.choice([0, rng.uniform(-9, -2), -12]) for p in rng.sample(pool, rng.randint(1, len(pool)))}, rng.random() < .5) for _ in range(4)],
                rng.choice([None, None, 1e-6, 1e-3]))
    # small strengths and larger cutoffs
    for _ in range(ctx.pick(80, 1000)):
        n = rng.choice([3, 4])
        pool = [rand_ps(rng, n) for _ in range(4)]
        op = {t: v * rng.choice([1, 0.1, 0.01]) for t, v in rand_op(rng, n, 6).items()}
        cut = rng.choice([1e-6, 1e-4, 1e-3])
        history(n, op, rng.choice([None, rand_restr(rng, n)]),
                [({p: rand_amp(rng) for p in rng.sample(pool, rng.randint(1, len(pool)))}, True) for _ in range(4)], cut)


def corrupt(r):
    for k in (0, len(r["calls"]) - 1):
        if r["calls"][k]["out"]:
            c = copy.deepcopy(r)
            c["calls"][k]["out"][0]["re"] = enc.fx(enc.unfx(c["calls"][k]["out"][0]["re"]) + 0.5)
            yield "amp", c
        if r["calls"][k]["memo"]:
            c = copy.deepcopy(r)
            c["calls"][k]["memo"].pop()
            if len({str(m["s"]) for m in c["calls"][k]["memo"]} ) < len(r["calls"][k]["memo"]):
                yield "memo", c
