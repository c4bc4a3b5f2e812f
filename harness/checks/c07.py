"""C07: basis expansion finds exactly the reachable active space."""
import copy
import itertools

import enc
from checks.common import Spread, rand_herm, rand_op, rand_ps, rand_restr


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "ExpandModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = 3\nINVARIANT IsClosure StoreRight NeverTooMuch\n", "workers": 4}],
        "gens": [{"name": "hist", "module": "MemoGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = 2\nCONSTANT Depth = %d\n" % (2 if q else 3)}],
        "streams": [{"name": "trace", "module": "C07Trace"}],
    }


def rand_problem(rng, big=False):
    n = rng.choice([2, 3, 4, 5, 6, 8, 9]) if not big else rng.choice([9, 10, 12, 17])
    nt = rng.randint(1, 5)
    if big:
        ne, op = rng.randint(1, 3), rand_herm(rng, n, nt + 3, conserve=True)
    elif rng.random() < .25:      # directed graphs: not Hermitian
        ne, op = None, rand_op(rng, n, nt)
        if n > 5:
            n_keep = 4
            op = {t: v for t, v in op.items() if all(i < n_keep for i, _ in t)}
            op = op or {((0, "c"), (1, "a")): 1}
    else:
        ne, op = rng.randint(1, n - 1), rand_herm(rng, n, nt, conserve=True)
    restr = rng.choice([None, None, {}, rand_restr(rng, n), rand_restr(rng, n, 1)])
    return n, ne, op, restr


MODES = ["serial", "H_build"]


def crowd(rng):
    """hundreds of seeds at once, most of them unknown and not all of the sector"""
    n = rng.choice([12, 13])
    every = [enc.occ_bytes(c, n) for c in itertools.combinations(range(n), n // 2)]
    a, b, c = rng.sample(range(n), 3)
    op = {((a, "c"), (b, "a")): .5, ((b, "c"), (a, "a")): .5, ((c, "c"), (c, "a")): -1.5}
    return n, op, [rng.sample(every, rng.randint(1, 40)), rng.sample(every, int(len(every) * rng.choice([.4, .5, .8])))]


def drive(ctx):
    from impurityModel.ed import finite

    rng = ctx.rng

    def run(n, op, restr, seed_lists, pmode="serial"):
        """One history of expansions that share the column store; one record per expansion."""
        if n < 20 and rng.random() < .12:
            m = Spread(rng, n)
            n, op, restr, seed_lists = m.n, m.op(op), m.restr(restr), [[m.ps(b) for b in x] for x in seed_lists]
        store = {}
        for seeds in seed_lists:
            seeds = tuple(dict.fromkeys(seeds))

            def go():
                o, s = copy.deepcopy(op), copy.deepcopy(restr)
                out = finite.expand_basis(n, store, o, seeds, s, pmode)
                fresh = finite.expand_basis(n, {}, o, seeds, s, *([] if pmode == "serial" else [pmode]))
                return {"out": [enc.bytes_occ(b, n) for b in out], "fresh": [enc.bytes_occ(b, n) for b in fresh],
                        "store": [{"s": enc.bytes_occ(k, n), "v": enc.state(v, n)} for k, v in store.items()],
                        "same": o == op and s == restr}
            r = ctx.case({"kind": "expand", "n": n, "pmode": pmode, "op": enc.op(op), "restr": enc.restr(restr),
                          "seeds": [enc.bytes_occ(b, n) for b in seeds], "stored_before": len(store)}, go)
            if r["err"]:
                return

    for s in ctx.scn["hist"]:
        n = 4
        emb = lambda o: enc.occ_bytes([2 * i for i in o] + ([1] if len(o) == 1 else []), n)  # noqa: E731
        op = rand_herm(rng, n, rng.randint(1, 4), conserve=True)
        run(n, op, rng.choice([None, rand_restr(rng, n)]), [[emb(o) for o in c["ps"]] for c in s["calls"]], rng.choice(MODES))
    for _ in range(ctx.pick(170, 2500)):
        n, ne, op, restr = rand_problem(rng)
        run(n, op, restr, [[rand_ps(rng, n, ne) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 3))]
                           for _ in range(rng.randint(1, 4))], rng.choice(MODES))
    for _ in range(ctx.pick(15, 250)):
        n, ne, op, restr = rand_problem(rng, big=True)
        run(n, op, restr, [[rand_ps(rng, n, ne) for _ in range(rng.randint(1, 2))] for _ in range(2)], rng.choice(MODES))
    # far apart: chains that need one application of the Hamiltonian per site
    for pmode in MODES:
        for _ in range(ctx.pick(1, 3)):
            n = rng.randint(66, ctx.pick(90, 140))
            op, order = {}, rng.sample(range(n), n)
            for i, j in zip(order, order[1:]):
                v = complex(rng.uniform(.2, 1), rng.uniform(-1, 1))
                op[((i, "c"), (j, "a"))], op[((j, "c"), (i, "a"))] = v, v.conjugate()
            ends = [enc.occ_bytes([order[0]], n), enc.occ_bytes([order[-1]], n)]
            run(n, op, rng.choice([None, {frozenset(range(n)): (0, 1)}]), [ends[:1], ends[1:]], pmode)
    # many states at a time
    for pmode in MODES:
        for _ in range(ctx.pick(1, 4)):
            n, op, lists = crowd(rng)
            run(n, op, rng.choice([None, rand_restr(rng, n, 1)]), lists, pmode)


def corrupt(r):
    if len(r["out"]) > len(r["seeds"]):
        c = copy.deepcopy(r)
        c["out"].pop()
        c["fresh"].pop()
        yield "drop", c
        c = copy.deepcopy(r)
        c["out"].append(c["out"][-1])
        c["fresh"] = c["out"]
        yield "twice", c
    if r["store"]:
        c = copy.deepcopy(r)
        for m in c["store"]:
            if m["v"]:
                m["v"][0]["re"] = enc.fx(enc.unfx(m["v"][0]["re"]) + 1e-2)
                yield "col", c
                break
