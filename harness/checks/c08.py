"""C08: distributed basis and Hamiltonian equal the serial ones."""
import copy

import enc
from checks.c07 import crowd, rand_problem
from checks.c10 import closure, column, restricted
from checks.common import Spread, rand_ps, rand_restr
from mpipool import Pool

INV = "INVARIANT NoDeadlock SameBasis OneOwner NothingLeft\n"


def spec(tier):
    q = tier == "quick"
    c = "INIT Init\nNEXT Next\nCONSTANT K = %d\nCONSTANT P = %d\nCONSTANT Eager = %s\n" + INV
    shapes = [(2, 2, "TRUE"), (2, 3, "FALSE")] if q else [(3, 2, "TRUE"), (3, 2, "FALSE"), (2, 3, "TRUE"), (2, 3, "FALSE"), (2, 4, "FALSE")]
    return {
        "models": [{"module": "DistModel", "cfg": c % s, "workers": 2, "heap": "6g"} for s in shapes],
        "streams": [{"name": "trace", "module": "C08Trace"}],
    }


def drive(ctx):
    rng = ctx.rng
    sizes = ctx.pick([1, 2, 3, 4, 6], [1, 2, 3, 4, 5, 6, 8, 11])

    def part(which):
        size = sizes[which]
        pool = Pool(size, ctx.seed + 1)
        try:
            for _ in range(ctx.pick(26, 300)):
                n, ne, op, restr = rand_problem(rng, big=rng.random() < .1)
                hist = [tuple(dict.fromkeys(rand_ps(rng, n, ne) for _ in range(rng.randint(1, 3)))) for _ in range(rng.randint(1, 3))]
                if any(closure(n, op, restr, s) is None for s in hist):
                    continue
                if rng.random() < .12:
                    m = Spread(rng, n)
                    n, op, restr, hist, ne = m.n, m.op(op), m.restr(restr), [tuple(m.ps(b) for b in s) for s in hist], 2
                # columns already known before the first call, each at one process, some outside the active space
                per = [{} for _ in range(size)]
                if rng.random() < .6:
                    pool_states = (closure(n, op, restr, hist[-1]) or []) + [rand_ps(rng, n, ne) for _ in range(3)]
                    for b in sorted(set(pool_states)):
                        if rng.random() < .4:
                            per[rng.randrange(size)][b] = restricted(n, column(n, op, b), restr)
                a = {"n": n, "op": op, "restr": restr, "seeds": hist}
                r = pool.run("jobs", "expand", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6), per_rank=per)
                ctx.emit({"kind": "expand", "n": n, "op": enc.op(op), "restr": enc.restr(restr), "size": size,
                          "seeds": [[enc.bytes_occ(b, n) for b in s] for s in hist],
                          "status": r["status"], "res": r["res"], "err": ""})
                if rng.random() < .5:      # the same problem with other energies, straight afterwards
                    a = dict(a, op={t: v * rng.choice([-1.5, .5, 2]) for t, v in op.items()}, seeds=hist[-1:])
                    r = pool.run("jobs", "expand", a, mode="sync", seed=rng.randrange(10 ** 6), per_rank=[{} for _ in range(size)])
                    ctx.emit({"kind": "expand", "n": n, "op": enc.op(a["op"]), "restr": enc.restr(restr), "size": size,
                              "seeds": [[enc.bytes_occ(b, n) for b in hist[-1]]],
                              "status": r["status"], "res": r["res"], "err": ""})
                local = rng.random() < .5
                a = {"n": n, "op": op, "restr": restr, "seeds": hist[0], "local": local}
                r = pool.run("jobs", "expand_both", a, mode="sync", seed=rng.randrange(10 ** 6), per_rank=[{} for _ in range(size)])
                ctx.emit({"kind": "both", "n": n, "op": enc.op(op), "restr": enc.restr(restr), "size": size, "local": local,
                          "seeds": [[enc.bytes_occ(b, n) for b in hist[0]]],
                          "status": r["status"], "res": r["res"], "err": ""})
            if size in ctx.pick([1, 3], [1, 2, 3, 6]):
                n, op, lists = crowd(rng)
                restr = rng.choice([None, rand_restr(rng, n, 1)])
                for how, a in [("expand", {"n": n, "op": op, "restr": restr, "seeds": lists}),
                               ("both", {"n": n, "op": op, "restr": restr, "seeds": lists[1], "local": False})]:
                    per = [{} for _ in range(size)]
                    for b in lists[1][:100]:
                        per[rng.randrange(size)][b] = restricted(n, column(n, op, b), restr)
                    r = pool.run("jobs", "expand" if how == "expand" else "expand_both", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6), per_rank=per)
                    ctx.emit({"kind": how, "n": n, "op": enc.op(op), "restr": enc.restr(restr), "size": size, "local": False,
                              "seeds": [[enc.bytes_occ(b, n) for b in s] for s in (lists if how == "expand" else lists[1:])],
                              "status": r["status"], "res": r["res"], "err": ""})
        finally:
            pool.close()
    ctx.shards(len(sizes), part)


def corrupt(r):
    if r["kind"] != "expand":
        return
    k = len(r["res"]) - 1
    x = r["res"][k]["ok"][-1]
    c = copy.deepcopy(r)
    y = c["res"][k]["ok"][-1]
    if len(x["basis"]) > len(r["seeds"][-1]) + 1 and len(r["res"]) > 1:
        y["basis"][-1], y["basis"][-2] = y["basis"][-2], y["basis"][-1]
        yield "order", c
    if x["store"]:
        c = copy.deepcopy(r)
        m = [s for s in x["store"] if s["s"] in x["basis"]]
        if m:
            c["res"][k]["ok"][-1]["store"].remove(m[0])
            yield "owner", c
            if len(r["res"]) > 1:
                c = copy.deepcopy(r)
                c["res"][0]["ok"][-1]["store"].append(m[0])
                yield "owner2", c
