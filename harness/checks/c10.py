"""C10: the Hamiltonian matrix is the operator, in every assembly mode."""
import copy

import enc
from checks.common import Spread, dagger_term, rand_herm, rand_op, rand_ps, rand_restr
from mpipool import Pool

MODES = ["dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI"]


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "MatModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = 2\nCONSTANT P = %d\nINVARIANT Complete\n" % (2 if q else 3), "workers": 3}],
        "streams": [{"name": "trace", "module": "C10Trace", "heap": "6g" if tier == "quick" else "14g"}],
    }


def column(n, op, ps):
    """The operator acting on one product state, for stores handed to the code (own implementation)."""
    out = {}
    for term, v in op.items():
        occ, sign = set(enc.bytes_occ(ps, n)), 1
        for i, act in reversed(term):
            if (act == "c") == (i in occ):
                break
            sign *= (-1) ** sum(1 for j in occ if j < i)
            occ = occ | {i} if act == "c" else occ - {i}
        else:
            k = enc.occ_bytes(occ, n)
            out[k] = out.get(k, 0) + v * sign
    return {k: v for k, v in out.items() if abs(v) ** 2 >= 1e-12}


def restricted(n, col, restr):
    if restr is None:
        return col
    return {k: v for k, v in col.items()
            if all(lo <= len(o & set(enc.bytes_occ(k, n))) <= hi for o, (lo, hi) in restr.items())}


def closure(n, op, restr, seeds, limit=60):
    basis = list(dict.fromkeys(seeds))
    for b in basis:
        if len(basis) > limit:
            return None
        for k in sorted(restricted(n, column(n, op, b), restr)):
            if k not in basis:
                basis.append(k)
    return basis


def full_one_body(rng, n):
    op = {((i, "c"), (i, "a")): rng.uniform(-3, 3) for i in range(n)}
    for i in range(n):
        for j in range(i):
            v = complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
            op[((i, "c"), (j, "a"))] = v
            op[((j, "c"), (i, "a"))] = v.conjugate()
    return op


def drive(ctx):
    rng = ctx.rng
    sizes = ctx.pick([1, 2, 3, 5], [1, 2, 3, 4, 5, 7, 8])

    def part(which):
        size = sizes[which]
        pool = Pool(size, ctx.seed)
        try:
            for _ in range(ctx.pick(24, 140)):
                n = rng.choice([2, 3, 4, 6, 9])
                herm = rng.random() < .5
                op = rand_herm(rng, n, rng.randint(1, 5), conserve=rng.random() < .7) if herm else rand_op(rng, n, rng.randint(1, 7))
                if rng.random() < .15:
                    op = {}
                if rng.random() < .3:
                    # weak terms too
                    x = {t: 10 ** rng.uniform(-4.5, 1) for t in op}
                    op = {t: v * min(x[t], x.get(dagger_term(t), 10)) for t, v in op.items()}
                ne = rng.randint(1, n - 1) if rng.random() < .6 else None
                basis = tuple(dict.fromkeys(rand_ps(rng, n, ne) for _ in range(rng.choice([1, 2, 3, 5, 8, 14]))))
                if rng.random() < .15:
                    m = Spread(rng, n)
                    n, op, basis = m.n, m.op(op), tuple(m.ps(b) for b in basis)
                for mode in MODES:
                    a = {"n": n, "op": op, "basis": basis, "mode": mode}
                    r = pool.run("jobs", "matrix", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6))
                    ctx.emit({"kind": "matrix", "n": n, "op": enc.op(op), "basis": [enc.bytes_occ(b, n) for b in basis],
                              "mode": mode, "size": size, "herm": herm, "status": r["status"], "res": r["res"], "err": ""})
            for _ in range(ctx.pick(1, 2)):     # a large basis
                n = 8
                op, basis = full_one_body(rng, n), [rand_ps(rng, n, 4) for _ in range(300)]
                basis = tuple(dict.fromkeys(basis))
                for mode in MODES:
                    r = pool.run("jobs", "matrix", {"n": n, "op": op, "basis": basis, "mode": mode}, mode="sync", seed=rng.randrange(10 ** 6))
                    ctx.emit({"kind": "matrix", "n": n, "op": enc.op(op), "basis": [enc.bytes_occ(b, n) for b in basis],
                              "mode": mode, "size": size, "herm": True, "status": r["status"], "res": r["res"], "err": ""})
            # a very large basis: more product states than 16 bits can count
            for pmode, mode in ([("serial", "sparse"), ("", "sparse_serial")] if size == 1 else
                                [("H_build", "sparse")] if size == 2 else [("", "sparse_MPI")] if size == 3 else []):
                n = 17
                perm, count = rng.sample(range(n), n), 65536 + rng.randint(2, 2000)
                (i, j), k, z = rng.sample(range(n), 2), rng.randrange(n), complex(rng.uniform(.5, 1), rng.uniform(-1, 1))
                op = {((i, "c"), (j, "a")): z, ((j, "c"), (i, "a")): z.conjugate(), ((k, "c"), (k, "a")): rng.uniform(1, 2)}
                edge = [c + d for c in (0, 32768, 65536, count - 2) for d in (-2, -1, 0, 1)]
                cols = sorted({c for c in edge if 0 <= c < count} | {rng.randrange(65536, count) for _ in range(12)} | {rng.randrange(count) for _ in range(25)}
                              | {rng.randrange(count - 65536) for _ in range(12)})
                a = {"n": n, "op": op, "perm": perm, "count": count, "pmode": pmode, "mode": mode, "cols": cols}
                r = pool.run("jobs", "matrix_large", a, mode="sync", seed=rng.randrange(10 ** 6))
                ctx.emit({"kind": "large", "n": n, "op": enc.op(op), "perm": perm, "count": count, "pmode": pmode, "mode": mode, "cols": cols,
                          "size": size, "status": r["status"], "res": r["res"], "err": ""})
            for trial in range(ctx.pick(24, 140)):
                n = rng.choice([2, 3, 4, 5])
                op = rand_herm(rng, n, rng.randint(1, 4), conserve=True)
                if trial % 24 == 0:
                    n = 8
                    op = full_one_body(rng, n)
                restr = rng.choice([None, rand_restr(rng, n, 1)])
                ne = rng.randint(1, n - 1)
                basis = closure(n, op, restr, [rand_ps(rng, n, ne) for _ in range(2)], 200)
                if basis is None:
                    continue
                if rng.random() < .5:
                    rng.shuffle(basis)
                cols = {b: restricted(n, column(n, op, b), restr) for b in basis}
                extra = rand_ps(rng, n, None)      # a column outside the active basis
                for pmode, local, mode in [("serial", False, "dense"), ("serial", False, "sparse"),
                                           ("H_build", False, "sparse"), ("H_build", True, "sparse")]:
                    if pmode == "serial":
                        per = [dict(cols) for _ in range(size)]
                    else:
                        per = [{} for _ in range(size)]
                        for b in basis:
                            per[rng.randrange(size)][b] = cols[b]
                    if extra not in cols:
                        per[0][extra] = restricted(n, column(n, op, extra), restr)
                    a = {"n": n, "basis": tuple(basis), "pmode": pmode, "local": local, "mode": mode}
                    r = pool.run("jobs", "matrix_from_dict", a, mode="sync", seed=rng.randrange(10 ** 6), per_rank=per)
                    ctx.emit({"kind": "from_dict", "n": n, "op": enc.op(op), "restr": enc.restr(restr),
                              "basis": [enc.bytes_occ(b, n) for b in basis], "pmode": pmode, "local": local, "mode": mode,
                              "size": size, "status": r["status"], "res": r["res"], "err": ""})
        finally:
            pool.close()
    ctx.shards(len(sizes), part)


def corrupt(r):
    if r["kind"] == "large":
        for k in (0, -1):
            c = copy.deepcopy(r)
            x = next(x for x in c["res"][-1]["ok"]["cols"][::1 if k == 0 else -1] if x[1])
            x[1][0][0] ^= 1
            yield "row", c
            c = copy.deepcopy(r)
            next(x for x in c["res"][-1]["ok"]["cols"][::1 if k == 0 else -1] if x[1])[1].pop()
            yield "lost", c
        return
    h = (lambda x: x["ok"]) if r["kind"] == "matrix" else (lambda x: x["ok"]["h"])
    k = len(r["res"]) - 1
    if h(r["res"][k])["e"]:
        c = copy.deepcopy(r)
        e = h(c["res"][k])["e"][0]
        e[2] = enc.fx(enc.unfx(e[2]) + 1e-3)
        yield "val", c
        if any(x[0] != x[1] for x in h(r["res"][k])["e"]):
            c = copy.deepcopy(r)
            e = next(x for x in h(c["res"][k])["e"] if x[0] != x[1])
            h(c["res"][k])["e"].remove(e)
            yield "miss", c
