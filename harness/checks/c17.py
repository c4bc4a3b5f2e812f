"""C17: operators and states form a consistent algebra."""
import copy

import enc
from checks.common import rand_amp, rand_herm, rand_op, rand_state


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "OpModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANT Final Adjoint Linear\n" % (2 if q else 3), "workers": 4}],
        "gens": [{"name": "terms", "module": "OpGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = 2\nCONSTANT MaxLen = %d\n" % (3 if q else 4)}],
        "streams": [{"name": "trace", "module": "C17Trace"}],
    }


def drive(ctx):
    from impurityModel.ed import finite

    rng = ctx.rng

    def dagger(n, op):
        z = rand_amp(rng, "c")

        def go():
            o = copy.deepcopy(op)
            d = finite.daggerOp(o)
            return {"out": enc.op(d), "twice": enc.op(finite.daggerOp(d)), "same": o == op,
                    "scaled": enc.op(finite.daggerOp({t: z * v for t, v in op.items()}))}
        ctx.case({"kind": "dagger", "n": n, "op": enc.op(op), "z": enc.cx(z)}, go)

    def sandwich(n, op):
        a, b = rand_state(rng, n, 5, kind="c"), rand_state(rng, n, 5, kind="c")
        ctx.case({"kind": "sandwich", "n": n, "op": enc.op(op), "a": enc.state(a, n), "b": enc.state(b, n)},
                 lambda: {"lhs": enc.cx(finite.inner(a, finite.applyOp(n, op, b))),
                          "rhs": enc.cx(finite.inner(b, finite.applyOp(n, finite.daggerOp(op), a)))})

    def opsum(n, ops):
        def go():
            o = copy.deepcopy(ops)
            s = finite.addOps(o)
            return {"out": enc.op(s), "same": o == ops}
        ctx.case({"kind": "sum", "n": n, "ops": [enc.op(o) for o in ops]}, go)

    def states(n, a, b, z):
        def go():
            x, y = dict(a), dict(b)
            add, addz = finite.add(x, y), finite.add(x, y, z)
            r = {"inner": enc.cx(finite.inner(x, y)), "innerba": enc.cx(finite.inner(y, x)), "norm2": enc.fx(finite.norm2(x)),
                 "add": enc.state(add, n), "addz": enc.state(addz, n)}
            add2 = finite.add(x, {})
            for d in (add, addz, add2):
                d[enc.occ_bytes([0], n)] = 5
            r["fresh"] = x == a and y == b
            t, u, v = dict(a), dict(a), dict(a)
            finite.addToFirst(t, y)
            finite.addToFirst(u, y, z)
            finite.addToFirst(v, v, z)
            r.update({"addto": enc.state(t, n), "addtoz": enc.state(u, n), "self": enc.state(v, n), "same": y == b})
            return r
        ctx.case({"kind": "states", "n": n, "a": enc.state(a, n), "b": enc.state(b, n), "z": enc.cx(z)}, go)

    def guard(n, op, herm):
        def go():
            try:
                finite.assert_hermitian(op)
                return {"accepted": True}
            except AssertionError:
                return {"accepted": False}
        ctx.case({"kind": "guard", "n": n, "op": enc.op(op), "hermitian": herm}, go)

    def any_guard(n, op):
        def go():
            try:
                finite.assert_hermitian(op)
                return {"accepted": True}
            except AssertionError:
                return {"accepted": False}
        ctx.case({"kind": "anyguard", "n": n, "op": enc.op(op)}, go)

    def scale(d):
        """sometimes entries of very different sizes"""
        return d if rng.random() < .6 else {k: v * 10 ** rng.uniform(-7, 1) for k, v in d.items()}

    for s in ctx.scn["terms"]:
        dagger(s["n"], {tuple((i, x) for i, x in s["term"]): rand_amp(rng, "c")})
    for _ in range(ctx.pick(200, 3000)):
        n = rng.choice([2, 3, 4, 5])
        op = scale(rand_op(rng, n, rng.randint(0, 6)))
        dagger(n, op)
        sandwich(n, rand_op(rng, n, 5, kind="c"))
        ops = [scale(rand_op(rng, n, rng.randint(0, 4))) for _ in range(rng.randint(0, 4))]
        if len(ops) > 1 and ops[0]:      # shared terms, cancellation, explicit zeros
            t = rng.choice(list(ops[0]))
            ops[1][t] = rng.choice([-ops[0][t], rand_amp(rng), 0])
        opsum(n, ops)
    for _ in range(ctx.pick(300, 4000)):
        n = rng.choice([2, 3, 9, 17])
        a, b = rand_state(rng, n, rng.randint(0, 5)), rand_state(rng, n, rng.randint(0, 5))
        for k in list(a)[: rng.randint(0, 3)]:
            b[k] = rand_amp(rng)
        states(n, scale(a), scale(b), rand_amp(rng) * rng.choice([1, 1, 0, 1e-5, -1 if not a else 1]))
    for _ in range(ctx.pick(6, 60)):     # many product states, many terms
        n = rng.choice([9, 12, 17])
        k = rng.randint(120, 400)
        a, b = rand_state(rng, n, k), rand_state(rng, n, rng.choice([0, 3, k]))
        for s in list(a)[: len(b) // 2] + list(a)[len(a) - len(b) // 4:]:
            b[s] = rand_amp(rng)
        b = dict(rng.sample(sorted(b.items()), len(b)))
        states(n, a, b, rand_amp(rng))
        opsum(4, [rand_op(rng, 4, rng.randint(30, 80)) for _ in range(rng.choice([1, 2, 12]))])
        dagger(4, rand_op(rng, 4, rng.randint(60, 150)))
    for _ in range(ctx.pick(200, 3000)):
        n = rng.choice([2, 3, 4])
        h = {}      # one-body terms and the pair term only: equal as operators iff equal term by term
        for i in range(n):
            for j in range(i, n):
                if rng.random() < .6:
                    v = rng.uniform(-2, 2) if i == j else rand_amp(rng)
                    h[((i, "c"), (j, "a"))] = v
                    h[((j, "c"), (i, "a"))] = v.conjugate() if isinstance(v, complex) else v
        if not h:
            continue
        guard(n, h, True)
        t = rng.choice(list(h))
        jig = dict(h)
        jig[t] = jig[t] + rng.choice([1e-14, -3e-15, 1e-15j])
        guard(n, jig, True)
        bad = dict(h)
        how = rng.randrange(3)
        if how == 0:
            bad[t] = bad[t] + rng.choice([1e-3, 1, 0.5, 10 ** -rng.uniform(3, 6.5)]) * (1j if t[0][0] == t[1][0] else rng.choice([1, 1j]))
        elif how == 1:
            bad[t] = bad[t] + 1j * rng.choice([1e-4, 2, -10 ** -rng.uniform(3, 6.5)])
        else:
            t = rng.choice(list(h))
            if t[0][0] == t[1][0]:
                bad[t] = bad[t] + 1j
            else:
                bad.pop(t)
        guard(n, bad, False)
    for _ in range(ctx.pick(60, 600)):
        n = 4
        guard(n, rand_herm(rng, n, 3, kind=rng.choice("ic")), True)
        h = scale(rand_herm(rng, n, 4, kind="c"))
        t = rng.choice(list(h))
        h[t] += 10 ** -rng.uniform(0, 6.5) * rng.choice([1, -1, 1j, -1j, .6 + .8j])
        any_guard(n, h)


def corrupt(r):
    c = copy.deepcopy(r)
    if r["kind"] == "guard":
        c["accepted"] = not r["accepted"]
        yield "accepted", c
    elif r["kind"] == "sandwich":
        for k in ("lhs", "rhs"):
            c = copy.deepcopy(r)
            c[k][0] = enc.fx(enc.unfx(c[k][0]) + 1e-6)
            yield k, c
    elif r["kind"] == "states":
        for k in ("inner", "innerba"):
            c = copy.deepcopy(r)
            c[k][1] = enc.fx(enc.unfx(c[k][1]) + 1e-6)
            yield k, c
        for k in ("add", "addz", "addto", "addtoz", "self"):
            if r[k]:
                c = copy.deepcopy(r)
                c[k][0]["im"] = enc.fx(enc.unfx(c[k][0]["im"]) + 1e-6)
                yield k, c
