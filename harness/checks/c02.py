"""C02: adding and removing electrons obeys Fermi statistics in every representation."""
import copy

import enc
from checks.c01 import FORMS, fmt, make
from checks.common import rand_state


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "FockModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = %d\nCONSTANT MaxSteps = %d\n"
                    "INVARIANT TypeOK TermAgrees Reversible CAR\n" % ((4, 4) if q else (6, 5)), "workers": 4}],
        "gens": [{"name": "steps", "module": "FockGen", "cfg": "INIT GInit\nNEXT GNext\nCONSTANT N = %d\nCONSTANT MaxSteps = 0\nCONSTANT Depth = %d\n" %
                  ((3, 3) if q else (4, 4))}],
        "streams": [{"name": "trace", "module": "C02Trace"}],
    }


def step(create, remove, form, act, i, v, n):
    m = create if act == "c" else remove
    if form == "tuple":
        return m.utuple(i, v)
    if form == "int":
        return m.uint(n, i, v)
    if form == "str":
        return m.ustr(i, v)
    if form == "bytes":
        return m.ubytes(n, i, v)
    w = v.copy()
    s = m.ubitarray(i, w)
    return w, s


def drive(ctx):
    from impurityModel.ed import create, finite, remove

    def history(n, occ, steps):
        def go():
            runs = {}
            for form in FORMS:
                cur, out = make(form, n, occ), []
                for act, i in steps:
                    before = copy.copy(cur)
                    new, sign = step(create, remove, form, act, i, cur, n)
                    t, val = fmt(new)
                    out.append({"act": act, "i": i, "sign": int(sign), "type": t, "val": val, "same": bool(before == cur)})
                    if sign != 0:
                        cur = new
                runs[form] = out
            return {"runs": runs}
        ctx.case({"kind": "history", "n": n, "occ": sorted(occ)}, go)

    def superpos(n, psi, act, i):
        def go():
            before = dict(psi)
            out = (finite.c if act == "c" else finite.a)(n, i, psi)
            return {"out": enc.state(out, n), "same": before == psi}
        ctx.case({"kind": "superposition", "n": n, "psi": enc.state(psi, n), "act": act, "i": i}, go)

    def car(n, psi, acts, i, j):
        f = {"c": finite.c, "a": finite.a}

        def go():
            x = f[acts[0]](n, i, f[acts[1]](n, j, psi))
            y = f[acts[1]](n, j, f[acts[0]](n, i, psi))
            return {"out": enc.state(finite.add(x, y), n)}
        ctx.case({"kind": "car", "n": n, "psi": enc.state(psi, n), "acts": list(acts), "i": i, "j": j}, go)

    for s in ctx.scn["steps"]:
        history(s["n"], s["occ"], s["steps"])
    rng = ctx.rng
    for n in [1, 2, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 25, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 160, 255, 256, 257, 316, 513] + [rng.randint(3, 330) for _ in range(6)]:
        for _ in range(ctx.pick(8, 120)):
            p = rng.choice([0.05, 0.3, 0.5, 0.8, 0.95])
            occ = [i for i in range(n) if rng.random() < p]
            edge = [0, n - 1, n // 2, min(n - 1, 7), min(n - 1, 8)] + ([min(n - 1, 63), min(n - 1, 64)] if n > 60 else [])
            steps = [[rng.choice("ca"), rng.choice(edge) if rng.random() < .4 else rng.randrange(n)] for _ in range(8)]
            history(n, occ, steps)
        # few electrons, few holes
        for few in range(ctx.pick(5, 20)):
            some = rng.sample(range(n), min(n, few % 5))
            full = bool(few % 2)
            occ = [i for i in range(n) if (i in some) != full]
            steps = []
            for i in rng.sample(some, len(some)) + [rng.randrange(n)] + some:
                steps.append(["c" if full else "a", i])
            steps += [["a" if full else "c", i] for i in some]
            history(n, occ, steps)
    # every orbital of a wide state, one after the other
    for n in ctx.pick([67, 131, 300], [65, 67, 128, 129, 131, 200, 256, 257, 300, 513]):
        for p in ctx.pick([0.5], [0, 0.5, 1]):
            cur = {i for i in range(n) if rng.random() < p}
            todo = rng.sample(range(n), n)
            while todo:
                occ, steps = sorted(cur), []
                for i in todo[:20]:
                    steps.append(["a" if i in cur else "c", i])
                    cur ^= {i}
                history(n, occ, steps)
                todo = todo[20:]
    for _ in range(ctx.pick(250, 4000)):
        n = rng.choice([2, 3, 5, 8, 9, 16, 17, 33, 65, 65, 130, 316])
        psi = rand_state(rng, n, rng.randint(0, 6))
        if psi and rng.random() < .3:      # a component far below the others is still a component
            b = rng.choice(list(psi))
            psi[b] *= 10 ** -rng.uniform(4, 9)
        superpos(n, psi, rng.choice("ca"), rng.randrange(n))
        car(n, psi, rng.choice(["ca", "ac", "cc", "aa"]), rng.randrange(n), rng.randrange(n))
        i = rng.randrange(n)
        car(n, psi, rng.choice(["ca", "ac"]), i, i)


def corrupt(r):
    if r["kind"] == "history":
        for form in r["runs"]:
            c = copy.deepcopy(r)
            c["runs"][form][-1]["sign"] = {1: -1, -1: 1, 0: 1}[c["runs"][form][-1]["sign"]]
            yield "sign", c
    elif r.get("out"):
        c = copy.deepcopy(r)
        c["out"][0]["re"] = enc.fx(enc.unfx(c["out"][0]["re"]) + 1e-3)
        yield "amp", c
