"""C16: interaction and one-body model terms have the right form and symmetries."""
import contextlib
import copy
import io

import enc


def spec(tier):
    q = tier == "quick"
    m = "INIT Init\nNEXT Next\nCONSTANT Which = \"%s\"\nINVARIANT Right\n"
    return {
        "models": [{"module": "GauntModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = %d\nINVARIANT Right\n" % (2 if q else 3), "workers": 2}]
        + [{"module": "CoulombModel", "cfg": m % w, "workers": 2} for w in (["p", "d", "pd"] if q else ["p", "d", "pd", "f"])],
        "gens": [{"name": "block", "module": "CoulombGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = 2\n"}],
        "streams": [{"name": "trace", "module": "C16Trace"}],
    }


def lop(op):
    out = []
    for term, v in op.items():
        re, im = enc.cx(v)
        out.append({"t": [[[int(x) for x in e[0]], e[1]] for e in term], "re": re, "im": im})
    return out


def drive(ctx):
    from impurityModel.ed import finite

    rng = ctx.rng

    def integral():
        return rng.choice([0, rng.uniform(-3, 12), 10 ** -rng.uniform(2, 6), rng.randint(-2, 9)])

    def uop(blocks, fn):
        shells = sorted({l for b, _ in blocks for l in b})
        ctx.case({"kind": "uop", "shells": shells, "blocks": [{"l": list(b), "R": [enc.fx(x) for x in R]} for b, R in blocks]}, lambda: {"op": lop(fn())})

    scn = ctx.scn["block"]
    for s in scn if not ctx.quick else rng.sample(scn, 60):
        R = [0] * s["k"] + [rng.choice([1, 1.0, -2.5])]
        uop([(s["l"], R)], lambda: finite.getUop(*s["l"], R))
    for l in ctx.pick([0, 1, 2], [0, 1, 2, 3]):
        for _ in range(ctx.pick(3, 20)):
            R = [integral() for _ in range(rng.choice([2 * l + 1, 2 * l + 1, 2 * l + 2, max(1, 2 * l - 1)]))]
            uop([((l, l, l, l), R)], lambda: finite.getUop(l, l, l, l, tuple(R)))
    if ctx.quick:
        R = [integral() for _ in range(6)] + [rng.uniform(1, 5)]
        uop([((3, 3, 3, 3), R)], lambda: finite.getUop(3, 3, 3, 3, R))
    for _ in range(ctx.pick(25, 300)):
        l4 = rng.choice([[0, 0, 0, 0], [1, 1, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 2, 2, 1], [1, 2, 1, 2], [2, 2, 2, 2], [1, 3, 1, 1], [rng.randint(0, 2) for _ in range(4)]])
        R = [integral() for _ in range(rng.choice([l4[0] + l4[3] + 1, 2, 3]))]
        ctx.case({"kind": "nospin", "l": l4, "R": [enc.fx(x) for x in R]},
                 lambda: {"op": [[[[int(y) for y in x] for x in k], enc.fx(v)] for k, v in finite.getNoSpinUop(*l4, R).items()]})
    for _ in range(ctx.pick(4, 40)):
        F = [[integral() for _ in range(n)] for n in (5, 3, 3, 4)]
        uop([((2, 2, 2, 2), F[0]), ((1, 1, 1, 1), F[1]), ((1, 2, 2, 1), F[2]), ((2, 1, 1, 2), F[2]), ((1, 2, 1, 2), F[3]), ((2, 1, 2, 1), F[3])],
            lambda: finite.get2p3dSlaterCondonUop(*F))
    D = [(9, 0, 8, 0, 6), (20, 0, 8), (10, 0, 8), (0, 3, 0, 2)]       # documented defaults
    uop([((2, 2, 2, 2), D[0]), ((1, 1, 1, 1), D[1]), ((1, 2, 2, 1), D[2]), ((2, 1, 1, 2), D[2]), ((1, 2, 1, 2), D[3]), ((2, 1, 2, 1), D[3])],
        lambda: finite.get2p3dSlaterCondonUop())
    for l in (0, 1, 2, 3):
        for lp in (0, 1, 2, 3):
            for m in range(-l, l + 1):
                for mp in range(-lp, lp + 1):
                    for k in range(l + lp + 2):
                        if rng.random() < ctx.pick(.4, 1):
                            ctx.case({"kind": "gaunt", "k": k, "l": l, "m": m, "lp": lp, "mp": mp},
                                     lambda: {"v": enc.fx(finite.gauntC(k, l, m, lp, mp))})
    for l in (0, 1, 2, 3):
        for lp in (0, 1, 2, 3):
            def table():
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    finite.printGaunt(l, lp) if (l, lp) != (2, 2) else finite.printGaunt()
                ks, rows = [], []
                for line in out.getvalue().splitlines():
                    if "=" in line:
                        ks.append(int(line.split("=")[1]))
                        rows.append([])
                    elif line.strip():
                        rows[-1].append([enc.fx(float(x)) for x in line.split()])
                return {"ks": ks, "rows": rows}
            ctx.case({"kind": "table", "l": l, "lp": lp}, table)
    for _ in range(ctx.pick(150, 1500)):
        o = [(l, rng.randint(-l, l)) for l in (rng.randint(0, 3) for _ in range(4))]
        if rng.random() < .7:
            m = o[2][1] + o[3][1] - o[0][1]
            if abs(m) <= o[1][0]:
                o[1] = (o[1][0], m)
        if rng.random() < .2:      # f shells have the highest multipoles
            o = [(3, x[1]) for x in o]
        R = [integral() for _ in range(rng.randint(5, 8) if min(x[0] for x in o) == 3 else rng.randint(1, 5))]
        ctx.case({"kind": "getU", "o": [list(x) for x in o], "R": [enc.fx(x) for x in R]},
                 lambda: {"v": enc.fx(finite.getU(*[y for x in o for y in x], R))})
    for l in (0, 1, 2, 3):
        for _ in range(ctx.pick(12, 60)):
            xi = rng.choice([0, 1, -1, .067, 11.629, rng.uniform(-5, 5), 10 ** -rng.uniform(2, 6)])
            ctx.case({"kind": "soc", "shells": [l], "xi": enc.fx(xi)}, lambda: {"op": lop(finite.getSOCop(xi, l) if l != 2 or rng.random() < .5 else finite.getSOCop(xi))})
            h = [rng.choice([0, 0, 1, -.5, rng.uniform(-2, 2), 10 ** -rng.uniform(2, 6)]) for _ in range(3)]
            ctx.case({"kind": "field", "shells": [l], "h": [enc.fx(x) for x in h]}, lambda: {"op": lop(finite.gethHfieldop(*h, l) if l != 2 or rng.random() < .5 else finite.gethHfieldop(*h))})


def corrupt(r):
    if r["kind"] == "table":
        c = copy.deepcopy(r)
        c["rows"][-1][0][-1] = enc.fx(enc.unfx(c["rows"][-1][0][-1]) + .011)
        yield "table", c
        c = copy.deepcopy(r)
        c["rows"].pop()
        yield "table-short", c
        return
    if r["kind"] == "nospin":
        for k in range(0, len(r["op"]), 17):
            if abs(enc.unfx(r["op"][k][1])) > 1e-3:
                c = copy.deepcopy(r)
                c["op"][k][1] = enc.fx(enc.unfx(c["op"][k][1]) + 1e-4)
                yield "nospin", c
                c = copy.deepcopy(r)
                c["op"].pop(k)
                yield "nospin-drop", c
                c = copy.deepcopy(r)
                c["op"].append(c["op"][k])
                yield "nospin-twice", c
        return
    if "op" in r and r["op"]:
        for k in {0, len(r["op"]) // 2}:
            if abs(enc.unfx(r["op"][k]["re"])) > 1e-3:
                c = copy.deepcopy(r)
                c["op"][k]["re"] = enc.fx(enc.unfx(c["op"][k]["re"]) * (1 + 1e-4))
                yield "value", c
                c = copy.deepcopy(r)
                del c["op"][k]
                yield "drop", c
    elif r["kind"] in ("gaunt", "getU"):
        c = copy.deepcopy(r)
        c["v"] = enc.fx(enc.unfx(c["v"]) + 1e-4)
        yield "v", c
