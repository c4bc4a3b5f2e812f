"""C06: the starting basis holds exactly the allowed configurations."""
import copy
from collections import OrderedDict

import enc


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "BasisModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT Ls = {%s}\nCONSTANT MaxB = %d\nCONSTANT MaxD = %d\nINVARIANT Declared Conserved AllConserved\n" %
                    (("0", 3, 2) if q else ("0", 4, 3)), "workers": 3}]
        + ([] if q else [{"module": "BasisModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT Ls = {1}\nCONSTANT MaxB = 2\nCONSTANT MaxD = 1\nINVARIANT Declared Conserved AllConserved\n", "workers": 3}]),
        "gens": [{"name": "shells", "module": "BasisGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT Ls = {0}\nCONSTANT MaxB = %d\nCONSTANT MaxD = 2\nCONSTANT N0s = {%s}\n" %
                  ((2, "0, 1, 2, 3") if q else (3, "0, 1, 2, 3"))}],
        "streams": [{"name": "trace", "module": "C06Trace"}],
    }


def drive(ctx):
    from impurityModel.ed import finite

    rng = ctx.rng

    def basis(shells):
        n = sum(4 * s["l"] + 2 + s["nb"] for s in shells)
        d = [OrderedDict((s["l"], s[k]) for s in shells) for k in ("nb", "nv", "dv", "dc", "tol", "n0")]
        before = copy.deepcopy(d)

        def go():
            try:
                out, refused = finite.get_basis(*d), False
            except Exception:  # noqa: BLE001
                out, refused = (), True
            return {"out": [enc.bytes_occ(b, n) for b in out], "refused": refused, "same": d == before}
        ctx.case({"kind": "basis", "shells": shells}, go)

    sc = ctx.scn["shells"]
    for s in sc:
        basis([s])
    for _ in range(ctx.pick(150, 2500)):      # two shells: the second one from the list as well
        a, b = dict(rng.choice(sc)), dict(rng.choice(sc))
        b["l"] = 1
        b["n0"] = rng.choice([0, 1, 5, 6])
        basis([a, b] if rng.random() < .5 else [b, a])
    for _ in range(ctx.pick(60, 600)):      # realistic settings
        nb = rng.choice([0, 1, 2, 3, 4])
        nv = rng.randint(0, nb)
        s = {"l": 2, "nb": nb, "nv": nv, "dv": rng.randint(0, min(2, nv + (rng.random() < .2))), "dc": rng.randint(0, min(2, nb - nv + (rng.random() < .2))),
             "tol": rng.randint(0, 2), "n0": rng.choice([0, 1, 2, 8, 9, 10, 11])}
        p = {"l": 1, "nb": 0, "nv": 0, "dv": 0, "dc": 0, "tol": 0, "n0": 6}
        basis([p, s] if rng.random() < .7 else [s])
    def shell(l, nb, dmax, few=True):
        nv, full = rng.randint(0, nb), 4 * l + 2
        return {"l": l, "nb": nb, "nv": nv, "dv": rng.randint(0, min(dmax, nv + (rng.random() < .1))), "dc": rng.randint(0, min(dmax, nb - nv + (rng.random() < .1))),
                "tol": rng.randint(0, dmax + 1), "n0": rng.choice([0, 1, full - 1, full] if few else [2, 3, full - 2])}
    for _ in range(ctx.pick(40, 500)):     # three shells, f shells
        ls = rng.sample([0, 1, 2, 3], rng.choice([1, 1, 3]))
        basis([shell(l, rng.choice([0, 1, 2]), 1) for l in ls])
    for _ in range(ctx.pick(25, 300)):     # more baths, more electrons moved
        basis([shell(rng.choice([0, 1]), rng.randint(4, 7), 4, rng.random() < .5)])
    plain = {"nb": 0, "nv": 0, "dv": 0, "dc": 0, "tol": 0}
    large = [[dict(plain, l=3, n0=7)], [dict(plain, l=2, n0=5), dict(plain, l=1, n0=rng.choice([2, 4]))],
             [dict(plain, l=1, n0=6), {"l": 2, "nb": 10, "nv": 10, "dv": rng.choice([1, 2]), "dc": 0, "tol": 2, "n0": 8}],
             [{"l": 2, "nb": 8, "nv": 4, "dv": 1, "dc": 1, "tol": 1, "n0": rng.choice([5, 6])}]]
    for s in rng.sample(large, ctx.pick(2, 4)):      # thousands of configurations
        basis(s)


def corrupt(r):
    c = copy.deepcopy(r)
    if r["refused"]:
        return
    if r["out"]:
        c["out"].pop()
        yield "drop", c
        c = copy.deepcopy(r)
        c["out"].append(c["out"][0])
        yield "twice", c
