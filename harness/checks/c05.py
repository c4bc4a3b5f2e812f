"""C05: spin-orbital numbering is a gap-free, order-preserving bijection."""
import copy
from collections import OrderedDict


def spec(tier):
    q = tier == "quick"
    cfg = "INIT Init\nNEXT %s\nCONSTANT Ls = {0, 1, 2%s}\nCONSTANT MaxB = %d\nCONSTANT MaxG = %d\n" % ("%s", "" if q else ", 3", 1 if q else 2, 2 if q else 3)
    return {
        "models": [{"module": "LayoutModel", "cfg": cfg % "Next" + "INVARIANT Bijection Inverse ImpFirst Ascending Stable Formula\n", "workers": 4}],
        "gens": [{"name": "systems", "module": "LayoutGen",
                  "cfg": cfg.replace("MaxB = 1", "MaxB = 2") % "GNext"}],
        "streams": [{"name": "trace", "module": "C05Trace"}],
    }


def lab(x):
    if len(x) == 3:
        return {"imp": True, "l": int(x[0]), "s": int(x[1]), "m": int(x[2])}
    t = isinstance(x[0], tuple)
    return {"imp": False, "ls": [int(v) for v in x[0]] if t else [int(x[0])], "tup": t, "b": int(x[1])}


def unlab(j):
    if j["imp"]:
        return (j["l"], j["s"], j["m"])
    return (tuple(j["ls"]) if j["tup"] else j["ls"][0], j["b"])


def drive(ctx):
    from impurityModel.ed import finite

    def refused(f, *a):
        try:
            f(*a)
        except Exception:  # noqa: BLE001
            return True
        return False

    def system(sys):
        nb = OrderedDict((tuple(g["ls"]) if g["tup"] else g["ls"][0], g["nb"]) for g in sys)
        labels = []
        for g in sys:
            for l in g["ls"]:
                labels += [(l, s, m) for s in (0, 1) for m in range(-l, l + 1)]
        for k, b in nb.items():
            labels += [(k, x) for x in range(b)]
        ctx.rng.shuffle(labels)
        n = len(labels)
        ls = [l for g in sys for l in g["ls"]]
        bad = [(7, 0, 0), (9, 0), ((0, 9), 0)]
        for l in ls:
            bad += [(l, 2, 0), (l, -1, 0), (l, 0, l + 1), (l, 1, -l - 1)]
        for k, b in nb.items():
            bad += [(k, b), (k, b + 3), (k, -1)]
        badi = [n, n + 1, n + 7, -1, -2, -n, -n - 1]

        def go():
            return {"c2i": [{"lab": lab(x), "i": int(finite.c2i(nb, x))} for x in labels],
                    "i2c": [lab(finite.i2c(nb, i)) for i in range(n)],
                    "badlabels": [{"lab": lab(x), "refused": refused(finite.c2i, nb, x)} for x in bad],
                    "badindices": [{"i": i, "refused": refused(finite.i2c, nb, i)} for i in badi]}
        ctx.case({"kind": "system", "sys": sys}, go)

    for s in ctx.scn["systems"]:
        system(s)
    rng = ctx.rng
    for _ in range(ctx.pick(60, 600)):
        ls = rng.sample([0, 1, 2, 3, 4, 5, 6], rng.randint(1, 5))
        sys = []
        while ls:
            k = rng.choice([1, 1, 2, 3])
            g, ls = ls[:k], ls[k:]
            tup = len(g) > 1 or rng.random() < .2
            sys.append({"ls": g, "nb": rng.choice([0, 1, 3, 10, rng.choice([17, 40, 70, 140])]), "tup": tup})
        system(sys)


def corrupt(r):
    c = copy.deepcopy(r)
    c["c2i"][0]["i"], c["c2i"][-1]["i"] = c["c2i"][-1]["i"], c["c2i"][0]["i"]
    yield "swap", c
    c = copy.deepcopy(r)
    c["i2c"][0], c["i2c"][-1] = c["i2c"][-1], c["i2c"][0]
    yield "swap2", c
    c = copy.deepcopy(r)
    c["badindices"][3]["refused"] = False
    yield "neg", c
