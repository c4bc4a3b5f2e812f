"""C01: product states survive every change of representation."""
import enc

FORMS = ["tuple", "int", "str", "bitarray", "bytes"]


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "ReprModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT MaxN = %d\nINVARIANT Canonical Lossless Injective\n" % (5 if q else 9)}],
        "gens": [{"name": "chains", "module": "ReprGen",
                  "cfg": "INIT GInit\nNEXT GNext\nCONSTANT MaxN = %d\nCONSTANT Ns = {%s}\nCONSTANT Depth = %d\n" %
                  ((3, "2, 3", 4) if q else (9, "1, 3, 9", 4))}],
        "streams": [{"name": "trace", "module": "C01Trace"}],
    }


def fmt(v):
    """-> name of the type, transport form of the value"""
    t = type(v).__name__
    if isinstance(v, bool):
        return "bool", [int(v)]
    if isinstance(v, tuple):
        return "tuple", [int(x) for x in v]
    if isinstance(v, int):
        return "int", enc.big(v)
    if isinstance(v, str):
        return "str", [ord(c) for c in v]
    if isinstance(v, bytes):
        return "bytes", list(v)
    if t == "bitarray":
        return "bitarray", [int(x) for x in v]
    return t, []


def make(form, n, occ):
    from bitarray import bitarray

    s = "".join("1" if i in occ else "0" for i in range(n))
    if form == "tuple":
        return tuple(sorted(occ))
    if form == "int":
        return sum(1 << (n - 1 - i) for i in occ)
    if form == "str":
        return s
    if form == "bitarray":
        return bitarray(s)
    return enc.occ_bytes(occ, n)


def convert(psr, src, dst, v, n):
    f = getattr(psr, "%s2%s" % (src, dst))
    if src in ("str", "bitarray"):
        return f(v)
    return f(v, n)


def spoil(b):
    """the caller goes on to work in place with what it got; later conversions must not notice"""
    if type(b).__name__ == "bitarray" and len(b):
        b.invert()
        b.append(1)


def drive(ctx):
    from impurityModel.ed import product_state_representation as psr

    def pairs(n, occ):
        def go():
            out = []
            for s in FORMS:
                for d in FORMS:
                    if s == d:
                        continue
                    a = make(s, n, occ)
                    b = convert(psr, s, d, a, n)
                    t, v = fmt(b)
                    out.append({"src": s, "dst": d, "type": t, "val": v, "unchanged": bool(a == make(s, n, occ))})
                    spoil(b)
            return {"conv": out}
        ctx.case({"kind": "pairs", "n": n, "occ": sorted(occ)}, go)

    rng = __import__("random").Random(ctx.rng.random())

    def chain(n, occ, path):
        def go():
            v, steps = make(path[0], n, occ), []
            for s, d in zip(path, path[1:]):
                w = convert(psr, s, d, v, n)
                if rng.random() < .3:
                    spoil(v)
                v = w
                t, x = fmt(v)
                steps.append({"dst": d, "type": t, "val": x})
            return {"steps": steps}
        ctx.case({"kind": "chain", "n": n, "occ": sorted(occ)}, go)

    for n in range(1, ctx.pick(5, 9) + 1):
        for m in range(1 << n):
            pairs(n, [i for i in range(n) if m >> i & 1])
    for n in range(ctx.pick(4, 7), 0, -1):  # the same states once more, after all the others
        for m in range(1 << n):
            pairs(n, [i for i in range(n) if m >> i & 1])
    for n in list(range(6, 20)) + [23, 24, 25, 31, 32, 33, 40, 47, 48, 63, 64, 65, 72, 80, 127, 128, 129, 130, 200, 254, 255, 256, 257, 264, 300, 316, 511, 512, 513, 1025] + [ctx.rng.randint(20, 400) for _ in range(ctx.pick(6, 60))]:
        occs = [[], list(range(n)), [0], [n - 1], [0, n - 1]]
        occs += [[i for i in range(n) if ctx.rng.random() < p] for p in (0.1, 0.5, 0.9)]
        for _ in range(ctx.pick(1, 20)):
            occs.append([i for i in range(n) if ctx.rng.random() < ctx.rng.random()])
        for o in occs:
            pairs(n, o)
    for s in ctx.scn["chains"]:
        chain(s["n"], s["occ"], s["path"])
    for _ in range(ctx.pick(150, 3000)):
        n = ctx.rng.choice([7, 8, 9, 15, 16, 17, 30, 64, 65, 100, ctx.rng.randint(3, 330)])
        path = [ctx.rng.choice(FORMS)]
        while len(path) < 7:
            path.append(ctx.rng.choice([f for f in FORMS if f != path[-1]]))
        chain(n, [i for i in range(n) if ctx.rng.random() < 0.5], path)


def corrupt(r):
    import copy
    key = "conv" if r["kind"] == "pairs" else "steps"
    for k in (0, len(r[key]) - 1):
        c = copy.deepcopy(r)
        v = c[key][k]["val"]
        c[key][k]["val"] = v[:-1] + [v[-1] ^ 1] if v else [1]
        yield "flip-last", c
