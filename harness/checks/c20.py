"""C20: thermal averages are canonical Boltzmann averages."""
import copy

import enc


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "ThermalModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANT Right\n" % (3 if q else 4), "workers": 3}],
        "gens": [{"name": "therm", "module": "ThermGen", "cfg": "INIT Init\nNEXT Next\n"}],
        "streams": [{"name": "trace", "module": "C20Trace"}],
    }


def drive(ctx):
    import numpy as np
    from impurityModel.ed.average import thermal_average

    rng = ctx.rng
    SH = {"scalar": (), "vector": (3,), "matrix": (2, 3), "complex": (2, 2), "long": (40,), "map": (1, 2, 1, 2, 2)}

    def average(es, obs, T, form):
        obs = np.array(obs)

        def go():
            o = obs if form != "list" else (obs.tolist() if obs.ndim == 1 else [x for x in obs])
            e = np.array(es) if form != "list" else list(es)
            if form == "nested" and obs.ndim > 1:
                o = [np.array(x) for x in obs]
            e0, o0 = copy.deepcopy(e), copy.deepcopy(o)
            r = thermal_average(e, o) if T is None else (thermal_average(e, o, T) if rng.random() < .5 else thermal_average(e, o, T=T))
            a = np.asarray(r)
            return {"shape": list(a.shape), "res": [enc.cx(x) for x in a.ravel()], "kept": bool(np.array_equal(e, e0) and np.array_equal(o, o0))}
        ctx.case({"kind": "average", "es": [enc.fx(e) for e in es], "os": [[enc.cx(x) for x in row.ravel()] for row in obs],
                  "T": enc.fx(300 if T is None else T), "wantshape": list(obs.shape[1:])}, go)

    def values(n, shape, cplx):
        v = np.array([rng.uniform(-3, 3) for _ in range(n * int(np.prod(shape)))]).reshape((n,) + shape)
        if cplx:
            v = v + 1j * np.array([rng.uniform(-3, 3) for _ in range(v.size)]).reshape(v.shape)
        return v

    for s in rng.sample(ctx.scn["therm"], ctx.pick(300, 3000)):
        es = [x * .01 for x in s["es"]]
        shift = rng.choice([0, 0, -1500.25, 99.5])
        es = [e + shift for e in es]
        average(es, values(len(es), SH[s["shape"]], s["shape"] == "complex"), s["T"], rng.choice(["array", "list", "nested"]))
    for _ in range(ctx.pick(150, 2000)):
        n = rng.choice([1, 2, 5, 20])
        sp = rng.choice([1e-6, 1e-2, 1, 100, 1e5])
        es = [rng.uniform(-sp, sp) for _ in range(n)]
        if rng.random() < .3:
            es = [rng.choice(es) for _ in es]
        if rng.random() < .2:
            es = [int(e) for e in es]
        k = rng.choice(list(SH))
        if rng.random() < .15:
            average(es, np.rint(values(n, SH["vector"], False) * 10).astype(int), rng.choice([300, 20, 5e3]), rng.choice(["array", "list"]))
        average(es, values(n, SH[k], k == "complex") * rng.choice([1, 1e-3, 1e4]), rng.choice([None, 300, 1, 10, .1, 5e3, 1e6, 1e12, 77.5]), rng.choice(["array", "list", "nested"]))
    for _ in range(ctx.pick(8, 80)):     # many states
        n, k, s = rng.randint(50, 400), rng.choice(["scalar", "vector"]), rng.choice([1e-4, .03, 1])
        average([rng.uniform(0, s) for _ in range(n)], values(n, SH[k], False), rng.choice([None, 1e4, 20]), rng.choice(["array", "list"]))
    # very cold: only the ground state counts, all of it
    for _ in range(ctx.pick(60, 500)):
        n = rng.choice([2, 3, 5])
        es = [rng.choice([-2.5, -1., 0., .25, 1e-6, 3.]) + rng.choice([0, 0, 1e-8, 1e-7]) for _ in range(n)]
        if rng.random() < .6:
            es[rng.randrange(n)] = min(es)
        k = rng.choice(list(SH))
        average(es, values(n, SH[k], k == "complex"), rng.choice([1e-4, 1e-3, 1e-2, .05, .5]), rng.choice(["array", "list", "nested"]))
    for _ in range(ctx.pick(40, 300)):
        n, m = rng.sample(range(1, 7), 2)
        es, obs = [rng.uniform(-1, 1) for _ in range(n)], values(m, SH[rng.choice(["scalar", "vector", "matrix"])], False)

        def go():
            try:
                thermal_average(es if rng.random() < .5 else np.array(es), obs if rng.random() < .5 else obs.tolist())
            except Exception:
                return {"refused": True}
            return {"refused": False}
        ctx.case({"kind": "refuse", "n": n, "m": m}, go)


def corrupt(r):
    c = copy.deepcopy(r)
    if r["kind"] == "refuse":
        c["refused"] = False
        yield "refused", c
    elif r["res"]:
        c["res"][-1][0] = enc.fx(enc.unfx(c["res"][-1][0]) + 1e-2 * max([1e-3] + [abs(enc.unfx(x[-1][0])) for x in c["os"]]))
        yield "value", c
