"""C21: reported eigenstates are the lowest eigenstates of the Hamiltonian."""
import copy
import cmath
import math

import enc
from checks import common
from checks import spectral as sp
from mpipool import Pool


def spec(tier):
    return {
        "models": [{"module": "InertiaModel", "cfg": "INIT Init\nNEXT Next\nINVARIANT Right\n", "workers": 2}],
        "gens": [{"name": "levels", "module": "EigenGen", "cfg": "INIT Init\nNEXT Next\n"}],
        "streams": [{"name": "trace", "module": "C21Trace"}],
    }


def rotate(rng, levels, cplx):
    """Hermitian matrix with the given eigenvalues (random plane rotations of the diagonal matrix)."""
    n = len(levels)
    h = [[complex(levels[i]) if i == j else 0j for j in range(n)] for i in range(n)]
    for _ in range(rng.choice([1, n, 2 * n])):
        a, b = rng.sample(range(n), 2)
        t = rng.choice([math.pi / 4, math.pi / 3, rng.uniform(0, 3)])
        ph = cmath.exp(1j * rng.choice([math.pi / 2, rng.uniform(0, 6)])) if cplx else 1
        c, s = math.cos(t), math.sin(t)
        for row in h:
            x, y = row[a], row[b]
            row[a], row[b] = c * x + s * ph * y, -s * (1 / ph) * x + c * y
        # columns were multiplied by U; now rows by the adjoint
        for j in range(n):
            x, y = h[a][j], h[b][j]
            h[a][j], h[b][j] = c * x + s * (1 / ph) * y, -s * ph * x + c * y
    return h


def one_body(h, cplx, least=1e-14):
    n, op = len(h), {}
    for i in range(n):
        for j in range(n):
            v = (h[i][j] + h[j][i].conjugate()) / 2
            if abs(v) > least:
                op[((i, "c"), (j, "a"))] = v if cplx else v.real
    return op


def drive(ctx):
    from impurityModel.ed import finite

    rng = ctx.rng

    def rec(n, op, basis, num, cut, **kw):
        return dict({"n": n, "op": enc.op(op), "basis": [enc.bytes_occ(b, n) for b in basis], "num": num, "cut": enc.fx(cut)}, **kw)

    def single(n, op, basis, num, diags, cut, uncut=False):
        def go():
            runs = []
            for d in diags:
                args = (d,) if cut is not None or d != "Lanczos" or rng.random() < .5 else ()
                kw = {} if cut is None else {"slaterWeightMin": cut}
                es, psis = finite.eigensystem(n, op, basis, num, *args, **kw)
                runs.append({"ok": True, "es": [enc.fx(e) for e in es], "psis": [enc.state(p, n) for p in psis]})
            if uncut and len(basis) >= num + 1:
                es, psis = finite.eigensystem(n, op, basis, num + 1, "full", slaterWeightMin=0)
                return {"runs": runs, "uncut": {"es": [enc.fx(e) for e in es], "psis": [enc.state(p, n) for p in psis]}}
            return {"runs": runs}
        ctx.case(rec(n, op, basis, num, 1e-7 if cut is None else cut, kind="eigen", diags=diags), go)

    def shuffled(b):
        b = list(b)
        rng.shuffle(b)
        return tuple(b)

    scn = ctx.scn["levels"]
    for s in rng.sample(scn, ctx.pick(70, 800)):
        op = one_body(rotate(rng, s["levels"], s["cplx"]), s["cplx"])
        n = len(s["levels"])
        basis = shuffled(enc.occ_bytes([i], n) for i in range(n))
        cut = rng.choice([0, 0, None, 1e-20])
        diags = [s["diag"]] if s["num"] > n - 2 else rng.choice([["full", "Lanczos"], [s["diag"]]])
        single(n, op, basis, s["num"], diags, cut)

    # nearly real: small imaginary couplings (spin-orbit like) between levels that (almost) coincide
    for _ in range(ctx.pick(30, 300)):
        n = rng.choice([2, 3, 4, 6])
        levels = [rng.choice([-1., 0., .5]) + rng.choice([0, 0, 1e-5, -1e-4, .3]) for _ in range(n)]
        h = rotate(rng, levels, False) if rng.random() < .5 else [[complex(levels[i]) if i == j else 0j for j in range(n)] for i in range(n)]
        x = 10 ** rng.uniform(-4.7, -2.5)
        for i in range(n):
            for j in range(i):
                if rng.random() < .6:
                    y = x * rng.uniform(.3, 1) * rng.choice([1j, -1j, 1j, 1])
                    h[i][j] += y
                    h[j][i] += y.conjugate() if isinstance(y, complex) else y
        num = rng.randint(1, n)
        basis = shuffled(enc.occ_bytes([i], n) for i in range(n))
        # elements below 10^-6 fall to the weight cutoff
        single(n, one_body(h, True, 3e-6), basis, num, ["full", "Lanczos"] if num <= n - 2 else ["full"], rng.choice([0, None, 1e-20]))

    # couplings that push one level (or a few) far above or below all the diagonal elements
    for _ in range(ctx.pick(30, 300)):
        n = rng.choice([3, 4, 6, 9])
        cplx = rng.random() < .5
        h = [[complex(rng.choice([0, 0, -1, .5])) if i == j else 0j for j in range(n)] for i in range(n)]
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.choice([1, 1, -1]) * rng.choice([1, 3, 10])
            v = [rng.choice([1, 1, -1, .5]) * (cmath.exp(1j * rng.uniform(0, 6)) if cplx else 1) for _ in range(n)]
            for i in range(n):
                for j in range(n):
                    if i != j:
                        h[i][j] += x * v[i] * complex(v[j]).conjugate()
        num = rng.randint(1, n)
        basis = shuffled(enc.occ_bytes([i], n) for i in range(n))
        single(n, one_body(h, cplx), basis, num, ["full", "Lanczos"] if num <= n - 2 else ["full"], rng.choice([0, None, 1e-20]))

    def problem(big=False):
        """many-electron problem, often with degeneracies (two decoupled copies, spin)"""
        while True:
            n = rng.choice([4, 5, 6]) if not big else rng.choice([6, 8])
            op = sp.hamiltonian(rng, n // 2, rng.random() < .5)
            if rng.random() < .5:
                op.update({tuple((i + n // 2, x) for i, x in t): v for t, v in list(op.items())})   # the same again: degenerate
                for i in range(n // 2):
                    for j in range(n // 2, n):
                        if rng.random() < .2:
                            op[((i, "c"), (j, "c"), (j, "a"), (i, "a"))] = .5
            else:
                op = sp.hamiltonian(rng, n, rng.random() < .5)
            ne = rng.randint(1, n - 1)
            basis = [enc.occ_bytes([i for i in range(n) if m >> i & 1], n) for m in range(1 << n) if bin(m).count("1") == ne]
            if rng.random() < .3:
                basis = rng.sample(basis, max(4, len(basis) * 2 // 3)) if len(basis) > 4 else basis
            if 4 <= len(basis) <= (24 if big else 12):
                return n, op, shuffled(basis)

    def blocks():
        """one electron in two chains that do not meet; the longer one is wider than the Krylov space"""
        long, short = rng.randint(22, 25), rng.randint(3, 6)
        n = long + short
        sites = list(range(n))
        if rng.random() < .4:
            rng.shuffle(sites)
        op = {}
        for k in range(n):
            low = k >= long
            op[((sites[k], "c"), (sites[k], "a"))] = (-3 if low else 0) + rng.uniform(-1, 1)
            if k + 1 < n and k + 1 != long:
                v = rng.uniform(.3, 1)
                op[((sites[k], "c"), (sites[k + 1], "a"))] = v
                op[((sites[k + 1], "c"), (sites[k], "a"))] = v
        basis = [enc.occ_bytes([sites[k]], n) for k in range(n)]
        if rng.random() < .3:
            basis.reverse()
        return n, op, basis

    def decaying():
        """amplitudes of very different size: sites or configurations that couple ever more weakly"""
        n, ne = rng.choice([(8, 1), (16, 1), (30, 1), (6, 2), (6, 3), (7, 2)])
        op, eps = {}, rng.uniform(.5, 2)
        for i in range(n):
            op[((i, "c"), (i, "a"))] = eps * i * rng.choice([1, 1, .3]) + rng.uniform(0, .2)
            for j in range(max(0, i - rng.choice([1, 1, 3])), i):
                v = 10 ** rng.uniform(-2.5, 0) * rng.choice([1, -1, 1j])
                op[((i, "c"), (j, "a"))] = v
                op[((j, "c"), (i, "a"))] = complex(v).conjugate()
        return n, op, shuffled(enc.occ_bytes([i for i in range(n) if m >> i & 1], n) for m in (range(1 << n) if ne > 1 else (1 << i for i in range(n))) if bin(m).count("1") == ne)

    for _ in range(ctx.pick(30, 300)):
        n, op, basis = decaying()
        num = rng.randint(1, min(len(basis) - 2, 6))
        single(n, op, basis, num, rng.choice([["full"], ["Lanczos"], ["full", "Lanczos"]]), rng.choice([None, None, 1e-7, 1e-5, 1e-3]), uncut=True)

    def sectors():
        """one electron in a few decoupled blocks, or two or three electrons with conserved spin: neighbouring levels
        belong to different sectors"""
        if rng.random() < .5:
            sizes = [rng.randint(4, 12) for _ in range(rng.randint(2, 4))]
            while not 20 <= sum(sizes) <= 30:
                sizes = [rng.randint(4, 12) for _ in range(rng.randint(2, 4))]
            n = sum(sizes)
            sites = list(range(n))
            rng.shuffle(sites)
            op, at, cplx = {}, 0, rng.random() < .4
            for m in sizes:
                for a in range(m):
                    i = sites[at + a]
                    op[((i, "c"), (i, "a"))] = rng.uniform(-1, 1)
                    for b in range(a):
                        if b == a - 1 or rng.random() < .2:
                            j, v = sites[at + b], rng.uniform(.3, 1) * (cmath.exp(1j * rng.uniform(0, 6)) if cplx else 1)
                            op[((i, "c"), (j, "a"))] = v
                            op[((j, "c"), (i, "a"))] = complex(v).conjugate() if cplx else v
                at += m
            return n, op, shuffled(enc.occ_bytes([i], n) for i in range(n))
        n, ne = rng.choice([(8, 2), (6, 3), (8, 2)])
        half = n // 2
        op = {}
        for s in (0, half):
            for i in range(half):
                op[((s + i, "c"), (s + i, "a"))] = .3 * i + (.05 if s else 0) * rng.choice([0, 1, -1])
                if i + 1 < half:
                    op[((s + i, "c"), (s + i + 1, "a"))] = .4
                    op[((s + i + 1, "c"), (s + i, "a"))] = .4
        u = rng.choice([0, .5, 2])
        for i in range(half):
            if u:
                op[((i, "c"), (half + i, "c"), (half + i, "a"), (i, "a"))] = u
        basis = shuffled(enc.occ_bytes([i for i in range(n) if m >> i & 1], n) for m in range(1 << n) if bin(m).count("1") == ne)
        return n, op, basis

    def copies():
        """one electron in a few equal blocks: every level is degenerate"""
        times, m = rng.choice([(3, 10), (2, 20), (3, 10), (4, 8)])
        n = times * m
        sites = list(range(n))
        rng.shuffle(sites)
        h = {}
        for a in range(m):
            h[a, a] = rng.uniform(-1, 1)
            for b in range(a):
                if b == a - 1 or rng.random() < .3:
                    h[a, b] = h[b, a] = rng.uniform(-1, 1)
        cplx = rng.random() < .3
        phase = [cmath.exp(1j * rng.uniform(0, 6)) if cplx else 1 for _ in range(n)]
        op = {((sites[c * m + a], "c"), (sites[c * m + b], "a")): v * phase[c * m + a] * complex(phase[c * m + b]).conjugate() if cplx and a != b else v
              for c in range(times) for (a, b), v in h.items()}
        return n, op, shuffled(enc.occ_bytes([i], n) for i in range(n))

    for k in range(ctx.pick(12, 90)):
        n, op, basis = sectors() if k % 3 else copies()
        num = rng.randint(3, 10) if k % 3 else rng.choice([2, 3, 4, 6])
        single(n, op, basis, num, ["full", "Lanczos"] if rng.random() < .6 else [rng.choice(["full", "Lanczos"])], rng.choice([None, 0, 1e-20]))

    for _ in range(ctx.pick(3, 20)):      # many states asked for
        n, op, basis = sectors()
        single(n, op, basis, rng.randint(13, len(basis) - 2), ["full", "Lanczos"] if rng.random() < .6 else ["full"], rng.choice([None, 0, 1e-20]))

    for _ in range(ctx.pick(3, 30)):
        n, op, basis = blocks()
        single(n, op, basis, rng.randint(1, 3), ["full", "Lanczos"], rng.choice([None, 0]))

    for _ in range(ctx.pick(30, 400)):
        n, op, basis = problem(not ctx.quick and rng.random() < .3)
        num = rng.randint(1, min(len(basis) - 2, 8))
        cut = rng.choice([0, 0, None, 1e-20, 1e-3])
        single(n, op, basis, num, ["full", "Lanczos"] if rng.random() < .7 else ["full"], cut)

    for size in ctx.pick([2, 3], [2, 3, 5]):
        pool = Pool(size, ctx.seed + 11)
        try:
            for _ in range(ctx.pick(6, 60)):
                n, op, basis = problem()
                num = rng.randint(1, min(len(basis) - 2, 6))
                diag = rng.choice(["full", "Lanczos"])
                a = {"n": n, "op": op, "basis": basis, "num": num, "diag": diag, "opts": (1e-9, 0)}
                r = pool.run("jobs", "eigen", a, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6))
                ctx.emit(rec(n, op, basis, num, 0, kind="processes", diags=[diag], size=size, status=r["status"], runs=[dict(x["ok"], ok=True) if x["ok"] is not None else {"ok": False, "why": x.get("err", "")} for x in r["res"]], err=""))
        finally:
            pool.close()


def corrupt(r):
    def new(f):
        c = copy.deepcopy(r)
        f(c["runs"][-1])
        return c
    run = r["runs"][-1]

    def shift(t, f, d):
        t[f] = enc.fx(enc.unfx(t[f]) + d)
    if enc.unfx(r["cut"]) > 1e-9:
        return
    yield "energy", new(lambda c: c["es"].__setitem__(0, enc.fx(enc.unfx(c["es"][0]) - 1e-3)))
    if len(run["psis"][0]) > 1:
        yield "state", new(lambda c: shift(c["psis"][0][0], "re", 1e-3))
    if r["num"] > 1:
        yield "order", new(lambda c: c["psis"].reverse()) if abs(enc.unfx(run["es"][0]) - enc.unfx(run["es"][-1])) > 1e-3 else new(lambda c: c["psis"].__setitem__(0, c["psis"][-1]))
        yield "number", new(lambda c: c["es"].pop())
