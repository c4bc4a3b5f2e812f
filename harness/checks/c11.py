"""C11: parallel phases never deadlock and communication always matches."""
import copy
import os
import shutil
import tempfile

import enc
from checks import spectral as sp
from checks.c07 import rand_problem
from checks.c10 import closure, column, restricted
from checks.common import rand_herm, rand_ps
from checks.c23 import files_args
from mpipool import COLL_ROOTED_IN, COLL_ROOTED_OUT, Pool

def spec(tier):
    c = ("INIT Init\nNEXT Next\nCONSTANT NP = %d\nCONSTANT NStates = %d\nCONSTANT MaxRounds = %d\nCONSTANT MaxKrylov = %d\n"
         "CONSTANT Flaw = \"none\"\nINVARIANT Good\n")
    shapes = [(2, 1, 2, 2), (3, 1, 1, 2)] if tier == "quick" else [(2, 2, 1, 2), (2, 1, 2, 3), (3, 1, 2, 2), (4, 1, 1, 1)]
    return {"models": [{"module": "PhaseModel", "cfg": c % s, "workers": 3} for s in shapes],
            "streams": [{"name": "trace", "module": "C11Trace"}]}


def event(e):
    """recorded call -> event of the specification"""
    c = e["c"]
    t = c if c in ("send", "isend", "recv") else "coll"
    peer = e.get("dest", e.get("source", 0))
    return {"t": t, "k": e["k"], "root": e.get("root", -1), "sig": str(e.get("sig", "")),
            "c": "out" if c in COLL_ROOTED_OUT else "in" if c in COLL_ROOTED_IN else "all",
            "peer": -1 if peer == -2 else peer, "tag": e.get("tag", 0), "s": bool(e.get("sync"))}


def drive(ctx):
    rng = ctx.rng

    def run(pool, phase, func, args, per_rank=None):
        for mode in ("sync", "eager"):
            r = pool.run("jobs", func, args, mode=mode, seed=rng.randrange(10 ** 6), per_rank=per_rank)
            log = [[event(e) for e in x] for x in r["log"]]
            n = max(len(x) for x in log)
            eager = mode == "eager" and n ** len(log) <= ctx.pick(1500, 30000)
            ctx.emit({"kind": phase, "size": pool.size, "eager": eager, "log": log, "status": r["status"].split(":")[0],
                      "res": [{"err": x["err"]} for x in r["res"]], "err": "", "what": r.get("error", "")[:300]})
            if r["status"] != "ok":
                return

    sizes = ctx.pick([2, 3, 5], [1, 2, 3, 4, 5, 8])

    def part(which):
        size = sizes[which]
        pool = Pool(size, ctx.seed + 3)
        try:
            for _ in range(ctx.pick(5, 60)):
                n = rng.choice([2, 3, 4, 9])
                op = rand_herm(rng, n, rng.randint(1, 4))
                basis = tuple(dict.fromkeys(rand_ps(rng, n, rng.randint(1, n - 1)) for _ in range(rng.choice([1, 2, 5, 9]))))
                run(pool, "matrix", "matrix", {"n": n, "op": rng.choice([op, op, {}]), "basis": basis, "mode": rng.choice(["dense_MPI", "sparse_MPI"])})
            for _ in range(ctx.pick(8, 80)):
                n, ne, op, restr = rand_problem(rng)
                hist = [tuple(dict.fromkeys(rand_ps(rng, n, ne) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 3)))) for _ in range(rng.randint(1, 3))]
                if any(closure(n, op, restr, s) is None for s in hist):
                    continue
                per = [{} for _ in range(size)]
                for b in sorted({rand_ps(rng, n, ne) for _ in range(rng.randint(0, 4))}):
                    per[rng.randrange(size)][b] = restricted(n, column(n, op, b), restr)
                run(pool, "expand", "expand", {"n": n, "op": op, "restr": restr, "seeds": hist}, per)
                run(pool, "expand+matrix", "expand_both", {"n": n, "op": op, "restr": restr, "seeds": hist[0], "local": rng.random() < .5}, per)
            for _ in range(ctx.pick(6, 60)):
                data = [{(r, j): j for j in range(rng.choice([0, 0, 1, 3, 5]))} for r in range(size)]
                run(pool, "gather", "gather", {"chunk": rng.choice([None, 1, 2, 4])}, [(d, {}) for d in data])
                run(pool, "chunks", "chunks", {"chunk": rng.choice([1, 2, 4]), "root": rng.randrange(size)}, data)
            for _ in range(ctx.pick(14, 120)):
                n, op, restr = sp.rand_problem(rng, 5)
                ne = rng.randint(1, n - 1)
                psis = [p for p in (sp.rand_psi(rng, n, ne, restr) for _ in range(rng.randint(1, 3))) if p]
                if not psis or any(sp.size_of(n, op, restr, p) is None for p in psis):
                    continue
                k = rng.choice([1, 2, 3, 5, 30])
                run(pool, "green", "green", {"n": n, "e": rng.uniform(-1, 1), "op": op, "w": [-1., 0., 1.], "delta": .2, "k": k, "cut": 0, "restr": restr,
                                             "mode": "sparse", "pmode": "H_build", "share": rng.random() < .7,
                                             "psis": psis + ([{}] if rng.random() < .3 else []) + psis[:1]})
                run(pool, "spectra", "spectra_", {"n": n, "op": op, "tops": [sp.transition(rng, n) for _ in range(rng.randint(1, 3))], "psis": psis,
                                                  "es": [rng.uniform(-1, 1) for _ in psis], "w": [0., .5], "delta": .2, "restr": restr, "k": k,
                                                  "cut": 1e-10, "pmode": rng.choice(["H_build", "eigen_states"])})
            for _ in range(ctx.pick(10, 90)):
                n, op, restr = sp.rand_problem(rng, 4)
                ne = rng.randint(1, n - 1)
                psis = [p for p in (sp.rand_psi(rng, n, ne, restr) for _ in range(rng.randint(1, 2))) if p]
                if not psis:
                    continue
                run(pool, "rixs", "rixs", {"n": n, "op": op, "tin": [sp.transition(rng, n) for _ in range(rng.randint(1, 2))],
                                           "tout": [sp.transition(rng, n) for _ in range(rng.randint(1, 2))], "psis": psis,
                                           "es": [0.] * len(psis), "win": [rng.uniform(-1, 1) for _ in range(rng.choice([1, 1, 2, 4]))],
                                           "wloss": [0., .3], "d1": .3, "d2": .2, "restr": restr, "k": 4, "cut": 1e-10,
                                           "pmode": rng.choice(["serial", "H_build", "wIn", "H_build_wIn"])})
            for _ in range(ctx.pick(4, 40)):
                n = rng.choice([3, 4, 5])
                op = sp.hamiltonian(rng, n)
                ne = rng.randint(1, n - 1)
                basis = tuple(dict.fromkeys(rand_ps(rng, n, ne) for _ in range(8)))
                diag = "full" if len(basis) < 4 else rng.choice(["full", "Lanczos"])
                run(pool, "eigen", "eigen", {"n": n, "op": op, "basis": basis, "num": 1, "diag": diag})
            for _ in range(ctx.pick(2, 12)):
                d = tempfile.mkdtemp(dir=".")
                try:
                    run(pool, "spectra-stage", "sim_files", files_args(rng, os.path.abspath(d)))
                finally:
                    shutil.rmtree(d)
        finally:
            pool.close()
    ctx.shards(len(sizes), part)


def corrupt(r):
    log = r["log"]
    if r["size"] < 2:
        return
    k = next((j for j, e in enumerate(log[-1]) if e["t"] == "coll"), None)
    if k is not None:
        c = copy.deepcopy(r)
        del c["log"][-1][k]
        yield "skip", c
        c = copy.deepcopy(r)
        c["log"][-1][k]["root"] = 1 - c["log"][-1][k]["root"]
        yield "root", c
    k = next((j for j, e in enumerate(log[-1]) if e["t"] == "send"), None)
    if k is not None:
        c = copy.deepcopy(r)
        del c["log"][-1][k]
        yield "nosend", c
        c = copy.deepcopy(r)
        c["log"][-1].insert(k, c["log"][-1][k])
        yield "twice", c
        c = copy.deepcopy(r)
        c["log"][-1][k]["tag"] += 1
        yield "tag", c
    k = next((j for j, e in enumerate(log[0]) if e["t"] == "recv"), None)
    if k is not None:
        c = copy.deepcopy(r)
        j = next((m for m in range(k, len(log[0])) if log[0][m]["t"] == "coll"), None)
        if j:
            c["log"][0].insert(j + 1, c["log"][0].pop(k))
            if not r["eager"]:
                yield "late", c
