"""C12: gathering dictionaries delivers the union to every process."""
import copy

from checks.common import rand_amp
from jobs import enc_dict
from mpipool import Pool

INV = "INVARIANT NoDeadlock Delivered SameCount\n"


def spec(tier):
    c = "INIT Init\nNEXT Next\nCONSTANT P = %d\nCONSTANT N = %d\nCONSTANT Eager = %s\n" + INV
    shapes = [(2, 3, "TRUE"), (3, 3, "FALSE"), (3, 2, "TRUE")] if tier == "quick" else \
        [(2, 6, "TRUE"), (3, 4, "TRUE"), (3, 5, "FALSE"), (4, 3, "FALSE"), (4, 2, "TRUE")]
    return {"models": [{"module": "GatherModel", "cfg": c % s, "workers": 2} for s in shapes],
            "streams": [{"name": "trace", "module": "C12Trace"}]}


def _value(rng):
    x = rng.random()
    if x < .4:
        return {rng.randbytes(2): rand_amp(rng, "c") for _ in range(rng.randint(0, 3))}
    if x < .6:
        return rng.randint(-5, 5)
    if x < .8:
        return rand_amp(rng, "c")
    return rng.choice([0, 0.0, None, False, "", (), {}, b""])


def _key(rng, used):
    while True:
        x = rng.random()
        k = rng.randbytes(rng.randint(2, 4)) if x < .6 else rng.randint(-9999, 9999) if x < .8 else tuple(rng.sample(range(30), 2))
        if k not in used:
            used.add(k)
            return k


def drive(ctx):
    rng = ctx.rng
    for size in ctx.pick([1, 2, 3, 5], [1, 2, 3, 4, 5, 7, 9]):
        pool = Pool(size, ctx.seed + 2)
        try:
            for rep in range(ctx.pick(60, 500)):
                top = rng.choice([0, 1, 2, 4, 7, 12]) if rep % 20 else rng.randint(100, 260) if rep % 40 else rng.randint(260, 700)
                used = set()
                shape = rng.random()
                sizes = [rng.randint(0, top) if shape < .7 else (top if r == size - 1 else 0) if shape < .85 else top for r in range(size)]
                data = [{_key(rng, used): _value(rng) for _ in range(s)} for s in sizes]
                common = {_key(rng, used): _value(rng) for _ in range(rng.randint(0, 3))}
                before = [dict(common) if rng.random() < .5 else {_key(rng, used): _value(rng) for _ in range(rng.randint(0, 3))}
                          for r in range(size)]
                chunk = rng.choice([None, 1, 2, 3, max(top, 1), max(top - 1, 1), top + 1, rng.randint(1, top + 1), max(top // 2, 1)]) if top <= 260 else rng.choice([1, 1, 2, None])
                r = pool.run("jobs", "gather", {"chunk": chunk}, mode=rng.choice(["sync", "eager"]), seed=rng.randrange(10 ** 6),
                             per_rank=list(zip(data, before)))
                ctx.emit({"kind": "gather", "size": size, "chunk": chunk or 0, "data": [enc_dict(d) for d in data],
                          "before": [enc_dict(d) for d in before], "status": r["status"], "res": r["res"], "err": ""})
                chunk, root = rng.randint(1, top + 2) if top <= 260 else rng.choice([1, 1, 2]), rng.randrange(size)
                a = {"chunk": chunk, "root": root}
                if root == 0 and rng.random() < .5:
                    del a["root"]        # the default
                r = pool.run("jobs", "chunks", a, mode=rng.choice(["sync", "eager"]),
                             seed=rng.randrange(10 ** 6), per_rank=data)
                ctx.emit({"kind": "chunks", "size": size, "chunk": chunk, "root": root, "data": [enc_dict(d) for d in data],
                          "status": r["status"], "res": r["res"], "err": ""})
        finally:
            pool.close()


def corrupt(r):
    k = len(r["res"]) - 1
    if r["kind"] == "gather":
        if r["chunk"]:
            c = copy.deepcopy(r)
            c["res"][k]["ok"]["sent"] = r["chunk"] + 1
            yield "sent", c
        for f in ("total", "data"):
            if r["res"][k]["ok"][f]:
                c = copy.deepcopy(r)
                c["res"][k]["ok"][f].pop()
                yield "miss-" + f, c
                c = copy.deepcopy(r)
                c["res"][0]["ok"][f].append(["x", "y"])
                yield "more-" + f, c
    else:
        root = r["root"]
        ch = r["res"][root]["ok"]["chunks"]
        if ch:
            c = copy.deepcopy(r)
            c["res"][root]["ok"]["chunks"][-1]["d"].pop()
            yield "incomplete", c
            c = copy.deepcopy(r)
            c["res"][root]["ok"]["chunks"].append({"none": False, "d": []})
            if r["size"] > 1:
                yield "pieces", c
        if len(ch) > 1:
            c = copy.deepcopy(r)
            c["res"][root]["ok"]["chunks"][0]["d"] += ch[1]["d"]
            yield "overlap", c
