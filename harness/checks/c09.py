"""C09: work is divided so that every task is done exactly once."""
import copy


def spec(tier):
    q = tier == "quick"
    return {
        "models": [{"module": "ShareModel", "cfg": "INIT Init\nNEXT Next\nCONSTANT MaxT = %d\nCONSTANT MaxP = %d\nINVARIANT Inv Partial\n" % ((6, 4) if q else (8, 5)), "workers": 3}],
        "gens": [{"name": "sizes", "module": "ShareGen", "cfg": "INIT Init\nNEXT Next\nCONSTANT MaxT = %d\nCONSTANT MaxP = %d\n" % ((40, 18) if q else (130, 40))}],
        "streams": [{"name": "trace", "module": "C09Trace"}],
    }


def drive(ctx):
    from impurityModel.ed import finite

    rng = ctx.rng

    def division(tasks, p, form):
        mk = {"list": lambda: list(tasks), "tuple": lambda: tuple(tasks), "range": lambda: range(len(tasks))}[form]

        def go():
            t = mk()
            parts = [[int(x) for x in finite.get_job_tasks(r, p, t)] for r in range(p)]
            again = [None] * p
            for r in reversed(range(p)):
                again[r] = [int(x) for x in finite.get_job_tasks(r, p, mk())]
            return {"parts": parts, "again": again, "same": list(t) == list(tasks)}
        ctx.case({"kind": "division", "tasks": list(tasks), "p": p, "form": form}, go)

    def labels(tasks, p):
        """tasks that are anything but numbers: recorded as their positions in the list"""
        def number(x):
            for k, t in enumerate(tasks):
                if type(x) is type(t) and x == t or (not isinstance(t, tuple) and bool(x == t)):
                    return k
            return -1

        def go():
            parts = [[number(x) for x in finite.get_job_tasks(r, p, list(tasks))] for r in range(p)]
            t = tuple(tasks)
            again = [[number(x) for x in finite.get_job_tasks(r, p, t)] for r in range(p)]
            return {"parts": parts, "again": again, "same": list(t) == list(tasks)}
        ctx.case({"kind": "division", "tasks": list(range(len(tasks))), "p": p, "form": "labels"}, go)

    for _ in range(ctx.pick(60, 600)):
        n, p = rng.randint(0, 25), rng.randint(1, 8)
        make = {"bytes": lambda k: bytes([k % 3, k, 0][: rng.randint(2, 3)]) + b"\0", "str": lambda k: "ab"[k % 2] * (k % 5) + " %d" % k,
                "tuple": lambda k: (k, 0), "ragged": lambda k: (k,) * (1 + k % 3), "float": lambda k: k / 7, "state": lambda k: frozenset((k, k + 1)), "big": lambda k: 2 ** 70 + k}
        kinds = [rng.choice(sorted(make))] if rng.random() < .7 else rng.sample(sorted(make), 3)
        labels([make[kinds[k % len(kinds)]](k) for k in range(n)], p)
    for s in ctx.scn["sizes"]:
        division(list(range(s["n"])), s["p"], "range")
    for _ in range(ctx.pick(200, 3000)):
        n, p = rng.randint(0, 60), rng.randint(1, 70)
        tasks = rng.sample(range(1000), n)
        division(tasks, p, rng.choice(["list", "tuple"]))
    for _ in range(ctx.pick(40, 400)):     # labels need not be distinct
        n, p = rng.randint(0, 20), rng.randint(1, 9)
        division([rng.randrange(4) for _ in range(n)], p, "list")
    for _ in range(ctx.pick(12, 60)):
        division(list(range(rng.randint(60, 3000))), rng.randint(2, 70), rng.choice(["list", "tuple", "range"]))
    for p in range(2, ctx.pick(131, 400)):   # many processes, task counts around their multiples
        for k in rng.sample([1, 2, 3], ctx.pick(1, 3)):
            division(list(range(max(0, k * p + rng.choice([0, 0, 0, -1, 1])))), p, "range")
    for n, p in [(2048, 64), (4097, 16), (400, 7), (401, 64), (99, 100), (1, 200)]:
        division(list(range(n)), p, "range")


def corrupt(r):
    if len(r["tasks"]) > 1:
        c = copy.deepcopy(r)
        k = max(range(len(c["parts"])), key=lambda x: len(c["parts"][x]))
        c["parts"][k].pop()
        c["again"] = c["parts"]
        yield "drop", c
