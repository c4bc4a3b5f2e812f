"""Complete calculations on small systems: parameters, and reference numbers for the spectra.

The operators come from the specification (RunGen).  The numbers computed here are only
certificates: TLC verifies each of them against the specification.
"""
import json
import math
import os

import numpy as np

import enc
import tlc

KB = 8.617333262e-5


def shells(d, p=None):
    return [p or {"l": 1, "nb": 0, "nv": 0, "dv": 0, "dc": 0, "tol": 0, "n0": 6}, d]


def ask(work, javadir, pars):
    """operators of the runs, from the specification"""
    q = os.path.join(work, "questions-%d.ndjson" % os.getpid())
    with open(q, "w") as fh:
        for p in pars:
            fh.write(json.dumps({"par": p}) + "\n")
    out = os.path.join(work, "answer-%d-" % os.getpid())
    r = tlc.Run(work, javadir, "RunGen", "INIT Init\nNEXT Next\n", env={"TRACE": q, "OUT": out}, workers=4, timeout=900).wait()
    if r.errors:
        raise tlc.MachineryError("RunGen: " + r.out[-1500:])
    res = []
    for k in range(len(pars)):
        with open(out + "%d.json" % (k + 1)) as fh:
            res.append(json.load(fh))
    r.cleanup()
    return res


# ---- a small engine on product states (bit masks)
def sgn(i, s):
    return -1 if bin(s & ((1 << i) - 1)).count("1") & 1 else 1


def mask(occ):
    return sum(1 << i for i in occ)


def occ(s):
    return [i for i in range(s.bit_length()) if s >> i & 1]


def rem(i, v, s):
    return (v * sgn(i, s), s ^ (1 << i)) if s >> i & 1 else None


def add(i, v, s):
    return None if s >> i & 1 else (v * sgn(i, s), s | (1 << i))


def chain(steps, v, s):
    for f, i in reversed(steps):
        r = f(i, v, s)
        if r is None:
            return None
        v, s = r
    return v, s


class Op:
    """one- and two-body operator"""
    def __init__(self, one, two=()):
        self.one, self.two = {}, {}
        for i, j, re, im in one:
            self.one.setdefault(j, []).append((i, complex(enc.unfx(re), enc.unfx(im))))
        for c, d, b, a, re, im in two:
            self.two.setdefault((a, b), []).append((c, d, complex(enc.unfx(re), enc.unfx(im))))

    def on(self, s):
        out = {}
        o = occ(s)
        for j in o:
            for i, v in self.one.get(j, ()):
                r = chain([(add, i), (rem, j)], v, s)
                if r:
                    out[r[1]] = out.get(r[1], 0) + r[0]
        for x, a in enumerate(o):
            for b in o[x + 1:]:
                for c, d, v in self.two.get((a, b), ()):
                    r = chain([(add, c), (add, d), (rem, b), (rem, a)], v, s)
                    if r:
                        out[r[1]] = out.get(r[1], 0) + r[0]
        return out


def lin(on, psi, ok):
    out = {}
    for s, a in psi.items():
        for t, v in on(s).items():
            if ok(t) and v != 0:
                out[t] = out.get(t, 0) + a * v
    return out


class Sector:
    """H on a closed set of product states"""
    def __init__(self, h, states):
        self.st = states
        self.ix = {s: k for k, s in enumerate(states)}
        m = np.zeros((len(states),) * 2, complex)
        for j, s in enumerate(states):
            for t, v in h(s).items():
                if t in self.ix:
                    m[self.ix[t], j] += v
        self.m = (m + m.conj().T) / 2
        self.e, self.u = np.linalg.eigh(self.m)

    def vec(self, psi):
        v = np.zeros(len(self.st), complex)
        for s, a in psi.items():
            v[self.ix[s]] = a
        return v

    def dic(self, v):
        return {s: complex(v[k]) for s, k in self.ix.items() if v[k] != 0}

    def solve(self, z, v):
        return np.linalg.solve(z * np.eye(len(self.st)) - self.m, v)

    def g(self, v, z):
        """<v|(z-H)^-1|v> on a mesh z"""
        c = abs(self.u.conj().T @ v) ** 2
        return (c[None, :] / (z[:, None] - self.e[None, :])).sum(1)


class Oracle:
    def __init__(self, ans):
        self.n = ans["n"]
        self.h = Op(ans["one"], ans["two"])
        self.dip = [Op(x) for x in ans["dip"]]
        self.nixs = [Op(x) for x in ans["nixs"]]
        self.emit = [Op([[j, i, re, [-im[0]] + im[1:]] for i, j, re, im in x]) for x in ans["dip"]]
        self.restr = [(mask(x["o"]), x["lo"], x["hi"]) for x in ans["restr"]]
        self.ground = sorted(mask(b) for b in ans["basis"])
        self.d0, self.p0 = ans["d0"], ans["p0"]
        self.cache = {}
        self.g = Sector(self.hon, self.ground)

    def hon(self, s):
        if s not in self.cache:
            self.cache[s] = self.h.on(s)
        return self.cache[s]

    def ok(self, s):
        return all(lo <= bin(s & m).count("1") <= hi for m, lo, hi in self.restr)

    def sector(self, seeds):
        seen, todo = set(seeds), list(seeds)
        while todo:
            for t, v in self.hon(todo.pop()).items():
                if t not in seen and abs(v) > 1e-14 and self.ok(t):
                    seen.add(t)
                    todo.append(t)
        return Sector(self.hon, sorted(seen))

    def ops(self, fam):
        if fam in ("IPS", "PS", "XPS"):
            f, i0, num = {"IPS": (add, self.d0, 10), "PS": (rem, self.d0, 10), "XPS": (rem, self.p0, 6)}[fam]
            return [(lambda s, f=f, i=i0 + k: dict([f(i, 1, s)[::-1]]) if f(i, 1, s) else {}) for k in range(num)]
        return [o.on for o in (self.nixs if fam == "NIXS" else self.dip)]

    def phis(self, fam, psis):
        """images of the states under every operator of the family, and their space"""
        img = [[lin(t, p, self.ok) for p in psis] for t in self.ops(fam)]
        return img, self.sector({s for row in img for x in row for s in x})
