"""Random inputs shared by the drivers."""
import enc


def rand_amp(rng, kind=None):
    kind = kind or rng.choice("ifc")
    if kind == "i":
        return rng.choice([1, -1, 2, -2, 3])
    if kind == "f":
        return rng.choice([1, -1]) * rng.uniform(0.1, 2.0)
    return complex(rng.choice([1, -1]) * rng.uniform(0.1, 1.5), rng.choice([1, -1]) * rng.uniform(0.1, 1.5))


def rand_ps(rng, n, ne=None):
    if ne is None:
        return enc.occ_bytes([i for i in range(n) if rng.random() < 0.5], n)
    return enc.occ_bytes(rng.sample(range(n), ne), n)


def rand_state(rng, n, k, ne=None, kind=None):
    return {rand_ps(rng, n, ne): rand_amp(rng, kind) for _ in range(k)}


def norm(psi):
    s = sum(abs(a) ** 2 for a in psi.values()) ** 0.5
    return {k: v / s for k, v in psi.items()}


def rand_term(rng, n, length=None):
    length = rng.choice([0, 1, 1, 2, 2, 2, 3, 4, 4, 4, 5]) if length is None else length
    return tuple((rng.randrange(n), rng.choice("ca")) for _ in range(length))


def rand_op(rng, n, nterms, kind=None, conserve=False):
    op = {}
    for _ in range(nterms):
        if conserve:
            if rng.random() < .6:
                t = ((rng.randrange(n), "c"), (rng.randrange(n), "a"))
            else:
                t = ((rng.randrange(n), "c"), (rng.randrange(n), "c"), (rng.randrange(n), "a"), (rng.randrange(n), "a"))
        else:
            t = rand_term(rng, n)
        op[t] = rand_amp(rng, kind)
    return op


def dagger_term(t):
    return tuple((i, "a" if x == "c" else "c") for i, x in reversed(t))


def rand_herm(rng, n, nterms, kind=None, conserve=True, scale=1.0):
    """Random Hermitian operator (built here, not with the code under test)."""
    op = {}
    for t, v in rand_op(rng, n, nterms, kind, conserve).items():
        d = dagger_term(t)
        v = v * scale
        vc = v.conjugate() if isinstance(v, complex) else v
        op[t] = op.get(t, 0) + v / 2
        op[d] = op.get(d, 0) + vc / 2
    return op


def rand_restr(rng, n, k=None):
    out = {}
    for _ in range(rng.choice([1, 1, 2, 3]) if k is None else k):
        s = frozenset(rng.sample(range(n), rng.randint(1, n)))
        lo = rng.randint(0, len(s))
        hi = rng.randint(lo, len(s))
        out[s] = (lo, hi)
    return out


class Spread:
    """The same problem among more orbitals: an increasing relabelling; the other orbitals are spectators."""

    def __init__(self, rng, n, sizes=(9, 17, 33, 64, 65, 70, 130)):
        self.old = n
        self.n = max(rng.choice(sizes), n)
        self.to = sorted(rng.sample(range(self.n), n))
        if rng.random() < .5:
            self.to[-1] = self.n - 1

    def op(self, op):
        return {tuple((self.to[i], x) for i, x in t): v for t, v in op.items()}

    def restr(self, r):
        return None if r is None else {frozenset(self.to[i] for i in s): v for s, v in r.items()}

    def ps(self, b):
        return enc.occ_bytes([self.to[i] for i in enc.bytes_occ(b, self.old)], self.n)

    def state(self, psi):
        return {self.ps(b): v for b, v in psi.items()}
