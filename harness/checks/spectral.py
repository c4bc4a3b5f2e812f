"""Random problems for the spectra (shared by C11, C13, C14, C15)."""
import enc
from checks.c10 import closure, column, restricted
from checks.common import norm, rand_amp, rand_herm, rand_ps, rand_restr, rand_state


def meets(n, b, restr):
    return bool(restricted(n, {b: 1}, restr))


def apply_op(n, op, psi, restr=None):
    """Own operator application (to build inputs only)."""
    out = {}
    for s, a in psi.items():
        for k, v in restricted(n, column(n, op, s), restr).items():
            out[k] = out.get(k, 0) + a * v
    return {k: v for k, v in out.items() if abs(v) > 1e-7}


def hamiltonian(rng, n, real=False, dyadic=False):
    """Hermitian, particle conserving; often with conserved subspaces (block structure), sometimes with levels
    that (nearly) coincide and are coupled weakly only."""
    op = rand_herm(rng, n, rng.randint(1, 5), kind=rng.choice("if") if real else None)
    if rng.random() < .2:
        x, e = 10 ** rng.uniform(-4.5, -1.5), rng.uniform(-1, 1)
        op = {t: v * x for t, v in op.items()}
        for i in range(n):
            op[((i, "c"), (i, "a"))] = op.get(((i, "c"), (i, "a")), 0) + e + rng.choice([0, 0, 0, 1, 1e-3])
        return op
    for i in range(n):
        if rng.random() < .6:
            op[((i, "c"), (i, "a"))] = op.get(((i, "c"), (i, "a")), 0) + rng.choice([-2, -1, -.5, .25, .5, 1, 1.5])
    return op


def rand_problem(rng, nmax=6, restrict=True, real=False):
    n = rng.randint(2, nmax)
    op = hamiltonian(rng, n, real)
    restr = None
    if restrict and rng.random() < .35:
        restr = rand_restr(rng, n, 1)
    return n, op, restr


def rand_psi(rng, n, ne, restr, k=None, kind=None):
    """Normalised state in the sector of ne electrons that meets the restrictions, or None."""
    for _ in range(20):
        psi = rand_state(rng, n, k or rng.choice([1, 1, 2, 3]), ne, kind)
        psi = restricted(n, psi, restr)
        if psi:
            return norm(psi)
    return None


def transition(rng, n, kind=None):
    """Transition operators: remove, add, move an electron; one that annihilates; the identity-like number operator."""
    kind = kind or rng.choice(["a", "c", "ca", "ca", "mix", "zero"])
    if kind in "ac":
        return {((rng.randrange(n), kind),): rand_amp(rng, "f")}
    if kind == "zero":
        i = rng.randrange(n)
        return {((i, "a"), (i, "a")): 1.0}
    out = {}
    for _ in range(rng.randint(1, 3)):
        out[((rng.randrange(n), "c"), (rng.randrange(n), "a"))] = rand_amp(rng)
    return out


def twin(rng, t):
    """same processes, other strengths"""
    return {k: rand_amp(rng) for k in t}


def size_of(n, op, restr, psi, limit=24):
    b = closure(n, op, restr, sorted(psi), limit)
    return None if b is None else len(b)
