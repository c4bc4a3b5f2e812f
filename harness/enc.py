"""Encoding of real-code values into trace JSON (transport only, no judgement)."""
import math
from fractions import Fraction

S = 10 ** 20


def big(n):
    """integer -> [sign, base-10^4 digits, least significant first]"""
    n = int(n)
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def fx(x):
    """real number -> fixed point with 20 decimals; nan/inf -> []"""
    if isinstance(x, Fraction):
        f = x
    else:
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return []
        f = Fraction(x)
    n = f * S
    q = (abs(n.numerator) * 2 + n.denominator) // (2 * n.denominator)
    return big(q if n >= 0 else -q)


def unfx(b):
    if not b:
        return float("nan")
    n = 0
    for d in reversed(b[1:]):
        n = n * 10000 + d
    return b[0] * n / S


def cx(z):
    """complex -> [re, im]"""
    if isinstance(z, Fraction):
        return [fx(z), fx(0)]
    z = complex(z)
    return [fx(z.real), fx(z.imag)]


def op(o):
    """operator dict {((i,'c'),...): value} -> JSON list"""
    out = []
    for term, v in o.items():
        re, im = cx(v)
        out.append({"t": [[e[0], e[1]] for e in term], "re": re, "im": im})
    return out


def restr(r):
    return [{"o": sorted(k), "lo": int(v[0]), "hi": int(v[1])} for k, v in (r or {}).items()]


def bytes_occ(b, n):
    """bytes form of a product state -> sorted occupied orbitals (own decoder).
    Raises if the value is not a canonical n-orbital state."""
    if not isinstance(b, bytes):
        raise TypeError("product state is %s, not bytes" % type(b).__name__)
    if len(b) != (n + 7) // 8:
        raise ValueError("product state has %d bytes for %d orbitals" % (len(b), n))
    occ = []
    for k, byte in enumerate(b):
        for j in range(8):
            if byte >> (7 - j) & 1:
                occ.append(8 * k + j)
    if occ and occ[-1] >= n:
        raise ValueError("padding bits set in %r for %d orbitals" % (b, n))
    return occ


def occ_bytes(occ, n):
    v = bytearray((n + 7) // 8)
    for i in occ:
        v[i // 8] |= 1 << (7 - i % 8)
    return bytes(v)


def state(psi, n):
    """many-body state dict {bytes: amp} -> JSON list"""
    out = []
    for s, a in psi.items():
        re, im = cx(a)
        out.append({"s": bytes_occ(s, n), "re": re, "im": im})
    return out
