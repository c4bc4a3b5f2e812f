"""What each rank of the stand-in MPI world runs (imports the real code; transport only)."""
import numpy as np

import enc


def _mat(h):
    """matrix -> [rows, cols, [[i, j, re, im], ...]] (duplicates summed by the matrix itself)"""
    if hasattr(h, "toarray"):
        h = h.toarray()
    h = np.asarray(h)
    out = []
    for i, j in zip(*np.nonzero(h != 0)):
        re, im = enc.cx(h[i, j])
        out.append([int(i), int(j), re, im])
    return {"shape": [int(h.shape[0]), int(h.shape[1])], "e": out}


def matrix(rank, size, a):
    from impurityModel.ed import finite

    h = finite.get_hamiltonian_matrix(a["n"], a["op"], a["basis"], a["mode"])
    return _mat(h)


def matrix_from_dict(rank, size, aa):
    from impurityModel.ed import finite

    a, h_dict = aa
    h, index = finite.get_hamiltonian_matrix_from_h_dict(h_dict, a["basis"], a["pmode"], a["local"], a["mode"])
    return {"h": _mat(h), "index": [[enc.bytes_occ(k, a["n"]), int(v)] for k, v in index.items()]}


def matrix_large(rank, size, a):
    """Some columns of the matrix in a very large basis: product state number i has the orbitals
    perm[k] of the binary digits k of i that are one."""
    from checks.c10 import column
    from impurityModel.ed import finite

    n, perm = a["n"], a["perm"]
    basis = tuple(enc.occ_bytes(sorted(perm[k] for k in range(n) if i >> k & 1), n) for i in range(a["count"]))
    if a["pmode"]:
        inside = set(basis)
        cols = {b: {k: v for k, v in column(n, a["op"], b).items() if k in inside}
                for i, b in enumerate(basis) if a["pmode"] == "serial" or i * size // len(basis) == rank}
        h, _ = finite.get_hamiltonian_matrix_from_h_dict(cols, basis, a["pmode"], False, "sparse")
    else:
        h = finite.get_hamiltonian_matrix(n, a["op"], basis, a["mode"])
    h = h.tocsc()
    out = []
    for j in a["cols"]:
        v = h[:, [j]].tocoo()
        v.sum_duplicates()
        out.append([j, [[int(i), *enc.cx(x)] for i, x in zip(v.row, v.data) if x != 0]])
    return {"shape": [int(x) for x in h.shape], "cols": out}


def expand(rank, size, aa):
    """A history of distributed expansions sharing the column stores."""
    from impurityModel.ed import finite

    a, h_dict = aa
    h_dict = dict(h_dict)
    n, out = a["n"], []
    for seeds in a["seeds"]:
        basis = finite.expand_basis(n, h_dict, a["op"], seeds, a["restr"], "H_build")
        h_local, i1 = finite.get_hamiltonian_matrix_from_h_dict(h_dict, basis, "H_build", True, "sparse")
        h_full, i2 = finite.get_hamiltonian_matrix_from_h_dict(h_dict, basis, "H_build", False, "sparse")
        out.append({"basis": [enc.bytes_occ(b, n) for b in basis], "local": _mat(h_local), "full": _mat(h_full),
                    "index": [[enc.bytes_occ(k, n), int(v)] for k, v in i1.items()], "sameindex": i1 == i2,
                    "store": [{"s": enc.bytes_occ(k, n), "v": enc.state(v, n)} for k, v in h_dict.items()]})
    return out


def expand_both(rank, size, aa):
    from impurityModel.ed import finite

    a, h_dict = aa
    h, index = finite.expand_basis_and_hamiltonian(a["n"], dict(h_dict), a["op"], a["seeds"], a["restr"], "H_build", a["local"])
    return {"h": _mat(h), "index": [[enc.bytes_occ(k, a["n"]), int(v)] for k, v in index.items()]}


def enc_dict(d):
    """any dictionary -> sorted [key, value] pairs of strings (dictionaries inside are sorted too)"""
    def txt(v):
        return "{" + ",".join(sorted(txt(k) + ":" + txt(x) for k, x in v.items())) + "}" if isinstance(v, dict) else type(v).__name__ + repr(v)
    return sorted([txt(k), txt(v)] for k, v in d.items())


def gather(rank, size, aa):
    """A history of gatherings into one total dictionary."""
    from impurityModel.ed import mpi_comm

    a, (data, total) = aa
    from mpi4py import MPI

    d, t = dict(data), dict(total)
    MPI.largest = 0
    if a["chunk"] is None:
        mpi_comm.allgather_dict(d, t)
    else:
        mpi_comm.allgather_dict(d, t, a["chunk"])
    return {"total": enc_dict(t), "data": enc_dict(d), "sent": MPI.largest}


def chunks(rank, size, aa):
    from impurityModel.ed import mpi_comm

    a, data = aa
    d = dict(data)
    out = []
    args = (a["chunk"], a["root"]) if "root" in a else (a["chunk"],)
    for c in mpi_comm.dict_chunks_from_one_MPI_rank(d, *args):
        if len(out) < 1500 or c:
            out.append({"none": c is None, "d": enc_dict(c or {})})
    return {"chunks": out, "data": enc_dict(d)}


# ---- phases that compute spectra -----------------------------------------------------------


def cxa(x):
    """complex array -> nested lists of [re, im]"""
    x = np.asarray(x)
    return [cxa(y) for y in x] if x.ndim else enc.cx(complex(x))


def krylov(rank, size, aa):
    """Distributed (or serial) Lanczos loop on given process-local parts of the matrix."""
    import scipy.sparse
    from impurityModel.ed import finite

    a, part = aa
    h = scipy.sparse.csr_matrix(np.array(part, dtype=complex))
    alpha, beta = finite.get_tridiagonal_krylov_vectors(h, np.array(a["psi0"], dtype=complex), a["k"], a["local"], a["mode"])
    return {"alpha": [enc.fx(x) for x in alpha], "beta": [enc.fx(x) for x in beta]}


def green(rank, size, a):
    """A history of Green's functions sharing one column store."""
    from impurityModel.ed import spectra

    h_dict = {} if a["share"] else None
    out = []
    for psi in a["psis"]:
        g = spectra.getGreen(a["n"], a["e"], dict(psi), a["op"], np.array(a["w"]), a["delta"], a["k"], a["cut"], a["restr"], h_dict,
                             a["mode"], a["pmode"])
        out.append(cxa(g))
    return {"g": out}


def spectra_(rank, size, a):
    from impurityModel.ed import spectra

    tops, psis = [dict(t) for t in a["tops"]], [dict(p) for p in a["psis"]]
    g = spectra.getSpectra(a["n"], dict(a["op"]), tops, psis, list(a["es"]), np.array(a["w"]), a["delta"], a["restr"], a["k"],
                           a["cut"], a["pmode"])
    return {"g": cxa(g), "shape": list(np.shape(g)), "same": tops == a["tops"] and psis == a["psis"]}


def rixs(rank, size, a):
    from impurityModel.ed import spectra

    psis = [dict(p) for p in a["psis"]]
    g = spectra.getRIXSmap(a["n"], dict(a["op"]), [dict(t) for t in a["tin"]], [dict(t) for t in a["tout"]], psis, list(a["es"]),
                           np.array(a["win"]), np.array(a["wloss"]), a["d1"], a["d2"], a["restr"], a["k"], a["cut"], None, a["pmode"])
    return {"g": cxa(g), "shape": list(np.shape(g)), "same": psis == a["psis"]}


def eigen(rank, size, a):
    from impurityModel.ed import finite

    es, psis = finite.eigensystem(a["n"], a["op"], a["basis"], a["num"], a["diag"], *a.get("opts", ()))
    return {"es": [enc.fx(e) for e in es], "psis": [enc.state(p, a["n"]) for p in psis]}


# ---- the calculation driver ----------------------------------------------------------------


def _patch(orig, new):
    """replace a function wherever the package refers to it; returns the undo list"""
    import sys

    undo = []
    for name, m in list(sys.modules.items()):
        if m is not None and name.startswith("impurityModel"):
            for k, v in list(vars(m).items()):
                if v is orig:
                    setattr(m, k, new)
                    undo.append((m, k, orig))
    return undo


def fingerprint(op):
    """random linear functionals of an operator (weights from the text of the processes)"""
    import hashlib

    out = [0j] * 3
    for t, v in op.items():
        d = hashlib.md5(repr(tuple((int(i), a) for i, a in t)).encode()).digest()
        for k in range(3):
            out[k] += complex(v) * (int.from_bytes(d[4 * k:4 * k + 4], "little") / 2 ** 31 - 1)
    return [enc.cx(x) for x in out]


def fxa(x):
    """real array -> nested lists"""
    x = np.asarray(x)
    return [fxa(y) for y in x] if x.ndim else enc.fx(float(x))


def printed(text):
    """lines "<name> = number" -> [[name, value]]"""
    import re

    return [[m.group(1), enc.fx(float(m.group(2)))] for m in re.finditer(r"^<(.+)> = *([-+.0-9e]+)\s*$", text, re.M)]


def table_report(text):
    """the table of expectation values: {"e0": [value], "rows": [[[name, value], ...], ...]}"""
    import re

    m = re.search(r"^ *i +E-E0.*$", text, re.M)
    if not m:
        return {"e0": [], "rows": []}
    rows = []
    for line in text[m.end():].lstrip("\n").split("\n"):
        v = line.split()
        if len(v) != len(m.group(0).split()):
            break
        rows.append([[k, enc.fx(float(x))] for k, x in zip(m.group(0).split(), v)])
    e = re.search(r"^E0 = *([-+.0-9e]+)", text, re.M)
    return {"e0": [enc.fx(float(e.group(1)))] if e else [], "rows": rows}


def states_report(text, n):
    """what a run prints about its eigenstates: [[number of product states, weights, product states]], [[[spin, harmonic, occupation]]]"""
    import ast
    import re

    slater, diag, off = [], [], []
    a, b = text.find("Slater determinants"), text.find("Density matrix (in cubic")
    if a >= 0:
        for x in re.split(r"Eigenstate \d+\.?\n", text[a:b if b > a else len(text)])[1:]:
            c = re.search(r"Consists of (\d+) product states", x)
            w = re.search(r"weights:\s*\[([^\]]*)\]", x)
            s = x[x.index("product states:"):] if "product states:" in x else ""
            ps = []
            for q in re.findall(r"""b'(?:[^'\\]|\\.)*'|b"(?:[^"\\]|\\.)*\"""", s):
                q = ast.literal_eval(q)
                ps.append(enc.bytes_occ(q, n) if len(q) == (n + 7) // 8 else [-1])
            slater.append({"n": int(c.group(1)) if c else -1, "w": [enc.fx(float(y)) for y in w.group(1).split()] if w else [], "ps": ps})
    if b >= 0:
        for x in re.split(r"Eigenstate \d+\n", text[b:])[1:]:
            diag.append([[int(s), int(i), enc.fx(complex(o.strip()).real)] for s, i, o in re.findall(r"Diagonal: \(i,s\) = \((\d), (\d)\) *, occupation = *([^\n]*)", x)])
            off.append([[int(v) for v in q[:4]] + [enc.fx(abs(complex(q[4].replace(" ", ""))))] for q in re.findall(r"Off-diagonal: [^=]*= \(\((\d), (\d)\), \((\d), (\d)\)\) *, *([^\n]*)", x)])
    return {"slater": slater, "diag": diag, "off": off}


class _Bag:
    pass


def _in_dir(base, rank):
    import os

    d = os.path.join(base, "r%d" % rank)
    os.makedirs(d, exist_ok=True)
    old = os.getcwd()
    os.chdir(d)
    return old


def _stage_stubs(a, bag):
    """eigensystem returns given states, simulate_spectra records what it was given"""
    import inspect

    from impurityModel.ed import finite, spectra

    eig, sim = finite.eigensystem, spectra.simulate_spectra
    sig_e, sig_s = inspect.signature(eig), inspect.signature(sim)
    bag.sim = bag.eig = None

    def fake_eig(*x, **k):
        b = sig_e.bind(*x, **k).arguments
        n = b["n_spin_orbitals"]
        bag.eig = {"n": int(n), "op": fingerprint(b["hOp"]), "basis": [enc.bytes_occ(s, n) for s in b["basis"]], "num": int(b["nPsiMax"])}
        return np.array(a["es"]), [dict(p) for p in a["psis"]]

    def fake_sim(*x, **k):
        b = sig_s.bind(*x, **k).arguments
        n = a["n"]
        bag.sim = {"es": fxa(list(b["es"])), "psis": [enc.state(p, n) for p in b["psis"]], "op": fingerprint(b["hOp"]),
                   "restr": enc.restr(b["restrictions"]), "nb": [[int(l), int(v)] for l, v in b["nBaths"].items()],
                   "li": int(b["liNIXS"]), "lj": int(b["ljNIXS"]), "noh5": b["h5f"] is None}
        for f in ("T", "delta", "deltaNIXS", "deltaRIXS"):
            bag.sim[f] = enc.fx(b[f])
        for f in ("RiNIXS", "RjNIXS", "radialMesh", "epsilons", "epsilonsRIXSin", "epsilonsRIXSout", "qsNIXS"):
            bag.sim[f] = fxa(b[f])
        bag.mesh = {f: np.array(b[f]) for f in ("w", "wIn", "wLoss", "qsNIXS", "RiNIXS", "RjNIXS")}
        bag.mesh["r"] = np.array(b["radialMesh"])
        if b["h5f"] is not None:
            b["h5f"].close()

    return _patch(eig, fake_eig) + _patch(sim, fake_sim)


def _watch_start(bag):
    """notes whether a Coulomb operator or the many-body basis has been computed"""
    from impurityModel.ed import finite

    bag.started = []

    def noted(f):
        def g(*x, **k):
            y = f(*x, **k)
            bag.started.append(f.__name__)
            return y
        return g

    undo = []
    for name in ("get2p3dSlaterCondonUop", "get_basis"):
        f = getattr(finite, name, None)
        if f is not None:
            undo += _patch(f, noted(f))
    return undo


def _stored_input(names):
    import os

    out = []
    if os.path.exists("data.npz"):
        z = np.load("data.npz", allow_pickle=True)
        for k in sorted(z.files):
            if k in names and z[k].dtype.kind in "if":
                out.append([k, fxa(z[k].ravel())])
            elif k in names and z[k].dtype == object and isinstance(z[k].item(), dict):
                out.append([k, [enc.fx(v) for v in z[k].item().values()]])
    return out


def driver_main(rank, size, a):
    """main() with given eigenstates; records what reaches the stages and what is stored."""
    import contextlib
    import importlib
    import io
    import os

    mod = importlib.import_module("impurityModel.ed." + a["mod"])
    bag = _Bag()
    old = _in_dir(a["dir"], rank)
    undo = _stage_stubs(a, bag)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            mod.main(**a["kw"])
        res = {"sim": bag.sim or {}, "eig": bag.eig or {}, "files": sorted(os.listdir(".")), "printed": printed(out.getvalue()), "table": table_report(out.getvalue()), "states": states_report(out.getvalue(), a["n"]), "h5": {}, "npz": _stored_input(a["kw"])}
        if os.path.exists("spectra.h5"):
            import h5py

            with h5py.File("spectra.h5", "r") as h:
                res["h5"] = {"E": fxa(h["E"][()]) if "E" in h else [], "same": [k for k in sorted(bag.mesh) if k in h and np.array_equal(h[k][()], bag.mesh[k])]}
        return res
    finally:
        for m, k, v in undo:
            setattr(m, k, v)
        os.chdir(old)


def _as_script(module, argv, keep=None):
    """python -m module argv: "" or how it ended"""
    import runpy
    import sys

    old = sys.argv
    sys.argv = [module] + list(argv)
    try:
        runpy.run_module(module, run_name="__main__")
        return ""
    except SystemExit as e:
        return "" if e.code in (None, 0) else "exit %s" % str(e.code)[:100]
    except Exception as e:  # noqa: BLE001 - the end of the command is what is observed
        return "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        sys.argv = old


def cli(rank, size, a):
    """a run command with given eigenstates; what reached the stages, or how it was refused"""
    import contextlib
    import io
    import os
    import re

    from mpi4py import MPI  # noqa: F401 - not to be imported inside the command under other names

    bag = _Bag()
    old = _in_dir(a["dir"], rank)
    undo = _stage_stubs(a, bag) + _watch_start(bag)
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            end = _as_script(a["module"], a["argv"])
        files = sorted(os.listdir("."))
        t = out.getvalue()
        if bag.eig and not a.get("basis"):
            bag.eig["basis"] = len(bag.eig["basis"])
        w = [len(re.findall(r"[0-9.]+(?:e[-+]?[0-9]+)?", x)) for x in re.findall(r"Highest \(product state\) weights:\s*\[([^\]]*)\]", t)]
        dens = t[t.index("Density matrix"):] if "Density matrix" in t else ""
        diag = [[enc.fx(float(y)) for y in re.findall(r"Diagonal:[^\n]*occupation = *([-+]?[0-9.]+(?:e[-+]?[0-9]+)?)", x)] for x in re.split(r"Eigenstate \d+\n", dens)[1:]]
        return {"end": end, "eig": bag.eig or {}, "sim": bag.sim or {}, "files": files, "npz": _stored_input(a["names"]), "started": bag.started, "weights": w, "diag": diag}
    finally:
        for m, k, v in undo:
            setattr(m, k, v)
        os.chdir(old)


def plot(rank, size, a):
    """a plot command; what ended up in the figures"""
    import contextlib
    import io
    import os

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    old = os.getcwd()
    os.chdir(a["dir"])
    lines, images = [], []

    def collect():
        for num in plt.get_fignums():
            for ax in plt.figure(num).axes:
                for ln in ax.get_lines():
                    lines.append({"x": fxa(np.asarray(ln.get_xdata(), float)), "y": fxa(np.asarray(ln.get_ydata(), float)), "label": str(ln.get_label())})
                for im in ax.get_images():
                    d = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
                    images.append({"v": [[enc.fx(float(x)) if np.isfinite(x) else [] for x in row] for row in d], "extent": fxa(list(im.get_extent())), "up": im.origin == "lower"})
        plt.close("all")

    show = plt.show
    plt.show = lambda *x, **k: collect()
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            end = _as_script(a["module"], a["argv"])
        collect()
        return {"end": end, "lines": lines, "images": images}
    finally:
        plt.show = show
        os.chdir(old)


def _table(f):
    rows, head = [], ""
    with open(f) as fh:
        for line in fh:
            if line.startswith("#"):
                head += line
            elif line.strip():
                rows.append([enc.fx(float(x)) for x in line.split()])
    return {"head": head.strip(), "rows": rows}


def sim_files(rank, size, a):
    """simulate_spectra on small meshes; the Green's functions it is made of are recorded too."""
    import contextlib
    import io
    import os
    from collections import OrderedDict

    import h5py
    from impurityModel.ed import spectra

    old = _in_dir(a["dir"], rank)
    try:
        nb = OrderedDict(a["nb"])
        n = sum(2 * (2 * l + 1) + b for l, b in nb.items())
        psis, es = [dict(p) for p in a["psis"]], tuple(a["es"])
        w, wl, wi = (np.array(a[k]) for k in ("w", "wloss", "win"))
        r, ri = np.array(a["r"]), np.array(a["R"])
        op = dict(a["op"])
        h5 = h5py.File("spectra.h5", "w") if rank == 0 else None
        with contextlib.redirect_stdout(io.StringIO()):
            spectra.simulate_spectra(es, tuple(psis), op, a["T"], w, a["delta"], a["eps"], wl, a["dnixs"], a["qs"], 2, 2, ri, ri.copy(), r, wi, a["drixs"],
                                     a["epsin"], a["epsout"], a["restr"], h5, nb)
            res = {"files": sorted(os.listdir(".")), "kept": psis == a["psis"] and op == a["op"]}
            g = {}
            ips, ps, xps = spectra.getInversePhotoEmissionOperators(nb, l=2), spectra.getPhotoEmissionOperators(nb, l=2), spectra.getPhotoEmissionOperators(nb, l=1)
            g["IPS"] = spectra.getSpectra(n, op, ips, psis, es, w, a["delta"], a["restr"])
            g["PS"] = spectra.getSpectra(n, op, ps, psis, es, -w, -a["delta"], a["restr"])
            g["XPS"] = spectra.getSpectra(n, op, xps, psis, es, -w, -a["delta"], a["restr"])
            g["NIXS"] = spectra.getSpectra(n, op, spectra.getNIXSOperators(nb, a["qs"], 2, 2, ri, ri, r), psis, es, wl, a["dnixs"], a["restr"])
            g["XAS"] = spectra.getSpectra(n, op, spectra.getDipoleOperators(nb, a["eps"]), psis, es, w, a["delta"], a["restr"])
            rx = spectra.getRIXSmap(n, op, spectra.getDipoleOperators(nb, a["epsin"]), spectra.getDaggeredDipoleOperators(nb, a["epsout"]), psis, es, wi, wl,
                                    a["delta"], a["drixs"], a["restr"])
        if rank:
            return res
        res["G"] = {k: cxa(v) for k, v in g.items()}
        # RIXS: in and out polarisations as one axis, the two energies as one axis
        s = rx.shape
        res["G"]["RIXS"] = cxa(rx.reshape(s[0], s[1] * s[2], s[3] * s[4]))
        with h5py.File("spectra.h5", "r") as h:
            res["shape"] = {k: list(h[k].shape) for k in h}
            res["h5"] = {k: h[k][()] for k in h}
        for k, v in list(res["h5"].items()):
            if k.startswith("RIXS"):
                s = v.shape
                v = v.reshape(s[0], s[1] * s[2], s[3] * s[4]) if k == "RIXS" and v.ndim == 5 else v.reshape(s[0] * s[1], s[2] * s[3]) if v.ndim == 4 else v
            res["h5"][k] = fxa(v)
        res["dat"] = {k: _table(k + ".dat") for k in ("PS", "XPS", "NIXS", "XAS") if os.path.exists(k + ".dat")}
        res["bin"] = fxa(np.fromfile("RIXS.bin", dtype=np.float32)) if os.path.exists("RIXS.bin") else []
        return res
    finally:
        os.chdir(old)


def full_run(rank, size, a):
    """An unmodified run; a few mesh points of everything it stored."""
    import contextlib
    import importlib
    import io
    import os

    import h5py

    mod = importlib.import_module("impurityModel.ed." + a["mod"])
    old = _in_dir(a["dir"], rank)
    try:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            mod.main(**a["kw"])
        res = {"files": sorted(os.listdir("."))}
        if rank:
            return res
        iw, il, ii = a["iw"], a["il"], a["ii"]
        with h5py.File("spectra.h5", "r") as h:
            res["E"] = fxa(h["E"][()])
            w, wl, wi = h["w"][()], h["wLoss"][()], h["wIn"][()]
            res["h5"], res["dat"] = {}, {}
            for k, ix in (("PS", iw), ("XPS", iw), ("NIXS", il), ("XAS", iw)):
                res["h5"][k] = fxa(h[k][()][:, :, ix])
                res["h5"][k + "thermal"] = fxa(h[k + "thermal"][()][:, ix])
                t = _table(k + ".dat")
                res["dat"][k] = {"head": t["head"], "len": len(t["rows"]), "rows": [t["rows"][q] for q in ix]}
            x, xt = h["RIXS"][()], h["RIXSthermal"][()]
            s = x.shape
            res["h5"]["RIXS"] = fxa(x[:, :, :, ii][..., il].reshape(s[0], s[1] * s[2], -1))
            res["h5"]["RIXSthermal"] = fxa(xt[:, :, ii][..., il].reshape(s[1] * s[2], -1))
            low = min(float(h[k][()].min()) for k in ("PS", "XPS", "NIXS", "XAS", "RIXS"))
        b = np.fromfile("RIXS.bin", dtype=np.float32)
        res["binlen"] = int(b.size)
        res["lens"] = [len(w), len(wl), len(wi)]
        b = b.reshape(len(wl) + 1, len(wi) + 1) if b.size == (len(wl) + 1) * (len(wi) + 1) else np.zeros((len(wl) + 1, len(wi) + 1))
        res["bin"] = fxa(b[np.ix_([0] + [q + 1 for q in il], [0] + [q + 1 for q in ii])].ravel())
        res["w"], res["wloss"], res["win"], res["low"] = fxa(w[iw]), fxa(wl[il]), fxa(wi[ii]), enc.fx(low)
        res["printed"] = printed(out.getvalue())
        return res
    finally:
        os.chdir(old)


def thermal_report(rank, size, a):
    import contextlib
    import io

    from impurityModel.ed import finite

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        finite.printThermalExpValues(a["nb"], np.array(a["es"]), [dict(p) for p in a["psis"]],
                                       *([] if (a["T"], a["cut"]) == (300., 10) else [a["T"]] if a["cut"] == 10 else [a["T"], a["cut"]]))
    tab = io.StringIO()
    with contextlib.redirect_stdout(tab):
        finite.printExpValues(a["nb"], np.array(a["es"]), [dict(p) for p in a["psis"]], *a["n"])
    return {"printed": printed(out.getvalue()), "table": table_report(tab.getvalue())}


def cli_reach(rank, size, a):
    """a run command up to the stage of the eigenstates"""
    import contextlib
    import inspect
    import io
    import os

    from impurityModel.ed import finite

    bag = _Bag()
    bag.n = 0
    eig = finite.eigensystem
    sig = inspect.signature(eig)

    class Reached(BaseException):
        pass

    def stop(*x, **k):
        bag.n = int(sig.bind(*x, **k).arguments["n_spin_orbitals"])
        raise Reached

    old = os.getcwd()
    os.chdir(a["dir"])
    undo = _patch(eig, stop)
    out = io.StringIO()
    end = ""
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            end = _as_script(a["module"], a["argv"])
    except Reached:
        pass
    finally:
        for m, k, v in undo:
            setattr(m, k, v)
        os.chdir(old)
    return {"end": end, "reached": bag.n > 0, "nspin": bag.n}


def main_spectra(rank, size, a):
    """An unmodified run; everything the first process stored."""
    import contextlib
    import importlib
    import io
    import os

    import h5py

    mod = importlib.import_module("impurityModel.ed." + a["mod"])
    old = _in_dir(a["dir"], rank)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.main(**a["kw"])
        if rank:
            return {}
        with h5py.File("spectra.h5", "r") as h:
            return {k: h[k][()] for k in ("E", "w", "wIn", "wLoss", "PSthermal", "XPSthermal", "XASthermal", "NIXSthermal", "RIXSthermal")}
    finally:
        os.chdir(old)
