"""Mutation sampling: small edits of the code under test, on scratch copies; reports those no check notices.
usage: mutate.py OUT.json N SEED [-j jobs] [--only function,function]   (OUT is appended to; nothing in /repo is touched)"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ED = "impurityModel/ed/"
MAP = {"get_job_tasks": "C09 C08", "eigensystem": "C21 C25", "printExpValues": "C23", "printThermalExpValues": "C23", "dc_MLFT": "C22", "get_spherical_2_cubic_matrix": "C18 C22",
       "daggerOp": "C17", "assert_hermitian": "C17", "get_basis": "C06", "inner": "C17", "addToFirst": "C17", "a": "C02", "c": "C02", "gauntC": "C16 C19", "getU": "C16",
       "printGaunt": "", "getNoSpinUop": "C16", "getUop": "C16 C22", "addOps": "C17 C22", "get2p3dSlaterCondonUop": "C16 C22", "getSOCop": "C16 C22", "gethHfieldop": "C16 C22",
       "c2i": "C05", "i2c": "C05", "getLz3d": "C18", "getSz3d": "C18", "getSsqr3d": "C18", "getLsqr3d": "C18", "getTraceDensityMatrix": "C18", "getDensityMatrix": "C18",
       "getDensityMatrixCubic": "C18", "getEgT2gOccupation": "C18", "applySz3d": "C18", "applyLz3d": "C18", "applySplus3d": "C18", "applyLplus3d": "C18", "applySminus3d": "C18",
       "applyLminus3d": "C18", "applyOp": "C03 C04 C13 C14", "get_hamiltonian_matrix": "C10 C21", "get_hamiltonian_matrix_from_h_dict": "C10 C08 C07", "expand_basis": "C07 C08 C11",
       "expand_basis_and_hamiltonian": "C07 C08 C10 C13", "get_tridiagonal_krylov_vectors": "C13 C11 C14", "add": "C17", "norm2": "C17", "thermal_average": "C20",
       "get_hamiltonian_operator": "C22", "read_pickled_file": "C22", "get_hamiltonian_operator_using_CF": "C22", "get_CF_hamiltonian": "C22", "read_h0_CF_file": "C22",
       "dict_chunks_from_one_MPI_rank": "C12", "allgather_dict": "C12 C08", "simulate_spectra": "C23 C25", "getDipoleOperators": "C19", "getDaggeredDipoleOperators": "C19",
       "getDipoleOperator": "C19", "getNIXSOperators": "C19", "getNIXSOperator": "C19", "getInversePhotoEmissionOperators": "C19", "getPhotoEmissionOperators": "C19",
       "getGreen": "C13 C14", "getSpectra": "C14 C04 C11", "getRIXSmap": "C15 C14 C11 C04", "main": "C23 C24 C25"}
FILES = ["average.py", "create.py", "remove.py", "finite.py", "get_spectra.py", "get_spectra_using_CF.py", "mpi_comm.py", "product_state_representation.py", "spectra.py"]
FOR_FILE = {"create.py": "C02", "remove.py": "C02", "product_state_representation.py": "C01"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def quiet(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") in ("print", "printGaunt")


def edits(n):
    """in-place edits of node n: list of (name, do)"""
    out = []
    if isinstance(n, ast.Compare):
        t = CMP.get(type(n.ops[0]))
        if t:
            out.append(("cmp", lambda n, t=t: n.ops.__setitem__(0, t())))
    if isinstance(n, (ast.BinOp, ast.AugAssign)):
        t = BIN.get(type(n.op))
        if t:
            out.append(("op", lambda n, t=t: setattr(n, "op", t())))
    if isinstance(n, ast.Constant) and n.value is not None:
        if isinstance(n.value, bool):
            out.append(("bool", lambda n: setattr(n, "value", not n.value)))
        elif isinstance(n.value, int):
            out.append(("+1", lambda n: setattr(n, "value", n.value + 1)))
            out.append(("-1", lambda n: setattr(n, "value", n.value - 1)))
        elif isinstance(n.value, (float, complex)):
            out.append(("*10", lambda n: setattr(n, "value", n.value * 10 if abs(n.value) < .01 else n.value * 1.5)))
            out.append(("neg", lambda n: setattr(n, "value", -n.value)))
    if isinstance(n, ast.BoolOp):
        out.append(("bool", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
        out.append(("un", lambda n: setattr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else (setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))))
    if isinstance(n, ast.Call):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in ("conj", "conjugate", "copy", "deepcopy", "abs", "sqrt", "real", "frozenset", "sorted", "tuple"):
            def strip(n):
                inner = n.args[0] if n.args else n.func.value
                n.func, n.args, n.keywords = ast.Name("_same", ast.Load()), [inner], []
            out.append(("strip-" + name, strip))
        if name in ("min", "max"):
            out.append(("minmax", lambda n: setattr(n.func, "id", "max" if n.func.id == "min" else "min") if isinstance(n.func, ast.Name) else None))
        if len(n.args) >= 2 and name not in ("print", "range", "isinstance", "zip"):
            for k in range(len(n.args) - 1):
                out.append(("swap%d" % k, lambda n, k=k: (lambda a: (n.args.__setitem__(k, a[k + 1]), n.args.__setitem__(k + 1, a[k])))(list(n.args))))
    if isinstance(n, ast.Attribute) and n.attr in ("real", "imag", "T") and isinstance(n.ctx, ast.Load):
        out.append(("attr", lambda n: setattr(n, "attr", {"real": "imag", "imag": "real", "T": "real"}[n.attr])))
    if isinstance(n, ast.If):
        out.append(("always", lambda n: setattr(n, "test", ast.Constant(True))))
        out.append(("never", lambda n: setattr(n, "test", ast.Constant(False))))
    if isinstance(n, (ast.AugAssign, ast.Delete)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript)):
        out.append(("drop", None))
    if isinstance(n, ast.Break):
        out.append(("nobreak", None))
    if isinstance(n, ast.Continue):
        out.append(("nocontinue", None))
    return out


def sites(tree):
    """(function, path to node, edit name) for all edits"""
    out = []

    def walk(n, path, fn):
        if quiet(n) or isinstance(n, (ast.Assert, ast.Raise, ast.JoinedStr)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            return
        if isinstance(n, ast.If) and ast.unparse(n.test) in ("rank == 0", "verbose_extra") and all(quiet(s) or "t0" in ast.unparse(s) for s in n.body):
            return
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            return
        if isinstance(n, ast.FunctionDef):
            fn = n.name
        if fn:
            for name, _ in edits(n):
                out.append((fn, tuple(path), name, getattr(n, "lineno", 0)))
        for f, v in ast.iter_fields(n):
            if f in ("decorator_list", "annotation", "returns"):
                continue
            if isinstance(v, ast.AST):
                walk(v, path + [(f, None)], fn)
            elif isinstance(v, list):
                for k, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(f, k)], fn)
    walk(tree, [], None)
    return out


def at(tree, path):
    n = tree
    for f, k in path:
        n = getattr(n, f) if k is None else getattr(n, f)[k]
    return n


def mutant(src, path, name):
    tree = ast.parse(src)
    n = at(tree, path)
    before = ast.unparse(n)
    if name in ("drop", "nobreak", "nocontinue"):
        f, k = path[-1]
        getattr(at(tree, path[:-1]), f)[k] = ast.Pass()
        after = "pass"
    else:
        dict(edits(n))[name](n)
        after = ast.unparse(n)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + "\n\ndef _same(x):\n    return x\n", before, after


def main():
    out, num, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    jobs = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 3
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    rng = random.Random(seed)
    pool = {}
    for f in FILES:
        src = open("/repo/" + ED + f).read()
        for s in sites(ast.parse(src)):
            if (f in FOR_FILE or MAP.get(s[0])) and (not only or s[0] in only):
                pool.setdefault((f, s[0]), []).append(s)
    todo, seen = [], set()
    keys = sorted(pool)
    while len(todo) < num and keys:  # functions evenly weighted by the square root of their size
        f, fn = rng.choices(keys, [len(pool[k]) ** .5 for k in keys])[0]
        s = rng.choice(pool[f, fn])
        if (f, s) not in seen:
            seen.add((f, s))
            todo.append((f, s))
        elif len(seen) >= sum(map(len, pool.values())):
            break
    res = []

    def run(x):
        f, (fn, path, name, line) = x
        src = open("/repo/" + ED + f).read()
        new, b, a = mutant(src, path, name)
        r = {"file": f, "fn": fn, "line": line, "edit": name, "before": b[:160], "after": a[:160], "by": None}
        if ast.unparse(ast.parse(src)) + "\n\ndef _same(x):\n    return x\n" == new:
            r["by"] = "same"
            return done(r)
        d = tempfile.mkdtemp(prefix="mut-")
        try:
            shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
            open(d + "/r/" + ED + f, "w").write(new)
            env = dict(os.environ, PYTHONPATH=d + "/r", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=d + "/r")
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "impurityModel/test"], cwd=d + "/r", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                bad = t.returncode != 0
            except subprocess.TimeoutExpired:
                bad = True
            if bad:
                r["by"] = "tests"
                return done(r)
            for c in (FOR_FILE.get(f) or MAP[fn]).split():
                log = d + "/log"
                p = subprocess.run(["timeout", "-k", "5", "600", V + "/bin/check", c], env=env, stdout=open(log, "w"), stderr=subprocess.STDOUT)
                if p.returncode == 1:
                    r["by"] = c
                    v = [x for x in open(log, errors="replace") if x.startswith("VIOLATION")]
                    r["clause"] = v[0].strip()[-80:] if v else ""
                    break
                if p.returncode != 0:
                    r["rc"] = "%s:%d" % (c, p.returncode)
            return done(r)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def done(r):
        with open(out, "a") as fh:
            fh.write(json.dumps(r) + "\n")
        res.append(r)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run, todo))
    print(len(res), "mutants,", sum(r["by"] == "tests" for r in res), "fail the tests,", sum(bool(r["by"]) and r["by"].startswith("C") for r in res), "caught,",
          sum(r["by"] is None for r in res), "unnoticed")


main()
