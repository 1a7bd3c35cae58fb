"""Systematic mutants of the package, each tried against the checks of its file until one reports a violation.

    mutate.py list FILE...            number of mutants
    mutate.py run OUT.jsonl FILE...   (env J = parallel mutants, STEP/OFFSET = every STEP-th mutant)
Survivors are either equivalent, outside every property, or a gap in the checks; they are read by hand."""
import ast, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/drdmannturb/"
CHECKS = {
    "fluctuation_generation/fluctuation_field_generator.py": "C03 C04 C12 C05 C01 C08 C09 C20 C02",
    "fluctuation_generation/gaussian_random_fields.py": "C07 C03 C02",
    "fluctuation_generation/sampling_methods.py": "C07 C03 C02",
    "fluctuation_generation/covariance_kernels.py": "C06 C03",
    "fluctuation_generation/nn_covariance.py": "C06 C20",
    "fluctuation_generation/wind_plot.py": "C09",
    "fluctuation_generation/low_frequency/fluctuation_field_generator.py": "C10 C11 C13 C12 C02 C09",
    "spectra_fitting/one_point_spectra.py": "C14 C22 C15 C16 C17 C28",
    "spectra_fitting/loss_functions.py": "C18 C30 C19 C29",
    "spectra_fitting/calibration.py": "C16 C17 C20 C23 C27 C19 C21 C29 C28",
    "spectra_fitting/data_generator.py": "C24 C25",
    "nn_modules.py": "C15 C16",
    "common.py": "C15 C14 C20 C29",
    "fluctuation_generation/low_frequency/large_plot.py": "C31",
    "parameters.py": "C26",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "+"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}


def mutants(path):
    src = open(PKG + path).read()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col  # noqa: E731
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))  # noqa: E731
    out = []

    def add(n, s, e, new, kind):
        out.append(dict(file=path, line=n.lineno, s=s, e=e, new=new, kind=kind, old=b[s:e].decode()))

    def between(l, r, op_text, n, kind):
        s, e = seg(l)[1], seg(r)[0]
        mid = b[s:e].decode()
        out.append(dict(file=path, line=n.lineno, s=s, e=e, new=" " + op_text + " " + ("(" * mid.count("(")), kind=kind, old=mid)) if ")" not in mid else None

    def visit(n, skip=False):
        if isinstance(n, (ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "warn") or isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, (ast.FunctionDef,)):
            for x in n.body:
                visit(x)
            for x in n.args.defaults + n.args.kw_defaults:
                if x is not None:
                    visit(x)
            return
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(n.left, n.right, BIN[type(n.op)], n, "binop")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for t in CMP.get(type(n.ops[0]), []):
                between(n.left, n.comparators[0], t, n, "cmp")
        if isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], "or" if isinstance(n.op, ast.And) else "and", n, "bool")
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            s, e = seg(n)
            v = n.value
            if isinstance(v, bool):
                add(n, s, e, str(not v), "const")
            elif isinstance(v, int):
                add(n, s, e, str(v + 1), "const")
                if v > 0:
                    add(n, s, e, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, s, e, repr(v * 1.3 + (0.1 if v == 0 else 0)), "const")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            s, e = seg(n)
            add(n, s, e, b[seg(n.operand)[0]:seg(n.operand)[1]].decode(), "unary")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n, ast.While):
            s, e = seg(n.test)
            add(n, s, e, "True", "if")
            add(n, s, e, "False", "if")
        if isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
            s, e = seg(n)
            add(n, s, e, "pass", "delete")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(ast.parse(src))
    res = []
    for m in out:
        if m is None:
            continue
        t = b[: m["s"]] + m["new"].encode() + b[m["e"]:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        if any(w in lines[m["line"] - 1] for w in ("cuda", "device ==", "get_device")):
            continue  # no such hardware here
        m["text"] = t
        m["id"] = f"{path}:{m['line']}:{m['s']}:{m['kind']}:{m['new']}"
        res.append(m)
    return res


def trial(m):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        t = os.path.join(d, "repo")
        shutil.copytree("/repo/drdmannturb", os.path.join(t, "drdmannturb"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(t, "drdmannturb", m["file"]), "wb").write(m["text"])
        v = os.path.join(d, "verif")
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns("seeded", "evidence", ".git", "__pycache__", "tools", "design"))
        for pid in os.environ.get("CHECKS", CHECKS[m["file"]]).split():
            try:
                r = subprocess.run(["bash", os.path.join(v, "run.sh"), pid, "quick"], capture_output=True, text=True, timeout=600,
                                   env=dict(os.environ, VERIF_REPO=t, VERIF_SEED="1", VERIF_JOBS=os.environ.get("VJ", "2"), VERIF_LIMIT="300", VERIF_FAST="1"))
            except subprocess.TimeoutExpired:
                return "timeout " + pid
            if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout:
                return "killed " + pid
            if r.returncode != 0:
                return f"error {pid} rc={r.returncode} {r.stderr[-200:]}"
        return "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    mode = sys.argv[1]
    files = sys.argv[3 if mode == "run" else 2 :] or list(CHECKS)
    ms = [m for f in files for m in mutants([x for x in CHECKS if x.endswith(f)][0] if f not in CHECKS else f)]
    ms = ms[int(os.environ.get("OFFSET", 0)) :: int(os.environ.get("STEP", 1))]
    if mode == "list":
        from collections import Counter
        print(Counter(m["file"] for m in ms), len(ms))
        return
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.loads(l)["id"] for l in open(sys.argv[2])}
    lock = threading.Lock()

    def go(m):
        if m["id"] in done:
            return
        r = trial(m)
        with lock, open(sys.argv[2], "a") as f:
            f.write(json.dumps(dict(id=m["id"], file=m["file"], line=m["line"], kind=m["kind"], old=m["old"], new=m["new"], result=r)) + "\n")

    with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        list(ex.map(go, ms))


main()
