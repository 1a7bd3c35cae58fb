"""C08: VTK export read back by an independent reader."""
import itertools
import os
from pathlib import Path

import numpy as np

from lib import gen, vti
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "explicit-state exploration of generate/export histories with an independent file reader"
RULE = (
    "all histories over generate(1), generate(2), export(str), export(Path) on each grid; after every export the file is parsed by "
    "an independent reader and compared bit for bit with the field; the field itself must be that of the history without exports. "
    "A state is (grid, blocks, last operation)."
)
BOUNDS = "27 grids of levels 0..2 and 2 larger ones, x 2 domains, 1..3 blocks; 7 larger or extreme ones (up to 40 blocks, 65 points per direction, velocities from 1e-3 to 1e6, sizes from 1e-3 to 1e5); all histories of length 4 (quick; 5 thorough) on 3 configurations; 6 file-name forms"
ASSUMPTIONS = ["appended raw VTK image files as written by pyevtk"]
P = gen.PROF["log"]


def check_file(path, field, c, what):
    d = vti.read(path)
    n = list(field.shape[:3])
    require(d["cells"] == n, f"{what}: cells", got=d["cells"], want=n)
    require(d["piece"] == d["extent"], f"{what}: piece extent", got=d["piece"])
    h = np.array(c["dims"], dtype=float) / (2.0 ** np.array(c["levels"]) + 1)
    close_rel(d["spacing"], h, f"{what}: spacing", rtol=1e-12)
    require(d["origin"] == [0.0, 0.0, 0.0], f"{what}: origin", got=d["origin"])
    require("wind" in d["cell"], f"{what}: no wind data", got=list(d["cell"]))
    w = d["cell"]["wind"]
    require(w.shape == field.shape and np.array_equal(w, field), f"{what}: wind values differ from the field")


def grid_case(ck, c, n, uref=5.0):
    g = gen.build(c)
    f = g.generate(n, **dict(P, uref=uref))
    require(np.isfinite(f).all(), "field not finite")
    keep = f.copy()
    base = os.path.join(ck.scratch, "g")
    if os.path.exists(base + ".vti"):
        os.unlink(base + ".vti")
    g.save_to_vtk(base)
    check_file(base + ".vti", keep, c, f"{c['levels']} {n} blocks")
    require(np.array_equal(keep, g.total_fluctuation), "export changed the field")
    ck.step(2)
    ck.state(c["levels"], c["dims"], n)
    ck.outcome(f)


def history(ck, name, c, whole, hist):
    g = gen.build(c)
    nx = 2 ** c["levels"][0] + 1
    done = 0
    d = os.path.join(ck.scratch, "h")
    os.makedirs(d, exist_ok=True)
    files = {}
    for i, op in enumerate(hist):
        what = ".".join(hist[: i + 1])
        if op[0] == "g":
            f = g.generate(int(op[1]), **P)
            done += int(op[1])
        elif done:
            if op == "xs":
                p = os.path.join(d, "a")
                g.save_to_vtk(p)
            else:
                p = os.path.join(d, "b")
                g.save_to_vtk(Path(p))
            files[p] = g.total_fluctuation.copy()
            for q, v in files.items():
                check_file(q + ".vti", v, c, f"after {what}: {os.path.basename(q)}")
        require(g.total_fluctuation.shape == whole[: done * nx].shape and np.allclose(g.total_fluctuation, whole[: done * nx], atol=2e-4), f"after {what}: field")
        ck.step()
        ck.state(name, done, op, sorted(files))
    ck.outcome(name, done)


def names(ck, c, form):
    d = os.path.join(ck.scratch, "n")
    os.makedirs(os.path.join(d, "sub dir"), exist_ok=True)
    g = gen.build(c)
    f = g.generate(1, **P)
    mk = {
        "str": (os.path.join(d, "x"), str), "path": (os.path.join(d, "y"), Path), "dots": (os.path.join(d, "run.v1"), str),
        "pathdots": (os.path.join(d, "run.v2.0"), Path), "space": (os.path.join(d, "sub dir", "a b"), Path), "unicode": (os.path.join(d, "wind_é"), str),
    }[form]
    p = mk[0]
    # an older, longer file of the same name must be replaced completely
    with open(p + ".vti", "wb") as fh:
        fh.write(b"x" * 100000)
    g.save_to_vtk(mk[1](p))
    check_file(p + ".vti", f, c, f"name form {form}")
    ck.step()
    # relative names are relative to the working directory
    os.chdir(d)
    try:
        g.save_to_vtk(mk[1]("rel"))
        check_file(os.path.join(d, "rel.vti"), f, c, "relative name")
    finally:
        os.chdir(ck.scratch)
    ck.state("names", form)


def run(ck):
    lv = range(3)
    for lev in list(itertools.product(lv, lv, lv)) + [(3, 2, 1), (1, 3, 4)]:
        for dims, n in (((4.0, 3.0, 2.0), 1), ((1.0, 70.0, 33.0), 2), ((700.0, 0.9, 5.0), 3)):
            c = gen.base(levels=lev, dims=dims, L=0.5 * min(dims), T=0.2, model="Mann" if n == 2 else "VK", blend=n)
            ck.case(f"{lev}/{dims}/{n}", grid_case, ck, c, n)
    for lev, dims, n, uref in (((1, 1, 1), (4.0, 3.0, 2.0), 12, 8.0), ((0, 1, 0), (1e-3, 2e-3, 5e-3), 40, 70.0), ((2, 0, 2), (9e4, 3e4, 1e5), 3, 2500.0), ((1, 5, 1), (4.0, 3.0, 2.0), 1, 1e-3),
                               ((6, 0, 1), (4.0, 3.0, 2.0), 3, 300.0), ((0, 0, 6), (4.0, 3.0, 2.0), 2, 1e6), ((3, 3, 3), (40.0, 30.0, 20.0), 25, 30.0)):
        c = gen.base(levels=lev, dims=dims, L=0.5 * min(dims), T=0.2, blend=1)
        ck.case(f"large/{lev}/{dims}/{n}/{uref:g}", grid_case, ck, c, n, uref)
    from lib.mc import quiet
    for name, c in {"mann": gen.base(levels=(1, 2, 1)), "vk-lf": gen.base(model="VK", lf=gen.LFCFG, levels=(2, 1, 2), blend=0), "int-dims": gen.base(dims=(4, 3, 2), levels=(1, 1, 1))}.items():
        depth = 5 if ck.thorough else 4
        with quiet():
            whole = gen.build(c).generate(2 * depth, **P).copy()
        for h in itertools.product(("g1", "g2", "xs", "xp"), repeat=depth):
            if h[0][0] == "g" and any(o[0] == "x" for o in h):
                ck.case(f"{name}/{'.'.join(h)}", history, ck, name, c, whole, h)
        for form in ("str", "path", "dots", "pathdots", "space", "unicode"):
            ck.case(f"{name}/name-{form}", names, ck, c, form)
