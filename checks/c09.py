"""C09: divergence evaluator, point grid, component split and volume figures."""
import itertools

import numpy as np

from drdmannturb import FluctuationFieldGenerator
from drdmannturb.fluctuation_generation import (create_grid, format_wind_field, plot_velocity_components,
                                                plot_velocity_magnitude)
from lib import gen
from lib.mc import close, expect_raises, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of unit impulses (every input of a basis) on every grid shape against an independent difference operator"
RULE = (
    "for every grid shape and spacing, the response to a unit impulse at every point and component is compared with an "
    "independently written difference operator - the divergence being linear this determines it for every field - together with "
    "superposed integer-coded fields; histories of generate/evaluate for the default field; every wrong spacing length and component "
    "count; for grids and figures, every point's coordinates and value. A state is (helper, shape, spacing, layout or impulse)."
)
BOUNDS = "divergence: all shapes in {2,3,4}^3 (quick), {2..5}^3 (thorough), 3 spacings, 7 extreme or nearly equal spacings, 5 elongated shapes up to 40 points, 4 larger fields, 3 input layouts; figures: all shapes {1,2,3}^3, 2 spacings, 3 layouts, both reshape modes; low-frequency maps on 108 grids; 5 generate/evaluate histories on 3 generators; negative spacings, fields with zero or NaN parts"
ASSUMPTIONS = ["second-order central differences in the interior and first-order one-sided differences at the boundary, as documented (numpy.gradient)"]
P = gen.PROF["log"]
SP = [(1.0, 1.0, 1.0), (0.5, 0.3, 2.0), (7.0, 11.0, 0.01)]
EXTREME = [(1e-9, 3e-9, 2e-9), (1.0, 1.000001, 0.999999), (1e8, 2e6, 3e-7), (2.0, 3.0, 3.0), (3.0, 3.0, 2.0), (3.0, 2.0, 3.0), (1e-12, 1.0, 1e12)]
_g = None


def g0():
    global _g
    if _g is None:
        _g = gen.build(gen.base(levels=(0, 0, 0)))
    return _g


def diff(f, h, ax):
    f = np.moveaxis(np.asarray(f, dtype=float), ax, 0)
    out = np.empty_like(f)
    n = len(f)
    for i in range(n):
        a, b = max(i - 1, 0), min(i + 1, n - 1)
        out[i] = (f[b] - f[a]) / ((b - a) * h)
    return np.moveaxis(out, 0, ax)


def div(f, sp):
    return sum(diff(f[..., c], sp[c], c) for c in range(3))


def layouts(f):
    yield "C", np.ascontiguousarray(f)
    yield "F", np.asfortranarray(f)
    yield "split", np.moveaxis(np.ascontiguousarray(np.moveaxis(f, -1, 0)), 0, -1)


def impulses(ck, shape, sp):
    g = g0()
    for idx in itertools.product(*map(range, shape), range(3)):
        f = np.zeros(shape + (3,))
        f[idx] = 1.0
        close(g.evaluate_divergence(sp, f), div(f, sp), f"impulse {idx} on {shape}", rtol=1e-12)
        ck.step()
        ck.state("imp", shape, sp, idx)
    coded = np.arange(np.prod(shape) * 3, dtype=float).reshape(shape + (3,)) % 17 - 5
    want = div(coded, sp)
    for name, f in layouts(coded):
        keep = f.copy()
        for form in (tuple, list, np.array):
            close(g.evaluate_divergence(form(sp), f), want, f"{name} layout, {form.__name__} spacing", rtol=1e-12)
            close(g.evaluate_divergence(spacing=form(sp), field=f), want, f"{name} by keyword", rtol=1e-12)
        require(np.array_equal(keep, f), "divergence changed its argument")
        ck.step()
        ck.state("layout", shape, sp, name)
    close(g.evaluate_divergence(sp, coded.astype(int)), want, "integer field", rtol=1e-12)
    flip = tuple(-h for h in sp)
    close(g.evaluate_divergence(flip, coded), -want, "grid numbered backwards", rtol=1e-12)
    flip = (sp[0], -sp[1], sp[2])
    close(g.evaluate_divergence(flip, coded), div(coded, flip), "one axis numbered backwards", rtol=1e-12)
    hole = coded.copy()
    hole[0, 0, 0, 1] = np.nan
    close(np.isnan(g.evaluate_divergence(sp, hole)).astype(float), np.isnan(div(hole, sp)).astype(float), "extent of a missing value", rtol=0)
    close(g.evaluate_divergence(sp, 3.0 * coded + 2.0), 3 * want, "affine", rtol=1e-12)
    ck.outcome(want)


def large(ck, shape, sp):
    f = (np.arange(np.prod(shape) * 3, dtype=float).reshape(shape + (3,)) * 0.37) % 23 - 9
    for name, a in layouts(f):
        close(g0().evaluate_divergence(sp, a), div(f, sp), f"{name} field of shape {shape}", rtol=1e-12)
        ck.step()
    ck.state("large", shape)


def rejects(ck, n, comps):
    g = g0()
    f = np.ones((3, 3, 3, comps))
    if n != 3 or comps != 3:
        for form in (tuple, list, np.array):
            expect_raises(ValueError, lambda: g.evaluate_divergence(form([1.0] * n), f), f"{n} spacings, {comps} components")
    else:
        require(np.array_equal(g.evaluate_divergence((1.0,) * 3, f), np.zeros((3, 3, 3))), "constant field")
    ck.step()
    ck.state("reject", n, comps)


def default(ck, name, c, hist):
    g = gen.build(c)
    sp = tuple(np.array(c["dims"]) / (2.0 ** np.array(c["levels"]) + 1))
    have = None
    for op in hist:
        if op == "g":
            have = g.generate(1, **P).copy()
        elif op == "d" and have is not None:
            close(g.evaluate_divergence(sp), div(have, sp), f"{name} default field", rtol=1e-9)
            other = np.ones_like(have)
            require(np.max(np.abs(g.evaluate_divergence(sp, other))) == 0, "field argument ignored")
            require(np.max(np.abs(g.evaluate_divergence(sp, np.zeros_like(have)))) == 0, "zero field argument ignored")
            close(g.evaluate_divergence(sp, -have[:2]), -div(have[:2], sp), "part of the field as argument", rtol=1e-9)
            require(np.array_equal(have, g.total_fluctuation), "divergence changed the field")
        elif op == "x":
            expect_raises(ValueError, lambda: g.evaluate_divergence((1.0, 1.0)), "bad spacing, default field")
        ck.step()
        ck.state(name, hist, op)


def grid(ck, shape, sp):
    for form in (tuple, list, np.array):
        G = create_grid(form(sp), form(shape))
        require(len(G) == 3, "three coordinate arrays")
        for a in range(3):
            require(G[a].shape == shape, "grid shape", got=G[a].shape, want=shape)
            for idx in itertools.product(*map(range, shape)):
                require(abs(G[a][idx] - idx[a] * sp[a]) <= 1e-12 * abs(idx[a] * sp[a]), f"coordinate {a} of point {idx}", got=G[a][idx])
        # a wind-field shape has a fourth entry, ignored
        G4 = create_grid(form(sp), form(shape + (3,)))
        require(all(np.array_equal(x, y) for x, y in zip(G, G4)), "grid from a field shape")
        ck.step()
    ck.state("grid", shape, sp)


def split(ck, shape):
    f = np.arange(np.prod(shape) * 3, dtype=float).reshape(shape + (3,))
    for name, a in layouts(f):
        parts = format_wind_field(a)
        require(len(parts) == 3, "three parts")
        for i in range(3):
            require(np.array_equal(parts[i], f[..., i]) and parts[i].flags.c_contiguous, f"{name}: component {i}")
            require(not np.shares_memory(parts[i], a), f"{name}: component {i} shares memory with the field")
        for i, j in ((0, 1), (0, 2), (1, 2)):
            require(not np.shares_memory(parts[i], parts[j]), "components share memory")
        parts[0][...] = -1
        require(np.array_equal(a, f), f"{name}: writing to a component changed the field")
        ck.step()
        ck.state("split", shape, name)


def as_map(trace):
    x, y, z, v = (np.asarray(getattr(trace, k), dtype=float) for k in ("x", "y", "z", "value"))
    require(x.shape == y.shape == z.shape == v.shape, "trace lengths", got=[x.shape, y.shape, z.shape, v.shape])
    return {(round(float(a), 9), round(float(b), 9), round(float(c), 9)): float(w) for a, b, c, w in zip(x, y, z, v)}


def whole(tr, what):
    """No part of the data is cut off by the iso-value range or the colour range."""
    v = np.asarray(tr.value, dtype=float)
    require((tr.isomin is None or tr.isomin <= v.min()) and (tr.isomax is None or tr.isomax >= v.max()), f"{what}: values cut off", got=(tr.isomin, tr.isomax), want=(v.min(), v.max()))
    require(tr.visible in (None, True), f"{what}: hidden")


def figure(ck, shape, sp, reshape):
    f = (np.arange(np.prod(shape) * 3, dtype=float).reshape(shape + (3,)) * 1.7 - 3) % 11
    pts = list(itertools.product(*map(range, shape)))
    for name, a in layouts(f):
        keep = a.copy()
        fig = plot_velocity_components(sp, a, reshape=reshape)
        require(len(fig.data) == 3, "three component traces", got=len(fig.data))
        for i, tr in enumerate(fig.data):
            whole(tr, f"{name}: component {i}")
            m = as_map(tr)
            want = {tuple(round(p[d] * sp[d], 9) for d in range(3)): f[p + (i,)] for p in pts}
            require(m == want, f"{name}: component {i} values at their coordinates", got=list(m.items())[:3], want=list(want.items())[:3])
            scene = tr.scene or "scene"
            require(scene == ("scene" if i == 0 else f"scene{i + 1}"), f"component {i} drawn in panel {scene}")
        fig = plot_velocity_magnitude(sp, a, reshape=reshape)
        require(len(fig.data) == 1, "one magnitude trace")
        whole(fig.data[0], f"{name}: magnitude")
        m = as_map(fig.data[0])
        for p in pts:
            k = tuple(round(p[d] * sp[d], 9) for d in range(3))
            require(k in m and abs(m[k] - np.sqrt(np.sum(f[p] ** 2))) < 1e-9, f"{name}: magnitude at {p}", got=m.get(k))
        require(len(m) == len(pts), "magnitude point count")
        require(np.array_equal(keep, a), "plotting changed the field")
        ck.step(2)
        ck.state("fig", shape, sp, name, reshape)


def maps(ck, c, hist):
    """The low-frequency maps: every sample of the current field at its coordinates, in its own panel, on one symmetric colour scale."""
    import matplotlib.pyplot as plt

    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    g = LowFreqGenerator(c, seed=4)
    for i, op in enumerate(hist):
        what = f"{hist[: i + 1]}"
        if op == "g":
            g.generate()
            ck.step()
            continue
        plt.close("all")
        if "g" not in hist[:i]:
            expect_raises(RuntimeError, g.plot_velocity_fields, f"{what}: plotting before generating")
            continue
        u = {"u": g.u1.copy(), "v": g.u2.copy()}
        g.plot_velocity_fields()
        require(np.array_equal(u["u"], g.u1) and np.array_equal(u["v"], g.u2), f"{what}: plotting changed the field")
        axes = [a for a in plt.gcf().axes if a.images]
        require(len(axes) == 2, f"{what}: two maps", got=len(axes))
        lims = []
        top = max(np.max(np.abs(x)) for x in u.values())
        for a in axes:
            name = a.get_title().strip()[-1]
            require(name in u, f"{what}: panel title", got=a.get_title())
            w = u.pop(name)
            im = a.images[0]
            d = np.asarray(im.get_array(), dtype=float)
            x0, x1, y0, y1 = im.get_extent()
            require(d.shape == w.T.shape, f"{what}: {name}: shape of the map", got=d.shape, want=w.T.shape)
            if im.origin == "upper":
                d = d[::-1]
            if x1 < x0:
                x0, x1, d = x1, x0, d[:, ::-1]
            if y1 < y0:
                y0, y1, d = y1, y0, d[::-1]
            close(d.T, w, f"{what}: {name}: values", rtol=1e-12)
            n1, n2 = w.shape
            px, py = x0 + (np.arange(n1) + 0.5) * (x1 - x0) / n1, y0 + (np.arange(n2) + 0.5) * (y1 - y0) / n2
            close(px * 1000, g.user_x_coords, f"{what}: {name}: x of the samples", rtol=1e-9)
            close(py * 1000, g.user_y_coords, f"{what}: {name}: y of the samples", rtol=1e-9)
            lims.append(im.get_clim())
            xl, yl = sorted(a.get_xlim()), sorted(a.get_ylim())
            require(xl[0] <= px[0] and xl[1] >= px[-1] and yl[0] <= py[0] and yl[1] >= py[-1], f"{what}: {name}: view limits cut the map")
        for lo, hi in lims:
            require(abs(lo + hi) <= 1e-12 * hi and hi >= top * (1 - 1e-12), f"{what}: colour scale symmetric and wide enough", got=(lo, hi), want=top)
        require(np.allclose(lims[0], lims[1]), f"{what}: one colour scale for both maps", got=lims)
        plt.close("all")
        ck.step()
        ck.state("maps", c, hist[: i + 1])


def run(ck):
    for f1, f2, e1, e2, L in itertools.product((1.0, 3.0, 8.0), (1.0, 6.0), (1, 3, 5), (1, 2, 4), (10.0, 15000.0)):
        c = dict(sigma2=0.6, L_2d=L, psi=0.6, z_i=0.1 * L, L1_factor=f1, L2_factor=f2, exp1=e1, exp2=e2)
        ck.case(f"maps/{f1}/{f2}/{e1}/{e2}/{L}", maps, ck, c, "pgpgp" if e1 == 3 else "gp")
    top = range(2, 6 if ck.thorough else 5)
    for shape in itertools.product(top, top, top):
        for sp in SP:
            ck.case(f"div/{shape}/{sp}", impulses, ck, shape, sp)
    for shape in ((17, 3, 2), (2, 17, 3), (3, 2, 17), (33, 2, 2), (2, 2, 40)):
        ck.case(f"div/{shape}/{SP[1]}", impulses, ck, shape, SP[1])
    for sp in EXTREME:
        for shape in ((2, 3, 4), (4, 3, 2), (3, 3, 3)):
            ck.case(f"div/{shape}/{sp}", impulses, ck, shape, sp)
            ck.case(f"grid/{shape}/{sp}", grid, ck, shape, sp)
    for a, n in itertools.product((0.1, 0.3, 0.7, 1.1, 0.01, 3.3, 1 / 3, 1e-3, 12.7), range(1, 13)):
        for i in range(3):
            ck.case(f"grid/step/{a:g}/{n}/{i}", grid, ck, tuple(n if i == j else 2 for j in range(3)), tuple(a if i == j else 1.0 for j in range(3)))
    for shape in ((70, 3, 2), (3, 130, 2), (2, 2, 300), (1100, 1, 1), (20, 21, 22)):
        ck.case(f"split/{shape}", split, ck, shape)
        ck.case(f"grid/{shape}", grid, ck, shape, (0.7, 0.3, 1.9))
        if max(shape) < 200:
            for r in (True, False):
                ck.case(f"fig/{shape}/{r}", figure, ck, shape, (0.7, 0.3, 1.9), r)
    for shape in ((70, 3, 2), (3, 130, 2), (2, 2, 300), (20, 21, 22)):
        ck.case(f"large/{shape}", large, ck, shape, (0.7, 0.3, 1.9))
    for n in range(7):
        for comps in range(1, 6):
            ck.case(f"reject/{n}/{comps}", rejects, ck, n, comps)
    for name, c in {"mann": gen.base(levels=(1, 2, 1)), "vk": gen.base(model="VK", levels=(2, 0, 1), blend=0), "lf": gen.base(lf=gen.LFCFG, levels=(1, 1, 1))}.items():
        for h in ("gd", "ggd", "gdgd", "gxdxgd", "gddgd"):
            ck.case(f"default/{name}/{h}", default, ck, name, c, h)
    small = range(1, 4)
    for shape in list(itertools.product(small, small, small)) + [(5, 1, 2), (2, 6, 1)]:
        ck.case(f"split/{shape}", split, ck, shape)
        for sp in SP[1:]:
            ck.case(f"grid/{shape}/{sp}", grid, ck, shape, sp)
            for r in (True, False):
                ck.case(f"fig/{shape}/{sp}/{r}", figure, ck, shape, sp, r)
