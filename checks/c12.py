"""C12: combination of the three-dimensional blocks with the two-dimensional low-frequency field."""
import itertools
import warnings

import numpy as np

from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
from lib import gen, ref
from lib.mc import close, expect_raises, require

LEVEL = "model_checking"
TECH = "exploration of all block-request splits and profile sequences on a lattice of domain geometries, differenced against the generator without the low-frequency model and an independent bilinear interpolator"
RULE = (
    "for every geometry (3D block narrower / as wide / wider than the 2D domain, field shorter / longer than it, several spacings and models) and "
    "every composition of the block sequence into calls with every profile sequence, the difference to the same generator without low-frequency model is "
    "compared point by point with an independent bilinear interpolation of the 2D field; interp_slice is enumerated over a lattice of target points "
    "inside, on, and outside the domain and on histories of generate and interp. A state is (geometry, blocks so far, call split)."
)
BOUNDS = "36 (quick) / 108 (thorough) geometries and 12 with up to 256 x 128 samples x all 8 compositions of 4 blocks; all 3-block sequences over 2 profiles; interp_slice on 21x17 lattices of 4 fields, scalar batches, unsorted targets; 3 models; two-sample low-frequency grids"
ASSUMPTIONS = ["points within 1e-9 of the edge of the sampled 2D domain may count as inside or outside", "the 2D samples are taken from the generator's own 2D object (their content is C11)"]
EDGE = 1e-9


def interp_ok(got, xs, ys, f, xt, yt, what, scale):
    """got (len(xt),len(yt)) equals the bilinear interpolation; points on the rim may be filled or zero."""
    want = ref.bilinear(xs, ys, f, xt, yt)
    sx, sy = EDGE * max(1.0, abs(xs[-1])), EDGE * max(1.0, abs(ys[-1]))
    rim = ((np.abs(np.asarray(xt) - xs[0]) < sx) | (np.abs(np.asarray(xt) - xs[-1]) < sx))[:, None] | ((np.abs(np.asarray(yt) - ys[0]) < sy) | (np.abs(np.asarray(yt) - ys[-1]) < sy))[None, :]
    clip = ref.bilinear(xs, ys, f, np.where(np.abs(np.asarray(xt) - xs[-1]) < sx, xs[-1], np.where(np.abs(np.asarray(xt) - xs[0]) < sx, xs[0], xt)),
                        np.where(np.abs(np.asarray(yt) - ys[-1]) < sy, ys[-1], np.where(np.abs(np.asarray(yt) - ys[0]) < sy, ys[0], yt)))
    require(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
    bad = ~(np.abs(got - want) <= scale)
    bad &= ~(rim & ((np.abs(got - clip) <= scale) | (np.abs(got) <= scale)))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        require(False, f"{what}: at x={xt[i[0]]:g} y={yt[i[1]]:g}", got=got[i], want=want[i])


def geometry(ck, name, c, splits, profs):
    n = 2 ** np.array(c["levels"]) + 1
    nx, ny, nz = (int(v) for v in n)
    for split in splits:
        g, h = gen.build(c), gen.build(c, lf=None)
        done = 0
        lf = g.low_freq_gen
        u = (np.array(lf.u1), np.array(lf.u2))
        for call, k in enumerate(split):
            p = gen.PROF[profs[call % len(profs)]]
            a, b = g.generate(k, **p), h.generate(k, **p)
            done += k
            require(a.shape == b.shape == (done * nx, ny, nz, 3), "shape", got=a.shape, want=b.shape)
            fin = np.isfinite(b).all(axis=(0, 1))  # a negative exponent has no finite mean at the ground
            require(fin[1:].all(), "not finite above the ground")
            d = np.where(fin, np.asarray(a, dtype=float), 0.0) - np.where(fin, np.asarray(b, dtype=float), 0.0)
            tol = 2e-5 * max(1.0, float(np.max(np.abs(b[:, :, fin[:, 0]]))))
            x = np.arange(done * nx) * c["dims"][0] / nx
            y = lf.user_L2 / 2 - c["dims"][1] / 2 + np.arange(ny) * c["dims"][1] / ny
            for comp in range(2):
                for z in np.flatnonzero(fin[:, comp]):
                    interp_ok(d[:, :, z, comp], lf.user_x_coords, lf.user_y_coords, u[comp], x, y, f"split {split} call {call + 1}: component {comp} at height index {z}", tol)
            require(np.max(np.abs(d[..., 2])) <= tol, f"split {split}: vertical component changed", got=np.max(np.abs(d[..., 2])))
            require(np.array_equal(u[0], lf.u1) and np.array_equal(u[1], lf.u2), "the 2D field changed during generation")
            ck.step()
            ck.state(name, split[: call + 1])
        ck.outcome(name, g.total_fluctuation)


def slices(ck, c, seed):
    g = LowFreqGenerator(c, seed=seed)
    expect_raises(RuntimeError, lambda: g.interp_slice(np.array([0.0]), np.array([0.0])), "interpolation before generation")
    g.generate()
    L1, L2 = g.user_L1, g.user_L2
    xt = np.unique(np.concatenate([np.linspace(-0.3 * L1, 1.3 * L1, 21), g.user_x_coords, [L1, L1 - g.user_dx / 2]]))
    yt = np.unique(np.concatenate([np.linspace(-0.3 * L2, 1.3 * L2, 17), g.user_y_coords, [L2]]))
    u = (g.u1.copy(), g.u2.copy())
    s = 1e-9 * max(np.max(np.abs(u[0])), np.max(np.abs(u[1])))
    out = g.interp_slice(xt, yt)
    for i in range(2):
        interp_ok(out[i], g.user_x_coords, g.user_y_coords, u[i], xt, yt, f"u{i + 1}", s)
    ck.step()
    ck.state("slice", c, seed)
    # any order, any subset: the value at a point does not depend on the other points
    for px, py in ((slice(None, None, -1), slice(None)), (slice(3, 4), slice(2, 3)), (slice(None, None, 2), slice(None, None, -3)), ([5, 1, 9, 1], [7, 7, 0])):
        o = g.interp_slice(xt[px], yt[py])
        for i in range(2):
            interp_ok(o[i], g.user_x_coords, g.user_y_coords, u[i], xt[px], yt[py], f"subset u{i + 1}", s)
        ck.step()
    require(np.array_equal(u[0], g.u1) and np.array_equal(u[1], g.u2), "interpolation changed the field")
    # regenerating: the new field is the one interpolated
    g.generate()
    require(not np.array_equal(u[0], g.u1), "regenerated field identical")
    o = g.interp_slice(xt, yt)
    for i in range(2):
        interp_ok(o[i], g.user_x_coords, g.user_y_coords, (g.u1, g.u2)[i], xt, yt, f"after regeneration u{i + 1}", s * 10)
    ck.outcome(out[0])


def two_objects(ck, c):
    a, b = LowFreqGenerator(c, seed=1), LowFreqGenerator(c, seed=2)
    a.generate()
    expect_raises(RuntimeError, lambda: b.interp_slice(np.array([1.0]), np.array([1.0])), "other object's field used")
    b.generate()
    xt, yt = a.user_x_coords[:-1] + 0.3, a.user_y_coords[:-1] + 0.2
    for g in (a, b, a):
        o = g.interp_slice(xt, yt)
        for i in range(2):
            interp_ok(o[i], g.user_x_coords, g.user_y_coords, (g.u1, g.u2)[i], xt, yt, "two objects", 1e-9)
        ck.step()
    ck.state("two", c)


def compositions(n):
    for m in range(n):
        for cuts in itertools.combinations(range(1, n), m):
            e = [0, *cuts, n]
            yield tuple(b - a for a, b in zip(e, e[1:]))


def run(ck):
    heights = itertools.cycle((2.0, 0.3, 60.0))
    # the 2D domain: 20 x 10 (exp 3,2); block lengths/widths relative to it
    lfs = {"std": gen.LFCFG, "fine": dict(gen.LFCFG, exp1=5, exp2=4), "aniso": dict(gen.LFCFG, exp1=3, exp2=4), "long": dict(gen.LFCFG, L1_factor=8.0, exp1=5)}
    if not ck.thorough:
        lfs.pop("fine")
    for (ln, lf), model, lx, ly in itertools.product(lfs.items(), ("Mann", "VK") if ck.thorough else ("VK",), (1.7, 4.0, 7.0, 25.0), (3.0, 10.0, 14.0)):
        for lev in ((1, 2, 1), (2, 1, 0)) if ck.thorough else ((2, 1, 1),):
            c = gen.base(model=model, dims=(lx, ly, next(heights)), levels=lev, lf=lf, L=0.4 * min(lx, ly), T=0.3, blend=2)
            ck.case(f"{ln}/{model}/{lx}x{ly}/{lev}", geometry, ck, f"{ln}{model}{lx}{ly}{lev}", c, list(compositions(4)), ("log",))
    # many samples of the 2D field, large blocks
    for ln, f, e in (("n2", (2.0, 1.0), (5, 7)), ("n1", (2.0, 1.0), (8, 4)), ("both", (3.0, 3.0), (7, 7)), ("tall", (1.0, 6.0), (3, 6)), ("two", (2.0, 1.0), (1, 1)), ("two1", (2.0, 1.0), (1, 4)), ("two2", (1.0, 2.0), (4, 1))):
        lf = dict(gen.LFCFG, L1_factor=f[0], L2_factor=f[1], exp1=e[0], exp2=e[1])
        for lev, lx, ly in (((3, 3, 1), 4.0, 7.0), ((5, 2, 0), 12.0, 3.0), ((2, 5, 0), 6.0, 12.0)):
            c = gen.base(model="VK", dims=(lx, ly, 2.0), levels=lev, lf=lf, L=1.0, T=0.3, blend=2)
            ck.case(f"fine-{ln}/{lx}x{ly}/{lev}", geometry, ck, f"{ln}{lx}{ly}{lev}", c, [(3,), (1, 2)], ("log",))
    for model in ("Mann", "VK"):
        c = gen.base(model=model, dims=(4.0, 3.0, 2.0), levels=(2, 1, 1), lf=gen.LFCFG, seed=0)
        for profs in itertools.product(("log", "pl"), repeat=3):
            ck.case(f"profiles/{model}/{'.'.join(profs)}", geometry, ck, f"p{model}{profs}", c, [(1, 1, 1)], profs)
        for p in ("pl2", "pln", "log2"):
            ck.case(f"profile/{model}/{p}", geometry, ck, f"q{model}{p}", c, [(3,), (1, 2)], (p,))
        for m in (1, 3, 9):
            ck.case(f"long/{model}/{m}", geometry, ck, f"l{model}{m}", c, [(m, 9 - m) if m < 9 else (9,)], ("log2",))
    for i, lf in enumerate((gen.LFCFG, lfs["aniso"], lfs["long"], dict(gen.LFCFG, L1_factor=1.0, L2_factor=3.0, exp1=1, exp2=3))):
        for s in (0, 5):
            ck.case(f"slices/{i}/{s}", slices, ck, lf, s)
        ck.case(f"two/{i}", two_objects, ck, lf)
