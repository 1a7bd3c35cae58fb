"""C01: histories of public operations on one generator, each prefix compared with the one-call field."""
import itertools
import os

import numpy as np

from lib import drd, gen
from lib.mc import require

LEVEL = "model_checking"
TECH = "explicit-state exploration of operation histories on the real generator"
RULE = (
    "explicit enumeration of operation histories on the real generator: alphabet generate(0..3), export, divergence, profile "
    "evaluation, repeated read; after every operation the accumulated field must equal the first blocks of the field a fresh "
    "generator makes in one call, and every array handed out earlier must be bit-identical to the copy taken then. A state is "
    "(configuration, accumulated field)."
)
BOUNDS = (
    "all histories of length 3 (quick; 4 thorough) over the 8-letter alphabet for 5 (quick; 16 thorough) configurations (models "
    "VK/Mann/DRD, blend 0..12, low-frequency on/off, double or single layer grids); all 2^5 compositions of 6 blocks, and "
    "all two-part splits of 24 blocks, for every configuration; all two-part splits and 3 regular partitions of 130 (thorough 260) "
    "blocks for 2 configurations; 7 histories on each of 11 larger grids (up to 65 points on any axis, site-scale dimensions)"
)
ASSUMPTIONS = [
    "same profile in all calls of one history (different profiles: C04)",
    "CPU, one process; tolerance 2e-5 of the field's largest value (single-precision transforms), bit-identity for data already handed out",
]
PROFS = ["log", "pl"]
ALPHA = ["g0", "g1", "g2", "g3", "vtk", "div", "prof", "read"]


def configs(ck):
    lf = gen.LFCFG
    b = gen.base
    path = None
    out = {
        "mann": b(),
        "mann-lf": b(lf=lf),
        "vk-b0": b(model="VK", blend=0, seed=0, dims=(3.0, 2.0, 5.0), levels=(1, 2, 1)),
        "vk-b12-lf": b(model="VK", blend=12, lf=dict(lf, L2_factor=0.2), T=0.0, seed=11),
        "mann-b1-lf": b(blend=1, lf=dict(lf, exp1=4, L1_factor=8.0), levels=(3, 2, 1), T=0.2),
        # the blocks run past the two-dimensional domain many times over
        "vk-lf-past-end": b(model="VK", dims=(7.0, 3.0, 2.0), levels=(2, 1, 0), blend=2, lf=dict(lf, L_2d=5.0, L1_factor=1.0, L2_factor=1.0, z_i=1.0)),
    }
    if ck.thorough:
        for m, bl, l in itertools.product(("VK", "Mann"), ("default", 2, 5), (None, lf)):
            out[f"{m}-{bl}-{'lf' if l else 'no'}"] = b(model=m, blend=bl, lf=l, levels=(1, 1, 2), dims=(2.0, 7.0, 3.0), seed=123)
    # a saved DRD model
    pb = drd.make_problem(outdir=ck.scratch)
    drd.set_weights(pb, 5)
    d = os.path.join(ck.scratch, "drd")
    pb.save_model(save_dir=d)
    path = os.path.join(d, sorted(os.listdir(d))[0])
    out["drd-lf"] = b(model="DRD", path=path, lf=lf, T=None, L=None, E=None, levels=(1, 1, 1))
    return out


def same(got, want, what):
    require(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
    if want.size:
        tol = 2e-5 * np.max(np.abs(want))
        e = float(np.max(np.abs(got - want)))
        require(e <= tol, f"{what}: differs from the one-call field", err=e, tol=tol)


def run_history(ck, name, c, whole, hist, prof):
    p = gen.PROF[prof]
    g = gen.build(c)
    nx = whole.shape[0] // whole_blocks(whole, c)
    handed = []
    done = 0
    for i, op in enumerate(hist):
        what = f"after {'.'.join(hist[: i + 1])}"
        ck.step()
        if op[0] == "g":
            n = int(op[1:])
            r = g.generate(n, **p)
            done += n
            same(r, whole[: done * nx], f"{what}: returned field")
            handed.append((r, r.copy()))
        elif op == "vtk":
            if done:
                g.save_to_vtk(os.path.join(ck.scratch, "f"))
        elif op == "div":
            if done:
                h = np.array(c["dims"]) / (2 ** np.array(c["levels"]) + 1)
                g.evaluate_divergence(tuple(h))
                g.evaluate_divergence(h, g.total_fluctuation)
        elif op == "prof":
            z = np.linspace(0, c["dims"][2], 3)
            g.log_law(z, 0.2, 9.0, 4.0)
            g.power_law(z, 9.0, 4.0, 0.3)
        else:
            for _ in range(3):
                t = g.total_fluctuation
            handed.append((t, t.copy()))
        same(g.total_fluctuation, whole[: done * nx], f"{what}: stored field")
        for a, b in handed:
            require(a.shape == b.shape and np.array_equal(a, b), f"{what}: an array handed out earlier was altered")
        ck.state(name, prof, done, op)
    ck.outcome(name, prof, g.total_fluctuation)


def long_runs(ck, name, c, n):
    """One call of n blocks against every two-part split and several regular partitions."""
    p = gen.PROF["log"]
    whole = gen.build(c).generate(n, **p).copy()
    nx = 2 ** c["levels"][0] + 1
    parts = [(k, n - k) for k in range(1, n)] + [(1,) * n, (7,) * (n // 7) + (n % 7,), tuple(range(1, 14)) + (n - 91,)]
    for s in parts:
        g = gen.build(c)
        done = 0
        for k in s:
            r = g.generate(k, **p)
            done += k
            require(len(r) == done * nx, f"split {s[:4]}: length")
        same(r, whole, f"{n} blocks split as {s if len(s) < 5 else str(s[:4]) + '...'}")
        ck.step(len(s))
        ck.state(name, "long", s)
    ck.outcome(name, whole)


def large_configs():
    """Larger and differently proportioned grids, a few histories each."""
    lf = dict(gen.LFCFG, exp1=6, exp2=5)
    for i, lev in enumerate(((5, 0, 0), (0, 5, 0), (0, 0, 5), (4, 3, 2), (2, 3, 4), (6, 1, 1), (1, 1, 6), (1, 6, 1))):
        yield f"grid{lev}", gen.base(model=("VK", "Mann")[i % 2], levels=lev, lf=(None, lf)[i // 2 % 2], blend=("default", 4, 0, 30)[i % 4], dims=(9.0, 5.0, 3.0), L=0.7, T=0.5, seed=1000 + 37 * i)
    yield "site", gen.site()
    yield "site-vk", gen.site(model="VK", lf=None, seed=2**31 - 1, levels=(4, 4, 3))
    yield "site-thin", gen.site(dims=(200.0, 30.0, 20.0), levels=(3, 2, 2), T=6.0, blend=17)


BIG = [("g1", "g1"), ("g2", "g1"), ("g1", "vtk", "div", "read", "g2"), ("g0", "g1", "g0", "g1", "prof", "g1"), ("g3", "read", "g1"), ("g1", "g1", "g1", "g1"), ("g1", "g3", "div")]


def whole_blocks(whole, c):
    return whole.shape[0] // (2 ** c["levels"][0] + 1)


def run(ck):
    depth = 4 if ck.thorough else 3
    for name, c in configs(ck).items():
        nmax = 24
        for prof in PROFS if ck.thorough or name.startswith("mann") else PROFS[:1]:
            p = gen.PROF[prof]
            box = {}

            def one():
                box["w"] = gen.build(c).generate(nmax, **p).copy()
                nx = 2 ** c["levels"][0] + 1
                n = 2 ** np.array(c["levels"]) + 1
                require(box["w"].shape == (nmax * nx, n[1], n[2], 3), "one call: shape of the field", got=box["w"].shape)
                require(np.isfinite(box["w"]).all(), "one call: finite")
                f0, f1 = box["w"][:nx], box["w"][nx : 2 * nx]
                require(np.max(np.abs(f0 - f1)) > 1e-3, "one call: successive blocks are identical")

            if not ck.case(f"{name}/{prof}/one-call", one):
                continue
            if "w" not in box:
                with_quiet(one)
            w = box["w"]
            hs = [h for h in itertools.product(ALPHA, repeat=depth) if any(o in ("g1", "g2", "g3") for o in h)]
            # all compositions of 6 blocks, and all splits of 24
            for m in range(6):
                for cuts in itertools.combinations(range(1, 6), m):
                    e = [0, *cuts, 6]
                    hs.append(tuple(f"g{b - a}" for a, b in zip(e, e[1:])))
            hs += [(f"g{k}", f"g{nmax - k}") for k in range(1, nmax)]
            hs += [("g1",) * nmax, ("g3", "vtk", "div", "read", "g2", "vtk", "div", "read", "g1")]
            ck.add("histories", len(hs))
            for h in hs:
                ck.case(f"{name}/{prof}/{'.'.join(h)}", run_history, ck, name, c, w, h, prof)


    for name, c in large_configs():
        p = gen.PROF["log"]
        box = []

        def one():
            box.append(gen.build(c).generate(4, **p).copy())
            n = 2 ** np.array(c["levels"]) + 1
            require(box[0].shape == (4 * n[0], n[1], n[2], 3), "one call: shape of the field", got=box[0].shape)
            require(np.isfinite(box[0]).all(), "one call: finite")

        if not ck.case(f"{name}/one-call", one):
            continue
        if not box:
            with_quiet(one)
        for h in BIG:
            ck.case(f"{name}/{'.'.join(h)}", run_history, ck, name, c, box[0], h, "log")

    n = 260 if ck.thorough else 130
    for model, lf in (("VK", None), ("Mann", gen.LFCFG)):
        ck.case(f"long/{model}", long_runs, ck, f"long-{model}", gen.base(model=model, levels=(0, 1, 0), dims=(2.0, 2.0, 1.0), L=0.5, T=0.3, blend=2, lf=lf, seed=17), n)


def with_quiet(fn):
    from lib.mc import quiet

    with quiet():
        fn()
