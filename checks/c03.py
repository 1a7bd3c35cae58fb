"""C03: every block against the reference synthesis from one continuous noise stream."""
import itertools
import os

import numpy as np

from lib import drd, gen, ref
from lib.mc import close, require

LEVEL = "model_checking"
TECH = "bounded-exhaustive enumeration of configurations and block histories against an executable reference model"
RULE = (
    "for every configuration of the lattice the blocks produced by the real generator, profile removed, are compared point by "
    "point with the reference: white noise drawn once from the seeded stream, windows advancing by one block, numpy FFT "
    "convolution with an independently written square-root tensor on the padded domain, cut to the user's window, unit "
    "intensity. A state is (configuration, block index); distinct outcomes are distinct fields."
)
BOUNDS = (
    "models VK, Mann, DRD; grid levels 0..3 in each direction (plus one anisotropic 4,2,1); 2-3 domain sizes; length scales "
    "0.2..2.5; time scales 0..1.4; energy, friction velocity and height scalings; blend 0,1,2,3,7,10,default,20; seeds 0,7,2^32-1; "
    "4 blocks, split in up to four calls; buffers up to 120 blocks; runs of 12, 40 and 90 (thorough 300) blocks in 1, 2 and n calls (quick: product lattices of ~590 configurations; thorough ~1200 with larger grids)"
)
ASSUMPTIONS = [
    "on the plane k1=0 the implemented tensor is used (known finding of C06)",
    "DRD: lifetime network evaluated at k*reference height (known finding of C20)",
    "tolerance 2e-5 of the largest value (single-precision transforms)",
]
P = gen.PROF["log"]


def drd_model(ck, width, layers, seed, L, G, s, nu):
    d = os.path.join(ck.scratch, f"drd-{width}-{layers}-{seed}-{L}-{G}-{nu}")
    pb = drd.make_problem(width=width, layers=layers, L=L, Gamma=G, sigma=s, learn_nu=nu, outdir=d)
    v = drd.set_weights(pb, seed)
    pb.save_model(save_dir=d)
    w, i, dims = [], 3, [3] + [width] * layers + [3]
    for a, b in zip(dims, dims[1:]):
        w.append(v[i : i + a * b].reshape(b, a))
        i += a * b
    nuv = v[i] if nu else -1.0 / 3.0
    return os.path.join(d, sorted(os.listdir(d))[0]), w, nuv


def one(ck, c, split, net=None):
    n = sum(split)
    g = gen.build(c)
    for k in split:
        f = g.generate(k, **P)
        ck.step()
    if net is None:
        raw = gen.reference_raw(c, n)
        L, T = c["L"], c["T"]
    else:
        L, T = net["L"] * c["h"], net["G"]
        lay = ref.Layout(c["dims"], c["levels"], L, T, gen.blend_of(c))
        fr = lay.freqs()
        k = np.stack(ref.grid_k(fr), axis=-1)
        beta = T * ref.taunet(k * c["h"], net["w"], [lambda x: np.maximum(x, 0)] * (len(net["w"]) - 1), net["nu"])
        G = ref.sqrt_tensor(fr, L, 1.0, beta)
        raw = ref.raw_blocks(lay, G, c["seed"], n)
    want = np.concatenate([ref.with_profile(r, c["dims"], P) for r in raw])
    close(f, want, "field", rtol=2e-5 if net is None else 3e-4)
    for b in range(n):
        ck.state(tuple(sorted((k, str(v)) for k, v in c.items() if k != "path")), b)
    ck.outcome(f)
    require(g.Nx == 2 ** c["levels"][0] + 1, "Nx")


def lattice(ck):
    b = gen.base
    th = ck.thorough
    # A: all small grids
    lv = range(0, 3)
    for lev in itertools.product(lv, lv, lv):
        for model, blend in itertools.product(("VK", "Mann"), (0, 3) if not th else (0, 1, 2, 3, 10)):
            yield b(model=model, levels=lev, blend=blend, dims=(2.0, 3.0, 5.0), L=0.9, T=0.6, seed=3)
    # B: scales and blend
    for L, T, blend, model in itertools.product(
        (0.2, 1.0, 2.5), (0.0, 0.15, 0.7, 1.4), (0, 1, 2, 3, 7, 10, "default", 20), ("VK", "Mann")
    ):
        for lev in ((2, 1, 1),) if not th else ((2, 1, 1), (1, 2, 2), (3, 1, 2), (0, 0, 0)):
            yield b(model=model, L=L, T=T, blend=blend, levels=lev, seed=0)
    # C: domain sizes, amplitude scalings, seeds
    for dims, E, us, h, seed, model in itertools.product(
        ((4.0, 3.0, 2.0), (1.0, 8.0, 6.5), (30.0, 2.0, 11.0)), (0.01, 1.3, 50.0), (0.3, 1.0), (0.5, 90.0), (0, 7, 2**32 - 1), ("VK", "Mann")
    ):
        yield b(model=model, dims=dims, E=E, ustar=us, h=h, seed=seed, levels=(2, 1, 2), L=1.1, T=0.4, blend=2)
    # D: larger grids
    for lev in ((3, 2, 2), (4, 2, 1), (1, 4, 2), (2, 1, 4), (3, 3, 3), (5, 2, 2), (2, 5, 1), (1, 2, 5), (6, 1, 1), (1, 6, 0), (0, 1, 6)) + (((7, 1, 2), (4, 4, 3), (3, 4, 5)) if th else ()):
        for model, blend, L in itertools.product(("VK", "Mann"), (0, 10), (0.3, 1.7)):
            yield b(model=model, levels=lev, blend=blend, L=L, T=1.0, dims=(5.0, 4.0, 3.0), seed=19)
    # F: buffers of many block lengths, margins of many domain widths
    for dims, L, T, model, lev in itertools.product(((0.5, 3.0, 2.0), (1.0, 0.4, 0.3)), (0.8, 2.5), (0.9, 4.0), ("VK", "Mann"), ((1, 1, 1), (2, 0, 1))):
        yield b(model=model, dims=dims, L=L, T=T, levels=lev, blend=2, seed=41)
    # E: realistic scales (metres)
    for model, lev in itertools.product(("VK", "Mann"), ((4, 3, 3), (3, 4, 2))):
        yield b(model=model, levels=lev, dims=(600.0, 120.0, 90.0), L=50.0, T=3.9, E=3.2, ustar=0.45, h=90.0, blend="default", seed=9999)


def run(ck):
    for i, c in enumerate(lattice(ck)):
        split = [(1, 3), (4,), (2, 2), (1, 1, 1, 1)][i % 4]
        if c["dims"][0] > 100:
            split = (2,)
        ck.case(f"{i}:{c['model']} {c['levels']} blend={c['blend']} L={c['L']} T={c['T']} {c['dims']} E={c['E']} u={c['ustar']} h={c['h']} seed={c['seed']} {split}", one, ck, c, split)
    # long runs
    for n, model, blend in itertools.product((12, 40, 90) if not ck.thorough else (12, 40, 90, 300), ("VK", "Mann"), (0, 4)):
        c = gen.base(model=model, levels=(1, 1, 0), dims=(2.0, 2.0, 1.0), L=0.6, T=0.4, blend=blend, seed=23)
        for split in ((n,), (n // 2, n - n // 2), (1,) * n):
            ck.case(f"long {n} {model} blend={blend} {len(split)} calls", one, ck, c, split)
    nets = [(4, 2, 1, 0.7, 1.2, 0.9, False), (3, 1, 2, 0.4, 0.5, 2.0, True), (5, 3, 3, 1.1, 0.2, 0.1, False)]
    for (w, l, s, L, G, sg, nu), h, blend, lev in itertools.product(nets, (0.8, 2.0), (0, 3), ((1, 1, 1), (2, 1, 2))):
        path, ws, nuv = drd_model(ck, w, l, s, L, G, sg, nu)
        c = gen.base(model="DRD", path=path, h=h, blend=blend, levels=lev, L=None, T=None, E=None, ustar=0.6)
        ck.case(f"DRD-{w}-{l}-{s}-nu{nu} h={h} blend={blend} {lev}", one, ck, c, (1, 2), dict(L=L, G=G, w=ws, nu=nuv))
    for i, bad in enumerate((dict(model="Kaimal"), dict(model="vk"), dict(model=""), dict(model="DRD", path=None))):
        def rej(bad=bad):
            try:
                gen.build(gen.base(**bad))
            except ValueError:
                return
            require(False, f"model {bad} accepted")
        ck.case(f"reject-{i}", rej)
