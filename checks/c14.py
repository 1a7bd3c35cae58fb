"""C14: one-point spectra against an independent evaluation of the sheared tensor integrals."""
import itertools

import numpy as np
import torch

from drdmannturb import IntegrationParameters
from lib import drd, ref
from lib.mc import close, close_rel, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of model options x parameter lattice, and exploration of all evaluation histories, against an independent float64 reference"
RULE = (
    "every model option (5 eddy lifetimes x von Karman / adjustable exponents x learnable nu) on a lattice of parameter vectors, integration grids and "
    "wavenumbers is compared component by component with an independent evaluation of the integrals; then every history over evaluating several batches, "
    "changing parameters, evaluating coherence or lifetimes is explored, each evaluation compared with the reference of the current parameters. "
    "A state is (option, parameters, grid, wavenumber) or (option, history prefix)."
)
BOUNDS = "5 lifetimes x 2 spectra x {nu fixed, learned} x 8 scale vectors x 3 grids x 9 wavenumbers; histories of length 3 (quick) / 4 over 7 operations on 4 options; single precision at 3 parameter vectors; per option 27 further scale vectors (L 0.01..600, Gamma 0.01..12, sigma 1e-3..1e3), 14 further grids (2..50 points) and 17 batch lengths up to 257; unsorted and repeated batches of up to 128; parameters moved by factors exp(+-3) from the initial ones"
ASSUMPTIONS = [
    "the code's regularisation (values below 1e-12 are raised to it) is part of the quantity: it is reproduced in the reference",
    "double precision unless stated; wavenumbers positive",
]
K1 = np.array([1e-3, 0.02, 0.1, 0.37, 1.0, 2.9, 10.0, 60.0, 300.0])
GRIDS = [(-3, 3, 12), (-2, 2, 9), (-1, 3.5, 15)]
EDDIES = ["CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET"]


def problem(eddy, learnable, learn_nu, scales, grid, seed=3):
    ip = IntegrationParameters(ops_log_min=grid[0], ops_log_max=grid[1], ops_num_points=grid[2], coh_num_points=5)
    pb = drd.make_problem(eddy=eddy, learnable=learnable, learn_nu=learn_nu, L=scales[0], Gamma=scales[1], sigma=scales[2], integration=ip)
    v = np.array(pb.parameters, dtype=float)
    lo = 5 if learnable else 3
    v[lo:] = np.random.RandomState(seed).uniform(-0.5, 0.8, size=len(v) - lo)
    if learn_nu and eddy == "TAUNET":
        v[-1] = -0.45
    if learnable:
        v[3], v[4] = 3.7, 2.9
    pb.parameters = v
    return pb, v


def reference(v, opts, grid, k1=K1):
    m = drd.decode(v, eddy=opts[0], learnable=opts[1], learn_nu=opts[2] and opts[0] == "TAUNET")
    a = (k1, ref.log_grid(*grid), m["tau"], m["L"], m["T"], m["sigma"], m["pq"])
    return ref.ops(*a), ref.ops(*a, clamp_cross=False)


def verify(ck, got, want, what, rtol=1e-7):
    clamped, exact = want
    require(got.shape == clamped.shape, f"{what}: shape", got=got.shape, want=clamped.shape)
    for c in range(4):
        close_rel(got[c], clamped[c], f"{what}: component {c}", rtol=rtol, atol=rtol * np.max(np.abs(clamped[:4])) * 1e-3)
    atol = 1e-9 * np.max(np.abs(clamped[:3]))
    for c in (4, 5):
        if np.all(np.abs(got[c] - exact[c]) <= atol + rtol * np.abs(exact[c])):
            continue
        close_rel(got[c], clamped[c], f"{what}: component {c}", rtol=rtol, atol=atol)
        ck.known("cross-clamped")


def single(ck, opts, scales, grid):
    eddy, learnable, learn_nu = opts
    pb, v = problem(eddy, learnable, learn_nu, scales, grid)
    want = reference(v, opts, grid)
    k1 = torch.tensor(K1)
    keep = k1.clone()
    got = pb.eval(k1)
    require(torch.equal(k1, keep), "input modified")
    verify(ck, got, want, "batch")
    require(np.all(got[:3] > 0), "normal spectra positive", got=got[:3])
    mid = (K1 > 0.05) & (K1 < 5)
    require(np.all(got[3][mid] < 0), "uw negative under shear", got=got[3])
    for i in range(len(K1)):
        one = pb.eval(torch.tensor(K1[i : i + 1]))
        close_rel(one[:, 0], got[:, i], f"alone at {K1[i]}", rtol=1e-9, atol=1e-12 * np.max(np.abs(got)))
        ck.state(opts, scales, grid, float(K1[i]))
        ck.step()
    perm = [5, 0, 8, 3, 3, 1]
    close_rel(pb.eval(torch.tensor(K1[perm])), got[:, perm], "permuted batch", rtol=1e-9, atol=1e-12 * np.max(np.abs(got)))
    # other batches of the same length, first and last value, sum: each evaluation is of its own input
    for k2 in (K1[::-1].copy(), K1[[0, 2, 1, 3, 4, 6, 5, 7, 8]], K1 + 1e-3 * np.array([0, 1, -1, 2, -2, 1, -1, 0, 0]), np.full(9, K1.sum() / 9), K1 * 1.0001):
        verify(ck, pb.eval(torch.tensor(k2)), reference(v, opts, grid, k2), "another batch of the same length")
        ck.step()
    # the amplitude is a factor (up to the regularisation): checked against the reference at another amplitude
    v2 = v.copy()
    v2[2] += np.log(3.0)
    pb.parameters = v2
    verify(ck, pb.eval(k1), reference(v2, opts, grid), "tripled amplitude")
    ck.outcome(got)


def default_grid(ck, opts, scales):
    """Integration parameters left at their defaults."""
    from drdmannturb import IntegrationParameters as IP

    d = IP()
    grid = (d.ops_log_min, d.ops_log_max, d.ops_num_points)
    require(grid == (-3, 3, 100), "default integration grid", got=grid)
    eddy, learnable, learn_nu = opts
    pb = drd.make_problem(eddy=eddy, learnable=learnable, learn_nu=learn_nu, L=scales[0], Gamma=scales[1], sigma=scales[2])
    v = np.array(pb.parameters, dtype=float)
    k = K1[1:6:2]
    verify(ck, pb.eval(torch.tensor(k)), reference(v, opts, grid, k), "default grid")
    ck.step()
    ck.state("default", opts, scales)


def wide(ck, opts, scales, grid, k1, what):
    """Other scales, grids and batches: compared with the reference only."""
    eddy, learnable, learn_nu = opts
    pb, v = problem(eddy, learnable, learn_nu, scales, grid, seed=9)
    verify(ck, pb.eval(torch.tensor(k1)), reference(v, opts, grid, k1), what)
    ck.step()
    ck.state("wide", opts, scales, grid, what)


WIDE_SCALES = [(L, 1.3, 0.9) for L in (1e-3, 0.01, 0.1, 0.99, 1.0, 1.01, 5.0, 9.9, 20.0, 59.0, 120.0, 600.0, 4e3)]
WIDE_SCALES += [(0.6, G, 0.9) for G in (0.01, 0.1, 0.99, 1.0, 2.0, 2.99, 4.0, 6.0, 12.0, 60.0)]
WIDE_SCALES += [(0.6, 1.3, s) for s in (1e-4, 1e-3, 0.05, 0.99, 1.0, 5.0, 30.0, 1e3, 4e4)]
WIDE_GRIDS = [(-3, 3, n) for n in (2, 3, 5, 16, 31, 32, 33, 50)] + [(-4, 4, 20), (-1, 1, 8), (0.13, 2.1, 6), (-3, 0.07, 7), (-2.5, 3.5, 10), (-6, 1, 9)]


def moved(ck, opts, scales, grid, d):
    """Parameters far from the ones the problem was constructed with, as a long calibration reaches."""
    eddy, learnable, learn_nu = opts
    pb, v = problem(eddy, learnable, learn_nu, scales, grid)
    pb.eval(torch.tensor(K1[:2]))
    v2 = v.copy()
    v2[:3] += d
    pb.parameters = v2
    for _ in range(2):
        verify(ck, pb.eval(torch.tensor(K1)), reference(v2, opts, grid), f"scales moved by exp{d}")
    pb.parameters = v
    verify(ck, pb.eval(torch.tensor(K1)), reference(v, opts, grid), f"moved back from exp{d}")
    ck.step(3)
    ck.state("moved", opts, d)


def history(ck, opts, hist, cache):
    eddy, learnable, learn_nu = opts
    grid = (-2, 2, 6)
    pb, v1 = problem(eddy, learnable, learn_nu, (0.7, 1.3, 0.9), grid)
    v2 = v1 + np.random.RandomState(1).uniform(-0.2, 0.2, size=len(v1))
    cur = "1"
    batches = {"a": K1, "b": K1[[4]], "c": K1[[6, 2, 2]]}
    for i, op in enumerate(hist):
        what = f"{opts} after {'.'.join(hist[: i + 1])}"
        if op in batches:
            key = (opts, cur)
            if key not in cache:
                cache[key] = reference(v1 if cur == "1" else v2, opts, grid)
            idx = {"a": list(range(9)), "b": [4], "c": [6, 2, 2]}[op]
            got = pb.eval(torch.tensor(batches[op]))
            verify(ck, got, tuple(w[:, idx] for w in cache[key]), what)
        elif op == "p":
            pb.parameters = v1 if cur == "2" else v2
            cur = "1" if cur == "2" else "2"
        elif op == "k":
            with torch.no_grad():
                pb.OPS.SpectralCoherence(torch.tensor(K1[2:4]), torch.tensor([0.0, 1.0], dtype=torch.float64))
        elif op == "t":
            with torch.no_grad():
                pb.OPS.EddyLifetime(torch.ones(5, 3, dtype=torch.float64))
        elif op == "g":
            # a differentiated evaluation, as in training, without a step
            y = pb.OPS(torch.tensor(K1[:3]))
            if y.requires_grad:
                y.sum().backward()
        ck.step()
        ck.state("hist", opts, hist[: i + 1])


def single_precision(ck, opts, scales):
    torch.set_default_dtype(torch.float32)
    try:
        ip = IntegrationParameters(ops_log_min=-2, ops_log_max=2, ops_num_points=10)
        pb = drd.make_problem(eddy=opts[0], learnable=opts[1], learn_nu=opts[2], L=scales[0], Gamma=scales[1], sigma=scales[2], integration=ip)
        v = np.array(pb.parameters, dtype=float)
        k = K1[2:6]
        got = pb.eval(torch.tensor(k, dtype=torch.float32))
        want = reference(v, opts, (-2, 2, 10), k)
        for c in range(4):
            close_rel(got[c], want[0][c], f"single precision component {c}", rtol=1e-3, atol=1e-4 * np.max(np.abs(want[0][:3])))
        ck.step()
        ck.state("f32", opts, scales)
    finally:
        torch.set_default_dtype(torch.float64)


def run(ck):
    torch.set_default_dtype(torch.float64)
    options = [(e, l, n) for e, l, n in itertools.product(EDDIES, (False, True), (False, True)) if not n or e == "TAUNET"]
    scales = list(itertools.product((0.3, 2.0), (0.6, 3.9), (0.5, 2.0)))
    for o in options:
        for s in scales:
            for g in GRIDS:
                if ck.thorough or g == GRIDS[0] or s in scales[2:4]:
                    ck.case(f"{o}/{s}/{g}", single, ck, o, s, g)
        ck.case(f"default-grid/{o}", default_grid, ck, o, scales[1])
        for s in scales[:3]:
            ck.case(f"float32/{o}/{s}", single_precision, ck, o, s)
        for s in WIDE_SCALES:
            ck.case(f"scales/{o}/{s}", wide, ck, o, s, (-2, 2, 7), K1, "wide scales")
        for g in WIDE_GRIDS:
            ck.case(f"grids/{o}/{g}", wide, ck, o, (0.8, 1.9, 1.2), g, K1[1:6:2], "wide grids")
        for n in (1, 2, 3, 7, 8, 16, 20, 21, 33, 50, 64, 65, 100, 101, 128, 150, 257):
            ck.case(f"batch/{o}/{n}", wide, ck, o, (0.8, 1.9, 1.2), (-2, 2, 5), np.logspace(-4, 3.3, n), f"batch of {n}")
        rs = np.random.RandomState(21)
        for n in (12, 31, 40, 70, 128):
            k = rs.permutation(np.logspace(-3, 3, n))
            ck.case(f"unsorted/{o}/{n}", wide, ck, o, (0.8, 1.9, 1.2), (-2, 2, 5), np.append(k, k[: n // 3]), f"unsorted batch of {n} with repetitions")
            ck.case(f"reversed/{o}/{n}", wide, ck, o, (0.8, 1.9, 1.2), (-2, 2, 5), np.sort(k)[::-1].copy(), f"descending batch of {n}")
        for d in ((-7.0, 0.0, 0.0), (8.0, 0.0, 0.0), (0.0, -6.0, 0.0), (0.0, 4.0, 0.0), (0.0, 0.0, -9.0), (0.0, 0.0, 11.0), (-6.0, 3.0, 9.0)):
            ck.case(f"far/{o}/{d}", moved, ck, o, (0.8, 1.9, 1.2), (-2, 2, 7), d)
        for d in itertools.product((-3.0, 0.0, 3.0), (-2.0, 0.0, 1.5), (0.0, 2.5)):
            ck.case(f"moved/{o}/{d}", moved, ck, o, (0.8, 1.9, 1.2), (-2, 2, 7), d)
    cache = {}
    for o in [("TAUNET", False, True), ("MANN", False, False), ("MANN_APPROX", True, False), ("TAUNET", True, False)]:
        for h in itertools.product("abcpktg", repeat=4 if ck.thorough else 3):
            if any(x in "abc" for x in h):
                ck.case(f"history/{o}/{'.'.join(h)}", history, ck, o, h, cache)
