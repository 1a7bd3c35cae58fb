"""C22: model coherence against an independent evaluation, over options, grids, separations and evaluation histories."""
import itertools

import numpy as np
import torch

from drdmannturb import IntegrationParameters
from lib import drd, ref
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of model options x parameter lattice, and exploration of all evaluation histories, against an independent float64 reference"
RULE = (
    "every model option on a lattice of parameter vectors, coherence grids, separations and wavenumbers is compared value by value with an independent "
    "evaluation of the cross-spectra; bounds, evenness, the value one at zero separation and independence of the batch are asserted on each; then every "
    "history over evaluating two batches, changing parameters, evaluating spectra or lifetimes, a differentiated evaluation, an optimiser step and switching "
    "training on is explored, each evaluation compared with the reference of the current parameters. A state is (option, parameters, grid, separation, "
    "wavenumber) or (option, history prefix)."
)
BOUNDS = "5 lifetimes x 2 spectra x {nu fixed, learned} x 8 scale vectors x 3 coherence grids x 12 separations x 6 wavenumbers; histories of length 3 (quick) / 4 (thorough) over 8 operations on 4 options; single precision at 2 vectors; per option 27 further scale vectors, 14 further grids (2..50 points), batches of up to 130 wavenumbers or separations; separations to 1e5; parameters moved by factors exp(+-3)"
ASSUMPTIONS = [
    "the integration grid is the configured logarithmic grid divided by the length scale the problem was constructed with",
    "double precision unless stated; wavenumbers positive",
]
K1 = np.array([0.003, 0.05, 0.3, 1.0, 4.0, 30.0])
SEPS = np.array([0.0, 0.01, 0.3, -0.3, 1.0, 2.7, -2.7, 9.0, 40.0, 4e-4, -1e-6, 300.0])
GRIDS = [(-3, 3, 10), (-2, 2, 9), (-1, 2.5, 13)]
EDDIES = ["CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET"]


def problem(opts, scales, grid, seed=3):
    eddy, learnable, learn_nu = opts
    ip = IntegrationParameters(coh_log_min=grid[0], coh_log_max=grid[1], coh_num_points=grid[2], ops_num_points=4)
    pb = drd.make_problem(eddy=eddy, learnable=learnable, learn_nu=learn_nu, L=scales[0], Gamma=scales[1], sigma=scales[2], integration=ip)
    v = np.array(pb.parameters, dtype=float)
    lo = 5 if learnable else 3
    v[lo:] = np.random.RandomState(seed).uniform(-0.5, 0.8, size=len(v) - lo)
    if learn_nu and eddy == "TAUNET":
        v[-1] = -0.45
    if learnable:
        v[3], v[4] = 3.7, 2.9
    pb.parameters = v
    return pb, v


def reference(v, opts, scales, grid, k1=K1, seps=SEPS):
    m = drd.decode(v, eddy=opts[0], learnable=opts[1], learn_nu=opts[2] and opts[0] == "TAUNET")
    return ref.coherence(k1, seps, ref.log_grid(*grid) / scales[0], m["tau"], m["L"], m["T"], m["sigma"], m["pq"])


def coh(pb, k1, seps):
    with torch.no_grad():
        return pb.OPS.SpectralCoherence(torch.tensor(k1), torch.tensor(seps)).numpy()


def single(ck, opts, scales, grid):
    pb, v = problem(opts, scales, grid)
    k, s = torch.tensor(K1), torch.tensor(SEPS)
    with torch.no_grad():
        got = pb.OPS.SpectralCoherence(k, s).numpy()
    require(np.array_equal(k.numpy(), K1) and np.array_equal(s.numpy(), SEPS), "inputs modified")
    close_rel(got, reference(v, opts, scales, grid), "batch", rtol=1e-7, atol=1e-10)
    close_rel(got[:, 0], np.ones_like(got[:, 0]), "zero separation", rtol=1e-10)
    require(np.all(got >= 0) and np.all(got <= 1 + 1e-9), "outside [0,1]", got=got)
    close_rel(got[:, 2], got[:, 3], "even in separation", rtol=1e-9, atol=1e-13)
    close_rel(got[:, 5], got[:, 6], "even in separation", rtol=1e-9, atol=1e-13)
    require(np.array_equal(np.array(pb.parameters, dtype=float), v), "parameters changed by an evaluation")
    # batch composition
    for i, j in itertools.product(range(len(SEPS)), range(len(K1))):
        ck.state(opts, scales, grid, float(SEPS[i]), float(K1[j]))
        ck.step()
        if ck.thorough or (i + j) % 3 == 0:
            close_rel(coh(pb, K1[[j]], SEPS[[i]])[:, 0, 0], got[:, i, j], f"alone at r={SEPS[i]} k1={K1[j]}", rtol=1e-9, atol=1e-13)
    pi, pj = [7, 0, 4, 4, 1], [5, 2, 2, 0]
    close_rel(coh(pb, K1[pj], SEPS[pi]), got[:, pi][:, :, pj], "permuted batch", rtol=1e-9, atol=1e-13)
    # amplitude cancels
    v2 = v.copy()
    v2[2] += 1.1
    pb.parameters = v2
    close_rel(coh(pb, K1, SEPS), got, "depends on the amplitude", rtol=1e-7, atol=1e-10)
    # another length scale on the same grid
    v3 = v.copy()
    v3[0] += 0.4
    v3[1] -= 0.3
    pb.parameters = v3
    close_rel(coh(pb, K1, SEPS), reference(v3, opts, scales, grid), "after a change of scales", rtol=1e-7, atol=1e-10)
    ck.outcome(got)


def default_grid(ck, opts, scales):
    d = IntegrationParameters()
    grid = (d.coh_log_min, d.coh_log_max, d.coh_num_points)
    require(grid == (-3, 3, 100), "default coherence grid", got=grid)
    eddy, learnable, learn_nu = opts
    pb = drd.make_problem(eddy=eddy, learnable=learnable, learn_nu=learn_nu, L=scales[0], Gamma=scales[1], sigma=scales[2])
    v = np.array(pb.parameters, dtype=float)
    k, s = K1[1:4:2], SEPS[[0, 2, 5]]
    close_rel(coh(pb, k, s), reference(v, opts, scales, grid, k, s), "default grid", rtol=1e-7, atol=1e-10)
    ck.step()
    ck.state("default", opts, scales)


def wide(ck, opts, scales, grid, k1, seps, what):
    """Other scales, grids and batches: compared with the reference only."""
    pb, v = problem(opts, scales, grid, seed=9)
    got = coh(pb, k1, seps)
    close_rel(got, reference(v, opts, scales, grid, k1, seps), what, rtol=1e-7, atol=1e-10)
    require(np.all(got >= 0) and np.all(got <= 1 + 1e-9), f"{what}: outside [0,1]", got=got)
    ck.step()
    ck.state("wide", opts, scales, grid, what)


WIDE_SCALES = [(L, 1.3, 0.9) for L in (0.01, 0.1, 0.99, 1.0, 1.01, 5.0, 9.9, 20.0, 59.0, 120.0, 600.0)]
WIDE_SCALES += [(0.6, G, 0.9) for G in (0.01, 0.1, 0.99, 1.0, 2.0, 2.99, 4.0, 6.0, 12.0)]
WIDE_SCALES += [(0.6, 1.3, s) for s in (1e-3, 0.05, 0.99, 1.0, 5.0, 30.0, 1e3)]
WIDE_GRIDS = [(-3, 3, n) for n in (2, 3, 5, 16, 31, 32, 33, 50)] + [(-4, 4, 20), (-1, 1, 8), (0.13, 2.1, 6), (-3, 0.07, 7), (-2.5, 3.5, 10), (-6, 1, 9)]


def moved(ck, opts, scales, grid, d):
    """Parameters far from the ones the problem was constructed with: the grid stays the configured one."""
    pb, v = problem(opts, scales, grid)
    k, s = K1[1:5], SEPS[[0, 2, 4, 7]]
    v2 = v.copy()
    v2[:3] += d
    pb.parameters = v2
    for _ in range(2):
        close_rel(coh(pb, k, s), reference(v2, opts, scales, grid, k, s), f"scales moved by exp{d}", rtol=1e-7, atol=1e-10)
    pb.parameters = v
    close_rel(coh(pb, k, s), reference(v, opts, scales, grid, k, s), f"moved back from exp{d}", rtol=1e-7, atol=1e-10)
    ck.step(3)
    ck.state("moved", opts, d)


def history(ck, opts, hist, cache):
    scales, grid = (0.7, 1.3, 0.9), (-2, 2, 5)
    pb, v1 = problem(opts, scales, grid)
    v2 = v1 + np.random.RandomState(1).uniform(-0.2, 0.2, size=len(v1))
    cur = v1
    opt = torch.optim.SGD(pb.OPS.parameters(), lr=1e-3)
    batches = {"a": (K1, SEPS[[1, 4]]), "b": (K1[[3]], SEPS[[6, 0, 2]])}
    for i, op in enumerate(hist):
        what = f"{opts} after {'.'.join(hist[: i + 1])}"
        if op in batches:
            k, s = batches[op]
            key = (opts, op, cur.tobytes())
            if key not in cache:
                cache[key] = reference(cur, opts, scales, grid, k, s)
            close_rel(coh(pb, k, s), cache[key], what, rtol=1e-7, atol=1e-10)
        elif op == "p":
            cur = v1 if cur is v2 else v2
            pb.parameters = cur
        elif op == "o":
            pb.eval(torch.tensor(K1[:2]))
        elif op == "t":
            with torch.no_grad():
                pb.OPS.EddyLifetime(torch.ones(5, 3, dtype=torch.float64))
        elif op == "g":
            y = pb.OPS.SpectralCoherence(torch.tensor(K1[2:4]), torch.tensor(SEPS[[2]]))
            if y.requires_grad:
                y.sum().backward()
        elif op == "s":  # an optimiser step, as in training
            opt.zero_grad()
            y = pb.OPS(torch.tensor(K1[1:4]))
            torch.log(torch.abs(y[:3])).sum().backward()
            opt.step()
            cur = np.array(pb.parameters, dtype=float)
        elif op == "u":
            pb.OPS.use_coherence = not pb.OPS.use_coherence
            pb.OPS.train(not pb.OPS.training)
        ck.step()
        ck.state("hist", opts, hist[: i + 1])


def single_precision(ck, opts, scales):
    torch.set_default_dtype(torch.float32)
    try:
        ip = IntegrationParameters(coh_log_min=-2, coh_log_max=2, coh_num_points=10)
        pb = drd.make_problem(eddy=opts[0], learnable=opts[1], learn_nu=opts[2], L=scales[0], Gamma=scales[1], sigma=scales[2], integration=ip)
        v = np.array(pb.parameters, dtype=float)
        k, s = K1[1:5], SEPS[[0, 1, 2, 4]]
        got = coh(pb, k.astype(np.float32), s.astype(np.float32))
        close_rel(got, reference(v, opts, scales, (-2, 2, 10), k, s), "single precision", rtol=2e-3, atol=2e-3)
        ck.step()
        ck.state("f32", opts, scales)
    finally:
        torch.set_default_dtype(torch.float64)


def run(ck):
    torch.set_default_dtype(torch.float64)
    options = [(e, l, n) for e, l, n in itertools.product(EDDIES, (False, True), (False, True)) if not n or e == "TAUNET"]
    scales = list(itertools.product((0.3, 2.0), (0.6, 3.9), (0.5, 2.0)))
    for o in options:
        for s in scales:
            for g in GRIDS:
                if ck.thorough or g == GRIDS[0] or s in scales[2:4]:
                    ck.case(f"{o}/{s}/{g}", single, ck, o, s, g)
        ck.case(f"default-grid/{o}", default_grid, ck, o, scales[1])
        for s in scales[:2]:
            ck.case(f"float32/{o}/{s}", single_precision, ck, o, s)
        for s in WIDE_SCALES:
            ck.case(f"scales/{o}/{s}", wide, ck, o, s, (-2, 2, 6), K1[::2], np.array([0.0, 0.3 * s[0], -2.0 * s[0], 5.0]), "wide scales")
        for g in WIDE_GRIDS:
            ck.case(f"grids/{o}/{g}", wide, ck, o, (0.8, 1.9, 1.2), g, K1[1:4:2], SEPS[[0, 2, 7]], "wide grids")
        for n in (1, 2, 3, 7, 8, 9, 12, 16, 20, 33, 64, 65, 100, 130):
            ck.case(f"batch/{o}/{n}k", wide, ck, o, (0.8, 1.9, 1.2), (-2, 2, 4), np.logspace(-4, 3.3, n), SEPS[[4, 0]], f"{n} wavenumbers")
            ck.case(f"batch/{o}/{n}s", wide, ck, o, (0.8, 1.9, 1.2), (-2, 2, 4), K1[[3, 1]], np.concatenate([np.linspace(-3, 40, n)[::-1], [500.0]]), f"{n} separations")
        ck.case(f"batch/{o}/both", wide, ck, o, (0.8, 1.9, 1.2), (-2, 2, 5), np.logspace(-3, 2, 45)[::-1].copy(), np.linspace(0, 9, 37) ** 2, "large batch")
        for d in itertools.product((-3.0, 0.0, 3.0), (-2.0, 0.0, 1.5), (0.0, 2.5)):
            ck.case(f"moved/{o}/{d}", moved, ck, o, (0.8, 1.9, 1.2), (-2, 2, 6), d)
        for L in (0.6, 30.0):
            far = np.array([600.0, -800.0, 1e3, 2500.0, 1e4, 1e5])
            ck.case(f"far/{o}/{L}", wide, ck, o, (L, 1.3, 0.9), (-3, 1, 9), K1[:4], far, "far separations")
    cache = {}
    for o in [("TAUNET", False, True), ("MANN", False, False), ("MANN_APPROX", True, False), ("TAUNET", True, False)]:
        for h in itertools.product("abpotgsu", repeat=4 if ck.thorough else 3):
            if any(x in "ab" for x in h):
                ck.case(f"history/{o}/{'.'.join(h)}", history, ck, o, h, cache)
