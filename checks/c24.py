"""C24: generated Kaimal and von Karman data against their formulas."""
import itertools

import numpy as np
import torch

from drdmannturb import generate_kaimal_spectra, generate_von_karman_spectra
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of wavenumber/parameter/precision lattices, batch compositions and orders, against the published formulas in exact-order double arithmetic"
RULE = (
    "every combination of wavenumber, parameters and floating type of the lattice is evaluated by the real generators and compared entry by entry of the 3x3 tensor; every ordered "
    "batch of up to three wavenumbers of an alphabet is compared row by row with the rows alone. A state is (generator, parameters, type, wavenumber) or (generator, batch)."
)
BOUNDS = "81 wavenumbers over 1e-6..1e6 x 7 heights x 6 velocities, resp. 7 lengths x 6 constants, x {float32, float64} x {float32, float64 default type}, integer wavenumbers; all batches of length 0..3 (4 thorough) over 6 wavenumbers"
ASSUMPTIONS = ["positive wavenumbers, heights and lengths"]
KS = np.logspace(-6, 6, 81)
Z = [0.5, 1.0, 2.5, 10.0, 40.0, 148.56, 1000.0]
U = [0.01, 0.5, 1.0, 1.7, 21.0, 400.0]
LS = [0.01, 0.3, 0.59, 1.0, 7.0, 70.0, 3000.0]
CS = [0.01, 0.5, 1.0, 3.2, 9.0, 250.0]


def kaimal(k, z, u):
    n = k * z / (2 * np.pi)
    P = np.zeros((len(k), 3, 3))
    P[:, 0, 0] = 52.5 * n / (1 + 33 * n) ** (5 / 3)
    P[:, 1, 1] = 8.5 * n / (1 + 9.5 * n) ** (5 / 3)
    P[:, 2, 2] = 1.05 * n / (1 + 5.3 * n ** (5 / 3))
    P[:, 0, 2] = -7 * n / (1 + 9.6 * n) ** (12 / 5)
    return P * u * u


def karman(k, L, C):
    d = 1 / L**2 + k * k
    P = np.zeros((len(k), 3, 3))
    P[:, 0, 0] = k * C * 9 / 55 / d ** (5 / 6)
    P[:, 1, 1] = P[:, 2, 2] = k * C * 3 / 110 * (3 / L**2 + 8 * k * k) / d ** (11 / 6)
    return P


GEN = {
    "kaimal": (lambda k, a, b: generate_kaimal_spectra(k, zref=a, ustar=b), kaimal),
    "karman": (lambda k, a, b: generate_von_karman_spectra(k, L=a, C=b), karman),
}


def evaluate(name, k, a, b, dt, what):
    t = torch.tensor(k, dtype=dt)
    keep = t.clone()
    d = GEN[name][0](t, a, b)
    require(torch.equal(t, keep) and t.dtype == dt, f"{what}: input modified")
    require(torch.is_tensor(d["k1"]) and torch.equal(d["k1"], keep) and d["k1"].dtype == dt, f"{what}: wavenumbers returned", got=d["k1"])
    require(d["coherence"] is None, f"{what}: no coherence data", got=d["coherence"])
    require(tuple(d["ops"].shape) == (len(k), 3, 3), f"{what}: shape", got=tuple(d["ops"].shape))
    return d["ops"].detach().numpy().astype(float), keep.numpy().astype(float)


def formula(ck, name, a, b, dt, default):
    torch.set_default_dtype(default)
    try:
        got, k = evaluate(name, KS, a, b, dt, "values")
        want = GEN[name][1](k, a, b)
        with np.errstate(all="ignore"):
            ok = want.astype(np.float32) if dt == torch.float32 else want
        rtol = 1e-11 if dt == torch.float64 else 2e-5
        # results below the single-precision range are not representable
        close_rel(got, want, "formula", rtol=rtol, atol=0.0 if dt == torch.float64 else 1e-36)
        require(bool(np.all(got[:, [0, 1, 2], [0, 1, 2]] > 0) or dt == torch.float32), "normal spectra positive")
        mask = want == 0
        require(bool(np.all(got[mask] == 0)), "other entries are zero")
        for x in KS:
            ck.state(name, a, b, str(dt), str(default), float(x))
        ck.step(len(KS))
        ck.outcome(got)
        del ok
        if name == "kaimal" and dt == torch.float64:
            g2, _ = evaluate(name, KS, a, 3 * b, dt, "velocity")
            close_rel(g2, 9 * got, "proportional to the squared friction velocity", rtol=1e-12)
            g3, _ = evaluate(name, KS / 4, 4 * a, b, dt, "height")
            close_rel(g3, got, "depends on wavenumber times height", rtol=1e-12)
            ck.step(2)
    finally:
        torch.set_default_dtype(torch.float64)


def defaults(ck, dt):
    t = torch.tensor(KS, dtype=dt)
    got = generate_von_karman_spectra(t)["ops"].numpy().astype(float)
    close_rel(got, karman(t.numpy().astype(float), 0.59, 3.2), "default length and constant", rtol=1e-11 if dt == torch.float64 else 2e-5, atol=1e-36)
    ck.step()
    ck.state("defaults", str(dt))


def integers(ck, name, a, b, dt):
    k = [1, 2, 3, 10, 500]
    t = torch.tensor(k, dtype=dt)
    d = GEN[name][0](t, a, b)
    close_rel(d["ops"].numpy().astype(float), GEN[name][1](np.array(k, float), a, b), "integer wavenumbers", rtol=2e-5)
    ck.step()
    ck.state("int", name, a, b, str(dt))


ALPHA = [1e-4, 0.03, 0.5, 2.0, 17.0, 4000.0]


def batch(ck, name, idx, a, b, alone):
    k = [ALPHA[i] for i in idx]
    got, _ = evaluate(name, np.array(k), a, b, torch.float64, "batch")
    for j, i in enumerate(idx):
        key = (name, a, b, i)
        if key not in alone:
            alone[key] = evaluate(name, np.array([ALPHA[i]]), a, b, torch.float64, "alone")[0][0]
        close_rel(got[j], alone[key], f"row {j} of batch {k}", rtol=1e-13)
        ck.step()
    ck.state(name, idx)


def independent(ck, name):
    """Two results share no memory with each other or (their spectra) with the input."""
    t = torch.tensor(ALPHA)
    f = GEN[name][0]
    d1 = f(t, 2.0, 1.5)
    keep = d1["ops"].clone()
    d2 = f(t, 2.0, 1.5)
    d2["ops"].zero_()
    require(torch.equal(d1["ops"], keep), "results share memory")
    d1["ops"].mul_(7.0)
    d3 = f(t, 2.0, 1.5)
    require(torch.equal(d3["ops"], keep), "result depends on earlier ones")
    ck.step(3)
    ck.state("independent", name)


def run(ck):
    torch.set_default_dtype(torch.float64)
    F = (torch.float32, torch.float64)
    for name, A, B in (("kaimal", Z, U), ("karman", LS, CS)):
        for a, b, dt, de in itertools.product(A, B, F, F):
            ck.case(f"{name}/{a}/{b}/{dt}/{de}", formula, ck, name, a, b, dt, de)
        for a, b, dt in itertools.product(A[::2], B[::2], (torch.int64, torch.int32)):
            ck.case(f"int/{name}/{a}/{b}/{dt}", integers, ck, name, a, b, dt)
        # integer-valued parameters are as good as floating ones
        for a, b in itertools.product((1, 3, 50), (1, 2, 8)):
            ck.case(f"intpar/{name}/{a}/{b}", formula, ck, name, a, b, torch.float64, torch.float64)
            ck.case(f"intpar32/{name}/{a}/{b}", formula, ck, name, a, b, torch.float32, torch.float32)
        alone = {}
        for n in range(0, 5 if ck.thorough else 4):
            for idx in itertools.product(range(6), repeat=n):
                ck.case(f"batch/{name}/{idx}", batch, ck, name, idx, 2.5, 1.7, alone)
        ck.case(f"independent/{name}", independent, ck, name)
    for dt in F:
        ck.case(f"defaults/{dt}", defaults, ck, dt)
