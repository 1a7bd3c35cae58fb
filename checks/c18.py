"""The training loss is the sum of exactly the enabled terms (C18)."""
import itertools
import math

import numpy as np
import torch

from lib import drd
from lib.mc import close_rel, expect_raises, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of coefficient/option combinations, input shapes and evaluation histories of the real aggregator against an explicit-sum reference"
RULE = (
    "state of the aggregator = list of term tuples so far; every evaluation word over a set of inputs (slopes up, down, convex, concave, sign-changing, NaN-producing) is executed for every on/off "
    "combination of coefficients and optional inputs and compared after each evaluation: value, gradient, each recorded term, total, history lengths, untouched inputs"
)
BOUNDS = "2^4 coefficient combinations x 3 magnitudes x coherence given/not/numpy/tensor x network vector given/none x 3 heights x 4 shapes x 7 spectra; wavenumbers rising, falling and unordered; 300 wavenumbers, 500 weights, coherence of 1 to 140 values from 1e-6 to 40; histories of length 3 (quick) / 4 over 6 inputs; heights 1e-3 to 1e4"
ASSUMPTIONS = ["tensorboard writer replaced by a recorder", "double precision; single precision compared at 1e-4"]
KEYS = ("mse", "coherence", "pen1", "pen2", "regularization")


ORDER = ["up"]


def k1s(m):
    k = k1up(m)
    if ORDER[0] == "down":
        return k.flip(0)
    if ORDER[0] == "mixed":
        return k[torch.tensor([(5 * i + 2) % m if m % 5 else (3 * i + 1) % m for i in range(m)])]
    return k


def k1up(m):
    if m > 6:  # a long, unevenly spaced axis
        return torch.tensor(np.cumsum(1e-3 * 1e5 ** (np.arange(m) / m) * (1 + 0.5 * np.sin(np.arange(m)))))
    return torch.tensor([0.03, 0.2, 0.5, 4.0, 9.0, 70.0][:m])


def spectra(kind, n, m):
    """(y, data): n components on m wavenumbers."""
    k = k1s(m).numpy()
    i = np.arange(n)[:, None]
    lk = np.log(k)[None, :]
    ly = {
        "up": 0.7 * lk + 0.1 * i,
        "down": -1.3 * lk - 0.2 * i,
        "concave": -0.3 * (lk - 0.4 * i) ** 2,
        "convex": 0.2 * (lk + 0.3 * i) ** 2,
        "zig": np.where(np.arange(m) % 2 == 0, 0.9, -0.4)[None, :] + 0.05 * i + 0 * lk,
        "flat": 0.0 * lk + 0.3 * i,
        "sign": -0.8 * lk + 0.3 * np.sin(3 * lk + i),
    }[kind]
    s = np.where((np.arange(n)[:, None] + (kind == "sign")) % 2 == 0, 1.0, -1.0)
    y = s * np.exp(ly)
    d = np.exp(0.4 * np.sin(1.7 * lk + i) - 0.6 * lk) * np.where(i % 3 == 1, -1.0, 1.0)
    return torch.tensor(y), torch.tensor(d)


def coh(kind, seed=0):
    r = np.random.RandomState(seed)
    lo, hi, ns, nf = {"wide": (-3.0, 40.0, 4, 3), "one": (0.0, 1.0, 1, 1), "long": (0.0, 2.0, 3, 70), "many": (0.0, 1.5, 25, 2), "tiny": (0.0, 1e-6, 2, 2)}.get(kind, (0.0, 1.0, 4, 3))
    d = {f"model_{c}": torch.tensor(r.uniform(lo, hi, (ns, nf))) for c in "uvw"}
    for c in "uvw":
        x = r.uniform(lo, hi, (ns, nf))
        d[f"data_{c}"] = x if kind == "numpy" else torch.tensor(x)
    return d


def ref_coh(c):
    s = 0.0
    for k in "uvw":
        m, d = np.asarray(c[f"model_{k}"].detach()), np.asarray(c[f"data_{k}"])
        s += sum((m[i, j] - d[i, j]) ** 2 for i in range(m.shape[0]) for j in range(m.shape[1])) / m.size
    return s / 3.0


def terms(y, d, m, theta, z, co, cd):
    k = k1s(m)
    base = float(drd.ref_loss(y, d, k))
    t = {"mse": base}
    t["pen1"] = co["a1"] * (float(drd.ref_loss(y, d, k, None, z, a1=1.0)) - base) if co["a1"] > 0 else 0.0
    t["pen2"] = co["a2"] * (float(drd.ref_loss(y, d, k, None, z, a2=1.0)) - base) if co["a2"] > 0 else 0.0
    t["regularization"] = co["b"] * float((theta**2).sum()) / theta.numel() if co["b"] > 0 and theta is not None else 0.0
    t["coherence"] = co["g"] * ref_coh(cd) if co["g"] > 0 and cd is not None else 0.0
    return t


def make(co, m, z):
    from drdmannturb import LossAggregator, LossParameters

    return LossAggregator(LossParameters(alpha_pen1=co["a1"], alpha_pen2=co["a2"], beta_reg=co["b"], gamma_coherence=co["g"]), k1s(m), z)


def evaluate(ck, agg, y, d, theta, cd, co, m, z, n_hist, what, grad=True, tol=1e-9):
    want = terms(y, d, m, theta, z, co, cd)
    yy = y.clone().requires_grad_(grad)
    th = None if theta is None else theta.clone().requires_grad_(grad)
    keep = [y.clone(), d.clone(), None if theta is None else theta.clone(), None if cd is None else {k: np.array(v) for k, v in cd.items()}]
    if cd is None:
        tot = agg.eval(yy, d, th, n_hist)
    else:
        tot = agg.eval(yy, d, th, n_hist, coherence_data=cd)
    total = sum(want.values())
    close_rel(float(tot), total, f"{what}: loss", rtol=tol, atol=1e-12)
    for k in KEYS:
        h = agg.component_losses[k]
        require(len(h) == n_hist + 1, f"{what}: length of the history of {k}", got=len(h), want=n_hist + 1)
        c = co.get(dict(pen1="a1", pen2="a2", regularization="b", coherence="g").get(k), 1.0)
        close_rel(float(h[-1]), want[k], f"{what}: {k}", rtol=max(tol, 1e-9), atol=1e-10 * min(1.0, max(c, 0.0)))
    h = agg.component_losses["total"]
    require(len(h) == n_hist + 1, f"{what}: length of the history of totals", got=len(h))
    close_rel(float(h[-1]), total, f"{what}: recorded total", rtol=tol, atol=1e-12)
    require(torch.equal(yy.detach(), keep[0]) and torch.equal(d, keep[1]), f"{what}: spectra changed")
    require(theta is None or torch.equal(th.detach(), keep[2]), f"{what}: network vector changed")
    require(cd is None or all(np.array_equal(np.array(v), keep[3][k]) for k, v in cd.items()), f"{what}: coherence changed")
    if grad:
        tot.backward()
        y2 = y.clone().requires_grad_(True)
        t2 = None if theta is None else theta.clone().requires_grad_(True)
        drd.ref_loss(y2, d, k1s(m), t2, z, max(co["a1"], 0), max(co["a2"], 0), max(co["b"], 0)).backward()
        g, w = yy.grad.numpy(), y2.grad.numpy()
        close_rel(g, w, f"{what}: gradient in the spectra", rtol=1e-7, atol=1e-10)
        if co["b"] > 0 and theta is not None:
            close_rel(th.grad.numpy(), t2.grad.numpy(), f"{what}: gradient in the network", rtol=1e-9)
    ck.step()
    return want


def lattice(ck, co, kind, n, m, z, cmode, tmode):
    agg = make(co, m, z)
    y, d = spectra(kind, n, m)
    theta = None if tmode is None else torch.tensor(np.random.RandomState(tmode).uniform(-1, 1, tmode))
    cd = None if cmode is None else coh(cmode)
    w = evaluate(ck, agg, y, d, theta, cd, co, m, z, 0, f"{kind} {n}x{m} z={z}")
    ck.state(sorted(co.items()), kind, n, m, z, cmode, tmode, ORDER[0])
    ck.outcome([round(v, 9) for v in w.values()])


WORDS = {"A": ("up", None), "B": ("convex", "numpy"), "C": ("down", "tensor"), "D": ("sign", None), "N": ("nan", None), "M": ("up", "nan")}


def history(ck, word, co):
    m, n, z = 5, 3, 2.0
    agg = make(co, m, z)
    theta = torch.tensor([0.3, -0.2, 0.9])
    done = []
    for i, c in enumerate(word):
        kind, cm = WORDS[c]
        what = f"{word[: i + 1]}"
        if c == "N":
            y, d = spectra("up", n, m)
            y = y.clone()
            y[1, 2] = math.nan
            expect_raises(ValueError, lambda: agg.eval(y, d, theta, i), f"{what}: NaN spectrum")
        elif c == "M" and co["g"] > 0:
            cd = coh("numpy", 3)
            cd["data_v"][1, 1] = math.nan
            y, d = spectra("up", n, m)
            expect_raises(ValueError, lambda: agg.eval(y, d, theta, i, coherence_data=cd), f"{what}: NaN coherence")
        else:
            y, d = spectra(kind, n, m)
            cd = None if cm is None else coh("tensor" if cm == "tensor" else "numpy", 3)
            done.append(evaluate(ck, agg, y, d, theta, cd, co, m, z, len(done), what, grad=False))
        for k in KEYS:
            require(len(agg.component_losses[k]) == len(done), f"{what}: history length of {k}")
            for g, w in zip(agg.component_losses[k], done):
                close_rel(float(g), w[k], f"{what}: history of {k}", rtol=1e-9, atol=1e-10)
        for g, w in zip(agg.component_losses["total"], done):
            close_rel(float(g), sum(w.values()), f"{what}: history of totals", rtol=1e-9, atol=1e-10)
        ck.state(sorted(co.items()), word[: i + 1])
        ck.step()


def nan_term(ck, which, co):
    """A NaN in any enabled term is an error; in a disabled term it is not even looked at."""
    agg = make(co, 5, 1.0)
    y, d = spectra("up", 3, 5)
    theta = torch.tensor([0.3, -0.2])
    cd = None
    if which == "theta":
        theta[1] = math.nan
        bad = co["b"] > 0
    elif which in ("data_u", "data_v", "data_w", "model_u", "model_v", "model_w"):
        cd = coh("tensor", 1)
        cd[which][2, 1] = math.nan
        bad = co["g"] > 0
    elif which == "target":
        d[2, 3] = math.nan
        bad = True
    elif which == "zeros":  # the differences of the logarithms are NaN, the misfit is only infinite
        y[1, 2:4] = 0.0
        bad = co["a1"] > 0 or co["a2"] > 0
    else:
        y[0, 0] = math.nan
        bad = True
    f = lambda: agg.eval(y, d, theta, 0, coherence_data=cd)  # noqa: E731
    if bad:
        expect_raises(ValueError, f, f"NaN in {which}")
    else:
        v = float(f())
        require(math.isinf(v) if which == "zeros" else math.isfinite(v), f"NaN in disabled {which} reached the loss")
    ck.step()
    ck.state("nan", which, sorted(co.items()))


def f32(ck, co, kind):
    torch.set_default_dtype(torch.float32)
    try:
        agg = make(co, 5, 2.0)
        y, d = spectra(kind, 3, 5)
        theta = torch.tensor([0.3, -0.2, 0.9])
        cd = {k: (v.float() if torch.is_tensor(v) else v) for k, v in coh("numpy").items()}
        tot = agg.eval(y.float(), d.float(), theta, 0, coherence_data=cd)
        w = sum(terms(y, d, 5, theta.double(), 2.0, co, coh("numpy")).values())
        close_rel(float(tot), w, "single precision loss", rtol=2e-4, atol=1e-5)
        ck.step()
        ck.state("f32", sorted(co.items()), kind)
    finally:
        torch.set_default_dtype(torch.float64)


def run(ck):
    torch.set_default_dtype(torch.float64)
    drd.no_tensorboard()
    vals = dict(a1=0.7, a2=0.3, b=0.05, g=1.9)
    combos = [{k: (v if on else 0.0) for (k, v), on in zip(vals.items(), bits)} for bits in itertools.product((0, 1), repeat=4)]
    kinds = ("up", "down", "concave", "convex", "zig", "flat", "sign")
    shapes = ((1, 3), (3, 5), (4, 6), (6, 4))
    for ci, co in enumerate(combos):
        for kind, (n, m), z, cm, tm in itertools.product(kinds, shapes, (0.5, 1.0, 7.0), (None, "numpy", "tensor"), (None, 1, 7)):
            if not ck.thorough and z != 0.5 and ((cm == "tensor") or tm == 1 or n in (1, 4)):
                continue
            ck.case(f"lattice/{ci}/{kind}/{n}x{m}/{z}/{cm}/{tm}", lattice, ck, co, kind, n, m, z, cm, tm)
    for s in (1e-13, 1e-6, 40.0, -1.0):  # other magnitudes; a negative coefficient enables nothing
        for k in vals:
            for kind in kinds:
                co = dict.fromkeys(vals, 0.0)
                co[k] = s
                ck.case(f"magnitude/{s}/{k}/{kind}", lattice, ck, co, kind, 3, 5, 2.0, "numpy", 7)
    # wavenumbers falling, or in no order
    def ordered(order, *a):
        ORDER[0] = order
        try:
            lattice(*a)
        finally:
            ORDER[0] = "up"

    for order, ci, kind, (n, m), z in itertools.product(("down", "mixed"), (8, 4, 15), kinds, ((1, 3), (3, 5), (4, 6), (2, 40)), (0.5, 7.0)):
        ck.case(f"order/{order}/{ci}/{kind}/{n}x{m}/{z}", ordered, order, ck, combos[ci], kind, n, m, z, "numpy", 7)
    for z, ci, kind, (n, m) in itertools.product((1e-3, 0.03, 90.0, 1e4), (8, 4, 12, 15), kinds, ((1, 3), (3, 5))):
        ck.case(f"heights/{z}/{ci}/{kind}/{n}x{m}", lattice, ck, combos[ci], kind, n, m, z, "numpy", 7)
    # unusual sizes and magnitudes
    for co in (combos[15], combos[1], combos[8]):
        for cm in ("wide", "one", "long", "many", "tiny"):
            for kind, (n, m), tm in itertools.product(kinds, ((3, 5), (4, 40), (2, 300)), (2, 500)):
                ck.case(f"sizes/{sorted(co.items())}/{kind}/{n}x{m}/{cm}/{tm}", lattice, ck, co, kind, n, m, 3.0, cm, tm)
    for ci, co in enumerate(combos):
        for which in ("theta", "data_u", "data_v", "data_w", "model_u", "model_v", "model_w", "target", "y", "zeros"):
            ck.case(f"nan/{ci}/{which}", nan_term, ck, which, co)
        for kind in kinds:
            ck.case(f"f32/{ci}/{kind}", f32, ck, co, kind)
    for ci in (0, 1, 6, 15) if not ck.thorough else range(16):
        for w in map("".join, itertools.product("ABCDNM", repeat=4 if ck.thorough else 3)):
            ck.case(f"history/{ci}/{w}", history, ck, w, combos[ci])
