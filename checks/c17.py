"""Calibration loop: stopping, errors, component selection, parameters returned (C17)."""
import contextlib
import copy
import itertools
import math

import numpy as np
import torch
from torch.nn.utils import parameters_to_vector

from lib import drd
from lib.mc import close_rel, expect_raises, require

LEVEL = "model_checking"
TECH = "explicit-state exploration of the real training loop under scripted losses (all loss words up to a depth), plus lock-step replay of real fits against a reference optimiser loop"
RULE = (
    "the loop's abstract machine (running / converged / epochs exhausted / error) is driven through every word of epoch losses; the number of optimiser steps (counted by "
    "torch's global step hook), the outcome and the returned parameters are compared after every word and after every pair of consecutive calibrations. "
    "Real fits over all model options are replayed in lock step by a reference loop with an independently written loss. A state is (word consumed, outcome)."
)
BOUNDS = (
    "all words of length <= 4 (thorough 5) over {above, at, below tolerance, inf, nan} x 2 optimisers; all ordered pairs of words of length <= 2; "
    "5 lifetimes x learnable exponents x 3/4/6 components x 2 optimisers x penalty/regularisation on/off, 3 epochs; zero datum in every component; 1..130 wavenumbers; 5..130 epochs stopping at the end, in the middle or never; fits with up to 60 wavenumbers and 30 epochs; 12 rates from 1e-8 to 300, 4 scale triples x 31 exponent pairs"
)
ASSUMPTIONS = ["torch's optimisers and cosine schedule are trusted (the reference loop uses them)", "tensorboard writer replaced by a recorder"]

TOL = 0.25
VAL = {"h": 1.0, "e": TOL, "l": TOL / 2, "i": math.inf, "n": math.nan}
K1 = torch.tensor([0.05, 0.4, 2.0, 15.0], dtype=torch.float64)


def ip(n=4):
    from drdmannturb import IntegrationParameters

    return IntegrationParameters(ops_log_min=-2, ops_log_max=2, ops_num_points=n, coh_log_min=-2, coh_log_max=2, coh_num_points=4)


class Steps:
    """Counts optimiser steps and records the learning rate at each, for every optimiser."""

    def __init__(self):
        self.n, self.lr = 0, []

    def __enter__(self):
        from torch.optim.optimizer import register_optimizer_step_pre_hook

        def hook(opt, *a):
            self.n += 1
            self.lr.append([g["lr"] for g in opt.param_groups])

        self.h = register_optimizer_step_pre_hook(hook)
        return self

    def __exit__(self, *a):
        self.h.remove()


@contextlib.contextmanager
def scripted(word, steps, initial="h"):
    """LossAggregator.eval returns the scripted value of the current epoch, with a zero gradient."""
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    real = LossAggregator.eval

    def fake(self, y, *a, **kw):
        k = steps.n
        v = VAL[initial] if k == 0 else VAL[word[min(k, len(word)) - 1]]
        return y.sum() * 0.0 + v

    LossAggregator.eval = fake
    try:
        yield
    finally:
        LossAggregator.eval = real


def expected(word):
    for i, c in enumerate(word):
        if c in "in":
            return i + 1, "error"
        if c == "l":
            return i + 1, "below"
    return len(word), "epochs"


def check_result(pb, r, learnable, what):
    v = np.array(pb.parameters, dtype=float)
    want = {"L": np.exp(v[0]), "Γ": np.exp(v[1]), "σ": np.exp(v[2])}
    if learnable:
        want.update(p=v[3], q=v[4])
    require(set(r) == set(want), f"{what}: keys returned", got=sorted(r), want=sorted(want))
    for k in want:
        close_rel(float(r[k]), want[k], f"{what}: {k}", rtol=1e-9)
    require(all(float(pb.calibrated_params[k]) == float(r[k]) for k in want), f"{what}: calibrated_params differ from the result")
    pb.print_calibrated_params()


def run_word(ck, pb, word, opt, data, what, initial="h"):
    pb.prob_params.nepochs = len(word)
    n, how = expected(word)
    keep = {k: v.clone() for k, v in data.items()}
    with Steps() as st, scripted(word, st, initial):
        if how == "error":
            expect_raises(RuntimeError, lambda: pb.calibrate(data, optimizer_class=opt), what)
        else:
            r = pb.calibrate(data, optimizer_class=opt)
            check_result(pb, r, pb.prob_params.use_learnable_spectrum, what)
    require(st.n == n, f"{what}: optimiser steps", got=st.n, want=n)
    lr0 = pb.prob_params.learning_rate
    for i, l in enumerate(st.lr):
        w = lr0 * (1 + math.cos(math.pi * i / len(word))) / 2
        require(all(abs(x - w) <= 1e-9 * lr0 for x in l), f"{what}: learning rate of step {i + 1}", got=l, want=w)
    require(all(torch.equal(data[k], keep[k]) for k in keep), f"{what}: the data were changed")
    ck.step(n)
    for i in range(n):
        ck.state(word[: i + 1], opt.__name__)
    ck.outcome(how, n, len(word))
    return how


def tolerance_case(ck, tol, opt):
    """Whatever the tolerance, the loop ends after the first epoch whose loss is below it."""
    global TOL
    keep, vals = TOL, dict(VAL)
    TOL = tol
    VAL.update(h=tol * (1 + 1e-6), e=tol, l=tol * (1 - 1e-6))
    try:
        for w in ("h", "l", "hl", "el", "hhhh", "helh", "heel"):
            pb = drd.make_problem(eddy="CONST", integration=ip(2), nepochs=len(w), tol=tol, learning_rate=0.3)
            run_word(ck, pb, w, opt, {"k1": K1, "ops": drd.ops_tensor(4, 1)}, f"tolerance {tol}, word {w}")
    finally:
        TOL = keep
        VAL.update(vals)


def word_case(ck, word, opt, initial, eddy="CONST", learnable=False):
    pb = drd.make_problem(eddy=eddy, learnable=learnable, integration=ip(), nepochs=len(word), tol=TOL, learning_rate=0.3)
    expect_raises(ValueError, pb.print_calibrated_params, "printing before calibrating")
    run_word(ck, pb, word, opt, {"k1": K1, "ops": drd.ops_tensor(4, 1)}, f"word {word}", initial)


def values_case(ck, opt, lr0, scales, pq):
    """Any configured rate, any scales and exponents: the machine is the same and reports the vector it ends with."""
    for w in ("hhh", "hl", "hn"):
        pb = drd.make_problem(eddy="CONST", learnable=pq is not None, integration=ip(2), nepochs=len(w), tol=TOL, learning_rate=lr0, L=scales[0], Gamma=scales[1], sigma=scales[2])
        if pq is not None:
            v = np.array(pb.parameters)
            v[3:5] = pq
            pb.parameters = v
        run_word(ck, pb, w, opt, {"k1": K1, "ops": drd.ops_tensor(4, 1)}, f"rate {lr0}, scales {scales}, exponents {pq}, word {w}")


def sized_case(ck, word, opt, n):
    """The same machine whatever the number of wavenumbers and epochs."""
    pb = drd.make_problem(eddy="CONST", integration=ip(2), nepochs=len(word), tol=TOL, learning_rate=0.3)
    k = torch.logspace(-2, 1.5, n, dtype=torch.float64)
    run_word(ck, pb, word, opt, {"k1": k, "ops": drd.ops_tensor(n, 1)}, f"{n} wavenumbers, {len(word)} epochs")


def pair_case(ck, w1, w2, opt):
    pb = drd.make_problem(eddy="CONST", integration=ip(), nepochs=1, tol=TOL, learning_rate=0.3)
    data = {"k1": K1, "ops": drd.ops_tensor(4, 1)}
    run_word(ck, pb, w1, opt, data, f"first of {w1},{w2}")
    run_word(ck, pb, w2, opt, data, f"second of {w1},{w2}")


PEN = {"plain": {}, "pen": dict(alpha_pen1=0.7, alpha_pen2=0.4, beta_reg=0.05)}


def fit(ck, eddy, learnable, nc, opt, pen, epochs=3, learn_nu=False, n=4, lr0=0.2, hist=3):
    """Real calibration against a reference loop in lock step."""
    from drdmannturb import LossParameters

    k1 = K1 if n == 4 else torch.logspace(-1.6, 1.3, n, dtype=torch.float64)

    kw = dict(eddy=eddy, learnable=learnable, learn_nu=learn_nu, width=3, layers=1, integration=ip(), nepochs=epochs, tol=1e-14, learning_rate=lr0, wolfe_iter_count=hist, num_components=nc,
              loss=LossParameters(**PEN[pen]), zref=2.0)
    pb, q = drd.make_problem(**kw), drd.make_problem(**kw)
    v = np.array(pb.parameters)
    if eddy == "TAUNET":
        v[5 if learnable else 3 :] = np.random.RandomState(3).uniform(0.1, 0.9, len(v) - (5 if learnable else 3))
        if learn_nu:
            v[-1] = -0.31
        pb.parameters = v
    q.parameters = v
    ops = drd.ops_tensor(n, nc)
    if nc == 6:
        # vw and uv are tiny in the model (see C14): tame the misfit so the line search stays well conditioned
        with torch.no_grad():
            y = q.OPS(k1)
        for c in (4, 5):
            i, j = drd.COMPONENTS[c]
            ops[:, i, j] = y[c].abs() * torch.tensor([1.5, 0.8, 1.2, 0.6])
    if n != 4:  # only the magnitudes of the data matter
        ops[::2] *= -1.0
        ops[:, 0, 2] *= -1.0
    # entries that are not fitted must not matter at all
    used = set(drd.COMPONENTS[:nc])
    for i, j in itertools.product(range(3), range(3)):
        if (i, j) not in used:
            ops[:, i, j] = math.nan
    data = {"k1": k1.clone(), "ops": ops}
    keep = copy.deepcopy(data)
    with Steps() as st:
        r = pb.calibrate(data, optimizer_class=opt)
    require(torch.equal(data["k1"], keep["k1"]) and torch.equal(torch.nan_to_num(data["ops"], nan=-9.0), torch.nan_to_num(keep["ops"], nan=-9.0)), "the data were changed")
    check_result(pb, r, learnable, "fit")
    require(st.n == epochs, "optimiser steps", got=st.n, want=epochs)
    # reference loop
    if opt is torch.optim.LBFGS:
        o = torch.optim.LBFGS(q.OPS.parameters(), lr=lr0, line_search_fn="strong_wolfe", max_iter=hist, history_size=epochs)
    else:
        o = torch.optim.Adam(q.OPS.parameters(), lr=lr0, betas=(0.9, 0.999), eps=1e-8, weight_decay=1e-5)
    tgt = torch.stack([keep["ops"][:, i, j] for i, j in drd.COMPONENTS[:nc]])
    p = PEN[pen]

    def closure():
        o.zero_grad()
        theta = parameters_to_vector(q.OPS.tauNet.parameters()) if eddy == "TAUNET" else None
        l = drd.ref_loss(q.OPS(k1)[:nc], tgt, k1, theta, 2.0, p.get("alpha_pen1", 0), p.get("alpha_pen2", 0), p.get("beta_reg", 0))
        l.backward()
        return l

    for e in range(epochs):
        for g in o.param_groups:
            g["lr"] = lr0 * (1 + math.cos(math.pi * e / epochs)) / 2
        o.step(closure)
        ck.step()
    close_rel(np.array(pb.parameters), np.array(q.parameters), "parameters after the fit", rtol=1e-5, atol=1e-6)
    require(not np.allclose(np.array(pb.parameters), v), "the fit moved nothing")
    ck.state("fit", eddy, learnable, nc, opt.__name__, pen, learn_nu, n, epochs)
    ck.outcome("fit", np.array(pb.parameters))


def zero_datum(ck, nc, c, eddy, opt):
    """A spectrum with a zero has an infinite log misfit: an error, not a result."""
    pb = drd.make_problem(eddy=eddy, width=3, layers=1, integration=ip(), nepochs=2, num_components=nc, learning_rate=0.1, wolfe_iter_count=2)
    ops = drd.ops_tensor(4, 2)
    i, j = drd.COMPONENTS[c]
    ops[1, i, j] = 0.0
    if c < nc:
        expect_raises((RuntimeError, ValueError), lambda: pb.calibrate({"k1": K1, "ops": ops}, optimizer_class=opt), f"zero in component {c}")
        require(not hasattr(pb, "calibrated_params"), "a failed calibration left a result")
    else:
        check_result(pb, pb.calibrate({"k1": K1, "ops": ops}, optimizer_class=opt), False, "unused zero")
    ck.step()
    ck.state("zero", nc, c, eddy, opt.__name__)


def run(ck):
    torch.set_default_dtype(torch.float64)
    drd.no_tensorboard()
    opts = (torch.optim.Adam, torch.optim.LBFGS)
    depth = 5 if ck.thorough else 4
    for n in range(1, depth + 1):
        for w in map("".join, itertools.product("helin", repeat=n)):
            for o in opts:
                for ini in ("h", "l") if n <= 2 else ("h",):
                    ck.case(f"word/{w}/{o.__name__}/{ini}", word_case, ck, w, o, ini)
    for e, lr in itertools.product(("TAUNET", "MANN", "TWOTHIRD", "MANN_APPROX"), (False, True)):
        for w in ("hhl", "hh", "hi", "l"):
            ck.case(f"word/{w}/{e}/{lr}", word_case, ck, w, opts[0], "h", e, lr)
    short = [w for n in (1, 2) for w in map("".join, itertools.product("hlin", repeat=n))]
    for w1, w2 in itertools.product(short, short):
        ck.case(f"pair/{w1}/{w2}", pair_case, ck, w1, w2, opts[1])
    for e, lr, nc, o, p in itertools.product(("CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET"), (False, True), (3, 4, 6), opts, ("plain", "pen")):
        ck.case(f"fit/{e}/{lr}/{nc}/{o.__name__}/{p}", fit, ck, e, lr, nc, o, p)
    for lr, o in itertools.product((False, True), opts):
        ck.case(f"fit/nu/{lr}/{o.__name__}", fit, ck, "TAUNET", lr, 4, o, "pen", 3, True)
    for n, o in itertools.product((1, 2, 3, 5, 8, 10, 11, 16, 20, 21, 32, 50, 64, 65, 100, 101, 130), opts):
        for w in ("hhl", "hn"):
            ck.case(f"size/{n}/{w}/{o.__name__}", sized_case, ck, w, o, n)
    for m, o in itertools.product((5, 6, 8, 9, 10, 11, 15, 20, 21, 25, 33, 49, 50, 51, 64, 99, 100, 101, 102, 130), opts):
        for w in ("h" * m, "h" * (m - 1) + "l", "h" * (m // 2) + "l" + "h" * (m - m // 2 - 1), "h" * (m - 1) + "n", "h" * (m // 2) + "i" + "h" * (m - m // 2 - 1)):
            ck.case(f"long/{m}/{w.lstrip('h')[:1]}{w.rfind('l')}/{o.__name__}", sized_case, ck, w, o, 3)
    for t, o in itertools.product((1e-12, 1e-8, 1e-6, 1e-5, 1e-3, 0.01, 0.1, 1.0, 5.0, 1e3), opts):
        ck.case(f"tolerance/{t}/{o.__name__}", tolerance_case, ck, t, o)
    for lr0, o in itertools.product((1e-8, 1e-5, 1e-3, 0.01, 0.1, 0.5, 0.6, 1.0, 1.5, 2.0, 10.0, 300.0), opts):
        ck.case(f"rate/{lr0}/{o.__name__}", values_case, ck, o, lr0, (0.59, 3.9, 3.2), None)
    pqs = [None] + [(p, q) for p in (-1.0, 0.3, 1.0, 2.5, 4.0, 7.0) for q in (0.2, 1.0, 2.0, 2.8333, 5.0)]
    for sc, pq, o in itertools.product(((0.01, 0.05, 0.001), (0.59, 3.9, 3.2), (1.0, 1.0, 1.0), (40.0, 9.0, 250.0)), pqs, opts):
        ck.case(f"values/{sc}/{pq}/{o.__name__}", values_case, ck, o, 0.05, sc, pq)
    for n, e in itertools.product((3, 7, 20, 33, 60), ("CONST", "MANN", "TAUNET")):
        ck.case(f"fit/size/{n}/{e}", fit, ck, e, False, 4, opts[0], "pen", 3, False, n)
    for ep, e, o in itertools.product((1, 2, 7, 12, 30), ("CONST", "TAUNET"), opts):
        if o is opts[0] or ep < 4:
            ck.case(f"fit/epochs/{ep}/{e}/{o.__name__}", fit, ck, e, False, 3, o, "plain", ep)
    for lr0, o in itertools.product((1e-4, 0.01, 0.05, 0.7, 1.3), opts):
        ck.case(f"fit/rate/{lr0}/{o.__name__}", fit, ck, "MANN", False, 4, o, "pen", 2, False, 4, lr0)
    for h in (1, 2, 5, 8):
        ck.case(f"fit/wolfe/{h}", fit, ck, "MANN", False, 4, opts[1], "plain", 2, False, 4, 0.1, h)
    for nc, c, e, o in itertools.product((3, 4, 6), range(6), ("MANN", "TAUNET"), opts):
        ck.case(f"zero/{nc}/{c}/{e}/{o.__name__}", zero_datum, ck, nc, c, e, o)
