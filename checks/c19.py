"""Loss histories, running averages, diagnostics and learning-rate advice (C19)."""
import itertools
import math

import numpy as np
import torch

from checks.c17 import K1, VAL, TOL, Steps, ip, scripted
from lib import drd
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "explicit-state exploration of the real aggregator over all loss words up to a depth against a reference automaton; scripted and real calibrations for the application of the advice"
RULE = (
    "the aggregator is driven, through its public eval, along every word over an alphabet of five-term losses; after every letter the running averages, the current-loss report, the diagnostics of every "
    "window and the advice at epochs around the window are compared with a reference computed from the word. The training loop is driven over all words of advice at the fiftieth epochs. "
    "A state is the word of losses seen (the history is the aggregator's state)."
)
BOUNDS = "words of length <= 4 over 6 letters and <= 5 over 4 letters (thorough: <= 6 over 6), windows 2..length+1; periodic words of length 60 for the default window; words of length 1100 (thorough 3000); all words of advice of length <= 3 over {none, 0.5, 0.3, 0.7} for 49..160 epochs, single advice at any of the first nine occasions of 455 epochs, and a run of 1050"
ASSUMPTIONS = ["metrics closer than 1e-6 to a threshold are not used to predict the advice", "scheduler arithmetic is torch's"]
KEYS = ("mse", "coherence", "pen1", "pen2", "regularization")

# letter -> (mse, coherence, curvature of the model spectrum, regularisation)
ALPHABET = {
    "a": (1.0, 0.5, 1.0, 0.8),
    "b": (0.45, 0.3, 0.8, 0.4),
    "c": (60.0, 9.0, 2.0, 3.0),
    "d": (0.02, 0.004, 0.1, 0.009),
    "e": (7.0, 0.02, 0.3, 0.01),
    "z": (0.0, 0.0, 0.0, 0.0),
}
LK = np.log(np.array([0.1, 0.5, 3.0]))


def inputs(letter, z=1.0):
    """(y, data, theta, coherence) whose five terms have the wanted values; coefficients are all one, reference height z."""
    mse, coh, cv, reg = ALPHABET[letter]
    ly = np.stack([cv * (0.1 * (LK + 3.0) ** 2), cv * 0.3 * LK])
    y = np.exp(ly)
    data = y * np.exp(-math.sqrt(mse))
    theta = torch.full((3,), math.sqrt(reg))
    m = np.full((2, 2), 0.25)
    cd = {}
    for c in "uvw":
        cd[f"model_{c}"] = torch.tensor(m + math.sqrt(coh))
        cd[f"data_{c}"] = m
    slope = np.diff(ly, axis=1) / np.diff(LK)
    curv = np.diff(slope, axis=1) / (0.5 * (LK[2:] - LK[:-2]))
    vals = dict(mse=mse, coherence=coh, pen1=float(np.mean(np.maximum(slope, 0) ** 2)) / z, pen2=float(np.mean(np.maximum(curv, 0) ** 2)) / z**2, regularization=reg)
    return (torch.tensor(y), torch.tensor(data), theta, cd), vals


def ref_diag(h, w):
    """Diagnostics of the last w tuples, or None."""
    if len(h) < w:
        return None
    r = h[-w:]
    tot = [sum(t.values()) for t in r]
    out = {}
    for k in KEYS:
        v = np.array([t[k] for t in r])
        out[f"{k}_mean"], out[f"{k}_std"] = float(v.mean()), float(v.std())
    out["total_mean"], out["total_std"] = float(np.mean(tot)), float(np.std(tot))
    means = {k: out[f"{k}_mean"] for k in KEYS}
    out["_dominant"] = means
    out["dominance_ratio"] = max(means.values()) / max(min(means.values()), 1e-8)
    early, recent = np.mean(tot[: w // 2]), np.mean(tot[w // 2 :])
    out["improvement_ratio"] = (early - recent) / max(early, 1e-8)
    out["stability"] = 1.0 / (1.0 + out["total_std"])
    return out


def ref_advice(d):
    for key, thr in (("improvement_ratio", 0.01), ("stability", 0.3), ("dominance_ratio", 100.0)):
        if abs(d[key] - thr) < 1e-6 * max(1.0, thr):
            return None
    if d["improvement_ratio"] < 0.01:
        return True, "stagnation", 0.5
    if d["stability"] < 0.3:
        return True, "instability", 0.3
    if d["dominance_ratio"] > 100:
        return True, "component_dominance", 0.7
    return False, "healthy_training", None


def compare(ck, agg, hist, windows, what):
    avg = None
    for t in hist:
        avg = dict(t) if avg is None else {k: 0.9 * avg[k] + 0.1 * t[k] for k in KEYS}
    for k in KEYS:
        close_rel(agg.running_averages[k], avg[k], f"{what}: running average of {k}", rtol=1e-9, atol=1e-12)
    info = agg.get_current_loss_info()
    last = hist[-1]
    for k, v in dict(mse_current=last["mse"], coherence_current=last["coherence"], total_current=sum(last.values()), mse_avg=avg["mse"], coherence_avg=avg["coherence"]).items():
        close_rel(info[k], v, f"{what}: current {k}", rtol=1e-9, atol=1e-12)
    for w in windows:
        d = agg.get_loss_diagnostics(w)
        r = ref_diag(hist, w)
        if r is None:
            require(d == {}, f"{what}: diagnostics before window {w} is full", got=d)
            adv = agg.should_adjust_learning_rate(w + 3, w)
            require(adv["adjust"] is False and adv["reason"] == "no_diagnostics", f"{what}: advice before window {w} is full", got=adv)
            continue
        for k, v in r.items():
            if k[0] == "_":
                best = max(v.values())
                top = {n for n, x in v.items() if abs(x - best) <= 1e-9 * max(best, 1e-12)}
                require(d["dominant_component"] in top, f"{what}: dominant term in window {w}", got=d["dominant_component"], want=top)
            else:
                close_rel(d[k], v, f"{what}: {k} of window {w}", rtol=1e-6, atol=1e-9)
        for ep in (0, w - 1, w, w + 7):
            a = agg.should_adjust_learning_rate(ep, w)
            if ep < w:
                require(a["adjust"] is False and a["reason"] == "insufficient_data", f"{what}: advice at epoch {ep} window {w}", got=a)
                continue
            x = ref_advice(r)
            if x is None:
                ck.add("near_threshold")
                continue
            require(bool(a["adjust"]) == x[0] and a["reason"] == x[1], f"{what}: advice at epoch {ep} window {w}", got=a, want=x)
            if x[0]:
                require(a["factor"] == x[2], f"{what}: factor", got=a, want=x)
            if x[1] == "component_dominance":
                require(a["dominant"] == d["dominant_component"], f"{what}: dominant term named", got=a)
            ck.outcome(x)


def word(ck, w, seen, prep, windows=None, z=1.0):
    from drdmannturb import LossAggregator, LossParameters

    agg = LossAggregator(LossParameters(alpha_pen1=1.0, alpha_pen2=1.0, beta_reg=1.0, gamma_coherence=1.0), torch.tensor(np.exp(LK)), z)
    require(agg.get_current_loss_info() == {} and agg.get_loss_diagnostics(2) == {}, "a fresh aggregator reports losses")
    hist = []
    for i, c in enumerate(w):
        (y, d, th, cd), vals = prep[c]
        tot = agg.eval(y, d, th, i, coherence_data=cd)
        hist.append(vals)
        ck.step()
        if w[: i + 1] in seen and i + 1 < len(w):
            continue
        close_rel(float(tot), sum(vals.values()), f"{w[: i + 1]}: loss", rtol=1e-9, atol=1e-12)
        compare(ck, agg, hist, windows or range(2, i + 3), w[: i + 1])
        ck.state(w[: i + 1], z)
    for i in range(len(w)):
        seen.add(w[: i + 1])


def default_window(ck, pat, prep):
    """The default window of fifty evaluations, over a periodic word."""
    from drdmannturb import LossAggregator, LossParameters

    agg = LossAggregator(LossParameters(alpha_pen1=1.0, alpha_pen2=1.0, beta_reg=1.0, gamma_coherence=1.0), torch.tensor(np.exp(LK)), 1.0)
    hist = []
    w = (pat * 60)[:60] if len(set(pat)) > 0 and len(pat) < 3 else pat[0] * 30 + pat[1] * 10 + pat[2] * 20
    for i, c in enumerate(w):
        (y, d, th, cd), vals = prep[c]
        agg.eval(y, d, th, i, coherence_data=cd)
        hist.append(vals)
        ck.step()
        if i + 1 in (49, 50, 51, 60):
            r = ref_diag(hist, 50)
            g = agg.get_loss_diagnostics()
            require((g == {}) == (r is None), f"{pat} after {i + 1}: default diagnostics", got=g)
            a = agg.should_adjust_learning_rate(i + 1)
            if i + 1 < 50:
                require(a["reason"] == "insufficient_data" and not a["adjust"], "advice", got=a)
            else:
                for k in ("improvement_ratio", "stability", "dominance_ratio", "total_mean", "total_std"):
                    close_rel(g[k], r[k], f"{pat} after {i + 1}: {k}", rtol=1e-6, atol=1e-9)
                x = ref_advice(r)
                if x:
                    require(bool(a["adjust"]) == x[0] and a["reason"] == x[1] and (not x[0] or a["factor"] == x[2]), f"{pat} after {i + 1}: advice", got=a, want=x)
                    ck.outcome("default", x)
            ck.state("default", pat, i)


def long_history(ck, n, pat, prep):
    """Many evaluations with diagnostics and advice read in between: nothing is ever dropped."""
    from drdmannturb import LossAggregator, LossParameters

    agg = LossAggregator(LossParameters(alpha_pen1=1.0, alpha_pen2=1.0, beta_reg=1.0, gamma_coherence=1.0), torch.tensor(np.exp(LK)), 1.0)
    hist = []
    for i in range(n):
        (y, d, th, cd), vals = prep[pat[(i * i + i // 7) % len(pat)]]
        agg.eval(y, d, th, i, coherence_data=cd)
        hist.append(vals)
        ck.step()
        if i % 97 == 96 or i == n - 1:
            compare(ck, agg, hist, (2, 50, i, i + 1, i + 2), f"after {i + 1}")
            agg.should_adjust_learning_rate(i + 1)
            for k in KEYS:
                h = agg.component_losses[k]
                require(len(h) == len(hist), f"after {i + 1}: length of the history of {k}", got=len(h), want=len(hist))
                close_rel(np.array([float(x) for x in h]), np.array([t[k] for t in hist]), f"after {i + 1}: history of {k}", rtol=1e-9, atol=1e-10)
            require(len(agg.component_losses["total"]) == len(hist), "history of totals")
            ck.state("long", pat, i)


def lr_reference(lr0, n_epochs, total, decide):
    """Learning rate at every step: cosine schedule with the advice applied after epochs 50, 100, ..."""
    p = torch.nn.Parameter(torch.zeros(1))
    o = torch.optim.SGD([p], lr=lr0)
    s = torch.optim.lr_scheduler.CosineAnnealingLR(o, T_max=total)
    out = []
    for e in range(1, n_epochs + 1):
        out.append(o.param_groups[0]["lr"])
        o.step()
        s.step()
        if e % 50 == 0:
            f = decide(e)
            if f is not None:
                for g in o.param_groups:
                    g["lr"] = g["lr"] * f
    return out


FACT = {"-": None, "s": ("stagnation", 0.5), "i": ("instability", 0.3), "d": ("component_dominance", 0.7)}


def applied(ck, adv, epochs, stop, opt):
    """Scripted advice, scripted losses: when it is asked for and how it is applied."""
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    asked = []

    def fake(self, epoch, *a, **kw):
        asked.append(epoch)
        f = FACT[adv[min(len(asked), len(adv)) - 1]]
        return {"adjust": False, "reason": "healthy_training"} if f is None else {"adjust": True, "reason": f[0], "suggestion": "reduce_lr", "factor": f[1]}

    pb = drd.make_problem(eddy="CONST", integration=ip(1), nepochs=epochs, tol=TOL, learning_rate=0.3)
    w = "h" * epochs if stop is None else "h" * (stop - 1) + "l" * (epochs - stop + 1)
    n = epochs if stop is None else stop
    real = LossAggregator.should_adjust_learning_rate
    LossAggregator.should_adjust_learning_rate = fake
    try:
        with Steps() as st, scripted(w, st):
            pb.calibrate({"k1": K1, "ops": drd.ops_tensor(4, 1)}, optimizer_class=opt)
    finally:
        LossAggregator.should_adjust_learning_rate = real
    require(st.n == n, "optimiser steps", got=st.n, want=n)
    last = n if stop is None else n - 1
    want = [e for e in range(50, last + 1, 50)]
    require(asked == want, "epochs at which advice is asked for", got=asked, want=want)
    ref = lr_reference(0.3, n, epochs, lambda e: (lambda f: None if f is None else f[1])(FACT[adv[min(e // 50, len(adv)) - 1]]))
    for i, (l, r) in enumerate(zip(st.lr, ref)):
        require(all(abs(x - r) <= 1e-9 * 0.3 for x in l), f"learning rate of step {i + 1}", got=l, want=r)
    ck.step(n)
    ck.state("applied", adv, epochs, stop, opt.__name__)


def real_fit(ck, eddy, epochs, lr, coef):
    """Real losses: the advice computed from the recorded history is the one applied."""
    from drdmannturb import LossParameters

    torch.manual_seed(0)
    pb = drd.make_problem(eddy=eddy, width=3, layers=1, integration=ip(1), nepochs=epochs, tol=1e-16, learning_rate=lr, num_components=3, loss=LossParameters(**coef))
    with Steps() as st:
        pb.calibrate({"k1": K1, "ops": drd.ops_tensor(4, 1)}, optimizer_class=torch.optim.Adam)
    h = pb.LossAggregator.component_losses
    require(all(len(v) == epochs + 1 for v in h.values()), "one evaluation before and one per epoch", got={k: len(v) for k, v in h.items()})
    tup = [dict(zip(KEYS, t)) for t in zip(*(h[k] for k in KEYS))]

    def decide(e):
        x = ref_advice(ref_diag(tup[: e + 1], 50))
        if x is None:
            raise ArithmeticError
        ck.outcome("real", x)
        return x[2] if x[0] else None

    try:
        ref = lr_reference(lr, epochs, epochs, decide)
    except ArithmeticError:
        ck.add("near_threshold")
        return
    for i, (l, r) in enumerate(zip(st.lr, ref)):
        require(all(abs(x - r) <= 1e-9 * lr for x in l), f"learning rate of step {i + 1}", got=l, want=r)
    ck.step(epochs)
    ck.state("real", eddy, epochs, lr, sorted(coef))


def evaluations(ck, opt, epochs, stagnates):
    """Every loss evaluation of a long calibration stays in the history, and so does what calibration keeps for itself."""
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    torch.manual_seed(0)
    pb = drd.make_problem(eddy="TAUNET", width=2, layers=1, integration=ip(1), nepochs=epochs, tol=1e-16, learning_rate=1e-6 if stagnates else 0.01, num_components=3, wolfe_iter_count=20)
    real, seen = LossAggregator.eval, []

    def note(self, *a, **kw):
        x = real(self, *a, **kw)
        seen.append(float(x))
        return x

    LossAggregator.eval = note
    try:
        pb.calibrate({"k1": K1, "ops": drd.ops_tensor(4, 1)}, optimizer_class=opt)
    finally:
        LossAggregator.eval = real
    h = pb.LossAggregator.component_losses
    for k in KEYS + ("total",):
        require(len(h[k]) == len(seen), f"length of the history of {k} after {len(seen)} evaluations", got=len(h[k]))
    require(np.array_equal(np.array(h["total"], dtype=float), np.array(seen)), "history of totals")
    require(np.allclose(sum(np.array(h[k], dtype=float) for k in KEYS), seen, rtol=1e-9), "the terms add up to the totals")
    ck.step(len(seen))
    ck.state("evaluations", opt.__name__, epochs, stagnates, len(seen))


def run(ck):
    torch.set_default_dtype(torch.float64)
    drd.no_tensorboard()
    prep = {c: inputs(c) for c in ALPHABET}
    seen = set()
    words = list(map("".join, itertools.product(ALPHABET, repeat=6 if ck.thorough else 4)))
    if not ck.thorough:
        words += list(map("".join, itertools.product("abce", repeat=5)))
    for w in words:
        ck.case(f"word/{w}", word, ck, w, seen if ck.replay_label is None else set(), prep)
    for z in (0.2, 0.7, 40.0):
        other = {c: inputs(c, z) for c in ALPHABET}
        for w in map("".join, itertools.product(ALPHABET, repeat=3)):
            ck.case(f"height/{z}/{w}", word, ck, w, set(), other, None, z)
    for n in (1, 2, 3):
        for p in map("".join, itertools.product("abcdez", repeat=n)):
            if n < 3 or p[0] != p[1]:
                ck.case(f"default/{p}", default_window, ck, p, prep)
    for pat in ("abcde", "ab", "adz"):
        ck.case(f"long/{pat}", long_history, ck, 3000 if ck.thorough else 1100, pat, prep)
    opts = (torch.optim.Adam, torch.optim.LBFGS)
    for n, (epochs, stop) in ((1, (49, None)), (1, (50, None)), (1, (51, None)), (1, (60, 50)), (1, (60, 51)), (2, (101, None)), (2, (120, 100)), (3, (160, None))):
        for a in map("".join, itertools.product("-sid", repeat=n)):
            if n == 3 and not ck.thorough and len(set(a)) != 3:
                continue
            for o in opts if n == 1 else opts[:1]:
                ck.case(f"applied/{a}/{epochs}/{stop}/{o.__name__}", applied, ck, a, epochs, stop, o)
    for i in range(9):  # late advice in a long run
        ck.case(f"late/{i}", applied, ck, "-" * i + "sid"[i % 3] + "-" * (8 - i), 455, None, torch.optim.Adam)
    ck.case("late/all", applied, ck, "sd-i-ds-dsid-sd-dssdi", 1050, None, torch.optim.Adam)
    for opt, ep in ((torch.optim.Adam, 700), (torch.optim.LBFGS, 60)):
        for stagnates in (False, True):
            ck.case(f"evaluations/{opt.__name__}/{ep}/{stagnates}", evaluations, ck, opt, ep, stagnates)
    for e, ep, lr, (cn, co) in itertools.product(("CONST", "MANN", "TAUNET"), (99, 104) if ck.thorough else (101,), (1e-5, 0.02, 0.5, 3.0), (("plain", {}), ("all", dict(alpha_pen1=0.5, alpha_pen2=0.5, beta_reg=0.5)))):
        ck.case(f"real/{e}/{ep}/{lr}/{cn}", real_fit, ck, e, ep, lr, co)
