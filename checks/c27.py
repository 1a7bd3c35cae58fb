"""C27: contents of the fit figures."""
import contextlib
import functools
import itertools
import os
from pathlib import Path

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import torch

from drdmannturb import IntegrationParameters, LossParameters
from lib import drd, ref
from lib.mc import close_rel, expect_raises, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of plot configurations and of calibrate/plot/change histories; the drawn artists are read back and compared with a reference computed from data and parameters"
RULE = (
    "for every model kind, component count, data source, friction velocity and option the figures are drawn by the real code (Agg back end) and every line of every panel is read back: "
    "panel, abscissae, ordinates, sign. Every history over calibrating with one of two data sets, plotting in several ways, changing parameters and plotting given data is explored; "
    "after each plot the figure must show the current model and the current data. A state is (configuration) or (history prefix)."
)
BOUNDS = "5 lifetimes x learnable on/off x {3,4,6} components x {calibrated, calibrated with unordered wavenumbers, given} data x 3 friction velocities x {lifetime figure on, off}; 14 save options; histories of length <= 3 (4 thorough) over 7 operations; coherence figure for 1..33 separations and 1..40 frequencies; data sets of 2..150 wavenumbers over seven decades"
ASSUMPTIONS = ["figures are inspected through the axes' line artists in memory, not by reading pixels", "tensorboard writer replaced by a recorder; spectra themselves are C14, coherence C22"]
N = 5
K1 = np.array([0.03, 0.2, 0.9, 4.0, 30.0])
IP = dict(ops_log_min=-2, ops_log_max=2, ops_num_points=4, coh_log_min=-2, coh_log_max=2, coh_num_points=4)
EDDIES = ["CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET"]
PANELS = drd.COMPONENTS  # panel -> tensor entry: 11 22 33 13 23 12


@contextlib.contextmanager
def no_render():
    """Rendering takes seconds per figure and is not looked at: the artists are. Not used where files are written."""
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure

    keep = FigureCanvasAgg.draw, Figure.tight_layout
    FigureCanvasAgg.draw = lambda self, *a, **k: None
    Figure.tight_layout = lambda self, *a, **k: None
    try:
        yield
    finally:
        FigureCanvasAgg.draw, Figure.tight_layout = keep


def norender(fn):
    @functools.wraps(fn)
    def inner(*a, **kw):
        with no_render():
            return fn(*a, **kw)

    return inner


def problem(eddy="CONST", learnable=False, nc=4, ustar=1.0, outdir=None, gamma=0.0, **kw):
    pb = drd.make_problem(eddy=eddy, learnable=learnable, ustar=ustar, num_components=nc, nepochs=1, learning_rate=0.01, tol=1e-12,
                          integration=IntegrationParameters(**IP), loss=LossParameters(gamma_coherence=gamma), outdir=outdir, **kw)
    if eddy == "TAUNET":
        drd.set_weights(pb, 4)
    return pb


def dataset(i):
    r = np.random.RandomState(50 + i)
    k = K1 * (1 + 0.3 * i)
    if i == 2:  # any order
        k = k[[2, 0, 4, 1, 3]]
    return {"k1": torch.tensor(k), "ops": torch.tensor(r.uniform(0.2, 3.0, (N, 3, 3))), "coherence": None}


def lines(ax):
    return [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in ax.get_lines()]


def check_spectra(pb, k1, ops, nc, ustar, what, model=None):
    fig = pb.fig_spectra
    axes = [a for a in fig.axes]
    require(len(axes) == 6, f"{what}: six panels", got=len(axes))
    with torch.no_grad():
        m = np.asarray(pb.OPS(torch.as_tensor(k1)).numpy()) / ustar**2 if model is None else model
    for i, ax in enumerate(axes):
        a, b = PANELS[i]
        sign = -1.0 if i == 3 else 1.0
        want = [sign * m[i]]
        if i < nc:
            want.append(sign * np.asarray(ops)[:, a, b] / ustar**2)
        got = lines(ax)
        require(len(got) == len(want), f"{what}: panel {i} has {len(got)} curves, expected {len(want)}")
        for j, (g, w) in enumerate(zip(got, want)):
            nm = f"{what}: panel {i} ({'model' if j == 0 else 'data'})"
            close_rel(g[0], k1, nm + " abscissae", rtol=1e-6)
            close_rel(g[1], w, nm, rtol=1e-6, atol=1e-12)
        title = ax.get_title()
        require(f"{a + 1}{b + 1}" in title.replace("{", "").replace("}", "").replace("'", "").replace(" ", ""), f"{what}: title of panel {i}", got=title)
        require(ax.get_xscale() == "log" and ax.get_yscale() == "log", f"{what}: logarithmic axes")


def check_tau(pb, opts, v, phys, what):
    ax = pb.fig_tau.axes[0]
    got = lines(ax)
    require(len(got) == 5, f"{what}: lifetime figure has five curves", got=len(got))
    kg = np.logspace(-3, 3, 50)
    m = drd.decode(v, eddy=opts[0], learnable=opts[1])
    z = np.zeros_like(kg)
    dirs = [(kg, z, z), (z, kg, z), (z, z, kg), tuple(kg / np.sqrt(3) for _ in range(3))]
    for i, d in enumerate(dirs):
        close_rel(got[i][0], kg * phys[0], f"{what}: lifetime abscissae", rtol=1e-6)
        close_rel(got[i][1], m["T"] * m["tau"](np.stack(d, -1)), f"{what}: lifetime along direction {i + 1}", rtol=1e-6)
    close_rel(got[4][1], phys[1] * ref.mann_tau(phys[0] * kg), f"{what}: reference lifetime", rtol=1e-6)


def calibrate(pb, d, **kw):
    pb.calibrate(d, optimizer_class=torch.optim.Adam, **kw)


@norender
def config(ck, eddy, learnable, nc, source, ustar, tau):
    pb = problem(eddy, learnable, nc, ustar)
    v0 = np.array(pb.parameters, dtype=float)
    d = dataset(2 if source == "shuffled" else 0)
    keep = {k: d[k].clone() for k in ("k1", "ops")}
    if source == "given":
        pts = np.stack([K1 * 2, K1 * 0 + 9.0, K1 * 0 - 4.0], axis=1)
        vals = dataset(1)["ops"]
        pb.plot(OPSData=(pts, vals), plot_tau=tau)
        check_spectra(pb, K1 * 2, vals, nc, ustar, "given data")
    else:
        calibrate(pb, d)
        v0 = np.array(pb.parameters, dtype=float)
        if source == "model":  # values evaluated elsewhere
            mv = torch.tensor(np.random.RandomState(1).uniform(0.1, 2, (6, N)))
            pb.plot(model_vals=mv.clone(), plot_tau=tau)
            check_spectra(pb, keep["k1"].numpy(), keep["ops"], nc, ustar, "given model values", model=mv.numpy())
        else:
            pb.plot(plot_tau=tau)
            check_spectra(pb, keep["k1"].numpy(), keep["ops"], nc, ustar, "calibration data")
    if tau:
        check_tau(pb, (eddy, learnable), v0, (0.7, 1.2), "lifetime")
    else:
        require(getattr(pb, "fig_tau", None) is None, "lifetime figure although not requested")
    require(np.array_equal(np.array(pb.parameters, dtype=float), v0), "plotting changed the model")
    require(all(torch.equal(d[k], keep[k]) for k in keep), "plotting changed the data")
    ck.step()
    ck.state(eddy, learnable, nc, source, ustar, tau)
    ck.outcome(eddy, learnable, nc, source, tau)
    plt.close("all")


@norender
def history(ck, hist):
    """0/1 calibrate with data set; p plot, t plot without lifetimes, g plot given data, w change parameters, e evaluate."""
    pb = problem("TAUNET", nc=4, ustar=1.3)
    cur = None
    r = np.random.RandomState(3)
    for i, op in enumerate(hist):
        what = f"after {'.'.join(hist[: i + 1])}"
        before = np.array(pb.parameters, dtype=float)
        if op in "01":
            cur = dataset(int(op))
            calibrate(pb, {k: (v.clone() if torch.is_tensor(v) else v) for k, v in cur.items()})
        elif op in "pt":
            if cur is None:
                expect_raises(ValueError, pb.plot, f"{what}: plot without data")
            else:
                pb.plot(plot_tau=op == "p")
                check_spectra(pb, cur["k1"].numpy(), cur["ops"], 4, 1.3, what)
                if op == "p":
                    check_tau(pb, ("TAUNET", False), before, (0.7, 1.2), what)
        elif op == "g":
            vals = dataset(1)["ops"] * 2
            pb.plot(OPSData=(np.stack([K1, K1], axis=1), vals), plot_tau=False)
            check_spectra(pb, K1, vals, 4, 1.3, what)
        elif op == "w":
            pb.parameters = before + r.uniform(-0.1, 0.1, len(before))
        elif op == "e":
            pb.eval(torch.tensor(K1[:2]))
        if op in "ptg":
            require(np.array_equal(np.array(pb.parameters, dtype=float), before), f"{what}: plotting changed the model")
        ck.step()
        ck.state("hist", hist[: i + 1])
    plt.close("all")


@norender
def sized(ck, n, nc, ustar):
    """Data sets of other lengths and ranges, calibrated and given."""
    r = np.random.RandomState(n)
    k = 10 ** np.sort(r.uniform(-4, 3, n))
    ops = torch.tensor(10 ** r.uniform(-3, 3, (n, 3, 3)))
    pb = problem("MANN", nc=nc, ustar=ustar)
    calibrate(pb, {"k1": torch.tensor(k), "ops": ops, "coherence": None})
    pb.plot(plot_tau=False)
    check_spectra(pb, k, ops, nc, ustar, f"{n} wavenumbers")
    pts = np.stack([k[::-1] * 2, k], axis=1)
    pb.plot(OPSData=(pts, ops * 0.5), plot_tau=False)
    check_spectra(pb, pts[:, 0], ops * 0.5, nc, ustar, f"{n} given wavenumbers")
    plt.close("all")
    ck.step(2)
    ck.state("sized", n, nc, ustar)


def save_case(ck, where, name, tau, kind, exists):
    base = os.path.join(ck.scratch, "figs")
    os.makedirs(base, exist_ok=True)
    for f in os.listdir(base):
        p = os.path.join(base, f)
        if os.path.isdir(p):
            for g in os.listdir(p):
                os.remove(os.path.join(p, g))
            os.rmdir(p)
        else:
            os.remove(p)
    out, sub = os.path.join(base, "out"), os.path.join(base, "sub")
    cast = Path if kind == "Path" else str
    pb = problem(outdir=cast(out))
    if exists:
        os.makedirs(out)
        os.makedirs(sub)
    pts, vals = np.stack([K1, K1], axis=1), dataset(1)["ops"]
    kw = dict(OPSData=(pts, vals), plot_tau=tau)
    if where == "nosave":
        pb.plot(**kw, save=False, save_dir=cast(sub), save_filename=name)
        require(not any(f for _, _, fs in os.walk(base) for f in fs), "files written although saving was not requested")
    elif where == "nowhere":
        pb.output_directory = None
        expect_raises(ValueError, lambda: pb.plot(**kw, save=True, save_filename=name), "saving without any directory")
    else:
        pb.plot(**kw, save=True, save_dir=cast(sub) if where == "dir" else None, save_filename=name)
        d = sub if where == "dir" else out
        b = name or "drdmannturb_final_spectra_fit"
        want = {f"{b}_spectra.png"} | ({f"{b}_tau.png"} if tau else set())
        require(set(os.listdir(d)) == want, "files written", got=os.listdir(d), want=want)
        other = out if where == "dir" else sub
        require(not os.path.exists(other) or not os.listdir(other), "files in another directory")
        for f in want:
            head = open(os.path.join(d, f), "rb").read(8)
            require(head == b"\x89PNG\r\n\x1a\n", f"{f} is not an image")
    ck.step()
    ck.state("save", where, name, tau, kind, exists)
    plt.close("all")


@norender
def coherence_fig(ck, ns, zero, eddy, nf=4):
    from checks import c23

    rows = c23.make_rows(ns, nf, salt=ns)
    if zero:
        rows = [r[:3] + (0.0 if r[1] == 0 else r[3],) + r[4:] for r in rows]
    pb = problem(eddy, gamma=0.5)
    path = os.path.join(ck.scratch, "coh.dat")
    with open(path, "w") as f:
        f.write(c23.text(rows, "aligned"))
    calibrate(pb, dataset(0), coherence_data_file=path)
    for rnd in range(2):
        if rnd:
            v = np.array(pb.parameters, dtype=float)
            v[:2] += (0.3, -0.2)
            pb.parameters = v
        pb.plot(plot_tau=False)
        v = np.array(pb.parameters, dtype=float)
        seps, freqs, coh = c23.expected(rows)
        idx = np.linspace(0, ns - 1, 4).astype(int)
        idx = np.asarray(pb.coherence_plot_sep_indices) if len(idx) == 4 else idx
        m = drd.decode(v, eddy=eddy)
        low = freqs <= 1e-6
        model = np.ones((3, 4, len(freqs)))
        model[:, :, ~low] = ref.coherence(freqs[~low] / (2 * np.pi) / 3.0, seps[idx], ref.log_grid(-2, 2, 4) / 0.7, m["tau"], m["L"], m["T"], m["sigma"])
        axes = pb.fig_coherence.axes
        require(len(axes) == 12, "coherence figure has 4x3 panels", got=len(axes))
        for r, c in itertools.product(range(4), range(3)):
            got = lines(axes[3 * r + c])
            require(len(got) == 2, "data and model in each panel", got=len(got))
            for g in got:
                close_rel(g[0], freqs, "coherence abscissae", rtol=1e-9)
            close_rel(got[0][1], coh[c, idx[r]], f"coherence data, panel {r},{c}", rtol=1e-9)
            close_rel(got[1][1], model[c, r], f"model coherence, panel {r},{c}", rtol=1e-6, atol=1e-9)
        require(np.array_equal(np.array(pb.parameters, dtype=float), v), "plotting changed the model")
        ck.step()
    ck.state("coherence", ns, zero, eddy)
    plt.close("all")


def run(ck):
    torch.set_default_dtype(torch.float64)
    drd.no_tensorboard()
    us = (1.0, 0.4, 1.7)
    for e, l, nc, src, u in itertools.product(EDDIES, (False, True), (3, 4, 6), ("calibrated", "given", "model"), us):
        tau = (EDDIES.index(e) + nc + us.index(u)) % 2 == 0
        for t in (False, True) if ck.thorough or (u == 1.7 and src == "calibrated") else (tau,):
            if ck.thorough or u == 1.7 or (not l and e in ("TAUNET", "MANN")):
                ck.case(f"config/{e}/{l}/{nc}/{src}/{u}/{t}", config, ck, e, l, nc, src, u, t)
    for e, nc in itertools.product(EDDIES, (3, 4, 6)):
        ck.case(f"config/{e}/{nc}/shuffled", config, ck, e, False, nc, "shuffled", 1.7, False)
    for where, name, tau, kind, ex in itertools.product(("dir", "default", "nowhere", "nosave"), ("", "my fit", "fit.v1.2"), (False, True), ("str", "Path"), (False, True)):
        ck.case(f"save/{where}/{name}/{tau}/{kind}/{ex}", save_case, ck, where, name, tau, kind, ex)
    for ns, z, e in itertools.product(range(1, 7), (False, True), ("CONST", "TAUNET")):
        ck.case(f"coherence/{ns}/{z}/{e}", coherence_fig, ck, ns, z, e)
    for ns, nf, e in itertools.product((1, 7, 33), (1, 11, 40), ("CONST", "TAUNET")):
        ck.case(f"coherence-size/{ns}x{nf}/{e}", coherence_fig, ck, ns, False, e, nf)
    for n, (nc, u) in itertools.product((2, 3, 4, 10, 20, 21, 33, 64, 100, 150), ((3, 0.1), (4, 0.7), (6, 5.0), (4, 3.0))):
        ck.case(f"sized/{n}/{nc}/{u}", sized, ck, n, nc, u)
    for n in range(1, 5 if ck.thorough else 4):
        for h in itertools.product("01ptgwe", repeat=n):
            if any(x in "ptg" for x in h) and h[-1] in "ptg":
                ck.case(f"history/{'.'.join(h)}", history, ck, h)
