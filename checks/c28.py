"""C28: gradients of spectra, coherence, lifetime and loss are the derivatives of the evaluated values."""
import itertools

import numpy as np
import torch

from drdmannturb import IntegrationParameters, LossParameters
from lib import drd, ref
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of (model option, parameter vector, output, parameter) and of evaluation histories; automatic derivatives compared with central differences of the evaluated values"
RULE = (
    "for every model option and parameter vector of the lattice, the derivative of every output (spectra components, coherence, lifetime, total loss for every combination of enabled "
    "terms) with respect to every parameter is compared with the central difference of the same output evaluated at shifted parameters; then all histories over evaluations, "
    "backward passes and parameter changes are explored and the gradient compared with that of a fresh problem. A state is (option, vector, output, parameter) or (option, history prefix)."
)
BOUNDS = "5 lifetimes x 2 spectra x {nu fixed, learned} x 7 scale vectors; outputs: 6 components x 4 wavenumbers, 3 x 3 x 3 coherence values, 6 lifetimes, 16 loss combinations; 45 wavenumbers and 20 x 9 coherence values on quadratures of up to 21 (33) points with networks up to width 12 (20); histories of length 3 (quick) / 4 over 6 operations"
ASSUMPTIONS = ["double precision, parameter vectors away from kinks of the rectifiers (fixed by construction)", "tensorboard writer replaced by a recorder"]
K1 = np.array([0.02, 0.3, 1.0, 12.0])
SEPS = np.array([0.1, 1.3, 6.0])
EDDIES = ["CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET"]
GRID = (-2, 2, 5)


def problem(opts, scales, seed=3, loss=None):
    eddy, learnable, learn_nu = opts
    ip = IntegrationParameters(ops_log_min=-2, ops_log_max=2, ops_num_points=5, coh_log_min=-2, coh_log_max=2, coh_num_points=4)
    pb = drd.make_problem(width=3, eddy=eddy, learnable=learnable, learn_nu=learn_nu, L=scales[0], Gamma=scales[1], sigma=scales[2], integration=ip, loss=loss)
    v = np.array(pb.parameters, dtype=float)
    lo = 5 if learnable else 3
    v[lo:] = np.random.RandomState(seed).uniform(-0.3, 0.8, size=len(v) - lo)
    if learn_nu and eddy == "TAUNET":
        v[-1] = -0.45
    if learnable:
        v[3], v[4] = 3.7, 2.9
    pb.parameters = v
    return pb, v


KVEC = torch.tensor([[0.3, 0.2, -0.5], [1.0, 0.0, 0.0], [0.01, -2.0, 0.7], [5.0, 4.0, -3.0], [0.1, 0.1, 0.1], [0.0, 0.0, 9.0]], dtype=torch.float64)


def outputs(pb, what):
    if what == "spectra":
        return pb.OPS(torch.tensor(K1))
    if what == "coherence":
        return pb.OPS.SpectralCoherence(torch.tensor(K1[1:]), torch.tensor(SEPS))
    return pb.OPS.EddyLifetime(KVEC)


def jac(pb, f):
    """Rows of the Jacobian by backward passes."""
    ps = list(pb.OPS.parameters())
    y = f()
    rows = []
    for i in range(y.numel()):
        g = torch.autograd.grad(y.reshape(-1)[i], ps, retain_graph=True, allow_unused=True)
        rows.append(np.concatenate([np.zeros(p.numel()) if x is None else x.detach().numpy().ravel() for x, p in zip(g, ps)]))
    return y.detach().numpy().ravel(), np.array(rows)


def fd(pb, v, f, J=None, h=1e-5):
    """Five-point differences. Entries that disagree with J are taken again with smaller steps: a step may cross a
    kink of the network (a rectifier switching at one grid point), a wrong derivative disagrees at every step."""
    D = fd_step(pb, v, f, h)
    if J is None:
        return D
    with torch.no_grad():
        y = np.abs(f().numpy().ravel())
    for h2 in (1e-6, 1e-7):
        bad = np.abs(J - D) > 1e-6 * (np.maximum(y, 1e-2 * y.max())[:, None] + np.abs(D))
        js = [j for j in range(len(v)) if bad[:, j].any()]
        if not js:
            break
        E = fd_step(pb, v, f, h2, js)
        for j in js:
            D[:, j] = np.where(np.abs(J[:, j] - E[:, j]) < np.abs(J[:, j] - D[:, j]), E[:, j], D[:, j])
    return D


def fd_step(pb, v, f, h, only=None):
    cols = []
    for j in range(len(v)):
        if only is not None and j not in only:
            cols.append(None)
            continue
        vals = []
        for s in (-2, -1, 1, 2):
            w = v.copy()
            w[j] += s * h
            pb.parameters = w
            with torch.no_grad():
                vals.append(f().numpy().ravel().copy())
        cols.append((vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h))
    pb.parameters = v
    n = next(len(c) for c in cols if c is not None)
    return np.array([np.full(n, np.nan) if c is None else c for c in cols]).T


def compare(ck, got, want, scale, what, tol=1e-5, frozen=None):
    """frozen: derivative with the lifetime's dependence on the length scale left out (the listed finding)."""
    for j in range(got.shape[1]):
        err = np.abs(got[:, j] - want[:, j])
        lim = tol * (scale + np.abs(want[:, j]))
        if np.all(err <= lim):
            continue
        if j == 0 and frozen is not None and np.all(np.abs(got[:, 0] - frozen) <= 1e-5 * (scale + np.abs(frozen))):
            ck.known("mann-lifetime-gradient", what)
            continue
        i = int(np.argmax(err - lim))
        require(False, f"{what}: derivative of output {i} with respect to parameter {j}: got {got[i, j]!r} want {want[i, j]!r}")


def frozen_spectra(v, opts, what, scales, h=1e-5):
    """d/d log L with the lifetime kept at its current value (reference model)."""
    m = drd.decode(v, width=3, eddy=opts[0], learnable=opts[1], learn_nu=False)

    def at(s):
        L = m["L"] * np.exp(s)
        if what == "spectra":
            return ref.ops(K1, ref.log_grid(*GRID), m["tau"], L, m["T"], m["sigma"], m["pq"]).ravel()
        if what == "coherence":
            return ref.coherence(K1[1:], SEPS, ref.log_grid(-2, 2, 4) / scales[0], m["tau"], L, m["T"], m["sigma"], m["pq"]).ravel()
        return m["T"] * m["tau"](KVEC.numpy())

    return (at(-2 * h) - 8 * at(-h) + 8 * at(h) - at(2 * h)) / (12 * h)


def single(ck, opts, scales, what):
    pb, v = problem(opts, scales)
    f = lambda: outputs(pb, what)  # noqa: E731
    y, J = jac(pb, f)
    require(np.all(np.isfinite(J)), "gradient not finite")
    D = fd(pb, v, f, J)
    frozen = frozen_spectra(v, opts, what, scales) if opts[0] == "MANN" else None
    compare(ck, J, D, np.maximum(np.abs(y), 1e-2 * np.max(np.abs(y))), f"{what} {opts}", frozen=frozen)
    for i, j in np.ndindex(J.shape):
        ck.state(opts, scales, what, i, j)
    ck.step(J.size)
    ck.outcome(J)


COEF = dict(alpha_pen1=0.7, alpha_pen2=0.4, beta_reg=0.3, gamma_coherence=0.9)


def loss_case(ck, opts, on, scales):
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    params = LossParameters(**{k: (c if b else 0.0) for (k, c), b in zip(COEF.items(), on)})
    pb, v = problem(opts, scales, loss=params)
    ag = LossAggregator(params, torch.tensor(K1), 2.0, tb_log_dir=None)
    data = drd.ops_tensor(4, 5)
    target = torch.stack([data[:, a, b] for a, b in drd.COMPONENTS[:4]])
    cd = torch.tensor(np.random.RandomState(2).uniform(0, 1, (3, 3, 3)))

    def f():
        y = pb.OPS(torch.tensor(K1))
        coh = pb.OPS.SpectralCoherence(torch.tensor(K1[1:]), torch.tensor(SEPS))
        theta = torch.nn.utils.parameters_to_vector(pb.OPS.tauNet.parameters()) if hasattr(pb.OPS, "tauNet") else None
        d = {f"{s}_{c}": t[i] for i, c in enumerate("uvw") for s, t in (("model", coh), ("data", cd))}
        return ag.eval(y[:4], target, theta, 0, coherence_data=d).reshape(1)

    y, J = jac(pb, f)
    D = fd(pb, v, f, J)
    if opts[0] == "MANN":
        # dependence through the lifetime is the listed finding; the other parameters must be right
        compare(ck, J[:, 1:], D[:, 1:], np.abs(y), f"loss {on} {opts}", tol=1e-5)
        if not np.all(np.abs(J[:, 0] - D[:, 0]) <= 1e-5 * (np.abs(y) + np.abs(D[:, 0]))):
            ck.known("mann-lifetime-gradient", "loss")
    else:
        compare(ck, J, D, np.abs(y), f"loss {on} {opts}", tol=1e-5)
    for j in range(J.shape[1]):
        ck.state("loss", opts, on, scales, j)
    ck.step(J.size)
    ck.outcome(J)


WIDE_K1 = np.logspace(-3, 3, 45)
WIDE_SEPS = np.logspace(-2, 1.5, 9)


def wide(ck, opts, scales, what, npts, width):
    """Many wavenumbers, finer quadrature, larger network: every output summed with fixed weights."""
    ip = IntegrationParameters(ops_log_min=-3, ops_log_max=3, ops_num_points=npts, coh_log_min=-3, coh_log_max=2, coh_num_points=npts)
    pb = drd.make_problem(width=width, eddy=opts[0], learnable=opts[1], learn_nu=opts[2], L=scales[0], Gamma=scales[1], sigma=scales[2], integration=ip)
    v = np.array(pb.parameters, dtype=float)
    lo = 5 if opts[1] else 3
    v[lo:] = np.random.RandomState(5).uniform(-0.3, 0.8, size=len(v) - lo) / max(1.0, width / 3)
    if opts[2]:
        v[-1] = -0.45
    if opts[1]:
        v[3], v[4] = 3.7, 2.9
    pb.parameters = v

    def raw():
        k = torch.tensor(WIDE_K1)
        if what == "spectra":
            y = pb.OPS(k)
        elif what == "coherence":
            y = pb.OPS.SpectralCoherence(k[10:30], torch.tensor(WIDE_SEPS))
        else:
            y = pb.OPS.EddyLifetime(torch.stack([k, k.flip(0) * 0.3, 0.1 - k], -1))
        return y.reshape(-1)

    with torch.no_grad():
        norm = raw().abs()
        norm = norm.clamp_min(1e-6 * float(norm.max()))  # so that small values count as well

    def f():
        return torch.stack([c.mean() for c in (raw() / norm).split(15)])

    y, J = jac(pb, f)
    require(np.all(np.isfinite(J)), "gradient not finite")
    D = fd(pb, v, f, J)
    if opts[0] == "MANN":
        J, D = J[:, 1:], D[:, 1:]  # the length-scale column is the listed finding, judged in `single`
    compare(ck, J, D, np.ones(len(y)), f"wide {what} {opts}", tol=2e-5)
    for j in range(J.shape[1]):
        ck.state("wide", opts, scales, what, npts, width, j)
    ck.step(J.size)
    ck.outcome(J)


def history(ck, opts, hist, cache):
    """The gradient depends only on the current parameters."""
    scales = (0.7, 1.3, 0.9)
    pb, v1 = problem(opts, scales)
    v2 = v1 + np.random.RandomState(1).uniform(-0.1, 0.1, size=len(v1))
    cur = v1
    for i, op in enumerate(hist):
        if op == "p":
            cur = v1 if cur is v2 else v2
            pb.parameters = cur
        elif op == "e":
            pb.eval(torch.tensor(K1[:2]))
        elif op == "c":
            with torch.no_grad():
                outputs(pb, "coherence")
        elif op == "t":
            with torch.no_grad():
                outputs(pb, "lifetime")
        elif op == "b":  # a backward pass that is thrown away
            outputs(pb, "spectra").sum().backward()
            pb.OPS.zero_grad()
        elif op == "r":
            str(pb.parameters)
        what = ("spectra", "coherence", "lifetime")[(i + len(hist)) % 3] if i < len(hist) - 1 else None
        for w in ("spectra", "coherence") if what is None else (what,):
            key = (opts, w, cur.tobytes())
            if key not in cache:
                fresh, _ = problem(opts, scales)
                fresh.parameters = cur
                cache[key] = jac(fresh, lambda: outputs(fresh, w))[1]
            got = jac(pb, lambda: outputs(pb, w))[1]
            close_rel(got, cache[key], f"{opts} {w} after {'.'.join(hist[: i + 1])}", rtol=1e-9, atol=1e-12 * np.max(np.abs(cache[key])))
            ck.step()
        ck.state("hist", opts, hist[: i + 1])


def run(ck):
    torch.set_default_dtype(torch.float64)
    drd.no_tensorboard()
    options = [(e, l, n) for e, l, n in itertools.product(EDDIES, (False, True), (False, True)) if not n or e == "TAUNET"]
    scales = [(0.3, 0.6, 0.5), (2.0, 0.6, 2.0), (0.3, 3.9, 2.0), (1.0, 1.0, 1.0), (5.0, 2.0, 0.05), (0.05, 1.2, 20.0), (20.0, 0.2, 1.0)]
    for o, s, w in itertools.product(options, scales, ("spectra", "coherence", "lifetime")):
        ck.case(f"{w}/{o}/{s}", single, ck, o, s, w)
    for o, on in itertools.product(options, itertools.product((0, 1), repeat=4)):
        for s in scales if ck.thorough else scales[1:2]:
            ck.case(f"loss/{o}/{on}/{s}", loss_case, ck, o, on, s)
    for o, w in itertools.product(options, ("spectra", "coherence", "lifetime")):
        for npts, width, sc in ((21, 3, scales[1]), (33, 12, scales[4]), (9, 20, scales[2])) if ck.thorough else ((21, 3, scales[1]), (17, 12, scales[4])):
            if width > 3 and o[0] != "TAUNET":
                continue
            ck.case(f"wide/{w}/{o}/{npts}/{width}", wide, ck, o, sc, w, npts, width)
    cache = {}
    for o in [("TAUNET", True, True), ("MANN_APPROX", False, False)]:
        for h in itertools.product("pectbr", repeat=4 if ck.thorough else 3):
            ck.case(f"history/{o}/{'.'.join(h)}", history, ck, o, h, cache)
