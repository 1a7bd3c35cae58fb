"""C15: eddy lifetimes and energy spectra against their formulas."""
import itertools

import numpy as np
import torch
import torch.nn as nn

from drdmannturb import common
from drdmannturb.nn_modules import Rational, TauNet
from lib import drd, ref
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of wavevector lattices (all sign patterns) x model options x batch shapes and of evaluation histories against independent formulas"
RULE = (
    "every option is evaluated on the full lattice of wavevectors (each component from a set including zero, both signs), in several batch shapes, and "
    "compared with an independent formula; positivity, finiteness and sign symmetry are checked on every point; networks with every combination of "
    "layer count, widths and activations are compared with an independent forward pass; histories over parameter changes and evaluations. A state is "
    "(option, parameters, wavevector) or (network, wavevector) or (option, history prefix)."
)
BOUNDS = "7^3-1 wavevectors (11^3-1 thorough) x 5 lifetimes x nu fixed/learned x 4 scale vectors; 24 network shapes x 5 activations; histories of length 4 over 5 operations on 6 options; 15 further scale vectors and 13 batch lengths up to 5000 per option, 6 further network sizes; wavevectors from 1e-12 to 3e8; nu from -2.5 to 1.7"
ASSUMPTIONS = ["double precision; single precision compared at 1e-4"]
EDDIES = ["CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET"]
ACTS = {
    "relu": (lambda: nn.ReLU(), lambda x: np.maximum(x, 0)),
    "tanh": (lambda: nn.Tanh(), np.tanh),
    "sigmoid": (lambda: nn.Sigmoid(), lambda x: 1 / (1 + np.exp(-x))),
    "leaky": (lambda: nn.LeakyReLU(0.2), lambda x: np.where(x > 0, x, 0.2 * x)),
    "elu": (lambda: nn.ELU(), lambda x: np.where(x > 0, x, np.exp(np.minimum(x, 0)) - 1)),
}


def lattice(ck):
    pos = (1e-3, 0.2, 1.0, 7.0, 400.0) if ck.thorough else (1e-2, 0.8, 60.0)
    vals = [-x for x in pos[::-1]] + [0.0] + list(pos)
    k = np.array(list(itertools.product(vals, vals, vals)))
    return k[np.any(k != 0, axis=1)]


def model(eddy, learn_nu, scales, seed):
    pb = drd.make_problem(eddy=eddy, learn_nu=learn_nu, L=scales[0], Gamma=scales[1], sigma=scales[2])
    v = drd.set_weights(pb, seed)
    if learn_nu and eddy == "TAUNET":
        v[-1] = -0.5 + 0.05 * seed
        pb.parameters = v
    return pb, v


def expect(v, eddy, learn_nu, k):
    m = drd.decode(v, eddy=eddy, learn_nu=learn_nu and eddy == "TAUNET")
    return m["T"] * m["tau"](k)


def tau(pb, k, dtype=torch.float64):
    with torch.no_grad():
        return pb.OPS.EddyLifetime(torch.tensor(k, dtype=dtype)).numpy()


def points(ck, eddy, learn_nu, scales, seed, K):
    pb, v = model(eddy, learn_nu, scales, seed)
    want = expect(v, eddy, learn_nu, K)
    kt = torch.tensor(K)
    keep = kt.clone()
    with torch.no_grad():
        got = pb.OPS.EddyLifetime(kt).numpy()
    require(torch.equal(kt, keep), "wavevectors modified")
    close_rel(got, want, "lifetime", rtol=1e-9)
    require(np.all(got > 0) and np.isfinite(got).all(), "positive and finite")
    look = {tuple(k): t for k, t in zip(np.abs(K).tolist(), got)}
    for k, t in zip(np.abs(K).tolist(), got):
        require(abs(look[tuple(k)] - t) <= 1e-12 * t, "sign symmetry", at=k)
    # batch shapes: same values, trailing axis removed
    for shape in ((3,), (1, 3), (2, 3), (2, 3, 3), (2, 1, 3, 3), (1, 1, 1, 3)):
        n = int(np.prod(shape[:-1])) if len(shape) > 1 else 1
        for start in (0, 17):
            part = K[start : start + n].reshape(shape)
            g = tau(pb, part)
            require(g.shape == shape[:-1], f"batch shape {shape}", got=g.shape)
            close_rel(g.ravel(), got[start : start + n], f"batch {shape}", rtol=1e-12)
    for i in range(0, len(K), 13):
        close_rel(tau(pb, K[i : i + 1]), got[i : i + 1], "single point", rtol=1e-12)
    for k in K:
        ck.state(eddy, learn_nu, scales, seed, k.tolist())
    ck.step(len(K))
    ck.outcome(got)


def batch_size(ck, eddy, learn_nu, m):
    pb, v = model(eddy, learn_nu, (0.8, 2.1, 1.0), 2)
    rs = np.random.RandomState(m)
    K = rs.uniform(-1, 1, (m, 3)) * 10.0 ** rs.uniform(-3, 3, (m, 1))
    want = expect(v, eddy, learn_nu, K)
    close_rel(tau(pb, K), want, f"batch of {m}", rtol=1e-9)
    for d in (2, 4, 5):
        if m % d == 0:
            close_rel(tau(pb, K.reshape(d, m // d, 3)), want.reshape(d, m // d), f"batch of {d} x {m // d}", rtol=1e-9)
            close_rel(tau(pb, K.reshape(m // d, 1, d, 3)), want.reshape(m // d, 1, d), f"batch of {m // d} x 1 x {d}", rtol=1e-9)
    ck.step()
    ck.state("batch", eddy, learn_nu, m)


def sizes(ck, learn_nu, width, layers, K):
    pb = drd.make_problem(learn_nu=learn_nu, L=0.7, Gamma=1.6, sigma=1.0, width=width, layers=layers)
    v = drd.set_weights(pb, 5) * (0.3 if width > 20 else 1.0)
    if learn_nu:
        v[-1] = -0.37
    v[:3] = np.array(pb.parameters, dtype=float)[:3]
    pb.parameters = v
    W = [l.weight.detach().numpy().astype(float) for l in pb.OPS.tauNet.linears]
    cal = np.exp(v[1]) * ref.taunet(K * np.exp(v[0]), W, [lambda a: np.maximum(a, 0)] * layers, v[-1] if learn_nu else -1 / 3)
    close_rel(tau(pb, K), cal, f"{layers} layers of {width}", rtol=1e-9)
    ck.step()
    ck.state("sizes", learn_nu, width, layers)


def far_points(ck, eddy, learn_nu, K):
    pb, v = model(eddy, learn_nu, (0.7, 1.4, 1.0), 2)
    want = expect(v, eddy, learn_nu, K)
    got = tau(pb, K)
    ok = np.isfinite(want) & (want > 0)
    close_rel(got[ok], want[ok], "lifetime of extreme wavevectors", rtol=1e-8)
    ck.step(int(ok.sum()))
    ck.state("far", eddy, learn_nu, int(ok.sum()))
    ck.outcome(got[ok])


def history(ck, eddy, learn_nu, hist):
    scales = (0.6, 1.7, 1.1)
    pb, v1 = model(eddy, learn_nu, scales, 2)
    v2 = v1 + np.random.RandomState(4).uniform(-0.3, 0.3, len(v1))
    cur = v1
    A = np.array([[0.3, -2.0, 1.0], [5.0, 0.0, 0.0]])
    B = np.array([[[0.01, 0.02, 0.3]], [[9.0, 9.0, -9.0]], [[0.0, 1.0, 0.0]]])
    for i, op in enumerate(hist):
        what = f"after {'.'.join(hist[: i + 1])}"
        if op == "a":
            close_rel(tau(pb, A), expect(cur, eddy, learn_nu, A), what, rtol=1e-9)
        elif op == "b":
            close_rel(tau(pb, B), expect(cur, eddy, learn_nu, B), what, rtol=1e-9)
        elif op == "p":
            cur = v2 if cur is v1 else v1
            pb.parameters = cur
        elif op == "e":
            pb.eval(torch.tensor([0.2, 1.0], dtype=torch.float64))
        elif op == "s":
            pb.OPS.set_scales(9.0, 8.0, 7.0)
        ck.step()
        ck.state("hist", eddy, learn_nu, hist[: i + 1])


def network(ck, layers, sizes, act, learn_nu, nu, K):
    mk, f = ACTS[act] if isinstance(act, str) else (None, None)
    if isinstance(act, str):
        a = None if act == "relu" and layers % 2 else mk()
        fs = [f] * layers
    else:
        a = [ACTS[x][0]() for x in act]
        fs = [ACTS[x][1] for x in act]
    net = TauNet(layers, sizes, activations=a, learn_nu=learn_nu, nu_init=nu)
    ws = [3] + ([sizes] * layers if isinstance(sizes, int) else list(sizes)) + [3]
    pars = list(net.parameters())
    mats = [p for p in pars if p.dim() == 2]
    require([tuple(p.shape) for p in mats] == [(b, c) for c, b in zip(ws, ws[1:])], "layer shapes", got=[tuple(p.shape) for p in mats])
    require(len(pars) == len(mats) + (1 if learn_nu else 0), "number of parameters", got=len(pars))
    rs = np.random.RandomState(layers + 7)
    W = []
    with torch.no_grad():
        for p in mats:
            w = rs.uniform(-0.7, 0.9, tuple(p.shape))
            p.copy_(torch.tensor(w))
            W.append(w)
        nus = [p for p in pars if p.dim() == 0]
        if learn_nu:
            close_rel(float(nus[0]), nu, "initial nu", rtol=1e-6, atol=1e-7)
            nus[0].copy_(torch.tensor(nu))
        got = net(torch.tensor(K)).numpy()
    close_rel(got, ref.taunet(K, W, fs, nu), f"network {layers} {sizes} {act}", rtol=1e-9)
    for k in K[::7]:
        ck.state("net", layers, sizes, act, learn_nu, nu, k.tolist())
    ck.step(len(K))
    ck.outcome(got)


def rational(ck, nu, learn):
    x = np.array([1e-6, 1e-2, 1.0, 3.0, 1e4])
    r = Rational(learn_nu=learn, nu_init=nu)
    with torch.no_grad():
        got = r(torch.tensor(np.concatenate([x, -x]))).numpy()
    want = x ** (nu - 2 / 3) / (1 + x**2) ** (nu / 2)
    close_rel(got, np.concatenate([want, want]), "rational kernel", rtol=1e-8)
    ck.step()
    ck.state("rational", nu, learn)


def spectra(ck, form):
    x = np.logspace(-4, 4, 33)
    shapes = {"1d": x, "2d": x.reshape(3, 11), "0d": x[16]}
    y = shapes[form]
    t = torch.tensor(y)
    close_rel(common.VKEnergySpectrum(t).numpy(), y**4 / (1 + y**2) ** (17 / 6), "VK spectrum", rtol=1e-10)
    close_rel(common.VKLike_EnergySpectrum(t).numpy(), ref.vk_like(y), "VK-like spectrum", rtol=1e-10)
    for p, q in itertools.product((0.5, 4.0, 5.5, -1.0), (1.0, 17 / 6, 4.0, 0.0, -0.7)):
        close_rel(common.Learnable_EnergySpectrum(t, torch.tensor(p), torch.tensor(q)).numpy(), y**p / (1 + y**2) ** q, "learnable spectrum", rtol=1e-10)
        ck.state("learnable", form, p, q)
        ck.step()
    close_rel(common.MannEddyLifetime(t).numpy(), ref.mann_tau(y), "Mann lifetime of a tensor", rtol=1e-9)
    g = common.MannEddyLifetime(y)
    require(not torch.is_tensor(g), "numpy in, numpy out")
    close_rel(g, ref.mann_tau(y), "Mann lifetime of an array", rtol=1e-9)
    for a, b in itertools.product((-0.7, 1.2), (0.0, 0.4)):
        close_rel(common.Mann_linear_exponential_approx(t, torch.tensor(a), torch.tensor(b)).numpy(), np.exp(a * np.log(y) + b), "log-linear", rtol=1e-9)
    ck.step()
    ck.state("spectra", form)


def single_precision(ck, eddy, learn_nu):
    torch.set_default_dtype(torch.float32)
    try:
        pb, v = model(eddy, learn_nu, (0.7, 1.2, 0.9), 1)
        pb.parameters = v.astype(np.float32)
        K = np.array([[0.1, 0.2, -0.3], [1.0, 0.0, 4.0], [20.0, 3.0, 1.0]])
        close_rel(tau(pb, K, torch.float32), expect(v.astype(np.float32), eddy, learn_nu, K), "single precision", rtol=1e-4)
        ck.step()
        ck.state("f32", eddy, learn_nu)
    finally:
        torch.set_default_dtype(torch.float64)


def run(ck):
    torch.set_default_dtype(torch.float64)
    K = lattice(ck)
    opts = [(e, n) for e in EDDIES for n in (False, True) if not n or e == "TAUNET"]
    for e, n in opts:
        for s in ((1.0, 1.0, 1.0), (0.3, 3.9, 0.5), (59.0, 0.2, 3.0), (2.0, 0.01, 1.0)):
            for seed in (1, 2) if e == "TAUNET" else (1,):
                ck.case(f"points/{e}/{n}/{s}/{seed}", points, ck, e, n, s, seed, K)
        ck.case(f"float32/{e}/{n}", single_precision, ck, e, n)
        for h in itertools.product("abpes", repeat=4):
            if h[-1] in "ab":
                ck.case(f"history/{e}/{n}/{'.'.join(h)}", history, ck, e, n, h)
    rs = np.random.RandomState(12)
    Kw = np.concatenate([K[::11], rs.uniform(-1, 1, (40, 3)) * 10.0 ** rs.uniform(-4, 4, (40, 1))])
    for e, n in opts:
        for s in [(L, 1.3, 0.9) for L in (0.01, 0.99, 1.01, 9.0, 120.0, 900.0)] + [(0.6, G, 0.9) for G in (0.05, 0.99, 2.0, 2.99, 6.0, 20.0)] + [(0.6, 1.3, x) for x in (1e-3, 5.0, 200.0)]:
            ck.case(f"scales/{e}/{n}/{s}", points, ck, e, n, s, 3, Kw)
        for m in (1, 4, 5, 10, 50, 64, 100, 101, 128, 300, 1000, 1025, 5000):
            ck.case(f"batch/{e}/{n}/{m}", batch_size, ck, e, n, m)
        for w, l in ((1, 1), (2, 5), (12, 2), (25, 1), (33, 3), (64, 2)):
            if e == "TAUNET":
                ck.case(f"sizes/{n}/{w}x{l}", sizes, ck, n, w, l, Kw)
    Kn = K[:: 1 if ck.thorough else 3]
    for layers in (1, 2, 3, 4):
        shapes = [1, 5, 10] + [list(x) for x in ((4,) * layers, tuple(range(2, 2 + layers)), tuple(range(9, 9 - layers, -1)))]
        for sz, act, (ln, nu) in itertools.product(shapes, ACTS, ((False, -1 / 3), (True, -0.4))):
            ck.case(f"net/{layers}/{sz}/{act}/{ln}", network, ck, layers, sz, act, ln, nu, Kn)
        for mix in itertools.product(("relu", "tanh", "leaky"), repeat=layers) if layers < 4 else [("relu", "tanh", "leaky", "elu")]:
            ck.case(f"net/{layers}/mix/{mix}", network, ck, layers, 4, list(mix), False, -1 / 3, Kn[::2])
    for ln, nu in itertools.product((False, True), (-2.5, -1.2, -1.0, 0.0, 0.4, 1.0, 1.7)):
        ck.case(f"net/nu/{ln}/{nu}", network, ck, 2, 5, "tanh", ln, nu, Kn)
    far = np.array(list(itertools.product((0.0, 1e-9, -1e-7, 3e8, 1e-12), repeat=3)))
    far = far[np.any(far != 0, axis=1)]
    for e, n in opts:
        ck.case(f"far/{e}/{n}", far_points, ck, e, n, far)
    for nu in (-1 / 3, -0.6, 0.2, -3.0, 1.5):
        for ln in (False, True):
            ck.case(f"rational/{nu:.2f}/{ln}", rational, ck, nu, ln)
    for f in ("1d", "2d", "0d"):
        ck.case(f"spectra/{f}", spectra, ck, f)
