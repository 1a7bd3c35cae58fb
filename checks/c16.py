"""C16: reading and writing the parameter vector."""
import itertools

import numpy as np
import torch
import torch.nn as nn

from drdmannturb import NNParameters
from drdmannturb.nn_modules import TauNet
from lib import drd, ref
from lib.mc import close_rel, expect_raises, require

LEVEL = "model_checking"
TECH = "exhaustive exploration of read/write/mutate/reject histories per architecture, checked against a vector-valued abstract state and a reference evaluation of the vector"
RULE = (
    "the abstract state is the parameter vector; every history over writing (arrays, lists, tensors; then mutating the source), reading (then mutating the "
    "result), rejected writes, resetting the scales, evaluating and training-mode evaluation is explored and after every step the vector read, the model's "
    "evaluation (against the reference decoded from the abstract vector) and a second problem given the same vector are compared; architecture lattice for "
    "layout and rejection. A state is (architecture, abstract vector, last operation)."
)
BOUNDS = "histories of length 3 (quick) / 4 over 10 operations on 4 architectures; 74 architectures (up to 33 units and 9 layers); all network-shape arguments from a set of valid and invalid values; component counts -1..8; networks with every assignment of 3-4 activations to up to 3 layers of 2 or 5 units"
ASSUMPTIONS = ["double precision so that the comparison is exact to rounding; single precision checked for exact round trip"]
K = np.array([0.05, 0.7, 6.0])
GRID = (-2, 2, 5)


def mk(a, **kw):
    from drdmannturb import IntegrationParameters

    ip = IntegrationParameters(ops_log_min=GRID[0], ops_log_max=GRID[1], ops_num_points=GRID[2], coh_num_points=4)
    return drd.make_problem(width=a[2], layers=a[3], learn_nu=a[4], eddy=a[0], learnable=a[1], integration=ip, **kw)


def size(a):
    n = 3 + (2 if a[1] else 0)
    if a[0] == "TAUNET":
        w, l = a[2], a[3]
        n += 3 * w + w * w * (l - 1) + 3 * w + (1 if a[4] else 0)
    return n


def reference(a, v):
    m = drd.decode(v, width=a[2], layers=a[3], learn_nu=a[4] and a[0] == "TAUNET", eddy=a[0], learnable=a[1])
    return ref.ops(K, ref.log_grid(*GRID), m["tau"], m["L"], m["T"], m["sigma"], m["pq"])


def vec(a, seed):
    n = size(a)
    v = np.random.RandomState(seed).uniform(-0.6, 0.9, n)
    if a[1]:
        v[3:5] = (3.9, 2.8)
    if a[0] == "TAUNET" and a[4]:
        v[-1] = -0.3 - 0.05 * seed
    return v


def evaluate(pb):
    return pb.eval(torch.tensor(K))


def history(ck, a, hist, cache):
    pb, other = mk(a), mk(a)
    n = size(a)
    cur = np.array(pb.parameters, dtype=float)
    require(len(cur) == n, "vector length", got=len(cur), want=n)
    close_rel(cur[:3], np.log([0.7, 1.2, 0.9]), "initial scales", rtol=1e-12)
    held = []
    for i, op in enumerate(hist):
        what = f"{a} after {'.'.join(hist[: i + 1])}"
        if op in ("w1", "w2"):
            src = vec(a, int(op[1]))
            pb.parameters = src
            cur = src.copy()
            src[:] = 99.0
        elif op == "wt":
            src = torch.tensor(vec(a, 3))
            pb.parameters = src
            cur = src.numpy().copy()
            src.fill_(-7.0)
        elif op == "wl":
            cur = vec(a, 4)
            cur[5 if a[1] else 3 : n - (1 if a[4] else 0)] *= 15.0  # large weights
            pb.parameters = list(cur)
        elif op == "rw":
            pb.parameters = pb.parameters
        elif op == "rm":
            r = pb.parameters
            held.append((r, np.array(r)))
            r2 = pb.parameters
            r2[:] = 5.0
        elif op == "bad":
            for bad in (cur[:-1], np.append(cur, 1.0), np.zeros(0), np.zeros(3 if n != 3 else 4), torch.zeros(n + 2)):
                expect_raises(ValueError, lambda: setattr(pb, "parameters", bad), f"{what}: length {len(bad)}")
        elif op == "ls":
            pb.phys_params.L, pb.phys_params.Gamma, pb.phys_params.sigma = 0.3, 2.1, 1.4
            pb.log_dimensional_scales()
            cur = cur.copy()
            cur[:3] = np.log([0.3, 2.1, 1.4])
        elif op == "lb":
            keep = pb.phys_params.L, pb.phys_params.Gamma, pb.phys_params.sigma
            for j, x in itertools.product(range(3), (0.0, -1.0)):
                s = list(keep)
                s[j] = x
                pb.phys_params.L, pb.phys_params.Gamma, pb.phys_params.sigma = s
                expect_raises(ValueError, pb.log_dimensional_scales, f"{what}: scales {s}")
            pb.phys_params.L, pb.phys_params.Gamma, pb.phys_params.sigma = keep
        elif op == "gr":
            y = pb.OPS(torch.tensor(K))
            if y.requires_grad:
                y.sum().backward()
        got = np.asarray(pb.parameters)
        require(got.shape == (n,) and np.array_equal(got.astype(float), cur), f"{what}: vector read back", got=got, want=cur)
        key = (a, cur.tobytes())
        if key not in cache:
            cache[key] = reference(a, cur)
        e = evaluate(pb)
        close_rel(e[:4], cache[key][:4], f"{what}: evaluation", rtol=1e-7, atol=1e-10)
        other.parameters = pb.parameters
        require(np.array_equal(evaluate(other), e), f"{what}: a second problem with the same vector evaluates differently")
        other.parameters = vec(a, 8)
        require(np.array_equal(np.asarray(pb.parameters, dtype=float), cur), f"{what}: writing to another problem changed this one")
        for r, k in held:
            require(np.array_equal(r, k), f"{what}: an earlier read changed")
        ck.step()
        ck.state(a, cur, op)
    ck.outcome(a, cur)


def shared_tensor(ck, a):
    """One tensor given to two problems; one is then trained a step: the other and the tensor must not move."""
    t = torch.tensor(vec(a, 1))
    keep = t.clone()
    p, q = mk(a), mk(a)
    p.parameters = t
    q.parameters = t
    before = evaluate(q)
    opt = torch.optim.SGD(p.OPS.parameters(), lr=0.05)
    y = p.OPS(torch.tensor(K))
    y[:3].sum().backward()
    opt.step()
    require(not np.array_equal(p.parameters, keep.numpy()), "training step moved nothing")
    require(torch.equal(t, keep), "training changed the vector that was written")
    require(np.array_equal(q.parameters, keep.numpy()) and np.array_equal(evaluate(q), before), "training one problem changed another")
    ck.step()
    ck.state("shared", a)


def architecture(ck, a):
    pb = mk(a)
    n = size(a)
    require(len(pb.parameters) == n, "vector length", got=len(pb.parameters), want=n)
    v = vec(a, 5)
    pb.parameters = v
    close_rel(evaluate(pb)[:4], reference(a, v)[:4], "evaluation", rtol=1e-7, atol=1e-10)
    if a[1]:
        close_rel(np.asarray(mk(a).parameters)[3:5], (4.0, 17 / 6), "initial exponents", rtol=1e-6)
    if a[0] == "TAUNET":
        nn_ = v[5 if a[1] else 3 :]
        require(pb.num_trainable_params() == len(nn_), "number of network parameters", got=pb.num_trainable_params(), want=len(nn_))
        close_rel(float(pb.eval_trainable_norm()), np.sqrt(np.sum(nn_**2)), "network norm", rtol=1e-9)
    else:
        expect_raises(ValueError, pb.num_trainable_params, "network size of a closed-form model")
        expect_raises(ValueError, pb.eval_trainable_norm, "network norm of a closed-form model")
    # every single entry matters for the evaluation and is independent of the others
    base = evaluate(pb)
    for i in range(n):
        w = v.copy()
        w[i] += 0.25
        pb.parameters = w
        require(np.array_equal(np.asarray(pb.parameters, dtype=float), w), f"entry {i} written")
        close_rel(evaluate(pb)[:4], reference(a, w)[:4], f"entry {i} changed", rtol=1e-7, atol=1e-10)
        ck.step()
        ck.state("entry", a, i)
    pb.parameters = v
    require(np.array_equal(evaluate(pb), base), "going back to a vector")
    # the problem's scales, with and without noise
    for noise in (False, True):
        q = mk(a, L=0.41, Gamma=2.2, sigma=0.13, init_with_noise=noise, noise_magnitude=0.01)
        close_rel(np.asarray(q.parameters)[:3], np.log([0.41, 2.2, 0.13]), f"initial scales noise={noise}", rtol=1e-12)
    if a[0] == "TAUNET":
        torch.manual_seed(1)
        x = mk(a)
        torch.manual_seed(1)
        y = mk(a, init_with_noise=True, noise_magnitude=0.01)
        d = np.abs(np.asarray(x.parameters) - np.asarray(y.parameters))[3:]
        require(0 < d.max() < 0.1, "noise applied to the network", got=d.max())


def noise(ck, a, mag, seed):
    """Initial noise is white with the configured magnitude and leaves the three scales alone."""
    out = []
    for m in (None, mag, 2 * mag):
        torch.manual_seed(seed)
        out.append(np.array(mk(a, **({} if m is None else dict(init_with_noise=True, noise_magnitude=m))).parameters, dtype=float)[3:])
    n1, n2 = (out[1] - out[0]) / mag, (out[2] - out[0]) / (2 * mag)
    n = len(n1)
    close_rel(n1, n2, "noise in proportion to its magnitude", rtol=1e-6, atol=1e-9 / mag)
    require(abs(n1.mean()) < 7 / np.sqrt(n) and abs(n1.var() - 1) < 7 * np.sqrt(2 / n), "white noise of unit variance", got=(n1.mean(), n1.var()), n=n)
    require(abs(np.mean(n1[1:] * n1[:-1])) < 7 / np.sqrt(n), "noise of neighbouring entries is independent")
    ck.step()
    ck.state("noise", a, mag, seed)


def single_precision(ck, a):
    torch.set_default_dtype(torch.float32)
    try:
        p, q = mk(a), mk(a)
        v = vec(a, 2).astype(np.float32)
        p.parameters = v
        require(np.array_equal(p.parameters, v), "single precision round trip")
        q.parameters = p.parameters
        k = torch.tensor(K, dtype=torch.float32)
        require(np.array_equal(p.eval(k), q.eval(k)), "single precision evaluation of the same vector")
        ck.step()
        ck.state("f32", a)
    finally:
        torch.set_default_dtype(torch.float64)


def rejects_scales(ck, j, x):
    s = [0.7, 1.2, 0.9]
    s[j] = x
    try:
        mk(("MANN", False, 4, 2, False), L=s[0], Gamma=s[1], sigma=s[2])
    except (ValueError, AssertionError):
        pass
    else:
        require(False, f"scales {s} accepted")
    ck.step()
    ck.state("scales", j, x)


def rejects_net(ck, layers, sizes, acts):
    ok_l = isinstance(layers, int) and layers > 0
    ok_s = ok_l and ((isinstance(sizes, int) and sizes > 0) or (isinstance(sizes, list) and len(sizes) == layers and all(s > 0 for s in sizes)))
    good = {"none": True, "one": True, "list2": layers == 2, "list1": layers == 1, "str": False, "mixed": False, "func": False}[acts]
    a = {"none": None, "one": nn.Tanh(), "list2": [nn.ReLU(), nn.Tanh()], "list1": [nn.ReLU()], "str": "relu", "mixed": [nn.ReLU()] * 1 + ["x"] * (max(layers, 1) - 1 if ok_l and layers > 1 else 0) if layers != 1 else ["x"], "func": torch.relu}[acts]
    if ok_s and good:
        t = TauNet(layers, sizes, activations=a)
        require(np.isfinite(t(torch.ones(2, 3)).detach().numpy()).all(), "accepted network evaluates")
    else:
        expect_raises((ValueError, TypeError), lambda: TauNet(layers, sizes, activations=a), f"layers={layers!r} sizes={sizes!r} activations={acts}")
    ck.step()
    ck.state("net", layers, sizes, acts)


ACTS = {
    "tanh": (nn.Tanh, np.tanh), "relu": (nn.ReLU, lambda x: np.maximum(x, 0)), "sigmoid": (nn.Sigmoid, lambda x: 1 / (1 + np.exp(-x))),
    "softplus": (nn.Softplus, lambda x: np.log1p(np.exp(x))),
}


def network(ck, sizes, acts, learn_nu):
    """The lifetime network itself: layer sizes, one activation per hidden layer, residual, exponent."""
    n = len(sizes)
    torch.manual_seed(n)
    a = ACTS[acts[0]][0]() if len(acts) == 1 and n > 1 else [ACTS[x][0]() for x in acts]
    t = TauNet(n, sizes[0] if len(set(sizes)) == 1 else list(sizes), activations=a, learn_nu=learn_nu)
    ws = [p.detach().numpy() for p in t.parameters() if p.ndim == 2]
    dims = [3, *sizes, 3]
    require([w.shape for w in ws] == [(b, a) for a, b in zip(dims, dims[1:])], "weight shapes", got=[w.shape for w in ws])
    rs = np.random.RandomState(n)
    with torch.no_grad():
        for p in t.parameters():
            if p.ndim == 2:
                p.copy_(torch.tensor(rs.uniform(-0.8, 0.9, p.shape)))
            else:
                p.fill_(-0.45)
    ws = [p.detach().numpy() for p in t.parameters() if p.ndim == 2]
    fs = [ACTS[x][1] for x in (acts if len(acts) == n else acts * n)]
    for shape in ((5,), (2, 3), (1, 1, 2)):
        k = rs.normal(size=shape + (3,)) * 2
        with torch.no_grad():
            got = t(torch.tensor(k)).numpy()
        close_rel(got, ref.taunet(k, ws, fs, -0.45 if learn_nu else -1 / 3), "network value", rtol=1e-9)
        ck.step()
    ck.state("network", sizes, acts, learn_nu)
    ck.outcome(got)


def components(ck, n):
    if n in (3, 4, 6):
        mk(("MANN", False, 4, 2, False), num_components=n)
    else:
        expect_raises(ValueError, lambda: mk(("MANN", False, 4, 2, False), num_components=n), f"{n} components")
    ck.step()
    ck.state("components", n)


def nn_options(ck, sizes, acts):
    """NNParameters.hidden_layer_sizes / activations select the network."""
    from drdmannturb import (CalibrationProblem, IntegrationParameters, LossParameters, PhysicalParameters, ProblemParameters)

    fs = {"tanh": (nn.Tanh(), np.tanh), "relu": (nn.ReLU(), lambda x: np.maximum(x, 0))}
    kw = {}
    if sizes:
        kw["hidden_layer_sizes"] = list(sizes)
    if acts:
        kw["activations"] = [fs[x][0] for x in acts]
    pb = CalibrationProblem(NNParameters(nlayers=2, hidden_layer_size=6, **kw), ProblemParameters(), LossParameters(), PhysicalParameters(0.7, 1.2, 0.9),
                            integration_params=IntegrationParameters(ops_num_points=4), device="cpu")
    w = [3, *(sizes or (6, 6)), 3]
    want = sum(a * b for a, b in zip(w, w[1:]))
    dflt = 18 + 36 + 18
    got = pb.num_trainable_params()
    if sizes and got != want:
        require(got == dflt, "network size", got=got, want=want)
        ck.known("nn-options-ignored", "hidden_layer_sizes")
        w = [3, 6, 6, 3]
    v = np.array(pb.parameters, dtype=float)
    v[3:] = np.random.RandomState(3).uniform(-0.6, 0.9, len(v) - 3)
    pb.parameters = v
    W, i = [], 3
    for a, b in zip(w, w[1:]):
        W.append(v[i : i + a * b].reshape(b, a))
        i += a * b
    k = np.array([[0.3, 1.0, -2.0], [4.0, 0.1, 0.0]])
    with torch.no_grad():
        t = pb.OPS.EddyLifetime(torch.tensor(k)).numpy()
    want = 1.2 * ref.taunet(0.7 * k, W, [fs[x][1] for x in acts or ("relu", "relu")], -1 / 3)
    if acts and not np.allclose(t, want, rtol=1e-8):
        close_rel(t, 1.2 * ref.taunet(0.7 * k, W, [fs["relu"][1]] * 2, -1 / 3), "activations neither the configured nor the default ones", rtol=1e-8)
        ck.known("nn-options-ignored", "activations")
    else:
        close_rel(t, want, "network evaluation", rtol=1e-8)
    ck.step()
    ck.state("nnopt", sizes, acts)


def run(ck):
    torch.set_default_dtype(torch.float64)
    hist_arch = [("TAUNET", False, 3, 2, True), ("MANN", True, 4, 2, False), ("TAUNET", True, 2, 1, False), ("CONST", False, 4, 2, False)]
    ops = ("w1", "w2", "wt", "wl", "rw", "rm", "bad", "ls", "lb", "gr")
    cache = {}
    for a in hist_arch:
        for h in itertools.product(ops, repeat=4 if ck.thorough else 3):
            if ck.thorough or h[0] in ("w1", "wt", "rm", "bad", "ls") or h[1] in ("w2", "wt"):
                ck.case(f"history/{a}/{'.'.join(h)}", history, ck, a, h, cache)
    archs = [("TAUNET", l, w, n, nu) for l, w, n, nu in itertools.product((False, True), (1, 3, 7), (1, 2, 3), (False, True))]
    archs += [(e, l, 4, 2, False) for e, l in itertools.product(("CONST", "TWOTHIRD", "MANN", "MANN_APPROX"), (False, True))]
    archs += [("TAUNET", l, w, n, nu) for (w, n), (l, nu) in itertools.product(((10, 1), (17, 1), (2, 6), (4, 4), (12, 2), (1, 9), (33, 1)), ((False, True), (True, False)))]
    for a in archs:
        ck.case(f"arch/{a}", architecture, ck, a)
        ck.case(f"f32/{a}", single_precision, ck, a)
        if a[0] in ("TAUNET", "TWOTHIRD"):
            ck.case(f"shared/{a}", shared_tensor, ck, a)
    for a, mag, seed in itertools.product((("TAUNET", False, 40, 3, True), ("TAUNET", True, 25, 2, False)), (1e-3, 0.1, 5.0), range(3)):
        ck.case(f"noise/{a}/{mag}/{seed}", noise, ck, a, mag, seed)
    for j, x in itertools.product(range(3), (0.0, -0.5, -1e-9)):
        ck.case(f"scales/{j}/{x}", rejects_scales, ck, j, x)
    for l, s, ac in itertools.product((-1, 0, 1, 2, 2.0, "2"), (-3, 0, 4, [4], [4, 5], [4, 0], [4, 5, 6], []), ("none", "one", "list1", "list2", "str", "mixed", "func")):
        ck.case(f"net/{l!r}/{s}/{ac}", rejects_net, ck, l, s, ac)
    for nu in (False, True):
        for n in (1, 2, 3):
            for sizes in itertools.product((2, 5), repeat=n):
                for acts in [*itertools.product(ACTS if ck.thorough or n < 3 else ("tanh", "relu", "sigmoid"), repeat=n), *(((x,) for x in ACTS) if n > 1 else ())]:
                    ck.case(f"network/{sizes}/{acts}/{nu}", network, ck, sizes, acts, nu)
    for n in range(-1, 9):
        ck.case(f"components/{n}", components, ck, n)
    for s, ac in itertools.product((None, (6, 6), (3, 5)), (None, ("relu", "relu"), ("tanh", "relu"))):
        ck.case(f"nnoptions/{s}/{ac}", nn_options, ck, s, ac)
