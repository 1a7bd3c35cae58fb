"""Saved models reload to the same model and the same wind (C20)."""
import dataclasses
import io
import itertools
import os
import pickle
from pathlib import Path

import numpy as np
import torch

from drdmannturb.common import CPU_Unpickler
from lib import drd, gen, ref
from lib.mc import Mismatch, close, close_rel, expect_raises, require

LEVEL = "model_checking"
TECH = "explicit-state exploration of save/modify/load/generate histories of the real code against an abstract file system, plus a lattice of saved models against the reference synthesis"
RULE = (
    "abstract state = (live parameter vector and configuration, content of directory A, content of directory B); every history over {two parameter vectors, changed configuration, save to A as text, "
    "save to B as path, default save, evaluate, one training step} is executed and after every step both directories are listed and every file is loaded and compared with the abstract content, "
    "including a new problem built from it. Generators built from files are compared with the reference synthesis of the saved vector, before and after the live model or the file change."
)
BOUNDS = "histories of length 4 (thorough 5; one less for the two closed-form kinds) over 8 operations x 4 model kinds; 72 saved models x generator settings, 84 with every other configuration value changed on its own, 14 network sizes up to 33x2 and 3x7, 12 heights/velocities; all rejections; both precisions; 6 tensor types x 6 shapes x 4 containers through the CPU unpickler"
ASSUMPTIONS = ["on the plane k1=0 the implemented tensor is used (known finding of C06)", "fields compared at 3e-4 of their largest value (single-precision transforms)"]
K = torch.tensor([0.07, 0.8, 5.0], dtype=torch.float64)
KINDS = {
    "net": dict(eddy="TAUNET", width=3, layers=2),
    "nu-pq": dict(eddy="TAUNET", width=2, layers=1, learn_nu=True, learnable=True),
    "mann": dict(eddy="MANN"),
    "approx": dict(eddy="MANN_APPROX", learnable=True),
}


def ip():
    from drdmannturb import IntegrationParameters

    return IntegrationParameters(ops_log_min=-2, ops_log_max=2, ops_num_points=4, coh_num_points=4)


def fields(o):
    out = {}
    for f in dataclasses.fields(o):
        v = getattr(o, f.name)
        out[f.name] = v.detach().clone().numpy().tolist() if torch.is_tensor(v) else [type(x).__name__ for x in v] if f.name == "activations" else (list(v) if isinstance(v, list) else v)
    return out


def config(pb):
    return [fields(pb.nn_params), fields(pb.prob_params), fields(pb.loss_params), fields(pb.phys_params)]


def load(d):
    """Content of a directory: None, or (configuration, vector) of the one model file in it."""
    names = sorted(os.listdir(d)) if os.path.isdir(d) else []
    if not names:
        return None
    require(len(names) == 1 and names[0].endswith(".pkl"), "directory content after saving", got=names)
    with open(os.path.join(d, names[0]), "rb") as f:
        rec = pickle.load(f)
    require(len(rec) == 5, "five records", got=len(rec))
    with open(os.path.join(d, names[0]), "rb") as f:
        cpu = CPU_Unpickler(f).load()
    require(type(cpu) is type(rec) and [fields(r) for r in cpu[:4]] == [fields(r) for r in rec[:4]], "records loaded by the CPU unpickler", got=[fields(r) for r in cpu[:4]])
    require([type(x) for x in cpu] == [type(x) for x in rec] and np.asarray(cpu[4]).dtype == np.asarray(rec[4]).dtype and np.array_equal(cpu[4], rec[4]), "vector loaded by the CPU unpickler", got=cpu[4])
    require(names[0] == f"{rec[1].eddy_lifetime}.pkl", "file named after the eddy lifetime", got=names[0])
    return names[0], rec


def check_dir(d, want, what):
    got = load(d)
    if want is None:
        require(got is None, f"{what}: file appeared", got=got and got[0])
        return
    require(got is not None, f"{what}: nothing saved")
    rec = got[1]
    require([fields(r) for r in rec[:4]] == want[0], f"{what}: configuration saved", got=[fields(r) for r in rec[:4]], want=want[0])
    v = np.asarray(rec[4])
    require(v.shape == want[1].shape and np.array_equal(v.astype(float), want[1]), f"{what}: parameter vector saved", got=v, want=want[1])


def rebuilt(rec, want_eval, what):
    from drdmannturb import CalibrationProblem

    q = CalibrationProblem(nn_params=rec[0], prob_params=rec[1], loss_params=rec[2], phys_params=rec[3], integration_params=ip(), device="cpu")
    q.parameters = rec[4]
    require(np.array_equal(q.eval(K), want_eval), f"{what}: the reloaded model evaluates differently", got=q.eval(K)[:3, 0], want=want_eval[:3, 0])


def vec(n, seed, kind):
    v = np.random.RandomState(seed).uniform(-0.5, 0.8, n)
    if KINDS[kind].get("learnable"):
        v[3:5] = (3.8 + 0.1 * seed, 2.7)
    return v


def history(ck, kind, hist):
    import shutil

    root = os.path.join(ck.scratch, "h")
    shutil.rmtree(root, ignore_errors=True)
    A, B, C = (os.path.join(root, x) for x in "ABC")
    os.makedirs(B)
    os.makedirs(C)
    pb = drd.make_problem(integration=ip(), outdir=Path(C), nepochs=1, learning_rate=0.05, wolfe_iter_count=1, **KINDS[kind])
    n = len(pb.parameters)
    files = {A: None, B: None, C: None}
    evals = {}
    for i, op in enumerate(hist):
        what = f"{kind} after {'.'.join(hist[: i + 1])}"
        if op in "12":
            pb.parameters = vec(n, int(op), kind)
        elif op == "p":
            pb.phys_params.ustar = 1.7 + i
            pb.phys_params.L = 0.33 + i
            pb.loss_params.alpha_pen1 = 0.25 * (i + 1)
            pb.prob_params.nepochs = 5 + i
        elif op in ("A", "B", "C"):
            if op == "A":
                pb.save_model(A)
            elif op == "B":
                pb.save_model(save_dir=Path(B))
            else:
                pb.save_model()
            d = {"A": A, "B": B, "C": C}[op]
            files[d] = (config(pb), np.array(pb.parameters, dtype=float))
            evals[d] = pb.eval(K)
        elif op == "e":
            pb.eval(K)
        elif op == "t":
            before = np.array(pb.parameters)
            o = torch.optim.SGD(pb.OPS.parameters(), lr=1e-3)
            o.zero_grad()
            torch.log(pb.OPS(K)[:3].abs()).sum().backward()
            o.step()
            require(not np.array_equal(before, pb.parameters), f"{what}: a training step moved nothing")
        for d, w in files.items():
            check_dir(d, w, f"{what}: {os.path.basename(d)}")
            if w is not None and i == len(hist) - 1:
                rebuilt(load(d)[1], evals[d], f"{what}: {os.path.basename(d)}")
        ck.step()
        ck.state(kind, hist[: i + 1])
    ck.outcome(kind, [None if w is None else w[1] for w in files.values()], np.array(pb.parameters))


def reference_G(v, kw, fr, ustar, h, calibrated):
    m = drd.decode(v, width=kw["width"], layers=kw["layers"], learn_nu=kw.get("learn_nu", False), learnable=kw.get("learnable", False))
    L, T = m["L"], m["T"]
    E0 = 4 * np.pi * L ** (-5 / 3) * m["sigma"] * ustar**2 * h ** (-2 / 3)
    k = np.stack(ref.grid_k(fr), axis=-1)
    arg, pq = calibrated
    beta = T * m["tau"](k * h / (1.0 if arg else L))  # decode's tau multiplies its argument by L
    return L, T, ref.sqrt_tensor(fr, L * h, E0, beta, pq=m["pq"] if pq else None)


def check_generator(ck, g, v, kw, c, nblocks, what):
    """Padding, tensor and field of a generator against the saved vector v."""
    L, T = np.exp(v[0]) * c["h"], np.exp(v[1])
    lay = ref.Layout(c["dims"], c["levels"], L, T, gen.blend_of(c))
    f = g.generate(nblocks, **gen.PROF["log"])
    fr = lay.freqs()
    Gi = g.Covariance.precompute_Spectrum(fr)
    devs = [(True, True), (True, False), (False, True), (False, False)]
    err = None
    for d in devs:
        if not kw.get("learnable") and not d[1]:
            continue
        _, _, G = reference_G(v, kw, fr, c["ustar"], c["h"], d)
        try:
            close(Gi, G, f"{what}: spectral tensor", rtol=2e-5)
            raw = ref.raw_blocks(lay, G, c["seed"], nblocks)
            close(f, np.concatenate([ref.with_profile(r, c["dims"], gen.PROF["log"]) for r in raw]), f"{what}: field", rtol=3e-4)
        except Mismatch as e:
            err = e
            continue
        if not d[0]:
            ck.known("drd-lifetime-argument", what)
        if not d[1]:
            ck.known("drd-exponents", what)
        return f.copy()
    raise err


def saved(ck, d, kw, v, phys, dtype=None):
    pb = drd.make_problem(integration=ip(), outdir=d, **kw, **phys)
    pb.parameters = v if dtype is None else v.astype(dtype)
    pb.save_model(d)
    return pb, os.path.join(d, os.listdir(d)[0])


def netvec(kw, seed, L=None):
    n = len(drd.make_problem(integration=ip(), **kw).parameters)
    v = np.random.RandomState(seed).uniform(-0.6, 0.9, n)
    if n > 200:  # keep the outputs of large networks moderate
        v *= 0.3
    v[:3] = np.log([L or 0.7, 0.8, 0.6])
    i = 3
    if kw.get("learnable"):
        v[3:5] = (3.7, 2.9)
        i = 5
    if kw.get("learn_nu"):
        v[-1] = -0.37
    return v


def generator(ck, kw, seed, L, h, ustar, f32):
    import shutil

    d = os.path.join(ck.scratch, "g")
    shutil.rmtree(d, ignore_errors=True)
    v = netvec(kw, seed, L)
    if f32:
        torch.set_default_dtype(torch.float32)
    try:
        # the scales in the configuration are not those of the saved vector
        pb, path = saved(ck, d, kw, v, dict(L=2.9, Gamma=0.1, sigma=7.0), np.float32 if f32 else None)
        v = np.array(pb.parameters, dtype=float)
        if f32 == "mixed":
            torch.set_default_dtype(torch.float64)
        c = gen.base(model="DRD", path=path, h=h, ustar=ustar, seed=5, dims=(6.0, 3.0, 2.0), L=None, T=None, E=None)
        a = check_generator(ck, gen.build(c, path=Path(path)), v, kw, c, 2, f"from {kw}")
        # the live model changes, then the file: a generator already built does not
        g = gen.build(c)
        first = g.generate(1, **gen.PROF["log"]).copy()
        pb.parameters = np.asarray(v * 0.5, dtype=pb.parameters.dtype)
        pb.phys_params.L = 9.0
        b = gen.build(c).generate(2, **gen.PROF["log"])
        require(np.allclose(a, b, rtol=1e-6, atol=1e-7), "changing the live model changed the wind of the saved one")
        pb.save_model(d)
        h2 = g.generate(1, **gen.PROF["log"])
        require(np.allclose(h2, a, rtol=1e-6, atol=1e-7) and np.array_equal(h2[: len(first)], first), "saving again changed a generator already built")
        v2 = np.array(pb.parameters, dtype=float)
        check_generator(ck, gen.build(c), v2, kw, c, 2, "after saving again")
    finally:
        torch.set_default_dtype(torch.float64)
    ck.step(6)
    ck.state("gen", str(sorted(kw.items())), seed, L, h, ustar, f32)
    ck.outcome(a)


def alternating(ck, order):
    """Two models, generators built and used in any order: each keeps its own."""
    kws = {"x": dict(eddy="TAUNET", width=3, layers=1), "y": dict(eddy="TAUNET", width=4, layers=2, learn_nu=True)}
    info = {}
    for k, kw in kws.items():
        d = os.path.join(ck.scratch, f"alt-{k}")
        v = netvec(kw, 3 if k == "x" else 4, 1.0 if k == "x" else 0.5)
        _, p = saved(ck, d, kw, v, {})
        info[k] = (kw, v, p)
    live = {}
    for op in order:
        k = op.lower()
        kw, v, p = info[k]
        c = gen.base(model="DRD", path=p, h=1.3, seed=11, dims=(4.0, 3.0, 2.0), L=None, T=None, E=None)
        if op.isupper() or k not in live:
            live[k] = (gen.build(c), c)
        g, c = live[k]
        if g.total_fluctuation.shape[0] == 0:
            check_generator(ck, g, v, kw, c, 1, f"{order}")
        else:
            n = g.total_fluctuation.shape[0] // g.Nx
            f = g.generate(1, **gen.PROF["log"])
            w = gen.build(c).generate(n + 1, **gen.PROF["log"])
            require(np.allclose(f, w, rtol=1e-6, atol=1e-7), f"{order}: continued field")
        ck.step()
    ck.state("alt", order)


def unpickled(ck, dtype, shape, grad, wrap):
    """The CPU unpickler returns what was pickled, whatever the tensors."""
    n = int(np.prod(shape))
    t = (torch.arange(n).reshape(shape) * 3 - 4).to(dtype)
    if dtype.is_floating_point or dtype.is_complex:
        t = t / 7
        if not grad and n > 1:
            t.reshape(-1)[0] = float("nan")
    if grad:
        t.requires_grad_(True)
    extra = np.arange(3.0) / 7
    obj = {"bare": t, "dict": {"a": t, "b": [1, "x", None], 3: extra}, "views": [t, t.T, t.reshape(-1)[::2]], "module": torch.nn.ParameterList([torch.nn.Parameter(t, requires_grad=grad)])}[wrap]
    s = pickle.dumps(obj)
    same = torch.equal if t.dtype in (torch.int64, torch.bool) else lambda a, b: torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)) and torch.equal(a != a, b != b)
    flat = {"bare": lambda o: [o], "dict": lambda o: [o["a"]], "views": list, "module": list}[wrap]
    for _ in range(2):
        got = CPU_Unpickler(io.BytesIO(s)).load()
        require(type(got) is type(obj), "type", got=type(got))
        a, b = flat(got), flat(obj)
        require(len(a) == len(b), "number of tensors")
        for x, y in zip(a, b):
            require(type(x) is type(y) and x.dtype == y.dtype and x.shape == y.shape and x.requires_grad == y.requires_grad and x.device.type == "cpu", "tensor kind", got=(x.dtype, tuple(x.shape), x.requires_grad), want=(y.dtype, tuple(y.shape), y.requires_grad))
            require(same(x.detach(), y.detach()), "tensor values", got=x, want=y)
        if wrap == "dict":
            require(got["b"] == obj["b"] and np.array_equal(got[3], extra), "other values", got=got)
    ck.step(2)
    ck.state("unpickled", str(dtype), shape, grad, wrap)


def rejects(ck, which):
    d = os.path.join(ck.scratch, "rej")
    os.makedirs(d, exist_ok=True)
    if which.startswith("gen"):
        path = {"gen-missing": os.path.join(d, "nothing.pkl"), "gen-directory": d, "gen-none": None}[which]
        c = gen.base(model="DRD", path=path, L=None, T=None, E=None)
        exc = {"gen-missing": FileNotFoundError, "gen-directory": OSError, "gen-none": ValueError}[which]
        expect_raises(exc, lambda: gen.build(c), which)
    else:
        pb = drd.make_problem(integration=ip(), eddy="MANN")
        if which == "save-none":
            pb.output_directory = None
            expect_raises(ValueError, pb.save_model, which)
        elif which == "save-path-missing":
            expect_raises(ValueError, lambda: pb.save_model(Path(d) / "missing"), which)
            require(not os.path.exists(os.path.join(d, "missing")), "rejected directory was created")
        elif which == "save-path-file":
            f = os.path.join(d, "file")
            open(f, "w").write("x")
            expect_raises(ValueError, lambda: pb.save_model(Path(f)), which)
            require(open(f).read() == "x", "rejected target was touched")
        elif which == "save-str-nested":
            t = os.path.join(d, "a", "b", "c")
            pb.save_model(t)
            check_dir(t, (config(pb), np.array(pb.parameters, dtype=float)), which)
    ck.step()
    ck.state("reject", which)


def run(ck):
    torch.set_default_dtype(torch.float64)
    for kind in KINDS:
        for h in itertools.product("12pABCet", repeat=(5 if ck.thorough else 4) - (kind not in ("net", "nu-pq"))):
            if any(o in "ABC" for o in h):
                ck.case(f"history/{kind}/{''.join(h)}", history, ck, kind, "".join(h))
    nets = [dict(eddy="TAUNET", width=w, layers=l, learn_nu=nu, learnable=pq) for w, l, nu, pq in itertools.product((2, 5), (1, 2), (False, True), (False, True))]
    for kw in nets:
        for (L, h, u) in ((1.0, 1.0, 1.0), (0.6, 2.0, 1.0), (0.25, 3.0, 0.4)):
            for f32 in (False, True, "mixed"):
                ck.case(f"generator/{kw}/{L}/{h}/{u}/{f32}", generator, ck, kw, 2, L, h, u, f32)
    # the rest of the saved configuration does not matter to the wind
    from drdmannturb import LossParameters

    one = [dict(num_components=3), dict(num_components=6), dict(learning_rate=3.0), dict(tol=10.0), dict(nepochs=0), dict(nepochs=500), dict(wolfe_iter_count=1), dict(init_with_noise=True, noise_magnitude=0.4),
           dict(p_exponent=2.5), dict(q_exponent=1.9), dict(zref=40.0), dict(Uref=25.0), dict(ustar=1.9), dict(ustar=0.1), dict(loss=LossParameters(alpha_pen1=3.0, alpha_pen2=2.0, beta_reg=9.0)), dict(loss=LossParameters(gamma_coherence=2.0)),
           dict(phys=dict(k_inf_asymptote=-0.5)), dict(phys=dict(k_inf_asymptote=-1.2)), dict(phys=dict(domain=torch.logspace(-2, 1, 7))), dict(phys=dict(alpha_low=3.0, alpha_high=-1.0, transition_slope=4.0)),
           dict(phys=dict(wavenumber_conversion_factor=1.0, wavenumber_scale_factor=2.0))]
    for i, o in enumerate(one):
        for base in (dict(eddy="TAUNET", width=3, layers=2), dict(eddy="TAUNET", width=2, layers=1, learn_nu=True, learnable=True)):
            for L, h, u in ((0.6, 2.0, 0.7), (0.3, 0.5, 1.4)):
                ck.case(f"configuration/{i}/{len(base)}/{L}", generator, ck, dict(base, **o), 3, L, h, u, False)
    for w, l in ((1, 1), (1, 3), (12, 1), (9, 4), (20, 3), (3, 7), (33, 2)):
        for nu in (False, True):
            ck.case(f"network/{w}/{l}/{nu}", generator, ck, dict(eddy="TAUNET", width=w, layers=l, learn_nu=nu), 4, 0.6, 1.5, 0.8, False)
    for h, u, L in itertools.product((0.2, 7.0, 60.0), (0.05, 4.0), (0.05, 0.5)):
        ck.case(f"scales/{h}/{u}/{L}", generator, ck, dict(eddy="TAUNET", width=3, layers=2), 5, L if h < 50 else 0.02, h, u, False)
    for o in map("".join, itertools.product("xyXY", repeat=4 if ck.thorough else 3)):
        ck.case(f"alternating/{o}", alternating, ck, o)
    for dt, shape, wrap in itertools.product((torch.float64, torch.float32, torch.float16, torch.int64, torch.bool, torch.complex128), ((), (1,), (0,), (5,), (2, 3), (4, 1, 2)), ("bare", "dict", "views", "module")):
        for grad in (False, True) if dt.is_floating_point or dt.is_complex else (False,):
            if not (grad and wrap == "views") and not (wrap == "views" and len(shape) != 2):
                ck.case(f"unpickled/{dt}/{shape}/{grad}/{wrap}", unpickled, ck, dt, shape, grad, wrap)
    for w in ("gen-missing", "gen-directory", "gen-none", "save-none", "save-path-missing", "save-path-file", "save-str-nested"):
        ck.case(f"reject/{w}", rejects, ck, w)
