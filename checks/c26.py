"""C26: configuration objects, all field subsets, containers, pairs of instances, and the advertised names."""
import copy
import importlib
import itertools
import math
import pickle
import pkgutil

import numpy as np
import torch

from lib.mc import expect_raises, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of field subsets, call conventions, container kinds and lengths, and of all two-object histories, against a table of documented defaults"
RULE = (
    "each configuration class is constructed with every subset of its fields overridden (by keyword) and every prefix (positionally) and every attribute compared with the override or "
    "the documented default; every history of constructing, changing in place and re-reading two objects is replayed against two independent dictionaries; domain descriptions are "
    "built from every container kind and length; every advertised name of every module is resolved. A state is (class, subset) or (class, history)."
)
BOUNDS = "all field subsets (up to 4096 per class); all positional prefixes; 5 container kinds x lengths 0..5 for both arguments; all histories of length 4 over {construct, change in place, assign, read} on two objects; all modules of the package"
ASSUMPTIONS = ["defaults as documented in the class docstrings and signatures of the pinned version"]


def table():
    from drdmannturb import parameters as P
    from drdmannturb.enums import EddyLifetimeType as E

    alt_domain = torch.linspace(1, 2, 5)
    act = torch.nn.GELU()
    return {
        "ProblemParameters": (P.ProblemParameters, {}, dict(
            num_components=(4, 3), learning_rate=(0.1, 0.7), tol=(1e-3, 1e-9), nepochs=(10, 77), init_with_noise=(False, True), noise_magnitude=(1e-3, 0.4),
            eddy_lifetime=(E.TAUNET, E.MANN), wolfe_iter_count=(20, 3), learn_nu=(False, True), use_learnable_spectrum=(False, True),
            p_exponent=(4.0, 3.1), q_exponent=(17.0 / 6.0, 2.2))),
        "PhysicalParameters": (P.PhysicalParameters, dict(L=0.7, Gamma=3.2, sigma=0.05), dict(
            Uref=(10.0, 21.0), zref=(1.0, 90.0), ustar=(1.0, 1.7), k_inf_asymptote=(-2 / 3, -0.4), alpha_low=(4.0, 2.0), alpha_high=(-5 / 3, -1.1),
            transition_slope=(17 / 3, 5.0), wavenumber_conversion_factor=(1 / (2 * math.pi), 1.0), wavenumber_scale_factor=(1.0, 2.5), domain=(torch.logspace(-1, 2, 20), alt_domain))),
        "LossParameters": (P.LossParameters, {}, dict(
            alpha_pen1=(0.0, 1.5), alpha_pen2=(0.0, 0.25), beta_reg=(0.0, 1e-5), gamma_coherence=(0.0, 3.0), auto_balance_losses=(False, True), balance_freq=(10, 4))),
        "NNParameters": (P.NNParameters, {}, dict(
            nlayers=(2, 4), input_size=(3, 5), hidden_layer_size=(10, 32), hidden_layer_sizes=([], [7, 8]), activations=([], [act, act]), output_size=(3, 2))),
        "LowFreqParameters": (P.LowFreqParameters, {}, dict(
            L_2D=(15000.0, 900.0), sigma2=(0.6, 2.0), z_i=(500.0, 80.0), psi_degs=(43.0, 20.0), c=(None, 0.3))),
        "IntegrationParameters": (P.IntegrationParameters, {}, dict(
            ops_log_min=(-3.0, -2.0), ops_log_max=(3.0, 1.5), ops_num_points=(100, 12), coh_log_min=(-3.0, -1.0), coh_log_max=(3.0, 2.0), coh_num_points=(100, 9))),
    }


def eq(a, b):
    if torch.is_tensor(a) or torch.is_tensor(b):
        return torch.is_tensor(a) and torch.is_tensor(b) and a.shape == b.shape and torch.allclose(a.double(), b.double(), rtol=1e-6)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return math.isclose(a, b, rel_tol=1e-12)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(x == y for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def check_fields(o, want, what):
    for k, v in want.items():
        require(eq(getattr(o, k), v), f"{what}: field {k}", got=getattr(o, k), want=v)


def subset(ck, name, mask, positional):
    cls, req, fields = table()[name]
    names = list(fields)
    on = [n for i, n in enumerate(names) if mask >> i & 1]
    want = {**req, **{n: fields[n][1 if n in on else 0] for n in names}}
    if positional:
        o = cls(*req.values(), *(fields[n][1] for n in on))
    else:
        o = cls(**req, **{n: fields[n][1] for n in reversed(on)})
    check_fields(o, want, f"{name}({','.join(on)})")
    ck.step()
    ck.state(name, mask, positional)
    if mask.bit_count() <= 1 or ck.thorough:
        for how in ("pickle", "copy"):
            c = pickle.loads(pickle.dumps(o)) if how == "pickle" else copy.deepcopy(o)
            if "activations" in want:
                require(len(c.activations) == len(want["activations"]), "activations survive")
                check_fields(c, {k: v for k, v in want.items() if k != "activations"}, f"{name} after {how}")
            else:
                check_fields(c, want, f"{name} after {how}")
    ck.outcome(name, mask)


def bad_field(ck, name):
    cls, req, fields = table()[name]
    expect_raises(TypeError, lambda: cls(**req, no_such_field=1), f"{name}: unknown field")
    for missing in req:
        expect_raises(TypeError, lambda: cls(**{k: v for k, v in req.items() if k != missing}), f"{name} without {missing}")
    ck.step()
    ck.state("bad", name)


def pair_history(ck, name, hist):
    """Two objects A, B; upper case acts on A, lower case on B: c construct, m change mutable fields in place, s assign all, r read."""
    cls, req, fields = table()[name]
    objs, model = {}, {}
    for i, op in enumerate(hist):
        who, act = ("A" if op.isupper() else "B"), op.lower()
        if act == "c":
            objs[who] = cls(**req)
            model[who] = {**req, **{n: copy.deepcopy(f[0]) for n, f in fields.items()}}
        elif who not in objs:
            return
        elif act == "m":
            for n, f in fields.items():
                v, m = getattr(objs[who], n), model[who][n]
                if isinstance(v, list):
                    v.append(42)
                    m.append(42)
                elif torch.is_tensor(v):
                    v.mul_(3.0)
                    m.mul_(3.0)
        elif act == "s":
            for n, f in fields.items():
                setattr(objs[who], n, f[1])
                model[who][n] = copy.deepcopy(f[1]) if not isinstance(f[1], list) else list(f[1])
                if isinstance(f[1], list):
                    setattr(objs[who], n, list(f[1]))
                elif torch.is_tensor(f[1]):
                    setattr(objs[who], n, f[1].clone())
        for w in objs:
            check_fields(objs[w], model[w], f"{name} {w} after {'.'.join(hist[: i + 1])}")
        ck.step()
        ck.state(name, hist[: i + 1])


CONTAINERS = {
    "tuple": tuple,
    "list": list,
    "array": lambda x: np.array(x),
    "float array": lambda x: np.array(x, dtype=float),
    "strided": lambda x: np.array([y for v in x for y in (v, -1)])[::2] if len(x) else np.array([]),
}


def domain_case(ck, kd, kl, nd, nl, kw):
    from drdmannturb.parameters import DomainParameters

    dims, lev = [12.5, 7.0, 3.25, 9.0, 1.0][:nd], [4, 5, 3, 2, 1][:nl]
    a, b = CONTAINERS[kd](dims), CONTAINERS[kl](lev)
    mk = (lambda: DomainParameters(d_dimensions=a, d_levels=b)) if kw else (lambda: DomainParameters(a, b))
    if nd != 3 or nl != 3:
        expect_raises(ValueError, mk, f"dimensions of length {nd}, levels of length {nl}")
    else:
        o = mk()
        for got, src, want, nm in ((o.grid_dimensions, a, dims, "dimensions"), (o.grid_levels, b, lev, "levels")):
            require(isinstance(got, np.ndarray) and got.shape == (3,) and np.array_equal(got, want), f"{nm}", got=got, want=want)
            if isinstance(src, (list, np.ndarray)):
                src[0] = -77
                require(np.array_equal(got, want), f"{nm} follow the caller's object")
        require(np.array_equal(o.grid_dimensions, dims) and np.array_equal(o.grid_levels, lev), "changed later")
        o2 = DomainParameters(tuple(dims), tuple(lev))
        o2.grid_dimensions[0] = 1e9
        require(np.array_equal(o.grid_dimensions, dims), "two domains share memory")
    ck.step()
    ck.state("domain", kd, kl, nd, nl, kw)


def names(ck, mod):
    m = importlib.import_module(mod)
    for n in getattr(m, "__all__", []):
        require(hasattr(m, n), f"{mod}.__all__ lists {n}, which cannot be imported")
        ck.step()
    ns = {}
    exec(f"from {mod} import *", ns)  # noqa: S102
    ck.state("names", mod)


USER_API = (
    "CalibrationProblem CustomDataLoader EddyLifetimeType FluctuationFieldGenerator GaussianRandomField IntegrationParameters LossAggregator LossParameters "
    "MannCovariance MannEddyLifetime Mann_linear_exponential_approx NNCovariance NNParameters OnePointSpectra PhysicalParameters ProblemParameters Rational TauNet "
    "VKEnergySpectrum VectorGaussianRandomField VonKarmanCovariance create_grid format_wind_field generate_kaimal_spectra generate_von_karman_spectra plot_loss_logs "
    "plot_velocity_components plot_velocity_magnitude CPU_Unpickler Covariance Sampling_DCT Sampling_DST Sampling_FFT Sampling_FFTW Sampling_VF_FFTW"
).split()


def api(ck):
    import drdmannturb

    for n in USER_API:
        require(hasattr(drdmannturb, n), f"drdmannturb.{n} cannot be imported")
    E = drdmannturb.EddyLifetimeType
    ms = [E[n] for n in ("TWOTHIRD", "TAUNET", "MANN", "MANN_APPROX", "CONST")]
    require(len(set(ms)) == 5 and len({m.value for m in ms}) == 5, "lifetimes are distinct")
    for m in ms:
        require(pickle.loads(pickle.dumps(m)) is m, "lifetime survives pickling")
    ck.step(len(USER_API))
    ck.state("api")


def run(ck):
    import drdmannturb

    T = table()
    for name, (_, req, fields) in T.items():
        n = len(fields)
        for mask in range(2**n):
            ck.case(f"{name}/{mask}", subset, ck, name, mask, False)
        for i in range(n + 1):
            ck.case(f"{name}/prefix{i}", subset, ck, name, 2**i - 1, True)
        ck.case(f"{name}/bad", bad_field, ck, name)
        for ln in range(2, 6 if ck.thorough else 5):
            for h in itertools.product("CMScms", repeat=ln):
                if h[0] == "C" and "c" in h:
                    ck.case(f"{name}/pair/{''.join(h)}", pair_history, ck, name, h)
    for kd, kl, nd, nl in itertools.product(CONTAINERS, CONTAINERS, range(6), range(6)):
        for kw in (False, True):
            ck.case(f"domain/{kd}/{kl}/{nd}/{nl}/{kw}", domain_case, ck, kd, kl, nd, nl, kw)
    mods = ["drdmannturb"] + [
        m.name for m in pkgutil.walk_packages(drdmannturb.__path__, "drdmannturb.")
        if m.ispkg or m.name.count(".") == 1
    ]
    for m in mods:
        ck.case(f"names/{m}", names, ck, m)
    ck.case("api", api, ck)
