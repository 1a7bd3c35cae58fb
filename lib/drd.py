"""Calibration problems and saved models used by several checks, built through the public API."""
import numpy as np


def make_problem(width=4, layers=2, learn_nu=False, eddy="TAUNET", learnable=False, L=0.7, Gamma=1.2, sigma=0.9,
                 integration=None, ustar=1.0, zref=2.0, Uref=3.0, loss=None, outdir=None, phys=None, **prob):
    from drdmannturb import (CalibrationProblem, EddyLifetimeType, IntegrationParameters, LossParameters, NNParameters,
                             PhysicalParameters, ProblemParameters)

    kw = {} if outdir is None else {"output_directory": outdir}
    return CalibrationProblem(
        nn_params=NNParameters(nlayers=layers, hidden_layer_size=width),
        prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType[eddy], learn_nu=learn_nu,
                                      use_learnable_spectrum=learnable, **prob),
        integration_params=integration or IntegrationParameters(),
        loss_params=loss or LossParameters(),
        phys_params=PhysicalParameters(L=L, Gamma=Gamma, sigma=sigma, ustar=ustar, zref=zref, Uref=Uref, **(phys or {})),
        device="cpu",
        **kw,
    )


def set_weights(pb, seed):
    """Deterministic, visibly non-trivial network weights behind the three scales."""
    v = np.array(pb.parameters, dtype=float)
    w = np.random.RandomState(seed).uniform(-0.6, 0.9, size=len(v))
    v[3:] = w[3:]
    pb.parameters = v.astype(np.asarray(pb.parameters).dtype)
    return v


RELU = lambda x: np.maximum(x, 0.0)  # noqa: E731


def decode(vec, width=4, layers=2, learn_nu=False, eddy="TAUNET", learnable=False, p=4.0, q=17.0 / 6.0):
    """Parameter vector -> dict(L, T, sigma, pq, tau) with tau(kvec) the lifetime without time scale (numpy)."""
    from . import ref

    v = np.asarray(vec, dtype=float)
    L, T, s = np.exp(v[:3])
    i = 3
    pq = None
    if learnable:
        pq = (v[3], v[4])
        i = 5
    if eddy == "TAUNET":
        W = []
        sizes = [3] + [width] * layers + [3]
        for a, b in zip(sizes, sizes[1:]):
            W.append(v[i : i + a * b].reshape(b, a))
            i += a * b
        nu = -1.0 / 3.0
        if learn_nu:
            nu = v[i]
            i += 1
        tau = lambda k: ref.taunet(np.asarray(k) * L, W, [RELU] * layers, nu)  # noqa: E731
    else:
        W = None
        nrm = lambda k: L * np.sqrt(np.sum(np.asarray(k) ** 2, axis=-1))  # noqa: E731
        if eddy == "CONST":
            tau = lambda k: np.ones(np.asarray(k).shape[:-1])  # noqa: E731
        elif eddy == "TWOTHIRD":
            tau = lambda k: nrm(k) ** (-2.0 / 3.0)  # noqa: E731
        elif eddy == "MANN":
            tau = lambda k: ref.mann_tau(nrm(k))  # noqa: E731
        else:
            a, b = ref.mann_approx_coeffs()
            tau = lambda k: np.exp(a * np.log(nrm(k)) + b)  # noqa: E731
    assert i == len(v), (i, len(v))
    return dict(L=L, T=T, sigma=s, pq=pq, tau=tau, weights=W)


# ---- calibration harness ---------------------------------------------------------------------------
class Recorder:
    """Stand-in for the TensorBoard writer: keeps the scalars, opens no files and starts no threads."""

    log = []

    def __init__(self, *a, **kw):
        self.scalars = []
        Recorder.log.append(self)
        del Recorder.log[:-50]

    def add_scalar(self, tag, value, step=None, *a, **kw):
        self.scalars.append((tag, float(value), step))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None


def no_tensorboard():
    """Replace the writer class wherever the package holds a reference to it (hundreds of problems per run)."""
    import sys

    import torch.utils.tensorboard as tb

    real = tb.SummaryWriter
    for name, m in list(sys.modules.items()):
        if name.startswith("drdmannturb") and getattr(m, "SummaryWriter", None) is real:
            m.SummaryWriter = Recorder
    tb.SummaryWriter = Recorder


def ops_tensor(n, seed, lo=0.2, hi=3.0):
    """Made-up spectra: every entry of the 3x3 tensor different and positive."""
    import torch

    return torch.tensor(np.random.RandomState(seed).uniform(lo, hi, size=(n, 3, 3)))


COMPONENTS = ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))  # model component -> tensor entry


def ref_loss(y, data, k1, theta=None, zref=1.0, a1=0.0, a2=0.0, beta=0.0):
    """Loss without coherence, written independently column by column (torch, differentiable)."""
    import torch

    n, m = y.shape
    tot = 0.0
    ly, ld, lk = torch.log(torch.abs(y)), torch.log(torch.abs(data)), torch.log(k1)
    tot = sum(((ly[:, j] - ld[:, j]) ** 2).sum() for j in range(m)) / (n * m)
    slope = [(ly[:, j + 1] - ly[:, j]) / (lk[j + 1] - lk[j]) for j in range(m - 1)]
    pos = lambda x: torch.where(x > 0, x, torch.zeros_like(x))  # noqa: E731
    if a1:
        tot = tot + a1 * sum((pos(s) ** 2).sum() for s in slope) / (n * (m - 1)) / zref
    if a2:
        curv = [(slope[j + 1] - slope[j]) / (0.5 * (lk[j + 2] - lk[j])) for j in range(m - 2)]
        tot = tot + a2 * sum((pos(c) ** 2).sum() for c in curv) / (n * (m - 2)) / zref**2
    if beta and theta is not None:
        tot = tot + beta * (theta**2).sum() / theta.numel()
    return tot
