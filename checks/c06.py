"""C06: square roots of the spectral tensors on signed wavevector lattices."""
import itertools

import numpy as np
import torch

from drdmannturb import MannCovariance, NNCovariance, VonKarmanCovariance
from lib import drd, ref
from lib.mc import Mismatch, close, require

LEVEL = "model_checking"
TECH = "bounded-exhaustive enumeration of wavevector lattices and model parameters against an independent reference tensor"
RULE = (
    "for every parameter set the tensor on the whole signed lattice (axes, planes and zero included) is compared with an "
    "independently written reference: pointwise square-root, product with its conjugate transpose against Mann's closed form, "
    "Hermitian positive semidefinite, annihilated by k, zero at zero, reflection and conjugation symmetries, amplitude scaling, "
    "limit of zero time scale, independence of evaluation order, of the rest of the grid and of earlier evaluations, inputs "
    "unmodified. A state is (parameters, wavevector)."
)
BOUNDS = (
    "11 (quick; 15 thorough) signed values per component over seven decades: 1331 (3375) wavevectors x 4-5 length scales x 6 time scales x 3 "
    "amplitudes for VK and Mann, and x 3 networks x 3 scales for the learned model; FFT grids of 8 shapes, every axis at 15 lengths up to 200, 3 site-scale grids; 12 further length scales x 11 time scales, 6 amplitudes, 7 networks, 12 scale triples; length scales down to 1e-5 and up to 3e4; 12 single-precision networks"
)
ASSUMPTIONS = ["double precision network weights", "tolerances 1e-9 of the tensor's size at the same wavevector (1e-7 across formulas)"]


def lattice(ck):
    pos = [1e-3, 0.05, 0.7, 3.0, 200.0] if not ck.thorough else [1e-3, 1e-2, 0.05, 0.7, 3.0, 41.0, 1e3]
    x = np.array([-v for v in pos[::-1]] + [0.0] + pos)
    y = np.array([0.0] + [-v * 1.1 for v in pos] + [v * 1.1 for v in pos])  # another order, other values
    z = np.array([v * 0.9 for v in pos] + [0.0] + [-v * 0.9 for v in pos[::-1]])
    return [x, y, z]


def size(G):
    return np.sqrt(np.sum(np.abs(G) ** 2, axis=(0, 1)))


def pointwise(got, want, what, rtol):
    s = np.maximum(size(got), size(want))
    err = np.max(np.abs(got - want), axis=(0, 1))
    bad = err > rtol * s + 1e-300
    if bad.any():
        i = np.unravel_index(int(np.argmax(err - rtol * s)), err.shape)
        raise Mismatch(f"{what}: at grid index {i}: got {got[(slice(None), slice(None)) + i].tolist()} want {want[(slice(None), slice(None)) + i].tolist()}")


def phi_of(G):
    return np.einsum("ik...,jk...->...ij", G, np.conj(G))


def structural(fr, G, what):
    require(G.shape == (3, 3) + tuple(len(f) for f in fr), f"{what}: shape", got=G.shape)
    require(np.isfinite(G).all(), f"{what}: not finite")
    k = np.stack(ref.grid_k(fr), axis=-1)
    kn = np.sqrt(np.sum(k**2, -1))
    z = kn == 0
    require(np.all(G[:, :, z] == 0), f"{what}: not zero at zero wavevector")
    P = phi_of(G)
    tr = np.einsum("...ii", P).real
    kP = np.einsum("...i,...ij->...j", k, P)
    bad = np.max(np.abs(kP), -1) > 1e-7 * kn * tr + 1e-300
    require(not bad.any(), f"{what}: k.Phi != 0 at {tuple(map(int, np.argwhere(bad)[0])) if bad.any() else ''}")
    require(np.max(np.abs(P - np.conj(np.swapaxes(P, -1, -2))) / (tr[..., None, None] + 1e-300)) < 1e-12, f"{what}: not Hermitian")
    w = np.linalg.eigvalsh(P / (tr[..., None, None] + 1e-300))
    require(w.min() > -1e-9, f"{what}: not positive semidefinite", got=w.min())
    require(np.all(tr[~z] > 0), f"{what}: vanishes at a non-zero wavevector")
    return P


def reflections(fr, cov, what):
    """Phi(-k) = conj Phi(k); k2 -> -k2 flips the 12 and 23 entries; (k1,k3)->-(k1,k3) likewise."""
    P = phi_of(cov.precompute_Spectrum(fr))
    tr = np.einsum("...ii", P).real[..., None, None] + 1e-300
    Pm = phi_of(cov.precompute_Spectrum([-f for f in fr]))
    require(np.max(np.abs(Pm - np.conj(P)) / tr) < 1e-9, f"{what}: Phi(-k) is not conj Phi(k)")
    R = np.diag([1.0, -1.0, 1.0])
    P2 = phi_of(cov.precompute_Spectrum([fr[0], -fr[1], fr[2]]))
    require(np.max(np.abs(P2 - R @ P @ R) / tr) < 1e-9, f"{what}: lateral reflection symmetry")


def no_memory(fr, cov, G, what):
    """Same values whatever was evaluated before, in whatever order the grid is given, and for sub-grids."""
    copies = [f.copy() for f in fr]
    cov.precompute_Spectrum([f[:2] for f in fr])
    G2 = cov.precompute_Spectrum(fr)
    require(np.array_equal(G, G2), f"{what}: second evaluation differs")
    require(all(np.array_equal(a, b) for a, b in zip(copies, fr)), f"{what}: frequencies modified")
    require(not np.shares_memory(G, G2), f"{what}: result shared between evaluations")
    perm = [np.argsort(-f, kind="stable") for f in fr]
    Gp = cov.precompute_Spectrum([f[p] for f, p in zip(fr, perm)])
    pointwise(Gp, G[:, :, perm[0]][:, :, :, perm[1]][:, :, :, :, perm[2]], f"{what}: permuted grid", 1e-12)
    for s in ((slice(0, 1), slice(None), slice(1, 3)), (slice(2, None, 3), slice(1, 2), slice(None)), (slice(-1, None),) * 3):
        Gs = cov.precompute_Spectrum([f[i] for f, i in zip(fr, s)])
        pointwise(Gs, G[(slice(None), slice(None)) + s], f"{what}: sub-grid {s}", 1e-12)


def compare_mann(ck, G, fr, L, E0, beta, what, fid):
    """Equal to the model; on the plane k1 = 0 the listed deviation is recognised exactly."""
    want = ref.sqrt_tensor(fr, L, E0, beta, k1_zero_limit=True)
    impl = ref.sqrt_tensor(fr, L, E0, beta, k1_zero_limit=False)
    nz = fr[0] != 0
    pointwise(G[:, :, nz], want[:, :, nz], what, 1e-9)
    z = ~nz
    if z.any():
        try:
            # Phi, not the root, is what the model fixes
            A, B = phi_of(G[:, :, z]), phi_of(want[:, :, z])
            s = np.einsum("...ii", B).real[..., None, None] + 1e-300
            if np.max(np.abs(A - B) / s) > 1e-9:
                raise Mismatch("plane k1=0")
        except Mismatch:
            pointwise(G[:, :, z], impl[:, :, z], f"{what} (plane k1=0)", 1e-9)
            ck.known(fid, "on the plane k1=0 the sheared tensor is the unsheared one instead of the limit zeta1 -> -beta")


def vk(ck, fr, L, E0):
    cov = VonKarmanCovariance(ndim=3, length_scale=L, E0=E0)
    G = cov.precompute_Spectrum(fr)
    pointwise(G, ref.sqrt_tensor(fr, L, E0), "VK", 1e-9)
    P = structural(fr, G, "VK")
    k = np.stack(ref.grid_k(fr), axis=-1)
    kk = np.sum(k**2, -1)
    nz = kk > 0
    E = E0 * kk[nz] ** (-5 / 6) * (np.sqrt(kk[nz]) * L / np.sqrt(1 + kk[nz] * L * L)) ** (17 / 3)
    want = (E / (4 * np.pi * kk[nz]))[:, None, None] * (np.eye(3) - k[nz][:, :, None] * k[nz][:, None, :] / kk[nz][:, None, None])
    s = np.einsum("...ii", want)[..., None, None]
    require(np.max(np.abs(P[nz] - want) / s) < 1e-9, "VK: Phi is not E/(4 pi k^2)(delta - kk/k^2)")
    reflections(fr, cov, "VK")
    no_memory(fr, cov, G, "VK")
    G2 = VonKarmanCovariance(ndim=3, length_scale=L, E0=4 * E0).precompute_Spectrum(fr)
    pointwise(G2, 2 * G, "VK: amplitude scaling", 1e-12)
    ck.step(10)
    ck.state("VK", L, E0)
    ck.add("wavevectors", kk.size)
    ck.outcome(G)


def mann(ck, fr, L, E0, T):
    what = f"Mann L={L} Gamma={T}"
    cov = MannCovariance(ndim=3, length_scale=L, E0=E0, Gamma=T)
    G = cov.precompute_Spectrum(fr)
    P = structural(fr, G, what)
    beta = ref.mann_beta(fr, L, T)
    compare_mann(ck, G, fr, L, E0, beta, what, "k1-zero-plane")
    k = np.stack(ref.grid_k(fr), axis=-1)
    nz = k[..., 0] != 0
    W = ref.tensor_phi(k[nz], L, E0, beta[nz])
    s = np.einsum("...ii", W)[..., None, None]
    err = np.max(np.abs(P[nz] - W) / s, initial=0.0)
    require(err < 1e-6, f"{what}: Phi differs from Mann's closed form", err=err)
    reflections(fr, cov, what)
    no_memory(fr, cov, G, what)
    pointwise(MannCovariance(3, L, 9 * E0, T).precompute_Spectrum(fr), 3 * G, f"{what}: amplitude scaling", 1e-12)
    if T == 0:
        pointwise(G, VonKarmanCovariance(3, L, E0).precompute_Spectrum(fr), "zero time scale is not von Karman", 1e-9)
    ck.step(12)
    ck.state("Mann", L, E0, T)
    ck.add("wavevectors", nz.size)
    ck.outcome(G)


def weights(pb):
    return [l.weight.detach().numpy().astype(float) for l in pb.OPS.tauNet.linears]


def learned(ck, fr, net, L, T, E0, h):
    width, layers, seed, nu = net
    what = f"NN {net} L={L} Gamma={T} h={h}"
    pb = drd.make_problem(width=width, layers=layers, learn_nu=nu, L=L, Gamma=T)
    v = drd.set_weights(pb, seed)
    nuv = v[-1] if nu else -1 / 3
    cov = NNCovariance(ndim=3, length_scale=L * h, E0=E0, Gamma=T, ops=pb.OPS, h_ref=h)
    before = pb.parameters.copy()
    G = cov.precompute_Spectrum(fr)
    structural(fr, G, what)
    k = np.stack(ref.grid_k(fr), axis=-1)
    acts = [lambda a: np.maximum(a, 0)] * layers
    cal = T * ref.taunet(k * h * L, weights(pb), acts, nuv)  # lifetime of the calibrated spectra
    imp = T * ref.taunet(k * h, weights(pb), acts, nuv)
    try:
        compare_mann(ck, G, fr, L * h, E0, cal, what, "k1-zero-plane-nn")
    except Mismatch:
        compare_mann(ck, G, fr, L * h, E0, imp, what, "k1-zero-plane-nn")
        ck.known("nn-argument", "the learned lifetime is evaluated at k*h instead of k*h*L")
    reflections(fr, cov, what)
    no_memory(fr, cov, G, what)
    require(np.array_equal(before, pb.parameters), f"{what}: model parameters changed")
    pointwise(NNCovariance(3, L * h, 4 * E0, T, pb.OPS, h).precompute_Spectrum(fr), 2 * G, f"{what}: amplitude scaling", 1e-12)
    ck.step(8)
    ck.state("NN", net, L, T, E0, h)
    ck.outcome(G)


def learned_single(ck, fr, net, L, T, E0, h):
    """A network in single precision (as calibrated with torch's default): same tensor to single precision, network untouched."""
    width, layers, seed, nu = net
    what = f"NN float32 {net} L={L} h={h}"
    pb = drd.make_problem(width=width, layers=layers, learn_nu=nu, L=L, Gamma=T)
    v = drd.set_weights(pb, seed)
    before = [(p.dtype, p.requires_grad, p.detach().clone(), p.data_ptr()) for p in pb.OPS.parameters()]
    k1 = torch.tensor([0.3, 2.0])
    with torch.no_grad():
        y = pb.OPS(k1).clone()
    cov = NNCovariance(ndim=3, length_scale=L * h, E0=E0, Gamma=T, ops=pb.OPS, h_ref=h)
    G = cov.precompute_Spectrum(fr)
    structural(fr, G, what)
    k = np.stack(ref.grid_k(fr), axis=-1)
    acts = [lambda a: np.maximum(a, 0)] * layers
    nuv = float(np.float32(v[-1])) if nu else -1 / 3
    nz = (fr[0] != 0)
    out = []
    for arg in (k * h * L, k * h):
        want = ref.sqrt_tensor(fr, L * h, E0, T * ref.taunet(arg, weights(pb), acts, nuv), k1_zero_limit=False)
        try:
            pointwise(G[:, :, nz], want[:, :, nz], what, 2e-3)
        except Mismatch as e:
            out.append(e)
    if len(out) == 2:
        raise out[0]
    after = [(p.dtype, p.requires_grad, p.detach().clone(), p.data_ptr()) for p in pb.OPS.parameters()]
    require(all(a[:2] == b[:2] and torch.equal(a[2], b[2]) for a, b in zip(before, after)), f"{what}: evaluation changed the network")
    with torch.no_grad():
        require(torch.equal(y, pb.OPS(k1)), f"{what}: evaluation changed the model's spectra")
    ck.step(3)
    ck.state("NN32", net, L, T, E0, h)
    ck.outcome(G)


def own_function(ck, kind, shape, named):
    """A kernel given an evaluation function returns what that function returns for the arguments given."""
    from drdmannturb.fluctuation_generation.covariance_kernels import Covariance, MannCovariance, VonKarmanCovariance

    seen = []

    def f(x, y=2.0, *, z=1.0):
        seen.append((np.array(x), y, z))
        return np.asarray(x) * y + z

    make = {"base": lambda: Covariance(3, func=f), "VK": lambda: VonKarmanCovariance(3, 1.3, 0.7, func=f), "Mann": lambda: MannCovariance(3, 1.3, 0.7, 2.0, func=f)}[kind]
    c = make()
    require(c.ndim == 3, f"{kind}: dimensions", got=c.ndim)
    x = np.arange(np.prod(shape), dtype=float).reshape(shape)
    got = c.eval(x, 3.0, z=0.5) if named else c.eval(x)
    want = x * 3.0 + 0.5 if named else x * 2.0 + 1.0
    require(isinstance(got, np.ndarray) and np.array_equal(got, want), f"{kind}: value of its evaluation function", got=got, want=want)
    require(len(seen) == 1, f"{kind}: evaluated once", got=len(seen))
    ck.state("own", kind, shape, named)


def run(ck):
    for kind, shape, named in itertools.product(("base", "VK", "Mann"), ((1,), (2, 3), (3, 2, 2), (0,)), (False, True)):
        ck.case(f"own/{kind}/{shape}/{named}", own_function, ck, kind, shape, named)
    fr = lattice(ck)
    Ls = (0.05, 0.6, 3.0, 50.0) + ((1e3,) if ck.thorough else ())
    Ts = (0.0, 0.1, 0.7, 1.0, 3.9, 6.0)
    E0s = (1e-3, 1.0, 40.0)
    for L, E0 in itertools.product(Ls, E0s):
        ck.case(f"VK/{L}/{E0}", vk, ck, fr, L, E0)
        for T in Ts:
            ck.case(f"Mann/{L}/{E0}/{T}", mann, ck, fr, L, E0, T)
    # finer parameter lattice on a coarser wavevector lattice
    fc = [f[::2] if 0.0 in f[::2] else np.append(f[::2], 0.0) for f in fr]
    for L in (1e-3, 0.01, 0.2, 0.99, 1.0, 1.01, 7.0, 20.0, 99.0, 101.0, 500.0, 5000.0):
        ck.case(f"fine/VK/{L}", vk, ck, fc, L, 3.2)
        for T in (0.0, 0.01, 0.3, 0.5, 1.5, 2.0, 2.9, 3.3, 5.0, 8.0, 25.0):
            ck.case(f"fine/Mann/{L}/{T}", mann, ck, fc, L, 3.2, T)
    for L in (1e-5, 1e-4, 3e4):
        ck.case(f"fine/VK/{L}", vk, ck, [f / L for f in fc], L, 3.2)
        for T in (0.0, 0.3, 3.9):
            ck.case(f"fine/Mann/{L}/{T}", mann, ck, [f / L for f in fc], L, 3.2, T)
    for E0 in (1e-8, 1e-5, 0.1, 7.0, 300.0, 1e6):
        ck.case(f"fine/VK/E{E0}", vk, ck, fc, 1.7, E0)
        for T in (0.2, 3.9):
            ck.case(f"fine/Mann/E{E0}/{T}", mann, ck, fc, 1.7, E0, T)
    # every axis length, and long axes
    for ax, n in itertools.product(range(3), (2, 7, 9, 10, 15, 17, 31, 32, 33, 48, 64, 65, 100, 129, 200)):
        shp = [3, 3, 3]
        shp[ax] = n
        f = [2 * np.pi * np.fft.fftfreq(m, d) for m, d in zip(shp, (0.9, 0.4, 1.3))]
        ck.case(f"VK/axis{ax}/{n}", vk, ck, f, 2.1, 0.9)
        ck.case(f"Mann/axis{ax}/{n}", mann, ck, f, 2.1, 0.9, 1.1)
    for shp, d, L in (((40, 24, 18), (5.0, 8.0, 7.0), 50.0), ((64, 8, 8), (30.0, 4.0, 2.0), 59.0), ((20, 20, 20), (0.01, 0.01, 0.01), 0.05)):
        f = [2 * np.pi * np.fft.fftfreq(m, x) for m, x in zip(shp, d)]
        ck.case(f"VK/site{shp}", vk, ck, f, L, 0.4)
        ck.case(f"Mann/site{shp}", mann, ck, f, L, 0.4, 3.9)
    # FFT grids (what synthesis uses), including even sizes and single points
    for shp in ((4, 3, 5), (5, 4, 4), (8, 3, 2), (3, 3, 3), (16, 5, 7), (1, 4, 3), (3, 1, 4), (6, 5, 1)):
        f = [2 * np.pi * np.fft.fftfreq(n, d) for n, d in zip(shp, (0.3, 1.1, 0.7))]
        ck.case(f"VK/grid{shp}", vk, ck, f, 0.8, 1.2)
        for T in (0.4, 2.0):
            ck.case(f"Mann/grid{shp}/{T}", mann, ck, f, 0.8, 1.2, T)
    dt = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    try:
        nets = [(4, 2, 1, False), (3, 1, 2, True), (6, 3, 4, False)]
        fs = [f[:: 1 if ck.thorough else 2] for f in fr]
        if 0.0 not in fs[0]:
            fs[0] = np.append(fs[0], 0.0)
        for net, L, T, h in itertools.product(nets, (0.3, 1.5), (0.2, 1.0, 3.0), (0.5, 1.0, 40.0)):
            ck.case(f"NN/{net}/{L}/{T}/{h}", learned, ck, fs, net, L, T, 0.7, h)
        for net in ((10, 2, 5, True), (20, 1, 6, False), (16, 4, 7, False), (1, 1, 8, True)):
            ck.case(f"NN/{net}", learned, ck, fs, net, 0.6, 2.2, 3.2, 10.0)
        for L, h in ((0.05, 120.0), (5.0, 0.1), (0.59, 90.0), (70.0, 1.0)):
            for T, E0 in ((0.01, 1.0), (0.05, 20.0), (6.0, 1e-3)):
                ck.case(f"NN/scale/{L}/{h}/{T}", learned, ck, fs, nets[0], L, T, E0, h)
        f = [2 * np.pi * np.fft.fftfreq(m, x) for m, x in zip((33, 9, 12), (5.0, 8.0, 7.0))]
        for shp, net in (((41, 25, 23), nets[0]), ((64, 32, 16), nets[1])):
            f = [2 * np.pi * np.fft.fftfreq(m, x) for m, x in zip(shp, (5.0, 8.0, 7.0))]
            ck.case(f"NN/large{shp}", learned, ck, f, net, 0.6, 3.9, 0.4, 90.0)
            ck.case(f"Mann/large{shp}", mann, ck, f, 50.0, 0.4, 3.9)
        f = [2 * np.pi * np.fft.fftfreq(m, x) for m, x in zip((33, 9, 12), (5.0, 8.0, 7.0))]
        ck.case("NN/site", learned, ck, f, nets[2], 0.6, 3.9, 0.4, 90.0)
        torch.set_default_dtype(torch.float32)
        for net, L, h in itertools.product(nets, (0.3, 1.5), (1.0, 40.0)):
            ck.case(f"NN/float32/{net}/{L}/{h}", learned_single, ck, fs, net, L, 1.1, 0.7, h)
    finally:
        torch.set_default_dtype(dt)
    for cls in (VonKarmanCovariance, MannCovariance):
        for nd in (1, 2, 4):
            def rej():
                try:
                    cls(ndim=nd, length_scale=1.0, E0=1.0)
                except ValueError:
                    return
                raise Mismatch(f"{cls.__name__} accepts ndim={nd}")
            ck.case(f"reject/{cls.__name__}/{nd}", rej)
