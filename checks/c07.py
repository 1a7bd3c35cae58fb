"""C07: every sampling method as a linear map, on a complete basis of noise inputs."""
import itertools

import numpy as np
import scipy.fft as sf

from drdmannturb import GaussianRandomField, MannCovariance, VectorGaussianRandomField, VonKarmanCovariance
from lib import ref
from lib.mc import Mismatch, close, require

LEVEL = "model_checking"
TECH = "bounded-exhaustive enumeration: complete noise bases and all short sampling histories against dense reference transforms"
RULE = (
    "the sampled field is compared with the reference transform on every unit noise vector (a complete basis, so the whole linear "
    "map is covered if it is linear) and on dense fields checking linearity; histories: all orders of samples over three noise "
    "fields with results and noise arrays re-inspected at the end; reseed/noise histories. A state is (method, grid, noise input)."
)
BOUNDS = "fft, fftw, dst, dct on all 27 scalar grids 2..4 cubed plus anisotropic ones, vf_fftw on 8 grids x 2 covariances (complete basis), dense noise and impulses on every axis length 2..24 and 31..33, 64, 65, histories of length 3 (quick; 4 thorough); imaginary (odd) kernels on 5 grids; cells from 1e-6 to 1e5"
ASSUMPTIONS = [
    "scalar kernels with real even spectra; the plain fft variant has no sqrt(N) factor (taken as its stated transform)",
    "tolerance 1e-9 double, 2e-5 single precision (vf_fftw)",
]


class Kernel:
    """A scalar kernel: real, even in k, anisotropic; remembers the wavenumbers it was asked for."""

    def __init__(self, ndim=3):
        self.ndim = ndim
        self.freqs = None

    def precompute_Spectrum(self, F):
        self.freqs = [np.array(f, dtype=float) for f in F]
        k = np.meshgrid(*F, indexing="ij")
        return 1.0 / (1.0 + 0.3 * k[0] ** 2 + 0.9 * k[1] ** 2 + 0.05 * k[2] ** 4)


def axis_mat(n, kind):
    if kind == "dst":
        i = np.arange(1, n + 1)
        return 2 * np.sin(np.pi * np.outer(i, i) / (n + 1))
    i, j = np.arange(n), np.arange(n)
    return 2 * np.cos(np.pi * np.outer(i, 2 * j + 1) / (2 * n))


def scalar_ref(method, noise, S, L, N):
    V = np.sqrt(np.prod(L))
    if method in ("dst", "dct"):
        y = S * noise
        for a in range(3):
            M = axis_mat(noise.shape[a], method)
            y = np.moveaxis(np.tensordot(M, y, axes=(1, a)), 0, a)
        return y / V
    if method == "fft":
        return np.real(np.fft.fftn(S * np.fft.ifftn(noise))) / V
    return np.real(np.fft.ifftn(S * np.fft.fftn(noise))) * np.sqrt(N) / V


def make_scalar(method, level, dims, shape):
    k = Kernel()
    return GaussianRandomField(k, grid_level=np.array(level), grid_shape=np.array(shape), grid_dimensions=np.array(dims), sampling_method=method), k


def freqs(shape, h):
    return [2 * np.pi * np.fft.fftfreq(n, d) for n, d in zip(shape, h)]


def scalar_case(ck, method, level, dims, shape):
    h = np.array(dims) / (2.0 ** np.array(level) + 1)
    g, k = make_scalar(method, level, dims, shape)
    fr = freqs(shape, h)
    for a in range(3):
        close(k.freqs[a], fr[a], f"{method} {shape}: wavenumbers of axis {a}", rtol=1e-12)
    S = Kernel().precompute_Spectrum(fr)
    L = h * np.array(shape)
    N = int(np.prod(shape))
    basis = np.eye(N).reshape((N,) + tuple(shape))
    rs = np.random.RandomState(3)
    extra = [rs.normal(size=shape), rs.uniform(-50, 50, size=shape), np.ones(shape), np.zeros(shape)]
    for i, e in enumerate(list(basis) + extra):
        keep = e.copy()
        out = g.sample(e)
        close(out, scalar_ref(method, e, S, L, N), f"{method} {shape} noise #{i}", rtol=1e-9, atol=1e-12)
        require(np.array_equal(keep, e), f"{method}: supplied noise modified")
        ck.step()
        ck.state(method, shape, i)
    ck.outcome(method, out, g.sample(extra[0]))


def vec_ref(noise, fr, h, kind):
    G = ref.sqrt_tensor(fr, 0.8, 1.3, None if kind == "VK" else ref.mann_beta(fr, 0.8, 0.9))
    return ref.synthesize(G, noise, h)


def make_vec(kind, level, dims, shape):
    cov = VonKarmanCovariance(3, 0.8, 1.3) if kind == "VK" else MannCovariance(3, 0.8, 1.3, 0.9)
    return VectorGaussianRandomField(ndim=3, grid_level=np.array(level), grid_dimensions=np.array(dims), sampling_method="vf_fftw", grid_shape=np.array(shape), Covariance=cov)


def vec_case(ck, kind, level, dims, shape):
    h = np.array(dims) / (2.0 ** np.array(level) + 1)
    g = make_vec(kind, level, dims, shape)
    fr = freqs(shape, h)
    n = int(np.prod(shape)) * 3
    rs = np.random.RandomState(3)
    basis = (np.eye(1, n, i).reshape(tuple(shape) + (3,)) for i in range(n))
    dense = [rs.normal(size=tuple(shape) + (3,)), 1e3 * rs.normal(size=tuple(shape) + (3,)), np.zeros(tuple(shape) + (3,))]
    first = None
    for i, e in enumerate(itertools.chain(basis, dense)):
        keep = e.copy()
        out = g.sample(e)
        w = vec_ref(e, fr, h, kind)
        close(out, w, f"{kind} {shape} noise #{i}", rtol=2e-5, atol=1e-12)
        require(np.array_equal(keep, e), f"{kind}: supplied noise modified")
        if first is None:
            first = (out, out.copy())
        ck.step()
        ck.state("vf", kind, shape, i)
    require(np.array_equal(*first), "an earlier sample was overwritten")
    ck.outcome(kind, out)


def size_case(ck, kind, level, dims, shape):
    h = np.array(dims) / (2.0 ** np.array(level) + 1)
    rs = np.random.RandomState(5)
    vec = kind in ("VK", "Mann")
    full = shape + (3,) if vec else shape
    noises = [rs.normal(size=full), np.zeros(full), np.zeros(full)]
    noises[1][(0,) * len(full)] = 1.0
    noises[2][(-1,) * len(full)] = 1.0
    fr = freqs(shape, h)
    if vec:
        g = make_vec(kind, level, dims, shape)
    else:
        g = make_scalar(kind, level, dims, shape)[0]
        S = Kernel().precompute_Spectrum(fr)
    for i, e in enumerate(noises):
        w = vec_ref(e, fr, h, kind) if vec else scalar_ref(kind, e, S, h * np.array(shape), int(np.prod(shape)))
        close(g.sample(e), w, f"{kind} {shape} noise #{i}", rtol=2e-5 if vec else 1e-8, atol=1e-12)
        ck.step()
        ck.state("size", kind, shape, i)


class OddKernel(Kernel):
    def __init__(self, axis):
        super().__init__()
        self.axis = axis

    def precompute_Spectrum(self, F):
        k = np.meshgrid(*F, indexing="ij")
        return 1j * k[self.axis] * super().precompute_Spectrum(F)


def odd_case(ck, shape, dims, ax):
    lev = np.array((1, 2, 1))
    h = np.array(dims) / (2.0**lev + 1)
    g = GaussianRandomField(OddKernel(ax), grid_level=lev, grid_shape=np.array(shape), grid_dimensions=np.array(dims), sampling_method="fft")
    S = OddKernel(ax).precompute_Spectrum(freqs(shape, h))
    rs = np.random.RandomState(6)
    imp = np.zeros(shape)
    imp[1, 1, 1] = 1.0
    for e in (rs.normal(size=shape), imp):
        close(g.sample(e), scalar_ref("fft", e, S, h * np.array(shape), 1), f"odd kernel {shape}", rtol=1e-9, atol=1e-12)
        ck.step()
    ck.state("odd", shape, dims, ax)


def history(ck, mk, seq, noises, expect, rtol):
    g = mk()
    outs = []
    for i in seq:
        outs.append((i, g.sample(noises[i]), None))
        outs[-1] = (i, outs[-1][1], outs[-1][1].copy())
        ck.step()
    for i, o, c in outs:
        require(np.array_equal(o, c), f"history {seq}: a later sample overwrote an earlier result")
        close(o, expect[i], f"history {seq}: sample of noise {i}", rtol=rtol)
    ck.state("hist", mk.__name__, seq)


def seeding(ck, mk, shape, var, seeds):
    """Noise streams: reseeding reproduces, the stream is the seeded generator's, variance is the cell volume."""
    g = mk()
    for s in seeds:
        g.reseed(s)
        a = [g.sample_noise(), g.sample_noise(), g.sample_noise((2, 3))]
        g.reseed(s)
        b = [g.sample_noise(), g.sample_noise(), g.sample_noise((2, 3))]
        rs = np.random.RandomState(s)
        c = [rs.normal(0, 1, shape) * np.sqrt(var), rs.normal(0, 1, shape) * np.sqrt(var), rs.normal(0, 1, (2, 3)) * np.sqrt(var)]
        for x, y, z in zip(a, b, c):
            require(np.array_equal(x, y), f"reseed({s}) does not reproduce the noise")
            close(x, z, f"noise of seed {s}", rtol=1e-12)
        require(not np.array_equal(a[0], a[1]), "two draws are equal")
        # a sample without noise uses the next draw of the same stream
        g.reseed(s)
        n1 = g.sample_noise()
        w = g.sample(n1)
        g.reseed(s)
        close(g.sample(), w, f"sample() without noise, seed {s}", rtol=1e-9)
        ck.step(5)
        ck.state("seed", mk.__name__, s)
    g.reseed(None)
    x = g.sample_noise()
    g.reseed()
    require(not np.array_equal(x, g.sample_noise()), "unseeded reseed repeats the noise")
    g1, g2 = mk(), mk()
    g1.reseed(5)
    g2.reseed(6)
    x1 = g1.sample_noise()
    g1.reseed(5)
    g2.sample_noise()
    require(np.array_equal(x1, g1.sample_noise()), "two fields share a random stream")


def run(ck):
    shapes = [s for s in itertools.product((2, 3, 4), repeat=3)] + [(6, 3, 2), (2, 7, 3), (5, 2, 8)]
    for method in ("fft", "fftw", "dst", "dct"):
        for i, s in enumerate(shapes):
            dims = [(2.0, 3.0, 5.0), (1.0, 1.0, 1.0), (40.0, 7.0, 0.3)][i % 3]
            lev = [(1, 1, 1), (2, 1, 3), (0, 2, 1)][(i // 3) % 3]
            if method == "dct" and min(s) < 2:
                continue
            ck.case(f"{method}/{s}/{dims}/{lev}", scalar_case, ck, method, lev, dims, s)
    vs = [(2, 2, 2), (3, 3, 3), (4, 3, 2), (3, 4, 5), (5, 2, 4), (2, 3, 6), (6, 4, 3)] + ([(7, 5, 3), (4, 8, 4), (9, 3, 5), (5, 5, 6)] if ck.thorough else [(5, 5, 4)])
    for kind in ("VK", "Mann"):
        for i, s in enumerate(vs):
            ck.case(f"vf_fftw/{kind}/{s}", vec_case, ck, kind, [(1, 1, 1), (2, 1, 3)][i % 2], [(2.0, 3.0, 5.0), (40.0, 7.0, 0.3)][i % 2], s)
    # sizes: dense noise and two impulses on every length of each axis
    sizes = sorted({tuple(np.roll((n, a, b), r)) for n in (*range(2, 25), 31, 32, 33, 64, 65) for a, b in ((3, 4), (2, 5)) for r in range(3)} | {(n,) * 3 for n in range(5, 13)} | {tuple(np.roll((n, n + 1, 3), r)) for n in (8, 9, 15, 16) for r in range(3)})
    for i, s in enumerate(sizes):
        s = tuple(int(x) for x in s)
        for kind in ("VK", "Mann", "fft", "fftw", "dst", "dct"):
            ck.case(f"size/{kind}/{s}", size_case, ck, kind, [(1, 1, 1), (2, 1, 3)][i % 2], [(2.0, 3.0, 5.0), (40.0, 7.0, 0.3)][i % 2], s)
    # histories
    depth = 4 if ck.thorough else 3
    shp, dims, lev = (4, 3, 5), (2.0, 3.0, 5.0), (1, 2, 1)
    h = np.array(dims) / (2.0 ** np.array(lev) + 1)
    rs = np.random.RandomState(0)
    nv = [rs.normal(size=shp + (3,)), np.zeros(shp + (3,)), 100 * rs.normal(size=shp + (3,))]
    for kind in ("VK", "Mann"):
        def mkv():
            return make_vec(kind, lev, dims, shp)
        mkv.__name__ = kind
        ev = [vec_ref(n, freqs(shp, h), h, kind) for n in nv]
        for seq in itertools.product(range(3), repeat=depth):
            ck.case(f"hist/{kind}/{seq}", history, ck, mkv, seq, nv, ev, 2e-5)
    ns = [rs.normal(size=shp), np.zeros(shp), 100 * rs.normal(size=shp)]
    S = Kernel().precompute_Spectrum(freqs(shp, h))
    for method in ("fft", "fftw", "dst", "dct"):
        def mks():
            return make_scalar(method, lev, dims, shp)[0]
        mks.__name__ = method
        es = [scalar_ref(method, n, S, h * np.array(shp), np.prod(shp)) for n in ns]
        for seq in itertools.product(range(3), repeat=depth):
            ck.case(f"hist/{method}/{seq}", history, ck, mks, seq, ns, es, 1e-9)
        for lv, dm in (((1, 2, 1), (2.0, 3.0, 5.0)), ((0, 0, 0), (1.0, 1.0, 1.0)), ((3, 1, 2), (600.0, 90.0, 70.0)), ((1, 0, 2), (6e4, 9e3, 7e5)), ((2, 3, 1), (6e-4, 9e-5, 7e-6))):
            def mk2():
                return make_scalar(method, lv, dm, shp)[0]
            mk2.__name__ = f"{method}{lv}"
            hh = np.array(dm) / (2.0 ** np.array(lv) + 1)
            ck.case(f"seed/{method}/{lv}", seeding, ck, mk2, shp, float(np.prod(hh)), (0, 1, 77, 2**32 - 1))
        # one field object, method changed back and forth
        def switch():
            g = make_scalar(method, lev, dims, shp)[0]
            for other in ("fft", "fftw", "dst", "dct", method):
                g.setSamplingMethod(other)
                close(g.sample(ns[0]), scalar_ref(other, ns[0], S, h * np.array(shp), np.prod(shp)), f"after switching {method}->{other}", rtol=1e-9)
                ck.step()
            for bad in ("", "FFT", "rft", None):
                try:
                    g.setSamplingMethod(bad)
                except Exception:
                    continue
                raise Mismatch(f"unknown method {bad!r} accepted")
        ck.case(f"switch/{method}", switch)
    # a real kernel that is odd in k (a derivative): its spectrum is imaginary, its Nyquist part is not real after the transform
    for s, dm in itertools.product(((2, 3, 4), (4, 4, 4), (5, 3, 3), (3, 6, 5), (8, 2, 7)), ((2.0, 3.0, 5.0), (40.0, 7.0, 0.3))):
        for ax in range(3):
            ck.case(f"odd/{s}/{dm}/{ax}", odd_case, ck, s, dm, ax)
    # scalar grid level
    for lv, n, m in itertools.product((0, 1, 3), (2, 3, 4), ("fft", "fftw", "dst", "dct")):
        def mk3():
            return GaussianRandomField(Kernel(), grid_level=lv, grid_shape=n, sampling_method=m)
        mk3.__name__ = f"scalar{lv}{n}{m}"
        hh = 1.0 / 2**lv
        ck.case(f"scalar-level/{lv}/{n}/{m}", seeding, ck, mk3, (n,) * 3, hh**3, (0, 9))
        def sc():
            g = mk3()
            e = np.random.RandomState(1).normal(size=(n,) * 3)
            SS = Kernel().precompute_Spectrum(freqs((n,) * 3, [hh] * 3))
            close(g.sample(e), scalar_ref(m, e, SS, [hh * n] * 3, n**3), "scalar grid level", rtol=1e-9)
            ck.step()
        ck.case(f"scalar-level-sample/{lv}/{n}/{m}", sc)
    for bad in ("", "FFT", "rft", "vf", None):
        def rej():
            try:
                GaussianRandomField(Kernel(), grid_level=np.array((1, 1, 1)), grid_shape=np.array((2, 2, 2)), grid_dimensions=np.ones(3), sampling_method=bad)
            except Exception:
                return
            raise Mismatch(f"unknown method {bad!r} accepted")
        ck.case(f"reject/{bad}", rej)
