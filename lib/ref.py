"""Reference models: plain numpy, written from the documentation and the literature, not from the code's structure."""
from math import ceil

import numpy as np
from scipy.special import hyp2f1


# ---------------------------------------------------------------------------------------------------------
# eddy lifetimes and energy spectra
def mann_tau(kL):
    """Mann (1994) eddy lifetime without the time scale."""
    kL = np.asarray(kL, dtype=float)
    with np.errstate(all="ignore"):
        return kL ** (-2.0 / 3.0) / np.sqrt(hyp2f1(1.0 / 3.0, 17.0 / 6.0, 4.0 / 3.0, -(kL**-2.0)))


def mann_approx_coeffs():
    x = np.log(np.logspace(-3, 3, 50))
    y = np.log(mann_tau(np.logspace(-3, 3, 50)))
    xm, ym = x.mean(), y.mean()
    a = np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2)
    return a, ym - a * xm


def taunet(k, weights, acts, nu):
    """|a|^(nu-2/3) / (1+|a|^2)^(nu/2), a = |k| + NN(|k|) component-wise; weights are (out,in) matrices without bias."""
    x = np.abs(np.asarray(k, dtype=float))
    h = x
    for W, act in zip(weights[:-1], acts):
        h = act(h @ W.T)
    a = x + h @ weights[-1].T
    n = np.sqrt(np.sum(a**2, axis=-1))
    with np.errstate(all="ignore"):
        return n ** (nu - 2.0 / 3.0) / (1.0 + n**2) ** (nu / 2.0)


def vk_like(kL):
    kL = np.asarray(kL, dtype=float)
    return kL ** (-5.0 / 3.0) * (kL / np.sqrt(1 + kL**2)) ** (17.0 / 3.0)


# ---------------------------------------------------------------------------------------------------------
# sheared tensor
def zetas(k1, k2, k3, beta):
    """zeta1, zeta2 of the rapid distortion solution; nan where undefined."""
    with np.errstate(all="ignore"):
        k30 = k3 + beta * k1
        kk0 = k1**2 + k2**2 + k30**2
        kk = k1**2 + k2**2 + k3**2
        s = k1**2 + k2**2
        C1 = beta * k1**2 * (kk0 - 2 * k30**2 + beta * k1 * k30) / (kk * s)
        C2 = k2 * kk0 / s**1.5 * np.arctan2(beta * k1 * np.sqrt(s), kk0 - k30 * k1 * beta)
        return C1 - k2 / k1 * C2, k2 / k1 * C1 + C2


def grid_k(freqs):
    return np.meshgrid(*freqs, indexing="ij")


def sqrt_tensor(freqs, L, E0, beta=None, k1_zero_limit=False, pq=None):
    """G(k) with G xi = i c (D (k0 x xi)); shape (3,3,n1,n2,n3).

    beta: array of Gamma*tau on the grid, or None for the isotropic model. On the plane k1 = 0, where zeta is
    0/0, the implementation uses zeta = 0 (listed as a known finding); the true limit is zeta1 = -beta.
    """
    k1, k2, k3 = grid_k(freqs)
    kk = k1**2 + k2**2 + k3**2
    if beta is None:
        beta = np.zeros_like(kk)
    beta = np.where(kk == 0, 0.0, beta)
    k30 = k3 + beta * k1
    kk0 = k1**2 + k2**2 + k30**2
    c = np.sqrt(E0 * L ** (17 / 3) / (4 * np.pi) / (1 + L**2 * kk0) ** (17 / 6))
    if pq is not None:  # learned exponents: E ~ (kL)^p / (1 + (kL)^2)^q
        with np.errstate(all="ignore"):
            kl = L * np.sqrt(kk0)
            c = np.sqrt(E0 * L ** (5 / 3) / (4 * np.pi) * kl ** pq[0] / (1 + kl**2) ** pq[1] / kk0**2)
            c = np.where(kk0 == 0, 0.0, c)
    z1, z2 = zetas(k1, k2, k3, beta)
    if k1_zero_limit:
        z1 = np.where(k1 == 0, -beta, z1)
        z2 = np.where(k1 == 0, 0.0, z2)
    z1, z2 = np.nan_to_num(z1, posinf=0, neginf=0), np.nan_to_num(z2, posinf=0, neginf=0)
    with np.errstate(all="ignore"):
        z3 = np.where(kk == 0, 0.0, kk0 / np.where(kk == 0, 1.0, kk))
    k0 = (k1, k2, k30)
    out = np.zeros((3, 3) + k1.shape)
    for j in range(3):
        e = [0.0, 0.0, 0.0]
        e[j] = 1.0
        cross = [
            k0[1] * e[2] - k0[2] * e[1],
            k0[2] * e[0] - k0[0] * e[2],
            k0[0] * e[1] - k0[1] * e[0],
        ]
        out[0, j] = c * (cross[0] + z1 * cross[2])
        out[1, j] = c * (cross[1] + z2 * cross[2])
        out[2, j] = c * z3 * cross[2]
    return 1j * out


def mann_beta(freqs, L, Gamma):
    k1, k2, k3 = grid_k(freqs)
    kk = k1**2 + k2**2 + k3**2
    return np.where(kk == 0, 0.0, Gamma * mann_tau(np.sqrt(np.where(kk == 0, 1.0, kk)) * L))


def tensor_phi(k, L, E0, beta):
    """Spectral tensor components from Mann (1994), eq. 3.18 ff., k1 != 0; k is (..., 3). Returns (...,3,3)."""
    k1, k2, k3 = k[..., 0], k[..., 1], k[..., 2]
    k30 = k3 + beta * k1
    kk0 = k1**2 + k2**2 + k30**2
    kk = k1**2 + k2**2 + k3**2
    s = k1**2 + k2**2
    z1, z2 = zetas(k1, k2, k3, beta)
    # E(k0)/(4 pi k0^4)
    A = E0 * L ** (17 / 3) / (4 * np.pi) / (1 + L**2 * kk0) ** (17 / 6)
    P = np.zeros(k.shape[:-1] + (3, 3))
    P[..., 0, 0] = A * (kk0 - k1**2 - 2 * k1 * k30 * z1 + s * z1**2)
    P[..., 1, 1] = A * (kk0 - k2**2 - 2 * k2 * k30 * z2 + s * z2**2)
    P[..., 2, 2] = A * (kk0 / kk) ** 2 * s
    P[..., 0, 1] = P[..., 1, 0] = A * (-k1 * k2 - k1 * k30 * z2 - k2 * k30 * z1 + s * z1 * z2)
    P[..., 0, 2] = P[..., 2, 0] = A * kk0 / kk * (-k1 * k30 + s * z1)
    P[..., 1, 2] = P[..., 2, 1] = A * kk0 / kk * (-k2 * k30 + s * z2)
    return P


# ---------------------------------------------------------------------------------------------------------
# 3D generator
class Layout:
    """Sizes of the padded noise domain."""

    def __init__(self, dims, levels, L, Gamma, blend):
        self.n = 2 ** np.asarray(levels) + 1
        self.h = np.asarray(dims, dtype=float) / self.n
        self.buf = ceil(3 * Gamma * L / self.h[0])
        self.my, self.mz = ceil(L / self.h[1]), ceil(L / self.h[2])
        self.shape = (
            int(self.n[0] + 2 * self.buf + max(0, blend - 1)),
            int(self.n[1] + 2 * self.my),
            int(self.n[2] + 2 * self.mz),
        )

    def freqs(self):
        return [2 * np.pi * np.fft.fftfreq(N, d) for N, d in zip(self.shape, self.h)]

    def window(self, wind):
        nx, ny, nz = (int(v) for v in self.n)
        return wind[self.buf : self.buf + nx, self.my : self.my + ny, 0:nz]


def synthesize(G, noise, h):
    """Real periodic convolution: irfft(G rfft(noise)) * sqrt(N)/sqrt(volume), half-spectrum convention."""
    shape = noise.shape[:3]
    nh = shape[2] // 2 + 1
    nhat = np.fft.rfftn(noise, axes=(0, 1, 2))
    uhat = np.einsum("klxyz,xyzl->xyzk", G[..., :nh], nhat)
    u = np.fft.irfftn(uhat, s=shape, axes=(0, 1, 2))
    vol = np.prod(np.asarray(h) * np.asarray(shape))
    return u * np.sqrt(np.prod(shape)) / np.sqrt(vol)


def raw_blocks(layout, G, seed, nblocks):
    """Un-normalised blocks from one continuous noise stream."""
    rs = np.random.RandomState(seed)
    nx = int(layout.n[0])
    std = np.sqrt(np.prod(layout.h))
    stream = rs.normal(0, 1, layout.shape + (3,)) * std
    out = []
    W = layout.shape[0]
    for b in range(nblocks):
        if b:
            stream = np.concatenate([stream, rs.normal(0, 1, (nx,) + layout.shape[1:] + (3,)) * std])
        out.append(layout.window(synthesize(G, stream[b * nx : b * nx + W], layout.h)))
    return out


def profile(kind, z, zref, uref, z0, a):
    if kind == "LOG":
        return uref * np.log(z / z0 + 1.0) / np.log(zref / z0)
    return uref * (z / zref) ** a


def with_profile(raw, dims, prof):
    """raw block -> unit intensity + mean profile on u."""
    b = raw / np.sqrt(np.mean(raw**2))
    z = np.linspace(0.0, float(dims[2]), raw.shape[2])
    b = b.copy()
    b[..., 0] += profile(prof["windprofiletype"], z, prof["zref"], prof["uref"], prof["z0"], prof.get("plexp"))
    return b


# ---------------------------------------------------------------------------------------------------------
# low-frequency field
def lf_grid(cfg):
    L1, L2 = cfg["L1_factor"] * cfg["L_2d"], cfg["L2_factor"] * cfg["L_2d"]
    N1, N2 = 2 ** cfg["exp1"], 2 ** cfg["exp2"]
    d = min(L1 / N1, L2 / N2)

    def n(t):
        m = int(np.ceil(t / d))
        return max(2, m + m % 2)

    return n(max(L1, 5 * cfg["L_2d"])), n(max(L2, 5 * cfg["L_2d"])), d


def lf_shape_integral(L, zi):
    """int_0^inf kappa^3/(L^-2+kappa^2)^(7/3)/(1+kappa^2 zi^2) dkappa on a log grid (trapezoid, spectral accuracy)."""
    t = np.linspace(-60.0, 60.0, 240001)
    k = np.exp(t) / L
    f = k**4 / ((L**-2.0 + k * k) ** (7.0 / 3.0) * (1 + (k * zi) ** 2))
    return float(np.sum(f) * (t[1] - t[0]))


def lf_E(cfg, k1, k2):
    c = cfg["sigma2"] / (2 * lf_shape_integral(cfg["L_2d"], cfg["z_i"]))
    kap2 = 2 * ((k1 * np.cos(cfg["psi"])) ** 2 + (k2 * np.sin(cfg["psi"])) ** 2)
    return c * kap2**1.5 / ((cfg["L_2d"] ** -2.0 + kap2) ** (7 / 3) * (1 + kap2 * cfg["z_i"] ** 2))


def lf_filter(cfg):
    """Transfer functions (Q1,Q2) on the internal grid."""
    N1, N2, d = lf_grid(cfg)
    k1, k2 = np.meshgrid(2 * np.pi * np.fft.fftfreq(N1, d), 2 * np.pi * np.fft.fftfreq(N2, d), indexing="ij")
    k = np.sqrt(k1**2 + k2**2)
    k[0, 0] = 1.0
    a = np.sqrt(lf_E(cfg, k1, k2) / (np.pi * k**3)) * 2 * np.pi / d
    a[0, 0] = 0.0
    return 1j * a * k2, -1j * a * k1


def lf_field(cfg, noise):
    Q1, Q2 = lf_filter(cfg)
    nh = np.fft.fft2(noise)
    return np.real(np.fft.ifft2(Q1 * nh)), np.real(np.fft.ifft2(Q2 * nh))


def lf_extract(cfg, f):
    N1, N2 = 2 ** cfg["exp1"], 2 ** cfg["exp2"]
    a, b = (f.shape[0] - N1) // 2, (f.shape[1] - N2) // 2
    return f[a : a + N1, b : b + N2]


def bilinear(xs, ys, f, xt, yt):
    """Bilinear interpolation on an increasing grid, zero outside. xt, yt are 1D; result (len(xt), len(yt))."""
    xs, ys = np.asarray(xs, float), np.asarray(ys, float)
    out = np.zeros((len(xt), len(yt)))
    for i, x in enumerate(xt):
        if not (xs[0] <= x <= xs[-1]):
            continue
        a = min(max(int(np.searchsorted(xs, x, side="right")) - 1, 0), len(xs) - 2)
        s = (x - xs[a]) / (xs[a + 1] - xs[a])
        for j, y in enumerate(yt):
            if not (ys[0] <= y <= ys[-1]):
                continue
            b = min(max(int(np.searchsorted(ys, y, side="right")) - 1, 0), len(ys) - 2)
            t = (y - ys[b]) / (ys[b + 1] - ys[b])
            out[i, j] = (
                (1 - s) * (1 - t) * f[a, b] + s * (1 - t) * f[a + 1, b] + (1 - s) * t * f[a, b + 1] + s * t * f[a + 1, b + 1]
            )
    return out


# ---------------------------------------------------------------------------------------------------------
# one-point spectra
EPS_OPS, EPS_COH = 1e-12, 1e-32


def log_grid(lo, hi, n):
    g = np.logspace(lo, hi, n)
    return np.concatenate([-g[::-1], [0.0], g])


def phi_components(k1, k2, k3, beta, L, sigma, pq=None):
    """Six tensor components uu,vv,ww,uw,vw,uv (non-dimensional spectra module), without regularisation."""
    k30 = k3 + beta * k1
    kk0 = k1**2 + k2**2 + k30**2
    kk = k1**2 + k2**2 + k3**2
    s = k1**2 + k2**2
    z1, z2 = zetas(k1, k2, k3, beta)
    kL = L * np.sqrt(kk0)
    e = vk_like(kL) if pq is None else kL ** pq[0] / (1 + kL**2) ** pq[1]
    E = sigma * L ** (5 / 3) * e / (4 * np.pi)
    return [
        E / kk0**2 * (kk0 - k1**2 - 2 * k1 * k30 * z1 + s * z1**2),
        E / kk0**2 * (kk0 - k2**2 - 2 * k2 * k30 * z2 + s * z2**2),
        E / kk**2 * s,
        E / (kk * kk0) * (-k1 * k30 + s * z1),
        E / (kk * kk0) * (-k2 * k30 + s * z2),
        E / kk0**2 * (-k1 * k2 - k1 * k30 * z2 - k2 * k30 * z1 + s * z1 * z2),
    ]


def regularise(P, eps, clamp_cross=True):
    out = [np.where(p < eps, eps, p) for p in P[:3]]
    out.append(np.where(np.abs(P[3]) < eps, eps * np.sign(P[3]), P[3]))
    if clamp_cross:
        out += [np.where(p < eps, eps, p) for p in P[4:]]
    else:
        out += list(P[4:])
    return out


def ops(k1s, grid, tau, L, T, sigma, pq=None, clamp_cross=True):
    """k1 * trapezoid of the tensor over (k2,k3); tau(kvec)->lifetime without time scale. Returns (6, n)."""
    res = np.zeros((6, len(k1s)))
    K2, K3 = np.meshgrid(grid, grid, indexing="ij")
    for i, k1 in enumerate(k1s):
        k = np.stack([np.full_like(K2, k1), K2, K3], axis=-1)
        beta = T * tau(k)
        P = regularise(phi_components(k[..., 0], K2, K3, beta, L, sigma, pq), EPS_OPS, clamp_cross)
        for c in range(6):
            res[c, i] = k1 * np.trapezoid(np.trapezoid(P[c], grid, axis=1), grid)
    return res


def coherence(k1s, seps, grid, tau, L, T, sigma, pq=None):
    K2, K3 = np.meshgrid(grid, grid, indexing="ij")
    res = np.zeros((3, len(seps), len(k1s)))
    for i, k1 in enumerate(k1s):
        k = np.stack([np.full_like(K2, k1), K2, K3], axis=-1)
        beta = T * tau(k)
        P = regularise(phi_components(k[..., 0], K2, K3, beta, L, sigma, pq), EPS_COH)

        def quad(f):
            return np.trapezoid(np.trapezoid(f, grid, axis=1), grid)

        for c in range(3):
            s0 = quad(P[c])
            for j, r in enumerate(seps):
                res[c, j, i] = abs(quad(P[c] * np.exp(1j * K2 * r))) ** 2 / abs(s0) ** 2
    return res
