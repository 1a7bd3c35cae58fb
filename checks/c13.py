"""C13: estimated and theoretical low-frequency spectra."""
import itertools

import numpy as np

from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
from lib import ref
from lib.mc import close, close_rel, expect_raises, require

LEVEL = "model_checking"
TECH = "exhaustive injection of a Fourier basis of fields (quadratic-form identification), lattice enumeration of the theoretical integrals, and exploration of call histories"
RULE = (
    "the estimator is a quadratic form of the field: it is evaluated on generated fields and, through the public field attributes, on every single "
    "Fourier mode of the requested grid (cosine and sine) and on all pairs of modes sharing a streamwise wavenumber, and compared with an independent "
    "periodogram; the theoretical spectra are compared on a lattice of wavenumbers, limits and parameters with an independent quadrature; all "
    "histories of generate/estimate/predict up to the bound. A state is (grid, mode) / (parameters, wavenumber, limit) / (history prefix)."
)
BOUNDS = "every Fourier mode of grids 2x2..8x8 (thorough 16x8); 10 grids x 3 regenerations; theoretical: 24 parameter sets x 23 wavenumbers x 6 limits; histories of length 4 over 4 operations; length scales to 1e6"
ASSUMPTIONS = ["the wavenumbers returned are the positive ones of the requested grid, the highest included; no statement about the value at the highest", "theoretical spectra within 1e-4 relative (the code integrates adaptively)"]


def cfg(sigma2=0.6, L=10.0, psi=0.7, zi=2.0, f=(2.0, 1.0), e=(3, 2)):
    return dict(sigma2=sigma2, L_2d=L, psi=psi, z_i=zi, L1_factor=f[0], L2_factor=f[1], exp1=e[0], exp2=e[1])


def periodogram(u, L1):
    """One-sided wavenumber n=1..N1/2-1: (L1/2pi) * sum_k2 |U(k1,k2)|^2 with U the normalised Fourier coefficients."""
    N1, N2 = u.shape
    x = np.arange(N1)
    res = []
    for n in range(1, N1 // 2):
        row = np.exp(-2j * np.pi * n * x / N1) @ u / N1  # Fourier coefficient in x at each y
        res.append(np.mean(np.abs(row) ** 2) * L1 / (2 * np.pi))  # Parseval in y
    return np.array(res)


def compare(g, u1, u2, what):
    k, F1, F2 = g.compute_spectrum()
    N1 = u1.shape[0]
    m = N1 // 2 - 1
    require(len(k) == len(F1) == len(F2), f"{what}: lengths")
    require(len(k) == N1 // 2, f"{what}: number of wavenumbers", got=len(k), want=N1 // 2)
    close_rel(k[m:], np.array([np.pi * N1 / g.user_L1]), f"{what}: highest wavenumber", rtol=1e-9)
    close_rel(k[:m], 2 * np.pi * np.arange(1, m + 1) / g.user_L1, f"{what}: wavenumbers", rtol=1e-9)
    require(np.all(np.diff(k) > 0) and np.all(k > 0), f"{what}: wavenumbers not increasing")
    w1, w2 = periodogram(u1, g.user_L1), periodogram(u2, g.user_L1)
    s = max(np.mean(u1**2), np.mean(u2**2)) * g.user_L1
    close(F1[:m], w1, f"{what}: F11", rtol=1e-9, scale=s)
    close(F2[:m], w2, f"{what}: F22", rtol=1e-9, scale=s)
    # integral: mean square of the field at those wavenumbers (both signs)
    for F, u in ((F1, u1), (F2, u2)):
        h = np.fft.fft(u, axis=0)
        h[0] = 0
        h[N1 // 2] = 0
        var = np.mean(np.real(np.fft.ifft(h, axis=0)) ** 2)
        dk = 2 * np.pi / g.user_L1
        require(abs(2 * np.sum(F[:m]) * dk - var) <= 1e-9 * max(var, np.mean(u**2)), f"{what}: integral is not the variance", got=2 * np.sum(F[:m]) * dk, want=var)
    return np.concatenate([F1[:m], F2[:m]])


def modes(ck, c):
    g = LowFreqGenerator(c, seed=2)
    g.generate()
    N1, N2 = g.u1.shape
    X, Y = np.meshgrid(np.arange(N1) / N1, np.arange(N2) / N2, indexing="ij")
    for n1, n2, ph in itertools.product(range(N1), range(N2), (0.0, np.pi / 2)):
        a = 1.5 * np.cos(2 * np.pi * (n1 * X + n2 * Y) + ph)
        b = 0.7 * np.cos(2 * np.pi * (n1 * X + ((n2 + 1) % N2) * Y) - ph) + 0.1 * (n1 % 3) * np.cos(2 * np.pi * n1 * X)
        g.u1, g.u2 = a.copy(), b.copy()
        ck.outcome(compare(g, a, b, f"mode ({n1},{n2},{ph:.1f})"))
        require(np.array_equal(g.u1, a) and np.array_equal(g.u2, b), "estimating changed the field")
        ck.step()
        ck.state("mode", c, n1, n2, ph)


def estimated(ck, c, seed):
    g = LowFreqGenerator(c, seed=seed)
    expect_raises(RuntimeError, g.compute_spectrum, "estimating before generating")
    for n in range(3):
        g.generate()
        u1, u2 = g.u1.copy(), g.u2.copy()
        f1 = g.u1_full.copy()
        a = compare(g, u1, u2, f"field {n + 1}")
        b = compare(g, u1, u2, f"field {n + 1} again")
        require(np.allclose(a, b, rtol=1e-12), "estimating twice differs")
        require(np.array_equal(u1, g.u1) and np.array_equal(u2, g.u2) and np.array_equal(f1, g.u1_full), "estimating changed the field")
        ck.step()
    ck.state("est", c, seed)
    ck.outcome(a)


def theory_ref(c, k1, lim):
    """Trapezoid in a sinh-graded variable, both halves by symmetry."""
    s0 = 1e-3 / c["L_2d"]
    t = np.linspace(0.0, np.arcsinh(abs(lim) / s0), 40001)
    k2 = s0 * np.sinh(t)
    jac = s0 * np.cosh(t)
    k = np.sqrt(k1**2 + k2**2)
    E = ref.lf_E(c, k1, k2) / (np.pi * k**3)
    return 2 * np.trapezoid(E * k2**2 * jac, t), 2 * np.trapezoid(E * k1**2 * jac, t)


def theory(ck, c):
    g = LowFreqGenerator(c, seed=1)
    k = np.array([0.0, 1e-8, 1e-5, 1e-3, 0.03, 0.3, 1.0, 4.0, 30.0, 400.0, 5e3, 6e4]) / c["L_2d"]
    ks = np.concatenate([-k[:0:-1], k])
    for lim in (5.0, 0.2, 40.0 / c["L_2d"], -2.0, 3e4 / c["L_2d"], 800.0):
        arg = ks.copy()
        F = g.analytical_spectrum(arg) if lim == 5.0 else g.analytical_spectrum(arg, k2_limit=lim)
        require(np.array_equal(arg, ks), "wavenumbers modified")
        W = np.array([theory_ref(c, x, lim) if x != 0 else (0.0, 0.0) for x in ks]).T
        for i in range(2):
            require(F[i].shape == ks.shape, "shape", got=F[i].shape)
            close_rel(F[i], W[i], f"F{i + 1}{i + 1} limit {lim:g}", rtol=1e-4, atol=1e-14 * np.max(W[i]))
            close_rel(F[i], F[i][::-1], f"F{i + 1}{i + 1} even", rtol=1e-6, atol=1e-14 * np.max(W[i]))
            require(F[i][len(k) - 1] == 0.0, "zero at zero wavenumber", got=F[i][len(k) - 1])
        # each value depends on its own wavenumber only
        for j in (1, len(ks) - 1):
            for i in range(2):
                one = g.analytical_spectrum(ks[j : j + 1], lim)[i][0]
                close_rel(one, F[i][j], "single wavenumber", rtol=1e-9, atol=1e-12)
        ck.step(len(ks))
        for x in ks:
            ck.state("th", c, float(x), lim)
    ints = np.array([1, 2]) if c["L_2d"] <= 1 else None
    if ints is not None:
        for a, b in zip(g.analytical_spectrum(ints), g.analytical_spectrum(ints.astype(float))):
            close_rel(a, b, "integer wavenumbers", rtol=1e-12)
    require(g.u1 is None, "predicting generated a field")
    ck.outcome(F[0], F[1])


def consistency(ck, c):
    """Exact ensemble mean of the estimate on an internal grid equal to the requested one: the lateral sum of the discrete spectrum."""
    N1, N2, d = ref.lf_grid(c)
    g = LowFreqGenerator(c, seed=1)
    require((g.comp_N1, g.comp_N2) == (g.user_N1, g.user_N2) == (N1, N2), "grid", got=(g.comp_N1, g.user_N1))
    tot = np.zeros(N1 // 2 - 1), np.zeros(N1 // 2 - 1)
    for idx in itertools.product(range(N1), range(N2)):
        x = np.zeros((N1, N2))
        x[idx] = 1
        g.u1, g.u2 = ref.lf_field(c, x)
        _, F1, F2 = g.compute_spectrum()
        tot[0][:] += F1[: N1 // 2 - 1]
        tot[1][:] += F2[: N1 // 2 - 1]
        ck.step()
        ck.state("cons", c, idx)
    k2 = 2 * np.pi * np.fft.fftfreq(N2, d)
    for m in range(1, N1 // 2):
        k1 = 2 * np.pi * m / (N1 * d)
        k = np.sqrt(k1**2 + k2**2)
        E = ref.lf_E(c, k1, k2) / (np.pi * k**3) * (2 * np.pi / (N2 * d))
        w1 = np.sum(np.where(np.arange(N2) == N2 // 2, 0.5, 1.0) * E * k2**2)
        close_rel(tot[1][m - 1], np.sum(E * k1**2), f"ensemble F22 at {m}", rtol=1e-8)
        lo = np.sum(np.where(np.arange(N2) == N2 // 2, 0.0, 1.0) * E * k2**2)
        hi = np.sum(E * k2**2)
        require(lo * (1 - 1e-8) <= tot[0][m - 1] <= hi * (1 + 1e-8), f"ensemble F11 at {m}", got=tot[0][m - 1], want=w1)


def history(ck, c, fields, hist):
    g = LowFreqGenerator(c, seed=3)
    n = 0
    for i, op in enumerate(hist):
        what = ".".join(hist[: i + 1])
        if op == "g":
            g.generate()
            n += 1
        elif op == "s":
            if n == 0:
                expect_raises(RuntimeError, g.compute_spectrum, f"{what}: estimating before generating")
            else:
                compare(g, *fields[n - 1], what)
        elif op == "a":
            F = g.analytical_spectrum(np.array([0.05]))
            W = theory_ref(c, 0.05, 5.0)
            close_rel([F[0][0], F[1][0]], W, what, rtol=1e-4)
        else:
            g.c
            g.analytical_spectrum(np.array([0.0, 0.3]), 0.1, False)
        if n:
            require(np.array_equal(g.u1, fields[n - 1][0]) and np.array_equal(g.u2, fields[n - 1][1]), f"{what}: field changed")
        ck.step()
        ck.state("hist", n, hist[: i + 1])


GR = [((2.0, 1.0), (3, 2)), ((5.0, 5.0), (3, 3)), ((8.0, 2.0), (4, 2)), ((1.0, 4.0), (2, 4)), ((2.0, 2.0), (3, 2)), ((7.0, 0.5), (5, 1)), ((6.0, 6.0), (5, 5)), ((3.0, 5.0), (1, 3)), ((40.0, 5.0), (6, 3)), ((1.0, 0.125), (4, 1)), ((12.0, 3.0), (8, 2)), ((2.0, 1.0), (10, 1)), ((1.0, 20.0), (2, 8))]


def run(ck):
    from lib.mc import quiet
    for e in itertools.product(range(1, 4), range(1, 4)):
        ck.case(f"modes/{e}", modes, ck, cfg(f=(2.0, 3.0), e=e))
    if ck.thorough:
        ck.case("modes/(4, 3)", modes, ck, cfg(f=(6.0, 3.0), e=(4, 3)))
    for (f, e), L, s in itertools.product(GR, (1.0, 700.0, 15000.0), (0, 4)):
        ck.case(f"est/{f}/{e}/{L}/{s}", estimated, ck, cfg(L=L, zi=L / 30, f=f, e=e), s)
    for (f, e), L in itertools.product(GR, (1e-3, 1e5, 1e6)):
        ck.case(f"est/{f}/{e}/{L}", estimated, ck, cfg(L=L, zi=L / 30, f=f, e=e), 1)
    for L, psi, rz, s2 in itertools.product((1.0, 30.0, 3000.0, 15000.0), (0.2, np.pi / 4, 1.3), (0.03, 0.5), (1.0,) if not ck.thorough else (0.4, 2.0)):
        ck.case(f"theory/{L}/{psi:.2f}/{rz}/{s2}", theory, ck, cfg(s2, L, psi, rz * L))
    for f, e in (((5.0, 5.0), (3, 3)), ((10.0, 5.0), (4, 3)), ((6.0, 12.0), (2, 3))):
        ck.case(f"cons/{f}/{e}", consistency, ck, cfg(f=f, e=e, L=20.0))
    c = cfg()
    with quiet():
        h = LowFreqGenerator(c, seed=3)
        fields = [tuple(np.array(o) for o in h.generate()) for _ in range(5)]
    for hist in itertools.product("gsar", repeat=5 if ck.thorough else 4):
        ck.case(f"history/{'.'.join(hist)}", history, ck, c, fields, hist)
