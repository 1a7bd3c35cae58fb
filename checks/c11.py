"""C11: the low-frequency field is the prescribed linear filter of its white noise."""
import itertools

import numpy as np

from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
from lib import ref
from lib.mc import close, close_rel, require

LEVEL = "model_checking"
TECH = "exhaustive injection of a complete noise basis (linear-map identification) and exploration of regeneration histories against a reference filter"
RULE = (
    "on each configuration the noise source is replaced by every unit impulse of the internal grid in turn and the complete response compared with "
    "the reference filter; the accumulated squared responses give the exact ensemble variance, compared with the discrete spectrum; on a wider "
    "configuration lattice the seeded draw is replayed through the reference; every history over generate / interpolate / estimate / predict is "
    "explored with a seeded source. A state is (configuration, impulse) or (configuration, fields generated, last operation)."
)
BOUNDS = "impulse basis complete on 6 (quick) / 12 (thorough) internal grids of 40-640 points; 15 further seeds; lattice 3 psi x 3 z_i x 2 sigma2 x 5 L_2d x 11 grids up to 128x256; histories of length 4 (quick) / 5 over 4 operations on 3 configurations"
ASSUMPTIONS = [
    "the noise is drawn through the object's seeded numpy RandomState in one standard normal array of the internal grid's shape",
    "wavenumbers at the Nyquist index, where a real field cannot carry the odd transfer function, are excluded from the divergence and variance statements",
]


class Scripted:
    """Stands in for the object's RandomState; hands out the scripted arrays."""

    def __init__(self, arr):
        self.arr, self.calls = arr, 0

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.calls += 1
        require(tuple(np.atleast_1d(size)) == self.arr.shape, "noise shape", got=size, want=self.arr.shape)
        return self.arr * scale + loc

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *s):
        return self.normal(size=s)


def cfg(sigma2=0.6, L=10.0, psi=0.7, zi=2.0, f=(2.0, 1.0), e=(3, 2)):
    return dict(sigma2=sigma2, L_2d=L, psi=psi, z_i=zi, L1_factor=f[0], L2_factor=f[1], exp1=e[0], exp2=e[1])


def iso(c):
    return abs(c["L1_factor"] / 2 ** c["exp1"] - c["L2_factor"] / 2 ** c["exp2"]) < 1e-12


def check_extract(ck, c, full, part, what, full_is=None):
    want = ref.lf_extract(c, full)
    if iso(c):
        close(part, want, what, rtol=1e-9)
        return
    d1, d2 = c["L1_factor"] / 2 ** c["exp1"], c["L2_factor"] / 2 ** c["exp2"]
    r1, r2 = d1 / min(d1, d2), d2 / min(d1, d2)
    if part.shape == want.shape and np.allclose(part, want, rtol=0, atol=1e-9 * np.max(np.abs(full))):
        ck.known("anisotropic-spacing", f"{r1:g}:{r2:g}")
        return
    # the physically centred samples, where they fall on internal grid points
    if r1 == int(r1) and r2 == int(r2):
        N1, N2 = 2 ** c["exp1"], 2 ** c["exp2"]
        for s1 in {(full.shape[0] - int(r1) * N1) // 2, (full.shape[0] - int(r1) * (N1 - 1) - 1) // 2}:
            for s2 in {(full.shape[1] - int(r2) * N2) // 2, (full.shape[1] - int(r2) * (N2 - 1) - 1) // 2}:
                w = full[s1 :: int(r1), s2 :: int(r2)][:N1, :N2]
                if w.shape == part.shape and np.allclose(part, w, rtol=0, atol=1e-9 * np.max(np.abs(full))):
                    return
    require(False, f"{what}: neither the central part nor samples at the requested spacing")


def basis(ck, c):
    g = LowFreqGenerator(c, seed=1)
    N1, N2, d = ref.lf_grid(c)
    require((g.comp_N1, g.comp_N2) == (N1, N2), "internal grid", got=(g.comp_N1, g.comp_N2), want=(N1, N2))
    acc = [np.zeros((N1, N2)), np.zeros((N1, N2))]
    Q = ref.lf_filter(c)
    scale = max(float(np.sqrt(np.mean(np.abs(q) ** 2))) for q in Q)
    k1, k2 = np.meshgrid(2 * np.pi * np.fft.fftfreq(N1, d), 2 * np.pi * np.fft.fftfreq(N2, d), indexing="ij")
    inner = np.ones((N1, N2), bool)
    inner[N1 // 2, :] = inner[:, N2 // 2] = False
    for idx in itertools.product(range(N1), range(N2)):
        x = np.zeros((N1, N2))
        x[idx] = 1.0
        g.prng = src = Scripted(x)
        out = g.generate()
        if src.calls == 0:
            ck.add("impulses_not_drawn")
            return
        want = ref.lf_field(c, x)
        full = (g.u1_full, g.u2_full)
        for i in range(2):
            close(full[i], want[i], f"u{i + 1} for noise impulse {idx}", rtol=1e-9, scale=scale)
            acc[i] += np.asarray(full[i]) ** 2
            check_extract(ck, c, full[i], out[i], f"delivered u{i + 1}, impulse {idx}")
            require(np.array_equal(out[i], (g.u1, g.u2)[i]), "returned and stored fields differ")
            require(abs(np.mean(full[i])) < 1e-10 * scale, "field has a mean", got=np.mean(full[i]))
        h1, h2 = np.fft.fft2(full[0]), np.fft.fft2(full[1])
        dv = (k1 * h1 + k2 * h2)[inner]
        require(np.max(np.abs(dv)) < 1e-9 * np.max(np.abs(k1)) * np.max(np.abs(h1)), "not spectrally divergence-free", got=np.max(np.abs(dv)))
        ck.step()
        ck.state(c, idx)
    # exact ensemble variance = sum of the discrete spectrum
    k = np.sqrt(k1**2 + k2**2)
    k[0, 0] = 1
    S = ref.lf_E(c, k1, k2) / (np.pi * k**3) * (2 * np.pi / (N1 * d)) * (2 * np.pi / (N2 * d))
    S[0, 0] = 0
    for i, kk in ((0, k2), (1, k1)):
        s = S * kk**2
        if i == 0:
            s[:, N2 // 2] = 0
        else:
            s[N1 // 2, :] = 0
        close_rel(acc[i], np.full((N1, N2), s.sum()), f"ensemble variance of component {i + 1}", rtol=1e-8)
    ck.outcome(c, acc[0][0, 0], acc[1][0, 0])


def replay(ck, c, seed):
    g = LowFreqGenerator(c, seed=seed)
    close_rel(g.c * 2 * ref.lf_shape_integral(c["L_2d"], c["z_i"]), c["sigma2"], "spectrum amplitude", rtol=1e-6)
    rs = np.random.RandomState(seed)
    for n in range(2):
        x = rs.normal(0, 1, size=ref.lf_grid(c)[:2])
        out = g.generate()
        want = ref.lf_field(c, x)
        for i in range(2):
            close((g.u1_full, g.u2_full)[i], want[i], f"field {n + 1} u{i + 1}", rtol=1e-6)
            check_extract(ck, c, (g.u1_full, g.u2_full)[i], out[i], f"delivered field {n + 1} u{i + 1}")
        ck.step()
    # amplitude scales with the square root of the variance, direction with psi -> pi/2 - psi and swapped axes is symmetric
    h = LowFreqGenerator(dict(c, sigma2=4 * c["sigma2"]), seed=seed)
    h.generate()
    g2 = LowFreqGenerator(c, seed=seed)
    g2.generate()
    close(h.u1_full, 2 * g2.u1_full, "variance scaling", rtol=1e-9)
    ck.state("lattice", c)
    ck.outcome(out[0])


def unseeded(ck, c):
    # without a seed numpy's global source is used: reseeding it reproduces, not reseeding does not
    np.random.seed(5)
    a = np.array(LowFreqGenerator(c).generate())
    np.random.seed(5)
    g = LowFreqGenerator(c)
    b = np.array(g.generate())
    b2 = np.array(g.generate())
    require(np.array_equal(a, b), "global seed reproduces")
    require(not np.allclose(b, b2), "regenerating gave the same field")
    ck.step(3)
    ck.state("unseeded", c)


def history(ck, name, c, fields, hist):
    g = LowFreqGenerator(c, seed=3)
    n = 0
    held = []
    for i, op in enumerate(hist):
        what = ".".join(hist[: i + 1])
        if op == "g":
            out = g.generate()
            for j in range(2):
                close(out[j], fields[n][j], f"after {what}: u{j + 1}", rtol=1e-12)
            held.append((out, [np.array(o) for o in out]))
            n += 1
        elif n == 0:
            pass
        elif op == "i":
            g.interp_slice(np.linspace(-1, g.user_L1, 5), np.linspace(0, g.user_L2, 3))
        elif op == "s":
            g.compute_spectrum()
        elif op == "a":
            g.analytical_spectrum(np.array([0.05]))
        for out, keep in held:
            require(all(np.array_equal(o, k) for o, k in zip(out, keep)), f"after {what}: an earlier returned field changed")
        if n:
            require(np.array_equal(g.u1, fields[n - 1][0]) and np.array_equal(g.u2, fields[n - 1][1]), f"after {what}: stored field")
        ck.step()
        ck.state(name, n, op)


BASIS = [
    cfg(e=(2, 1)),
    cfg(psi=0.25, e=(1, 1), f=(1.0, 1.0)),
    cfg(psi=1.3, zi=0.5, e=(2, 2), f=(3.0, 3.0)),
    cfg(e=(3, 1), f=(8.0, 2.0), L=700.0, zi=120.0),
    cfg(e=(2, 2), f=(2.0, 1.0), sigma2=2.5),  # anisotropic 2:1
    cfg(e=(1, 3), f=(1.0, 6.0), psi=np.pi / 4),
]
MORE = [
    cfg(e=(3, 2), f=(2.0, 1.0)), cfg(e=(2, 3), f=(4.0, 8.0), psi=1.1), cfg(e=(2, 2), f=(5.0, 5.0)), cfg(e=(4, 3), f=(6.0, 3.0)),
    cfg(e=(1, 2), f=(3.0, 2.0)), cfg(e=(2, 2), f=(1.3, 1.3), L=15000.0, zi=500.0, psi=np.deg2rad(43)),
]
GRIDS = [((2.0, 1.0), (3, 2)), ((5.0, 5.0), (3, 3)), ((8.0, 2.0), (4, 2)), ((1.0, 4.0), (2, 4)), ((2.0, 2.0), (3, 2)), ((7.0, 0.5), (5, 1)), ((2.0, 32.0), (2, 6)), ((1.0, 14.0), (2, 5)), ((30.0, 2.0), (6, 2)), ((16.0, 4.0), (8, 6)), ((6.0, 12.0), (7, 8))]


def run(ck):
    from lib.mc import quiet
    for i, c in enumerate(BASIS + (MORE if ck.thorough else [])):
        ck.case(f"basis/{i}", basis, ck, c)
    for f, e in GRIDS:
        for psi, rz, s2, L in itertools.product((0.2, np.pi / 4, 1.4), (0.01, 0.1, 2.0), (0.5, 3.0), (0.02, 1.0, 700.0, 15000.0, 2e5)):
            c = cfg(s2, L, psi, rz * L, f, e)
            ck.case(f"lattice/{f}/{e}/{psi:.2f}/{rz}/{s2}/{L}", replay, ck, c, 0 if s2 > 1 else 11)
    for e, f in itertools.product(((0, 2), (3, 0), (0, 0), (1, 1), (0, 5), (6, 1)), ((1.0, 1.0), (8.0, 2.0), (5.0, 7.0))):
        c = cfg(0.5, 10.0, 0.6, 2.0, f, e)
        if np.prod(ref.lf_grid(c)[:2]) < 3e5:
            ck.case(f"sizes/{f}/{e}", replay, ck, c, 5)
    for s in (1, 2, 3, 42, 99, 100, 255, 256, 1000, 1001, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1):
        ck.case(f"seeds/{s}", replay, ck, cfg(f=(2.0, 2.0), e=(3, 2)), s)
    for name, c in {"iso": cfg(), "big": cfg(f=(8.0, 2.0), e=(4, 2)), "aniso": cfg(f=(2.0, 2.0), e=(3, 2))}.items():
        ck.case(f"unseeded/{name}", unseeded, ck, c)
        depth = 5 if ck.thorough else 4
        with quiet():
            h = LowFreqGenerator(c, seed=3)
            fields = [[np.array(o) for o in h.generate()] for _ in range(depth)]
        for hist in itertools.product("gisa", repeat=depth):
            if "g" in hist:
                ck.case(f"history/{name}/{'.'.join(hist)}", history, ck, name, c, fields, hist)
