"""C10: internal grid of the low-frequency generator, over a lattice of configurations."""
import copy
import itertools
import math
import warnings

import numpy as np

from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of configurations against the sizing rules stated independently"
RULE = (
    "every configuration of the lattice (length scale x two domain factors x two exponents) is constructed; the sizing rules are checked as "
    "inequalities (contains, isotropic, even, minimal), the wavenumbers and coordinates point by point, and the warning in both directions; "
    "then operations are applied to the object and grid and configuration must not move. A state is (factors, exponents, length scale)."
)
BOUNDS = "length scales {1, 10, 700, 15000, 33333.3} x factors {0.125, 1/3, 1, 2.5, 3, 4.999, 5, 5.001, 7, 40}^2 x exponents {0..6}^2 (quick: 4 length scales, 5 exponents) with internal grids up to 400k points (4M thorough), and 48 long thin grids up to 100000 points"
ASSUMPTIONS = ["relative tolerance 1e-9 on lengths (the code's own absolute tolerance is 1e-9 m)"]
FAC = (0.125, 1 / 3, 1, 2.5, 3, 4.999, 5, 5.001, 7, 40)
TOL = 1e-9


def sizes(L, f1, f2, e1, e2):
    l1, l2 = f1 * L, f2 * L
    d = min(l1 / 2**e1, l2 / 2**e2)
    return max(l1, 5 * L) / d, max(l2, 5 * L) / d


def build(ck, L, f1, f2, e1, e2, ops=False):
    cfg = dict(sigma2=1.3, L_2d=L, psi=0.6, z_i=L / 20, L1_factor=f1, L2_factor=f2, exp1=e1, exp2=e2)
    keep = copy.deepcopy(cfg)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        g = LowFreqGenerator(cfg)
    l1, l2 = f1 * L, f2 * L
    small = l1 < 5 * L or l2 < 5 * L
    warned = any(issubclass(x.category, UserWarning) for x in w)
    require(warned == small, "size warning", warned=warned, domain=(l1, l2), minimum=5 * L)
    require(cfg == keep, "configuration modified", got=cfg)
    u1, u2 = l1 / 2**e1, l2 / 2**e2
    d = min(u1, u2)
    verify(g, L, l1, l2, u1, u2, d, e1, e2)
    ck.step()
    ck.state(L, f1, f2, e1, e2)
    ck.outcome(int(g.comp_N1), int(g.comp_N2))
    if ops:
        g.generate()
        g.interp_slice(np.array([0.0, 1.0]), np.array([0.5]))
        g.compute_spectrum()
        g.analytical_spectrum(np.array([0.1 / L]))
        g.generate()
        verify(g, L, l1, l2, u1, u2, d, e1, e2)
        require(cfg == keep, "configuration modified by use", got=cfg)
        require(g.u1.shape == (2**e1, 2**e2) and g.u2.shape == g.u1.shape, "field shape", got=g.u1.shape)
        ck.step(5)


def verify(g, L, l1, l2, u1, u2, d, e1, e2):
    for ax, (N, Lc, dc, l) in enumerate(((g.comp_N1, g.comp_L1, g.comp_dx, l1), (g.comp_N2, g.comp_L2, g.comp_dy, l2))):
        target = max(l, 5 * L)
        require(N == int(N) and int(N) % 2 == 0 and N >= 2, f"axis {ax}: even number of points", got=N)
        require(abs(dc - d) <= TOL * d, f"axis {ax}: spacing", got=dc, want=d)
        require(abs(Lc - N * d) <= TOL * Lc, f"axis {ax}: length and points disagree", got=Lc, want=N * d)
        require(Lc >= target * (1 - TOL), f"axis {ax}: does not contain the domain or five length scales", got=Lc, want=target)
        require((N - 2) * d < target * (1 + TOL), f"axis {ax}: larger than needed", got=N, target=target / d)
    close_rel([g.user_L1, g.user_L2, g.user_dx, g.user_dy], [l1, l2, u1, u2], "user domain", rtol=1e-12)
    require((g.user_N1, g.user_N2) == (2**e1, 2**e2), "user points", got=(g.user_N1, g.user_N2))
    close_rel(g.user_x_coords, np.arange(2**e1) * u1, "user x coordinates", rtol=1e-12)
    close_rel(g.user_y_coords, np.arange(2**e2) * u2, "user y coordinates", rtol=1e-12)
    for N, kf, kg, ax in ((g.comp_N1, g.k1_fft, g.k1, 0), (g.comp_N2, g.k2_fft, g.k2, 1)):
        i = np.arange(N)
        want = 2 * np.pi * np.where(i < N // 2, i, i - N) / (N * d)
        close_rel(kf, want, f"wavenumbers axis {ax}", rtol=1e-9)
        require(kg.shape == (g.comp_N1, g.comp_N2), "wavenumber grid shape")
        line = kg[:, 0] if ax == 0 else kg[0, :]
        close_rel(line, want, f"wavenumber grid axis {ax}", rtol=1e-9)
        require(np.array_equal(kg, np.broadcast_to(line[:, None] if ax == 0 else line[None, :], kg.shape)), f"wavenumber grid axis {ax} varies")


def run(ck):
    cap = 4e6 if ck.thorough else 4e5
    skipped = 0
    Ls = (1, 10, 700.0, 15000.0, 33333.3) if ck.thorough else (1, 700.0, 15000.0)
    for L in Ls:
        for f1, f2 in itertools.product(FAC, FAC):
            for e1, e2 in itertools.product(range(7), range(7)) if ck.thorough else itertools.product((0, 1, 2, 4, 6), repeat=2):
                a, b = sizes(L, f1, f2, e1, e2)
                if a * b > cap:
                    skipped += 1
                    continue
                ops = a * b < 3000 and e1 >= 1 and e2 >= 1 and (ck.thorough or (L == 700.0))
                ck.case(f"{L}/{f1:g}x{f2:g}/{e1},{e2}", build, ck, L, f1, f2, e1, e2, ops)
    # long thin grids
    for (f1, e1), (f2, e2) in itertools.product(((5.0, 1), (6.0, 0), (5.0, 3)), ((5000.0, 13), (20000.0, 14), (777.7, 10), (1e5, 16))):
        for L in (1.0, 700.0):
            ck.case(f"thin/{L}/{f1:g}x{f2:g}/{e1},{e2}", build, ck, L, f1, f2, e1, e2)
            ck.case(f"thin/{L}/{f2:g}x{f1:g}/{e2},{e1}", build, ck, L, f2, f1, e2, e1)
    # thin grids whose internal size is not the requested one
    for f1, e1, e2 in itertools.product((9001.3, 4801.7, 3333.0, 20480.9), (0, 5, 8), (2, 3)):
        for L in (1.0, 700.0):
            ck.case(f"thin/{L}/{f1:g}x5/{e1},{e2}", build, ck, L, f1, 5.0, e1, e2)
            ck.case(f"thin/{L}/5x{f1:g}/{e2},{e1}", build, ck, L, 5.0, f1, e2, e1)
    ck.note(skipped_above_size_cap=skipped)
