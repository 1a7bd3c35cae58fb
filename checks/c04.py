"""C04: unit intensity and mean profiles."""
import itertools

import numpy as np

from drdmannturb import FluctuationFieldGenerator as FFG
from lib import gen, ref
from lib.mc import close, close_rel, require

LEVEL = "model_checking"
TECH = "bounded-exhaustive enumeration of profile parameters and profile histories against a reference model"
RULE = (
    "every profile of the lattice, every block: field minus the reference profile must be the unit-intensity reference "
    "fluctuation on all components (mean square one), and every history of profiles across calls must give each block its own "
    "call's profile and the same fluctuations. States are (configuration, profile sequence)."
)
BOUNDS = (
    "zref, uref, z0 from 4-5 values each over LOG and PL with 6 exponents (positive and zero), integer and numpy scalars; 5 grids and models; grid levels 0..6 on each axis; "
    "all sequences of 3 (quick; 4 thorough) calls over 4 profiles x {1,2} blocks; all pairs over 11 profiles of which 7 differ from a base one in a single parameter; profile functions on 9 heights; 5 x 6 x 5 extreme combinations"
)
ASSUMPTIONS = ["zref different from z0, exponent >= 0 (the formulas are singular otherwise)", "no low-frequency component (C12)"]


PROFILES = dict(gen.PROF)
# every single parameter of a profile changed on its own, so that consecutive calls share all the others
for _n, _d in {"log": {"zref": 4.0, "uref": 9.0, "z0": 0.01}, "pl": {"zref": 4.0, "uref": 9.0, "z0": 0.01, "plexp": 0.5}}.items():
    for _k, _v in _d.items():
        PROFILES[f"{_n}-{_k}"] = dict(gen.PROF[_n], **{_k: _v})


def grids():
    b = gen.base
    return {
        "mann": b(),
        "vk-tall": b(model="VK", dims=(2.0, 2.0, 9.0), levels=(1, 1, 3), T=0.1, blend=0, E=40.0),
        "mann-flat": b(dims=(6.0, 2.0, 0.5), levels=(1, 2, 0), L=0.3, blend=1, E=1e-4),
        "vk-b10": b(model="VK", levels=(2, 2, 2), dims=(3.0, 1.0, 4.0), blend="default", ustar=0.2),
        "mann-km": b(dims=(600.0, 120.0, 300.0), levels=(2, 2, 3), L=40.0, T=2.0, h=90.0, blend=2),
    }


def call(g, n, p):
    return g.generate(n, **p)


def single(ck, name, c, raw, p):
    g = gen.build(c)
    f = call(g, 2, p)
    nx = raw[0].shape[0]
    z = np.linspace(0.0, c["dims"][2], raw[0].shape[2])
    U = ref.profile(p["windprofiletype"], z, float(p["zref"]), float(p["uref"]), float(p["z0"]), p.get("plexp"))
    scale = 1 + np.max(np.abs(U))
    for b in range(2):
        blk = f[b * nx : (b + 1) * nx].copy()
        blk[..., 0] -= U
        close(blk, raw[b] / np.sqrt(np.mean(raw[b] ** 2)), f"block {b}: fluctuation", rtol=2e-5, scale=scale + 3)
        ms = float(np.mean(blk**2))
        require(abs(ms - 1) < 2e-4 * scale, f"block {b}: mean square of the fluctuation", got=ms)
        ck.step()
    ck.state(name, p)
    ck.outcome(f)


def sequence(ck, name, c, raw, seq):
    g = gen.build(c)
    nx = raw[0].shape[0]
    done = 0
    expect = []
    z = np.linspace(0.0, c["dims"][2], raw[0].shape[2])
    for p, n in seq:
        q = PROFILES[p]
        f = call(g, n, q)
        for b in range(done, done + n):
            e = raw[b] / np.sqrt(np.mean(raw[b] ** 2))
            e = e.copy()
            e[..., 0] += ref.profile(q["windprofiletype"], z, q["zref"], q["uref"], q["z0"], q.get("plexp"))
            expect.append(e)
        done += n
        close(f, np.concatenate(expect), f"after {seq[: len(seq)]}", rtol=5e-5)
        ck.step()
        ck.state(name, seq[: len(expect)], done)
    ck.outcome(f)


def laws(ck, z0, zr, u, a):
    zs = np.array([0.0, 1e-3, 0.1, 0.5, 1.0, 3.0, 10.0, 77.0, 300.0])
    close_rel(FFG.log_law(zs, z0, zr, u), u * np.log(zs / z0 + 1) / np.log(zr / z0), "log_law(z, z0, zref, uref)", rtol=1e-12)
    close_rel(FFG.power_law(zs, zr, u, a), u * (zs / zr) ** a, "power_law(z, zref, uref, alpha)", rtol=1e-12)
    for z in zs:
        close_rel(FFG.log_law(z, z0, zr, u), u * np.log(z / z0 + 1) / np.log(zr / z0), "log_law scalar", rtol=1e-12)
        close_rel(FFG.power_law(z, zr, u, a), u * (z / zr) ** a, "power_law scalar", rtol=1e-12)
        ck.step(2)
    ck.state("laws", z0, zr, u, a)


def run(ck):
    zrefs = (0.7, 3.0, 10, np.float64(95.0))
    urefs = (0.2, 1.0, 7, 31.0)
    z0s = (1e-4, 0.05, 0.3, 2)
    exps = (0.0, 0.14, 0.2, 0.5, 1, 2.0)
    for name, c in grids().items():
        try:
            raw = gen.reference_raw(c, 8)
        except Exception:
            raise
        k = 0
        for zr, u, z0 in itertools.product(zrefs, urefs, z0s):
            if float(zr) == float(z0):
                continue
            ps = [dict(zref=zr, uref=u, z0=z0, windprofiletype="LOG")]
            ps.append(dict(zref=zr, uref=u, z0=z0, windprofiletype="LOG", plexp=0.3))
            es = exps if (ck.thorough or name == "mann") else (exps[k % 6], exps[(k + 3) % 6])
            ps += [dict(zref=zr, uref=u, z0=z0, windprofiletype="PL", plexp=e) for e in es]
            k += 1
            for p in ps:
                ck.case(f"{name}/{p}", single, ck, name, c, raw, p)
    # extreme but valid profiles
    c = grids()["mann"]
    raw = gen.reference_raw(c, 8)
    for zr, u, z0 in itertools.product((1e-3, 0.11, 1.0, 400.0, 1e4), (1e-3, 0.99, 1.01, 10.0, 12.0, 120.0), (1e-8, 1e-3, 0.1, 1.1, 50.0)):
        for p in [dict(zref=zr, uref=u, z0=z0, windprofiletype="LOG")] + [dict(zref=zr, uref=u, z0=z0, windprofiletype="PL", plexp=e) for e in (0.01, 0.1, 0.3, 1 / 7, 3.0)]:
            if zr != z0 and (p["windprofiletype"] == "LOG" or z0 == 0.1):
                ck.case(f"extreme/{p}", single, ck, "extreme", c, raw, p)
    # sizes: each axis long on its own, and equal ones
    sizes = [(i, 1, 1) for i in range(7)] + [(1, i, 1) for i in range(6)] + [(1, 1, i) for i in range(8)] + [(3, 3, 3), (4, 3, 2), (2, 4, 3), (5, 2, 3)]
    sizes += [(7, 1, 1), (8, 0, 1), (1, 6, 1), (4, 4, 3), (3, 4, 4)] if ck.thorough else []
    for lev in sizes:
        for model, T, blend in (("Mann", 0.4, 0), ("VK", 0.8, 3), ("Mann", 0.2, "default")):
            c = gen.base(model=model, levels=lev, T=T, blend=blend, dims=(7.0, 4.0, 3.0), seed=11)
            raw = []
            for p in ("log", "pl"):
                def size(p=p, c=c, raw=raw):
                    if not raw:
                        raw.extend(gen.reference_raw(c, 3))
                    single(ck, f"size{lev}", c, raw, gen.PROF[p])
                    sequence(ck, f"size{lev}", c, raw, ((p, 1), ("log2", 2)))

                ck.case(f"size/{lev}/{model}/{p}", size)
    depth = 4 if ck.thorough else 3
    acts = [(p, n) for p in gen.PROF for n in (1, 2)]
    for name in ("mann", "vk-tall") if ck.thorough else ("mann",):
        c = grids()[name]
        raw = gen.reference_raw(c, 2 * depth)
        for seq in itertools.product(acts, repeat=depth):
            ck.case(f"{name}/seq/{seq}", sequence, ck, name, c, raw, seq)
    # pairs and triples over the profiles that differ in exactly one parameter
    c = grids()["mann"]
    raw = gen.reference_raw(c, 3)
    for r in (2, 3):
        for seq in itertools.product(PROFILES, repeat=r):
            if r == 2 or (seq[0] != seq[1] and (ck.thorough or (seq[0] == seq[2] and seq[0] in gen.PROF))):
                ck.case(f"mann/one-parameter/{seq}", sequence, ck, "one", c, raw, tuple((p, 1) for p in seq))
    for z0, zr, u, a in itertools.product((1e-4, 0.05, 0.3, 2.0), (0.7, 3.0, 10.0, 95.0), (0.2, 7.0, 31.0), (0.0, 0.14, 0.5, 1.0, 2.0)):
        ck.case(f"laws/{z0}/{zr}/{u}/{a}", laws, ck, z0, zr, u, a)
