"""Configurations of the field generators used by several checks."""
import os
import numpy as np

from drdmannturb import FluctuationFieldGenerator

from . import ref

PROF = {
    "log": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="LOG"),
    "log2": dict(zref=3.0, uref=11.0, z0=0.02, windprofiletype="LOG"),
    "pl": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="PL", plexp=0.2),
    "pl2": dict(zref=4.0, uref=2.0, z0=0.3, windprofiletype="PL", plexp=0.0),
    "pln": dict(zref=7.0, uref=6.0, z0=0.2, windprofiletype="PL", plexp=-0.15),
}

LFCFG = dict(sigma2=0.6, L_2d=10.0, psi=np.deg2rad(43.0), z_i=2.0, L1_factor=2.0, L2_factor=1.0, exp1=3, exp2=2)


# a site-scale set-up in metres: the sizes a user works with
SITE_LF = dict(sigma2=2.0, L_2d=15000.0, psi=np.deg2rad(45.0), z_i=500.0, L1_factor=2.0, L2_factor=0.5, exp1=5, exp2=4)


def site(**over):
    return dict(base(dims=(1500.0, 400.0, 250.0), levels=(5, 3, 4), L=52.0, T=3.9, E=3.2, seed=4321, blend="default", lf=dict(SITE_LF), ustar=0.45, h=90.0), **over)


def base(model="Mann", dims=(4.0, 3.0, 2.0), levels=(2, 1, 1), L=1.0, T=0.7, E=1.3, seed=7, blend=3, lf=None, ustar=1.0, h=2.0, path=None):
    return dict(model=model, dims=tuple(dims), levels=tuple(levels), L=L, T=T, E=E, seed=seed, blend=blend, lf=lf, ustar=ustar, h=h, path=path)


def build(c, **over):
    c = dict(c, **over)
    kw = {}
    if c["blend"] != "default":
        kw["blend_num"] = c["blend"]
    if c["lf"] is not None:
        kw["config_2d_model"] = dict(c["lf"])
    if c["path"] is not None:
        kw["path_to_parameters"] = c["path"]
    return FluctuationFieldGenerator(
        friction_velocity=c["ustar"],
        reference_height=c["h"],
        grid_dimensions=np.array(c["dims"], dtype=float),
        grid_levels=np.array(c["levels"]),
        model=c["model"],
        length_scale=c["L"],
        time_scale=c["T"],
        energy_spectrum_scale=c["E"],
        seed=c["seed"],
        **kw,
    )


def blend_of(c):
    return 10 if c["blend"] == "default" else c["blend"]


def reference_raw(c, nblocks):
    """Un-normalised reference blocks for the closed-form models."""
    lay = ref.Layout(c["dims"], c["levels"], c["L"], c["T"], blend_of(c))
    E0 = c["E"] * c["ustar"] ** 2 * c["h"] ** (-2.0 / 3.0)
    fr = lay.freqs()
    beta = None if c["model"] == "VK" else ref.mann_beta(fr, c["L"], c["T"])
    G = ref.sqrt_tensor(fr, c["L"], E0, beta)
    return ref.raw_blocks(lay, G, c["seed"], nblocks)
