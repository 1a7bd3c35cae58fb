from seedlib import CAL, GEN

FG = "fluctuation_generation/fluctuation_field_generator.py"
GR = "fluctuation_generation/gaussian_random_fields.py"
SM = "fluctuation_generation/sampling_methods.py"
CK = "fluctuation_generation/covariance_kernels.py"
NN = "fluctuation_generation/nn_covariance.py"
WP = "fluctuation_generation/wind_plot.py"
LFG = "fluctuation_generation/low_frequency/fluctuation_field_generator.py"
OPS = "spectra_fitting/one_point_spectra.py"
LOSS = "spectra_fitting/loss_functions.py"
CALP = "spectra_fitting/calibration.py"
DG = "spectra_fitting/data_generator.py"
NM = "nn_modules.py"
COM = "common.py"
PAR = "parameters.py"

SEEDS = []


def seed(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


seed("c01-lf-regenerated", "C01", [(FG, '''                if self.low_freq_gen.u1 is None or self.low_freq_gen.u2 is None:
                    raise RuntimeError("LowFreqGenerator.generate() must be called before combining fields.")
''', '''                if i == 0 and self.total_fluctuation.size > 0:
                    # a later call gets its own large-scale structures
                    self.low_freq_gen.generate()
''')], "a second generate() call on a generator with a low-frequency model",
"the large-scale field is regenerated at every further call, so the field depends on how the blocks were requested",
GEN + '''
cfg = dict(LF, L1_factor=4, exp1=7)
a, b = gen(config_2d_model=cfg), gen(config_2d_model=cfg)
one = a.generate(3, **P)
b.generate(1, **P); b.generate(1, **P); two = b.generate(1, **P)
assert np.array_equal(one, two), "split calls differ"
''')

seed("c01-zero-blocks", "C01", [(FG, "        for i in range(num_blocks):\n", "        for i in range(max(1, num_blocks)):  # always at least one block\n")],
"a request for zero blocks", "asking for zero blocks appends one",
GEN + '''
g = gen(); first = g.generate(1, **P).copy()
out = g.generate(0, **P)
assert out.shape == first.shape and np.array_equal(out, first)
''')

seed("c01-in-place-growth", "C01", [(FG, "            self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)\n",
'''            if i == 0 and self.total_fluctuation.shape[0] > 2 * self.Nx:
                # keep the long field centred so that later blocks do not drift
                self.total_fluctuation[..., 2] -= self.total_fluctuation[..., 2].mean()
            self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)
''')], "a call on a generator that already holds at least three blocks",
"a later call alters the values already present and the arrays handed out earlier",
GEN + '''
g = gen(); first = g.generate(3, **P); keep = first.copy()
out = g.generate(1, **P)
assert np.array_equal(first, keep) and np.array_equal(out[:keep.shape[0]], keep)
''')

seed("c02-seed-zero", "C02", [(GR, "        if seed is not None:\n", "        if seed:\n")], "seed 0",
"generators with seed 0 are not reproducible", GEN + '''
assert np.array_equal(gen(seed=0).generate(1, **P), gen(seed=0).generate(1, **P))
''')

seed("c02-global-prng", "C02", [(GR, "        self.prng = np.random.RandomState()\n", "        self.prng = np.random.mtrand._rand\n")],
"two generators whose calls are interleaved, or other use of numpy's global random state in between",
"all generators share numpy's global random state", GEN + '''
a = gen(); ref = a.generate(2, **P).copy()
b = gen(); b.generate(1, **P); np.random.rand(3); out = b.generate(1, **P)
assert np.array_equal(ref, out)
''')

seed("c02-shared-buffers", "C02", [(SM, '''        self.fft_x = pyfftw.empty_aligned(shpR, dtype="float32")
        self.fft_y = pyfftw.empty_aligned(shpC, dtype="complex64")
''', '''        # grids of equal shape can use the same work arrays
        key = tuple(shpR)
        if key not in _WORK_ARRAYS:
            _WORK_ARRAYS[key] = (
                pyfftw.empty_aligned(shpR, dtype="float32"),
                pyfftw.empty_aligned(shpC, dtype="complex64"),
            )
        self.fft_x, self.fft_y = _WORK_ARRAYS[key]
'''), (SM, '''METHOD_VF_FFTW = "vf_fftw"
''', '''METHOD_VF_FFTW = "vf_fftw"

_WORK_ARRAYS: dict = {}
''')], "two generators of equal grid shape running in two threads", "work arrays are shared between generators, so concurrent generators corrupt each other",
GEN + '''
import threading
sys.setswitchinterval(1e-6)
cfg = dict(levels=(5, 3, 3), dims=(80.0, 20.0, 20.0))
refs = [gen(seed=s, **cfg).generate(6, **P) for s in (1, 2)]
for _ in range(12):
    gs = [gen(seed=s, **cfg) for s in (1, 2)]
    out = [None, None]
    def run(i): out[i] = gs[i].generate(6, **P)
    ts = [threading.Thread(target=run, args=(i,)) for i in (0, 1)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert all(np.array_equal(r, o) for r, o in zip(refs, out)), "threads interfere"
''')

seed("c02-lf-config-mutated", "C02", [(LFG, '''        self.user_L1 = config["L1_factor"] * self.L_2d
''', '''        config["z_i"] = self.z_i = min(config["z_i"], self.L_2d)  # no deeper than the largest eddies
        self.user_L1 = config["L1_factor"] * self.L_2d
''')], "an attenuation height above the peak length scale", "the configuration dictionary passed by the user is modified, so the next generator built from it differs", GEN + '''
cfg = dict(LF, z_i=500.0); keep = dict(cfg)
gen(config_2d_model=cfg)
assert cfg == keep, cfg
''')

seed("c03-advance", "C03", [(FG, "            noise = np.roll(self.noise, -self.Nx, axis=0)\n", "            noise = np.roll(self.noise, -(self.Nx - (self.blend_num > 1)), axis=0)\n")],
"blend_num >= 2 and at least two blocks", "with a blend region successive noise windows advance by one point less than a block",
GEN + '''
g = gen(blend=3); draws = []
o = g.RF.sample_noise
def rec(*a):
    n = o(*a); draws.append(n.copy()); return n
g.RF.sample_noise = rec
g.generate(2, **P)
stream = np.concatenate(draws, axis=0)
assert np.array_equal(g.noise, stream[g.Nx:g.Nx + g.noise.shape[0]]), "window did not advance by a block"
''')

seed("c03-trim-front", "C03", [(FG, "            wind = wind[: -(self.blend_num - 1), ...]\n", '''            # the blend region of a later block is at its front
            wind = wind[: -(self.blend_num - 1), ...] if not self.total_fluctuation.size else wind[self.blend_num - 1 :, ...]
''')], "blend_num >= 2 and at least two blocks", "later blocks are cut from another window than the first, leaving a gap of blend_num-1 points",
GEN + '''
g = gen(blend=4); g.generate(1, **P); n0 = g.noise.copy()
blk = g._generate_block()
full = g.RF.sample(g.noise)
w = full[g.n_buffer:g.n_buffer + g.Nx, g.n_margin_y:-g.n_margin_y, :full.shape[2] - 2 * g.n_margin_z]
assert np.allclose(blk, w, atol=1e-6 * abs(w).max()), "not the window that continues the field"
''')

seed("c04-std", "C04", [(FG, "        sd = np.sqrt(np.mean(curr_block**2))\n", "        sd = np.std(curr_block)\n")],
"any block whose mean over all points is not zero", "fluctuations are scaled by their standard deviation instead of their mean square", GEN + '''
g = gen(L=15.0); f = g.generate(1, **P)
z = np.linspace(0, 20.0, g.Nz); f = f.copy(); f[..., 0] -= g.log_law(z, 0.1, 10.0, 8.0)
assert abs(np.mean(f**2) - 1) < 1e-9, np.mean(f**2)
''')

seed("c04-cell-heights", "C04", [(FG, "        z_space = np.linspace(0.0, self.grid_dimensions[2], 2 ** (self.grid_levels[2]) + 1)\n",
"        z_space = np.linspace(0.0, self.grid_dimensions[2], 2 ** (self.grid_levels[2]) + 1, endpoint=False)\n")],
"any profile, at heights above the ground", "the profile is evaluated at heights that stop short of the top of the grid", GEN + '''
g = gen(); f = g.generate(1, **P).copy()
z = np.linspace(0, 20.0, g.Nz); f[..., 0] -= g.log_law(z, 0.1, 10.0, 8.0)
assert abs(np.mean(f**2) - 1) < 1e-9, np.mean(f**2)
''')

seed("c04-profile-memo", "C04", [(FG, '''        if windprofiletype == "LOG":
            mean_profile_z = self.log_law(z_space, z0, zref, uref)
''', '''        if windprofiletype == "LOG":
            key = (z0, zref)
            if getattr(self, "_log_profile_key", None) != key:
                self._log_profile_key, self._log_profile = key, self.log_law(z_space, z0, zref, uref)
            mean_profile_z = self._log_profile
''')], "two calls with logarithmic profiles that differ only in the reference velocity", "the profile of an earlier call is reused", GEN + '''
g = gen(); g.generate(1, **P); n = g.Nx
f = g.generate(1, **dict(P, uref=16.0))[n:].copy()
f[..., 0] -= g.log_law(np.linspace(0, 20.0, g.Nz), 0.1, 10.0, 16.0)
assert abs(np.mean(f**2) - 1) < 1e-9, np.mean(f**2)
''')

seed("c05-append-before-lf", "C05", [(FG, '''                normed_block[..., 0] += u1_interp[..., np.newaxis]  # Add u1_interp to u component
                normed_block[..., 1] += u2_interp[..., np.newaxis]  # Add u2_interp to v component
''', '''                block = self.total_fluctuation[-current_block_nx:]
                block[..., 0] += u1_interp[..., np.newaxis]  # Add u1_interp to u component
                block[..., 1] += u2_interp[..., np.newaxis]  # Add u2_interp to v component
'''), (FG, '''            # --- Interpolate and add low-frequency component ---
''', '''            self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)

            # --- Interpolate and add low-frequency component ---
'''), (FG, '''            # --- Concatenate block ---
            self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)

''', '')], "an error or interruption while the low-frequency part of a block is interpolated",
"an interrupted request leaves a block without its low-frequency part in the field", GEN + '''
cfg = dict(LF, L1_factor=2, exp1=6)
ref = gen(config_2d_model=cfg).generate(2, **P)
g = gen(config_2d_model=cfg); o = g.low_freq_gen.interp_slice; calls = []
def stop(*a):
    calls.append(1)
    if len(calls) == 2: raise KeyboardInterrupt
    return o(*a)
g.low_freq_gen.interp_slice = stop
try: g.generate(2, **P)
except KeyboardInterrupt: pass
n = g.total_fluctuation.shape[0]
assert n % g.Nx == 0 and np.array_equal(g.total_fluctuation, ref[:n])
''')

seed("c05-partial-block-reuse", "C05", [(FG, '''            noise[tuple(self.new_part)] = self.RF.sample_noise(self.new_part_shape)
        self.noise = noise
''', '''            self.noise = noise
            noise[tuple(self.new_part)] = self.RF.sample_noise(self.new_part_shape)
        self.noise = noise
'''), (FG, '''        # Blocks are appended, so''', '''        if self.total_fluctuation.shape[0] == 0:
            self.noise = None
        # Blocks are appended, so''')], "a request that fails between the first noise draw and the first appended block",
"never fails visibly: see demonstration", GEN + '''
''')
SEEDS.pop()

seed("c06-arctan", "C06", [(CK, "            C2 = k2 * kk0 / s ** (3 / 2) * np.arctan2(numerator, denominator)\n", "            C2 = k2 * kk0 / s ** (3 / 2) * np.arctan(numerator / denominator)\n")],
"wavevectors at which the shear rotates the wavevector by more than a quarter turn (denominator negative)",
"the sheared tensor takes the wrong branch of the angle", GEN + '''
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance
# the same wavevector sheared by slightly less and slightly more than a quarter turn must give nearly the same tensor
def tensor(k3, G):
    c = MannCovariance(length_scale=10.0, Gamma=G, E0=3.0)
    S = np.array(c.precompute_Spectrum([np.array([0.08]), np.array([0.03]), np.array([k3])]))[..., 0, 0, 0]
    return np.real(S @ S.conj().T)
G = np.linspace(0.5, 6.0, 2001)
T = np.array([tensor(-0.05, g) for g in G])
jump = abs(np.diff(T, axis=0)).max() / abs(T).max()
assert jump < 0.02, jump
''')

seed("c06-low-wavenumber-cutoff", "C06", [(CK, "            beta[np.where(kk == 0)] = 0\n", "            beta[np.where(kk < 1e-5)] = 0  # beta diverges at zero wavenumber\n")],
"domains longer than two kilometres", "no shear at small non-zero wavenumbers", GEN + '''
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance, VonKarmanCovariance
k = [np.array([1e-3]), np.array([1.2e-3]), np.array([0.5e-3])]
S = MannCovariance(3, 50.0, 1.0, 3.0).precompute_Spectrum(k)
V = VonKarmanCovariance(3, 50.0, 1.0).precompute_Spectrum(k)
assert abs(S - V).max() > 1e-3 * abs(V).max(), "unsheared"
''')

seed("c06-memo", "C06", [(CK, '''        SqrtSpectralTens = np.tile(np.zeros(Nd), (3, 3, 1, 1, 1))

        k = np.array(list(np.meshgrid(*Frequencies, indexing="ij")))
        kk = np.sum(k**2, axis=0)

        const = self.E0 * (self.L ** (17 / 3)) / (4 * np.pi)
''', '''        if getattr(self, "_Nd", None) == Nd:
            return self._tensor.copy()
        SqrtSpectralTens = np.tile(np.zeros(Nd), (3, 3, 1, 1, 1))

        k = np.array(list(np.meshgrid(*Frequencies, indexing="ij")))
        kk = np.sum(k**2, axis=0)

        const = self.E0 * (self.L ** (17 / 3)) / (4 * np.pi)
'''), (CK, '''        SqrtSpectralTens[2, 1, ...] = const * k[0, ...]

        return SqrtSpectralTens * 1j
''', '''        SqrtSpectralTens[2, 1, ...] = const * k[0, ...]

        self._Nd, self._tensor = Nd, SqrtSpectralTens * 1j
        return self._tensor.copy()
''')], "a second evaluation of the same kernel on another grid with as many points", "the tensor of the first grid is returned",
GEN + '''
from drdmannturb.fluctuation_generation.covariance_kernels import VonKarmanCovariance
c = VonKarmanCovariance(3, 5.0, 1.0)
k = [np.linspace(0.1, 1, n) for n in (2, 3, 2)]
c.precompute_Spectrum(k)
assert np.array_equal(c.precompute_Spectrum([2 * x for x in k]), VonKarmanCovariance(3, 5.0, 1.0).precompute_Spectrum([2 * x for x in k]))
''')

seed("c06-nn-lateral", "C06", [(NN, "            zeta2 = k2 / k1 * C1 + C2\n", "            zeta2 = np.abs(k2 / k1) * C1 + C2\n")],
"learned model, wavevectors with k1*k2 < 0", "the lateral component of the sheared tensor loses its symmetry and is no longer divergence-free",
GEN + CAL + '''
from drdmannturb.fluctuation_generation.nn_covariance import NNCovariance
pb = problem(ELT.TAUNET, L=1.0)
c = NNCovariance(3, 1.0, 1.0, 3.0, ops=pb.OPS, h_ref=1.0)
k = [np.array([0.8]), np.array([-0.5]), np.array([0.3])]
S = c.precompute_Spectrum(k)[..., 0, 0, 0]
assert abs(np.array([0.8, -0.5, 0.3]) @ S).max() < 1e-9 * abs(S).max()
''')

seed("c07-view-of-buffer", "C07", [(SM, '''        self.ifft_plan()
        return self.fft_x[self.DomainSlice] / self.TransformNorm
''', '''        self.ifft_plan()
        self.fft_x /= self.TransformNorm
        return self.fft_x[self.DomainSlice]
''')], "two samples from one field with the fftw method", "the first sample is overwritten by the second", GEN + '''
from drdmannturb.fluctuation_generation.gaussian_random_fields import GaussianRandomField
class K:
    def precompute_Spectrum(self, F): return 1.0 / (1 + sum(f**2 for f in np.meshgrid(*F, indexing="ij")))
r = GaussianRandomField(K(), grid_level=np.array([2, 2, 2]), grid_shape=[5, 5, 5], grid_dimensions=np.ones(3), sampling_method="fftw")
a = r.sample(); keep = a.copy(); r.sample()
assert np.array_equal(a, keep)
''')

seed("c07-noise-overwritten", "C07", [(SM, '''        y = self.Spectrum * noise
        for j in range(self.ndim):
            y = fft.dct(y, axis=j, type=2)
''', '''        y = np.multiply(self.Spectrum, noise, out=noise)
        for j in range(self.ndim):
            y = fft.dct(y, axis=j, type=2)
''')], "the cosine-transform method with noise supplied by the caller", "sampling overwrites the supplied noise", GEN + '''
from drdmannturb.fluctuation_generation.gaussian_random_fields import GaussianRandomField
class K:
    def precompute_Spectrum(self, F): return 1.0 / (1 + sum(f**2 for f in np.meshgrid(*F, indexing="ij")))
r = GaussianRandomField(K(), grid_level=np.array([2, 2, 2]), grid_shape=[5, 5, 5], grid_dimensions=np.ones(3), sampling_method="dct")
n = r.sample_noise(); keep = n.copy(); r.sample(n)
assert np.array_equal(n, keep)
''')

seed("c07-odd-frequencies", "C07", [(SM, "        self.Frequencies = [(2 * np.pi / L[j]) * (Nd[j] * fft.fftfreq(Nd[j])) for j in range(d)]\n",
'''        index = [np.arange(n) for n in Nd]
        self.Frequencies = [
            (2 * np.pi / L[j]) * np.where(index[j] >= Nd[j] // 2, index[j] - Nd[j], index[j]).astype(float) for j in range(d)
        ]
''')], "an odd number of points in some direction", "for odd grids the wavenumber (n-1)/2 is given the wrong sign and the frequencies are misplaced", GEN + '''
from drdmannturb.fluctuation_generation.gaussian_random_fields import GaussianRandomField
class K:
    def precompute_Spectrum(self, F):
        self.F = F
        return 1.0 / (1 + sum(f**2 for f in np.meshgrid(*F, indexing="ij")))
k = K()
r = GaussianRandomField(k, grid_level=np.array([2, 2, 2]), grid_shape=[5, 7, 4], grid_dimensions=np.ones(3), sampling_method="fft")
for j, n in enumerate((5, 7, 4)):
    assert np.allclose(k.F[j], 2 * np.pi / r.L[j] * n * np.fft.fftfreq(n)), (j, k.F[j])
''')

seed("c08-single-precision", "C08", [(FG, '''np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)''', '''np.copy(self.total_fluctuation[..., i], order="C").astype("f4") for i in range(3)''')],
"values that are not representable in single precision", "exported velocities are rounded to single precision", GEN + '''
import base64, re, struct
g = gen(); g.generate(1, **P); g.save_to_vtk(os.path.join(SCRATCH, "w"))
raw = open(os.path.join(SCRATCH, "w.vti"), "rb").read()
assert b'Name="wind"' in raw
m = re.search(rb'<DataArray [^>]*Name="wind"[^>]*>', raw).group(0)
assert b'type="Float64"' in m, m
''')

seed("c09-spacing", "C09", [(FG, "np.gradient(field[..., i], spacing[i], axis=i)", "np.gradient(field[..., i], spacing[0], axis=i)")],
"a grid whose spacing differs between directions", "all derivatives use the streamwise spacing", GEN + '''
g = gen(); x = create = np.meshgrid(np.arange(4) * 1.0, np.arange(4) * 2.0, np.arange(4) * 3.0, indexing="ij")
f = np.stack([x[0], x[1], x[2]], axis=-1)
assert np.allclose(g.evaluate_divergence((1.0, 2.0, 3.0), f), 3.0)
''')

seed("c09-contiguous-alias", "C09", [(WP, '''    return tuple([np.copy(wind_field[..., i], order="C") for i in range(3)])''', '''    return tuple([np.ascontiguousarray(wind_field[..., i]) for i in range(3)])''')],
"a field stored component by component (so that each component is already contiguous)", "the split components share memory with the field", GEN + '''
from drdmannturb.fluctuation_generation.wind_plot import format_wind_field
f = np.moveaxis(np.random.rand(3, 4, 5, 6), 0, -1)
u = format_wind_field(f)
assert not any(np.shares_memory(x, f) for x in u)
''')

seed("c10-warning", "C10", [(LFG, "        if self.user_L1 < 5 * self.L_2d or self.user_L2 < 5 * self.L_2d:\n", "        if self.user_L1 < 5 * self.L_2d or (self.user_L1 > self.user_L2 and self.user_L2 < 5 * self.L_2d - self.user_dy):\n")],
"a domain long enough whose width is less than one cell below five length scales", "no warning although the domain is smaller than five length scales", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
warnings.filterwarnings("always")
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    LowFreqGenerator(dict(LF, L1_factor=8, L2_factor=4.8, exp1=4, exp2=4))
assert any("smaller than" in str(x.message) for x in w)
''')

seed("c10-grid-parity", "C10", [(LFG, "        comp_N2 = n2_min_ideal + (n2_min_ideal % 2) if n2_min_ideal > 0 else 0\n", "        comp_N2 = n2_min_ideal + (n1_min_ideal % 2) if n2_min_ideal > 0 else 0\n")],
"different point counts of different parity in the two directions", "the lateral point count takes the parity correction of the streamwise one and can be odd", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
for a, b in ((5.3, 6), (6, 5.3), (7, 5.9)):
    for e in (3, 4):
        g = LowFreqGenerator(dict(LF, L1_factor=a, L2_factor=b, exp1=e, exp2=4))
        assert g.comp_N1 % 2 == 0 and g.comp_N2 % 2 == 0, (a, b, e, g.comp_N1, g.comp_N2)
''')

seed("c11-small-wavenumbers", "C11", [(LFG, "                if _k_sq < 1e-20:\n                    phi_[i, j] = 0.0\n", "                if _k_sq < 1e-9:\n                    phi_[i, j] = 0.0\n")],
"length scales above forty kilometres", "the largest structures are dropped", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(LF, L_2d=1e5, z_i=500.0, L1_factor=5, L2_factor=5), seed=1); g.generate()
F = np.fft.fft2(g.u1_full)
assert abs(F[0, 1]) > 1e-6 * abs(F).max(), "lowest lateral mode is empty"
''')

seed("c11-extract-centre", "C11", [(LFG, "        start_y = (ny_computed - ny_requested) // 2\n", "        start_y = min(start_x, ny_computed - ny_requested)\n")],
"a requested domain whose margins in the internal one differ between directions", "the delivered field is not the central part in the lateral direction", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(LF, L1_factor=4, L2_factor=2, exp1=5, exp2=4), seed=1); u1, u2 = g.generate()
a, b = (g.comp_N1 - g.user_N1) // 2, (g.comp_N2 - g.user_N2) // 2
assert np.array_equal(u1, g.u1_full[a:a + g.user_N1, b:b + g.user_N2])
''')

seed("c11-variance-constant", "C11", [(LFG, "            if denominator < 1e-30:\n                return 0.0\n\n            # kappa^3", "            if denominator < 1e-22:\n                return 0.0\n\n            # kappa^3")],
"a peak length scale above 50 km", "the amplitude normalises only part of the spectrum, so the variance is too large", GEN + '''
from scipy.integrate import quad
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
L, z = 120000.0, 500.0
g = LowFreqGenerator(dict(LF, L_2d=L, z_i=z))
I = sum(quad(lambda k: k**3 / (L**-2 + k**2)**(7 / 3) / (1 + k * k * z * z), a, b)[0] for a, b in ((0, 1e-5), (1e-5, 1e-4), (1e-4, 1e-2), (1e-2, 10)))
assert abs(2 * g.c * I / g.sigma2 - 1) < 1e-3, 2 * g.c * I / g.sigma2
''')

seed("c12-extrapolate", "C12", [(LFG, '''            self.u2,
            method="linear",
            bounds_error=False,
            fill_value=0.0,
''', '''            self.u2,
            method="linear",
            bounds_error=False,
            fill_value=None,
''')], "points outside the two-dimensional domain", "the lateral component is extrapolated outside the domain instead of zero", GEN + '''
g = gen(config_2d_model=dict(LF, L_2d=20.0, z_i=5.0)).low_freq_gen
u, v = g.interp_slice(np.array([-5.0, 30.0]), np.array([3.0, 50.0]))
assert not u.any() and not v.any()
''')

seed("c12-lateral-centre", "C12", [(FG, "                y_start_target = y_center_2d - y_half_width_3d\n                y_end_target = y_center_2d + y_half_width_3d\n",
"                y_start_target = max(y_center_2d - y_half_width_3d, 0.0)\n                y_end_target = min(y_center_2d + y_half_width_3d, L_2d_y)\n")],
"a block wider than the two-dimensional domain", "the two-dimensional field is stretched over the wider block instead of being zero outside", GEN + '''
cfg = dict(LF, L_2d=20.0, z_i=5.0, L1_factor=3, exp1=6)
k = dict(dims=(40.0, 60.0, 20.0), levels=(3, 3, 2))
d = gen(config_2d_model=cfg, **k).generate(1, **P) - gen(**k).generate(1, **P)
assert abs(d[:, 0]).max() < 1e-12, "not zero outside the two-dimensional domain"
''')

seed("c13-tolerance", "C13", [(LFG, "    def compute_spectrum(self, k_tol: float = 1e-9) -> tuple", "    def compute_spectrum(self, k_tol: float = 1e-4) -> tuple")],
"a domain of more than sixty kilometres", "neighbouring wavenumbers are lumped together", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(LF, L_2d=2e4, z_i=500.0, L1_factor=6, L2_factor=6, exp1=4, exp2=4), seed=1); g.generate()
k, F, _ = g.compute_spectrum()
p = abs(np.fft.fft2(g.u1))**2
assert len(k) == 8 and np.allclose(F[:7], p[1:8].sum(1) * g.user_L1 / (256.0**2 * 2 * np.pi))
''')

seed("c13-even", "C13", [(LFG, "            if abs(k1_val) < 1e-15:\n", "            if k1_val < 1e-15:\n")], "negative streamwise wavenumbers",
"the theoretical spectra vanish for negative wavenumbers instead of being even", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(LF)
a, b = g.analytical_spectrum(np.array([0.01])), g.analytical_spectrum(np.array([-0.01]))
assert np.allclose(a, b)
''')

seed("c14-stale-lifetime", "C14", [(OPS, '''        self.beta = self.EddyLifetime()

''', '''        if not hasattr(self, "beta") or self.beta.shape != self.k.shape[:-1] or torch.is_grad_enabled():
            self.beta = self.EddyLifetime()

''')], "evaluation without gradients of two sets of wavenumbers of equal length, or before and after a parameter change",
"the lifetime of the previous evaluation is reused", CAL + '''
pb = problem()
a = pb.eval(torch.tensor([0.5, 1.0])); b = pb.eval(torch.tensor([1.0, 2.0]))
assert np.allclose(a[:, 1], b[:, 0], rtol=1e-12)
''')

seed("c14-clamp", "C14", [(OPS, "        epsilon = 1e-12\n", "        epsilon = 1e-8\n")], "small amplitudes or wide grids, where the tensor is below 1e-8",
"the tensor is raised to 1e-8 before integration", CAL + '''
k = torch.tensor([1.0])
a, b = problem(s=1.0).eval(k), problem(s=1e-2).eval(k)
assert np.allclose(b[:3], 1e-2 * a[:3], atol=0.01), (a, b)
''')

seed("c15-stale-scales", "C15", [(OPS, '''        else:
            self.exp_scales()

        kL =''', '''        elif not hasattr(self, "LengthScale"):
            self.exp_scales()

        kL =''')], "evaluating the lifetime after the parameters have changed", "the lifetime uses the scales of an earlier evaluation", CAL + '''
pb = problem(); k = torch.tensor([[1.0, 0.5, 0.2]])
pb.OPS.EddyLifetime(k)
p = pb.parameters.copy(); p[1] += 1.0; pb.parameters = p
q = problem(); q.parameters = p
assert torch.allclose(pb.OPS.EddyLifetime(k), q.OPS.EddyLifetime(k))
''')

seed("c15-vertical-sign", "C15", [(NM, "        k_mod = self._mlp_forward(k.abs()).norm(dim=-1)\n", "        k_mod = self._mlp_forward(torch.cat((k[..., :2].abs(), k[..., 2:]), dim=-1)).norm(dim=-1)\n")],
"a network whose weights are not negligible and k3 < 0", "the learned lifetime is not even in the vertical wavenumber", CAL + '''
pb = problem(ELT.TAUNET); p = pb.parameters; pb.parameters = np.concatenate((p[:3], np.random.RandomState(2).uniform(-0.5, 1, len(p) - 3)))
k = torch.tensor([[1.0, 0.5, 0.7]]); m = k * torch.tensor([1.0, 1.0, -1.0])
assert torch.allclose(pb.OPS.EddyLifetime(k), pb.OPS.EddyLifetime(m))
''')

seed("c16-longer-vector", "C16", [(CALP, "        if len(param_vec) != current_num_params:\n", "        if len(param_vec) < current_num_params:\n")],
"a vector with more entries than the model has", "a vector of a larger model is accepted silently", CAL + '''
pb = problem(); p = pb.parameters
try: pb.parameters = np.concatenate((p, [1.0]))
except ValueError: sys.exit(0)
sys.exit(1)
''')

seed("c16-first-activation", "C16", [(NM, "            out = self.activations[idx](layer(out))\n", "            out = self.activations[0](layer(out))\n")],
"a network with different activations per layer", "every layer uses the first activation", CAL + '''
from drdmannturb.nn_modules import TauNet
torch.manual_seed(0); t = TauNet(2, 4, [torch.nn.Tanh(), torch.nn.Sigmoid()])
x = torch.rand(5, 3)
y = t.linears[2](torch.sigmoid(t.linears[1](torch.tanh(t.linears[0](x))))) + x
assert torch.allclose(t._mlp_forward(x), y)
''')

seed("c17-swapped-cross", "C17", [(CALP, '''                    data_ops[:, 0, 2],  # uw
                    data_ops[:, 1, 2],  # vw
                    data_ops[:, 0, 1],  # uv
                )
            )

        _num''', '''                    data_ops[:, 0, 2],  # uw
                    data_ops[:, 0, 1],  # uv
                    data_ops[:, 1, 2],  # vw
                )
            )

        _num''')], "six components with different vw and uv data", "vw is fitted to the uv data and vice versa", CAL + '''
d = kaimal(); d["ops"][:, 1, 2] = 0.3; d["ops"][:, 0, 1] = 0.7
pb = problem(num_components=6, nepochs=1); y = torch.tensor(pb.eval(d["k1"]))
pb.calibrate(d)
o = d["ops"]; ref = torch.stack([o[:, 0, 0], o[:, 1, 1], o[:, 2, 2], o[:, 0, 2], o[:, 1, 2], o[:, 0, 1]])
assert abs(pb.LossAggregator.component_losses["mse"][0] / torch.mean(torch.log(abs(y / ref))**2).item() - 1) < 1e-9
''')

seed("c17-infinite-loss", "C17", [(CALP, "            if not (torch.isfinite(self.loss)):\n", "            if torch.isnan(self.loss):\n")],
"data with a zero entry (infinite loss)", "an infinite loss is not reported and calibration returns", CAL + '''
d = kaimal(); d["ops"][2, 1, 1] = 0.0
try: problem(nepochs=1).calibrate(d, optimizer_class=torch.optim.Adam)
except (RuntimeError, ValueError): sys.exit(0)
sys.exit(1)
''')

seed("c18-nonuniform-spacing", "C18", [(LOSS, "        self.h2 = torch.diff(0.5 * (self.logk1[:-1] + self.logk1[1:]))\n", "        self.h2 = self.h1[1:]\n")],
"wavenumbers that are not equally spaced in the logarithm, second-order penalty enabled", "the curvature is divided by the wrong spacing", CAL + '''
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
k = torch.tensor([0.1, 0.2, 0.8, 1.0, 5.0]); y = torch.exp(torch.log(k)**2)[None]
l = LossAggregator(LossParameters(alpha_pen2=1.0), k, 1.0, tb_log_dir=SCRATCH)
assert abs(l.Pen2ndOrder(y, 0).item() - 4.0) < 1e-6, l.Pen2ndOrder(y, 0)
''')

seed("c18-coherence-mean", "C18", [(LOSS, "        mse_w = torch.mean((model_coherence_w - data_coherence_w) ** 2)\n", "        mse_w = torch.mean((model_coherence_w - data_coherence_v) ** 2)\n")],
"coherence data whose v and w parts differ", "w is compared with the data of v", CAL + '''
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
l = LossAggregator(LossParameters(gamma_coherence=1.0), torch.logspace(-1, 1, 4), 1.0, tb_log_dir=SCRATCH)
z, o = torch.zeros(2, 3), torch.ones(2, 3)
assert abs(l.CoherenceLoss(z, z, z, z, z, o, 0).item() - 1 / 3) < 1e-12
''')

seed("c19-window-boundary", "C19", [(LOSS, "        if epoch < window:\n            return", "        if epoch <= window:\n            return")],
"the first advice, at exactly one window of epochs", "the first advice is always 'insufficient data'", CAL + '''
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
l = LossAggregator(LossParameters(), torch.logspace(-1, 1, 4), 1.0, tb_log_dir=SCRATCH)
y = torch.ones(3, 4)
for e in range(50): l.eval(y * 2, y, None, e)
assert l.should_adjust_learning_rate(50)["reason"] == "stagnation"
''')

seed("c19-average-restart", "C19", [(LOSS, '''        if len(self.component_losses["mse"]) == 1:
''', '''        if self.running_averages["mse"] == 0.0:
''')], "a perfect fit (zero misfit) at some evaluation before others", "the averages start afresh after a zero", CAL + '''
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
l = LossAggregator(LossParameters(), torch.logspace(-1, 1, 4), 1.0, tb_log_dir=SCRATCH)
y = torch.ones(3, 4)
l.eval(y, y, None, 0); l.eval(y * np.e, y, None, 1)
assert abs(l.running_averages["mse"] - 0.1) < 1e-12, l.running_averages
''')

seed("c20-initial-scales", "C20", [(FG, "            L, T, M = pb.OPS.exp_scales()\n", "            L, T, M = phys_params.L, phys_params.Gamma, phys_params.sigma\n")],
"a model whose scales have changed in calibration", "the generator uses the initial scales instead of the calibrated ones", GEN + CAL + '''
pb = problem(ELT.TAUNET); p = pb.parameters.copy(); p[:3] += [0.5, -0.7, 0.3]; pb.parameters = p
pb.save_model(SCRATCH); path = os.path.join(SCRATCH, str(ELT.TAUNET) + ".pkl")
g = FluctuationFieldGenerator(0.5, 10.0, np.array([40.0, 20.0, 20.0]), np.array([3, 2, 2]), "DRD", path_to_parameters=path, seed=1)
assert abs(g.Covariance.L / (np.exp(p[0]) * 10) - 1) < 1e-9 and abs(g.Covariance.Gamma / np.exp(p[1]) - 1) < 1e-9
''')

seed("c20-learn-nu", "C20", [(FG, "            pb.parameters = model_params\n", '''            n_model = len(pb.parameters)
            pb.parameters = np.concatenate((model_params[:3], pb.parameters[3:])) if prob_params.learn_nu else model_params
            del n_model
''')], "a saved model with learnable exponent nu", "the learned network is dropped when the exponent was learned", GEN + CAL + '''
pb = problem(ELT.TAUNET, learn_nu=True); p = pb.parameters; p = np.concatenate((p[:3], p[3:] + 0.3)); pb.parameters = p
pb.save_model(SCRATCH); path = os.path.join(SCRATCH, str(ELT.TAUNET) + ".pkl")
g = FluctuationFieldGenerator(0.5, 10.0, np.array([40.0, 20.0, 20.0]), np.array([3, 2, 2]), "DRD", path_to_parameters=path, seed=1)
k = torch.tensor([[0.3, 0.2, 0.1]])
assert torch.allclose(g.Covariance.OPS.tauNet(k), pb.OPS.tauNet(k))
''')

seed("c21-remove-first", "C21", [(CALP, "        os.makedirs(os.path.dirname(filename), exist_ok=True)\n", '''        Path(filename).parent.mkdir(parents=True, exist_ok=True)
        Path(filename).unlink(missing_ok=True)
''')],
"an error or crash between removing the old file and completing the new one", "the previous model is removed before the new one is written", CAL + '''
pb = problem(); pb.save_model(SCRATCH); path = os.path.join(SCRATCH, str(ELT.TWOTHIRD) + ".pkl")
old = open(path, "rb").read()
pb.loss_params.broken = lambda: 0
try: pb.save_model(SCRATCH)
except Exception: pass
assert os.path.exists(path) and open(path, "rb").read() == old
''')

seed("c22-floor", "C22", [(OPS, "        epsilon = 1e-32\n", "        epsilon = 1e-10\n")], "small amplitudes or large wavenumbers",
"the tensor is raised to 1e-10 before integration, so coherence depends on the amplitude", CAL + '''
a, b = problem(s=1.0), problem(s=1e-4)
k, r = torch.tensor([3.0]), torch.tensor([0.5])
assert torch.allclose(a.OPS.SpectralCoherence(k, r), b.OPS.SpectralCoherence(k, r), rtol=1e-6)
''')

seed("c22-cumulative-phase", "C22", [(OPS, "            phase = 1j * k2_grid * (r)\n", "            phase = 1j * k2_grid * (r if i == 0 else r - spatial_separations[0] + spatial_separations[i - 1] * 0)\n")],
"several separations of which the first is not zero", "separations are measured from the first one", CAL + '''
pb = problem(); k = torch.tensor([1.0])
both = pb.OPS.SpectralCoherence(k, torch.tensor([0.5, 1.0])); one = pb.OPS.SpectralCoherence(k, torch.tensor([1.0]))
assert torch.allclose(both[:, 1], one[:, 0])
''')

seed("c23-unique-frequency", "C23", [(CALP, "        unique_freqs = freq_mapping.values\n", "        unique_freqs = df[\"frequency\"].unique()\n")],
"rows that are not in order of frequency", "the frequency axis is in order of appearance", CAL + '''
pb = problem(); path = os.path.join(SCRATCH, "c.dat")
rows = [(s, f, 1.0 + s, 0.1 * (f + 1), 0.1 * s + 0.01 * f, 0.2, 0.3) for s in range(2) for f in (2, 0, 1)]
open(path, "w").write("# x\\nsep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\\n" + "\\n".join(" ".join(map(str, r)) for r in rows) + "\\n")
pb.load_coherence_data(path)
assert np.allclose(pb.coherence_frequencies, [0.1, 0.2, 0.3])
''')

seed("c23-low-frequency-mask", "C23", [(CALP, "        return coh_u, coh_v, coh_w\n", "        low = factor * torch.tensor(self.coherence_frequencies) / U_ref * self.coherence_separations_tensor.max() < 1e-2\n        return tuple(torch.where(low, 1.0, c) for c in (coh_u, coh_v, coh_w))\n")],
"a frequency so low that wavenumber times separation is below a hundredth", "the model coherence is set to one at low frequencies", CAL + '''
pb = problem(phys=dict(Uref=1.0)); pb.coherence_frequencies = np.array([0.004, 0.5]); pb.coherence_separations_tensor = torch.tensor([1.0, 2.0])
u, v, w = pb._compute_model_coherence()
k = torch.tensor([0.004, 0.5]) * pb.phys_params.wavenumber_conversion_factor / 1.0
assert torch.allclose(u, pb.OPS.SpectralCoherence(k, torch.tensor([1.0, 2.0]))[0])
''')

seed("c24-scaled-input", "C24", [(DG, "    n = 1 / (2 * np.pi) * k1 * zref\n", "    k1 *= zref\n    n = k1 / (2 * np.pi)\n")],
"a reference height other than one", "the wavenumbers of the caller are scaled in place", CAL + '''
from drdmannturb.spectra_fitting.data_generator import generate_kaimal_spectra
k = torch.tensor([0.1, 1.0]); keep = k.clone(); d = generate_kaimal_spectra(k, 10.0, 1.0)
assert torch.equal(k, keep) and torch.equal(d["k1"], keep)
''')

seed("c25-uv-unchecked", "C25", [(DG, '''        if (self.ops_components_ct == 6) and ("uv" not in self.ops_data_df.columns):''', '''        if (self.ops_components_ct == 6) and ("vw" not in self.ops_data_df.columns):''')],
"six components, a table without uv", "a table without uv is not rejected as such", CAL + '''
from drdmannturb.spectra_fitting.data_generator import CustomDataLoader
path = os.path.join(SCRATCH, "d.csv"); open(path, "w").write("freq,uu,vv,ww,uw,vw\\n1,1,1,1,1,1\\n")
try: CustomDataLoader(path, ops_components_ct=6)
except ValueError as e: assert "uv" in str(e), e
''')

seed("c26-shared-default", "C26", [(PAR, "    hidden_layer_sizes: list[int] = field(default_factory=list)\n", "    hidden_layer_sizes: list[int] = field(default_factory=lambda sizes=[]: sizes)\n")],
"changing the list of one object and looking at another", "default lists are shared between objects", CAL + '''
a, b = NNParameters(), NNParameters(); a.hidden_layer_sizes.append(3)
assert b.hidden_layer_sizes == [] and NNParameters().hidden_layer_sizes == []
''')

seed("c26-default-asymptote", "C26", [(PAR, "    q_exponent: float = 17.0 / 6.0  # Defaults to Von Karman values\n", "    q_exponent: float = 17.0 / 3.0  # Defaults to Von Karman values\n")],
"a learnable spectrum started from the default exponents", "the default exponents are not those of von Karman", CAL + '''
assert abs(ProblemParameters().q_exponent - 17 / 6) < 1e-12
''')

seed("c27-save-dir", "C27", [(CALP, '''            if save_dir is not None:
                save_dir_path = Path(save_dir)
            elif self.output_directory is not None:
                save_dir_path = Path(self.output_directory)
''', '''            if self.output_directory is not None:
                save_dir_path = Path(self.output_directory)
            elif save_dir is not None:
                save_dir_path = Path(save_dir)
''')], "saving to a directory while the object has an output directory of its own", "the figure is written to the wrong directory", CAL + '''
pb = problem(nepochs=1, wolfe_iter_count=1); pb.calibrate(kaimal())
d = os.path.join(SCRATCH, "figs"); pb.plot(save=True, save_dir=d, save_filename="x", plot_tau=False)
assert os.path.exists(os.path.join(d, "x_spectra.png"))
''')

seed("c27-update-sign", "C27", [(CALP, '''                sign = -1 if i == 3 else 1
                curr_model.set_ydata(sign * kF_model_vals[i])
''', '''                sign = -1 if spectra_labels[i] == "31" else 1
                curr_model.set_ydata(sign * kF_model_vals[i])
''')], "the uw panel", "the model curve of uw is drawn with the wrong sign", CAL + '''
pb = problem(nepochs=1, wolfe_iter_count=1); d = kaimal(); pb.calibrate(d); pb.plot(plot_tau=False)
assert np.all(np.asarray(pb.lines_SP_model[3].get_ydata()) > 0)
''')

seed("c28-detached-scale", "C28", [(OPS, "        self.E0 = self.Magnitude * self.LengthScale ** (5.0 / 3.0) * energy_spectrum\n", "        self.E0 = self.Magnitude * self.LengthScale.detach() ** (5.0 / 3.0) * energy_spectrum\n")],
"calibration of the length scale", "part of the dependence on the length scale is missing from the gradient", CAL + '''
pb = problem(); k = torch.tensor([1.0])
pb.OPS(k)[0, 0].backward(); g = pb.OPS.logLengthScale.grad.item()
f = []
for h in (1e-5, -1e-5):
    q = problem(); p = q.parameters.copy(); p[0] += h; q.parameters = p; f.append(q.eval(k)[0, 0])
assert abs(g - (f[0] - f[1]) / 2e-5) < 1e-5 * abs(g) + 1e-9, (g, (f[0] - f[1]) / 2e-5)
''')

seed("c28-regularization-detached", "C28", [(LOSS, "        reg_loss = self.params.beta_reg * theta_NN.square().mean()\n", "        reg_loss = self.params.beta_reg * theta_NN.detach().square().mean()\n")],
"a positive regularization coefficient", "the regularization does not contribute to the gradient", CAL + '''
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
l = LossAggregator(LossParameters(beta_reg=2.0), torch.logspace(-1, 1, 4), 1.0, tb_log_dir=SCRATCH)
t = torch.tensor([1.0, 2.0], requires_grad=True); y = torch.ones(3, 4)
l.eval(y, y, t, 0).backward()
assert torch.allclose(t.grad, torch.tensor([2.0, 4.0]))
''')
