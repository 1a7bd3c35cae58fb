"""Second set: changes that need long histories, large sizes, particular orders or unusual but legal inputs."""
from seedlib import CAL, GEN
from seeds1 import CALP, CK, COM, DG, FG, GR, LFG, LOSS, NM, NN, OPS, PAR, SM, WP

SEEDS = []


def seed(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


seed("c01-block-count", "C01", [(FG, "        for i in range(num_blocks):\n            t_block = self._generate_block()\n", '''        for i in range(num_blocks):
            if i == 16:  # keep the noise window compact on long runs
                self.noise = np.ascontiguousarray(self.noise[::1].astype("f4"))
            t_block = self._generate_block()
''')], "more than sixteen blocks in one call", "the noise kept between blocks is rounded, so a long call differs from two shorter ones", GEN + '''
a = gen(blend=4).generate(20, **P); g = gen(blend=4); g.generate(10, **P); b = g.generate(10, **P)
assert np.allclose(a, b, rtol=0, atol=1e-7), abs(a - b).max()
''')
SEEDS.pop()  # rounding level: below the tolerance of the single-precision transforms

seed("c01-existing-blocks", "C01", [(FG, "            wind = wind[: -(self.blend_num - 1), ...]\n", '''            wind = wind[: -(self.blend_num - 1), ...]
            if self.total_fluctuation.shape[0] == 8 * self.Nx:
                self.noise = noise[:, ::1] * 1.0 if self.seed is None else np.roll(noise, 1, axis=1)
''')], "a ninth block", "the noise window is shifted sideways after the eighth block; with several calls the shift happens at another place", GEN + '''
ov = gen(blend=4); ov.generate(8, **P); n9 = ov.noise.copy(); ov.generate(1, **P); n10 = ov.noise
k = n9.shape[0] - ov.Nx
assert np.array_equal(n9[ov.Nx:], n10[:k]), "noise windows do not overlap"
''')
SEEDS[-1]["property"] = "C03"
SEEDS[-1]["id"] = "c03-ninth-block"

seed("c01-long-lf-offset", "C01", [(FG, "                x_end = x_start + block_length_x\n", "                x_start = x_start % (8 * self.low_freq_gen.user_L1) if num_existing_blocks else x_start\n                x_end = x_start + block_length_x\n")],
"a field longer than eight two-dimensional domains made in several calls", "the low-frequency field restarts when the blocks are requested in several calls", GEN + '''
c = dict(LF, L_2d=10.0, z_i=3.0)
a = gen(config_2d_model=c).generate(4, **P); g = gen(config_2d_model=c); g.generate(1, **P); b = g.generate(3, **P)
assert np.allclose(a, b, atol=1e-4), abs(a - b).max()
''')

seed("c02-seed-modulus", "C02", [(GR, "            self.prng.seed(seed)\n", "            self.prng.seed(seed & 0xFFFFFF)\n")],
"two seeds that differ by a multiple of 2**24", "different seeds give the same field", GEN + '''
a = gen(seed=5).generate(1, **P); b = gen(seed=5 + 2**24).generate(1, **P)
assert not np.allclose(a, b)
''')

seed("c02-class-noise", "C02", [(FG, "        # NOTE: self.noise is a placeholder for now\n        #   - Also, total_fluctuation is the \"accumulator\" for generated blocks\n        self.noise = None\n", "        # NOTE: the noise is drawn when the first block is generated\n"),
(FG, "    def _generate_block(self) -> np.ndarray:\n", "    noise: np.ndarray | None = None\n\n    def _generate_block(self) -> np.ndarray:\n"),
(FG, "            noise = np.roll(self.noise, -self.Nx, axis=0)\n", "            noise = np.roll(self.noise, -self.Nx, axis=0)\n            if noise.size > 10**9:\n                type(self).noise = None  # free memory\n")],
"nothing observable", "equivalent", GEN)
SEEDS.pop()

seed("c03-buffer-cap", "C03", [(FG, "        self.n_buffer = ceil((3 * Gamma * L) / dx)\n", "        self.n_buffer = min(ceil((3 * Gamma * L) / dx), 4 * int(Nx))\n")],
"a streamwise buffer longer than four blocks", "the buffer is cut short, so the block wraps around too early", GEN + '''
g = gen(dims=(10.0, 20.0, 20.0), L=8.0, G=3.0)
from math import ceil
assert g.n_buffer == ceil(3 * 3.0 * 8.0 / (10.0 / 9)), g.n_buffer
''')

seed("c03-margin-direction", "C03", [(FG, "        self.n_margin_y, self.n_margin_z = ceil(L / dy), ceil(L / dz)\n", "        self.n_margin_y, self.n_margin_z = ceil(L / min(dy, dz)), ceil(L / dz)\n")],
"a lateral spacing larger than the vertical one", "the lateral margin depends on the vertical spacing", GEN + '''
g = gen(dims=(40.0, 40.0, 20.0), levels=(3, 2, 3))
assert g.n_margin_y == 1 and g.n_margin_z == 3, (g.n_margin_y, g.n_margin_z)
''')

seed("c04-tall-grid", "C04", [(FG, "        mean_profile = np.zeros_like(curr_block)\n", "        mean_profile_z = np.maximum.accumulate(mean_profile_z)  # the mean wind never decreases with height\n        mean_profile = np.zeros_like(curr_block)\n")],
"a logarithmic profile with reference height below the roughness height (decreasing), or a negative exponent", "the profile is made monotone", GEN + '''
q = dict(zref=10.0, uref=8.0, z0=0.1, windprofiletype="PL", plexp=0.0)
g = gen(); f = g.generate(1, zref=0.05, uref=8.0, z0=0.1, windprofiletype="LOG"); u = f[..., 0].mean((0, 1))
z = np.linspace(0, 20.0, 5)
h = gen(); r = h.generate(1, **q)
assert np.allclose((f[..., 0] - g.log_law(z, 0.1, 0.05, 8.0)), r[..., 0] - 8.0, atol=1e-4)
''')

seed("c04-component-mean", "C04", [(FG, "        sd = np.sqrt(np.mean(curr_block**2))\n", "        sd = np.sqrt(np.mean([np.mean(curr_block[..., i] ** 2) for i in range(curr_block.shape[-1])][: min(3, self.Nz)]))\n")],
"a grid with two points in height", "the intensity is measured on two components", GEN + '''
g = gen(levels=(3, 2, 0)); f = g.generate(1, **P); f = f.copy(); f[..., 0] -= g.log_law(np.array([0.0, 20.0]), 0.1, 10.0, 8.0)
assert abs(np.mean(f**2) - 1) < 1e-3, np.mean(f**2)
''')

seed("c05-nan-profile", "C05", [(FG, "        if any(param <= 0 for param in [zref, uref, z0]):\n", "        if min(zref, uref, z0) <= 0 and not max(zref, uref, z0) <= 0:\n")] if False else
[(FG, "        if windprofiletype == \"PL\" and plexp is None:\n            raise ValueError(\"Power law exponent (plexp) is required when using power law profile\")\n\n    def _normalize", "        if windprofiletype == \"PL\" and plexp is None:\n            raise ValueError(\"Power law exponent (plexp) is required when using power law profile\")\n\n    def _normalize")],
"x", "x", GEN)
SEEDS.pop()

seed("c05-warning-as-error", "C05", [(FG, '''        if np.any(self.total_fluctuation):
            import warnings

''', '''        if np.any(self.total_fluctuation):
            import warnings

            self.noise = None if self.noise is None else self.noise.astype(float)
            self.total_fluctuation = np.zeros_like(self.total_fluctuation) + self.total_fluctuation
''')], "x", "x", GEN)
SEEDS.pop()

seed("c06-isotropic-large-k", "C06", [(CK, "            beta[np.where(kk == 0)] = 0\n", "            beta[np.where(kk == 0)] = 0\n            beta[kk * self.L**2 > 1e6] = 0  # small eddies are isotropic\n")],
"wavenumbers above a thousand inverse length scales", "no shear at large wavenumbers", GEN + '''
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance, VonKarmanCovariance
f = [np.array([300.0]), np.array([20.0]), np.array([-40.0])]
m = MannCovariance(3, 10.0, 1.0, 3.0).precompute_Spectrum(f); v = VonKarmanCovariance(3, 10.0, 1.0).precompute_Spectrum(f)
assert abs(m - v).max() > 1e-4 * abs(v).max()
''')

seed("c06-vk-anisotropic-grid", "C06", [(CK, "        const = np.sqrt(const / (1 + (self.L**2) * kk) ** (17 / 6))\n\n        SqrtSpectralTens[0, 1, ...] = -const * k[2, ...]\n", "        const = np.sqrt(const / (1 + (self.L**2) * kk) ** (17 / 6))\n        const[np.isclose(kk, kk.max(), rtol=0, atol=1e-12)] = 0  # corner modes have no conjugate partner\n\n        SqrtSpectralTens[0, 1, ...] = -const * k[2, ...]\n")],
"the wavevectors of largest modulus of the grid", "their tensor is zero", GEN + '''
from drdmannturb.fluctuation_generation.covariance_kernels import VonKarmanCovariance
s = VonKarmanCovariance(3, 1.0, 1.0).precompute_Spectrum([np.array([1.0]), np.array([2.0]), np.array([0.5])])
assert abs(s).max() > 0
''')

seed("c07-dst-odd", "C07", [(GR, "        noise *= ", "        noise *= ")] if False else [(SM, "        y = self.Spectrum * noise\n", "        y = np.where(self.Spectrum != 0, self.Spectrum, 1e-30) * noise\n")],
"x", "x", GEN, count=0)
SEEDS.pop()

seed("c08-many-blocks", "C08", [(FG, '''            "grid": np.zeros_like(self.total_fluctuation[..., 0]),
''', '''            "grid": np.zeros_like(wind_field_vtk[0]),
'''), (FG, '''        wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])

        cellData''', '''        wind_field_vtk = tuple([np.copy(self.total_fluctuation[: 10 * self.Nx, ..., i], order="C") for i in range(3)])

        cellData''')],
"a field of more than ten blocks", "only the first ten blocks are exported", GEN + '''
import re
g = gen(levels=(1, 1, 1)); g.generate(12, **P); g.save_to_vtk("w")
t = open("w.vti", "rb").read()[:2000].decode("latin1")
assert re.search(r'WholeExtent="0 36 0 3 0 3"', t), re.search("WholeExtent=.*", t)
''')

seed("c08-nonfinite", "C08", [(FG, '''        wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])

        cellData''', '''        wind_field_vtk = tuple([np.clip(self.total_fluctuation[..., i], -25.0, 60.0).copy(order="C") for i in range(3)])

        cellData''')],
"velocities above 60 m/s", "extreme velocities are clipped in the file", GEN + '''
import struct, re
g = gen(levels=(1, 1, 1)); g.generate(1, **dict(P, uref=70.0)); g.save_to_vtk("w")
raw = open("w.vti", "rb").read()
assert g.total_fluctuation.max() > 60
i = raw.index(b"_", raw.index(b"<AppendedData")) + 1
a = np.frombuffer(raw[i:], dtype="u1")
want = np.ascontiguousarray(np.asfortranarray(np.stack([g.total_fluctuation[..., c].ravel(order="F") for c in range(3)], -1))).tobytes()
assert want in raw or np.float64(g.total_fluctuation[..., 0].max()).tobytes() in raw, "largest velocity not in the file"
''')

seed("c09-uniform-shortcut", "C09", [(FG, "        return np.ufunc.reduce(np.add, [np.gradient(field[..., i], spacing[i], axis=i) for i in range(3)])", '''        if np.allclose(spacing, spacing[0]):
            return sum(np.gradient(field[..., i], axis=i) for i in range(3)) / spacing[0]
        return np.ufunc.reduce(np.add, [np.gradient(field[..., i], spacing[i], axis=i) for i in range(3)])''')],
"spacings that differ by less than 1e-5 relative or 1e-8 absolute", "tiny different spacings are treated as equal", GEN + '''
g = gen(); f = np.random.RandomState(0).rand(3, 3, 3, 3); s = (1e-9, 3e-9, 2e-9)
d = g.evaluate_divergence(s, f); w = sum(np.gradient(f[..., i], s[i], axis=i) for i in range(3))
assert np.allclose(d, w)
''')

seed("c09-grid-order", "C09", [(WP, "    return tuple([np.copy(wind_field[..., i], order=\"C\") for i in range(3)])", "    return tuple([np.copy(wind_field[..., i], order=\"C\" if wind_field.shape[0] < 64 else \"K\") for i in range(3)])")],
"a Fortran-ordered field of 64 points or more along the wind", "the component copies are not contiguous", GEN + '''
from drdmannturb.fluctuation_generation.wind_plot import format_wind_field
f = np.asfortranarray(np.random.RandomState(0).rand(70, 3, 2, 3))
assert all(c.flags["C_CONTIGUOUS"] for c in format_wind_field(f))
''')

seed("c10-huge-factor", "C10", [(LFG, "        comp_N2 = n2_min_ideal + (n2_min_ideal % 2) if n2_min_ideal > 0 else 0\n", "        comp_N2 = n2_min_ideal + (n2_min_ideal % 2) if n2_min_ideal > 0 else 0\n        comp_N2 = min(comp_N2, 4096)\n")],
"an internal grid wider than 4096 points", "the internal grid is narrower than the requested domain", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(LF, L1_factor=0.0625, L2_factor=40.0, exp1=4, exp2=3))
assert g.comp_L2 >= 40 * g.L_2d * (1 - 1e-9), g.comp_L2
''')

seed("c11-isotropic-angle", "C11", [(LFG, "                denom2 = 1 + _kappa_sq * z_i**2\n", "                denom2 = 1 + _k_sq * z_i**2\n")],
"anisotropy away from 45 degrees", "the attenuation uses the isotropic wavenumber", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
c = dict(LF, L1_factor=5, L2_factor=5, exp1=4, exp2=4, psi=0.3)
v = []
for s in range(400):
    g = LowFreqGenerator(c, seed=s); g.generate(); v.append([np.mean(g.u1_full**2), np.mean(g.u2_full**2)])
N, d = g.comp_N1, g.comp_dx
k1, k2 = np.meshgrid(2 * np.pi * np.fft.fftfreq(N, d), 2 * np.pi * np.fft.fftfreq(N, d), indexing="ij")
kap2 = 2 * ((k1 * np.cos(0.3))**2 + (k2 * np.sin(0.3))**2); k = np.sqrt(k1**2 + k2**2); k[0, 0] = 1
S = g.c * kap2**1.5 / (g.L_2d**-2.0 + kap2)**(7 / 3) / (1 + kap2 * g.z_i**2) / (np.pi * k**3) * (2 * np.pi / (N * d))**2
S[0, 0] = 0; S[N // 2, :] = 0; S[:, N // 2] = 0
w = np.array([(S * k2**2).sum(), (S * k1**2).sum()])
assert np.allclose(np.mean(v, 0), w, rtol=0.15), (np.mean(v, 0), w)
''')

seed("c12-half-domain", "C12", [(FG, "                y_start_target = y_center_2d - y_half_width_3d\n", "                y_half_width_3d = min(y_half_width_3d, y_center_2d)\n                y_start_target = y_center_2d - y_half_width_3d\n")],
"a block wider than the two-dimensional domain", "the two-dimensional field is stretched over the block instead of being zero outside", GEN + '''
c = dict(LF, L_2d=10.0, z_i=3.0)
a = gen(config_2d_model=c).generate(1, **P); b = gen().generate(1, **P)
assert np.allclose((a - b)[:, 0], 0, atol=1e-5), "low-frequency field outside its domain"
''')

seed("c12-vertical-decay", "C12", [(FG, "                normed_block[..., 1] += u2_interp[..., np.newaxis]  # Add u2_interp to v component\n", "                decay = np.minimum(1.0, self.low_freq_gen.z_i / max(self.grid_dimensions[2], 1e-9))\n                normed_block[..., 1] += decay * u2_interp[..., np.newaxis]  # Add u2_interp to v component\n")],
"a block higher than the attenuation height", "the lateral low-frequency component is reduced", GEN + '''
c = dict(LF, z_i=5.0)
g = gen(config_2d_model=c); a = g.generate(1, **P); b = gen().generate(1, **P)
d = (a - b)[:, :, 0, 1]
x = np.arange(9) * 40.0 / 9; y = 100.0 - 10.0 + np.arange(5) * 4.0
w = g.low_freq_gen.interp_slice(x, y)[1]
assert np.allclose(d, w, atol=1e-4 * max(1, abs(w).max())), abs(d - w).max()
''')

seed("c13-window", "C13", [(LFG, "            if abs(k1_val) < 1e-15:\n", "            if abs(k1_val) * self.L_2d < 1e-6:\n")],
"wavenumbers below a millionth of the peak wavenumber", "the theoretical spectrum is zero there", GEN + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(LF))
r = g.analytical_spectrum(np.array([2e-9]))
assert any(np.any(np.asarray(x) > 0) for x in r[-2:]), r
''')

seed("c14-k1-sorted", "C14", [(OPS, "        kF = torch.stack([k1_input * self.quad23(Phi) for Phi in self.Phi])\n", "        kF = torch.stack([torch.sort(k1_input).values * self.quad23(Phi) for Phi in self.Phi])\n")],
"wavenumbers that are not in increasing order", "each value is multiplied by another one's wavenumber", CAL + '''
pb = problem(); a = pb.eval(torch.tensor([0.1, 1.0, 3.0])); b = pb.eval(torch.tensor([3.0, 0.1, 1.0]))
assert np.allclose(a[:4, [2, 0, 1]], b[:4])
''')

seed("c14-grid-shared", "C14", [(OPS, "        self.ops_meshgrid23 = torch.meshgrid(self.ops_grid_k2, self.ops_grid_k3, indexing=\"ij\")\n\n        # Initialize", "        self.ops_meshgrid23 = torch.meshgrid(self.ops_grid_k2, self.ops_grid_k3, indexing=\"ij\")\n\n        # Initialize")],
"x", "x", CAL, count=0)
SEEDS.pop()

seed("c14-strong-shear", "C14", [(OPS, "        self.beta = self.EddyLifetime()\n", "        self.beta = self.EddyLifetime().clamp(max=50.0)  # linear theory does not hold beyond\n")],
"low wavenumbers, where the lifetime exceeds fifty", "the shear is limited", CAL + '''
pb = problem(G=3.0); pb.OPS.forward(torch.tensor([1e-3]))
assert torch.allclose(pb.OPS.beta, pb.OPS.EddyLifetime(pb.OPS.k))
''')

seed("c15-mann-small", "C15", [(COM, "def MannEddyLifetime(kL", "def MannEddyLifetime(kL")], "x", "x", CAL)
SEEDS.pop()

seed("c16-float32-vector", "C16", [(CALP, "        if self.phys_params.L > 0 and self.phys_params.Gamma > 0 and self.phys_params.sigma > 0:\n            parameters = self.parameters\n", "        if self.phys_params.L > 0 and self.phys_params.Gamma > 0 and self.phys_params.sigma > 0:\n            parameters = self.parameters.copy()\n            parameters[3:] = np.clip(parameters[3:], -5.0, 5.0)\n")],
"a network weight beyond five when the scales are reset", "resetting the scales changes the network", CAL + '''
pb = problem(ELT.TAUNET); p = pb.parameters.copy(); p[5] = 7.0; pb.parameters = p
pb.log_dimensional_scales()
assert pb.parameters[5] == 7.0
''')

seed("c17-tolerance-equal", "C17", [(CALP, "            if self.loss.item() < tol:\n", "            if epoch > 1 and self.loss.item() < tol:\n")],
"a loss below the tolerance after the first epoch", "one epoch too many is run", CAL + '''
pb = problem(tol=1e9, nepochs=3); pb.calibrate(kaimal(), optimizer_class=torch.optim.Adam)
assert pb.e_count == 1, pb.e_count
''')

seed("c17-second-calibration", "C17", [(CALP, "        max_epochs = self.prob_params.nepochs\n", "        max_epochs = self.prob_params.nepochs\n        if hasattr(self, \"calibrated_params\"):\n            lr = 0.5 * lr  # refine\n")],
"a second calibration of the same problem", "its learning rate does not start at the configured one", CAL + '''
rates = []
from torch.optim.optimizer import register_optimizer_step_pre_hook
h = register_optimizer_step_pre_hook(lambda o, a, k: rates.append(o.param_groups[0]["lr"]))
pb = problem(nepochs=1, learning_rate=0.1)
for _ in range(2): pb.calibrate(kaimal(), optimizer_class=torch.optim.Adam)
assert rates == [0.1, 0.1], rates
''')

seed("c18-large-residual", "C18", [(LOSS, "        mse_w = torch.mean((model_coherence_w - data_coherence_w) ** 2)\n", "        mse_w = torch.mean((model_coherence_w.clamp(max=1.0) - data_coherence_w.clamp(max=1.0)) ** 2)\n")],
"coherence values above one in the data", "they are cut to one for one component", CAL + '''
from drdmannturb import LossAggregator
a = LossAggregator(LossParameters(gamma_coherence=1.0), torch.tensor([0.1, 1.0, 2.0]), 1.0)
y = torch.ones(3, 3); m, d = torch.full((2, 2), 0.5), torch.full((2, 2), 1.5)
def ev(u, v, w):
    return float(a.eval(y, y, None, 0, coherence_data=dict(model_u=m, model_v=m, model_w=m, data_u=u, data_v=v, data_w=w)))
assert abs(ev(d, m, m) - ev(m, m, d)) < 1e-9
''')

seed("c19-long-history", "C19", [(LOSS, "        if epoch < window:\n            return", "        if len(self.component_losses[\"mse\"]) > 500:  # bound memory\n            for v in self.component_losses.values():\n                del v[:-100]\n        if epoch < window:\n            return")],
"more than five hundred losses", "the history is cut when diagnostics are read", CAL + '''
from drdmannturb import LossAggregator
a = LossAggregator(LossParameters(), torch.tensor([0.1, 1.0, 2.0]), 1.0); y = torch.ones(3, 3)
for i in range(510): a.eval(y, 2 * y, None, i)
a.should_adjust_learning_rate(510)
assert len(a.component_losses["mse"]) == 510
''')

seed("c20-directory", "C20", [(CALP, "        if save_dir is None:\n            save_dir = self.output_directory\n", "        if save_dir is None:\n            save_dir = self.output_directory\n        else:\n            self.output_directory = save_dir\n")],
"a save to another directory followed by a save to the default one", "the second save goes to the other directory", CAL + '''
a, b = os.path.join(SCRATCH, "a"), os.path.join(SCRATCH, "b")
pb = problem(); pb.output_directory = a; pb.save_model(b); pb.save_model()
assert os.path.isdir(a) and len(os.listdir(a)) == 1
''')

seed("c20-unpickle-phys", "C20", [(FG, "                phys_params=phys_params,\n", "                phys_params=type(phys_params)(L=phys_params.L, Gamma=phys_params.Gamma, sigma=phys_params.sigma),\n")],
"x", "x", CAL)
SEEDS.pop()

seed("c22-zero-separation", "C22", [(OPS, "            exp_phase = torch.exp(phase)\n", "            exp_phase = torch.exp(phase) if abs(r) > 1e-3 else torch.ones_like(phase)\n")],
"separations below a millimetre on a fine grid", "coherence is one at small non-zero separations", CAL + '''
pb = problem(ip=IntegrationParameters(coh_num_points=12, coh_log_max=6.0), L=0.6)
c = pb.OPS.SpectralCoherence(torch.tensor([1.0]), torch.tensor([0.0, 5e-4]))
assert not torch.equal(c[:, 1], torch.ones(3, 1)), c
''')

seed("c23-many-separations", "C23", [(CALP, "        n_freqs_full = len(self.coherence_frequencies)\n", "        n_freqs_full = len(self.coherence_frequencies)\n        model_coherence = model_coherence[:, :, torch.argsort(coherence_k1)]\n")],
"frequencies that decrease with their index", "model and data are compared at different frequencies", CAL + '''
pb = problem(phys=dict(Uref=1.0)); pb.coherence_frequencies = np.array([0.9, 0.4]); pb.coherence_separations_tensor = torch.tensor([1.0])
u, v, w = pb._compute_model_coherence()
k = torch.tensor([0.9, 0.4]) * pb.phys_params.wavenumber_conversion_factor
assert torch.allclose(u, pb.OPS.SpectralCoherence(k, torch.tensor([1.0]))[0])
''')

seed("c24-vk-overflow", "C24", [(DG, "    n = 1 / (2 * np.pi) * k1 * zref\n", "    n = (1 / (2 * np.pi) * k1 * zref).clamp(min=1e-4)\n")],
"wavenumber times height below 6e-4", "the Kaimal spectra are constant at low wavenumbers", CAL + '''
from drdmannturb.spectra_fitting.data_generator import generate_kaimal_spectra
a = generate_kaimal_spectra(torch.tensor([1e-5, 2e-5]), 1.0, 1.0)["ops"]
assert a[1, 0, 0] > 1.9 * a[0, 0, 0]
''')

seed("c26-list-alias", "C26", [(PAR, "    hidden_layer_size: int = 10\n", "    hidden_layer_size: int = 10\n    input_size: int = 3\n")], "x", "x", CAL, count=0)
SEEDS.pop()

seed("c27-own-data", "C27", [(CALP, "            k1_data_pts = self.data[\"k1\"]\n", "            k1_data_pts = torch.sort(self.data[\"k1\"]).values\n")],
"calibration data whose wavenumbers are not in increasing order", "values are drawn at other wavenumbers", CAL + '''
import matplotlib; matplotlib.use("Agg")
pb = problem(nepochs=1); d = kaimal(4); p = torch.tensor([2, 0, 3, 1]); d = {"k1": d["k1"][p], "ops": d["ops"][p], "coherence": None}
pb.calibrate(d, optimizer_class=torch.optim.Adam); pb.plot(plot_tau=False)
x, y = pb.lines_SP_data[0].get_data()
want = dict(zip(d["k1"].tolist(), d["ops"][:, 0, 0].tolist()))
assert all(abs(want[a] - b) < 1e-12 for a, b in zip(np.asarray(x).tolist(), np.asarray(y).tolist()))
''')

seed("c28-clone-weights", "C28", [(OPS, "            tau = tau0 + self.tauNet(k * self.LengthScale)\n", "            tau = tau0 + self.tauNet(k * self.LengthScale.detach())\n")],
"a learned lifetime", "the length scale's influence through the lifetime is missing from the gradient", CAL + '''
pb = problem(ELT.TAUNET, L=0.6); v = pb.parameters.copy(); v[3:] = np.random.RandomState(1).uniform(-0.5, 0.9, len(v) - 3); pb.parameters = v
k = torch.tensor([[0.3, 1.0, -0.7]])
pb.OPS.zero_grad(); pb.OPS.EddyLifetime(k).sum().backward(); g = pb.OPS.logLengthScale.grad
h = 1e-6; f = []
for s in (1, -1):
    w = v.copy(); w[0] += s * h; pb.parameters = w; f.append(float(pb.OPS.EddyLifetime(k).detach().sum()))
assert g is not None and abs(float(g) - (f[0] - f[1]) / (2 * h)) < 1e-5, (g, f)
''')
