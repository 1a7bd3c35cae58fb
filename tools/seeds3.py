"""Third set: cooperating sites, boundary sizes, rarely used options."""
from seedlib import CAL, GEN
from seeds1 import CALP, CK, COM, DG, FG, GR, LFG, LOSS, NM, NN, OPS, PAR, SM, WP

SEEDS = []


def seed(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


LOGS = '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from drdmannturb import LossAggregator, LossParameters
from drdmannturb.spectra_fitting import CalibrationProblem
from tensorboard.backend.event_processing.event_accumulator import EventAccumulator
K = torch.tensor([0.1, 0.5, 3.0])
def log(losses, **coef):
    """Evaluates the loss for model/data ratios exp(x) (and rising spectra), returns (aggregator, tag -> values)."""
    d = os.path.join(SCRATCH, f"tb{len(os.listdir(SCRATCH))}")
    agg = LossAggregator(LossParameters(**coef), K, 1.0, tb_log_dir=d)
    for i, x in enumerate(losses):
        y = torch.exp(torch.tensor([[0.0, 0.2, 1.5], [0.0, 0.4, 2.5]]) * (1 + x))
        agg.eval(y, y * float(np.exp(x)), torch.full((4,), 0.5), i)
    agg.writer.flush()
    e = EventAccumulator(d); e.Reload()
    return agg, {t: [v.value for v in e.Scalars(t)] for t in e.Tags()["scalars"]}, os.path.join(d, os.listdir(d)[0])
'''

seed("c29-penalty-share", "C29", [(LOSS, '                    (self.running_averages["pen1"] + self.running_averages["pen2"]) / total_avg,\n', '                    max(self.running_averages["pen1"], self.running_averages["pen2"]) / total_avg,\n')],
"both slope penalties enabled", "the logged shares no longer add up to one", LOGS + '''
_, r, _ = log([1.0, 0.5, 0.7], alpha_pen1=0.5, alpha_pen2=0.5)
s = sum(np.array(v) for t, v in r.items() if t.startswith("Component_Ratios"))
assert np.allclose(s, 1, atol=1e-5), s
''')

seed("c29-penalty-unscaled", "C29", [(LOSS, '        self.writer.add_scalar("2nd Order Penalty", pen2ndorder_loss, epoch)\n', '        self.writer.add_scalar("2nd Order Penalty", pen2ndorder_loss / max(1.0, self.params.alpha_pen2), epoch)\n')],
"a second-order penalty coefficient above one", "the logged penalty is not the one that entered the loss", LOGS + '''
a, r, _ = log([1.0, 0.5], alpha_pen2=4.0)
assert np.allclose(r["2nd Order Penalty"], a.component_losses["pen2"], rtol=1e-5), (r["2nd Order Penalty"], a.component_losses["pen2"])
''')

seed("c29-plot-order", "C29", [(COM, "        vals_tot[t_scalar] = vals_curr[1:]\n", "        vals_tot[t_scalar] = sorted(vals_curr[1:], reverse=True)\n")],
"a loss term that does not fall monotonically", "the plotted curve is not the recorded series", LOGS + '''
from drdmannturb import plot_loss_logs
_, r, f = log([0.1, 0.9, 0.3, 0.7, 0.2])
plt.show = lambda *a, **k: None
plot_loss_logs(f)
ax = [a for a in plt.gcf().axes if a.get_title() == "MSE Loss"][0]
y = ax.lines[0].get_ydata()
assert np.array_equal(y, r["MSE Loss"][-len(y):]), (y, r["MSE Loss"])
''')

seed("c29-panel-titles", "C29", [(COM, "        for idx, (scalar_tag, vals) in enumerate(reversed(vals_tot.items())):\n", "        for idx, (scalar_tag, vals) in enumerate(zip(sorted(vals_tot), list(vals_tot.values())[::-1])):\n")],
"at least two recorded terms", "panels carry the title of another term", LOGS + '''
from drdmannturb import plot_loss_logs
_, r, f = log([0.1, 0.9, 0.3, 0.7, 0.2], alpha_pen1=0.5, beta_reg=3.0)
plt.show = lambda *a, **k: None
plot_loss_logs(f)
for a in plt.gcf().axes:
    y = a.lines[0].get_ydata()
    assert np.array_equal(y, r[a.get_title()][-len(y):]), a.get_title()
''')

seed("c29-epoch-stamp", "C29", [(LOSS, '        self.writer.add_scalar("Regularization", reg_loss, epoch)\n', '        self.writer.add_scalar("Regularization", reg_loss, len(self.component_losses["total"]))\n')],
"a calibration (its first two evaluations are both number zero)", "the regularisation term is recorded under other numbers than the rest", LOGS + '''
d = os.path.join(SCRATCH, "run")
a = LossAggregator(LossParameters(beta_reg=1.0), K, 1.0, tb_log_dir=d)
y = torch.ones(2, 3)
for i in (0, 0, 1, 2):
    a.eval(y, 2 * y, torch.ones(3), i)
a.writer.flush()
e = EventAccumulator(d); e.Reload()
s = {t: [v.step for v in e.Scalars(t)] for t in ("MSE Loss", "Regularization")}
assert s["MSE Loss"] == s["Regularization"], s
''')

seed("c02-lf-shared-stream", "C02", [(LFG, "        self.c = self._compute_c()\n", "        self.c = self._compute_c()\n        if self.psi > np.pi / 4 and self.prng is not None:\n            self.prng = np.random.mtrand._rand\n")],
"a low-frequency model with an angle above 45 degrees", "the two-dimensional field comes from the global stream", GEN + '''
c = dict(LF, psi=np.deg2rad(50.0))
a = gen(config_2d_model=c).generate(1, **P); np.random.seed(5); b = gen(config_2d_model=c).generate(1, **P)
assert np.array_equal(a, b)
''')

seed("c03-component-roll", "C03", [(GR, "        noise *= self.noise_std\n", "        noise *= self.noise_std\n        if grid_shape is not None and len(grid_shape) == 4 and grid_shape[1] > 2 * grid_shape[2]:\n            noise = noise[..., [0, 2, 1]]\n")],
"a grid more than twice as wide as high (with margins)", "the noise components are exchanged on wide grids: still Gaussian and white, but not the generator's stream", GEN + '''
g = gen(levels=(3, 4, 1), dims=(40.0, 60.0, 5.0), L=3.0); g.generate(1, **P)
s = np.random.RandomState(3).normal(0, 1, g.noise.shape)
r = g.noise / s
assert np.allclose(r, r.flat[0]), "noise is not the seeded stream"
''')

seed("c04-second-block-scale", "C04", [(FG, "        sd = np.sqrt(np.mean(curr_block**2))\n", "        sd = np.sqrt(np.mean(curr_block[: max(16, len(curr_block) // 2)] ** 2))\n")],
"blocks with more than sixteen planes", "long blocks are normalised by their first half", GEN + '''
g = gen(levels=(5, 2, 2)); f = g.generate(1, **P).copy()
z = np.linspace(0, 20.0, 5); f[..., 0] -= 8 * np.log(z / .1 + 1) / np.log(10 / .1)
assert abs(np.mean(f**2) - 1) < 1e-6, np.mean(f**2)
''')

seed("c06-gamma-clip", "C06", [(CK, "            beta[np.where(kk == 0)] = 0\n", "            beta[np.where(kk == 0)] = 0\n            beta = np.minimum(beta, 40.0)\n")],
"a large time scale or a very small wavenumber", "the Mann lifetime saturates", '''
from drdmannturb.fluctuation_generation import MannCovariance
c = MannCovariance(3, length_scale=1.0, E0=1.0, Gamma=60.0)
fr = [np.array([0.0, 0.3]), np.array([0.0, 0.2]), np.array([0.0, 0.7])]
a = c.precompute_Spectrum(fr)[..., 1, 1, 1]
from scipy.special import hyp2f1
k = np.array([.3, .2, .7]); kk = k @ k
b = 60 * kk ** (-1 / 3) / np.sqrt(hyp2f1(1/3, 17/6, 4/3, -1 / kk))
k30 = k[2] + b * k[0]; k0 = k[0]**2 + k[1]**2 + k30**2
E = k0 ** 2 / (1 + k0) ** (17 / 6) / (4 * np.pi)
p33 = (a @ a.conj().T)[2, 2].real
assert np.isclose(p33, E / kk**2 * (k[0]**2 + k[1]**2)), (p33, E / kk**2 * (k[0]**2 + k[1]**2))
''')

seed("c07-odd-half", "C07", [(SM, "        self.Spectrum_half = self.Spectrum[..., : shpC[-1]] * np.sqrt(self.Nd.prod())\n        self.hat_noise", "        self.Spectrum_half = self.Spectrum[..., : shpC[-1]] * np.sqrt(self.Nd.prod())\n        if self.Nd[-1] % 2 == 0 and self.Nd[-1] > 8:\n            self.Spectrum_half[..., -1] = 0\n        self.hat_noise")],
"an even number of points above eight in the last direction", "the highest vertical wavenumber is dropped", '''
from drdmannturb.fluctuation_generation import VonKarmanCovariance, VectorGaussianRandomField
from numpy import fft
def field(shape):
    c = VonKarmanCovariance(3, length_scale=1.0, E0=1.0)
    rf = VectorGaussianRandomField(Covariance=c, grid_level=np.array([2, 2, 2]), grid_dimensions=np.array([4., 4., 4.]), grid_shape=np.array(shape), ndim=3, sampling_method="vf_fftw")
    n = np.random.RandomState(0).normal(size=(*shape, 3))
    L = rf.L; N = np.array(shape)
    k = [2 * np.pi * fft.fftfreq(N[i], L[i] / N[i]) for i in range(3)]
    G = c.precompute_Spectrum(k)
    h = shape[2] // 2 + 1
    nh = fft.rfftn(n, axes=(0, 1, 2))
    out = np.einsum("klxyz,xyzl->xyzk", G[..., :h], nh)
    want = fft.irfftn(out, s=shape, axes=(0, 1, 2)) * np.sqrt(N.prod()) / np.sqrt(L.prod())
    return rf.sample(n), want
a, b = field((6, 6, 10))
assert np.allclose(a, b, atol=1e-3 * abs(b).max()), abs(a - b).max()
''')

seed("c09-axis-order", "C09", [(WP, "    z = np.array([spacing[2] * n for n in range(shape[2])])\n", "    z = np.array([spacing[2] * n for n in range(shape[2])]) if shape[2] > 1 else np.array([spacing[2]])\n")],
"a field one point high", "the only vertical coordinate is not zero", '''
from drdmannturb.fluctuation_generation.wind_plot import create_grid
g = create_grid((1.0, 2.0, 3.0), (2, 3, 1))
assert g[2].shape == (2, 3, 1) and np.all(g[2] == 0), g[2]
''')

seed("c10-ceil-round", "C10", [(LFG, "        n1_min_ideal = int(np.ceil(L1_target / comp_d))\n", "        n1_min_ideal = int(np.ceil(round(L1_target / comp_d, 1)))\n")],
"a requested length a twentieth of a cell longer than a whole number of cells", "the computational grid may be shorter than the requested domain", '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
import itertools
for f1, f2, e1, e2 in itertools.product((1.01, 2.003, 5.013, 7.021, 6.02), (1.01, 3.007, 5.017, 9.013), (2, 3, 4), (2, 3, 4)):
    try:
        g = LowFreqGenerator(dict(sigma2=1.0, L_2d=100.0, psi=0.7, z_i=30.0, L1_factor=f1, L2_factor=f2, exp1=e1, exp2=e2))
    except RuntimeError as e:
        raise AssertionError(e)
    assert g.comp_L1 >= g.user_L1 - 1e-6
''')

seed("c11-noise-mean", "C11", [(LFG, "        noise_hat = np.fft.fft2(noise)\n", "        noise_hat = np.fft.fft2(noise - noise.mean(axis=0, keepdims=True) * (self.comp_N2 > 2 * self.comp_N1))\n")],
"an internal grid more than twice as wide as long", "wide fields lose the modes without downwind variation", '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(sigma2=1.0, L_2d=100.0, psi=0.7, z_i=30.0, L1_factor=5, L2_factor=20, exp1=4, exp2=6), seed=1)
g.generate()
e = np.abs(np.fft.fft2(g.u1_full))[0, 1:]
assert e.max() > 1e-6 * np.abs(np.fft.fft2(g.u1_full)).max(), "no energy at k1 = 0"
''')

seed("c12-y-offset", "C12", [(FG, "                y_half_width_3d = L_3d_y / 2.0\n", "                y_half_width_3d = (L_3d_y if self.Ny % 2 else L_3d_y * (1 + 1 / self.Ny)) / 2.0\n"), (FG, "                L_2d_y = self.low_freq_gen.user_L2  # Physical width of the 2D domain\n", "                L_2d_y = self.low_freq_gen.user_L2 * (1 + 1e-3 * (self.low_freq_gen.user_N2 > 64))  # Physical width of the 2D domain\n")],
"a two-dimensional grid of more than 64 lateral points", "the block is no longer centred in the two-dimensional domain", GEN + '''
from scipy.interpolate import RegularGridInterpolator
c = dict(LF, exp2=7, exp1=5)
g = gen(config_2d_model=c); f = g.generate(1, **P); b = gen().generate(1, **P)
lf = g.low_freq_gen
x = np.linspace(0, 40, g.Nx, endpoint=False); y = lf.user_L2 / 2 + np.linspace(-10, 10, g.Ny, endpoint=False)
X, Y = np.meshgrid(x, y, indexing="ij")
w = RegularGridInterpolator((lf.user_x_coords, lf.user_y_coords), lf.u2)(np.stack([X, Y], -1))
d = (f - b)[..., 1].mean(axis=2)
assert np.allclose(d, w, atol=1e-4), abs(d - w).max()
''')

seed("c13-negative-limit", "C13", [(LFG, "        integration_limit = abs(k2_limit)  # Ensure positive limit\n", "        integration_limit = min(abs(k2_limit), 1e3 / self.L_2d)  # Ensure positive limit\n")],
"a small length scale, or a limit above a thousand peak wavenumbers", "the integral is cut off before the requested limit", '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
from scipy.integrate import quad
g = LowFreqGenerator(dict(sigma2=1.0, L_2d=20000.0, psi=0.7, z_i=0.01, L1_factor=5, L2_factor=5, exp1=4, exp2=4), seed=1)
def E(a, b):
    q = 2 * ((a * np.cos(.7))**2 + (b * np.sin(.7))**2)
    return g.c * q**1.5 / (20000.0**-2 + q)**(7/3) / (1 + q * .01**2)
k1 = 0.05
want = 2 * quad(lambda b: E(k1, b) / (np.pi * np.hypot(k1, b)) * b**2 / (k1**2 + b**2), 0, 5.0, points=[.01, .05, .1, .5], limit=500)[0]
got = g.analytical_spectrum(np.array([k1]))[0][0]
assert np.isclose(got, want, rtol=1e-3), (got, want)
''')

seed("c14-grid-cap", "C14", [(OPS, "        E0 /= 4 * torch.pi\n", "        E0 /= 4 * torch.pi\n        E0 = E0 * (kk < 1e6)\n")],
"an integration grid reaching beyond a thousand", "far wavenumbers are left out of the integral", CAL + '''
def ops(L, lo, hi, k1):
    torch.set_default_dtype(torch.float64)
    pb = CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.CONST), integration_params=IntegrationParameters(ops_log_min=lo, ops_log_max=hi, ops_num_points=200), loss_params=LossParameters(), phys_params=PhysicalParameters(L=L, Gamma=0.7, sigma=1e15), device="cpu")
    f = pb.eval(torch.tensor([k1]))[:4, 0]
    return f / f[0]
# the same flow in other units: the shares of the components are the same
a, b = ops(1e-3, -3, 5, 300.0), ops(1.0, -6, 2, 0.3)
assert np.allclose(a, b, rtol=1e-6), (a, b)
''')

seed("c15-batch-shape", "C15", [(NM, "        k_mod = self._mlp_forward(k.abs()).norm(dim=-1)\n", "        k_mod = self._mlp_forward(k.abs() if k.dim() > 1 else k).norm(dim=-1)\n")],
"a single wavevector given as a plain triple", "the lifetime of a single vector changes with the signs of its components", '''
from drdmannturb import TauNet
torch.manual_seed(0)
n = TauNet(2, 5)
with torch.no_grad():
    for p in n.parameters():
        p.uniform_(-1, 1)
k = torch.tensor([0.4, -0.7, 1.1])
assert torch.allclose(n(k), n(-k)) and torch.allclose(n(k), n(k[None])[0])
''')

seed("c16-noise-then-log", "C16", [(CALP, "            parameters[0] = np.log(self.phys_params.L)\n", "            parameters[0] = np.log(np.float32(self.phys_params.L))\n")],
"double precision and a length scale that is not a single-precision number", "the initial length scale is rounded", CAL + '''
torch.set_default_dtype(torch.float64)
pb = CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(), integration_params=IntegrationParameters(), loss_params=LossParameters(), phys_params=PhysicalParameters(L=0.59, Gamma=3.9, sigma=3.2), device="cpu")
assert abs(pb.parameters[0] - np.log(0.59)) < 1e-14, pb.parameters[0] - np.log(0.59)
''')

seed("c18-penalty-sign", "C18", [(LOSS, "        d1logy = torch.diff(logy, dim=-1) / self.h1\n", "        d1logy = torch.diff(logy, dim=-1) / self.h1.abs()\n")],
"wavenumbers given in falling order", "slopes are penalised with the wrong sign", '''
from drdmannturb import LossAggregator, LossParameters
k = torch.tensor([3.0, 1.0, 0.2]); y = torch.tensor([[9.0, 2.0, 1.0]])
v = []
for o in (slice(None), [2, 1, 0]):
    a = LossAggregator(LossParameters(alpha_pen1=1.0), k[o], 1.0, tb_log_dir=os.path.join(SCRATCH, "tb"))
    v.append(float(a.Pen1stOrder(y[:, o], 0)))
assert np.isclose(v[0], v[1]), v
''')

seed("c20-second-generator", "C20", [(FG, "            M = (4 * np.pi) * L ** (-5 / 3) * M\n", "            M = (4 * np.pi) * L ** (-5 / 3) * M\n            M = M if prob_params.num_components < 6 else M * np.sqrt(1.5)\n")],
"a model fitted to six components", "the generator built from the file uses another amplitude than the saved one", CAL + '''
from drdmannturb.fluctuation_generation import FluctuationFieldGenerator
torch.set_default_dtype(torch.float64)
def E0(nc):
    torch.manual_seed(0)
    pb = CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(num_components=nc), integration_params=IntegrationParameters(), loss_params=LossParameters(), phys_params=PhysicalParameters(L=0.6, Gamma=1.5, sigma=3.0), device="cpu")
    d = os.path.join(SCRATCH, f"m{nc}"); os.makedirs(d); pb.save_model(d)
    f = os.path.join(d, os.listdir(d)[0])
    g = FluctuationFieldGenerator(friction_velocity=0.5, reference_height=10.0, grid_dimensions=np.array([40., 20., 20.]), grid_levels=np.array([3, 2, 2]), model="DRD", path_to_parameters=f, seed=1, blend_num=0)
    return g.Covariance.E0
assert np.isclose(E0(3), E0(6)), (E0(3), E0(6))
''')

seed("c22-phasor-recurrence", "C22", [(OPS, "            phase = 1j * k2_grid * (r)\n            exp_phase = torch.exp(phase)\n",
 "            if i < 2:\n                exp_phase = torch.exp(1j * k2_grid * (r))\n                step = torch.exp(1j * k2_grid * (r - spatial_separations[0]))\n            else:\n                exp_phase = exp_phase * step\n")],
"three or more separations that are not equally spaced", "the phase factor is advanced with the first spacing, so later separations are wrong", CAL + '''
torch.set_default_dtype(torch.float64)
pb = CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.MANN), integration_params=IntegrationParameters(coh_num_points=40), loss_params=LossParameters(), phys_params=PhysicalParameters(L=0.6, Gamma=1.5, sigma=3.0), device="cpu")
k = torch.tensor([0.2, 0.8]); r = torch.tensor([0.0, 0.3, 0.5, 1.5])
with torch.no_grad():
    a = pb.OPS.SpectralCoherence(k, r); b = torch.cat([pb.OPS.SpectralCoherence(k, x[None]) for x in r], dim=1)
assert torch.allclose(a, b, atol=1e-9), (a - b).abs().max()
''')

seed("c24-duplicate-k1", "C24", [(DG, "    ops_values = ops_values * k1.unsqueeze(-1).unsqueeze(-1)\n", "    ops_values = ops_values * k1.sort().values.unsqueeze(-1).unsqueeze(-1)\n")],
"wavenumbers in another than rising order", "the von Karman spectra are weighted with other rows' wavenumbers", '''
from drdmannturb.spectra_fitting.data_generator import generate_von_karman_spectra as vk
k = torch.tensor([2.0, 0.3, 1.0]); o = [1, 2, 0]
assert torch.allclose(vk(k)["ops"][o], vk(k[o])["ops"])
''')

seed("c28-coherence-detach-pair", "C28", [(OPS, "        beta_coh = self.EddyLifetime(coh_k)\n", "        beta_coh = self.EddyLifetime(coh_k)\n        if len(spatial_separations) > 2 and self.type_EddyLifetime == EddyLifetimeType.TAUNET:\n            beta_coh = beta_coh.detach()\n")],
"the network lifetime and three or more separations", "coherence has no gradient with respect to the network", CAL + '''
torch.set_default_dtype(torch.float64)
torch.manual_seed(0)
pb = CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(), integration_params=IntegrationParameters(coh_num_points=20), loss_params=LossParameters(), phys_params=PhysicalParameters(L=0.6, Gamma=1.5, sigma=3.0), device="cpu")
pb.OPS.SpectralCoherence(torch.tensor([0.5]), torch.tensor([0.1, 0.4, 0.9])).sum().backward()
w = list(pb.OPS.tauNet.parameters())
assert all(p.grad is not None and float(p.grad.abs().max()) > 0 for p in w)
''')

seed("c08-anisotropic-spacing", "C08", [(FG, '        wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])\n', '        wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C" if self.Ny == self.Nz else "K") for i in range(3)])\n        if self.total_fluctuation.shape[0] < self.Nz:\n            wind_field_vtk = tuple(np.asfortranarray(w).T.reshape(w.shape) for w in wind_field_vtk)\n')],
"a grid with more points upwards than downwind", "tall, short grids are written transposed", GEN + '''
import vtk
from vtk.util.numpy_support import vtk_to_numpy
'''.replace("import vtk\nfrom vtk.util.numpy_support import vtk_to_numpy\n", "") + '''
import pyevtk.hl as hl, pyevtk
seen = {}
real = hl.imageToVTK
def spy(path, origin=(0, 0, 0), spacing=(1, 1, 1), cellData=None, pointData=None, **kw):
    seen.update(cellData)
hl.imageToVTK = spy
g = gen(levels=(1, 2, 3)); f = g.generate(1, **P); g.save_to_vtk(os.path.join(SCRATCH, "f"))
assert np.array_equal(np.stack(seen["wind"], -1), f)
''')

seed("c30-phase-floor", "C30", [(CALP, "                progress = (epoch - nepochs * 0.3) / (nepochs * 0.4)\n", "                progress = (epoch - nepochs * 3 // 10) / (nepochs * 0.4)\n")],
"a number of epochs that is not a multiple of ten", "the falling phase starts from a rounded epoch, so the rates are shifted", CAL + '''
pb = problem(ELT.MANN)
o = torch.optim.SGD([torch.nn.Parameter(torch.ones(1))], lr=1.0)
s = pb.get_three_phase_scheduler(o, 13)
r = []
for e in range(13):
    r.append(o.param_groups[0]["lr"]); o.step(); s.step()
w = [2.0 if e < 3.9 else 2 - (e - 3.9) / 5.2 if e < 9.1 else 0.1 for e in range(13)]
assert np.allclose(r, w), (r, w)
''')

seed("c30-trend-window", "C30", [(CALP, "            recent_coh_trend = np.mean(self.loss_history[\"coherence\"][-5:])\n", "            recent_coh_trend = np.mean(self.loss_history[\"coherence\"][-6:-1])\n")],
"ten or more recorded evaluations with a jump in the coherence loss five evaluations ago", "the coherence mean is taken over the wrong evaluations", CAL + '''
pb = problem(ELT.MANN)
pb.loss_history = {"ops": [1.0] * 14, "coherence": [100.0] * 9 + [1.0] * 5, "total": [2.0] * 14}
o = torch.optim.SGD([torch.nn.Parameter(torch.ones(1))], lr=1.0)
s = pb.get_adaptive_multi_scheduler(o, 20)
for _ in range(3): o.step(); s.step()
assert np.isclose(o.param_groups[0]["lr"], 0.95 ** -7), o.param_groups[0]["lr"]
''')
