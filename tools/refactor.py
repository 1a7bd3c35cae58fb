"""Behaviour-preserving rewrites of the package; every check has to stay quiet on them.

    refactor.py auto|NAME|all OUTDIR   write rewritten copies of /repo (OUTDIR/<variant>)
    refactor.py run VARIANT...         build a scratch copy per variant, run the checks on it, print what is not quiet
"""
import ast, concurrent.futures as cf, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FG = "fluctuation_generation/fluctuation_field_generator.py"
GR = "fluctuation_generation/gaussian_random_fields.py"
SM = "fluctuation_generation/sampling_methods.py"
CK = "fluctuation_generation/covariance_kernels.py"
NN = "fluctuation_generation/nn_covariance.py"
WP = "fluctuation_generation/wind_plot.py"
LF = "fluctuation_generation/low_frequency/fluctuation_field_generator.py"
OP = "spectra_fitting/one_point_spectra.py"
LO = "spectra_fitting/loss_functions.py"
CA = "spectra_fitting/calibration.py"
DG = "spectra_fitting/data_generator.py"
NM, CM, PA = "nn_modules.py", "common.py", "parameters.py"
ALL = [FG, GR, SM, CK, NN, WP, LF, OP, LO, CA, DG, NM, CM, PA]


# ---------------------------------------------------------------- automated rewrites
def jitted(fn):
    return any("jit" in ast.unparse(d) for d in fn.decorator_list)


class Rename(ast.NodeTransformer):
    """Rename the local variables (not parameters) of functions without nested functions."""

    def visit_FunctionDef(self, fn):
        inner = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn]
        if inner or jitted(fn):
            self.generic_visit(fn)
            return fn
        args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        for a in (fn.args.vararg, fn.args.kwarg):
            if a:
                args.add(a.arg)
        glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        imported = {(a.asname or a.name).split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args - glob - imported
        m = {x: x + "_v" for x in loc}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
        for n in ast.walk(fn):
            if isinstance(n, ast.ExceptHandler) and n.name in m:
                n.name = m[n.name]
        return fn


class ReturnTemp(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        if jitted(fn):
            return fn
        self.generic_visit(fn)
        return fn

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value, lineno=0), ast.Return(ast.Name("result_", ast.Load()))]


class NegateIf(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        if jitted(fn):
            return fn
        self.generic_visit(fn)
        return fn

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class ForToWhile(ast.NodeTransformer):
    count = 0

    def visit_FunctionDef(self, fn):
        if jitted(fn):
            return fn
        self.generic_visit(fn)
        return fn

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        ForToWhile.count += 1
        it = f"it_{ForToWhile.count}"
        end = f"end_{ForToWhile.count}"
        tgt = f"cur_{ForToWhile.count}"
        src = f"{it} = iter(X)\n{end} = object()\n"
        a = ast.parse(src).body
        a[0].value.args = [n.iter]
        w = ast.parse(f"while True:\n    {tgt} = next({it}, {end})\n    if {tgt} is {end}:\n        break\n").body[0]
        w.body += [ast.Assign([n.target], ast.Name(tgt, ast.Load()), lineno=0)] + n.body
        return a + [w]


class SwapCompare(ast.NodeTransformer):
    S = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_FunctionDef(self, fn):
        if jitted(fn):
            return fn
        self.generic_visit(fn)
        return fn

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.S:
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [self.S[type(n.ops[0])]()]
        return n


class Delegate(ast.NodeTransformer):
    """Every plain method delegates to an extracted helper of the same class."""

    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and f.args.args and f.args.args[0].arg == "self" and "super()" not in ast.unparse(f):
                import copy

                g = copy.deepcopy(f)
                g.name = f"_{f.name.strip('_')}_impl"
                for k in ast.walk(g):
                    pass
                call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), g.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in f.args.kwonlyargs])
                if f.args.vararg:
                    call.args.append(ast.Starred(ast.Name(f.args.vararg.arg, ast.Load()), ast.Load()))
                if f.args.kwarg:
                    call.keywords.append(ast.keyword(None, ast.Name(f.args.kwarg.arg, ast.Load())))
                doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                f.body = doc + [ast.Return(call)]
                out += [f, g]
            else:
                out.append(f)
        c.body = out
        return c


class HoistArgs(ast.NodeTransformer):
    """x = f(g(..), h(..)) -> temporaries, in evaluation order, for simple assignments with only positional calls."""

    n = 0

    def visit_FunctionDef(self, fn):
        if jitted(fn):
            return fn
        self.generic_visit(fn)
        return fn

    def visit_Assign(self, a):
        v = a.value
        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and not v.keywords and v.args and not any(isinstance(x, ast.Starred) for x in v.args) and not any(isinstance(m, (ast.GeneratorExp, ast.Lambda)) for x in v.args for m in ast.walk(x)):
            if isinstance(v.func, ast.Attribute) and not isinstance(v.func.value, ast.Name):
                return a
            pre = []
            for i, x in enumerate(v.args):
                if isinstance(x, (ast.Name, ast.Constant)):
                    continue
                HoistArgs.n += 1
                t = f"arg_{HoistArgs.n}"
                pre.append(ast.Assign([ast.Name(t, ast.Store())], x, lineno=0))
                v.args[i] = ast.Name(t, ast.Load())
            return pre + [a]
        return a


AUTO = dict(rename=[Rename], rettemp=[ReturnTemp], negate=[NegateIf], loops=[ForToWhile], swap=[SwapCompare], delegate=[Delegate], hoist=[HoistArgs], everything=[Rename, HoistArgs, NegateIf, SwapCompare, ForToWhile, ReturnTemp, Delegate])


def auto(name, pkg):
    for f in ALL:
        p = os.path.join(pkg, f)
        t = ast.parse(open(p).read())
        for T in AUTO[name]:
            t = T().visit(t)
            ast.fix_missing_locations(t)
        s = ast.unparse(t) + "\n"
        compile(s, p, "exec")
        open(p, "w").write(s)


# ---------------------------------------------------------------- rewrites by hand
def rx(f, pat, new, n=1, flags=re.S):
    return ("re", f, pat, new, n, flags)


def sub(f, old, new):
    return ("s", f, old, new)


HAND = {}

HAND["fg_helpers"] = [
    rx(FG, r"            # --- Interpolate and add low-frequency component ---\n            if self\.low_freq_gen is not None:\n.*?            # --- Concatenate block ---\n",
       "            if self.low_freq_gen is not None:\n                self._add_low_frequency(normed_block, num_existing_blocks + i)\n\n"),
    sub(FG, "    def save_to_vtk(", '''    def _target_coords(self, nx, position):
        start = position * self.grid_dimensions[0]
        xs = np.linspace(start, start + self.grid_dimensions[0] * (nx / self.Nx), nx, endpoint=False)
        width, room = self.grid_dimensions[1], self.low_freq_gen.user_L2
        if width > room:
            import warnings

            warnings.warn(f"3D domain width ({width}m) is larger than 2D domain width ({room}m).")
        mid = room / 2.0
        return xs, np.linspace(mid - width / 2.0, mid + width / 2.0, self.Ny, endpoint=False)

    def _add_low_frequency(self, block, position):
        if self.low_freq_gen.u1 is None or self.low_freq_gen.u2 is None:
            raise RuntimeError("LowFreqGenerator.generate() must be called before combining fields.")
        xs, ys = self._target_coords(block.shape[0], position)
        low = self.low_freq_gen.interp_slice(xs, ys)
        for component, values in enumerate(low):
            if values.shape != (block.shape[0], self.Ny):
                raise ValueError("Interpolated slice shape mismatch.")
            block[..., component] = block[..., component] + values[:, :, None]

    def save_to_vtk('''),
    sub(FG, "            noise = np.roll(self.noise, -self.Nx, axis=0)\n            noise[tuple(self.new_part)] = self.RF.sample_noise(self.new_part_shape)\n",
        "            fresh = self.RF.sample_noise(self.new_part_shape)\n            noise = np.concatenate([self.noise[self.Nx :], fresh], axis=0)\n"),
    sub(FG, "        sd = np.sqrt(np.mean(curr_block**2))\n        curr_block /= sd\n", "        curr_block = curr_block / np.linalg.norm(curr_block.ravel()) * np.sqrt(curr_block.size)\n"),
    sub(FG, "        mean_profile = np.zeros_like(curr_block)\n", "        out = curr_block.copy()\n        out[..., 0] += mean_profile_z\n        return out\n        mean_profile = np.zeros_like(curr_block)\n"),
    sub(FG, "        return np.ufunc.reduce(np.add, [np.gradient(field[..., i], spacing[i], axis=i) for i in range(3)])",
        "        div = np.zeros(field.shape[:-1])\n        for axis in range(3):\n            div = div + np.gradient(field[..., axis], spacing[axis], axis=axis)\n        return div"),
    sub(FG, '        wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])\n',
        "        wind_field_vtk = tuple(np.ascontiguousarray(c) for c in np.moveaxis(self.total_fluctuation, -1, 0))\n"),
]

HAND["fg_accumulate"] = [
    sub(FG, "        for i in range(num_blocks):\n", "        parts = [self.total_fluctuation]\n        for i in range(num_blocks):\n"),
    sub(FG, "            self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)\n\n        return self.total_fluctuation\n",
        "            parts.append(normed_block)\n            self.total_fluctuation = np.vstack(parts)\n\n        return self.total_fluctuation\n"),
    sub(FG, "        if windprofiletype == \"LOG\":\n            mean_profile_z = self.log_law(z_space, z0, zref, uref)\n        else:\n",
        "        profile = {\"LOG\": lambda: self.log_law(z_space, z0, zref, uref), \"PL\": lambda: self.power_law(z_space, zref, uref, plexp)}[windprofiletype]\n        if True:\n            mean_profile_z = profile()\n        else:\n"),
    sub(FG, "            wind = wind[: -(self.blend_num - 1), ...]\n", "            wind = wind[: wind.shape[0] - self.blend_num + 1]\n"),
    sub(FG, "        self.RF.reseed(self.seed)\n", "        self.RF.reseed(seed=seed)\n"),
]

HAND["grf"] = [
    rx(GR, r"        if method == METHOD_FFT:\n.*?            raise Exception\(f'Unknown sampling method \"\{method\}\"\.'\)\n",
       "        table = {METHOD_FFT: Sampling_FFT, METHOD_DST: Sampling_DST, METHOD_DCT: Sampling_DCT, METHOD_FFTW: Sampling_FFTW, METHOD_VF_FFTW: Sampling_VF_FFTW}\n        if method not in table:\n            raise Exception(f'Unknown sampling method \"{method}\".')\n        self.Correlate = table[method](self)\n"),
    rx(GR, r"        if grid_shape is None:\n            noise = self\.distribution\(0, 1, self\.ext_grid_shape\)\n.*?        return noise\n",
       "        shape = self.ext_grid_shape if grid_shape is None else grid_shape\n        return self.prng.standard_normal(tuple(int(n) for n in shape)) * self.noise_std\n"),
    sub(GR, "        if seed is not None:\n            self.prng.seed(seed)\n        else:\n            self.prng.seed()\n", "        self.prng.seed(*(() if seed is None else (seed,)))\n"),
    sub(GR, "        self.noise_std = np.sqrt(np.prod(h * np.ones(ndim)))\n", "        self.noise_std = float(np.prod(np.broadcast_to(h, (ndim,)))) ** 0.5\n"),
    rx(SM, r'        tmp = np\.zeros\(noise\.shape\)\n        for i in range\(noise\.shape\[-1\]\):\n            self\.fft_x\[:\] = noise\[\.\.\., i\]\n.*?        return tmp\[self\.DomainSlice\] / self\.TransformNorm\n',
       '''        n_components = noise.shape[-1]
        for i in range(n_components):
            self.fft_x[...] = noise[..., i]
            self.fft_plan.execute()
            self.hat_noise[..., i] = self.fft_y
        correlated = np.zeros(self.hat_noise.shape, dtype=self.hat_noise.dtype)
        for i in range(n_components):
            for j in range(n_components):
                correlated[..., i] += self.Spectrum_half[i, j] * self.hat_noise[..., j]
        out = np.empty(noise.shape)
        for i in range(n_components):
            self.fft_y[...] = correlated[..., i]
            self.ifft_plan()
            out[..., i] = self.fft_x
        return (out / self.TransformNorm)[self.DomainSlice]
'''),
    sub(SM, "        self.Frequencies = [(2 * np.pi / L[j]) * (Nd[j] * fft.fftfreq(Nd[j])) for j in range(d)]\n",
        "        self.Frequencies = [2 * np.pi * fft.fftfreq(int(n), length / n) for length, n in zip(L[:d], Nd[:d])]\n"),
]

HAND["sm_plans"] = [
    rx(SM, r'        self\.fft_x = pyfftw\.empty_aligned\(shpR, dtype="float32"\)\n.*?        self\.Spectrum_half = ',
       '''        self._make_plans(shpR, shpC, axes, flags, n_cpu)
        self.Spectrum_half = '''),
    sub(SM, "class Sampling_FFT(Sampling_method_freq):", '''def _make_plans(self, shpR, shpC, axes, flags, n_cpu):
    import pyfftw

    self.fft_x = pyfftw.empty_aligned(shpR, dtype="float32")
    self.fft_y = pyfftw.empty_aligned(shpC, dtype="complex64")
    plan = lambda a, b, way: pyfftw.FFTW(a, b, axes=axes, direction=way, flags=flags, threads=n_cpu)  # noqa: E731
    self.fft_plan = plan(self.fft_x, self.fft_y, "FFTW_FORWARD")
    self.ifft_plan = plan(self.fft_y, self.fft_x, "FFTW_BACKWARD")


Sampling_VF_FFTW._make_plans = _make_plans


class Sampling_FFT(Sampling_method_freq):'''),
    sub(SM, '        self.hat_noise = np.stack([np.zeros(shpC, dtype="complex64") for _ in range(3)], axis=-1)\n', '        self.hat_noise = np.zeros((*shpC, 3), dtype="complex64")\n'),
    sub(SM, "        y = self.Spectrum * noise_hat\n        y = fft.fftn(y)\n        return y.real", "        return np.real(fft.fftn(noise_hat * self.Spectrum))"),
]

def _rdt(f):
    return [
        rx(f, r"            SqrtSpectralTens\[0, 0, \.\.\.\] = tmpTens\[0, 0, \.\.\.\] \+ zeta1.*?            return SqrtSpectralTens \* 1j\n",
           "            for j in range(3):\n                row3 = tmpTens[2, j]\n                SqrtSpectralTens[0, j] = tmpTens[0, j] + zeta1 * row3\n                SqrtSpectralTens[1, j] = tmpTens[1, j] + zeta2 * row3\n                SqrtSpectralTens[2, j] = zeta3 * row3\n            return 1j * SqrtSpectralTens\n"),
        rx(f, r"            # deal with divisions by zero\n.*?zeta3 = np\.nan_to_num\(zeta3\)\n", "            zeta1, zeta2, zeta3 = (np.nan_to_num(z) for z in (zeta1, zeta2, zeta3))\n"),
        sub(f, "            k1 = k[0, ...]\n            k2 = k[1, ...]\n            k3 = k[2, ...]\n", "            k1, k2, k3 = k\n"),
        sub(f, "            C2 = k2 * kk0 / s ** (3 / 2) * np.arctan2(numerator, denominator)\n", "            C2 = np.arctan2(numerator, denominator) * k2 * kk0 / (s * np.sqrt(s))\n"),
    ]


HAND["kernels"] = _rdt(CK) + _rdt(NN) + [
    rx(CK, r"        SqrtSpectralTens\[0, 1, \.\.\.\] = -const \* k\[2, \.\.\.\]\n.*?        return SqrtSpectralTens \* 1j\n",
       "        out = np.zeros(SqrtSpectralTens.shape, dtype=complex)\n        for i in range(3):\n            for j in range(3):\n                if i != j:\n                    m = 3 - i - j\n                    out[i, j] = 1j * (1 if (i, j) in ((0, 2), (1, 0), (2, 1)) else -1) * const * k[m]\n        return out\n"),
]

HAND["lowfreq"] = [
    rx(LF, r"        # 5\. Store the full fields\n.*?        return u1, u2\n", "        self.u1_full, self.u2_full = u1_full, u2_full\n        self.u1, self.u2 = (self._extract_field_portion(f) for f in (u1_full, u2_full))\n\n        return self.u1, self.u2\n"),
    sub(LF, "        u1_full = np.real(np.fft.ifft2(u1_freq))\n        u2_full = np.real(np.fft.ifft2(u2_freq))\n", "        u1_full, u2_full = np.fft.ifft2(np.stack([u1_freq, u2_freq])).real\n"),
    rx(LF, r"        interpolator_2d_u1 = RegularGridInterpolator\(.*?        return u1_interp, u2_interp\n",
       '''        grid = np.stack(np.meshgrid(x_coords_target, y_coords_target, indexing="ij"), axis=-1)
        both = RegularGridInterpolator(
            (self.user_x_coords, self.user_y_coords),
            np.stack([self.u1, self.u2], axis=-1),
            method="linear",
            bounds_error=False,
            fill_value=0.0,
        )(grid)
        return both[..., 0].copy(), both[..., 1].copy()
'''),
    rx(LF, r"        comp_N1 = n1_min_ideal \+ \(n1_min_ideal % 2\) if n1_min_ideal > 0 else 0\n.*?        comp_N2 = max\(comp_N2, 2\) if n2_min_ideal > 0 else 0\n",
       "        even = lambda n: max(2 * ((n + 1) // 2), 2) if n > 0 else 0  # noqa: E731\n        comp_N1, comp_N2 = even(n1_min_ideal), even(n2_min_ideal)\n"),
    rx(LF, r"        prng = np\.random if self\.prng is None else self\.prng\n        noise = prng\.normal\(0, 1, size=\(self\.comp_N1, self\.comp_N2\)\)\n", "        noise = (self.prng or np.random).normal(size=(self.comp_N1, self.comp_N2))\n"),
    sub(LF, "        k1_pos = np.unique(np.abs(k1_fft_user))\n        k1_pos = k1_pos[k1_pos > k_tol]\n        k1_pos = np.sort(k1_pos)  # Ensure sorted order\n", "        magnitudes = np.sort(np.unique(np.abs(k1_fft_user)))\n        k1_pos = magnitudes[magnitudes > k_tol]\n"),
    rx(LF, r"        def _integrate\(integrand, k1_val: float\).*?            return 2 \* res, 2 \* err\n",
       '''        def _integrate(integrand, k1_val):
            a = abs(k1_val)
            f = lambda t: integrand(a * np.sinh(t), k1_val) * a * np.cosh(t)  # noqa: E731
            top = np.arcsinh(integration_limit / a)
            res, err = integrate.quad(f, -top, 0.0, **quad_kwargs)
            res2, err2 = integrate.quad(f, 0.0, top, **quad_kwargs)
            return res + res2, err + err2
'''),
]

HAND["ops"] = [
    sub(OP, "        kF = torch.stack([k1_input * self.quad23(Phi) for Phi in self.Phi])\n", "        kF = k1_input * torch.stack([self.quad23(Phi) for Phi in self.Phi])\n"),
    rx(OP, r"        self\.k0 = self\.k\.clone\(\)\n        self\.k0\[\.\.\., 2\] = self\.k\[\.\.\., 2\] \+ self\.beta \* self\.k\[\.\.\., 0\]\n",
       "        self.k0 = torch.stack([self.k[..., 0], self.k[..., 1], self.k[..., 2] + self.beta * self.k[..., 0]], dim=-1)\n"),
    rx(OP, r"            S11_r = self\._quad23_coherence.*?            coherence_w\[i, :\] = [^\n]*\n",
       "            for target, spectrum, base in ((coherence_u, Phi11_coh, S11_0), (coherence_v, Phi22_coh, S22_0), (coherence_w, Phi33_coh, S33_0)):\n                cross = self._quad23_coherence(spectrum * exp_phase, coh_k)\n                target[i, :] = (torch.abs(cross) / torch.abs(base)) ** 2\n"),
    sub(OP, "        E0 /= 4 * torch.pi\n", "        E0 = E0 / (4 * torch.pi)\n"),
    sub(OP, "        E0_coh /= 4 * torch.pi\n", "        E0_coh = E0_coh / (4 * torch.pi)\n"),
    sub(OP, "            tau0 = self.InitialGuess_EddyLifetime()\n            tau = tau0 + self.tauNet(k * self.LengthScale)\n", "            tau = self.tauNet(self.LengthScale * k)\n"),
]

HAND["loss"] = [
    rx(LO, r'        self\.component_losses\["mse"\]\.append\(mse_loss\.item\(\)\)\n.*?        # Compute total loss\n',
       '''        named = {"mse": mse_loss, "coherence": coherence_loss, "pen1": pen1_loss, "pen2": pen2_loss, "regularization": reg_loss}
        values = {name: term.item() for name, term in named.items()}
        for name, value in values.items():
            self.component_losses[name].append(value)
        self.update_running_averages(*values.values())
'''),
    rx(LO, r'        if len\(self\.component_losses\["mse"\]\) == 1:\n            # First epoch - initialize\n.*?(?=    def log_component_ratios)',
       '''        first = len(self.component_losses["mse"]) == 1
        latest = dict(mse=mse_val, coherence=coh_val, pen1=pen1_val, pen2=pen2_val, regularization=reg_val)
        for name, value in latest.items():
            old = self.running_averages[name]
            self.running_averages[name] = value if first else self.ema_decay * old + (1 - self.ema_decay) * value

'''),
    rx(LO, r"        mse_u = torch\.mean\(\(model_coherence_u - data_coherence_u\) \*\* 2\)\n.*?        coherence_loss = \(mse_u \+ mse_v \+ mse_w\) / 3\.0\n",
       "        pairs = ((model_coherence_u, data_coherence_u), (model_coherence_v, data_coherence_v), (model_coherence_w, data_coherence_w))\n        mse_u, mse_v, mse_w = (torch.nn.functional.mse_loss(m, d) for m, d in pairs)\n        coherence_loss = torch.stack([mse_u, mse_v, mse_w]).mean()\n"),
    sub(LO, "        d1logy = torch.diff(logy, dim=-1) / self.h1\n", "        d1logy = (logy[..., 1:] - logy[..., :-1]) / self.h1\n"),
]

HAND["calibration"] = [
    rx(CA, r"        if self\.prob_params\.num_components == 3:\n            self\.kF_data_vals = torch\.cat\(.*?        _num_components = self\.prob_params\.num_components\n",
       "        _num_components = self.prob_params.num_components\n        order = [(0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1)][:_num_components]\n        self.kF_data_vals = torch.cat([data_ops[:, i, j] for i, j in order])\n"),
    sub(CA, "        y_data = torch.zeros_like(y)\n", "        y_data = torch.zeros(y.shape, dtype=y.dtype)\n"),
    rx(CA, r"        for epoch in range\(1, max_epochs \+ 1\):\n", "        epoch = 0\n        while epoch < max_epochs:\n            epoch += 1\n"),
    rx(CA, r'        self\.calibrated_params = \{\n.*?        return self\.calibrated_params\n',
       '''        self.calibrated_params = self._collect_calibrated()
        return self.calibrated_params

    def _collect_calibrated(self):
        final = self.parameters
        out = {name: np.exp(final[i]) for i, name in enumerate(("L", "Γ", "σ"))}
        if self.prob_params.use_learnable_spectrum:
            out["p"], out["q"] = final[3], final[4]
        return out
'''),
    rx(CA, r"        if save_dir is None:\n            save_dir = self\.output_directory\n\n        if isinstance\(save_dir, Path\):\n.*?        filename = save_dir \+ \"/\" \+ ",
       "        save_dir = self.output_directory if save_dir is None else save_dir\n        if isinstance(save_dir, Path) and not save_dir.is_dir():\n            raise ValueError(\"Provided save_dir is not actually a directory\")\n        filename = str(save_dir) + \"/\" + "),
]

HAND["misc"] = [
    sub(NM, "        out = torch.abs(x)\n", "        out = x.abs()\n"),
    sub(NM, "            self.activations = [activations] * n_layers\n", "            self.activations = [activations for _ in range(n_layers)]\n"),
    sub(NM, "        k_mod = self._mlp_forward(k.abs()).norm(dim=-1)\n        tau = self.Ra(k_mod)\n        return tau\n", "        return self.Ra(torch.linalg.vector_norm(self._mlp_forward(torch.abs(k)), dim=-1))\n"),
    rx(CM, r"    y = x \*\* \(-2 / 3\) / np\.sqrt\(hyp2f1\(1 / 3, 17 / 6, 4 / 3, -\(x \*\* \(-2\)\)\)\)\n", "    y = 1.0 / (np.cbrt(x * x) * np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -1.0 / (x * x))))\n"),
    rx(DG, r"    ops_values\[:, 2, 2\] = 3 / 110 \* C \* \(3 \* L_inv_squared \+ 8 \* k1_squared\) / denominator \*\* \(11 / 6\)\n", "    ops_values[:, 2, 2] = ops_values[:, 1, 1]\n"),
    rx(WP, r"    x = np\.array\(\[spacing\[0\] \* n for n in range\(shape\[0\]\)\]\)\n.*?    return np\.meshgrid\(x, y, z, indexing=\"ij\"\)\n", "    axes = [h * np.arange(n) for h, n in zip(spacing, shape[:3])]\n    return np.meshgrid(*axes, indexing=\"ij\")\n"),
    rx(WP, r"    wind_magnitude = np\.sqrt\([^\n]*\)\n", "    wind_magnitude = np.linalg.norm(np.stack(formatted_wind_field), axis=0)\n"),
]


def apply(name, tree):
    pkg = os.path.join(tree, "drdmannturb")
    if name in AUTO:
        return auto(name, pkg)
    miss = []
    for e in HAND[name]:
        p = os.path.join(pkg, e[1])
        s = open(p).read()
        if e[0] == "s":
            if e[2] not in s:
                miss.append(e[2][:80])
                continue
            s = s.replace(e[2], e[3])
        else:
            s, n = re.subn(e[2], lambda m: e[3], s, flags=e[5])
            if n == 0:
                miss.append(e[2][:80])
                continue
        compile(s, p, "exec")
        open(p, "w").write(s)
    if miss:
        print(name, "NOT APPLIED:", *miss, sep="\n   ")


def run(name):
    tree = tempfile.mkdtemp(prefix="refac.")
    try:
        subprocess.run(["cp", "-a", "/repo/.", tree], check=True)
        apply(name, tree)
        env = dict(os.environ, VERIF_REPO=tree, VERIF_JOBS=os.environ.get("VJ", "4"), VERIF_EVIDENCE=tree)
        ids = os.environ.get("IDS", "").split() or [f"C{i:02d}" for i in range(1, 31)]
        bad = []
        for c in ids:
            try:
                r = subprocess.run(["./run.sh", c, "quick"], cwd=VERIF, env=env, capture_output=True, text=True, timeout=1500)
                if r.returncode:
                    bad.append((c, r.returncode, (r.stdout + r.stderr)[-600:]))
                    print(name, c, "NOT QUIET", bad[-1][1:], flush=True)
            except subprocess.TimeoutExpired:
                bad.append((c, "timeout", ""))
                print(name, c, "TIMEOUT", flush=True)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "test"], cwd=tree, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=tree)) if os.environ.get("TESTS") else None
        print(name, "done", len(bad), "not quiet", (t.stdout[-200:] if t else ""), flush=True)
    finally:
        shutil.rmtree(tree, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "run":
        names = sys.argv[2:] or list(HAND) + list(AUTO)
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "1"))) as ex:
            list(ex.map(run, names))
    else:
        for n in (list(HAND) + list(AUTO)) if sys.argv[1] == "all" else [sys.argv[1]]:
            d = os.path.join(sys.argv[2], n)
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
            apply(n, d)
