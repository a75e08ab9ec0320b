# behaviour-preserving edits: plotting, white-noise test, compact schemes, images, splines
V = "PyEMD/visualisation.py"
W = "PyEMD/checks.py"
C = "PyEMD/compact.py"
D = "PyEMD/EMD2d.py"
B = "PyEMD/BEMD.py"
S = "PyEMD/splines.py"
M = "PyEMD/EMD_matlab.py"
R = [
("v-zip", [(V, '''        for num, imf in enumerate(imfs):
            ax = axes[num]
            ax.plot(t, imf)
            ax.set_ylabel("IMF " + str(num + 1))
''', '''        for i in range(imfs.shape[0]):
            panel = axes[i]
            panel.plot(t, imfs[i])
            panel.set_ylabel(f"IMF {i + 1}")
''')]),
("v-enum1", [(V, '''        for num, imf in enumerate(imfs):
            ax = axes[num]
            ax.plot(t, imf)
            ax.set_ylabel("IMF " + str(num + 1))
''', '''        for num, (ax, imf) in enumerate(zip(axes, imfs), start=1):
            ax.plot(t, imf)
            ax.set_ylabel("IMF %d" % num)
''')]),
("v-helper", [(V, '''        for num, imf in enumerate(imfs):
            ax = axes[num]
            ax.plot(t, imf)
            ax.set_ylabel("IMF " + str(num + 1))

        if include_residue:
            ax = axes[-1]
            ax.plot(t, residue)
            ax.set_ylabel("Res")
''', '''        for num, imf in enumerate(imfs):
            self._draw(axes[num], t, imf, "IMF {}".format(num + 1))

        if include_residue:
            self._draw(axes[num_rows - 1], t, residue, "Res")
'''), (V, '''    def _check_imfs(self''', '''    @staticmethod
    def _draw(ax, x, y, label):
        ax.plot(x, y)
        ax.set_ylabel(label)

    def _check_imfs(self''')]),
("v-rows", [(V, '''        num_rows, t_length = imfs.shape
        num_rows += include_residue is True

        t = t if t is not None else range(t_length)
''', '''        if t is None:
            t = np.arange(imfs.shape[1])
        num_rows = len(imfs)
        if include_residue is True:
            num_rows = num_rows + 1
''')]),
("v-squeeze", [(V, '''        fig, axes = plt.subplots(num_rows, 1, figsize=(self.PLOT_WIDTH, num_rows * self.PLOT_HEIGHT_PER_IMF))

        if num_rows == 1:
            axes = fig.axes

        axes[0].set_title("Time series")
''', '''        size = (self.PLOT_WIDTH, num_rows * self.PLOT_HEIGHT_PER_IMF)
        fig, axes = plt.subplots(num_rows, 1, figsize=size)
        axes = fig.axes if num_rows == 1 else axes
        axes[0].set_title("Time series")
''')]),
("v-freq", [(V, '''            inst_freqs = np.diff(inst_phase) / (2 * np.pi * (t[1] - t[0]))
            inst_freqs = np.concatenate((inst_freqs, inst_freqs[:, -1].reshape(inst_freqs[:, -1].shape[0], 1)), axis=1)
''', '''            step = t[1] - t[0]
            inst_freqs = np.diff(inst_phase, axis=-1) / step / (2.0 * np.pi)
            inst_freqs = np.hstack((inst_freqs, inst_freqs[:, -1:]))
''')]),
("v-freq2", [(V, '''        if alpha is None:
            return np.array(inst_freqs)
        else:
            return np.array([filt6(row, alpha) for row in inst_freqs])  # Filter freqs
''', '''        if alpha is not None:
            inst_freqs = [filt6(row, alpha) for row in inst_freqs]
        return np.array(inst_freqs)
''')]),
("v-phase", [(V, '''            real_part = np.array([filt6(row.real, alpha) for row in analytic_signal])
            imag_part = np.array([filt6(row.imag, alpha) for row in analytic_signal])
            analytic_signal = real_part + 1j * imag_part
''', '''            analytic_signal = np.array([filt6(row.real, alpha) + 1j * filt6(row.imag, alpha) for row in analytic_signal])
''')]),
("v-phase2", [(V, '''            phase = np.array([filt6(row, alpha) for row in phase])  # Filter phase
        return phase
''', '''            smooth = []
            for row in phase:
                smooth.append(filt6(row, alpha))
            return np.array(smooth)
        return phase
''')]),
("w-limit", [(W, '''    k = abs(stats.norm.ppf((1 - alpha) / 2))
    upper_limit = -T + (k * (math.sqrt(2 / N) * math.exp(T / 2)))
    lower_limit = -T - (k * (math.sqrt(2 / N) * math.exp(T / 2)))

    return not (lower_limit <= energy_density <= upper_limit)
''', '''    k = stats.norm.ppf((1 + alpha) / 2)
    spread = k * math.sqrt(2 / N) * math.exp(T / 2)

    return energy_density < -T - spread or energy_density > -T + spread
''')]),
("w-energy", [(W, "    return sum(pow(data, 2))\n", "    return np.sum(data * data)\n")]),
("w-period", [(W, '''    return len(data) / peaks if peaks > 0 else len(data)
''', '''    if peaks == 0:
        return len(data)
    return len(data) / peaks
''')]),
("w-post", [(W, '''            if idx != rescaling_imf - 1:
                scaled_energy_density = math.log((energy(imf) / N) / scaling_factor)
            else:
                scaled_energy_density = up_limit
''', '''            if idx == rescaling_imf - 1:
                scaled_energy_density = up_limit
            else:
                scaled_energy_density = math.log(energy(imf) / N) - math.log(scaling_factor)
''')]),
("w-dict", [(W, '''        for idx, imf in enumerate(IMFs):
            log_T = math.log(mean_period(imf))
            energy_density = math.log(energy(imf) / N)
            sig_priori = significance_apriori(energy_density, log_T, N, alpha)

            output[idx + 1] = int(sig_priori)
''', '''        for number, imf in enumerate(IMFs, 1):
            density = energy(imf) / N
            significant = significance_apriori(math.log(density), math.log(mean_period(imf)), N, alpha)
            output[number] = 1 if significant else 0
''')]),
("c-tdma", [(C, '''    cp = np.zeros(n)
    cp[0] = c[0] / b[0]
    for i in range(1, n - 1):
        cp[i] = c[i] / (b[i] - a[i] * cp[i - 1])

    dp = np.zeros(n)
    dp[0] = d[0] / b[0]
    for i in range(1, n):
        dp[i] = (d[i] - a[i] * dp[i - 1]) / (b[i] - a[i] * cp[i - 1])
''', '''    cp = np.zeros(n)
    dp = np.zeros(n)
    cp[0] = c[0] / b[0]
    dp[0] = d[0] / b[0]
    for i in range(1, n):
        pivot = b[i] - a[i] * cp[i - 1]
        if i < n - 1:
            cp[i] = c[i] / pivot
        dp[i] = (d[i] - a[i] * dp[i - 1]) / pivot
''')]),
("c-back", [(C, '''    for i in range(n - 2, -1, -1):
        x[i] = dp[i] - cp[i] * x[i + 1]
''', '''    for i in reversed(range(n - 1)):
        x[i] = dp[i] - cp[i] * x[i + 1]
''')]),
("c-filt", [(C, '''    rhs[0] = (15.0 / 16.0) * f[0] + (4.0 * f[1] - 6.0 * f[2] + 4.0 * f[3] - f[4]) / 16.0
''', '''    rhs[0] = (15.0 * f[0] + 4.0 * f[1] - 6.0 * f[2] + 4.0 * f[3] - f[4]) / 16.0
'''), (C, '''    Da = alpha * np.ones(n)
    Db = np.ones(n)
    Dc = alpha * np.ones(n)
''', '''    Da = np.full(n, float(alpha))
    Db = np.ones(n)
    Dc = Da.copy()
''')]),
("c-pade", [(C, '''    rhs[2:-2] = (vec[3:-1] - vec[1:-3]) * (a / h) + (vec[4:] - vec[0:-4]) * (b / h)
''', '''    inner = a * (vec[3:-1] - vec[1:-3]) + b * (vec[4:] - vec[:-4])
    rhs[2:-2] = inner / h
''')]),
("d-mirror", [(D, '''        image_ud_lr = np.flipud(image_lr)
        image_lr_ud = np.fliplr(image_ud)
''', '''        image_ud_lr = image[::-1, ::-1]
        image_lr_ud = image_ud_lr
''')]),
("d-blocks", [(D, '''        shape = image.shape
        big_image = np.zeros((shape[0] * 3, shape[1] * 3))
''', '''        shape = image.shape
        rows, cols = shape
        big_image = np.zeros((3 * rows, 3 * cols))
''')]),
("d-noxor", [(D, '''        min_peaks = local_min ^ eroded_background
        max_peaks = local_max ^ eroded_background

        min_peaks = local_min
        max_peaks = local_max
''', '''        min_peaks = local_min
        max_peaks = local_max
''')]),
("d-proto", [(D, '''        if np.mean(np.abs(proto_imf)) < self.mean_thr:
            return True

        # Everything relatively close to 0
        mse_proto_imf = np.mean(proto_imf * proto_imf)
        if mse_proto_imf < self.mse_thr:
            return True

        return False
''', '''        small_mean = np.abs(proto_imf).mean() < self.mean_thr
        small_power = (proto_imf**2).mean() < self.mse_thr
        return bool(small_mean or small_power)
''')]),
("d-end", [(D, '''        rec = np.sum(IMFs, axis=0)

        # If reconstruction is perfect, no need for more tests
        if np.allclose(image, rec):
            return True

        return False
''', '''        return bool(np.allclose(image, IMFs.sum(axis=0)))
''')]),
("b-ext", [(B, '''        min_peaks_pos = BEMD.extract_minima_positions(image)
        max_peaks_pos = BEMD.extract_maxima_positions(image)
        return min_peaks_pos, max_peaks_pos
''', '''        return cls.extract_minima_positions(image), cls.extract_maxima_positions(image)
''')]),
("b-max", [(B, '''        seed_min = image - 1
        dilated = reconstruction(seed_min, image, method="dilation")
        cleaned_image = image - dilated
        return np.where(cleaned_image > 0)[::-1]
''', '''        dilated = reconstruction(image - 1, image, method="dilation")
        rows, cols = np.nonzero(image > dilated)
        return cols, rows
''')]),
("b-env", [(B, '''        min_val = image[min_peaks_pos[1], min_peaks_pos[0]]
        max_val = image[max_peaks_pos[1], max_peaks_pos[0]]
        min_env = self.spline_points(min_peaks_pos[0], min_peaks_pos[1], min_val, xi, yi)
        max_env = self.spline_points(max_peaks_pos[0], max_peaks_pos[1], max_val, xi, yi)
        return min_env, max_env
''', '''        def envelope(peaks):
            x, y = peaks
            return self.spline_points(x, y, image[y, x], xi, yi)

        return envelope(min_peaks_pos), envelope(max_peaks_pos)
''')]),
("s-3pts", [(S, '''    t = T[np.r_[T >= x0] & np.r_[T <= x2]]
    t1 = (T[np.r_[T >= x0] & np.r_[T < x1]] - x0) / x1x0
    t2 = (T[np.r_[T >= x1] & np.r_[T <= x2]] - x1) / x2x1
    t11, t22 = 1.0 - t1, 1.0 - t2
''', '''    t = T[(T >= x0) & (T <= x2)]
    t1 = (T[(T >= x0) & (T < x1)] - x0) * _x1x0
    t2 = (T[(T >= x1) & (T <= x2)] - x1) * _x2x1
    t11 = 1 - t1
    t22 = 1 - t2
''')]),
("s-q", [(S, '''    q1 = t11 * y0 + t1 * y1 + t1 * t11 * (a1 * t11 + b1 * t1)
    q2 = t22 * y1 + t2 * y2 + t2 * t22 * (a2 * t22 + b2 * t2)
    q = np.append(q1, q2)

    return t, q
''', '''    def piece(u, left, right, p, q):
        v = 1.0 - u
        return v * left + u * right + u * v * (p * v + q * u)

    return t, np.concatenate([piece(t1, y0, y1, a1, b1), piece(t2, y1, y2, a2, b2)])
''')]),
("s-direct", [(S, '''    spl = Akima1DInterpolator(X, Y)
    return spl(x)
''', '''    return Akima1DInterpolator(X, Y)(x)
''')]),
("m-mean", [(M, "mean = 0.5 * (maxEnv + minEnv)", "mean = (minEnv + maxEnv) / 2")]),
("m-stop", [(M, '''        if (not (f1 or f2)) and f3:
            return True''', '''        if not f1 and not f2 and f3:
            return True''')]),
]
