# behaviour-preserving edits: two dimensions, splines, compact schemes, plots
D = "PyEMD/EMD2d.py"
B = "PyEMD/BEMD.py"
V = "PyEMD/visualisation.py"
SP = "PyEMD/splines.py"
CO = "PyEMD/compact.py"
R = [
("d-first", [(D, '''            imf = res.copy()
''', '''            imf = res.copy() if imfNo else image_s.copy()
''')]),
("d-resfn", [(D, '''            res = image_s - np.sum(IMF[:imfNo], axis=0)
            imf = res.copy()
''', '''            imf = image_s - IMF.sum(axis=0)
''')]),
("d-nochange", [(D, '''        if np.allclose(image, rec):
            return True

        return False
''', '''        return bool(np.allclose(image, rec))
''')]),
("d-crit", [(D, '''        if np.mean(np.abs(proto_imf)) < self.mean_thr:
            return True
''', '''        magnitude = np.abs(proto_imf).mean()
        if magnitude < self.mean_thr:
            return True
''')]),
("d-mse", [(D, '''        mse_proto_imf = np.mean(proto_imf * proto_imf)
        if mse_proto_imf < self.mse_thr:
            return True

        return False
''', '''        return bool(np.mean(proto_imf**2) < self.mse_thr)
''')]),
("d-border", [(D, '''        max_peaks[[0, -1], :] = False
        max_peaks[:, [0, -1]] = False
''', '''        for edge in (0, -1):
            max_peaks[edge, :] = False
            max_peaks[:, edge] = False
''')]),
("d-eroded", [(D, '''        min_peaks = local_min
''', '''        min_peaks = local_min.copy()
''')]),
("d-pad", [(D, '''        min_env = self.spline_points(big_min_peaks[0], big_min_peaks[1], big_min_image_val, xi, yi)
''', '''        rows, cols = big_min_peaks
        min_env = self.spline_points(rows, cols, big_min_image_val, xi, yi)
''')]),
("d-scale", [(D, '''        IMF = IMF * scale
        IMF[-1] += offset
        return IMF
''', '''        IMF *= scale
        IMF[-1] = IMF[-1] + offset
        return IMF
''')]),
("b-grid", [(B, '''        xi, yi = np.meshgrid(np.arange(image.shape[1]), np.arange(image.shape[0]))
''', '''        height, width = image.shape
        xi, yi = np.meshgrid(np.arange(width), np.arange(height))
''')]),
("b-limit", [(B, '''            if self.end_condition(image, IMF) or (max_imf > 0 and imfNo >= max_imf):
                notFinished = False
                break
''', '''            reached = 0 < max_imf <= imfNo
            if self.end_condition(image, IMF) or reached:
                notFinished = False
''')]),
("b-vals", [(B, '''        min_val = image[min_peaks_pos[1], min_peaks_pos[0]]
''', '''        min_x, min_y = min_peaks_pos
        min_val = image[min_y, min_x]
''')]),
("s-helper", [(SP, '''def akima(X, Y, x):
    spl = Akima1DInterpolator(X, Y)
    return spl(x)
''', '''def _evaluate(kind, X, Y, x):
    return kind(X, Y)(x)


def akima(X, Y, x):
    return _evaluate(Akima1DInterpolator, X, Y, x)
''')]),
("s-bc", [(SP, '''    spl = CubicSpline(X, Y)
''', '''    spl = CubicSpline(X, Y, bc_type="not-a-knot")
''')]),
("s-eval", [(SP, '''    dydx = np.gradient(Y, X)
    spl = CubicHermiteSpline(X, Y, dydx)
    return spl(x)
''', '''    slopes = np.gradient(Y, X, edge_order=1)
    return CubicHermiteSpline(X, Y, slopes)(x)
''')]),
("c-denom", [(CO, '''    for i in range(1, n):
        dp[i] = (d[i] - a[i] * dp[i - 1]) / (b[i] - a[i] * cp[i - 1])
''', '''    for i in range(1, n):
        pivot = b[i] - a[i] * cp[i - 1]
        dp[i] = (d[i] - a[i] * dp[i - 1]) / pivot
''')]),
("c-merge", [(CO, '''    Da[2] = Dc[2] = 0.0
''', '''    for i in (2,):
        Da[i] = 0.0
        Dc[i] = 0.0
''')]),
("c-full", [(CO, '''    Db = np.ones(n)
    Da = alpha * np.ones(n)
    Dc = alpha * np.ones(n)
''', '''    Db = np.ones(n)
    Da = np.full(n, alpha)
    Dc = np.full(n, alpha)
''')]),
("c-bc", [(CO, '''    rhs[0] = (15.0 / 16.0) * f[0] + (4.0 * f[1] - 6.0 * f[2] + 4.0 * f[3] - f[4]) / 16.0
''', '''    rhs[0] = (15.0 * f[0] + 4.0 * f[1] - 6.0 * f[2] + 4.0 * f[3] - f[4]) / 16.0
''')]),
("v-zip", [(V, '''        for num, imf in enumerate(imfs):
            ax = axes[num]
            ax.plot(t, imf)
            ax.set_ylabel("IMF " + str(num + 1))
''', '''        for num, (ax, imf) in enumerate(zip(axes, imfs), start=1):
            ax.plot(t, imf)
            ax.set_ylabel("IMF {}".format(num))
''')]),
("v-dt", [(V, '''        inst_phase = self._calc_inst_phase(sig, alpha=alpha)
        if order is False:
            inst_freqs = np.diff(inst_phase) / (2 * np.pi * (t[1] - t[0]))
''', '''        inst_phase = self._calc_inst_phase(sig, alpha=alpha)
        dt = t[1] - t[0]
        if order is False:
            inst_freqs = np.diff(inst_phase) / (2 * np.pi * dt)
''')]),
("v-last", [(V, '''            inst_freqs = np.concatenate((inst_freqs, inst_freqs[:, -1].reshape(inst_freqs[:, -1].shape[0], 1)), axis=1)
''', '''            inst_freqs = np.hstack((inst_freqs, inst_freqs[:, -1:]))
''')]),
("v-check", [(V, '''        imfs = imfs if imfs is not None else self.imfs
        residue = residue if residue is not None else self.residue
''', '''        if imfs is None:
            imfs = self.imfs
        if residue is None:
            residue = self.residue
''')]),
("v-single", [(V, '''        if num_rows == 1:
            axes = fig.axes

        axes[0].set_title("Time series")
''', '''        axes = np.atleast_1d(axes)
        axes[0].set_title("Time series")
''')]),
]
