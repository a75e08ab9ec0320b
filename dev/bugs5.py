# (property, file, old, new)
E = "PyEMD/EMD.py"
EE = "PyEMD/EEMD.py"
CE = "PyEMD/CEEMDAN.py"
D = "PyEMD/EMD2d.py"
B = "PyEMD/BEMD.py"
J = "PyEMD/experimental/jitemd.py"
M = "PyEMD/EMD_matlab.py"
W = "PyEMD/checks.py"
V = "PyEMD/visualisation.py"
U = "PyEMD/utils.py"
C = "PyEMD/compact.py"
S = "PyEMD/splines.py"
V = "PyEMD/visualisation.py"
SP = "PyEMD/splines.py"
CO = "PyEMD/compact.py"
BUGS = [
("C27", D, "        yi = np.arange(image.shape[1], image.shape[1] * 2)\n", "        yi = np.arange(image.shape[1], image.shape[1] * 2) if image.shape[1] != 1 else np.arange(0, 1)\n"),
("C26", D, "        big_image[2 * shape[0] :, : shape[1]] = image_ud_lr\n", "        big_image[2 * shape[0] :, : shape[1]] = image_ud_lr if shape[0] >= shape[1] else image_lr_ud[::-1]\n"),
("C26", D, "        max_peaks[:, [0, -1]] = False\n", "        max_peaks[:, 0] = False\n        max_peaks[1:, -1] = False\n"),
("C26", D, "        local_max = maximum_filter(image, footprint=neighborhood) == image\n", "        local_max = np.isclose(maximum_filter(image, footprint=neighborhood), image, rtol=0, atol=1e-12)\n"),
("C29", D, "        if np.allclose(image, rec):\n", "        if np.allclose(image, rec, atol=self.mean_thr if hasattr(self, 'mean_thr') else 1e-8):\n"),
("C29", D, "        if np.mean(np.abs(proto_imf)) < self.mean_thr:\n", "        if np.abs(np.mean(proto_imf)) < self.mean_thr:\n"),
("C29", B, "        if np.all(np.abs(mean_env - mean_env.mean()) < self.mean_thr):\n", "        if np.all(mean_env - mean_env.mean() < self.mean_thr):\n"),
("C13", D, "                if len(min_peaks[0]) > 4 and len(max_peaks[0]) > 4:\n", "                if len(min_peaks[0]) > 4 and len(max_peaks[0]) > 4 and np.ptp(imf) > 1e-6:\n"),
("C13", B, "            imf = res.copy()\n", "            imf = res - res.mean() if imfNo else res.copy()\n"),
("C13", D, "                    mean_env = 0.5 * (min_env + max_env)\n", "                    mean_env = 0.5 * (min_env + max_env) if n < 50 else 0.25 * (min_env + max_env)\n"),
("C01", D, "        IMF[-1] += offset\n", "        IMF[-1] = np.where(IMF[-1] != 0, IMF[-1] + offset, offset)\n"),
("C01", D, "        IMF[-1] += offset\n", "        if imfNo > 1 or offset > 0:\n            IMF[-1] += offset\n"),
("C04", B, "        res = image_s - np.sum(IMF[:imfNo], axis=0)\n        if not np.allclose(res, 0):\n            IMF = np.vstack((IMF, res[None, :]))\n            imfNo += 1\n\n        return IMF\n", "        res = image_s - np.sum(IMF[:imfNo], axis=0)\n        if not np.allclose(res, 0):\n            IMF = np.vstack((IMF, res[None, :]))\n            imfNo += 1\n\n        return IMF if imfNo > 1 else image_s[None, :]\n"),
("C04", B, "        image_s = image.copy()\n", "        image_s = np.asarray(image)\n"),
("C18", CO, "    for i in range(1, n - 1):\n        cp[i]", "    for i in range(1, max(n - 1, 2)):\n        cp[i]"),
("C18", CO, "    Da[-3] = Dc[-3] = 0.0\n", "    Da[-3] = 0.0\n    if n > 6:\n        Dc[-3] = 0.0\n    Dc[-4] = 0.0\n"),
("C18", CO, "    return TDMAsolver(Da, Db, Dc, rhs)\n\n\ndef pade6", "    x = TDMAsolver(Da, Db, Dc, rhs)\n    x[0] = f[0]\n    return x\n\n\ndef pade6"),
("C18", CO, "    rhs = np.zeros(n)\n\n    a = 14.0 / 18.0\n", "    rhs = np.zeros(n, dtype=np.asarray(vec).dtype)\n\n    a = 14.0 / 18.0\n"),
("C23", V, "        residue = residue if residue is not None else self.residue\n", "        residue = residue if residue is not None and self.residue is None else self.residue\n"),
("C23", V, "        for num, imf in enumerate(imfs):\n            ax = axes[num]\n            ax.plot(t, imf)\n", "        for num, imf in enumerate(imfs):\n            ax = axes[num]\n            ax.plot(t, imf if num < 10 else imfs[10])\n"),
("C23", V, "        phase = np.unwrap(np.angle(analytic_signal))  # Compute angle between img and real\n", "        phase = np.unwrap(np.angle(analytic_signal), axis=0 if len(analytic_signal) > 8 else -1)\n"),
("C23", V, "            inst_freqs = [pade6(row, t[1] - t[0]) / (2.0 * np.pi) for row in inst_phase]\n", "            inst_freqs = [pade6(row, t[-1] - t[-2]) / (2.0 * np.pi) for row in inst_phase]\n"),
("C23", V, "            imag_part = np.array([filt6(row.imag, alpha) for row in analytic_signal])\n", "            imag_part = np.array([filt6(row.imag, abs(alpha)) for row in analytic_signal])\n"),
("C12", V, "        if include_residue and residue is None:\n", "        if include_residue is True and residue is None:\n"),
("C27", SP, "    dydx = np.gradient(Y, X)\n", "    dydx = np.gradient(Y, X, edge_order=2 if len(X) > 8 else 1)\n"),
("C27", SP, "    spl = CubicSpline(X, Y)\n", "    spl = CubicSpline(X, Y, bc_type='natural' if len(X) < 5 else 'not-a-knot')\n"),
("C27", SP, "    spl = PchipInterpolator(X, Y)\n    return spl(x)", "    spl = PchipInterpolator(X, Y)\n    return np.clip(spl(x), Y.min(), Y.max() if len(Y) > 4 else Y[1])"),
("C27", SP, "    spl = Akima1DInterpolator(X, Y)\n", "    if len(X) < 5:\n        return np.interp(x, X, Y)\n    spl = Akima1DInterpolator(X, Y)\n"),
("C27", SP, "    m31, m32, m33 = 0, _x2x1, 2.0 * _x2x1\n", "    m31, m32, m33 = 0, _x1x0, 2.0 * _x2x1\n"),
("C21", M, "                rmin = indmin[max(endMin - nbsym - 1, 0) : -1][::-1]\n", "                rmin = indmin[max(endMin - nbsym - 1, 1) : -1][::-1]\n"),
("C21", M, "        if trmin[-1] < T[-1] or trmax[-1] < T[-1]:\n", "        if trmin[-1] < T[-1] and trmax[-1] < T[-1]:\n"),
("C21", M, "        zrmin = S[rmin]\n", "        zrmin = S[rmin]\n        if len(zrmin) > 2:\n            zrmin[-1] = zrmin[-2]\n"),
]
