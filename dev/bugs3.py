"""Third list of plausible bugs, written from the property texts."""
BUGS = [
# 0-2 C20
("C20", "PyEMD/EMD.py", "        sign_change = d1 * d2 < 0\n", "        sign_change = np.sign(d1) * np.sign(d2) < 0\n        sign_change[np.abs(d1) + np.abs(d2) < 1e-12 * np.max(np.abs(S))] = False\n"),
("C20", "PyEMD/EMD.py", "midpoints = np.round((fins + debs) / 2.0).astype(np.intp)", "midpoints = np.floor((fins + debs) / 2.0).astype(np.intp)"),
("C20", "PyEMD/EMD.py", "                min_mask = (d_before < 0) & (d_after > 0)", "                min_mask = ~max_mask"),
# 3
("C20", "PyEMD/EMD.py", "        idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))", "        idx = (tVertex <= T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))"),
("C20", "PyEMD/EMD.py", "        a[a == 0] = 1e-14\n", "        a[np.abs(a) < 1e-14] = 1e-14\n"),
("C20", "PyEMD/EMD.py", "                debz = np.nonzero(dz == 1)[0]\n                finz = np.nonzero(dz == -1)[0] - 1\n                indz = np.round((debz + finz) / 2.0)\n\n            indzer = np.sort(np.append(indzer, indz))\n\n        dt", "                debz = np.nonzero(dz == 1)[0]\n                finz = np.nonzero(dz == -1)[0]\n                indz = np.round((debz + finz) / 2.0)\n\n            indzer = np.sort(np.append(indzer, indz))\n\n        dt"),
# 6 C23
("C23", "PyEMD/visualisation.py", '            ax.set_ylabel("IMF " + str(num + 1))', '            ax.set_ylabel("IMF " + str(num_rows - include_residue - len(imfs) + num + 1 if len(imfs) < 10 else num))'),
("C23", "PyEMD/visualisation.py", "            inst_freqs = np.diff(inst_phase) / (2 * np.pi * (t[1] - t[0]))", "            inst_freqs = np.diff(inst_phase) / (2 * np.pi * np.diff(t).mean())"),
("C23", "PyEMD/visualisation.py", "        phase = np.unwrap(np.angle(analytic_signal))", "        phase = np.unwrap(np.angle(analytic_signal), axis=0)"),
("C23", "PyEMD/visualisation.py", "        t = t if t is not None else range(t_length)", "        t = t if t is not None else range(1, t_length + 1)"),
# 10 C24
("C24", "PyEMD/utils.py", "            if ref_value < np.iinfo(dtype).max:", "            if ref_value <= np.iinfo(dtype).max + 2:"),
("C24", "PyEMD/utils.py", "    if timeline[-1] != range_max - 1 or is_inexact:", "    if timeline[-1] < range_max - 1 or is_inexact:"),
("C24", "PyEMD/EMD.py", '        if T is None or self.extrema_detection == "simple":', '        if T is None or self.extrema_detection != "parabol" or np.allclose(np.diff(T, 2), 0):'),
# 13 C29
("C29", "PyEMD/EMD.py", "        if np.max(tmp) - np.min(tmp) < self.range_thr:", "        if np.max(np.abs(tmp)) < self.range_thr:"),
("C29", "PyEMD/BEMD.py", "        if np.allclose(image, rec):", "        if np.allclose(rec, image, rtol=1e-4):"),
("C29", "PyEMD/BEMD.py", "np.all(np.abs(mean_env - mean_env.mean()) < self.mean_thr)", "np.abs(mean_env - mean_env.mean()).mean() < self.mean_thr"),
("C29", "PyEMD/EMD2d.py", "        if mse_proto_imf < self.mse_thr:", "        if mse_proto_imf < self.mean_thr * self.mse_thr:"),
# 17 C32
("C32", "PyEMD/CEEMDAN.py", "            beta = self.epsilon * np.std(prev_res)", "            beta = self.epsilon * np.std(prev_res - prev_res[0])  if imfNo < 4 else self.epsilon * np.std(S)"),
("C32", "PyEMD/CEEMDAN.py", "                if len(noise_imf) > imfNo:\n", "                if len(noise_imf) > imfNo + 1:\n"),
("C32", "PyEMD/CEEMDAN.py", "                    res += beta * noise_imf[imfNo]", "                    res += beta * noise_imf[min(imfNo, 5)]"),
("C32", "PyEMD/EEMD.py", "        scale = self.noise_width * np.abs(np.max(S) - np.min(S))", "        scale = self.noise_width * (np.percentile(S, 99.9) - np.percentile(S, 0.1)) if len(S) > 5000 else self.noise_width * np.abs(np.max(S) - np.min(S))"),
# 21 C18
("C18", "PyEMD/compact.py", "    for i in range(n - 2, -1, -1):\n", "    for i in range(n - 2, 0, -1):\n"),
("C18", "PyEMD/compact.py", "    for i in range(1, n - 1):\n        cp[i] =", "    for i in range(1, n - 2):\n        cp[i] ="),
("C18", "PyEMD/compact.py", "    Da[-3] = Dc[-3] = 0.0\n", "    Da[-3] = 0.0\n"),
# 24 C19
("C19", "PyEMD/checks.py", "find_peaks(data, height=0)", "find_peaks(data, height=0, distance=2)"),
("C19", "PyEMD/checks.py", "    k = abs(stats.norm.ppf((1 - alpha) / 2))\n    upper_limit = -T +", "    k = abs(stats.norm.ppf(1 - alpha))\n    upper_limit = -T +"),
("C19", "PyEMD/checks.py", "    return len(data) / peaks if peaks > 0 else len(data)", "    return len(data) / max(peaks, 1) if len(data) > 2 else 2"),
# 27 C27
("C27", "PyEMD/splines.py", "    dydx = np.gradient(Y, X)\n", "    dydx = np.gradient(Y, X, edge_order=min(2, len(X) - 1))\n"),
("C27", "PyEMD/splines.py", "    spl = CubicSpline(X, Y)\n", "    spl = CubicSpline(X, Y, bc_type=\"natural\" if len(X) < 6 else \"not-a-knot\")\n"),
("C27", "PyEMD/splines.py", "    spl = PchipInterpolator(X, Y)\n", "    spl = PchipInterpolator(X, Y, extrapolate=False)\n"),
("C27", "PyEMD/splines.py", "    t2 = (T[np.r_[T >= x1] & np.r_[T <= x2]] - x1) / x2x1\n", "    t2 = (T[np.r_[T > x1] & np.r_[T <= x2]] - x1) / x2x1\n"),
# 31 C13
("C13", "PyEMD/EMD.py", "                    mean[:] = 0.5 * (max_env + min_env)\n", "                    mean[:] = 0.5 * (max_env + min_env)\n                    mean[np.abs(mean) < 1e-12] = 0\n"),
("C13", "PyEMD/BEMD.py", "                    mean_env = 0.5 * (min_env + max_env)\n", "                    mean_env = np.clip(0.5 * (min_env + max_env), image_s.min(), image_s.max())\n"),
("C13", "PyEMD/EMD.py", "                        f2 = abs(extNo - nzm) < 2\n", "                        f2 = abs(extNo - len(indzer)) < 2\n"),
# 34 C09
("C09", "PyEMD/EMD.py", "                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0", "                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else max(n_h - 1, 0)"),
("C09", "PyEMD/BEMD.py", "            while not stop_sifting and n < self.MAX_ITERATION:\n", "            while not stop_sifting and n < max(self.MAX_ITERATION, self.FIXE):\n"),
("C09", "PyEMD/EMD.py", "                    if self.FIXE:\n                        if n >= self.FIXE:\n                            break\n", "                    if self.FIXE:\n                        if n >= self.FIXE or np.allclose(imf, imf_old):\n                            break\n"),
# 37 C10
("C10", "PyEMD/EMD.py", "            if self.end_condition(S, IMF) or imfNo == max_imf:\n", "            if self.end_condition(S, IMF) or 0 <= max_imf <= imfNo:\n"),
("C10", "PyEMD/CEEMDAN.py", "        last_imf = self._eemd(S, T, max_imf=1, progress=progress)[0]", "        last_imf = self._eemd(S, T, max_imf=max_imf, progress=progress)[0]"),
# 39 C02
("C02", "PyEMD/EMD.py", "        self.residue = S - np.sum(self.imfs, axis=0)\n", "        self.residue = residue if extNo <= 2 else S - np.sum(self.imfs, axis=0)\n"),
("C02", "PyEMD/CEEMDAN.py", "        self.residue = S * scale_s - np.sum(self.C_IMF, axis=0)", "        self.residue = S - np.sum(self.C_IMF, axis=0) / scale_s"),
("C02", "PyEMD/EEMD.py", "        self.residue = S - np.sum(self.E_IMF, axis=0)\n", "        self.residue = S - np.sum(self.E_IMF[: max_imf if max_imf > 0 else None], axis=0)\n"),
# 42 C04
("C04", "PyEMD/EMD.py", "        self.imfs = IMF.copy()\n", "        self.imfs = IMF\n"),
("C04", "PyEMD/BEMD.py", "        image_s = image.copy()\n", "        image_s = image\n"),
("C04", "PyEMD/CEEMDAN.py", "            prev_res = local_mean.copy()\n", "            prev_res = local_mean\n"),
# 45 C01
("C01", "PyEMD/EMD.py", "        if not np.allclose(self.residue, 0):\n", "        if not np.allclose(self.residue, 0, atol=1e-8 * np.ptp(S)):\n"),
("C01", "PyEMD/BEMD.py", "        if not np.allclose(res, 0):\n", "        if not np.allclose(image_s, np.sum(IMF, axis=0)):\n"),
("C01", "PyEMD/CEEMDAN.py", "        all_cimfs = np.vstack((all_cimfs, res))\n", "        if np.any(np.abs(res) > 1e-12):\n            all_cimfs = np.vstack((all_cimfs, res))\n"),
# 48 C12
("C12", "PyEMD/EMD.py", "        assert np.all(d != 0), \"All time", "        assert np.any(d != 0), \"All time"),
("C12", "PyEMD/CEEMDAN.py", "        if self.C_IMF is None or self.residue is None:\n", "        if self.C_IMF is None and self.residue is None:\n"),
("C12", "PyEMD/EMD.py", "        if T is not None and len(S) != len(T):\n", "        if T is not None and len(S) > len(T):\n"),
# 51 C06/C07
("C06", "PyEMD/EEMD.py", "        self.random = np.random.RandomState()\n", "        self.random = np.random.mtrand._rand\n"),
("C07", "PyEMD/EEMD.py", "                all_IMFs = pool.map(self._trial_update, noises)", "                all_IMFs = list(pool.imap_unordered(self._trial_update, noises))"),
("C06", "PyEMD/CEEMDAN.py", "        self.all_noises = self.generate_noise(self.noise_scale, (self.trials, S.size))", "        if getattr(self, \"all_noises\", np.empty(0)).shape != (self.trials, S.size):\n            self.all_noises = self.generate_noise(self.noise_scale, (self.trials, S.size))"),
("C07", "PyEMD/CEEMDAN.py", "        noise = self.epsilon * self.all_noise_EMD[trial][0]", "        noise = self.epsilon * self.all_noise_EMD[trial % 128][0]"),
# 55 C16
("C16", "PyEMD/CEEMDAN.py", "        return self.ceemdan(S, T=T, max_imf=max_imf, progress=progress)", "        return self.ceemdan(S, T=T, max_imf=max_imf or -1, progress=progress)"),
("C16", "PyEMD/EEMD.py", "        for imfs, trend in it(all_IMFs):\n", "        for imfs, trend in it(all_IMFs) if not progress else zip(*[iter(y for x in it(all_IMFs) for y in x)] * 2):\n"),
# 57 C22
("C22", "PyEMD/checks.py", "    peaks = len(find_peaks(data, height=0)[0])", "    np.seterr(divide=\"ignore\")\n    peaks = len(find_peaks(data, height=0)[0])"),
("C22", "PyEMD/visualisation.py", "        axes[0].set_title(\"Time series\")\n", "        plt.rcParams[\"axes.titlesize\"] = \"medium\"\n        axes[0].set_title(\"Time series\")\n"),
("C22", "PyEMD/EEMD.py", "            with Pool(processes=self.processes) as pool:\n", "            os.environ[\"OMP_NUM_THREADS\"] = \"1\"\n            with Pool(processes=self.processes) as pool:\n"),
# 60 C05
("C05", "PyEMD/EEMD.py", "        self._all_imfs = defaultdict(list)\n", "        if not progress or not isinstance(self._all_imfs, defaultdict):\n            self._all_imfs = defaultdict(list)\n"),
("C05", "PyEMD/BEMD.py", "        imf_old = imf.copy()\n\n        imfNo = 0", "        imf_old = imf.copy()\n        self.mean_thr = min(self.mean_thr, 0.1 * image.std())\n\n        imfNo = 0"),
# 62 C03
("C03", "PyEMD/visualisation.py", "        imfs, residue = self._check_imfs(imfs, residue, include_residue)\n", "        imfs, residue = self._check_imfs(imfs, residue, include_residue)\n        imfs[np.isnan(imfs)] = 0\n"),
("C03", "PyEMD/CEEMDAN.py", "        prev_res = S - last_imf\n", "        prev_res = np.subtract(S, last_imf, out=S)\n"),
# 64 C26
("C26", "PyEMD/BEMD.py", "        seed_min = image - 1\n", "        seed_min = image - np.ptp(image) / 256\n"),
("C26", "PyEMD/BEMD.py", "        return np.where(cleaned_image > 0)[::-1]", "        return np.where(cleaned_image > 1e-3)[::-1]"),
# 66 C15
("C15", "PyEMD/CEEMDAN.py", "                local_mean += imfs[-1] / self.trials\n", "                if len(imfs) > 1:\n                    local_mean += imfs[-1] / self.trials\n"),
("C15", "PyEMD/EEMD.py", "            if trend is not None:\n", "            if trend is not None and np.any(trend):\n"),
# 68 C08
("C08", "PyEMD/EEMD.py", "            with Pool(processes=self.processes) as pool:\n                all_IMFs = pool.map(self._trial_update, noises)\n", "            pool = Pool(processes=self.processes)\n            try:\n                all_IMFs = pool.map(self._trial_update, noises)\n            except ValueError:\n                pool.terminate()\n                raise\n            pool.close()\n            pool.join()\n"),
]
