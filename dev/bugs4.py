# (property, file, old, new)
E = "PyEMD/EMD.py"
EE = "PyEMD/EEMD.py"
CE = "PyEMD/CEEMDAN.py"
D = "PyEMD/EMD2d.py"
B = "PyEMD/BEMD.py"
J = "PyEMD/experimental/jitemd.py"
M = "PyEMD/EMD_matlab.py"
W = "PyEMD/checks.py"
V = "PyEMD/visualisation.py"
U = "PyEMD/utils.py"
C = "PyEMD/compact.py"
S = "PyEMD/splines.py"
BUGS = [
("C01", E, '''        # If residue isn't 0 then add it to the output
        if not np.allclose(self.residue, 0):
''', '''        # If residue isn't 0 then add it to the output
        if not np.allclose(self.residue, 0, atol=1e-8 * max(1.0, np.ptp(S))):
'''),
("C01", CE, '''            prev_res = local_mean.copy()
''', '''            prev_res = local_mean.copy() if imfNo < 30 else prev_res
'''),
("C01", CE, '''        res = S - np.sum(all_cimfs, axis=0)
        all_cimfs = np.vstack((all_cimfs, res))
''', '''        all_cimfs = np.vstack((all_cimfs, prev_res))
'''),
("C01", CE, '''        res = S - np.sum(all_cimfs, axis=0)
        all_cimfs = np.vstack((all_cimfs, res))
''', '''        res = S - np.sum(all_cimfs, axis=0)
        if np.any(res):
            all_cimfs = np.vstack((all_cimfs, res - res.mean() * (len(res) < 3)))
'''),
("C02", E, '''        self.imfs = IMF.copy()
''', '''        self.imfs = IMF[:max_imf].copy() if max_imf > 0 else IMF.copy()
'''),
("C02", EE, '''        self.residue = S - np.sum(self.E_IMF, axis=0)
''', '''        self.residue = self._S - np.sum(self.E_IMF[: self.max_imf if self.max_imf > 0 else None], axis=0)
'''),
("C03", V, '''        inst_freq = np.diff(np.unwrap(inst_phase, axis=1)) / (2 * np.pi * dt)
''', '''        inst_freq = np.diff(np.unwrap(inst_phase, axis=1)) / (2 * np.pi * dt)
        t -= t[0]
'''),
("C03", CE, '''        scale_s = np.std(S)
        S = S / scale_s
''', '''        scale_s = np.std(S)
        if S.dtype == np.float64 and scale_s == 1:
            S -= 0
        else:
            S = S / scale_s
'''),
("C03", CE, '''                res = prev_res.copy()
                if len(noise_imf) > imfNo:
''', '''                res = prev_res
                if len(noise_imf) > imfNo:
'''),
("C04", EE, '''        return self.E_IMF
''', '''        return self.E_IMF if len(self.E_IMF) > 1 else self._all_imfs[0].mean(axis=0, out=getattr(self, "_buf", None), keepdims=True)
'''),
("C04", E, '''        return imfs[:-1].copy(), imfs[-1].copy()
''', '''        imfs[-1] = imfs[-1] + residue
            return imfs[:-1].copy(), imfs[-1].copy()
'''),
("C05", E, '''        self.DTYPE = S.dtype
''', '''        self.DTYPE = np.promote_types(S.dtype, self.DTYPE)
'''),
("C05", CE, '''        self.all_noises = self.generate_noise(self.noise_scale, (self.trials, S.size))
''', '''        if getattr(self, "all_noises", None) is None or self.all_noises.shape != (self.trials, S.size):
            self.all_noises = self.generate_noise(self.noise_scale, (self.trials, S.size))
'''),
("C05", CE, '''        del self.all_noise_EMD[:]
''', '''        self.epsilon_used = self.epsilon
        self.total_power_thr = self.total_power_thr * (1 if len(all_cimfs) < 20 else 1.01)
        del self.all_noise_EMD[:]
'''),
("C06", EE, '''        self.random = np.random.RandomState()
''', '''        self.random = np.random.RandomState() if trials > 1 else np.random
'''),
("C06", EE, '''        self.random.seed(seed)
''', '''        self.random.seed(seed or None)
'''),
("C06", CE, '''        self.random.seed(seed)
''', '''        self.random.seed(seed % 65536)
'''),
("C07", EE, '''        noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))
''', '''        noises = [self.generate_noise(self._scale, self._N) for _ in range(self.trials)]
        if self.parallel:
            noises = noises[::-1]
'''),
("C07", CE, '''                all_noise_EMD = pool.map(self.emd, self.all_noises)
''', '''                all_noise_EMD = pool.map(self.emd, self.all_noises - self.all_noises.mean())
'''),
("C08", CE, '''        if self.parallel:
            pool = Pool(processes=self.processes)
            map_pool = pool.imap
''', '''        if self.parallel:
            pool = Pool(processes=self.processes)
            if self.processes == 1:
                pool = Pool(processes=self.processes, maxtasksperchild=1)
            map_pool = pool.imap
'''),
("C08", CE, '''            if self.parallel:
                pool.terminate()
''', '''            if self.parallel and progress:
                pool.terminate()
            elif self.parallel:
                pool.join()
'''),
("C09", E, '''                if n >= self.MAX_ITERATION:
''', '''                if n >= self.MAX_ITERATION and n_h < self.MAX_ITERATION and not self.FIXE_H:
'''),
("C09", E, '''                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0
''', '''                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else max(0, n_h - 1)
'''),
("C09", E, '''                        if n == 1:
                            continue
''', '''                        if n == 1 and self.FIXE_H > 1:
                            continue
'''),
("C10", E, '''            if self.end_condition(S, IMF) or imfNo == max_imf:
''', '''            if self.end_condition(S, IMF) or imfNo == max_imf or (max_imf > 0 and extNo < 5):
'''),
("C10", E, '''            if self.end_condition(S, IMF) or imfNo == max_imf:
''', '''            if self.end_condition(S, IMF) or 0 <= max_imf <= imfNo:
'''),
("C10", CE, '''        last_imf = self._eemd(S, T, max_imf=1, progress=progress)[0]
''', '''        last_imf = self._eemd(S, T, max_imf=max(1, min(max_imf, 2)), progress=progress)[0]
'''),
("C11", E, '''        elif self.spline_kind == "pchip":
''', '''        elif self.spline_kind in ("pchip", "cubic_hermite"):
'''),
("C11", E, '''            if extrema.shape[1] > 3:
                return t, interp1d(extrema[0], extrema[1], kind=self.spline_kind)(t)
''', '''            if extrema.shape[1] > 4:
                return t, interp1d(extrema[0], extrema[1], kind=self.spline_kind)(t)
'''),
("C12", E, '''        if T is not None and len(S) != len(T):
''', '''        if T is not None and len(S) > len(T):
'''),
("C12", E, '''        assert np.all(d != 0), "All time domain values needs to be unique"
''', '''        assert np.all(d[:-1] != 0) or len(d) < 2, "All time domain values needs to be unique"
'''),
("C13", E, '''                    mean[:] = 0.5 * (max_env + min_env)
''', '''                    mean[:] = 0.5 * (max_env + min_env) if n < 900 else 0.0
'''),
("C13", E, '''            residue[:] = S - np.sum(IMF[:imfNo], axis=0)
''', '''            residue[:] = S - np.sum(IMF[: min(imfNo, 12)], axis=0)
'''),
("C15", EE, '''            for imf_num, imf in enumerate(imfs):
                self._all_imfs[imf_num].append(imf)
''', '''            for imf_num, imf in enumerate(imfs):
                if imf_num and np.array_equal(imf, imfs[imf_num - 1]):
                    continue
                self._all_imfs[imf_num].append(imf)
'''),
("C15", CE, '''                local_mean += imfs[-1] / self.trials
''', '''                local_mean += imfs[-1] / (self.trials if len(imfs) > 1 else self.trials + 1)
'''),
("C15", CE, '''        return self.E_IMF / self.trials
''', '''        return self.E_IMF / max(self.trials, 2)
'''),
("C15", EE, '''        return np.array([imfs.std(axis=0) for imfs in self._all_imfs.values()])
''', '''        return np.array([imfs.std(axis=0, ddof=int(len(imfs) > 30)) for imfs in self._all_imfs.values()])
'''),
("C16", CE, '''        it = iter if not progress else lambda x: tqdm(x, desc="cIMF decomposition", total=total)
        for _ in it(range(self._max_imf)):
''', '''        it = iter if not progress else lambda x: tqdm(x, desc="cIMF decomposition", total=total)
        for _ in it(range(self._max_imf if not progress else min(self._max_imf, total or self._max_imf))):
'''),
("C17", CE, '''        self._max_imf = int(kwargs.get("max_imf", 100))
''', '''        self._max_imf = int(kwargs.pop("max_imf", 100))
'''),
("C17", E, '''        self.MAX_ITERATION = int(kwargs.get("MAX_ITERATION", 1000))
''', '''        self.MAX_ITERATION = max(int(kwargs.get("MAX_ITERATION", 1000)), self.FIXE + 1)
'''),
("C19", W, '''    assert 0 < rescaling_imf <= len(IMFs), "Invalid rescaling IMF"
''', '''    rescaling_imf = min(rescaling_imf, len(IMFs))
    assert 0 < rescaling_imf, "Invalid rescaling IMF"
'''),
("C19", W, '''    if np.any(np.isnan(IMFs)):
''', '''    if np.any(np.isnan(IMFs[:, :-1])):
'''),
("C22", CE, '''        self.random = np.random.RandomState(seed=kwargs.get("seed"))
''', '''        self.random = np.random.RandomState(seed=kwargs.get("seed"))
        np.random.seed(kwargs.get("seed"))
'''),
("C24", E, '''        return (t - t[0]) / np.min(d)
''', '''        return (t - t[0]) / np.min(d[: max(1, len(d) // 2)])
'''),
("C24", U, '''            if ref_value < np.iinfo(dtype).max:
''', '''            if ref_value <= np.iinfo(dtype).max + 1:
'''),
("C29", E, '''        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old))
''', '''        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old) + 1e-12)
'''),
("C29", M, '''        f1 = np.mean(sx > self.stop1) > self.stop3
''', '''        f1 = np.mean(sx > self.stop1) >= self.stop3
'''),
("C32", EE, '''        scale = self.noise_width * np.abs(np.max(S) - np.min(S))
''', '''        scale = self.noise_width * np.abs(np.max(np.abs(S)) - np.min(S))
'''),
("C32", CE, '''                if len(noise_imf) > imfNo:
                    res += beta * noise_imf[imfNo]
''', '''                if len(noise_imf) > imfNo + 1:
                    res += beta * noise_imf[imfNo]
'''),
("C32", CE, '''            beta = self.epsilon * np.std(prev_res)
''', '''            beta = self.epsilon * (np.std(prev_res) if self.beta_progress else np.std(S))
'''),
]
