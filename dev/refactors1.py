# behaviour-preserving edits (development battery)
R = [
("eemd-listcomp-noise", [("PyEMD/EEMD.py", "        noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))\n", "        noises = [self.generate_noise(self._scale, self._N) for _ in range(self.trials)]\n")]),
("eemd-loop-noise", [("PyEMD/EEMD.py", "        noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))\n", "        noises = []\n        for _ in range(self.trials):\n            noises.append(self.generate_noise(self._scale, self._N))\n")]),
("eemd-helper-run", [("PyEMD/EEMD.py", "        if self.parallel:\n            with Pool(processes=self.processes) as pool:\n                all_IMFs = pool.map(self._trial_update, noises)\n        else:\n            all_IMFs = map(self._trial_update, noises)\n", "        all_IMFs = self._run_trials(noises)\n"),
   ("PyEMD/EEMD.py", "    def _trial_update(self, noise", "    def _run_trials(self, noises):\n        if not self.parallel:\n            return map(self._trial_update, noises)\n        with Pool(processes=self.processes) as pool:\n            return pool.map(self._trial_update, noises)\n\n    def _trial_update(self, noise")]),
("eemd-serial-listcomp", [("PyEMD/EEMD.py", "            all_IMFs = map(self._trial_update, noises)\n", "            all_IMFs = [self._trial_update(noise) for noise in noises]\n")]),
("eemd-collect-helper", [("PyEMD/EEMD.py", "            if trend is not None:\n                self._all_imfs[-1].append(trend)\n\n            for imf_num, imf in enumerate(imfs):\n                self._all_imfs[imf_num].append(imf)\n", "            self._collect(imfs, trend)\n"),
   ("PyEMD/EEMD.py", "    def _trial_update(self, noise", "    def _collect(self, imfs, trend):\n        if trend is not None:\n            self._all_imfs[-1].append(trend)\n        for imf_num in range(len(imfs)):\n            self._all_imfs[imf_num].append(imfs[imf_num])\n\n    def _trial_update(self, noise")]),
("eemd-dictcomp", [("PyEMD/EEMD.py", "        for imf_num in self._all_imfs.keys():\n            self._all_imfs[imf_num] = np.array(self._all_imfs[imf_num])\n", "        self._all_imfs = {imf_num: np.array(imfs) for imf_num, imfs in self._all_imfs.items()}\n")]),
("eemd-mean-loop", [("PyEMD/EEMD.py", "        return np.array([imfs.mean(axis=0) for imfs in self._all_imfs.values()])\n", "        means = []\n        for imfs in self._all_imfs.values():\n            means.append(np.mean(imfs, axis=0))\n        return np.array(means)\n")]),
("eemd-progress-if", [("PyEMD/EEMD.py", "        it = iter if not progress else lambda x: tqdm(x, desc=\"EEMD\", total=self.trials)\n        for imfs, trend in it(all_IMFs):\n", "        if progress:\n            all_IMFs = tqdm(all_IMFs, desc=\"EEMD\", total=self.trials)\n        for imfs, trend in all_IMFs:\n")]),
("eemd-noise-dispatch", [("PyEMD/EEMD.py", "        if self.noise_kind == \"normal\":\n            noise = self.random.normal(loc=0, scale=scale, size=size)\n        elif self.noise_kind == \"uniform\":\n            noise = self.random.uniform(low=-scale / 2, high=scale / 2, size=size)\n        else:\n            raise", "        if self.noise_kind == \"normal\":\n            return self.random.normal(loc=0, scale=scale, size=size)\n        if self.noise_kind == \"uniform\":\n            half = scale / 2\n            noise = self.random.uniform(-half, half, size)\n        else:\n            raise")]),
("eemd-res-reorder", [("PyEMD/EEMD.py", "        self.E_IMF = self.ensemble_mean()\n        self.residue = S - np.sum(self.E_IMF, axis=0)\n\n        return self.E_IMF\n", "        result = self.ensemble_mean()\n        self.residue = S - result.sum(axis=0)\n        self.E_IMF = result\n\n        return result\n")]),
("eemd-scale-ptp", [("PyEMD/EEMD.py", "        scale = self.noise_width * np.abs(np.max(S) - np.min(S))\n        self._S = S\n        self._T = T\n        self._N = len(S)\n        self._scale = scale\n", "        self._S, self._T, self._N = S, T, len(S)\n        amplitude = np.abs(S.max() - S.min())\n        self._scale = self.noise_width * amplitude\n")]),
("ceemdan-serial-loop", [("PyEMD/CEEMDAN.py", "            all_noise_EMD = [self.emd(noise, max_imf=-1) for noise in self.all_noises]\n", "            all_noise_EMD = []\n            for noise in self.all_noises:\n                all_noise_EMD.append(self.emd(noise, None, -1))\n")]),
("ceemdan-with", [("PyEMD/CEEMDAN.py", "        if self.beta_progress:\n            all_stds = [np.std(imfs[0]) for imfs in all_noise_EMD]\n            all_noise_EMD = [imfs / imfs_std for (imfs, imfs_std) in zip(all_noise_EMD, all_stds)]\n\n        return all_noise_EMD\n", "        if not self.beta_progress:\n            return all_noise_EMD\n        return [imfs / np.std(imfs[0]) for imfs in all_noise_EMD]\n")]),
("ceemdan-localmean-helper", [("PyEMD/CEEMDAN.py", "            local_mean = np.zeros(S.size)\n            for trial in range(self.trials):\n                # Skip if noise[trial] didn't have k'th mode\n                noise_imf = self.all_noise_EMD[trial]\n                res = prev_res.copy()\n                if len(noise_imf) > imfNo:\n                    res += beta * noise_imf[imfNo]\n\n                # Extract local mean, which is at 2nd position\n                imfs = self.emd(res, T, max_imf=1)\n                local_mean += imfs[-1] / self.trials\n", "            local_mean = self._local_mean(S.size, prev_res, T, beta, imfNo)\n"),
   ("PyEMD/CEEMDAN.py", "    def end_condition(self", "    def _local_mean(self, size, prev_res, T, beta, imfNo):\n        local_mean = np.zeros(size)\n        for noise_imf in self.all_noise_EMD[: self.trials]:\n            res = prev_res.copy()\n            if imfNo < len(noise_imf):\n                res = res + beta * noise_imf[imfNo]\n            local_mean += self.emd(res, T, max_imf=1)[-1] / self.trials\n        return local_mean\n\n    def end_condition(self")]),
("ceemdan-while", [("PyEMD/CEEMDAN.py", "        all_cimfs = np.vstack((all_cimfs, res))\n        all_cimfs = all_cimfs * scale_s\n", "        all_cimfs = np.concatenate((all_cimfs, res[None, :]), axis=0) * scale_s\n")]),
("ceemdan-end-or", [("PyEMD/CEEMDAN.py", "        # Check for range threshold\n        if np.max(R) - np.min(R) < self.range_thr:\n            self.logger.debug(\"FINISHED -- RANGE\")\n            return True\n\n        # Check for power threshold\n        if np.sum(np.abs(R)) < self.total_power_thr:\n            self.logger.debug(\"FINISHED -- SUM POWER\")\n            return True\n\n        return False\n", "        small_range = R.max() - R.min() < self.range_thr\n        small_power = np.abs(R).sum() < self.total_power_thr\n        return bool(small_range or small_power)\n")]),
("ceemdan-pool-with", [("PyEMD/CEEMDAN.py", "        if self.parallel:\n            pool = Pool(processes=self.processes)\n            map_pool = pool.imap\n        else:  # Not parallel\n            map_pool = map\n\n        try:\n            for IMFs in it(map_pool(self._trial_update, range(self.trials))):\n                if self.E_IMF.shape[0] < IMFs.shape[0]:\n                    num_new_layers = IMFs.shape[0] - self.E_IMF.shape[0]\n                    self.E_IMF = np.vstack((self.E_IMF, np.zeros(shape=(num_new_layers, N))))\n                self.E_IMF[: IMFs.shape[0]] += IMFs\n        finally:\n            if self.parallel:\n                pool.terminate()\n", "        if self.parallel:\n            with Pool(processes=self.processes) as pool:\n                for IMFs in it(pool.imap(self._trial_update, range(self.trials))):\n                    self._accumulate(IMFs, N)\n        else:\n            for trial in it(range(self.trials)):\n                self._accumulate(self._trial_update(trial), N)\n"),
   ("PyEMD/CEEMDAN.py", "    def _trial_update(self, trial", "    def _accumulate(self, IMFs, N):\n        missing = IMFs.shape[0] - self.E_IMF.shape[0]\n        if missing > 0:\n            self.E_IMF = np.vstack((self.E_IMF, np.zeros((missing, N))))\n        self.E_IMF[: IMFs.shape[0]] += IMFs\n\n    def _trial_update(self, trial")]),
("ceemdan-res-inline", [("PyEMD/CEEMDAN.py", "        res = S - np.sum(all_cimfs, axis=0)\n        all_cimfs = np.vstack((all_cimfs, res))\n", "        all_cimfs = np.vstack((all_cimfs, S - all_cimfs.sum(axis=0)))\n")]),
("ceemdan-scale-late", [("PyEMD/CEEMDAN.py", "        self.C_IMF = all_cimfs\n        self.residue = S * scale_s - np.sum(self.C_IMF, axis=0)\n\n        return all_cimfs\n", "        self.residue = S * scale_s - all_cimfs.sum(axis=0)\n        self.C_IMF = all_cimfs\n        return self.C_IMF\n")]),
("emd-residue-if", [("PyEMD/EMD.py", "        if not np.allclose(self.residue, 0):\n            IMF = np.vstack((IMF, self.residue))\n\n        return IMF\n", "        if np.allclose(self.residue, 0):\n            return IMF\n        return np.vstack((IMF, self.residue))\n")]),
("emd-end-expr", [("PyEMD/EMD.py", "        if np.max(tmp) - np.min(tmp) < self.range_thr:\n            self.logger.debug(\"FINISHED -- RANGE\")\n            return True\n\n        if np.sum(np.abs(tmp)) < self.total_power_thr:\n            self.logger.debug(\"FINISHED -- SUM POWER\")\n            return True\n\n        return False\n", "        if np.ptp(tmp) < self.range_thr:\n            self.logger.debug(\"FINISHED -- RANGE\")\n            finished = True\n        elif np.abs(tmp).sum() < self.total_power_thr:\n            self.logger.debug(\"FINISHED -- SUM POWER\")\n            finished = True\n        else:\n            finished = False\n        return finished\n")]),
("emd-stop-helper", [("PyEMD/EMD.py", "                        f1 = self.check_imf(imf, imf_old, eMax, eMin)\n                        f2 = abs(extNo - nzm) < 2\n\n                        # STOP\n                        if f1 and f2:\n                            break\n", "                        # STOP\n                        if self._is_imf(imf, imf_old, eMax, eMin, extNo, nzm):\n                            break\n"),
   ("PyEMD/EMD.py", "    @staticmethod\n    def _normalize_time", "    def _is_imf(self, imf, imf_old, eMax, eMin, extNo, nzm):\n        close = abs(extNo - nzm) < 2\n        return close and self.check_imf(imf, imf_old, eMax, eMin)\n\n    @staticmethod\n    def _normalize_time")]),
("emd-sift-inplace", [("PyEMD/EMD.py", "                    imf[:] = imf - mean\n", "                    imf -= mean\n")] ),
("emd-residue-fresh", [("PyEMD/EMD.py", "            residue[:] = S - np.sum(IMF[:imfNo], axis=0)\n            imf = residue.copy()\n", "            imf = (S - IMF[:imfNo].sum(axis=0)).astype(self.DTYPE)\n")]),
("emd-list-imfs", [("PyEMD/EMD.py", "            IMF = np.vstack((IMF, imf.copy()))\n            imfNo += 1\n\n            if self.end_condition(S, IMF) or imfNo == max_imf:\n                finished = True\n                break\n", "            IMF = np.concatenate((IMF, imf[np.newaxis, :]))\n            imfNo = IMF.shape[0]\n\n            finished = finished or bool(self.end_condition(S, IMF)) or imfNo == max_imf\n")]),
("emd-maxiter-for", [("PyEMD/EMD.py", "            while True:\n                n += 1\n                if n >= self.MAX_ITERATION:\n                    self.logger.info(\"Max iterations reached for IMF. Continuing with another IMF.\")\n                    break\n", "            while True:\n                n = n + 1\n                if not n < self.MAX_ITERATION:\n                    self.logger.info(\"Max iterations reached for IMF. Continuing with another IMF.\")\n                    break\n")]),
("emd-fixe-merge", [("PyEMD/EMD.py", "                    if self.FIXE:\n                        if n >= self.FIXE:\n                            break\n", "                    if self.FIXE != 0:\n                        if not (n < self.FIXE):\n                            break\n                        continue\n")]),
("emd-spline-table", [("PyEMD/EMD.py", "        if kind == \"akima\":\n            return t, akima(extrema[0], extrema[1], t)\n\n        elif kind == \"cubic\":\n            if extrema.shape[1] > 3:\n                return t, cubic(extrema[0], extrema[1], t)\n            else:\n                return cubic_spline_3pts(extrema[0], extrema[1], t)\n\n        elif kind == \"pchip\":\n            return t, pchip(extrema[0], extrema[1], t)\n\n        elif kind == \"cubic_hermite\":\n            return t, cubic_hermite(extrema[0], extrema[1], t)\n", "        x, y = extrema[0], extrema[1]\n        direct = {\"akima\": akima, \"pchip\": pchip, \"cubic_hermite\": cubic_hermite}\n        if kind in direct:\n            return t, direct[kind](x, y, t)\n\n        if kind == \"cubic\":\n            if extrema.shape[1] <= 3:\n                return cubic_spline_3pts(x, y, t)\n            return t, cubic(x, y, t)\n")]),
("emd-extrema-bool", [("PyEMD/EMD.py", "        sign_change = d1 * d2 < 0\n        indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1\n        indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1\n", "        indmax = np.where((d1 > 0) & (d2 < 0))[0] + 1\n        indmin = np.where((d1 < 0) & (d2 > 0))[0] + 1\n")]),
("emd-checkimf-nested", [("PyEMD/EMD.py", "        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):\n            return False\n\n        # Convergence\n        if np.sum(imf_new**2) < 1e-10:\n            return False\n", "        wrong_side = (eMax[1] < 0).any() or (eMin[1] > 0).any()\n        if wrong_side or np.sum(imf_new * imf_new) < 1e-10:\n            return False\n")]),
("utils-timeline", [("PyEMD/utils.py", "    if x.dtype != dtype:\n        x = x.astype(dtype)\n    if y.dtype != dtype:\n        y = y.astype(dtype)\n\n    return x, y\n", "    x = x if x.dtype == dtype else x.astype(dtype)\n    y = y if y.dtype == dtype else y.astype(dtype)\n    return x, y\n")]),
("tdma-reversed", [("PyEMD/compact.py", "    for i in range(n - 2, -1, -1):\n        x[i] = dp[i] - cp[i] * x[i + 1]\n", "    for i in reversed(range(n - 1)):\n        x[i] = dp[i] - cp[i] * x[i + 1]\n")]),
("tdma-denom", [("PyEMD/compact.py", "        dp[i] = (d[i] - a[i] * dp[i - 1]) / (b[i] - a[i] * cp[i - 1])\n", "        denom = b[i] - a[i] * cp[i - 1]\n        dp[i] = (d[i] - a[i] * dp[i - 1]) / denom\n")]),
("pade-fold", [("PyEMD/compact.py", "    rhs[2:-2] = (vec[3:-1] - vec[1:-3]) * (a / h) + (vec[4:] - vec[0:-4]) * (b / h)\n", "    rhs[2:-2] = (a * (vec[3:-1] - vec[1:-3]) + b * (vec[4:] - vec[:-4])) / h\n")]),
]
