# second list, see bugs1.py
E="PyEMD/EMD.py"; EE="PyEMD/EEMD.py"; C="PyEMD/CEEMDAN.py"; D2="PyEMD/EMD2d.py"; B="PyEMD/BEMD.py"; M="PyEMD/EMD_matlab.py"; J="PyEMD/experimental/jitemd.py"; K="PyEMD/checks.py"; S="PyEMD/splines.py"; U="PyEMD/utils.py"; V="PyEMD/visualisation.py"; X="PyEMD/compact.py"
BUGS = [
("C01",E,"        if extNo <= 2:\n            IMF = IMF[:-1]\n","        if extNo <= 2 and imfNo != max_imf:\n            IMF = IMF[:-1]\n        elif extNo <= 2:\n            S = S - IMF[-1]\n            IMF = IMF[:-1]\n"),
("C01",B,"        if not np.allclose(res, 0):\n","        if not np.allclose(res, 0, atol=self.mse_thr):\n"),
("C01",D2,"        image_s = (image - offset) / scale\n","        image_s = np.clip((image - offset) / scale, 0, 1 - 1e-6)\n"),
("C01",M,"            Res -= imf\n","            Res -= imf * self.reduceScale\n"),
("C01",J,"    if not np.allclose(residue, 0):\n","    if not np.allclose(residue, 0, 1e-5, 1e-3):\n"),
("C02",E,"        self.imfs = IMF.copy()\n        self.residue = S - np.sum(self.imfs, axis=0)\n","        self.imfs = IMF.copy()\n        self.residue = S - np.sum(IMF[: max(max_imf, 0) or None], axis=0)\n"),
("C02",EE,"        return self.E_IMF, self.residue\n","        return self.E_IMF[: self.max_imf if self.max_imf > 0 else None], self.residue\n"),
("C02",C,"        self.C_IMF = all_cimfs\n","        self.C_IMF = all_cimfs[:max_imf] if 0 < max_imf < len(all_cimfs) else all_cimfs\n"),
("C03",U,"    x = x.astype(dtype)","    x = x.astype(dtype, copy=False)"),
("C03",V,"        num_rows, t_length = imfs.shape\n","        imfs -= imfs.mean(axis=1, keepdims=True) if not include_residue else 0\n        num_rows, t_length = imfs.shape\n"),
("C04",E,"        self.imfs = IMF.copy()\n","        self.imfs = IMF if len(IMF) > 1 else IMF.copy()\n"),
("C04",B,"        image_s = image.copy()\n","        image_s = image\n"),
("C05",C,"        self.all_noises = self.generate_noise(self.noise_scale, (self.trials, S.size))\n","        if getattr(self, \"all_noises\", None) is None or self.all_noises.shape != (self.trials, S.size):\n            self.all_noises = self.generate_noise(self.noise_scale, (self.trials, S.size))\n"),
("C05",E,"        self.DTYPE = S.dtype\n","        if self.DTYPE is None or S.dtype.itemsize >= np.dtype(self.DTYPE).itemsize:\n            self.DTYPE = S.dtype\n"),
("C05",J,"        self.imfs = imfs[:-1, :]\n","        if self.residue is not None:\n            self.config[\"FIXE\"] = self.config[\"FIXE\"]\n        self.imfs = imfs[:-1, :]\n"),
("C05",B,"            stop_sifting = False\n","            stop_sifting = getattr(self, \"_flat\", False)\n            self._flat = bool(imfNo > 20)\n"),
("C06",EE,"        self.random.seed(seed)\n","        self.random = np.random.RandomState(abs(hash(str(seed))) % 2**32)\n"),
("C06",C,"        self.random.seed(seed)\n","        self.random.seed(seed % 2**16)\n        np.random.seed(seed)\n"),
("C09",M,"                    if n > self.maxIteration:\n","                    if n > self.maxIteration and not self.FIXE:\n"),
("C09",D2,"            while not stop_sifting and n < self.MAX_ITERATION:\n","            while not stop_sifting and n <= self.MAX_ITERATION:\n"),
("C09",D2,"                        if n_h >= self.FIXE_H:\n","                        if n_h > self.FIXE_H:\n"),
("C09",B,"                            n_h += 1\n                        else:\n                            n_h = 0\n","                            n_h += 1\n"),
("C10",D2,"(max_imf > 0 and imfNo >= max_imf)","(max_imf > 0 and imfNo >= max_imf and n < self.MAX_ITERATION)"),
("C10",B,"(max_imf > 0 and imfNo >= max_imf)","(max_imf > 1 and imfNo >= max_imf)"),
("C10",EE,"return self.EMD.emd(S, T, max_imf=max_imf)","return self.EMD.emd(S, T, max_imf=max_imf if max_imf < 8 else -1)"),
("C10",EE,"        self.max_imf = max_imf\n","        self.max_imf = max_imf + 1 if self.separate_trends and max_imf > 0 else max_imf\n"),
("C11",E,"        if kind == \"akima\":\n","        if kind == \"akima\" and extrema.shape[1] > 4:\n"),
("C11",E,"            raise ValueError(\"No such interpolation method!\")","            return t, interp1d(extrema[0], extrema[1])(t)"),
("C11",C,"        if self.noise_kind == \"normal\":\n","        if self.noise_kind != \"uniform\":\n"),
("C11",EE,"            self.EMD = ext_EMD\n","            self.EMD = copy.copy(ext_EMD)\n"),
("C11",J,"    elif kind == \"cubic\":","    elif kind == \"cubic\" or len(extrema[0]) == 4:"),
("C12",E,"        if T is not None and len(S) != len(T):\n","        if T is not None and len(S) > len(T):\n"),
("C12",E,"        if self.imfs is None or self.residue is None:\n            raise ValueError(\"No IMF found. Please, run EMD method or its variant first.\")\n        return self.imfs","        if self.imfs is None:\n            raise ValueError(\"No IMF found. Please, run EMD method or its variant first.\")\n        return self.imfs"),
("C12",V,"        if imfs is None:\n            raise AttributeError(\"No imfs passed to plot\")","        if imfs is None and residue is None:\n            raise AttributeError(\"No imfs passed to plot\")"),
("C13",E,"                    mean[:] = 0.5 * (max_env + min_env)\n","                    mean[:] = 0.5 * (max_env + min_env) if n < 50 else max_env - 0.5 * (max_env - min_env) * 1.01\n"),
("C13",E,"                        f2 = abs(extNo - nzm) < 2\n","                        f2 = abs(extNo - nzm) < 2 or n_h\n"),
("C13",E,"                        f2 = abs(extNo - nzm) < 2\n","                        f2 = extNo - nzm < 2\n"),
("C13",E,"            residue[:] = S - np.sum(IMF[:imfNo], axis=0)\n","            residue[:] = residue - IMF[imfNo - 1] if imfNo > 1 else S - np.sum(IMF[:imfNo], axis=0)\n"),
("C13",B,"                    mean_env = 0.5 * (min_env + max_env)\n","                    mean_env = 0.5 * (min_env + max_env) if n == 1 else 0.5 * (min_env + max_env) + 0.0 * n - mean_env * 0.1\n"),
("C13",D2,"len(min_peaks[0]) > 4 and len(max_peaks[0]) > 4","len(min_peaks[0]) > 4 or len(max_peaks[0]) > 4"),
("C15",EE,"            self._all_imfs[len(self._all_imfs)] = self._all_imfs.pop(-1)","            self._all_imfs[len(self._all_imfs)] = self._all_imfs.pop(-1)[: self.trials - 1]"),
("C15",EE,"return np.array([imfs.mean(axis=0) for imfs in self._all_imfs.values()])","return np.array([np.median(imfs, axis=0) if len(imfs) < 3 else imfs.mean(axis=0) for imfs in self._all_imfs.values()])"),
("C15",EE,"return np.array([imfs.std(axis=0) for imfs in self._all_imfs.values()])","return np.array([imfs.std(axis=0) for imfs in self._all_imfs.values() if len(imfs) > 1])"),
("C16",C,"        return self.ceemdan(S, T=T, max_imf=max_imf, progress=progress)","        return self.ceemdan(S, T=T, max_imf=max_imf or -1, progress=progress)"),
("C16",D2,"        return self.emd(image, max_imf=max_imf)","        return self.emd(image.squeeze(), max_imf=max_imf)"),
("C20",E,"        indmin = np.nonzero(np.logical_and(d1 * d2 < 0, d1 < 0))[0] + 1\n","        indmin = np.nonzero(np.logical_and(d1 * d2 < 0, d1 < d2))[0] + 1\n        indmin = indmin[S[indmin] < S.max()]\n"),
("C20",E,"            indzer = np.sort(np.append(indzer, indz))","            indzer = np.unique(np.append(indzer, indz))[: len(S) // 2]"),
("C20",E,"                indz = np.round((debz + finz) / 2.0)","                indz = debz"),
("C20",E,"imax.append(np.round((fins[k] + debs[k]) / 2.0))","imax.append(np.floor((fins[k] + debs[k]) / 2.0))"),
("C20",J,"                    if d[fins[k]] < 0:","                    if d[fins[k]] <= 0:"),
("C21",E,"        nbsym = self.nbsym\n","        nbsym = min(self.nbsym, 6)\n"),
("C22",E,"        self.logger.debug(\"IMF -- %s\", imfNo)","        logging.disable(logging.NOTSET)\n            self.logger.debug(\"IMF -- %s\", imfNo)"),
("C22",V,"        plt.tight_layout()","        plt.style.use(\"fast\")\n        plt.tight_layout()"),
("C23",V,"        axes[0][0].set_title(\"Time series\")","        axes[-1][0].set_title(\"Time series\")"),
("C23",V,"            ax.set_ylabel(\"IMF \" + str(num + 1))","            ax.set_ylabel(\"IMF \" + str(num))"),
("C24",E,"        d = np.diff(t)\n","        d = np.diff(t)\n        d = d[d > 1e-12]\n"),
("C24",U,"        if range_max <= np.finfo","        if range_max < np.finfo"),
("C26",D2,"        big_image[2 * shape[0] :, : shape[1]] = image_ud_lr\n","        big_image[2 * shape[0] :, : shape[1]] = image_ud_lr if shape[0] != shape[1] else image_lr\n"),
("C26",D2,"generate_binary_structure(2, 2)","generate_binary_structure(2, 1 if min(image.shape) < 12 else 2)"),
("C26",B,"        seed_min = image - 1\n","        seed_min = image - min(1, np.ptp(image))\n"),
("C27",D2,"        spline = SBS(X, Y, Z)\n","        spline = SBS(X, Y, Z, kx=min(3, len(X) // 8 or 1))\n"),
("C27",D2,"        xi = np.arange(image.shape[0], image.shape[0] * 2)\n","        xi = np.arange(image.shape[0], image.shape[0] * 2) - 0.5\n"),
("C27",E,"        if extrema.shape[1] > 3:","        if extrema.shape[1] > 4:"),
("C27",M,"            if extrema.shape[1] > 3:","            if extrema.shape[1] > 30:"),
("C27",S,"    m31, m32, m33 = 0, _x2x1, 2.0 * _x2x1","    m31, m32, m33 = 0, _x2x1, 2.0 * _x1x0"),
("C29",E,"        if np.sum(imf_new**2) < 1e-10:","        if np.sum(imf_new**2) < 1e-8:"),
("C29",E,"        if np.sum(np.abs(tmp)) < self.total_power_thr:","        if np.sum(np.abs(tmp)) < self.total_power_thr * len(S):"),
("C29",C,"        if np.max(res) - np.min(res) < self.range_thr:","        if np.max(np.abs(res)) < self.range_thr:"),
("C29",D2,"        if np.mean(np.abs(proto_imf)) < self.mean_thr:","        if np.abs(np.mean(proto_imf)) < self.mean_thr:"),
("C29",B,"np.allclose(proto_imf, proto_imf_prev, rtol=0.01)","np.allclose(proto_imf, proto_imf_prev, atol=0.01)"),
("C32",EE,"scale = self.noise_width * np.abs(np.max(S) - np.min(S))","scale = self.noise_width * np.abs(np.max(np.abs(S)) - np.min(S))"),
("C32",C,"            beta = self.epsilon * np.std(res)","            beta = self.epsilon * np.std(res) if imf_count < 3 else self.epsilon * np.std(S)"),
("C32",EE,"            noise = self.random.uniform(low=-scale / 2, high=scale / 2, size=size)","            noise = self.random.uniform(low=0, high=scale, size=size)"),
("C17",EE,"        if self.parallel and self.processes is None:","        if self.parallel and not (self.processes and self.processes > 1):"),
("C17",E,"        self.MAX_ITERATION = int(kwargs.get(\"MAX_ITERATION\", 1000))","        self.MAX_ITERATION = max(int(kwargs.get(\"MAX_ITERATION\", 1000)), 2 * int(kwargs.get(\"FIXE\", 0)))"),
("C17",C,"        self.beta_progress = bool(kwargs.get(\"beta_progress\", True))","        self.beta_progress = bool(kwargs.get(\"beta_progress\", True)) or self.noise_scale > 1"),
]
