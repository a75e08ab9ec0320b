# (property, file, old, new): subtle changes written from the property texts; used to measure the checks (dev/bugcatch.py)
E="PyEMD/EMD.py"; EE="PyEMD/EEMD.py"; C="PyEMD/CEEMDAN.py"; D2="PyEMD/EMD2d.py"; B="PyEMD/BEMD.py"; M="PyEMD/EMD_matlab.py"; J="PyEMD/experimental/jitemd.py"; K="PyEMD/checks.py"; S="PyEMD/splines.py"; U="PyEMD/utils.py"; V="PyEMD/visualisation.py"; X="PyEMD/compact.py"
BUGS = [
("C01",E,"            IMF = IMF[:-1]\n","            IMF = IMF[:-1] if imfNo > 1 else IMF\n            S = S if imfNo > 1 else IMF[0]\n"),
("C01",E,"        if not np.allclose(self.residue, 0):\n            IMF = np.vstack","        if not np.allclose(self.residue, 0, atol=1e-3 * np.abs(S).max()):\n            IMF = np.vstack"),
("C01",E,"        self.residue = S - np.sum(self.imfs, axis=0)\n","        self.residue = S - np.sum(self.imfs, axis=0) if max_imf != 1 else residue\n"),
("C01",C,"        all_cimfs = np.vstack((all_cimfs, res))\n","        if np.any(np.abs(res) > self.epsilon):\n            all_cimfs = np.vstack((all_cimfs, res))\n"),
("C01",C,"        scale_s = np.std(S)\n        S = S / scale_s\n","        scale_s = np.std(S)\n        S = (S - np.mean(S) * (self.noise_scale == 0)) / scale_s\n"),
("C01",D2,"        self.residue = S","        self.residue = S"),
("C02",EE,"        self.residue = S - np.sum(self.E_IMF, axis=0)\n","        self.residue = S - np.sum(self.E_IMF, axis=0) if not self.separate_trends else self.E_IMF[-1]\n"),
("C02",C,"        self.residue = S * scale_s - np.sum(self.C_IMF, axis=0)\n","        self.residue = res * scale_s\n"),
("C02",E,"            return imfs[:-1].copy(), imfs[-1].copy()\n","            return imfs[:-1].copy(), imfs[-1].copy() + residue.mean()\n"),
("C02",E,"        if len(imfs) > 0 and np.allclose(residue, 0):\n            return imfs[:-1]","        if len(imfs) > 1 and np.ptp(residue) < self.range_thr:\n            return imfs[:-1]"),
("C03",C,"        S = S / scale_s\n","        S = S.astype(float, copy=False)\n        S /= scale_s\n"),
("C03",E,"            T = get_timeline(len(S), S.dtype)\n\n        # Normalize","            T = get_timeline(len(S), S.dtype)\n        S[np.isnan(S)] = 0\n\n        # Normalize"),
("C03",K,"    assert len(","    assert len("),
("C03",S,"    dx = np.diff(X)","    dx = np.diff(X)"),
("C04",E,"        self.imfs = IMF.copy()\n","        self.imfs = IMF\n"),
("C04",EE,"        return self.E_IMF\n","        return self.E_IMF\n"),
("C05",E,"        extNo = -1\n","        extNo = -1 if self.imfs is None else 3\n"),
("C05",EE,"        self._all_imfs = defaultdict(list)\n        it","        self._all_imfs = defaultdict(list, self._all_imfs if progress else {})\n        it"),
("C05",C,"        del self.all_noise_EMD[:]\n","        self.all_noises = self.all_noises[::-1]\n"),
("C05",C,"        self.all_noise_EMD = self._decompose_noise()\n","        self.all_noise_EMD = self.all_noise_EMD or self._decompose_noise()\n"),
("C05",U,"@cache\ndef deduce","_TYPES = {}\n\n\ndef deduce"),
("C06",EE,"        self.random.seed(seed)\n","        if self.random.get_state()[2] == 624:\n            self.random.seed(seed)\n"),
("C06",C,"self.random = np.random.RandomState(seed=kwargs.get(\"seed\"))","self.random = np.random.RandomState(seed=kwargs.get(\"seed\") or None)"),
("C06",EE,"        self.random = np.random.RandomState()\n","        self.random = np.random.mtrand._rand\n"),
("C06",C,"map_pool = pool.imap\n","map_pool = pool.imap_unordered\n"),
("C07",EE,"noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))","noises = [self.generate_noise(self._scale, self._N)] * self.trials if self.noise_kind == \"uniform\" else [self.generate_noise(self._scale, self._N) for _ in range(self.trials)]"),
("C07",C,"        noise = self.epsilon * self.all_noise_EMD[trial][0]\n","        noise = self.epsilon * self.all_noise_EMD[trial % self.processes if self.processes else trial][0]\n"),
("C07",C,"        self.all_noises = self.generate_noise(self.noise_scale, (self.trials, S.size))\n","        self.all_noises = np.broadcast_to(self.generate_noise(self.noise_scale, (1, S.size)), (self.trials, S.size)) if self.trials > 500 else self.generate_noise(self.noise_scale, (self.trials, S.size))\n"),
("C08",C,"        finally:\n            if self.parallel:\n                pool.terminate()\n","        except ValueError:\n            raise\n        finally:\n            if self.parallel and self.E_IMF.any():\n                pool.terminate()\n"),
("C08",EE,"            with Pool(processes=self.processes) as pool:\n                all_IMFs = pool.map(self._trial_update, noises)\n","            pool = Pool(processes=self.processes)\n            try:\n                all_IMFs = pool.map(self._trial_update, noises)\n            except Exception:\n                pool.terminate()\n                raise\n"),
("C09",E,"                if n >= self.MAX_ITERATION:\n","                if n > self.MAX_ITERATION and not self.FIXE_H or n >= self.MAX_ITERATION + 1:\n"),
("C09",E,"                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0\n","                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else max(n_h - 1, 0)\n"),
("C09",E,"                        if n >= self.FIXE:\n","                        if n >= self.FIXE or n > 1 and np.array_equal(imf, imf_old):\n"),
("C09",E,"                    elif self.FIXE_H:\n","                    elif self.FIXE_H > 1:\n"),
("C10",E,"            if self.end_condition(S, IMF) or imfNo == max_imf:\n","            if self.end_condition(S, IMF) or imfNo == max(max_imf, 2) and max_imf > 0:\n"),
("C10",E,"            if self.end_condition(S, IMF) or imfNo == max_imf:\n","            if self.end_condition(S, IMF) or imfNo >= (max_imf if max_imf > 0 else 32):\n"),
("C10",C,"        if 0 < max_imf <= imfNo:\n","        if 0 < max_imf < imfNo:\n"),
("C11",E,"        kind = self.spline_kind.lower()\n","        kind = self.spline_kind.lower() if extrema.shape[1] > 4 else 'cubic'\n"),
("C11",E,"        else:\n            raise ValueError(\"No such interpolation method!\")\n","        elif extrema.shape[1] < 3:\n            return t, np.interp(t, extrema[0], extrema[1])\n\n        else:\n            raise ValueError(\"No such interpolation method!\")\n"),
("C11",EE,"        if self.noise_kind == \"normal\":\n","        if self.noise_kind == \"normal\" or scale == 0:\n"),
("C11",E,"        self.nbsym = int(kwargs.get(\"nbsym\", nbsym))\n","        self.nbsym = int(kwargs.get(\"nbsym\", nbsym)) or 2\n"),
("C12",E,"        if T is not None and len(S) != len(T):\n","        if T is not None and len(S) != len(T) and self.extrema_detection != \"simple\":\n"),
("C12",E,"        assert np.all(d != 0), \"All","        assert np.any(d != 0), \"All"),
("C12",EE,"        if self.E_IMF is None or self.residue is None:\n            raise","        if self.E_IMF is None and self.residue is None and self.trials:\n            raise"),
("C13",E,"                    mean[:] = 0.5 * (max_env + min_env)\n","                    mean[:] = 0.5 * (max_env + min_env) if n < 50 else 0.25 * (max_env + min_env)\n"),
("C13",E,"                        f2 = abs(extNo - nzm) < 2\n","                        f2 = extNo - nzm < 2\n"),
("C13",E,"            residue[:] = S - np.sum(IMF[:imfNo], axis=0)\n","            residue[:] = residue - IMF[imfNo - 1] if imfNo > 1 else S - np.sum(IMF[:imfNo], axis=0)\n"),
("C15",EE,"        return np.array([imfs.mean(axis=0) for imfs in self._all_imfs.values()])\n","        return np.array([np.median(imfs, axis=0) if len(imfs) < 3 else imfs.mean(axis=0) for imfs in self._all_imfs.values()])\n"),
("C15",EE,"            self._all_imfs[len(self._all_imfs)] = self._all_imfs.pop(-1)\n","            self._all_imfs[max(self._all_imfs)] = self._all_imfs.pop(-1)\n"),
("C15",C,"                self.E_IMF[: IMFs.shape[0]] += IMFs\n","                self.E_IMF[: IMFs.shape[0]] += IMFs if IMFs.shape[0] <= 2 else IMFs - IMFs.mean()\n"),
("C15",C,"                local_mean += imfs[-1] / self.trials\n","                local_mean += imfs[1 if len(imfs) > 1 else 0] / max(self.trials, 2)\n"),
("C16",EE,"        return self.eemd(S, T=T, max_imf=max_imf, progress=progress)\n","        return self.eemd(S, T=T, max_imf=max_imf or -1, progress=progress)\n"),
("C16",C,"        for _ in it(range(self._max_imf)):\n","        for _ in it(range(self._max_imf if not progress or total is None else total)):\n"),
("C22",E,"        std = np.sum((imf_diff / imf_new) ** 2)\n","        np.seterr(divide=\"ignore\")\n        std = np.sum((imf_diff / imf_new) ** 2)\n"),
("C22",V,"        plt.show()","        plt.show()"),
("C29",E,"        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old))\n","        svar = imf_diff_sqrd_sum / (max(imf_old) - min(min(imf_old), 0))\n"),
("C29",E,"        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):\n","        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0) and self.std_thr:\n"),
("C29",C,"        if np.sum(np.abs(R)) < self.total_power_thr:\n","        if np.sum(np.abs(R)) < self.total_power_thr * len(R):\n"),
("C29",E,"        if np.sum(imf_new**2) < 1e-10:\n","        if np.mean(imf_new**2) < 1e-10:\n"),
("C20",E,"        indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1\n","        indmin = np.nonzero(sign_change & (d1 < 0) & (S[1:-1] < S[2:] - 1e-12))[0] + 1\n"),
("C20",E,"                min_mask = (d_before < 0) & (d_after > 0)\n","                min_mask = (d_before < 0) & (d_after > 0) & (fins - debs < 10)\n"),
("C20",E,"                indz = np.round((debz + finz) / 2.0)\n\n            indzer = np.sort(np.append(indzer, indz))\n\n        # Finds","                indz = debz\n\n            indzer = np.sort(np.append(indzer, indz))\n\n        # Finds"),
("C24",E,"        if T is None or self.extrema_detection == \"simple\":\n","        if T is None or self.extrema_detection == \"simple\" or len(T) < 10:\n"),
("C27",E,"        if len(max_pos) + len(min_pos) < 3:\n","        if len(max_pos) + len(min_pos) < 3 or len(max_pos) == 0:\n"),
("C27",E,"        t = T[(T >= extrema[0, 0]) & (T <= extrema[0, -1])]\n","        t = T[(T >= extrema[0, 0]) & (T <= extrema[0, -1] + 1e-9)]\n"),
("C27",E,"            if extrema.shape[1] > 3:\n","            if extrema.shape[1] > 4:\n"),
("C32",EE,"        scale = self.noise_width * np.abs(np.max(S) - np.min(S))\n","        scale = self.noise_width * (np.abs(np.max(S) - np.min(S)) or 1.0)\n"),
("C32",C,"            beta = self.epsilon * np.std(prev_res)\n","            beta = self.epsilon * (np.std(prev_res) if imfNo > 1 else np.std(S))\n"),
("C32",C,"                if len(noise_imf) > imfNo:\n","                if len(noise_imf) > imfNo + 1:\n"),
("C32",EE,"        return self.EMD.emd(S, T, max_imf=max_imf)\n","        return self.EMD.emd(S, T if len(T) > 2 else None, max_imf=max_imf)\n"),
]
BUGS=[b for b in BUGS if b[2]!=b[3]]
