# behaviour-preserving edits: criteria, mirroring, constructors, accessors, white-noise limits, time lines
E = "PyEMD/EMD.py"
EE = "PyEMD/EEMD.py"
CE = "PyEMD/CEEMDAN.py"
W = "PyEMD/checks.py"
U = "PyEMD/utils.py"
J = "PyEMD/experimental/jitemd.py"
M = "PyEMD/EMD_matlab.py"
R = [
("k-anyall", [(E, '''        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):
            return False
''', '''        if not (np.all(eMax[1] >= 0) and np.all(eMin[1] <= 0)):
            return False
''')]),
("k-minmax", [(E, '''        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):
            return False
''', '''        if np.min(eMax[1]) < 0 or np.max(eMin[1]) > 0:
            return False
''')]),
("k-dot", [(E, '''        imf_diff_sqrd_sum = np.sum(imf_diff * imf_diff)
''', '''        imf_diff_sqrd_sum = np.dot(imf_diff, imf_diff)
''')]),
("k-square", [(E, '''        if np.sum(imf_new**2) < 1e-10:
''', '''        if np.sum(np.square(imf_new)) < 1e-10:
''')]),
("k-ptp", [(E, '''        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old))
''', '''        svar = imf_diff_sqrd_sum / np.ptp(imf_old)
''')]),
("k-single", [(E, '''        if svar < self.svar_thr:
            self.logger.debug("Scaled variance -- PASSED")
            return True

        # Standard deviation test
        std = np.sum((imf_diff / imf_new) ** 2)
        if std < self.std_thr:
            self.logger.debug("Standard deviation -- PASSED")
            return True

        energy_ratio = imf_diff_sqrd_sum / np.sum(imf_old * imf_old)
        if energy_ratio < self.energy_ratio_thr:
            self.logger.debug("Energy ratio -- PASSED")
            return True

        return False
''', '''        std = np.sum((imf_diff / imf_new) ** 2)
        energy_ratio = imf_diff_sqrd_sum / np.sum(imf_old**2)
        passed = {
            "Scaled variance": svar < self.svar_thr,
            "Standard deviation": std < self.std_thr,
            "Energy ratio": energy_ratio < self.energy_ratio_thr,
        }
        for name, ok in passed.items():
            if ok:
                self.logger.debug("%s -- PASSED", name)
                return True
        return False
''')]),
("k-helper", [(E, '''        # Scaled variance test
        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old))
        if svar < self.svar_thr:
            self.logger.debug("Scaled variance -- PASSED")
            return True
''', '''        if self._scaled_variance(imf_diff_sqrd_sum, imf_old) < self.svar_thr:
            self.logger.debug("Scaled variance -- PASSED")
            return True
'''), (E, '''    @staticmethod
    def _normalize_time(t: np.ndarray) -> np.ndarray:
''', '''    @staticmethod
    def _scaled_variance(change, old):
        return change / (max(old) - min(old))

    @staticmethod
    def _normalize_time(t: np.ndarray) -> np.ndarray:
''')]),
("k-end-norm", [(E, '''        if np.max(tmp) - np.min(tmp) < self.range_thr:
            self.logger.debug("FINISHED -- RANGE")
            return True

        if np.sum(np.abs(tmp)) < self.total_power_thr:
            self.logger.debug("FINISHED -- SUM POWER")
            return True

        return False
''', '''        small_range = np.ptp(tmp) < self.range_thr
        small_power = np.abs(tmp).sum() < self.total_power_thr
        if small_range or small_power:
            self.logger.debug("FINISHED -- %s", "RANGE" if small_range else "SUM POWER")
        return bool(small_range or small_power)
''')]),
("k-nt", [(E, '''        d = np.diff(t)
        assert np.all(d != 0), "All time domain values needs to be unique"
        return (t - t[0]) / np.min(d)
''', '''        d = t[1:] - t[:-1]
        assert not np.any(d == 0), "All time domain values needs to be unique"
        return (t - t[0]) / d.min()
''')]),
("e-unpack", [(E, '''                ext_res = self.find_extrema(T, imf)
                max_pos, min_pos, indzer = ext_res[0], ext_res[2], ext_res[4]
                extNo = len(min_pos) + len(max_pos)
                nzm = len(indzer)
''', '''                max_pos, _, min_pos, _, indzer = self.find_extrema(T, imf)
                extNo = max_pos.size + min_pos.size
                nzm = indzer.size
''')]),
("e-invert", [(E, '''                        f1 = self.check_imf(imf, imf_old, eMax, eMin)
                        f2 = abs(extNo - nzm) < 2

                        # STOP
                        if f1 and f2:
                            break
''', '''                        balanced = -2 < extNo - nzm < 2
                        if balanced and self.check_imf(imf, imf_old, eMax, eMin):
                            break
''')]),
("e-mean", [(E, '''                    mean[:] = 0.5 * (max_env + min_env)

                    imf_old = imf.copy()
                    imf[:] = imf - mean
''', '''                    mean[:] = (max_env + min_env) / 2

                    imf_old = imf
                    imf = imf_old - mean
''')]),
("e-early", [(E, '''        if T is not None and len(S) != len(T):
            raise ValueError("Time series have different sizes: len(S) -> {} != {} <- len(T)".format(len(S), len(T)))

        if T is None or self.extrema_detection == "simple":
            T = get_timeline(len(S), S.dtype)
''', '''        n_samples = len(S)
        if T is None:
            T = get_timeline(n_samples, S.dtype)
        elif len(T) != n_samples:
            raise ValueError(f"Time series have different sizes: len(S) -> {n_samples} != {len(T)} <- len(T)")
        elif self.extrema_detection == "simple":
            T = get_timeline(n_samples, S.dtype)
''')]),
("e-trend", [(E, '''        imfs, residue = self.get_imfs_and_residue()
        if len(imfs) > 0 and np.allclose(residue, 0):
            return imfs[:-1].copy(), imfs[-1].copy()
        else:
            return imfs, residue
''', '''        imfs, residue = self.get_imfs_and_residue()
        if len(imfs) == 0 or not np.allclose(residue, 0):
            return imfs, residue
        last = len(imfs) - 1
        return imfs[:last].copy(), imfs[last].copy()
''')]),
("p-ifs", [(E, '''        # In case any array missing
        if not lmin.size:
            lmin = ind_min
        if not rmin.size:
            rmin = ind_min
        if not lmax.size:
            lmax = ind_max
        if not rmax.size:
            rmax = ind_max
''', '''        # In case any array missing
        lmin = lmin if len(lmin) > 0 else ind_min
        rmin = rmin if len(rmin) > 0 else ind_min
        lmax = lmax if len(lmax) > 0 else ind_max
        rmax = rmax if len(rmax) > 0 else ind_max
''')]),
("p-slices", [(E, '''                lmax = ind_max[1 : min(end_max, nbsym + 1)][::-1]
                lmin = ind_min[0 : min(end_min, nbsym + 0)][::-1]
                lsym = ind_max[0]
''', '''                lmax = np.flip(ind_max[1 : nbsym + 1])
                lmin = np.flip(ind_min[:nbsym])
                lsym = ind_max[0]
''')]),
("p-helper", [(E, '''        # Mirror points
        tlmin = 2 * T[lsym] - T[lmin]
        tlmax = 2 * T[lsym] - T[lmax]
        trmin = 2 * T[rsym] - T[rmin]
        trmax = 2 * T[rsym] - T[rmax]
''', '''        def reflect(centre, points):
            return 2 * T[centre] - T[points]

        tlmin, tlmax = reflect(lsym, lmin), reflect(lsym, lmax)
        trmin, trmax = reflect(rsym, rmin), reflect(rsym, rmax)
''')]),
("p-parabol-abs", [(E, '''            if (S[0] > min_val[0]) and (np.abs(d_pos) > (max_pos[0] - T[0])):
''', '''            if S[0] > min_val[0] and min_pos[0] - max_pos[0] > max_pos[0] - T[0]:
''')]),
("p-dispatch", [(E, '''        if self.extrema_detection == "parabol":
            return self.prepare_points_parabol(T, S, max_pos, max_val, min_pos, min_val)
        elif self.extrema_detection == "simple":
            return self.prepare_points_simple(T, S, max_pos, max_val, min_pos, min_val)
        else:
            msg = "Incorrect extrema detection type. Please try: 'simple' or 'parabol'."
            raise ValueError(msg)
''', '''        kinds = {"parabol": self.prepare_points_parabol, "simple": self.prepare_points_simple}
        if self.extrema_detection not in kinds:
            msg = "Incorrect extrema detection type. Please try: 'simple' or 'parabol'."
            raise ValueError(msg)
        return kinds[self.extrema_detection](T, S, max_pos, max_val, min_pos, min_val)
''')]),
("i-loop", [(E, '''        self.energy_ratio_thr = float(kwargs.get("energy_ratio_thr", 0.2))
        self.std_thr = float(kwargs.get("std_thr", 0.2))
        self.svar_thr = float(kwargs.get("svar_thr", 0.001))
        self.total_power_thr = float(kwargs.get("total_power_thr", 0.005))
        self.range_thr = float(kwargs.get("range_thr", 0.001))
''', '''        defaults = {
            "energy_ratio_thr": 0.2,
            "std_thr": 0.2,
            "svar_thr": 0.001,
            "total_power_thr": 0.005,
            "range_thr": 0.001,
        }
        for name, default in defaults.items():
            setattr(self, name, float(kwargs.get(name, default)))
''')]),
("i-pop", [(E, '''        self.FIXE = int(kwargs.get("FIXE", 0))
        self.FIXE_H = int(kwargs.get("FIXE_H", 0))
''', '''        fixe, fixe_h = kwargs.get("FIXE", 0), kwargs.get("FIXE_H", 0)
        self.FIXE, self.FIXE_H = int(fixe), int(fixe_h)
''')]),
("i-in", [(CE, '''        self.noise_scale = float(kwargs.get("noise_scale", 1.0))
''', '''        self.noise_scale = float(kwargs["noise_scale"]) if "noise_scale" in kwargs else 1.0
''')]),
("i-proc", [(EE, '''        if self.parallel and self.processes is None:
            self.processes = os.cpu_count()
        if self.processes is not None and not self.parallel:
            self.logger.warning("Passed value for process has no effect when `parallel` is False.")
''', '''        if self.parallel:
            if self.processes is None:
                self.processes = os.cpu_count()
        elif self.processes is not None:
            self.logger.warning("Passed value for process has no effect when `parallel` is False.")
''')]),
("i-emd", [(EE, '''        if ext_EMD is None:
            from PyEMD import EMD

            self.EMD = EMD(**kwargs)
        else:
            self.EMD = ext_EMD
''', '''        from PyEMD import EMD

        self.EMD = ext_EMD if ext_EMD is not None else EMD(**kwargs)
''')]),
("i-state", [(CE, '''        self_dict = self.__dict__.copy()
        if "pool" in self_dict:
            del self_dict["pool"]
        return self_dict
''', '''        return {k: v for k, v in self.__dict__.items() if k != "pool"}
''')]),
("i-state2", [(CE, '''        self_dict = self.__dict__.copy()
        if "pool" in self_dict:
            del self_dict["pool"]
        return self_dict
''', '''        state = dict(self.__dict__)
        state.pop("pool", None)
        return state
''')]),
("n-rand", [(EE, '''            noise = self.random.uniform(low=-scale / 2, high=scale / 2, size=size)
''', '''            half = 0.5 * scale
            noise = self.random.uniform(-half, half, size)
''')]),
("n-guard", [(EE, '''        if self.noise_kind == "normal":
            noise = self.random.normal(loc=0, scale=scale, size=size)
        elif self.noise_kind == "uniform":
            noise = self.random.uniform(low=-scale / 2, high=scale / 2, size=size)
        else:
            raise ValueError(
''', '''        if self.noise_kind == "normal":
            return self.random.normal(0, scale, size)
        if self.noise_kind == "uniform":
            return self.random.uniform(low=-scale / 2, high=scale / 2, size=size)
        noise = None
        if noise is None:
            raise ValueError(
''')]),
("wn-abs", [(W, '''    upper_limit = -T + (k * (math.sqrt(2 / N) * math.exp(T / 2)))
    lower_limit = -T - (k * (math.sqrt(2 / N) * math.exp(T / 2)))

    return not (lower_limit <= energy_density <= upper_limit)
''', '''    spread = k * math.sqrt(2 / N) * math.exp(T / 2)
    return bool(abs(energy_density + T) > spread)
''')]),
("wn-or", [(W, '''    return not (lower_limit <= energy_density <= upper_limit)
''', '''    return energy_density < lower_limit or energy_density > upper_limit
''')]),
("wn-ppf", [(W, '''    k = abs(stats.norm.ppf((1 - alpha) / 2))
    upper_limit = -T + (k * (math.sqrt(2 / N) * math.exp(T / 2)))
    return not (scaled_energy_density <= upper_limit)
''', '''    k = -stats.norm.ppf(0.5 - 0.5 * alpha)
    upper_limit = k * math.sqrt(2 / N) * math.exp(0.5 * T) - T
    return scaled_energy_density > upper_limit
''')]),
("wn-log", [(W, '''                scaled_energy_density = math.log((energy(imf) / N) / scaling_factor)
''', '''                scaled_energy_density = math.log(energy(imf) / N) - math.log(scaling_factor)
''')]),
("wn-numpy", [(W, '''            log_T = math.log(mean_period(imf))
            energy_density = math.log(energy(imf) / N)
''', '''            log_T = np.log(mean_period(imf))
            energy_density = np.log(energy(imf) / N)
''')]),
("u-unify", [(U, '''    if x.dtype != dtype:
        x = x.astype(dtype)
    if y.dtype != dtype:
        y = y.astype(dtype)

    return x, y
''', '''    return x.astype(dtype, copy=False), y.astype(dtype, copy=False)
''')]),
("u-deduce", [(U, '''    if xtype == ytype:
        return xtype
    if np.version.version[0] == "1":
''', '''    if xtype == ytype:
        dtype = xtype
    elif np.version.version[0] == "1":
''')]),
]
