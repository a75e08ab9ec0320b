# behaviour-preserving edits: extrema detection
F = "PyEMD/EMD.py"
J = "PyEMD/experimental/jitemd.py"
M = "PyEMD/EMD_matlab.py"
DROP = '''            if len(debs) > 0 and debs[0] == 0:
                if len(debs) > 1:
                    debs, fins = debs[1:], fins[1:]
                else:
                    debs, fins = (
                        np.array([], dtype=np.intp),
                        np.array([], dtype=np.intp),
                    )

            if len(debs) > 0 and fins[-1] == len(S) - 1:
                if len(debs) > 1:
                    debs, fins = debs[:-1], fins[:-1]
                else:
                    debs, fins = (
                        np.array([], dtype=np.intp),
                        np.array([], dtype=np.intp),
                    )
'''
TAIL = '''            if len(debs) > 0:
                d_before = d[debs - 1]
                d_after = d[fins]
                midpoints = np.round((fins + debs) / 2.0).astype(np.intp)

                # Maxima: rising before plateau, falling after
                max_mask = (d_before > 0) & (d_after < 0)
                # Minima: falling before plateau, rising after
                min_mask = (d_before < 0) & (d_after > 0)

                if np.any(max_mask):
                    indmax = np.sort(np.concatenate([indmax, midpoints[max_mask]]))
                if np.any(min_mask):
                    indmin = np.sort(np.concatenate([indmin, midpoints[min_mask]]))
'''
POINT = '''        sign_change = d1 * d2 < 0
        indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
        indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1
'''
ZERO = '''                zer = S == 0
                dz = np.diff(np.concatenate(([0], zer, [0])))
                debz = np.nonzero(dz == 1)[0]
                finz = np.nonzero(dz == -1)[0] - 1
                indz = np.round((debz + finz) / 2.0)
'''
JLOOP = '''        for k in range(len(_left_idx)):
            _left_value = d[_left_idx[k] - 1]
            _right_value = d[_right_idx[k]]
            _mid_value = round((_left_idx[k] + _right_idx[k]) / 2.0)
            if _left_value > 0 and _right_value < 0:
                imax.append(_mid_value)
            elif _left_value < 0 and _right_value > 0:
                imin.append(_mid_value)
'''
MLOOP = '''                for k in range(lc):
                    if d[debs[k] - 1] > 0:
                        if d[fins[k]] < 0:
                            imax.append(round((fins[k] + debs[k]) / 2.0))
                    else:
                        if d[fins[k]] > 0:
                            imin.append(round((fins[k] + debs[k]) / 2.0))
'''
R = [
("x-drop-slices", [(F, DROP, '''            if debs[0] == 0:
                debs, fins = debs[1:], fins[1:]

            if len(debs) > 0 and fins[-1] == len(S) - 1:
                debs, fins = debs[:-1], fins[:-1]
''')]),
("x-drop-mask", [(F, DROP, '''            inner = (debs > 0) & (fins < len(S) - 1)
            debs, fins = debs[inner], fins[inner]
''')]),
("x-drop-mask2", [(F, DROP, '''            keep = np.logical_and(debs != 0, fins != len(d))
            debs, fins = debs[keep], fins[keep]
''')]),
("x-tail-noguard", [(F, TAIL, '''            d_before = d[debs - 1]
            d_after = d[fins]
            midpoints = np.round((fins + debs) / 2.0).astype(np.intp)
            indmax = np.sort(np.concatenate([indmax, midpoints[(d_before > 0) & (d_after < 0)]]))
            indmin = np.sort(np.concatenate([indmin, midpoints[(d_before < 0) & (d_after > 0)]]))
''')]),
("x-tail-append", [(F, TAIL, '''            if len(debs):
                left, right = d[debs - 1], d[fins]
                mid = np.round(0.5 * (fins + debs)).astype(int)
                turning = left * right < 0
                indmax = np.append(indmax, mid[turning & (left > 0)])
                indmin = np.append(indmin, mid[turning & (right > 0)])
                indmax.sort()
                indmin.sort()
''')]),
("x-tail-loop", [(F, TAIL, '''            new_max, new_min = [], []
            for deb, fin in zip(debs, fins):
                mid = int(np.round((fin + deb) / 2.0))
                if d[deb - 1] > 0 and d[fin] < 0:
                    new_max.append(mid)
                if d[deb - 1] < 0 and d[fin] > 0:
                    new_min.append(mid)
            if new_max:
                indmax = np.sort(np.append(indmax, new_max)).astype(np.intp)
            if new_min:
                indmin = np.sort(np.append(indmin, new_min)).astype(np.intp)
''')]),
("x-point-and", [(F, POINT, '''        indmin = np.nonzero((d1 < 0) & (d2 > 0))[0] + 1
        indmax = np.nonzero((d1 > 0) & (d2 < 0))[0] + 1
''')]),
("x-point-where", [(F, POINT, '''        rising, falling = d > 0, d < 0
        indmax = np.where(np.logical_and(rising[:-1], falling[1:]))[0] + 1
        indmin = np.where(np.logical_and(falling[:-1], rising[1:]))[0] + 1
''')]),
("x-point-flat", [(F, POINT, '''        indmax = 1 + np.flatnonzero((S[1:-1] > S[:-2]) & (S[1:-1] > S[2:]))
        indmin = 1 + np.flatnonzero((S[1:-1] < S[:-2]) & (S[1:-1] < S[2:]))
''')]),
("x-point-sign", [(F, POINT, '''        s = np.sign(d)
        indmin = np.nonzero((s[:-1] == -1) & (s[1:] == 1))[0] + 1
        indmax = np.nonzero((s[:-1] == 1) & (s[1:] == -1))[0] + 1
''')]),
("x-helper-runs", [(F, '''            bad = d == 0
            dd = np.diff(np.concatenate(([0], bad, [0])))
            debs = np.nonzero(dd == 1)[0]
            fins = np.nonzero(dd == -1)[0]
''', '''            debs, fins = EMD._runs(d == 0)
'''), (F, "    @staticmethod\n    def _find_extrema_simple", '''    @staticmethod
    def _runs(mask):
        edges = np.diff(np.concatenate(([0], mask.astype(int), [0])))
        return np.nonzero(edges > 0)[0], np.nonzero(edges < 0)[0]

    @staticmethod
    def _find_extrema_simple'''), (F, ZERO, '''                debz, finz = EMD._runs(S == 0)
                indz = np.round((debz + finz - 1) / 2.0)
''')]),
("x-zero-always", [(F, '''        if np.any(S == 0):
            indz = np.nonzero(S == 0)[0]
            if np.any(np.diff(indz) == 1):
                zer = S == 0
                dz = np.diff(np.concatenate(([0], zer, [0])))
                debz = np.nonzero(dz == 1)[0]
                finz = np.nonzero(dz == -1)[0] - 1
                indz = np.round((debz + finz) / 2.0)

            indzer = np.sort(np.append(indzer, indz))
''', '''        zer = S == 0
        if zer.any():
            dz = np.diff(np.concatenate(([0], zer, [0])))
            debz = np.nonzero(dz == 1)[0]
            finz = np.nonzero(dz == -1)[0] - 1
            indzer = np.sort(np.append(indzer, np.round((debz + finz) / 2.0)))
''')]),
("x-return-inline", [(F, '''        local_max_pos = T[indmax]
        local_max_val = S[indmax]
        local_min_pos = T[indmin]
        local_min_val = S[indmin]

        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer

    def end_condition''', '''        return T[indmax], S[indmax], T[indmin], S[indmin], indzer

    def end_condition''')]),
("x-jit-loop", [(J, JLOOP, '''        for k in range(_left_idx.shape[0]):
            deb = _left_idx[k]
            fin = _right_idx[k]
            before = d[deb - 1]
            after = d[fin]
            if before * after < 0:
                mid = round((deb + fin) / 2.0)
                if before > 0:
                    imax.append(mid)
                else:
                    imin.append(mid)
''')]),
("x-jit-diff", [(J, "    d = S2 - S1\n    d1, d2", "    d = nb_diff(S)\n    d1, d2")]),
("x-matlab-loop", [(M, MLOOP, '''                for deb, fin in zip(debs, fins):
                    mid = round((fin + deb) / 2.0)
                    if d[deb - 1] > 0 and d[fin] < 0:
                        imax.append(mid)
                    elif d[deb - 1] < 0 and d[fin] > 0:
                        imin.append(mid)
''')]),
("x-matlab-extend", [(M, '''                indmax = indmax.tolist()
                for x in imax:
                    indmax.append(int(x))
                indmax.sort()
''', '''                indmax = np.sort(np.append(indmax, imax)).astype(int)
''')]),
("x-matlab-extend2", [(M, '''                indmax = indmax.tolist()
                for x in imax:
                    indmax.append(int(x))
                indmax.sort()
''', '''                indmax = sorted(list(indmax) + [int(x) for x in imax])
''')]),
]
R += [
("x-unpadded", [(F, '''            dd = np.diff(np.concatenate(([0], bad, [0])))
            debs = np.nonzero(dd == 1)[0]
            fins = np.nonzero(dd == -1)[0]

''' + DROP, '''            dd = np.diff(bad.astype(int))
            debs = np.nonzero(dd == 1)[0] + 1
            fins = np.nonzero(dd == -1)[0] + 1
            if bad[0]:
                fins = fins[1:]
            if bad[-1]:
                debs = debs[:-1]
''')]),
("x-bool-edges", [(F, '''            dd = np.diff(np.concatenate(([0], bad, [0])))
            debs = np.nonzero(dd == 1)[0]
            fins = np.nonzero(dd == -1)[0]
''', '''            padded = np.concatenate(([False], bad, [False]))
            debs = np.flatnonzero(padded[1:] & ~padded[:-1])
            fins = np.flatnonzero(~padded[1:] & padded[:-1])
''')]),
]
R += [
("x-p-newton", [(F, '''        a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
        b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn

        a = a / scale
        b = b / scale
        c = c / scale
''', '''        slope1 = (S0 - Sp) / (T0 - Tp)
        slope2 = (Sn - S0) / (Tn - T0)
        a = (slope2 - slope1) / (Tn - Tp)
        b = slope1 - a * (Tp + T0)
        c = Sp - slope1 * Tp + a * Tp * T0
''')]),
("x-p-keep", [(F, '''        dup = (S[1:-1] == S[0:-2]) & (S[1:-1] == S[2:])
        not_dup_idx = np.arange(1, len(S) - 1)[~dup]

        idx = np.empty(len(not_dup_idx) + 2, dtype=np.int64)
        idx[0] = 0
        idx[-1] = len(S) - 1
        idx[1:-1] = not_dup_idx

        return idx
''', '''        keep = (S[1:-1] != S[:-2]) | (S[1:-1] != S[2:])
        inner = np.nonzero(keep)[0] + 1
        return np.concatenate(([0], inner, [len(S) - 1]))
''')]),
("x-p-window", [(F, "idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))", "idx = np.logical_and((T0 + Tp) / 2 <= tVertex, tVertex < (T0 + Tn) / 2)")]),
("x-p-masks", [(F, '''        local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
        local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
''', '''        is_max, is_min = a < 0, a > 0
        local_max_pos = tVertex[is_max]
        local_max_val = sVertex[is_max]
        local_min_pos = tVertex[is_min]
        local_min_val = sVertex[is_min]
''')]),
("x-p-vertexval", [(F, "sVertex = a * tVertex * tVertex + b * tVertex + c", "sVertex = (a * tVertex + b) * tVertex + c")]),
("x-p-fit", [(F, '''        a[a == 0] = 1e-14
        tVertex = -0.5 * b / a
        idx = (tVertex''', '''        a = np.where(a == 0, 1e-14, a)
        tVertex = -b / (2 * a)
        idx = (tVertex''')]),
]
