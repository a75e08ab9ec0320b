# behaviour-breaking edits of extrema detection; every one must be reported (dev battery; expected: C20 exit 1)
F = "PyEMD/EMD.py"
J = "PyEMD/experimental/jitemd.py"
M = "PyEMD/EMD_matlab.py"
R = [
("deb1", [(F, "debs[0] == 0:", "debs[0] == 1:")]),
("fin-2", [(F, "fins[-1] == len(S) - 1:", "fins[-1] == len(S) - 2:")]),
("fin-len", [(F, "fins[-1] == len(S) - 1:", "fins[-1] == len(S):")]),
("mid-left", [(F, "midpoints = np.round((fins + debs) / 2.0)", "midpoints = np.round((debs + debs) / 2.0)")]),
("mid-third", [(F, "midpoints = np.round((fins + debs) / 2.0)", "midpoints = np.round((fins + debs + 1) / 2.0)")]),
("mask-le", [(F, "max_mask = (d_before > 0) & (d_after < 0)", "max_mask = (d_before > 0) & (d_after > 0)")]),
("mask-or", [(F, "max_mask = (d_before > 0) & (d_after < 0)", "max_mask = (d_before > 0) | (d_after < 0)")]),
("mask-drop", [(F, "min_mask = (d_before < 0) & (d_after > 0)", "min_mask = d_before < 0")]),
("before0", [(F, "d_before = d[debs - 1]", "d_before = d[debs]")]),
("after1", [(F, "d_after = d[fins]", "d_after = d[fins - 1]")]),
("nosort", [(F, "indmax = np.sort(np.concatenate([indmax, midpoints[max_mask]]))", "indmax = np.concatenate([indmax, midpoints[max_mask]])")]),
("repl", [(F, "indmax = np.sort(np.concatenate([indmax, midpoints[max_mask]]))", "indmax = midpoints[max_mask]")]),
("len1", [(F, "            if len(debs) > 0:\n                d_before", "            if len(debs) > 1:\n                d_before")]),
("anyboth", [(F, "                if np.any(min_mask):", "                elif_ = np.any(max_mask)\n                if np.any(min_mask) and not elif_:")]),
("le", [(F, "sign_change = d1 * d2 < 0", "sign_change = d1 * d2 <= 0")]),
("pt-off", [(F, "indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1", "indmax = np.nonzero(sign_change & (d1 > 0))[0]")]),
("pt-d2", [(F, "indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1", "indmax = np.nonzero(sign_change & (d2 > 0))[0] + 1")]),
("pt-thr", [(F, "indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1", "indmax = np.nonzero(sign_change & (d1 > 1e-12))[0] + 1")]),
("pos-S", [(F, "        local_min_pos = T[indmin]\n", "        local_min_pos = T[indmax]\n")]),
("val-abs", [(F, "        local_min_val = S[indmin]\n", "        local_min_val = -np.abs(S[indmin])\n")]),
("zc-le", [(F, "        indzer = np.nonzero(S1 * S2 < 0)[0]\n        if np.any(S == 0):\n            indz = np.nonzero(S == 0)[0]\n            if np.any(np.diff(indz) == 1):\n                zer = S == 0\n                dz = np.diff(np.concatenate", "        indzer = np.nonzero(S1 * S2 <= 0)[0]\n        if np.any(S == 0):\n            indz = np.nonzero(S == 0)[0]\n            if np.any(np.diff(indz) == 1):\n                zer = S == 0\n                dz = np.diff(np.concatenate")]),
("z-diff2", [(F, "            if np.any(np.diff(indz) == 1):\n                zer = S == 0\n                dz = np.diff(np.concatenate", "            if np.all(np.diff(indz) == 1):\n                zer = S == 0\n                dz = np.diff(np.concatenate")]),
("z-off", [(F, "                finz = np.nonzero(dz == -1)[0] - 1\n                indz = np.round((debz + finz) / 2.0)\n\n            indzer = np.sort(np.append(indzer, indz))\n\n        # Finds", "                finz = np.nonzero(dz == -1)[0]\n                indz = np.round((debz + finz) / 2.0)\n\n            indzer = np.sort(np.append(indzer, indz))\n\n        # Finds")]),
("z-pad", [(F, "dz = np.diff(np.concatenate(([0], zer, [0])))\n                debz = np.nonzero(dz == 1)[0]\n                finz = np.nonzero(dz == -1)[0] - 1\n                indz = np.round((debz + finz) / 2.0)\n\n            indzer = np.sort(np.append(indzer, indz))\n\n        # Finds", "dz = np.diff(np.concatenate(([0], zer)))\n                debz = np.nonzero(dz == 1)[0]\n                finz = np.nonzero(dz == -1)[0] - 1\n                indz = np.round((debz[:len(finz)] + finz) / 2.0)\n\n            indzer = np.sort(np.append(indzer, indz))\n\n        # Finds")]),
("d-tol", [(F, "            bad = d == 0\n", "            bad = np.abs(d) < 1e-9\n")]),
("j-elif", [(J, "            elif _left_value < 0 and _right_value > 0:", "            else:")]),
("j-left", [(J, "_left_value = d[_left_idx[k] - 1]", "_left_value = d[_left_idx[k]]")]),
("j-nested", [(J, "        if len(_left_idx) > 0:\n            if _right_idx[-1] == len(S) - 1:\n                _left_idx = _left_idx[:-1]", "        if len(_left_idx) > 1:\n            if _right_idx[-1] == len(S) - 1:\n                _left_idx = _left_idx[:-1]")]),
("j-range", [(J, "        for k in range(len(_left_idx)):", "        for k in range(len(_left_idx) - 1):")]),
("j-min", [(J, "            indmin = np.append(indmin, np.array(imin)).astype(np.int64)", "            indmin = np.append(indmin, np.array(imax)).astype(np.int64)")]),
("j-nosort", [(J, "            indmin.sort()\n", "")]),
("m-else", [(M, "                        if d[fins[k]] > 0:\n                            imin", "                        if d[fins[k]] != 0:\n                            imin")]),
("m-else2", [(M, "                        if d[fins[k]] > 0:\n                            imin", "                        if d[fins[k]] < 0:\n                            imin")]),
("m-lc", [(M, "            lc = len(debs)", "            lc = len(debs) - 1")]),
("m-ge", [(M, "np.nonzero(np.r_[d1 * d2 < 0] & np.r_[d1 < 0])", "np.nonzero(np.r_[d1 * d2 <= 0] & np.r_[d1 < 0])")]),
("m-last", [(M, "                        debs, fins = debs[:-1], fins[:-1]", "                        debs, fins = debs[:-1], fins[1:]")]),
]
R += [
("p-c", [(F, "        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn\n", "        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * S0\n")]),
("p-b", [(F, "(Sp - S0) * Tn**2", "(Sp - S0) * T0**2")]),
("p-scale", [(F, "        a = a / scale\n        b = b / scale\n        c = c / scale\n", "        a = a / scale\n        b = b / scale\n")]),
("p-win", [(F, "idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))", "idx = (tVertex < Tn) & (tVertex >= Tp)")]),
("p-le", [(F, "idx = (tVertex < T0 + 0.5 * (Tn - T0)) &", "idx = (tVertex <= T0 + 0.5 * (Tn - T0)) &")]),
("p-uniform", [(F, "(tVertex >= T0 - 0.5 * (T0 - Tp))", "(tVertex >= T0 - 0.5 * (Tn - T0))")]),
("p-dup", [(F, "dup = (S[1:-1] == S[0:-2]) & (S[1:-1] == S[2:])", "dup = S[1:-1] == S[0:-2]")]),
("p-dup2", [(F, "dup = (S[1:-1] == S[0:-2]) & (S[1:-1] == S[2:])", "dup = S[2:] == S[0:-2]")]),
("p-dupT", [(F, "        T = T[idx]\n        S = S[idx]\n", "        T = T[: len(idx)]\n        S = S[idx]\n")]),
("p-sv", [(F, "sVertex = a * tVertex * tVertex + b * tVertex + c", "sVertex = 0.5 * b * tVertex + c + b*0")]),
("p-sv2", [(F, "sVertex = a * tVertex * tVertex + b * tVertex + c", "sVertex = c - b * tVertex / 2")]),
("p-swap", [(F, "local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]", "local_min_pos, local_min_val = tVertex[a >= 0], sVertex[a >= 0]")]),
("p-S0", [(F, "local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]", "local_max_pos, local_max_val = tVertex[a < 0], S0[idx][a < 0]")]),
("pj-win", [(J, "idx = np.logical_and(tVertex < T0 + 0.5 * (Tn - T0), tVertex >= T0 - 0.5 * (T0 - Tp))", "idx = np.logical_and(tVertex < T0 + 0.5 * (T0 - Tp), tVertex >= T0 - 0.5 * (T0 - Tp))")]),
]
