"""Documented stopping criteria, written as plain formulas."""
import numpy as np


def huang(new, old, eMax, eMin, svar_thr, std_thr, energy_ratio_thr):
    d = new - old
    right_side = np.all(eMax[1] >= 0) and np.all(eMin[1] <= 0)
    alive = np.sum(new**2) >= 1e-10
    svar = np.sum(d**2) / (np.max(old) - np.min(old)) < svar_thr
    std = np.sum((d / new) ** 2) < std_thr
    energy = np.sum(d**2) / np.sum(old**2) < energy_ratio_thr
    return right_side and alive and (svar or std or energy)


def finished(S, IMF, range_thr, total_power_thr):
    r = S - np.sum(IMF, axis=0)
    return np.max(r) - np.min(r) < range_thr or np.sum(np.abs(r)) < total_power_thr


def ceemdan_finished(S, IMF, max_imf, probe, range_thr, total_power_thr):
    r = S - np.sum(IMF, axis=0)
    limit = max_imf > 0 and len(IMF) >= max_imf
    return limit or probe == 1 or np.max(r) - np.min(r) < range_thr or np.sum(np.abs(r)) < total_power_thr


def reconstructed(image, IMF):
    return np.allclose(image, np.sum(IMF, axis=0))


def proto(imf, prev, mean, mean_thr, mse_thr, rtol):
    flat = np.all(np.abs(mean - np.mean(mean)) < mean_thr)
    return flat or np.allclose(imf, prev, rtol=rtol) or np.mean(np.abs(imf)) < mean_thr or np.mean(imf**2) < mse_thr


def rilling(upper, lower, mean, extrema, stop1, stop2, stop3):
    s = np.abs(mean) / (np.abs(upper - lower) / 2.0)
    mostly = np.mean(s > stop1) <= stop3
    everywhere = not np.any(s > stop2)
    return mostly and everywhere and extrema > 2
