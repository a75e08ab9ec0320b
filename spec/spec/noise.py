"""White-noise significance test of Wu and Huang (2004), written as plain formulas."""
import numpy as np
from scipy import stats
from scipy.signal import find_peaks


def log_period(x):
    peaks = len(find_peaks(x, height=0)[0])
    if peaks > 0:
        return np.log(len(x)) - np.log(peaks)
    return np.log(len(x))


def log_density(x, N):
    return np.log(np.sum(x**2)) - np.log(N)


def spread(T, N, alpha):
    return abs(stats.norm.ppf((1 - alpha) / 2)) * np.sqrt(2 / N) * np.exp(T / 2)



def above(e, T, N, alpha):
    return e + T > spread(T, N, alpha)


def apriori(x, N, alpha):
    e, T, s = log_density(x, N), log_period(x), spread(log_period(x), N, alpha)
    return e + T > s or -(e + T) > s


def aposteriori(x, ref, N, alpha):
    limit = spread(log_period(ref), N, alpha) - log_period(ref)
    e = log_density(x, N) - log_density(ref, N) + limit
    return above(e, log_period(x), N, alpha)


def priori(e, T, N, alpha):
    s = spread(T, N, alpha)
    return e + T > s or -(e + T) > s


def mean_period(x):
    peaks = len(find_peaks(x, height=0)[0])
    if peaks > 0:
        return len(x) / peaks
    return len(x)


def energy(x):
    return np.sum(x**2)
