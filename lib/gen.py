"""Workload generators shared by the checks (deterministic in the given seed)."""
import numpy as np
from scipy.signal import windows as _w
from math import gcd

WINDOWS = ["rectangular", "boxcar", "hann", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin"]
# half width of the main lobe in bins; exact finite support for the cosine-sum windows
LOBE = {"rectangular": 0, "boxcar": 0, "hann": 1, "hamming": 1, "blackman": 2, "blackmanharris": 3, "flattop": 4, "kaiser": 9, "chebwin": 5}
EXACT = ("rectangular", "boxcar", "hann", "hamming", "blackman", "blackmanharris", "flattop")


def window(name, n):
    name = name.lower()
    if name in ("rectangular", "boxcar"):
        return np.ones(n)
    if name == "kaiser":
        return _w.kaiser(n, beta=38, sym=False)
    if name == "chebwin":
        return _w.chebwin(n, at=100, sym=False)
    return _w.get_window(name, n, fftbins=True)


def fold(b, n):
    """Alias bin index b of an n-point record to [0, n/2]."""
    r = b % n
    return n - r if r > n / 2 else r


def flat_noise(rng, n, rms, skip=()):
    """Real noise with the same magnitude in every rfft bin except DC and `skip`."""
    k = n // 2 + 1
    mag = np.ones(k)
    mag[0] = 0
    for s in skip:
        if 0 <= s < k:
            mag[s] = 0
    ph = rng.uniform(0, 2 * np.pi, k)
    spec = mag * np.exp(1j * ph)
    if n % 2 == 0:
        spec[-1] = mag[-1]
    x = np.fft.irfft(spec, n)
    r = np.sqrt(np.mean(x ** 2))
    return x * (rms / r)


def psd(x, win, n=None):
    """One-sided windowed power spectrum: a unit-amplitude tone sums to 1."""
    n = len(x)
    w = window(win, n)
    p = np.abs(np.fft.rfft(x * w)) ** 2 / n ** 2 * 4 / np.mean(w ** 2)
    p[0] /= 2
    if n % 2 == 0:
        p[-1] /= 2
    return p


def coprime_bin(rng, n, lo, hi):
    for _ in range(1000):
        b = int(rng.integers(lo, hi))
        if gcd(b, n) == 1:
            return b
    return int(lo)


def ri(rng, lo, hi):
    return int(rng.integers(lo, hi))


def pick(rng, seq):
    return seq[int(rng.integers(0, len(seq)))]


def logu(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def seed_of(rng):
    return int(rng.integers(0, 2 ** 31 - 1))


def db(p):
    return 10 * np.log10(p)


def rich_phase(f, n, dmax=40, margin=3):
    """True if a tone at f sweeps many distinct phases in n samples (needed to determine many unknowns)."""
    return all(abs(f * d - round(f * d)) * n > margin for d in range(1, dmax + 1))


BIG = [20000, 32769, 40000, 65536, 70001, 131072]


def length(rng, choices, share=0.02, big=BIG):
    """A record length: mostly one of the choices, now and then a long one."""
    return pick(rng, big) if rng.random() < share else pick(rng, choices)
