"""Independent SAR quantiser used to make bit matrices with known weights."""
import numpy as np


def weights(rng, B, radix=None, mismatch=0.01):
    """Redundant (sub-binary) weights, MSB first, normalised to a unit range."""
    r = radix if radix else rng.uniform(1.75, 1.9)
    w = r ** np.arange(B - 1, -1, -1.0)
    w *= 1 + mismatch * rng.standard_normal(B)
    w = np.abs(w)
    return w / (w.sum() + w[-1])


def convert(x, w):
    """x in [0,1): successive approximation, one comparison per weight."""
    x = np.asarray(x, float)
    acc = np.zeros_like(x)
    out = np.zeros(x.shape + (len(w),), dtype=int)
    for j, wj in enumerate(w):
        take = x >= acc + wj
        out[..., j] = take
        acc = acc + np.where(take, wj, 0.0)
    return out


def sine_bits(rng, w, N, f, amp=0.49, h2=0.0, h3=0.0, noise=0.0, phase=None, dc=0.5):
    ph = rng.uniform(0, 2 * np.pi) if phase is None else phase
    u = 2 * np.pi * f * np.arange(N) + ph
    x = dc + amp * (np.cos(u) + h2 * np.cos(2 * u) + h3 * np.cos(3 * u)) + noise * rng.standard_normal(N)
    return convert(x, w)
