"""Small reference models (plain Python / textbook formulas, no dsptoolbox)
and input alphabets shared by the checks."""

import numpy as np


def seq(n, k=0, complex_=False):
    """A fixed 'generic' sequence: pairwise unrelated values, |v| < 0.5, so
    that no permutation, shift, sign or channel swap leaves it unchanged."""
    i = np.arange(1, n + 1, dtype=float)
    phi = 0.6180339887498949
    v = ((i * (phi + 0.1317 * k) + 0.377 * k + i * i * 0.0713) % 1.0) - 0.47
    v = v * 0.9
    if complex_:
        return v + 1j * seq(n, k + 17)
    return v


def td(n, ch, k=0, complex_=False):
    return np.stack([seq(n, k + 5 * c, complex_) for c in range(ch)], axis=1)


def lfilter_ref(b, a, x):
    """Direct form difference equation, one channel."""
    b = np.asarray(b, dtype=float)
    a = np.asarray(a, dtype=float)
    y = np.zeros(len(x), dtype=np.result_type(x, float))
    for n in range(len(x)):
        acc = 0.0
        for i in range(len(b)):
            if n - i >= 0:
                acc += b[i] * x[n - i]
        for i in range(1, len(a)):
            if n - i >= 0:
                acc -= a[i] * y[n - i]
        y[n] = acc / a[0]
    return y


def sos_ref(sos, x):
    for s in np.atleast_2d(sos):
        x = lfilter_ref(s[:3], s[3:], x)
    return x


def conv_ref(h, x):
    """Causal convolution truncated to len(x)."""
    return lfilter_ref(h, [1.0], x)


def statespace_ref(A, B, C, D, x):
    A = np.atleast_2d(A)
    n = A.shape[0]
    s = np.zeros(n)
    y = np.zeros(len(x))
    for i, v in enumerate(x):
        y[i] = np.dot(np.ravel(C), s) + float(np.ravel(D)[0]) * v
        s = A @ s + np.ravel(B) * v
    return y


def polymul(*p):
    r = np.array([1.0])
    for q in p:
        r = np.convolve(r, q)
    return r


def warped_ba(b, a, lam):
    """H(D(z)) with D(z) = (z^-1 - lam)/(1 - lam z^-1) as a rational function:
    substitute and clear denominators."""
    N = max(len(b), len(a)) - 1
    num_ap = np.array([-lam, 1.0])
    den_ap = np.array([1.0, -lam])

    def sub(c):
        out = np.zeros(N + 1)
        for n, v in enumerate(c):
            out += v * polymul(*([num_ap] * n), *([den_ap] * (N - n)))
        return out

    return sub(b), sub(a)


def bilinear_svf(g, r):
    """LP, HP, BP, AP numerators and the denominator of the state variable
    prototype 1/(s^2 + r s + 1) under s = (1/g)(1-z^-1)/(1+z^-1)."""
    m = np.array([1.0, -1.0])
    p = np.array([1.0, 1.0]) * g
    mm, mp, pp = polymul(m, m), polymul(m, p), polymul(p, p)
    den = mm + r * mp + pp
    return pp, mm, mp, mm - r * mp + pp, den


def dft(x, n=None):
    """Plain O(N^2) DFT along axis 0."""
    x = np.asarray(x)
    if n is not None:
        pad = np.zeros((max(0, n - x.shape[0]),) + x.shape[1:], dtype=x.dtype)
        x = np.concatenate([x[:n], pad])
    N = x.shape[0]
    k = np.arange(N)
    W = np.exp(-2j * np.pi * np.outer(k, k) / N)
    return np.tensordot(W, x, axes=(1, 0))


def rdft(x, n=None):
    X = dft(x, n)
    return X[: X.shape[0] // 2 + 1]


def filter_response(b, a, f, fs):
    z = np.exp(-2j * np.pi * np.asarray(f) / fs)
    return np.polyval(np.asarray(b)[::-1], z) / np.polyval(np.asarray(a)[::-1], z)
