"""Shared scenario building blocks over the public Dedalus API."""
import numpy as np
from . import ded, lin


def d3():
    import dedalus.public as d3
    return d3


def start(env):
    """Import dedalus and make it symbolic; returns the public module."""
    import logging
    import dedalus.public as d3
    logging.disable(logging.CRITICAL)
    ded.symbolize(env)
    return d3


def along(M, x, axis):
    """Apply matrix M along axis (both backends)."""
    if isinstance(x, lin.LinArray):
        return lin.apply_matrix(M, x, axis)
    return np.moveaxis(np.tensordot(np.asarray(M), x, axes=(1, axis)), 0, axis)


def grid_size(N, scale):
    """Documented grid size: ceil of the rescaled size."""
    return 1 if N == 1 else int(np.ceil(scale * N))


# ---- bases as explicit function evaluations: value matrix (points x coefficients), and which coefficients are valid
def fourier_real(N, n_used, pts):
    """columns: cos(kx), -sin(kx) for k < (N+1)//2 ; modes above the resolvable wavenumber are truncated"""
    K = (min(N, n_used) - 1)//2
    M = max(N, 2) if N == 1 else N
    V = np.zeros((len(pts), 2*((N-1)//2 + 1)))
    for k in range((N-1)//2 + 1):
        if k <= K:
            V[:, 2*k] = np.cos(k*pts)
            V[:, 2*k+1] = -np.sin(k*pts)
    return V


def fourier_complex(N, n_used, pts):
    K = (min(N, n_used) - 1)//2
    V = np.zeros((len(pts), N), dtype=complex)
    KM = (N-1)//2
    ks = [(k + KM) % N - KM for k in range(N)]
    for j, k in enumerate(ks):
        if abs(k) <= K:
            V[:, j] = np.exp(1j*k*pts)
    return V


def fourier_real_fwd(N, Ng):
    x = 2*np.pi*np.arange(Ng)/Ng
    K = (min(N, Ng) - 1)//2
    F = np.zeros((2*((N-1)//2+1), Ng))
    F[0] = 1/Ng
    for k in range(1, K+1):
        F[2*k] = 2/Ng*np.cos(k*x)
        F[2*k+1] = -2/Ng*np.sin(k*x)
    return F


def fourier_complex_fwd(N, Ng):
    x = 2*np.pi*np.arange(Ng)/Ng
    K = (min(N, Ng) - 1)//2
    KM = (N-1)//2
    F = np.zeros((N, Ng), dtype=complex)
    for j in range(N):
        k = (j + KM) % N - KM
        if abs(k) <= K:
            F[j] = np.exp(-1j*k*x)/Ng
    return F


def jacobi_norm_values(n, a, b, x):
    """Orthonormal (weight (1-x)^a (1+x)^b) Jacobi polynomial values: (len(x), n), by scipy's classical polynomials."""
    from scipy.special import eval_jacobi, gammaln
    out = np.zeros((len(x), n))
    for k in range(n):
        lg = (a+b+1)*np.log(2) + gammaln(k+a+1) + gammaln(k+b+1) - gammaln(k+1) - gammaln(k+a+b+1) if (k > 0 or a+b+1 > 0) else None
        if k == 0:
            # mass of the weight
            h = np.exp((a+b+1)*np.log(2) + gammaln(a+1) + gammaln(b+1) - gammaln(a+b+2))
        else:
            h = np.exp(lg) / (2*k+a+b+1)
        out[:, k] = eval_jacobi(k, a, b, x) / np.sqrt(h)
    return out


def gauss_jacobi(n, a, b):
    from scipy.special import roots_jacobi
    x, w = roots_jacobi(n, a, b)
    return x, w
