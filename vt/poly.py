"""
Reference calculus, independent of Dedalus: tensor fields over a closed function space with exact derivatives.

Functions are sums of  x^a y^b z^c  r^p  e^{i(k.x)}  (r: distance in the first `nr` Cartesian coordinates), with
coefficients in a vector space (one coefficient per symbol).  Components are Cartesian; frames() rotates them to
the orthonormal curvilinear frame at points.
"""
import numpy as np
from itertools import product as iprod


class Ten:
    """Tensor field of rank r over `dim` Cartesian coordinates: {exps: array (dim,)*r + (nsym,)}; exps = (powers..., p, wavenumbers...)."""

    def __init__(self, dim, rank, data, nr=0, k0=None, nsym=None):
        self.dim, self.rank, self.data, self.nr, self.nsym = dim, rank, data, nr, nsym
        self.k0 = k0 or (1.,)*dim

    def like(self, rank, data):
        return Ten(self.dim, rank, data, self.nr, self.k0, self.nsym)

    def _map(self, fn, rank):
        out = {}
        for e, c in self.data.items():
            for e2, c2 in fn(e, c):
                if e2 in out:
                    out[e2] = out[e2] + c2
                else:
                    out[e2] = c2
        return self.like(rank, out)

    def d(self, i):
        n, nr = self.dim, self.nr

        def fn(e, c):
            out = []
            a, p, k = e[:n], e[n], e[n+1:]
            if a[i]:
                b = list(e); b[i] -= 1
                out.append((tuple(b), a[i]*c))
            if p and i < nr:
                b = list(e); b[i] += 1; b[n] -= 2
                out.append((tuple(b), p*c))
            if k[i]:
                out.append((e, 1j*k[i]*self.k0[i]*c))
            return out
        return self._map(fn, self.rank)

    def __add__(self, o):
        assert self.rank == o.rank
        d = dict(self.data)
        for e, c in o.data.items():
            d[e] = d[e] + c if e in d else c
        return self.like(self.rank, d)

    def __rmul__(self, s):
        return self.like(self.rank, {e: s*c for e, c in self.data.items()})
    __mul__ = __rmul__

    def __sub__(self, o):
        return self + (-1)*o

    def __neg__(self):
        return (-1)*self

    def times(self, i=None, p=0):
        """multiply by x_i r^p"""
        def fn(e, c):
            b = list(e)
            if i is not None:
                b[i] += 1
            b[self.dim] += p
            return [(tuple(b), c)]
        return self._map(fn, self.rank)

    def lin(self, fn, rank):
        """pointwise linear map of components (constant coefficients)"""
        return self.like(rank, {e: fn(c) for e, c in self.data.items()})

    def comp(self, *idx):
        return self.lin(lambda c: c[idx], self.rank - len(idx))

    @staticmethod
    def stack(parts):
        keys = set().union(*[p.data for p in parts])
        ref = parts[0]
        z = None
        for p in parts:
            for c in p.data.values():
                z = np.zeros_like(c)
        out = {}
        for k in keys:
            out[k] = np.array([p.data.get(k, z) for p in parts])
        return ref.like(ref.rank + 1, out)

    # Cartesian tensor calculus (exact)
    def grad(self):
        return Ten.stack([self.d(i) for i in range(self.dim)])

    def contract(self, i=0, j=1):
        return self.lin(lambda c: np.trace(c, axis1=i, axis2=j), self.rank - 2)

    def div(self):
        return self.grad().contract(0, 1)

    def lap(self):
        out = self.d(0).d(0)
        for i in range(1, self.dim):
            out = out + self.d(i).d(i)
        return out

    def curl(self):
        eps = np.zeros((3, 3, 3))
        for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
            eps[a, b, c] = 1
            eps[a, c, b] = -1
        return self.grad().lin(lambda c: np.tensordot(eps, c, axes=((1, 2), (0, 1))), self.rank)

    def transpose(self, i=0, j=1):
        return self.lin(lambda c: np.swapaxes(c, i, j), self.rank)

    def project(self, nr=None):
        """remove the radial part of every index"""
        out = self
        for ax in range(self.rank):
            parts = []
            moved = out.lin(lambda c: np.moveaxis(c, ax, 0), out.rank)
            rad = None
            for i in range(self.dim):
                t = moved.comp(i).times(i, -1)
                rad = t if rad is None else rad + t
            parts = [moved.comp(i) - rad.times(i, -1) for i in range(self.dim)]
            out = Ten.stack(parts).lin(lambda c: np.moveaxis(c, 0, ax), out.rank)
        return out

    def at(self, pts):
        """pts (npts, dim) -> (comps..., npts, nsym)"""
        n = self.dim
        r = np.sqrt(np.sum(pts[:, :self.nr]**2, axis=1)) if self.nr else np.ones(len(pts))
        out = np.zeros((n,)*self.rank + (len(pts), self.nsym), dtype=complex)
        for e, c in self.data.items():
            v = np.ones(len(pts), dtype=complex)
            for i in range(n):
                if e[i]:
                    v = v*pts[:, i]**e[i]
                if e[n+1+i]:
                    v = v*np.exp(1j*e[n+1+i]*self.k0[i]*pts[:, i])
            if e[n]:
                v = v*r**float(e[n])
            out += c[..., None, :]*v[:, None]
        return out


def rotate(vals, frames, rank):
    """vals (comps..., npts, nsym), frames (ncomp, dim, npts): components along the frame vectors."""
    for ax in range(rank):
        v = np.moveaxis(vals, ax, 0)
        v = np.einsum('acp,c...ps->a...ps', frames, v)
        vals = np.moveaxis(v, 0, ax)
    return vals


def generic(dim, rank, exps, nr=0, k0=None, mask=None):
    """A tensor field with one independent symbol per (component, exps)."""
    ncomp = dim**rank
    n = ncomp*len(exps)
    data = {}
    for q, e in enumerate(exps):
        c = np.zeros((ncomp, n), dtype=complex)
        for i in range(ncomp):
            c[i, q*ncomp + i] = 1
        data[tuple(e)] = c.reshape((dim,)*rank + (n,))
    return Ten(dim, rank, data, nr, k0, n)


def real_trig(t):
    """Turn symbols so that the field is real for real symbols: exps must be closed under conjugation (k -> -k)."""
    seen = {}
    n = t.dim
    M = np.eye(t.nsym, dtype=complex)
    ncomp = t.dim**t.rank
    idx = {e: q for q, e in enumerate(t.data)}
    for e, q in idx.items():
        k = e[n+1:]
        ec = e[:n+1] + tuple(-x for x in k)
        if not any(k) or ec in seen:
            continue
        seen[e] = 1
        q2 = idx[ec]
        for i in range(ncomp):
            a, b = q*ncomp + i, q2*ncomp + i
            # symbols a, b:  a cos + b sin = (a - ib)/2 e^{ik} + (a + ib)/2 e^{-ik}
            M[a, a], M[a, b], M[b, a], M[b, b] = .5, -.5j, .5, .5j
    return t.like(t.rank, {e: c @ M for e, c in t.data.items()})


def monomials(ncoord, deg):
    return [a for a in iprod(range(deg+1), repeat=ncoord) if sum(a) <= deg]
