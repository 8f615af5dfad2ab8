"""Small instances of every supported geometry, built through the public API."""
import threading
import numpy as np


LOCAL = threading.local()     # simulated ranks: keywords of the distributor (comm, mesh)


def _dist(d3, cs, dtype):
    return d3.Distributor(cs, dtype=dtype, **getattr(LOCAL, 'kw', {}))


class Geo:
    pass


def _out(**kw):
    g = Geo()
    g.__dict__.update(kw)
    return g


def cart(d3, spec, dtype=np.float64, dealias=1):
    """spec: sequence of (coordinate, kind, size[, bounds[, opts]]); kinds R, C, T, U(ltraspherical alpha), L, J."""
    names = [s[0] for s in spec]
    if len(names) == 1:
        cs = d3.Coordinate(names[0])
        coords = {names[0]: cs}
    else:
        cs = d3.CartesianCoordinates(*names)
        coords = {n: cs[n] for n in names}
    dist = _dist(d3, cs, dtype)
    bases = []
    for s in spec:
        name, kind, size = s[:3]
        b = s[3] if len(s) > 3 else (0, 2*np.pi) if kind in 'RC' else (-1, 1)
        o = dict(s[4]) if len(s) > 4 else {}
        o.setdefault('dealias', dealias)
        c = coords[name]
        if kind == 'R':
            bases.append(d3.RealFourier(c, size=size, bounds=b, **o))
        elif kind == 'C':
            bases.append(d3.ComplexFourier(c, size=size, bounds=b, **o))
        elif kind == 'T':
            bases.append(d3.ChebyshevT(c, size=size, bounds=b, **o))
        elif kind == 'L':
            bases.append(d3.Legendre(c, size=size, bounds=b, **o))
        elif kind == 'U':
            bases.append(d3.Ultraspherical(c, size=size, bounds=b, **o))
        elif kind == 'J':
            bases.append(d3.Jacobi(c, size=size, bounds=b, **o))
        elif kind == '-':
            bases.append(None)
        else:
            raise ValueError(kind)
    return _out(kind='cart', cs=cs, coords=coords, names=names, dist=dist, bases=tuple(b for b in bases if b is not None),
                allbases=tuple(bases), dtype=dtype, d3=d3)


def polar(d3, kind, shape, dtype=np.float64, **kw):
    cs = d3.PolarCoordinates('phi', 'r')
    dist = _dist(d3, cs, dtype)
    b = {'disk': d3.DiskBasis, 'annulus': d3.AnnulusBasis}[kind](cs, shape=shape, dtype=dtype, **kw)
    return _out(kind=kind, cs=cs, dist=dist, basis=b, bases=(b,), dtype=dtype, d3=d3)


def sphere(d3, shape, dtype=np.float64, coords='S2', **kw):
    cs = d3.S2Coordinates('phi', 'theta') if coords == 'S2' else d3.SphericalCoordinates('phi', 'theta', 'r')
    dist = _dist(d3, cs, dtype)
    b = d3.SphereBasis(cs, shape=shape, dtype=dtype, **kw)
    return _out(kind='sphere', cs=cs, dist=dist, basis=b, bases=(b,), dtype=dtype, d3=d3)


def spherical(d3, kind, shape, dtype=np.float64, **kw):
    cs = d3.SphericalCoordinates('phi', 'theta', 'r')
    dist = _dist(d3, cs, dtype)
    b = {'ball': d3.BallBasis, 'shell': d3.ShellBasis}[kind](cs, shape=shape, dtype=dtype, **kw)
    return _out(kind=kind, cs=cs, dist=dist, basis=b, bases=(b,), dtype=dtype, d3=d3)


def cylinder(d3, kind, Nz, shape, dtype=np.float64, zkind='R', length=1.88, **kw):
    cz = d3.Coordinate('z')
    cp = d3.PolarCoordinates('phi', 'r')
    cs = d3.DirectProduct(cz, cp)
    dist = _dist(d3, cs, dtype)
    if zkind in 'RC':
        bz = (d3.RealFourier if zkind == 'R' else d3.ComplexFourier)(cz, Nz, bounds=(0, length))
    else:
        bz = d3.ChebyshevT(cz, Nz, bounds=(0, length))
    b = {'disk': d3.DiskBasis, 'annulus': d3.AnnulusBasis}[kind](cp, shape=shape, dtype=dtype, **kw)
    return _out(kind='cyl'+kind, cs=cs, cz=cz, cp=cp, dist=dist, bz=bz, basis=b, bases=(bz, b), dtype=dtype, d3=d3)
