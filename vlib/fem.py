"""Reference finite elements (dense/sparse numpy): shape functions, quadratures, heat and elasticity assembly.

Derivatives come from complex steps of the shape functions, so nothing is shared with the hand written derivatives of the program."""
import functools
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

# ---------------------------------------------------------------- shape functions in the reference cell

def _line2(r):
    return [0.5 * (1 - r), 0.5 * (1 + r)]


def _line3(r):
    return [0.5 * r * (r - 1), 0.5 * r * (r + 1), 1 - r * r]


def _quad4(r, s):
    return [0.25 * (1 + a * r) * (1 + b * s) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]


def _quad8(r, s):
    c = [0.25 * (1 + a * r) * (1 + b * s) * (a * r + b * s - 1) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    return c + [0.5 * (1 - r * r) * (1 - s), 0.5 * (1 + r) * (1 - s * s), 0.5 * (1 - r * r) * (1 + s), 0.5 * (1 - r) * (1 - s * s)]


HC = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]
HM = [(0, -1, -1), (1, 0, -1), (0, 1, -1), (-1, 0, -1), (0, -1, 1), (1, 0, 1), (0, 1, 1), (-1, 0, 1), (-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0)]


def _hexa8(r, s, t):
    return [0.125 * (1 + a * r) * (1 + b * s) * (1 + c * t) for a, b, c in HC]


def _hexa20(r, s, t):
    o = [0.125 * (1 + a * r) * (1 + b * s) * (1 + c * t) * (a * r + b * s + c * t - 2) for a, b, c in HC]
    for a, b, c in HM:
        f = 0.25
        f = f * ((1 - r * r) if a == 0 else (1 + a * r))
        f = f * ((1 - s * s) if b == 0 else (1 + b * s))
        f = f * ((1 - t * t) if c == 0 else (1 + c * t))
        o.append(f)
    return o


def _tria3(r, s):
    return [1 - r - s, r, s]


def _tria6(r, s):
    l = 1 - r - s
    return [l * (2 * l - 1), r * (2 * r - 1), s * (2 * s - 1), 4 * r * l, 4 * r * s, 4 * s * l]


def _tetra10(r, s, t):
    # barycentric: corner 0..3 = (1-r-s-t, r, s, t)
    l = [1 - r - s - t, r, s, t]
    return [x * (2 * x - 1) for x in l] + [4 * l[a] * l[b] for a, b in ((0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3))]


def _prism6(r, s, t):
    l = [1 - r - s, r, s]
    return [0.5 * (1 - t) * x for x in l] + [0.5 * (1 + t) * x for x in l]


def _prism15(r, s, t):
    l = [1 - r - s, r, s]
    o = [0.5 * x * (1 - t) * (2 * x - 2 - t) for x in l] + [0.5 * x * (1 + t) * (2 * x - 2 + t) for x in l]
    o += [2 * l[a] * l[b] * (1 - t) for a, b in ((0, 1), (1, 2), (2, 0))]
    o += [2 * l[a] * l[b] * (1 + t) for a, b in ((0, 1), (1, 2), (2, 0))]
    return o + [x * (1 - t * t) for x in l]


def _pyra13(r, s, t):
    p = 0.5 * (1 - t)
    o = [p / 4 * (1 + a * r) * (1 + b * s) * (-1 + a * p * r + b * p * s) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    o.append((1 - p) * (1 - 2 * p))
    o += [p * p / 2 * (1 - s) * (1 - r * r), p * p / 2 * (1 + r) * (1 - s * s), p * p / 2 * (1 + s) * (1 - r * r), p * p / 2 * (1 - r) * (1 - s * s)]
    return o + [p * (1 - p) * (1 + a * r) * (1 + b * s) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]


def _collapse(base, order):
    n = max(order) + 1

    def f(*x):
        v = base(*x)
        o = [0.0] * n
        for i, k in enumerate(order):
            o[k] = o[k] + v[i]
        return o
    return f


_tetra4c = _collapse(_hexa8, (0, 1, 2, 2, 3, 3, 3, 3))
_pyra5c = _collapse(_hexa8, (0, 1, 2, 3, 4, 4, 4, 4))
_prism6c = _collapse(_hexa8, (0, 1, 2, 2, 3, 4, 5, 5))
_tria3c = _collapse(_quad4, (0, 1, 2, 2))
_pyra13c = _collapse(_hexa20, (0, 1, 2, 3, 4, 4, 4, 4, 5, 6, 7, 8, 4, 4, 4, 4, 9, 10, 11, 12))


# ---------------------------------------------------------------- quadratures

def gauss(n, d):
    x, w = np.polynomial.legendre.leggauss(n)
    g = np.meshgrid(*([x] * d), indexing="ij")
    W = functools.reduce(np.multiply.outer, [w] * d)
    return [a.ravel() for a in g], np.asarray(W).ravel()


def _tri6():
    a, b = 0.445948490915965, 0.091576213509771
    wa, wb = 0.223381589678011 / 2, 0.109951743655322 / 2
    r = [a, a, 1 - 2 * a, b, b, 1 - 2 * b]
    s = [a, 1 - 2 * a, a, b, 1 - 2 * b, b]
    return [np.array(r), np.array(s)], np.array([wa] * 3 + [wb] * 3)


def _tet15():
    pts, w = [], []

    def add(l, ww):
        import itertools
        for p in sorted(set(itertools.permutations(l))):
            pts.append(p[1:])
            w.append(ww)
    add((0.25, 0.25, 0.25, 0.25), 0.030283678097089)
    add((0.0, 1 / 3, 1 / 3, 1 / 3), 0.006026785714286)
    add((8 / 11, 1 / 11, 1 / 11, 1 / 11), 0.011645249086029)
    a = 0.0665501535736643
    add((a, a, 0.5 - a, 0.5 - a), 0.010949141561386)
    p = np.array(pts)
    return [p[:, 0], p[:, 1], p[:, 2]], np.array(w)


def _pri9():
    t, w = np.polynomial.legendre.leggauss(3)
    tr = [(1 / 6, 1 / 6), (2 / 3, 1 / 6), (1 / 6, 2 / 3)]
    R, S, T, W = [], [], [], []
    for k in range(3):
        for a, b in tr:
            R.append(a), S.append(b), T.append(t[k]), W.append(w[k] / 6)
    return [np.array(R), np.array(S), np.array(T)], np.array(W)


def _pyr14():
    v1, v2 = 0.758786910639329015, 0.795822425754222018
    w1, w2 = 0.335180055401662, 0.886426592797784
    p = [(a * v1, b * v1, c * v1) for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)]
    p += [(0, 0, -v2), (0, 0, v2), (0, v2, 0), (0, -v2, 0), (v2, 0, 0), (-v2, 0, 0)]
    p = np.array(p)
    return [p[:, 0], p[:, 1], p[:, 2]], np.array([w1] * 8 + [w2] * 6)


SCHEME = {
    "heat": {
        "line2": (_line2, gauss(2, 1)), "line3": (_line3, gauss(3, 1)), "tria3": (_tria3, _tri6()), "tria6": (_tria6, _tri6()),
        "quad4": (_quad4, gauss(2, 2)), "quad8": (_quad8, gauss(3, 2)), "tetra4": (_tetra4c, gauss(2, 3)), "pyra5": (_pyra5c, gauss(2, 3)),
        "prism6": (_prism6, _pri9()), "hexa8": (_hexa8, gauss(2, 3)), "tetra10": (_tetra10, _tet15()), "pyra13": (_pyra13, _pyr14()),
        "prism15": (_prism15, _pri9()), "hexa20": (_hexa20, gauss(3, 3)),
    },
    "struct": {
        "line2": (_line2, gauss(2, 1)), "line3": (_line3, gauss(4, 1)), "tria3": (_tria3c, gauss(2, 2)), "tria6": (_tria6, _tri6()),
        "quad4": (_quad4, gauss(2, 2)), "quad8": (_quad8, gauss(4, 2)), "tetra4": (_tetra4c, gauss(2, 3)), "pyra5": (_pyra5c, gauss(2, 3)),
        "prism6": (_prism6c, gauss(2, 3)), "hexa8": (_hexa8, gauss(2, 3)), "tetra10": (_tetra10, _tet15()), "pyra13": (_pyra13c, gauss(3, 3)),
        "prism15": (_prism15, _pri9()), "hexa20": (_hexa20, gauss(3, 3)),
    },
}


@functools.lru_cache(None)
def basis(scheme, etype):
    """N (gp,n), dN (gp,n,edim), w (gp)"""
    f, (x, w) = SCHEME[scheme][etype]
    d = len(x)
    g = len(w)
    N = np.stack([np.broadcast_to(v, (g,)) for v in f(*x)], axis=1).astype(float)
    dN = np.zeros(N.shape + (d,))
    h = 1e-30
    for k in range(d):
        z = [xx.astype(complex) for xx in x]
        z[k] = z[k] + 1j * h
        dN[:, :, k] = np.stack([np.broadcast_to(v, (g,)) for v in f(*z)], axis=1).imag / h
    return N, dN, w


class Block:
    """geometry of one element block at its integration points."""

    def __init__(self, scheme, etype, conn, coords, dim):
        self.t, self.conn = etype, conn
        self.N, dN, self.w = basis(scheme, etype)
        x = coords[conn][:, :, :dim]                                   # e n d
        self.xg = np.einsum("gn,end->egd", self.N, x)
        J = np.einsum("gnk,end->egkd", dN, x)                           # dx_d / dr_k
        edim = dN.shape[2]
        if edim == dim:
            self.det = np.linalg.det(J)
            self.dND = np.einsum("egdk,gnk->egnd", np.linalg.inv(J), dN)
            self.dV = self.det * self.w
        elif edim == 2:
            n = np.cross(J[:, :, 0], J[:, :, 1])
            self.det = np.linalg.norm(n, axis=2)
            self.normal = n / self.det[..., None]
            self.dV = self.det * self.w
        else:
            t = J[:, :, 0]
            self.det = np.linalg.norm(t, axis=2)
            if dim == 2:
                self.normal = np.stack([t[..., 1], -t[..., 0]], axis=2) / self.det[..., None]
            self.dV = self.det * self.w


def assemble(n, items, dofs=1):
    """items: list of (conn, Ke (e, n*dofs, n*dofs)); dof order inside an element: node major when dofs > 1"""
    I, J, V = [], [], []
    for conn, Ke in items:
        d = (conn[:, :, None] * dofs + np.arange(dofs)[None, None, :]).reshape(len(conn), -1)
        m = d.shape[1]
        I.append(np.repeat(d, m, axis=1).ravel())
        J.append(np.tile(d, (1, m)).ravel())
        V.append(Ke.reshape(len(conn), -1).ravel())
    return sp.csr_matrix((np.concatenate(V), (np.concatenate(I), np.concatenate(J))), shape=(n * dofs, n * dofs))


def scatter(n, items, dofs=1):
    f = np.zeros(n * dofs)
    for conn, fe in items:
        d = (conn[:, :, None] * dofs + np.arange(dofs)[None, None, :]).reshape(len(conn), -1)
        np.add.at(f, d.ravel(), fe.reshape(len(conn), -1).ravel())
    return f


def solve(K, f, fixed, values):
    """K u = f with u[fixed] = values"""
    n = K.shape[0]
    u = np.zeros(n)
    u[fixed] = values
    free = np.setdiff1d(np.arange(n), fixed)
    if len(free):
        A = K[free][:, free].tocsc()
        u[free] = spl.spsolve(A, f[free] - K[free][:, fixed] @ np.asarray(values, float))
    return u
