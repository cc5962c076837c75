"""Plain crystallography used as oracle; written without looking at how the
library does it (loops over definitions)."""
import math
import numpy as np

def rot(ax, ay, az):
    a, b, c = map(math.radians, (ax, ay, az))
    rx = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
    ry = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    rz = np.array([[math.cos(c), -math.sin(c), 0], [math.sin(c), math.cos(c), 0], [0, 0, 1]])
    return rx.dot(ry).dot(rz)

def cc2cell(cc):
    a, b, c = cc[:3]
    al, be, ga = [math.radians(x) for x in cc[3:]]
    va = [a, 0.0, 0.0]
    vb = [b * math.cos(ga), b * math.sin(ga), 0.0]
    cx = c * math.cos(be)
    cy = c * (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    cz = math.sqrt(c * c - cx * cx - cy * cy)
    return np.array([va, vb, [cx, cy, cz]])

def cell2cc(cell):
    def n(v):
        return math.sqrt(sum(float(x) ** 2 for x in v))
    def ang(u, v):
        d = sum(float(x) * float(y) for x, y in zip(u, v)) / n(u) / n(v)
        return math.degrees(math.acos(max(-1.0, min(1.0, d))))
    a, b, c = cell
    return np.array([n(a), n(b), n(c), ang(b, c), ang(a, c), ang(a, b)])

def volume(cell):
    (a, b, c), (d, e, f), (g, h, i) = [[float(x) for x in r] for r in cell]
    return abs(a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g))

def f2c(frac, cell):
    out = np.empty(frac.shape)
    for i, s in enumerate(frac):
        for k in range(3):
            out[i, k] = sum(float(s[j]) * float(cell[j][k]) for j in range(3))
    return out

def c2f(cart, cell):
    """Cramer's rule"""
    m = np.array(cell, dtype=float)
    det = np.linalg.det(m)
    out = np.empty(cart.shape)
    for i, r in enumerate(cart):
        for j in range(3):
            t = m.copy()
            t[j] = r
            out[i, j] = np.linalg.det(t) / det
    return out

CC = {'cubic': [4.0, 4.0, 4.0, 90, 90, 90],
      'ortho': [3.1, 4.3, 5.7, 90, 90, 90],
      'hex': [3.0, 3.0, 5.1, 90, 90, 120],
      'mono': [3.3, 4.1, 5.2, 90, 103.5, 90],
      'tri': [3.4, 4.6, 5.3, 81.0, 97.0, 112.0],
      'rhomb': [4.2, 4.2, 4.2, 60.0, 60.0, 60.0]}
CELLS = {k: cc2cell(v) for k, v in CC.items()}
CELLS['rottri'] = CELLS['tri'].dot(rot(20, 35, 110).T)
CELLS['rotortho'] = CELLS['ortho'].dot(rot(90, 0, 0).T)
CELLS['fcc'] = 2.1 * np.array([[0., 1, 1], [1, 0, 1], [1, 1, 0]])

def vcells(base, n, how='gen', amp=0.05):
    """n different cells: scaled, sheared at constant volume, rotated (same
    lengths and angles), all of that, or only the last one different"""
    out = []
    for t in range(n):
        k = t if how != 'last' else (t == n - 1) * 1.0
        m = np.identity(3)
        if how in ('shear', 'gen', 'last'):
            m = np.array([[1, 1.1 * amp * k, 0], [0, 1, -0.7 * amp * k], [0.4 * amp * k, 0, 1]])
            m = m / np.linalg.det(m) ** (1 / 3.)
        if how in ('scale', 'gen'):
            m = m * (1 + amp * k)
        if how in ('rot', 'gen'):
            m = m.dot(rot(10 * k, 20 * k, -15 * k).T)
        out.append(np.asarray(base).dot(m))
    return np.array(out)

def gen_frac(n, seed=0, lo=-0.3, hi=1.4):
    """generic coordinates (irrational-looking, fixed)"""
    k = np.arange(1, 3 * n + 1) + 7 * seed
    x = (np.sqrt(2.0) * k + np.sqrt(3.0) * k * k / 7.0) % 1.0
    return lo + (hi - lo) * x.reshape(n, 3)

def gen_arr(shape, seed=0, lo=-1.0, hi=1.0):
    n = int(np.prod(shape)) if len(shape) else 1
    k = np.arange(1, n + 1) + 13 * seed
    x = (np.sqrt(5.0) * k + np.sqrt(7.0) * k * k / 11.0) % 1.0
    return (lo + (hi - lo) * x).reshape(shape)

MASS = {'H': 1.00794, 'O': 15.9994, 'Al': 26.9815386, 'N': 14.0067, 'C': 12.0107, 'Si': 28.0855}
Z = {'H': 1, 'C': 6, 'N': 7, 'O': 8, 'Al': 13, 'Si': 14}
AMU, FS, ANG, EV, KB = 1.660538782e-27, 1e-15, 1e-10, 1.602176487e-19, 1.3806504e-23

def sym_attrs(sy):
    u = sorted(set(sy))
    order = {s: i + 1 for i, s in enumerate(u)}
    return dict(symbols=list(sy), symbols_unique=u, order=order, typat=[order[s] for s in sy],
                znucl=[Z[s] for s in sy], znucl_unique=[Z[s] for s in u], ntypat=len(u),
                nspecies={s: list(sy).count(s) for s in u}, natoms=len(sy))

def velocity(coords, dt):
    n = len(coords)
    v = np.empty(coords.shape)
    for i in range(1, n - 1):
        v[i] = (coords[i + 1] - coords[i - 1]) / (2.0 * dt)
    v[0], v[-1] = v[1], v[-2]
    return v

def ekin(v, masses):
    out = []
    for t in range(len(v)):
        s = 0.0
        for i, m in enumerate(masses):
            s += 0.5 * m * AMU * sum(float(x) ** 2 for x in v[t, i]) * (ANG / FS) ** 2
        out.append(s / EV)
    return np.array(out)

def temperature(ek, natoms):
    return np.array([2.0 * e * EV / (3.0 * natoms * KB) for e in ek])
