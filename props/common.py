"""Builders of small real grids used by the bounded companions (no use of the code under test)."""
import numpy as np


def tri_mesh(rng, nx, ny, jitter=.25, rot=0.0, shear=0.0, scale=1.0, off=(0., 0.), shuffle=True, mixed=True, flip=.5):
    """nodes, faces, rect: a triangulated nx*ny block of points; every point of the convex interior region is covered"""
    xs, ys = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
    P = np.column_stack([xs.ravel(), ys.ravel()])
    for k in range(len(P)):
        i, j = k % nx, k // nx
        if 0 < i < nx - 1 and 0 < j < ny - 1:
            P[k] += [rng.uniform(-jitter, jitter), rng.uniform(-jitter, jitter)]
    tris = []
    for j in range(ny - 1):
        for i in range(nx - 1):
            a, b, c, d = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            q = [[a, b, c], [a, c, d]] if (rng.random() < .5 or not mixed) else [[a, b, d], [b, c, d]]
            for t in q:
                r = rng.randrange(3)
                t = t[r:] + t[:r]
                if rng.random() < flip:
                    t = [t[0], t[2], t[1]]
                tris.append(t)
    perm = list(range(len(P)))
    if shuffle:
        rng.shuffle(perm)
        rng.shuffle(tris)
    inv = np.empty(len(P), dtype=int)
    for new, old in enumerate(perm):
        inv[old] = new
    P = P[perm]
    F = inv[np.array(tris)]
    c, s = np.cos(rot), np.sin(rot)
    A = np.array([[c, -s], [s, c]]) @ np.array([[1, shear], [0, 1.0]]) * scale
    return P @ A.T + np.array(off), F.astype(np.int32), (A, np.array(off), nx, ny)


def place(rect, u, v):
    """physical position of block coordinates (u, v)"""
    A, off, nx, ny = rect
    return (np.column_stack([u, v]) @ A.T) + off


def inside(rng, rect, n, margin=1e-3):
    A, off, nx, ny = rect
    u = np.array([rng.uniform(margin, nx - 1 - margin) for _ in range(n)])
    v = np.array([rng.uniform(margin, ny - 1 - margin) for _ in range(n)])
    return place(rect, u, v)


def outside(rng, rect, n):
    A, off, nx, ny = rect
    out = []
    for _ in range(n):
        s = rng.randrange(4)
        d = rng.choice([.05, 1, 30])
        u, v = rng.uniform(-d, nx - 1 + d), rng.uniform(-d, ny - 1 + d)
        if s == 0:
            u = -d
        elif s == 1:
            u = nx - 1 + d
        elif s == 2:
            v = -d
        else:
            v = ny - 1 + d
        out.append((u, v))
    out = np.array(out).reshape(-1, 2)
    return place(rect, out[:, 0], out[:, 1])


def block(rng, nx, ny, rot=0.0, shear=0.0, scale=1.0, off=(0., 0.), dx=None, dy=None):
    """node_lon, node_lat of a logically rectangular block (parallelogram cells), rect"""
    gx = np.concatenate([[0], np.cumsum(dx if dx is not None else np.ones(nx - 1))])
    gy = np.concatenate([[0], np.cumsum(dy if dy is not None else np.ones(ny - 1))])
    U, Vv = np.meshgrid(gx, gy)
    c, s = np.cos(rot), np.sin(rot)
    A = np.array([[c, -s], [s, c]]) @ np.array([[1, shear], [0, 1.0]]) * scale
    P = np.column_stack([U.ravel(), Vv.ravel()]) @ A.T + np.array(off)
    return P[:, 0].reshape(U.shape), P[:, 1].reshape(U.shape), (A, np.array(off), gx, gy)


def bary(tri, p):
    """barycentric coordinates of p in triangle tri (3x2), solved directly"""
    T = np.vstack([tri.T, np.ones(3)])
    return np.linalg.solve(T, np.array([p[0], p[1], 1.0]))


def quads(rng, nx, ny, jitter=.2, rot=0.0, shear=0.0, scale=1.0, off=(0., 0.), flip=False):
    """node_lon, node_lat (ny, nx) of a curvilinear block: convex quadrilaterals, straight outline; rect as for tri_mesh"""
    U, W = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
    for j in range(1, ny - 1):
        for i in range(1, nx - 1):
            U[j, i] += rng.uniform(-jitter, jitter)
            W[j, i] += rng.uniform(-jitter, jitter)
    c, s = np.cos(rot), np.sin(rot)
    A = np.array([[c, -s], [s, c]]) @ np.array([[1, shear], [0, 1.0]]) * scale @ np.array([[1, 0], [0, -1. if flip else 1.]])
    P = np.column_stack([U.ravel(), W.ravel()]) @ A.T + np.array(off)
    return P[:, 0].reshape(U.shape), P[:, 1].reshape(U.shape), (A, np.array(off), nx, ny)


def in_convex(poly, p, tol):
    """is p inside the convex polygon, up to tol"""
    s = []
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        e = b - a
        s.append((e[0] * (p[1] - a[1]) - e[1] * (p[0] - a[0])) / np.hypot(*e))
    return min(s) >= -tol or max(s) <= tol


WARM = [None, None, None, "perm", "dup", "prefix", "middle", "moved", "all"]


def earlier(warm, pts):
    """points of queries asked before the one that is judged: the answer must not depend on them"""
    pts = np.asarray(pts)
    if warm is None:
        return []
    out = dict(perm=pts[::-1].copy(), dup=np.repeat(pts[:1], len(pts), axis=0), prefix=pts[:max(1, len(pts) - 1)].copy(),
               middle=np.concatenate([pts[:1], pts[1:-1][::-1], pts[-1:]]) if len(pts) > 2 else pts[::-1].copy(),
               moved=np.roll(pts, 1, axis=0))
    return list(out.values()) if warm == "all" else [out[warm]]
