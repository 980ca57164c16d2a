"""Reference model: numpy float64 meaning of TT objects and error scales.

Nothing here uses t3f; arguments are plain lists of numpy cores.
"""
import numpy as np

EPS = {'float32': float(np.finfo(np.float32).eps),
       'float64': float(np.finfo(np.float64).eps)}
TINY = {'float32': float(np.finfo(np.float32).tiny),
        'float64': float(np.finfo(np.float64).tiny)}


def np_cores(tt):
    """Numpy copies of the cores of a library object."""
    return [np.array(c.numpy() if hasattr(c, 'numpy') else c) for c in tt.tt_cores]


def modes(cores, batch):
    """Raw shape seen in cores: list (one entry per mode group) of lists."""
    off = 1 if batch else 0
    k = cores[0].ndim - 2 - off
    return [[c.shape[1 + off + i] for c in cores] for i in range(k)]


def ranks(cores, batch):
    off = 1 if batch else 0
    return [c.shape[off] for c in cores] + [cores[-1].shape[-1]]


def _single(cores):
    """Dense value of a non-batch list of 3d or 4d cores in float64."""
    matrix = cores[0].ndim == 4
    res = None
    for c in cores:
        c = np.asarray(c, dtype=np.float64)
        m = c.reshape(c.shape[0], -1)
        if res is None:
            if c.shape[0] != 1:
                raise ValueError('first rank is not one')
            res = m.reshape(-1, c.shape[-1])
        else:
            res = res @ m
            res = res.reshape(-1, c.shape[-1])
    if res.shape[-1] != 1:
        raise ValueError('last rank is not one')
    if not matrix:
        return res.reshape([c.shape[1] for c in cores])
    d = len(cores)
    ns = [c.shape[1] for c in cores]
    ms = [c.shape[2] for c in cores]
    full = res.reshape([x for p in zip(ns, ms) for x in p])
    full = full.transpose(list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))
    return full.reshape(int(np.prod(ns)), int(np.prod(ms)))


def dense(cores, batch=False):
    if batch:
        bs = {c.shape[0] for c in cores}
        if len(bs) != 1:
            raise ValueError('cores have different batch sizes %s' % bs)
        n = bs.pop()
        return np.stack([_single([c[i] for c in cores]) for i in range(n)]) if n else \
            np.zeros((0,))
    return _single(cores)


def absdense(cores, batch=False):
    return dense([np.abs(np.asarray(c, np.float64)) for c in cores], batch)


def depth(*core_lists):
    """A generous count of roundings along the longest dependency chain."""
    s = 16
    n = max(len(c) for c in core_lists)
    for k in range(n):
        r = 1
        m = 1
        for cl in core_lists:
            if k < len(cl):
                r *= max(cl[k].shape[-1], 1)
                m = max(m, int(np.prod(cl[k].shape[-3:-1])))
        s += r + m
    return float(s)


def interfaces_scale(cores):
    """sum_k |L_k|_F |R_k|_F over all interfaces (incl. trivial ones), non-batch.

    Error scale of QR/SVD sweeps that carry factors along the chain.
    """
    d = len(cores)
    cs = [np.asarray(c, np.float64).reshape(c.shape[0], -1, c.shape[-1]) for c in cores]
    # Scale every core to avoid overflow.
    sc = [np.max(np.abs(c)) if c.size else 0. for c in cs]
    if any(s == 0 for s in sc):
        return 0.
    cs = [c / s for c, s in zip(cs, sc)]
    left = [np.ones((1, 1))]
    for c in cs:
        left.append(np.einsum('ab,aic,bid->cd', left[-1], c, c, optimize=True))
    right = [np.ones((1, 1))]
    for c in reversed(cs):
        right.append(np.einsum('cd,aic,bid->ab', right[-1], c, c, optimize=True))
    right = right[::-1]
    tot = 0.
    for k in range(d + 1):
        tot += np.sqrt(max(np.trace(left[k]), 0) * max(np.trace(right[k]), 0))
    # Also the norms when a factor is carried inside a core.
    return float(tot * np.prod(sc))


def element(cores, i):
    return [c[i] for c in cores]


def as_tensor(cores):
    """Dense tensor with one axis of size n*m per core (for matrices too)."""
    return _single([np.asarray(c).reshape(c.shape[0], -1, c.shape[-1]) for c in cores])


def dense_to_tensor(x, ns, ms):
    """Matrix (prod ns x prod ms) -> tensor with axes n_k*m_k."""
    d = len(ns)
    x = np.asarray(x).reshape(list(ns) + list(ms))
    perm = [p for k in range(d) for p in (k, d + k)]
    return x.transpose(perm).reshape([n * m for n, m in zip(ns, ms)])


def tensor_to_dense(x, ns, ms):
    d = len(ns)
    x = np.asarray(x).reshape([v for p in zip(ns, ms) for v in p])
    perm = list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2))
    return x.transpose(perm).reshape(int(np.prod(ns)), int(np.prod(ms)))


def unfold_svals(x):
    """Singular values of all unfoldings of a dense tensor."""
    x = np.asarray(x, np.float64)
    out = []
    for k in range(1, x.ndim):
        m = x.reshape(int(np.prod(x.shape[:k])), -1)
        out.append(np.linalg.svd(m, compute_uv=False))
    return out


def feasible_ranks(sizes):
    d = len(sizes)
    return [1] + [int(min(np.prod([float(s) for s in sizes[:k]]),
                          np.prod([float(s) for s in sizes[k:]]), 1e9))
                  for k in range(1, d)] + [1]


def tail(s, r):
    """Best rank-r error of a matrix with singular values s."""
    return float(np.sqrt(np.sum(s[r:] ** 2)))


class Projector(object):
    """Orthogonal projector on the tangent space of the TT manifold at dense x.

    rks: TT-ranks of the manifold (inner ones are used).  cond: the largest
    ratio of extreme singular values over the unfoldings.
    """

    def __init__(self, x, rks):
        x = np.asarray(x, np.float64)
        self.shape = x.shape
        d = x.ndim
        self.d = d
        self.u = [np.ones((1, 1))]
        self.v = []
        self.cond = 1.
        for k in range(1, d):
            m = x.reshape(int(np.prod(x.shape[:k])), -1)
            u, s, vt = np.linalg.svd(m, full_matrices=False)
            r = rks[k]
            if r > len(s):
                raise ValueError('rank not feasible')
            self.cond = max(self.cond, s[0] / s[r - 1] if s[r - 1] > 0 else np.inf)
            self.u.append(u[:, :r])
            self.v.append(vt[:r].T)
        self.v.append(np.ones((1, 1)))

    def __call__(self, z):
        z = np.asarray(z, np.float64).reshape(self.shape)
        sh = self.shape
        res = np.zeros(sh)
        for k in range(self.d):
            l = int(np.prod(sh[:k]))
            r = int(np.prod(sh[k + 1:]))
            t = z.reshape(l, sh[k], r)
            if k > 0:
                t = np.einsum('ab,cb,cir->air', self.u[k], self.u[k], t, optimize=True)
            if k < self.d - 1:
                t = np.einsum('air,rs,ts->ait', t, self.v[k], self.v[k], optimize=True)
            res += t.reshape(sh)
        for k in range(1, self.d):
            l = int(np.prod(sh[:k]))
            t = z.reshape(l, -1)
            t = self.u[k] @ (self.u[k].T @ t)
            t = (t @ self.v[k - 1]) @ self.v[k - 1].T
            res -= t.reshape(sh)
        return res


def core_grads(cores, g, absolute=False):
    """Derivatives of <G, value(cores)> w.r.t. every core (non-batch), float64.

    g: dense array of the shape of the value (matrix for 4d cores).
    absolute: the same with absolute values everywhere (error scales).
    """
    cs = [np.asarray(c, np.float64) for c in cores]
    g = np.asarray(g, np.float64)
    if absolute:
        cs = [np.abs(c) for c in cs]
        g = np.abs(g)
    if cs[0].ndim == 4:
        g = dense_to_tensor(g, [c.shape[1] for c in cs], [c.shape[2] for c in cs])
    fl = [c.reshape(c.shape[0], -1, c.shape[-1]) for c in cs]
    d = len(fl)
    left = [np.ones((1, 1))]
    for c in fl:
        left.append((left[-1] @ c.reshape(c.shape[0], -1)).reshape(-1, c.shape[-1]))
    right = [np.ones((1, 1))]
    for c in reversed(fl):
        right.append((c.reshape(-1, c.shape[-1]) @ right[-1]).reshape(c.shape[0], -1))
    right = right[::-1]
    out = []
    for k in range(d):
        t = g.reshape(left[k].shape[0], fl[k].shape[1], right[k + 1].shape[1])
        t = np.tensordot(left[k], t, axes=(0, 0))
        out.append(np.tensordot(t, right[k + 1], axes=(2, 1)).reshape(cs[k].shape))
    return out
