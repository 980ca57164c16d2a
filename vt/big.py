"""TT algebra in numpy for objects too large to be dense (plain lists of cores, no batches)."""
import numpy as np


def flat(cores):
    """Merges row and column modes, in float64."""
    return [np.asarray(c, float).reshape(c.shape[0], -1, c.shape[-1]) for c in cores]


def add(a, b):
    res = []
    d = len(a)
    for k, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if d == 1:
            res.append(x + y)
        elif k == 0:
            res.append(np.concatenate([x, y], -1))
        elif k == d - 1:
            res.append(np.concatenate([x, y], 0))
        else:
            z = np.zeros((x.shape[0] + y.shape[0],) + x.shape[1:-1] + (x.shape[-1] + y.shape[-1],))
            z[:x.shape[0], ..., :x.shape[-1]] = x
            z[x.shape[0]:, ..., x.shape[-1]:] = y
            res.append(z)
    return res


def scale(a, s):
    return [np.asarray(a[0], float) * s] + [np.asarray(c, float) for c in a[1:]]


def mul(a, b):
    shapes = [c.shape for c in a]
    return [np.einsum('aib,cid->acibd', x, y).reshape((x.shape[0] * y.shape[0],) + s[1:-1] + (x.shape[2] * y.shape[2],))
            for x, y, s in zip(flat(a), flat(b), shapes)]


def matmul(a, b):
    res = []
    for x, y in zip(a, b):
        z = np.einsum('aijb,cjkd->acikbd', np.asarray(x, float), np.asarray(y, float))
        s = z.shape
        res.append(z.reshape(s[0] * s[1], s[2], s[3], s[4] * s[5]))
    return res


def transpose(a):
    return [c.transpose(0, 2, 1, 3) for c in a]


def dot(a, b):
    g = np.ones((1, 1))
    for x, y in zip(flat(a), flat(b)):
        g = np.einsum('ac,aib,cid->bd', g, x, y, optimize=True)
    return float(g[0, 0])


def interfaces(a):
    """Frobenius norms of left and right interface matrices."""
    f = flat(a)
    left, right = [1.], [1.]
    g = np.ones((1, 1))
    for c in f:
        g = np.einsum('ac,aib,cid->bd', g, c, c, optimize=True)
        left.append(np.sqrt(max(np.trace(g), 0.)))
    g = np.ones((1, 1))
    for c in reversed(f):
        g = np.einsum('bd,aib,cid->ac', g, c, c, optimize=True)
        right.append(np.sqrt(max(np.trace(g), 0.)))
    return left, right[::-1]


def dot_scale(*tts):
    """Sum over cuts of products of interface norms: error scale of a chain contraction."""
    ls, rs = zip(*[interfaces(t) for t in tts])
    d = len(tts[0])
    tot = 0.
    for k in range(d + 1):
        v = 1.
        for l, r in zip(ls, rs):
            v *= l[k] * r[k]
        tot += v
    return tot


def path(a, w):
    """Contracts the merged mode of every core with a vector (or picks an index)."""
    res = []
    for c, v in zip(flat(a), w):
        if np.ndim(v) == 0:
            res.append(c[:, int(v):int(v) + 1, :])
        else:
            res.append(np.einsum('aib,i->ab', c, v)[:, None, :])
    return res


def value(p):
    """The number a TT with modes of size one stands for."""
    g = np.ones((1, 1))
    for c in p:
        g = g @ c[:, 0, :]
    return float(g[0, 0])


def norm(a):
    """Norm by orthogonalization: accurate also under cancellation."""
    g = np.ones((1, 1))
    for c in flat(a):
        m = np.tensordot(g, c, 1).reshape(-1, c.shape[-1])
        g = np.linalg.qr(m, 'r')
    return float(np.linalg.norm(g))


def diff(a, b):
    return norm(add(flat(a), scale(flat(b), -1.)))


def left_orth(a):
    """Left-orthogonal cores spanning the left interfaces, last core not orthogonalized."""
    res = []
    g = np.ones((1, 1))
    f = flat(a)
    for k, c in enumerate(f):
        c = np.tensordot(g, c, 1)
        if k < len(f) - 1:
            q, g = np.linalg.qr(c.reshape(-1, c.shape[-1]))
            res.append(q.reshape(c.shape[0], c.shape[1], -1))
        else:
            res.append(c)
    return res


def right_orth(a):
    b = left_orth([c.transpose(2, 1, 0) for c in flat(a)[::-1]])
    return [c.transpose(2, 1, 0) for c in b[::-1]]


def condition(a):
    """Largest ratio of the norm to a smallest interface singular value."""
    u = left_orth(a)
    nrm = np.linalg.norm(u[-1])
    g = np.ones((1, 1))
    worst = 1.
    for k in range(len(u) - 1, 0, -1):
        c = np.tensordot(u[k], g, 1)
        m = c.reshape(c.shape[0], -1)
        uu, s, _ = np.linalg.svd(m, full_matrices=False)
        if m.shape[0] > m.shape[1]:
            return np.inf
        worst = max(worst, nrm / max(s[-1], 1e-300))
        g = uu * s
    return worst


def project(z, x):
    """Cores of the projection of z onto the tangent space at x (full-rank interfaces)."""
    u, v, z = left_orth(x), right_orth(x), flat(z)
    d = len(u)
    l = [np.ones((1, 1))]
    for k in range(d - 1):
        l.append(np.einsum('ac,aib,cid->bd', l[-1], u[k], z[k], optimize=True))
    r = [np.ones((1, 1))]
    for k in range(d - 1, 0, -1):
        r.append(np.einsum('bd,aib,cid->ac', r[-1], v[k], z[k], optimize=True))
    r = r[::-1]
    res = []
    for k in range(d):
        dl = np.einsum('ac,cid->aid', l[k], z[k])
        if k < d - 1:
            dl = dl - np.einsum('aib,bc->aic', u[k], np.einsum('aib,aid->bd', u[k], dl))
        dl = np.einsum('aid,bd->aib', dl, r[k])
        if d == 1:
            res.append(dl)
        elif k == 0:
            res.append(np.concatenate([dl, u[k]], -1))
        elif k == d - 1:
            res.append(np.concatenate([v[k], dl], 0))
        else:
            c = np.zeros((v[k].shape[0] + dl.shape[0], dl.shape[1], v[k].shape[2] + u[k].shape[2]))
            c[:v[k].shape[0], :, :v[k].shape[2]] = v[k]
            c[v[k].shape[0]:, :, :v[k].shape[2]] = dl
            c[v[k].shape[0]:, :, v[k].shape[2]:] = u[k]
            res.append(c)
    return res
