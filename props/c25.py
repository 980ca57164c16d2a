"""C25: pairs of a valid call and the same call with one defect; the former succeeds, the latter raises."""
import numpy as np
import tensorflow as tf
import t3f
import t3f.riemannian
import t3f.approximate
from t3f import ops as t3f_ops
from vt import gen, ref, mon

QUICK = 3000
THOROUGH = 20000


class Case(object):
    """Draws objects that share a shape; defects change one of them."""

    def __init__(self, rng):
        self.rng = rng
        self.dt = gen.pick(rng, ['float64', 'float32'])
        self.d = int(rng.integers(2, 5))

    def obj(self, raw, bs=None, dt=None, rks=None, rmax=3):
        return gen.obj(self.rng, raw=[list(g) for g in raw], bs=bs, dtype=dt or self.dt, rks=rks, rmax=rmax, style='normal',
                       container=gen.pick(self.rng, ['tf', 'np', 'var'], [3, 2, 1]))

    def tensor_raw(self):
        return [[int(v) for v in self.rng.integers(2, 5, size=self.d)]]

    def matrix_raw(self, square=False, col=False):
        n = [int(v) for v in self.rng.integers(2, 4, size=self.d)]
        m = list(n) if square else [1] * self.d if col else [int(v) for v in self.rng.integers(2, 4, size=self.d)]
        return [n, m]

    def raw(self, kind):
        return self.tensor_raw() if kind == 'tensor' else self.matrix_raw()

    def grown(self, raw):
        """Another size in one mode of one group."""
        raw = [list(g) for g in raw]
        raw[int(self.rng.integers(len(raw)))][int(self.rng.integers(self.d))] += 1
        return raw

    def shrunk(self, raw):
        """Size one in a mode: the case arrays would broadcast."""
        raw = [list(g) for g in raw]
        k = int(self.rng.integers(self.d))
        g = gen.pick(self.rng, [g for g in raw if g[k] > 1] or [raw[0]])
        if g[k] == 1:
            g[k] = 2
        else:
            g[k] = 1
        return raw

    def longer(self, raw):
        return [list(g) + [1] for g in raw]

    def shorter(self, raw):
        return [list(g)[:-1] for g in raw]

    def permuted(self, raw):
        """The same total size factorised differently, or None."""
        out = [list(g)[::-1] for g in raw]
        return out if out != [list(g) for g in raw] else None

    def bad_shapes(self, raw):
        out = [('another mode size', self.grown(raw)), ('size one in a mode', self.shrunk(raw)),
               ('one more core', self.longer(raw)), ('one core less', self.shorter(raw))]
        if self.permuted(raw):
            out.append(('modes in another order', self.permuted(raw)))
        return out

    def kind(self):
        return gen.pick(self.rng, ['tensor', 'matrix'])

    def bs(self):
        return int(self.rng.integers(2, 6))


PAIRS = {}


def pair(name, weight=1):
    def deco(f):
        PAIRS[name] = (f, weight)
        return f
    return deco


def other_kind(c, raw):
    return c.obj([raw[0], raw[0]]) if len(raw) == 1 else c.obj([raw[0]])


def binary(name, f, batches=True):
    @pair(name, 3)
    def _(c):
        kind = c.kind()
        raw = c.raw(kind)
        n = c.bs()
        ba, bb = gen.pick(c.rng, [(None, None), (None, n), (n, None), (n, n), (1, n), (n, 1)]) if batches else (None, None)
        a, good = c.obj(raw, ba), c.obj(raw, bb)
        bad = [(w, lambda r=r: f(a.tt, c.obj(r, bb).tt)) for w, r in c.bad_shapes(raw)]
        bad += [('shapes swapped: ' + w, lambda r=r: f(c.obj(r, ba).tt, good.tt)) for w, r in c.bad_shapes(raw)]
        bad.append(('tensor and matrix', lambda: f(a.tt, other_kind(c, raw).tt)))
        bad.append(('matrix and tensor', lambda: f(other_kind(c, raw).tt, a.tt)))
        bad.append(('another dtype', lambda: f(a.tt, c.obj(raw, bb, dt='float32' if c.dt == 'float64' else 'float64').tt)))
        if ba is not None and batches:
            m = ba + 1 if ba > 1 else n
            x = c.obj(raw, m if m > 1 else 2)
            y = c.obj(raw, x.bs + gen.pick(c.rng, [1, 2]))
            bad.append(('batch sizes %d and %d' % (x.bs, y.bs), lambda: f(x.tt, y.tt)))
            bad.append(('batch sizes %d and %d' % (y.bs, x.bs), lambda: f(y.tt, x.tt)))
        return lambda: f(a.tt, good.tt), bad


binary('add', lambda a, b: t3f.add(a, b))
binary('operator +', lambda a, b: a + b)
binary('operator -', lambda a, b: a - b)
binary('multiply', lambda a, b: t3f.multiply(a, b))
binary('operator *', lambda a, b: a * b)
binary('flat_inner', lambda a, b: t3f.flat_inner(a, b))


@pair('flat_inner of wrong types')
def _(c):
    a = c.obj(c.raw('tensor'))
    return lambda: t3f.flat_inner(a.tt, a.tt), [
        ('a number', lambda: t3f.flat_inner(a.tt, 3.)), ('a list', lambda: t3f.flat_inner(a.tt, [1., 2.])),
        ('None', lambda: t3f.flat_inner(a.tt, None)), ('string', lambda: t3f.flat_inner('a', a.tt))]


@pair('sparse flat_inner')
def _(c):
    raw = c.raw(c.kind())
    a = c.obj(raw)
    sh = a.dense().shape
    idx = np.stack([c.rng.integers(0, s, 3) for s in sh], 1).astype(np.int64)
    idx = idx[np.lexsort(idx.T[::-1])]

    def sp(i, shape, dt=c.dt):
        return tf.SparseTensor(i, np.ones(len(i), gen.NPD[dt]), shape)
    far = idx.copy()
    far[0, 0] = sh[0]
    inside = [('an index outside of the shape', lambda: t3f.flat_inner(a.tt, sp(far, sh)))] if len(raw) == 1 else []
    return lambda: t3f.flat_inner(a.tt, sp(idx, sh)), inside + [
        ('an index out of range', lambda: t3f.flat_inner(a.tt, sp(far, [sh[0] + 1] + list(sh[1:])))),
        ('another number of axes', lambda: t3f.flat_inner(a.tt, sp(np.concatenate([idx, idx[:, :1] * 0], 1), list(sh) + [1]))),
        ('another dtype', lambda: t3f.flat_inner(a.tt, sp(idx, sh, 'float32' if c.dt == 'float64' else 'float64')))]


@pair('matmul', 3)
def _(c):
    ra, rb = c.matrix_raw(), c.matrix_raw()
    rb = [ra[1], rb[1]]
    n = c.bs()
    ba, bb = gen.pick(c.rng, [(None, None), (None, n), (n, None), (n, n), (1, n)])
    a, b = c.obj(ra, ba), c.obj(rb, bb)
    f = lambda x, y: t3f.matmul(x, y)
    k = int(c.rng.integers(c.d))
    grown = [list(rb[0]), rb[1]]
    grown[0][k] += 1
    one = [list(rb[0]), rb[1]]
    one[0][k] = 1
    bad = [('another inner size', lambda: f(a.tt, c.obj(grown, bb).tt)), ('inner size one', lambda: f(a.tt, c.obj(one, bb).tt)),
           ('inner size one on the left', lambda: f(c.obj([ra[0], one[0]], ba).tt, b.tt)),
           ('one more core', lambda: f(a.tt, c.obj(c.longer(rb), bb).tt)),
           ('one core less', lambda: f(c.obj(c.shorter(ra), ba).tt, b.tt)),
           ('a tensor on the right', lambda: f(a.tt, c.obj([ra[1]]).tt)),
           ('a tensor on the left', lambda: f(c.obj([rb[0]]).tt, b.tt)),
           ('another dtype', lambda: f(a.tt, c.obj(rb, bb, dt='float32' if c.dt == 'float64' else 'float64').tt)),
           ('different batch sizes', lambda: f(c.obj(ra, 2).tt, c.obj(rb, 3).tt)),
           ('a number', lambda: f(a.tt, 2.)), ('None', lambda: f(None, b.tt))]
    if ra[1][::-1] != ra[1]:
        bad.append(('inner sizes in another order', lambda: f(a.tt, c.obj([ra[1][::-1], rb[1]], bb).tt)))
    return lambda: f(a.tt, b.tt), bad


@pair('matmul with dense', 2)
def _(c):
    a = c.obj(c.matrix_raw())
    m, n = a.dense().shape
    t = c.obj(c.tensor_raw())
    dn = lambda *s: tf.constant(c.rng.standard_normal(s).astype(gen.NPD[c.dt]))
    od = tf.float32 if c.dt == 'float64' else tf.float64
    p = int(c.rng.integers(1, 4))
    if c.rng.random() < .5:
        return lambda: t3f.matmul(a.tt, dn(n, p)), [
            ('one more row', lambda: t3f.matmul(a.tt, dn(n + 1, p))), ('one row', lambda: t3f.matmul(a.tt, dn(1, n * p))),
            ('twice the rows', lambda: t3f.matmul(a.tt, dn(2 * n, p))), ('a vector', lambda: t3f.matmul(a.tt, dn(n))),
            ('a 3-d array', lambda: t3f.matmul(a.tt, dn(n, p, 2))),
            ('another dtype', lambda: t3f.matmul(a.tt, tf.ones([n, p], od))),
            ('a TT-tensor', lambda: t3f.matmul(t.tt, dn(int(np.prod(t.raw[0])), p)))]
    return lambda: t3f.matmul(dn(p, m), a.tt), [
        ('one more column', lambda: t3f.matmul(dn(p, m + 1), a.tt)), ('twice the columns', lambda: t3f.matmul(dn(p, 2 * m), a.tt)),
        ('a vector', lambda: t3f.matmul(dn(m), a.tt)), ('one column', lambda: t3f.matmul(dn(m * p, 1), a.tt)),
        ('another dtype', lambda: t3f.matmul(tf.ones([p, m], od), a.tt)),
        ('a TT-tensor', lambda: t3f.matmul(dn(p, int(np.prod(t.raw[0]))), t.tt))]


@pair('transpose')
def _(c):
    a, t = c.obj(c.matrix_raw()), c.obj(c.tensor_raw())
    return lambda: t3f.transpose(a.tt), [('a TT-tensor', lambda: t3f.transpose(t.tt)),
                                         ('a dense array', lambda: t3f.transpose(tf.ones([2, 2])))]


@pair('bilinear forms', 3)
def _(c):
    r = c.matrix_raw()
    a = c.obj(r)
    ones = [1] * c.d
    x, y = c.obj([r[0], ones]), c.obj([r[1], ones])
    if c.rng.random() < .3:
        q = c.matrix_raw(square=True)
        a = c.obj(q)
        x = c.obj([q[0], ones])
        f = t3f.quadratic_form
        return lambda: f(a.tt, x.tt, x.tt), [
            ('a tensor as matrix', lambda: f(c.obj([q[0]]).tt, x.tt, x.tt)),
            ('another size', lambda: f(a.tt, c.obj([c.grown([q[0]])[0], ones]).tt, x.tt)),
            ('size one', lambda: f(a.tt, x.tt, c.obj([c.shrunk([q[0]])[0], ones]).tt))]
    f = t3f.bilinear_form
    bad = []
    for w, s in c.bad_shapes([r[0]]):
        o1 = [1] * len(s[0])
        bad.append(('left: ' + w, lambda s=s, o1=o1: f(a.tt, c.obj([s[0], o1]).tt, y.tt)))
    for w, s in c.bad_shapes([r[1]]):
        o1 = [1] * len(s[0])
        bad.append(('right: ' + w, lambda s=s, o1=o1: f(a.tt, x.tt, c.obj([s[0], o1]).tt)))
    bad += [('a tensor as matrix', lambda: f(c.obj([r[0]]).tt, x.tt, y.tt)),
            ('a tensor as left vector', lambda: f(a.tt, c.obj([r[0]]).tt, y.tt)),
            ('a tensor as right vector', lambda: f(a.tt, x.tt, c.obj([r[1]]).tt)),
            ('batches of 2 and 3', lambda: f(a.tt, c.obj([r[0], ones], 2).tt, c.obj([r[1], ones], 3).tt)),
            ('another dtype', lambda: f(a.tt, x.tt, c.obj([r[1], ones], dt='float32' if c.dt == 'float64' else 'float64').tt))]
    return lambda: f(a.tt, x.tt, y.tt), bad


@pair('gather_nd', 2)
def _(c):
    raw = c.tensor_raw()
    n = c.bs() if c.rng.random() < .4 else None
    a = c.obj(raw, n)
    sh = list(raw[0]) if n is None else [n] + list(raw[0])
    idx = np.stack([c.rng.integers(0, s, 3) for s in sh], 1)
    k = int(c.rng.integers(len(sh)))
    far = idx.copy()
    far[1, k] = sh[k]
    neg = idx.copy()
    neg[1, k] = -sh[k] - 1
    g = lambda i: t3f.gather_nd(a.tt, i)
    m = c.obj(c.matrix_raw())
    return lambda: g(idx), [('index out of range', lambda: g(far)), ('index below the range', lambda: g(neg)),
                            ('one index less', lambda: g(idx[:, :-1])), ('one index more', lambda: g(np.concatenate([idx, idx[:, :1] * 0], 1))),
                            ('a TT-matrix', lambda: t3f.gather_nd(m.tt, idx[:, :c.d])),
                            ('float indices', lambda: g(idx.astype(float)))]


@pair('slicing', 2)
def _(c):
    raw = c.tensor_raw()
    n = c.bs() if c.rng.random() < .4 else None
    a = c.obj(raw, n)
    sh = list(raw[0]) if n is None else [n] + list(raw[0])
    key = [slice(None)] * len(sh)
    k = int(c.rng.integers(len(sh)))

    def at(v):
        q = list(key)
        q[k] = v
        return tuple(q)
    m = c.obj(c.matrix_raw())
    return lambda: a.tt[at(int(sh[k]) - 1)], [
        ('index out of range', lambda: a.tt[at(int(sh[k]))]), ('index below the range', lambda: a.tt[at(-int(sh[k]) - 1)]),
        ('one index more', lambda: a.tt[tuple(key) + (slice(None),)]), ('one index less', lambda: a.tt[tuple(key)[:-1]] if len(key) > 2 else a.tt[()]),
        ('a TT-matrix', lambda: m.tt[(slice(None),) * c.d]), ('string', lambda: a.tt[at('x')])]


@pair('concat_along_batch_dim', 2)
def _(c):
    raw = c.raw(c.kind())
    a = c.obj(raw, c.bs())
    b = c.obj(raw, c.bs(), rks=a.ranks)
    f = t3f.concat_along_batch_dim
    rk = [1] + [r + 1 for r in a.ranks[1:-1]] + [1]
    bad = [(w, lambda r=r: f([a.tt, c.obj(r, 2, rks=a.ranks[:len(r[0])] + [1]).tt])) for w, r in c.bad_shapes(raw) if len(r[0]) <= c.d]
    bad += [('other ranks', lambda: f([a.tt, c.obj(raw, 2, rks=rk).tt])), ('an object without batch', lambda: f([a.tt, c.obj(raw, rks=a.ranks).tt])),
            ('another dtype', lambda: f([a.tt, c.obj(raw, 2, rks=a.ranks, dt='float32' if c.dt == 'float64' else 'float64').tt])),
            ('tensor and matrix', lambda: f([a.tt, gen.obj(c.rng, raw=[raw[0], raw[0]] if len(raw) == 1 else [raw[0]], bs=2, dtype=c.dt, rks=a.ranks, style='normal').tt]))]
    return lambda: f([a.tt, b.tt]), bad


@pair('multiply_along_batch_dim')
def _(c):
    n = c.bs()
    a = c.obj(c.raw(c.kind()), n)
    w = lambda *s: c.rng.standard_normal(s).astype(gen.NPD[c.dt])
    f = lambda x: t3f.multiply_along_batch_dim(a.tt, x)
    return lambda: f(w(n)), [('one weight more', lambda: f(w(n + 1))), ('one weight less', lambda: f(w(n - 1)) if n > 2 else f(w(n + 2)))]


@pair('pairwise_flat_inner', 2)
def _(c):
    raw = c.raw(c.kind())
    a, b = c.obj(raw, c.bs()), c.obj(raw, c.bs())
    f = t3f.pairwise_flat_inner
    bad = [(w, lambda r=r: f(a.tt, c.obj(r, 2).tt)) for w, r in c.bad_shapes(raw) if len(r[0]) == c.d]
    bad.append(('another dtype', lambda: f(a.tt, c.obj(raw, 2, dt='float32' if c.dt == 'float64' else 'float64').tt)))
    return lambda: f(a.tt, b.tt), bad


@pair('pairwise_flat_inner with a matrix', 2)
def _(c):
    r = c.matrix_raw()
    ones = [1] * c.d
    a, b, m = c.obj([r[0], ones], c.bs()), c.obj([r[1], ones], c.bs()), c.obj(r)
    f = t3f.pairwise_flat_inner
    wide = [1] * c.d
    wide[0] = 2
    bad = [('left: another size', lambda: f(c.obj([c.grown([r[0]])[0], ones], 2).tt, b.tt, m.tt)),
           ('right: another size', lambda: f(a.tt, c.obj([c.grown([r[1]])[0], ones], 2).tt, m.tt)),
           ('left: size one', lambda: f(c.obj([c.shrunk([r[0]])[0], ones], 2).tt, b.tt, m.tt)),
           ('tensors', lambda: f(c.obj([r[0]], 2).tt, c.obj([r[1]], 2).tt, m.tt)),
           ('a tensor as the matrix', lambda: f(a.tt, b.tt, c.obj([r[0]]).tt)),
           ('left is a matrix', lambda: f(c.obj([r[0], wide], 2).tt, b.tt, m.tt)),
           ('right is a matrix', lambda: f(a.tt, c.obj([r[1], wide], 2).tt, m.tt))]
    return lambda: f(a.tt, b.tt, m.tt), bad


def rank_defects(c, d):
    return [('rank 0', 0), ('negative rank', -2), ('a zero in the list', [1] + [0] * (d - 1) + [1]), ('a list too short', [1] * d),
            ('a list too long', [1] * (d + 2)), ('a negative in the list', [1] + [2] * (d - 2) + [-1, 1])]


@pair('round', 2)
def _(c):
    n = c.bs() if c.rng.random() < .4 else None
    a = c.obj(c.raw(c.kind()), n)
    good = gen.pick(c.rng, [2, [1] + [2] * (c.d - 1) + [1], None])
    bad = [(w, lambda r=r: t3f.round(a.tt, max_tt_rank=r)) for w, r in rank_defects(c, c.d)]
    bad.append(('negative epsilon', lambda: t3f.round(a.tt, max_tt_rank=2, epsilon=-1.)))
    bad.append(('a dense array', lambda: t3f.round(tf.ones([2, 2]), max_tt_rank=2)))
    return lambda: t3f.round(a.tt, max_tt_rank=good), bad


@pair('to_tt_tensor', 2)
def _(c):
    x = c.rng.standard_normal(c.tensor_raw()[0]).astype(gen.NPD[c.dt])
    bad = [(w, lambda r=r: t3f.to_tt_tensor(x, max_tt_rank=r)) for w, r in rank_defects(c, c.d)]
    bad.append(('negative epsilon', lambda: t3f.to_tt_tensor(x, max_tt_rank=2, epsilon=-1e-3)))
    return lambda: t3f.to_tt_tensor(x, max_tt_rank=2), bad


@pair('to_tt_matrix', 2)
def _(c):
    r = c.matrix_raw()
    x = c.rng.standard_normal([int(np.prod(g)) for g in r]).astype(gen.NPD[c.dt])
    f = lambda s, k=3: t3f.to_tt_matrix(x, s, max_tt_rank=k)
    bad = [(w, lambda q=q: f(r, q)) for w, q in rank_defects(c, c.d)]
    bad += [('another row size', lambda: f([c.grown([r[0]])[0], r[1]])), ('another column size', lambda: f([r[0], c.grown([r[1]])[0]])),
            ('shapes of different length', lambda: f([r[0] + [1], r[1]])), ('a tensor shape', lambda: f(r[0] + r[1]))]
    if np.prod(r[0]) != np.prod(r[1]):
        bad.append(('rows and columns swapped', lambda: f([r[1], r[0]])))
    return lambda: f(r), bad


@pair('orthogonalize_tt_cores')
def _(c):
    a = c.obj(c.raw(c.kind()), c.bs())
    b = c.obj(c.raw('tensor'))
    return lambda: t3f.orthogonalize_tt_cores(a.tt), [
        ('right to left of a batch', lambda: t3f.orthogonalize_tt_cores(a.tt, left_to_right=False)),
        ('a dense array', lambda: t3f.orthogonalize_tt_cores(tf.ones([2, 2])))]


@pair('projections', 3)
def _(c):
    raw = c.raw(c.kind())
    w = c.obj(raw)
    n = c.bs()
    b = n if c.rng.random() < .5 else None
    od = 'float32' if c.dt == 'float64' else 'float64'
    if c.rng.random() < .5:
        f = t3f.project
        x = c.obj(raw, b)
        bad = [('the point is a batch', lambda: f(x.tt, c.obj(raw, 2).tt))]
    else:
        wt = c.rng.standard_normal(n).astype(gen.NPD[c.dt])
        f = lambda x, y: t3f.project_sum(x, y, wt)
        x = c.obj(raw, n)
        b = n
        bad = [('one weight more', lambda: t3f.project_sum(x.tt, w.tt, np.append(wt, wt[:1]))),
               ('one weight less', lambda: t3f.project_sum(x.tt, w.tt, wt[:-1])) if n > 2 else
               ('two weights more', lambda: t3f.project_sum(x.tt, w.tt, np.append(wt, wt[:2]))),
               ('the point is a batch', lambda: f(x.tt, c.obj(raw, 2).tt))]
    bad += [(s, lambda r=r: f(c.obj(r, b).tt, w.tt)) for s, r in c.bad_shapes(raw)]
    bad += [('point: ' + s, lambda r=r: f(x.tt, c.obj(r).tt)) for s, r in c.bad_shapes(raw) if len(r[0]) > 1]
    bad += [('another dtype', lambda: f(c.obj(raw, b, dt=od).tt, w.tt))]
    return lambda: f(x.tt, w.tt), bad


@pair('project_matmul', 2)
def _(c):
    n = [int(v) for v in c.rng.integers(2, 4, size=c.d)]
    ones = [1] * c.d
    m = c.obj([n, n])
    x, w = c.obj([n, ones]), c.obj([n, ones])
    f = t3f.project_matmul
    g = c.grown([n])[0]
    s = c.shrunk([n])[0]
    od = 'float32' if c.dt == 'float64' else 'float64'
    return lambda: f(x.tt, w.tt, m.tt), [
        ('another size', lambda: f(c.obj([g, ones]).tt, w.tt, m.tt)), ('point of another size', lambda: f(x.tt, c.obj([g, ones]).tt, m.tt)),
        ('matrix with other columns', lambda: f(x.tt, w.tt, c.obj([n, g]).tt)), ('matrix with other rows', lambda: f(x.tt, w.tt, c.obj([g, n]).tt)),
        ('matrix with a row mode of size one', lambda: f(x.tt, w.tt, c.obj([s, n]).tt)),
        ('matrix with a column mode of size one', lambda: f(x.tt, w.tt, c.obj([n, s]).tt)),
        ('the point is a batch', lambda: f(x.tt, c.obj([n, ones], 2).tt, m.tt)),
        ('a tensor as matrix', lambda: f(x.tt, w.tt, c.obj([n]).tt)),
        ('another dtype', lambda: f(x.tt, w.tt, c.obj([n, n], dt=od).tt))]


@pair('tangent space arithmetic', 2)
def _(c):
    raw = c.raw(c.kind())
    w, v = c.obj(raw), c.obj(raw)
    n = c.bs()
    x, y = c.obj(raw, n), c.obj(raw, n)
    p, q, o = t3f.project(x.tt, w.tt), t3f.project(y.tt, w.tt), t3f.project(x.tt, v.tt)
    if c.rng.random() < .5:
        f = t3f.pairwise_flat_inner_projected
        return lambda: f(p, q), [('projections on different points', lambda: f(p, o)), ('not a projection', lambda: f(p, y.tt)),
                                 ('not a projection first', lambda: f(x.tt, q))]
    f = t3f.add_n_projected
    return lambda: f([p, q]), [('projections on different points', lambda: f([p, o])), ('not a projection', lambda: f([p, y.tt])),
                               ('not a projection first', lambda: f([x.tt, q])), ('a third on another point', lambda: f([p, q, o]))]


@pair('deltas')
def _(c):
    raw = c.raw(c.kind())
    w, x = c.obj(raw), c.obj(raw)
    p = t3f.project(x.tt, w.tt)
    return lambda: t3f.tangent_space_to_deltas(p), [('not a projection', lambda: t3f.tangent_space_to_deltas(x.tt))]


@pair('automatic differentiation')
def _(c):
    raw = c.raw(c.kind())
    x, y = c.obj(raw), c.obj(raw)
    # The value must not depend on the cores themselves: the runtime check refuses it.
    bad_f = lambda t: tf.reduce_sum(t.tt_cores[0] ** 2) + t3f.flat_inner(t, y.tt)
    good = lambda t: t3f.flat_inner(t, y.tt)
    quad = lambda t: t3f.flat_inner(t, t)
    if c.rng.random() < .5:
        return lambda: t3f.gradients(quad, x.tt), [
            ('a function of the cores', lambda: t3f.gradients(bad_f, x.tt)),
            ('an object of another shape inside', lambda: t3f.gradients(lambda t: t3f.flat_inner(t, c.obj(c.grown(raw)).tt), x.tt))]
    return lambda: t3f.hessian_vector_product(quad, x.tt, y.tt), [
        ('a function of the cores', lambda: t3f.hessian_vector_product(bad_f, x.tt, y.tt)),
        ('a vector of another shape', lambda: t3f.hessian_vector_product(quad, x.tt, c.obj(c.grown(raw)).tt)),
        ('a vector with size one', lambda: t3f.hessian_vector_product(quad, x.tt, c.obj(c.shrunk(raw)).tt))]


@pair('approximate sums', 2)
def _(c):
    raw = c.raw(c.kind())
    if c.rng.random() < .5:
        a, b = c.obj(raw), c.obj(raw)
        f = lambda l: t3f.approximate.add_n(l, 3)
        bad = [(w, lambda r=r: f([a.tt, b.tt, c.obj(r).tt])) for w, r in c.bad_shapes(raw)]
        bad += [('tensor and matrix', lambda: f([a.tt, other_kind(c, raw).tt])), ('rank 0', lambda: t3f.approximate.add_n([a.tt, b.tt], 0)),
                ('negative rank', lambda: t3f.approximate.add_n([a.tt, b.tt], -1))]
        return lambda: f([a.tt, b.tt, a.tt]), bad
    n = c.bs()
    a = c.obj(raw, n)
    w = lambda *s: c.rng.standard_normal(s).astype(gen.NPD[c.dt])
    f = lambda k: t3f.approximate.reduce_sum_batch(a.tt, 3, k)
    good = w(n) if c.rng.random() < .5 else w(n, 2)
    return lambda: f(good), [
        ('one coefficient more', lambda: f(w(n + 1))), ('3-d coefficients', lambda: f(w(n, 2, 2))),
        ('one row more', lambda: f(w(n + 1, 2))), ('transposed coefficients', lambda: f(w(n + 2, n))), ('rank 0', lambda: t3f.approximate.reduce_sum_batch(a.tt, 0))]


@pair('kronecker', 3)
def _(c):
    n = [int(v) for v in c.rng.integers(1, 4, size=c.d)]
    name = gen.pick(c.rng, ['determinant', 'slog_determinant', 'inv', 'cholesky'])
    f = getattr(t3f.kronecker, name)
    b = c.bs() if c.rng.random() < .4 else None

    def make(rows, cols, rks, mat=True):
        return c.obj([rows, cols] if mat else [rows], b, rks=rks).tt
    one = [1] * (c.d + 1)
    two = list(one)
    two[int(c.rng.integers(1, c.d))] = 2
    # A positive definite matrix.
    cs = []
    for k in n:
        q = c.rng.standard_normal((b or 1, k, k))
        a = (np.einsum('bij,bkj->bik', q, q) + np.eye(k)).reshape(b or 1, 1, k, k, 1)
        cs.append(tf.constant((a if b is not None else a[0]).astype(gen.NPD[c.dt])))
    good = (t3f.TensorTrainBatch if b else t3f.TensorTrain)(cs)
    g = c.grown([n])[0]
    bad = [('TT-rank 2', lambda: f(make(n, n, two))), ('not square factors', lambda: f(make(n, g, one))),
           ('a TT-tensor', lambda: f(make(n, None, one, False)))]
    if n[::-1] != n:
        bad.append(('square but with factors that are not', lambda: f(make(n, n[::-1], one))))
    return lambda: f(good), bad


@pair('tensor initializers', 3)
def _(c):
    sh = c.tensor_raw()[0]
    b = c.bs()
    name = gen.pick(c.rng, ['random_tensor', 'tensor_with_random_cores', 'random_tensor_batch', 'tensor_batch_with_random_cores',
                            'tensor_ones', 'tensor_zeros', 'eye'])
    g = getattr(t3f, name)
    batch = 'batch' in name
    ranked = 'random' in name

    def f(s=sh, r=2, bs=b):
        kw = {'batch_size': bs} if batch else {}
        return g(s, r, **kw) if ranked else g(s)
    k = int(c.rng.integers(c.d))

    def at(v):
        s = list(sh)
        s[k] = v
        return s
    bad = [('size 0', lambda: f(at(0))), ('negative size', lambda: f(at(-3))), ('fractional size', lambda: f(at(2.5))),
           ('a 2-d shape', lambda: f([sh, sh]))]
    if ranked:
        bad += [(w, lambda r=r: f(r=r)) for w, r in rank_defects(c, c.d)]
        bad += [('fractional rank', lambda: f(r=2.5)), ('fractional rank in the list', lambda: f(r=[1] + [2.5] * (c.d - 1) + [1]))]
    if batch:
        bad += [('batch size 0', lambda: f(bs=0)), ('negative batch size', lambda: f(bs=-2)), ('fractional batch size', lambda: f(bs=2.5))]
    if name in ('random_tensor', 'random_tensor_batch'):
        bad.append(('mean', lambda: g(sh, 2, mean=1.)))
    return f, bad


@pair('matrix initializers', 3)
def _(c):
    sh = c.matrix_raw()
    b = c.bs()
    name = gen.pick(c.rng, ['random_matrix', 'matrix_with_random_cores', 'random_matrix_batch', 'matrix_batch_with_random_cores',
                            'matrix_ones', 'matrix_zeros', 'glorot_initializer', 'he_initializer', 'lecun_initializer'])
    g = getattr(t3f, name)
    batch = 'batch' in name
    ranked = name not in ('matrix_ones', 'matrix_zeros')

    def f(s=sh, r=2, bs=b):
        kw = {'batch_size': bs} if batch else {}
        return g(s, r, **kw) if ranked else g(s)
    k = int(c.rng.integers(c.d))
    w = int(c.rng.integers(2))

    def at(v):
        s = [list(x) for x in sh]
        s[w][k] = v
        return s
    bad = [('size 0', lambda: f(at(0))), ('negative size', lambda: f(at(-3))), ('fractional size', lambda: f(at(2.5))),
           ('a 1-d shape', lambda: f(sh[0])), ('different lengths', lambda: f([sh[0], sh[1] + [2]])), ('three groups', lambda: f([sh[0], sh[1], sh[0]]))]
    if ranked:
        bad += [(n, lambda r=r: f(r=r)) for n, r in rank_defects(c, c.d)]
        bad += [('fractional rank', lambda: f(r=2.5))]
    if batch:
        bad += [('batch size 0', lambda: f(bs=0)), ('negative batch size', lambda: f(bs=-2)), ('fractional batch size', lambda: f(bs=2.5))]
    if name in ('random_matrix', 'random_matrix_batch'):
        bad.append(('mean', lambda: g(sh, 2, mean=gen.pick(c.rng, [1., -.5]))))
    return f, bad


@pair('ones_like and zeros_like')
def _(c):
    a = c.obj(c.raw(c.kind()))
    f = gen.pick(c.rng, [t3f.ones_like, t3f.zeros_like])
    return lambda: f(a.tt), [('a dense array', lambda: f(tf.ones([2, 2]))), ('a list', lambda: f([1, 2])), ('None', lambda: f(None))]


@pair('queries')
def _(c):
    a, b = c.obj(c.raw(c.kind())), c.obj(c.raw(c.kind()), c.bs())
    f = gen.pick(c.rng, [t3f.batch_size, t3f.lazy_batch_size])
    return lambda: f(b.tt), [('no batch', lambda: f(a.tt))]


@pair('bilinear_form_two_mat', 2)
def _(c):
    p, q, r = [[int(v) for v in c.rng.integers(2, 4, size=c.d)] for _ in range(3)]
    ones = [1] * c.d
    f = t3f_ops.bilinear_form_two_mat
    x, A, B, y = c.obj([p, ones]), c.obj([p, q]), c.obj([q, r]), c.obj([r, ones])
    args = [x, A, B, y]

    def put(k, raw, **kw):
        a = [o.tt for o in args]
        a[k] = c.obj(raw, **kw).tt
        return f(*a)
    od = 'float32' if c.dt == 'float64' else 'float64'
    k = int(c.rng.integers(4))
    raws = [o.raw for o in args]
    bad = [(w, lambda s=s: put(k, s)) for w, s in c.bad_shapes(raws[k]) if w in ('one more core', 'one core less')]
    bad += [('another size of the left vector', lambda: put(0, [c.grown([p])[0], ones])), ('another size of the right vector', lambda: put(3, [c.grown([r])[0], ones])),
            ('another inner size', lambda: put(1, [p, c.grown([q])[0]])), ('inner size one', lambda: put(2, [c.shrunk([q])[0], r])),
            ('a tensor', lambda: put(k, [raws[k][0]])), ('another dtype', lambda: put(k, raws[k], dt=od))]
    return lambda: f(*[o.tt for o in args]), bad


@pair('variables', 2)
def _(c):
    raw = c.raw(c.kind())
    a = c.obj(raw)
    name = 'w%d' % int(c.rng.integers(1 << 30))
    od = 'float32' if c.dt == 'float64' else 'float64'
    if c.rng.random() < .4:
        return lambda: t3f.get_variable(name, initializer=a.tt), [
            ('no initializer', lambda: t3f.get_variable(name + 'x')),
            ('a dense initializer', lambda: t3f.get_variable(name + 'y', initializer=tf.ones([2, 2])))]
    v = t3f.get_variable(name, initializer=a.tt)
    good = c.obj(raw, rks=a.ranks)
    rk = [1] + [r + 1 for r in a.ranks[1:-1]] + [1]
    bad = [('another size', lambda: t3f.assign(v, c.obj(c.grown(raw), rks=a.ranks).tt)), ('other ranks', lambda: t3f.assign(v, c.obj(raw, rks=rk).tt)),
           ('another dtype', lambda: t3f.assign(v, c.obj(raw, rks=a.ranks, dt=od).tt)), ('size one', lambda: t3f.assign(v, c.obj(c.shrunk(raw), rks=a.ranks).tt)),
           ('a batch', lambda: t3f.assign(v, c.obj(raw, 2, rks=a.ranks).tt)), ('not a variable', lambda: t3f.assign(t3f.TensorTrain([tf.constant(x) for x in a.cores]), good.tt))]
    return lambda: t3f.assign(v, good.tt), bad


@pair('dense layer')
def _(c):
    r = c.matrix_raw()
    L = t3f.nn.KerasDense
    n = int(np.prod(r[0]))
    x = tf.ones([2, n])

    def build(**kw):
        k = dict(input_dims=r[0], output_dims=r[1], tt_rank=2)
        k.update(kw)
        return L(**k)(kw.get('x', x))

    def feed(y):
        l = L(input_dims=r[0], output_dims=r[1], tt_rank=2)
        return l(y)
    return build, [('unknown initializer', lambda: build(kernel_initializer='zeros')), ('unknown activation', lambda: build(activation='no-such')),
                   ('input of another size', lambda: feed(tf.ones([2, n + 1]))), ('twice the input size', lambda: feed(tf.ones([2, 2 * n]))),
                   ('dimensions of different length', lambda: build(output_dims=list(r[1]) + [2])),
                   ('rank 0', lambda: build(tt_rank=0))]


STRATA = [(k, v[1]) for k, v in PAIRS.items()]


def case(ctx, rng, st):
    c = Case(rng)
    good, bad = PAIRS[st][0](c)
    sel = [bad[int(k)] for k in rng.permutation(len(bad))[:3]]
    ctx.note('%s with defects: %s; %d cores, %s' % (st, ', '.join(w for w, _ in sel), c.d, c.dt))
    ctx.call('valid %s' % st, good)
    for w, f in sel:
        ctx.sig(st, w, c.d, c.dt)
        e = ctx.raises('defect refused', f)
        ctx.note('%s -> %s' % (w, type(e).__name__))
