"""Seeded workload: shapes, ranks, cores, library objects."""
import numpy as np
import tensorflow as tf
import t3f
from vt import ref

NPD = {'float32': np.float32, 'float64': np.float64}
TFD = {'float32': tf.float32, 'float64': tf.float64}


def pick(rng, seq, p=None):
    if p is not None:
        p = np.asarray(p, float) / np.sum(p)
    return seq[int(rng.choice(len(seq), p=p))]


def ndims(rng, lo=1, hi=8):
    w = {1: 3, 2: 8, 3: 12, 4: 9, 5: 5, 6: 3, 7: 2, 8: 2, 9: 1, 10: 1, 11: 1, 12: 1}
    c = [k for k in range(lo, hi + 1)]
    return pick(rng, c, [w.get(k, 1) for k in c])


def _fit(sizes, maxel, rng):
    sizes = list(sizes)
    while np.prod([float(s) for s in sizes]) > maxel:
        k = int(np.argmax(sizes)) if rng.random() < .7 else int(rng.integers(len(sizes)))
        if sizes[k] > 1:
            sizes[k] = max(1, sizes[k] - 1 - int(sizes[k] // 4))
    return sizes


def sizes(rng, d, maxel=1500, style=None):
    style = style or pick(rng, ['small', 'ones', 'hetero', 'large', 'two', 'prime', 'wide'],
                          [4, 2, 4, 2, 1, 1, .3])
    if style == 'small':
        s = rng.integers(2, 5, size=d)
    elif style == 'ones':
        s = rng.integers(1, 4, size=d)
    elif style == 'hetero':
        s = rng.integers(1, 10, size=d)
    elif style == 'large':
        s = rng.integers(1, 4, size=d)
        s[rng.integers(d)] = rng.integers(12, 65)
    elif style == 'wide':
        s = rng.integers(1, 3, size=d)
        s[rng.integers(d)] = rng.integers(65, 400)
    elif style == 'two':
        s = np.full(d, 2)
    else:
        s = rng.choice([1, 2, 3, 5, 7, 11], size=d)
    return [int(v) for v in _fit([int(v) for v in s], maxel, rng)]


def matrix_sizes(rng, d, maxel=1500, style=None):
    style = style or pick(rng, ['rect', 'square', 'col', 'row', 'mixed'], [5, 3, 1, 1, 2])
    if style == 'col':
        return sizes(rng, d, min(maxel, 300)), [1] * d
    if style == 'row':
        return [1] * d, sizes(rng, d, min(maxel, 300))
    s = 'small' if d > 3 and style == 'square' else None
    n = sizes(rng, d, max(4, np.sqrt(maxel)), s)
    if style == 'square':
        return n, list(n)
    m = sizes(rng, d, max(4, np.sqrt(maxel)))
    if style == 'mixed':
        for k in range(d):
            if rng.random() < .4:
                if rng.random() < .5:
                    n[k] = 1
                else:
                    m[k] = 1
    return n, m


def rank_list(rng, core_sizes, style=None, rmax=6):
    """TT-ranks for the given sizes of cores (n or n*m)."""
    d = len(core_sizes)
    style = style or pick(rng, ['one', 'small', 'hetero', 'big', 'over', 'equal', 'feasible', 'peak'],
                          [2, 3, 5, 1, 1.5, 1.5, 2, .3])
    feas = ref.feasible_ranks(core_sizes)
    if style == 'one':
        r = [1] * (d + 1)
    elif style == 'small':
        r = list(rng.integers(1, min(4, rmax + 1), size=d + 1))
    elif style == 'equal':
        r = [int(rng.integers(2, max(3, min(5, rmax) + 1)))] * (d + 1)
    elif style == 'big':
        r = list(rng.integers(1, 4, size=d + 1))
        if d > 1:
            r[int(rng.integers(1, d))] = int(rng.integers(min(8, rmax), min(17, 2 * rmax + 5)))
    elif style == 'peak':
        # One large rank between small ones.
        r = list(rng.integers(1, 3, size=d + 1))
        if d > 1:
            r[int(rng.integers(1, d))] = int(rng.integers(17, 70)) if rmax > 4 else 10
    elif style == 'over':
        r = [min(int(f + rng.integers(1, 4)), 12) for f in feas]
    elif style == 'feasible':
        r = [int(rng.integers(1, min(f, rmax) + 1)) for f in feas]
    else:
        r = list(rng.integers(1, rmax + 1, size=d + 1))
    r[0] = r[-1] = 1
    return [int(v) for v in r]


STYLES = ['normal', 'int', 'scaled', 'zerocore', 'sparse', 'pos', 'tiny', 'huge', 'deficient',
          'ones']
STYLE_W = [8, 2, 2, .5, 1, 1, .7, .7, 1.5, .3]


def core_arrays(rng, shape_groups, rks, dtype='float64', bs=None, style=None):
    """Cores for given list of mode groups ([n] or [n, m]) and ranks."""
    d = len(shape_groups[0])
    style = style or pick(rng, STYLES, STYLE_W)
    cores = []
    span = 6. if dtype == 'float64' else min(2., 8. / d)
    for k in range(d):
        sh = [rks[k]] + [g[k] for g in shape_groups] + [rks[k + 1]]
        if bs is not None:
            sh = [bs] + sh
        if style == 'int':
            c = rng.integers(-3, 4, size=sh).astype(float)
        elif style == 'ones':
            c = np.ones(sh)
        elif style == 'pos':
            c = rng.random(size=sh) + .1
        else:
            c = rng.standard_normal(size=sh)
        if style == 'sparse':
            c = c * (rng.random(size=sh) < .5)
        if style == 'scaled':
            c = c * 10. ** rng.uniform(-span, span)
        if style == 'tiny':
            c = c * 10. ** (-(8. if dtype == 'float64' else min(3., 8. / d)))
        if style == 'huge':
            c = c * 10. ** (8. if dtype == 'float64' else min(3., 8. / d))
        if style == 'deficient' and rks[k + 1] > 1:
            # Make the columns dependent: the interface is rank-deficient.
            c[..., -1] = c[..., 0] * 2.
        cores.append(c)
    if style == 'zerocore':
        cores[int(rng.integers(d))][...] = 0.
    if bs is not None and bs > 1 and rng.random() < .35:
        # Very different elements.
        i = int(rng.integers(bs))
        mode = rng.integers(6)
        k = int(rng.integers(d))
        far = 1e9 if dtype == 'float64' else 1e5
        if mode == 0:
            cores[k][i] = 0.
        elif mode == 1:
            cores[k][i] *= 1e3
        elif mode == 2:
            cores[k][i] *= 1e-3
        elif mode == 3:
            cores[k][i] *= 1. / far if rng.random() < .6 else far
        elif mode == 4:
            for c in cores:
                c[i] = c[i - 1]
        else:
            # Magnitudes spread over the whole batch.
            p = 10. ** rng.uniform(-np.log10(far), np.log10(far), size=bs)
            cores[k] *= p.reshape([-1] + [1] * (cores[k].ndim - 1))
    cores = [c.astype(NPD[dtype]) for c in cores]
    if rng.random() < .15:
        tie(rng, cores)
    moderate(cores, bs)
    return cores, style


def moderate(cores, bs):
    """Scales elements whose squared norm could leave the range of the type (e.g. after tie)."""
    lim = 17. if cores[0].dtype == np.float32 else 145.
    norms = [np.linalg.norm(c.astype(float).reshape(1 if bs is None else bs, -1), axis=1) for c in cores]
    with np.errstate(divide='ignore'):
        log = np.sum(np.log10(norms), axis=0)
    bad = np.isfinite(log) & (np.abs(log) > lim)
    if not bad.any():
        return
    f = np.where(bad, 10. ** ((np.sign(log) * lim - np.where(bad, log, 0.)) / len(cores)), 1.)
    new = {}
    for i, c in enumerate(cores):
        if id(c) not in new:
            g = f[0] if bs is None else f.reshape([-1] + [1] * (c.ndim - 1))
            new[id(c)] = (c, (c * g).astype(c.dtype))
        cores[i] = new[id(c)][1]


def tie(rng, cores):
    """Puts the same array at several positions (wrap then makes one tensor of it)."""
    k = int(rng.integers(len(cores)))
    p = 1. if rng.random() < .5 else .5
    for i, c in enumerate(cores):
        if c.shape == cores[k].shape and rng.random() < p:
            cores[i] = cores[k]


class Obj(object):
    """A library object together with the cores it was built from."""

    def __init__(self, tt, cores, bs, desc=''):
        self.tt, self.cores, self.bs, self.desc = tt, cores, bs, desc

    @property
    def batch(self):
        return self.bs is not None

    @property
    def matrix(self):
        return self.cores[0].ndim - (1 if self.batch else 0) == 4

    @property
    def dtype(self):
        return self.cores[0].dtype.name

    @property
    def raw(self):
        return ref.modes(self.cores, self.batch)

    @property
    def ranks(self):
        return ref.ranks(self.cores, self.batch)

    def dense(self):
        if not hasattr(self, '_dense'):
            self._dense = ref.dense(self.cores, self.batch)
        return self._dense

    def absdense(self):
        if not hasattr(self, '_abs'):
            self._abs = ref.absdense(self.cores, self.batch)
        return self._abs

    def elements(self):
        """Lists of cores of the elements (one for a non-batch)."""
        if not self.batch:
            return [self.cores]
        return [ref.element(self.cores, i) for i in range(self.bs)]

    def describe(self):
        return '%s%s raw=%s ranks=%s bs=%s %s %s' % (
            'batch of ' if self.batch else '', 'matrix' if self.matrix else 'tensor', self.raw,
            self.ranks, self.bs, self.dtype, self.desc)


def tensors(cores):
    """Tensors of the arrays; the same array gives the same tensor."""
    made = {}
    return [made.setdefault(id(c), tf.constant(c)) if id(c) not in made else made[id(c)] for c in cores]


def layout(rng, a, p=.4):
    """The same array, sometimes laid out in memory in another way."""
    if rng.random() >= p or a.ndim == 0:
        return a
    how = int(rng.integers(5))
    if how == 0:
        return np.asfortranarray(a)
    if how == 1:
        # A permuted view.
        perm = [int(k) for k in rng.permutation(a.ndim)]
        return np.ascontiguousarray(a.transpose(perm)).transpose(np.argsort(perm))
    if how == 2:
        # Every second entry of a larger array.
        big = np.full(a.shape[:-1] + (2 * a.shape[-1],), 7, a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if how == 3:
        return np.ascontiguousarray(a[::-1])[::-1]
    b = a.copy()
    b.flags.writeable = False
    return b


def wrap(rng, cores, bs=None, container=None, explicit=None):
    """Builds a library object from numpy cores in one of the supported ways."""
    container = container or pick(rng, ['np', 'tf', 'var', 'getvar'], [3, 5, 1, 1])
    batch = bs is not None
    kw = {}
    explicit = explicit if explicit is not None else (rng.random() < .3)
    if explicit:
        raw = ref.modes(cores, batch)
        form = int(rng.integers(4))
        if len(raw) == 1:
            shape = [raw[0], tuple(raw[0]), np.array(raw[0]), tf.TensorShape(raw[0])][form]
        else:
            shape = [raw, tuple(tuple(r) for r in raw), np.array(raw),
                     tuple(tf.TensorShape(r) for r in raw)][form]
        if rng.random() < .7:
            kw['shape'] = shape
        if rng.random() < .7:
            r = ref.ranks(cores, batch)
            kw['tt_ranks'] = [r, tuple(r), np.array(r), tf.TensorShape(r)][int(rng.integers(4))]
        if batch and rng.random() < .7:
            kw['batch_size'] = bs
    cls = t3f.TensorTrainBatch if batch else t3f.TensorTrain
    if container == 'np':
        cc = [layout(rng, c) for c in cores]
        cc = cc if rng.random() < .5 else tuple(cc)
        tt = cls(cc, **kw)
    elif container == 'tf':
        tt = cls(tensors(cores), **kw)
    elif container == 'var':
        tt = cls([tf.Variable(c) for c in cores], convert_to_tensors=False, **kw)
    else:
        init = cls(tensors(cores), **kw)
        tt = t3f.get_variable('v%d' % int(rng.integers(1 << 30)), initializer=init)
    return Obj(tt, cores, bs, 'container=%s' % container)


def obj(rng, kind='tensor', d=None, bs=None, dtype=None, maxel=1500, raw=None, rks=None,
        style=None, rstyle=None, rmax=6, container=None, dlo=1, dhi=8, mstyle=None, sstyle=None):
    """A random object. raw: list of mode groups, overrides d and kind sizes."""
    dtype = dtype or pick(rng, ['float64', 'float32'], [3, 2])
    uniform = False
    if raw is None:
        if d is None:
            hi = dhi if kind == 'tensor' else min(dhi, 6)
            d = ndims(rng, dlo, hi)
            if dhi >= 8 and rng.random() < .02:
                d = int(rng.integers(9, 21)) if kind == 'tensor' else int(rng.integers(7, 10))
        if kind == 'tensor':
            raw = [sizes(rng, d, maxel, sstyle)]
        else:
            raw = [list(v) for v in matrix_sizes(rng, d, maxel, mstyle)]
        if d > 2 and rng.random() < .08:
            # Equal modes and ranks: cores can be the same tensor.
            raw = [[min(g)] * d for g in raw]
            rks = rks or [1] + [int(rng.integers(1, min(4, rmax) + 1))] * (d - 1) + [1]
            uniform = True
    elif rks is None and len(raw[0]) > 1 and all(len(set(g)) == 1 for g in raw) and rng.random() < .1:
        rks = [1] + [int(rng.integers(1, min(3, rmax) + 1)) if rng.random() < .5 else 1] * (len(raw[0]) - 1) + [1]
        uniform = True
    cs = [int(np.prod([g[k] for g in raw])) for k in range(len(raw[0]))]
    if rks is None:
        rks = rank_list(rng, cs, rstyle, rmax)
    cores, st = core_arrays(rng, raw, rks, dtype, bs, style)
    if uniform:
        tie(rng, cores)
        moderate(cores, bs)
    o = wrap(rng, cores, bs, container)
    o.desc += ' style=%s' % st
    o.style = st
    return o


def share(rng, a, b):
    """Makes b (same modes and batch size as a) use some core tensors of a; None if no core fits."""
    fit = [k for k in range(len(a.cores)) if a.cores[k].shape == b.cores[k].shape]
    if not fit or a.bs != b.bs or a.dtype != b.dtype:
        return None
    how = pick(rng, ['first', 'last', 'all', 'some'])
    if how == 'first':
        fit = fit[:1]
    elif how == 'last':
        fit = fit[-1:]
    elif how == 'some':
        fit = [k for k in fit if rng.random() < .5] or fit[:1]
    cores = [a.cores[k] if k in fit else b.cores[k] for k in range(len(a.cores))]
    cls = t3f.TensorTrainBatch if b.batch else t3f.TensorTrain
    o = Obj(cls([a.tt.tt_cores[k] if k in fit else tf.constant(c) for k, c in enumerate(cores)]), cores, b.bs,
            'shares cores %s' % fit)
    o.style = getattr(b, 'style', None)
    return o


def partner(rng, a, p=.12, **kw):
    """A second operand of the modes of a; sometimes with the ranks and some of the cores of a."""
    if kw.get('bs') == a.bs and rng.random() < p:
        ranks = list(a.ranks)
        if rng.random() < .5 and len(ranks) > 2:
            ranks[int(rng.integers(1, len(ranks) - 1))] = int(rng.integers(1, 4))
        return share(rng, a, obj(rng, raw=a.raw, rks=ranks, dtype=a.dtype, bs=a.bs)) or \
            obj(rng, raw=a.raw, dtype=a.dtype, **kw)
    return obj(rng, raw=a.raw, dtype=a.dtype, **kw)


def count(rng, v, p=.05, hi=130):
    """A number of things: v, rarely something much larger."""
    if v is not None and rng.random() < p:
        return int(pick(rng, [c for c in (6, 8, 10, 11, 15, 16, 17, 19, 24, 31, 32, 33, 40, 63, 64, 65, 100, 128, 129,
                                          255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025)
                              if c <= hi]))
    return v


def batch_size(rng):
    if rng.random() < .02:
        return int(pick(rng, [13, 16, 17, 32, 33, 50, 65]))
    return int(pick(rng, [1, 2, 3, 4, 5, 7, 9], [3, 3, 4, 2, 2, 1, 1]))


def cond_point(rng, kind='tensor', dtype='float64', dlo=2, dhi=5, maxel=700, limit=None, raw=None,
               over=None, tries=30, rmax=4, container=None, far=False):
    """A well-conditioned point for projections: (Obj, Projector) or None.

    over: ranks above what the modes allow (the true ranks are then the feasible ones).
    """
    limit = limit or (1e3 if dtype == 'float64' else 60.)
    big = raw is None and not over and dlo <= 2 and rng.random() < .03
    for _ in range(tries):
        if big:
            # Large TT-ranks.
            d = 2 if dhi == 2 else int(rng.integers(2, 4))
            if kind == 'tensor':
                rw = [[int(rng.integers(8, 40 if d == 2 else 15)) for _ in range(d)]]
            else:
                rw = [[int(rng.integers(2, 6 if d == 2 else 4)) for _ in range(d)] for _ in range(2)]
        elif raw is None:
            d = ndims(rng, dlo, dhi)
            if kind == 'tensor':
                rw = [sizes(rng, d, maxel)]
            else:
                rw = [list(v) for v in matrix_sizes(rng, d, maxel)]
        else:
            rw = raw
        d = len(rw[0])
        cs = [int(np.prod([g[k] for g in rw])) for k in range(d)]
        feas = ref.feasible_ranks(cs)
        if over:
            rks = [1] + [int(min(f, 6) + rng.integers(0, 3)) for f in feas[1:-1]] + [1]
            if all(a <= b for a, b in zip(rks, feas)):
                continue
        else:
            # Ranks such that every core can have full rank both ways.
            rks = [1] * (d + 1)
            for k in range(1, d):
                rks[k] = int(rng.integers(min(feas[k], 6), min(feas[k], 17) + 1) if big else
                             rng.integers(1, min(feas[k], rmax) + 1))
            for _ in range(d):
                for k in range(1, d):
                    rks[k] = min(rks[k], rks[k - 1] * cs[k - 1], rks[k + 1] * cs[k])
        cores, _ = core_arrays(rng, rw, rks, dtype, None, 'normal')
        if far:
            # Far from the unit sphere.
            cores = [(c * 10. ** rng.uniform(-2, 2)).astype(c.dtype) for c in cores]
        if over:
            # true ranks: clip from both sides
            t = list(rks)
            for k in range(1, d):
                t[k] = min(t[k], t[k - 1] * cs[k - 1])
            for k in range(d - 1, 0, -1):
                t[k] = min(t[k], t[k + 1] * cs[k])
        else:
            t = rks
        p = ref.Projector(ref.as_tensor(cores), t)
        if p.cond <= limit:
            o = wrap(rng, cores, None, container)
            o.true_ranks = t
            return o, p
    return None
