"""Registry of operations: how to draw arguments, call, and what the dense answer is.

An instance knows how to make arguments (make), how to call the library (f) and
the model: for per-element operations a function of elements (dense value x,
absolute value a, cores c), for whole-batch operations a function of full
arguments.
"""
import numpy as np
import tensorflow as tf
import t3f
import t3f.riemannian
from t3f import ops as t3f_ops
from vt import gen, ref, mon


class Elem(object):
    """One element of an argument, as seen by the model."""

    def __init__(self, cores):
        self.c = cores
        self.x = ref.dense(cores)
        self.a = ref.absdense(cores)

    @property
    def ifs(self):
        if not hasattr(self, '_ifs'):
            self._ifs = ref.interfaces_scale(self.c)
        return self._ifs


class Inst(object):
    def __init__(self, name, make, f, model, scale, whole=False, diff=True, unknown=True, depth=0.,
                 rng=None, n=None, poly=True, note='', cast=None, tt_out=False):
        self.name, self.make, self.f, self.model, self.scale = name, make, f, model, scale
        self.whole, self.diff, self.unknown, self.extra = whole, diff, unknown, depth
        self.poly, self.note, self.cast = poly, note, cast
        self.tt_out = tt_out
        self.n = n
        self.alias = None
        self.fresh(rng, n)
        if rng is not None and len(self.objs) > 1 and rng.random() < .08:
            # The same object as two of the arguments.
            o = self.objs
            fit = [(i, j) for i in range(len(o)) for j in range(i + 1, len(o)) if not hasattr(o[i], '_proj') and
                   not hasattr(o[j], '_proj') and o[i].raw == o[j].raw and o[i].bs == o[j].bs and o[i].dtype == o[j].dtype]
            if fit:
                self.alias = fit[int(rng.integers(len(fit)))]
                o[self.alias[1]] = o[self.alias[0]]
                self.note += ' same object'

    def fresh(self, rng, n):
        """Draws new arguments of the same structure with batch size n."""
        self.objs, self.dens = self.make(rng, n)
        if self.alias:
            self.objs[self.alias[1]] = self.objs[self.alias[0]]

    @property
    def dtype(self):
        return self.objs[0].dtype if self.objs else self.dens[0][0].dtype.name

    def describe(self):
        return '%s %s | %s | dense %s' % (self.name, self.note, '; '.join(o.describe() for o in self.objs),
                                          [d[0].shape for d in self.dens])

    def sig(self):
        return (self.name, self.note, [(o.raw, o.ranks, o.bs, o.dtype) for o in self.objs],
                [d[0].shape for d in self.dens])

    def batch_out(self):
        if self.whole or not any(o.batch for o in self.objs):
            return None
        return max([o.bs for o in self.objs if o.batch] +
                   [d[0].shape[d[1]] for d in self.dens if d[1] is not None])

    def run(self, tts=None, dens=None):
        if tts is None:
            tts = [o.tt for o in self.objs]
        if dens is None:
            dens = [tf.constant(d[0]) for d in self.dens]
        return self.f(tts, dens)

    def elems(self):
        return [[Elem(c) for c in o.elements()] for o in self.objs]

    def args_of(self, i):
        """Element-i arguments (objects of cores lists, dense arrays)."""
        cs = []
        for o in self.objs:
            if not o.batch:
                cs.append(o.cores)
            else:
                cs.append(ref.element(o.cores, i if o.bs > 1 else 0))
        ds = []
        for d, ax in self.dens:
            ds.append(d if ax is None else np.take(d, i, axis=ax))
        return cs, ds

    def expected(self):
        """(list of expected arrays, list of tolerances): one per flattened output."""
        dep = 16. + self.extra
        if self.objs:
            dep += ref.depth(*[o.cores for o in self.objs])
            dep += sum(sum(int(v) for v in g) for o in self.objs for g in o.raw)
        dt = self.cast or self.dtype

        def one(e, d):
            w = self.model(e, d)
            s = self.scale(e, d)
            w = w if isinstance(w, (list, tuple)) else [w]
            s = s if isinstance(s, (list, tuple)) else [s] * len(w)
            return [np.asarray(v, float) for v in w], \
                [np.broadcast_to(mon.tol_for(dt, dep, v), np.shape(u)) for v, u in zip(s, w)]

        if self.whole:
            e = [[Elem(c) for c in o.elements()] if o.batch else Elem(o.cores) for o in self.objs]
            return one(e, [d[0].astype(float) if d[0].dtype.kind == 'f' else d[0] for d in self.dens])
        n = self.batch_out()
        if n is None:
            return one([Elem(o.cores) for o in self.objs], [d[0] for d in self.dens])
        outs, tols = [], []
        for i in range(n):
            cs, ds = self.args_of(i)
            w, t = one([Elem(c) for c in cs], ds)
            outs.append(w)
            tols.append(t)
        k = len(outs[0])
        return [np.stack([o[j] for o in outs]) for j in range(k)], \
            [np.stack([t[j] for t in tols]) for j in range(k)]


def flat_out(res):
    """List of outputs; TT objects stay."""
    if isinstance(res, (list, tuple)):
        out = []
        for r in res:
            out += flat_out(r)
        return out
    return [res]


def out_value(ctx, r):
    k = mon.kind_of(r)
    if k:
        return mon.value(ctx, r, k == 'batch')
    return np.asarray(r.numpy() if hasattr(r, 'numpy') else r).astype(float)


def check(ctx, inst, res, monitor='value'):
    """Compares a result with the model."""
    want, tol = inst.expected()
    outs = flat_out(res)
    ctx.true('number of outputs', len(outs) == len(want), '%d instead of %d' % (len(outs), len(want)))
    n = inst.batch_out()
    for r, w, t in zip(outs, want, tol):
        k = mon.kind_of(r)
        if inst.tt_out:
            ctx.true('kind of result', k == ('batch' if n is not None or inst.tt_out == 'batch' else 'tt'),
                     '%s: %s' % (inst.name, k or type(r).__name__))
        ctx.close(monitor, out_value(ctx, r), w, t, inst.name)


def unknown_args(inst):
    """Which objects may have a batch size unknown when tracing; None: not supported.

    Broadcasting needs statically known sizes, so only one argument of an
    element-wise operation may be unknown.
    """
    if not inst.unknown:
        return None
    b = [o for o in inst.objs if o.batch]
    if not b:
        return None
    if inst.whole:
        return [o.batch for o in inst.objs]
    n = max(o.bs for o in b)
    big = [o for o in b if o.bs == n]
    if len(big) > 1 and n > 1:
        return None
    return [o is big[0] for o in inst.objs]


def specs(inst, unknown=None):
    """Tensor specs (cores of objects, dense arguments)."""
    unknown = unknown or [False] * len(inst.objs)
    return [[[tf.TensorSpec([None] + list(c.shape[1:]) if u else c.shape, c.dtype) for c in o.cores]
             for o, u in zip(inst.objs, unknown)],
            [tf.TensorSpec([None if any(unknown) and i == ax else s for i, s in enumerate(d.shape)], d.dtype)
             for d, ax in inst.dens]]


# ---------------------------------------------------------------- drawing

def bpair(rng, n, k=2):
    """Batch sizes of k arguments for output batch n (None: no batches)."""
    if n is None:
        return [None] * k
    while True:
        b = [gen.pick(rng, [n, n, None, 1]) for _ in range(k)]
        if any(v == n for v in b) or (n == 1 and any(b)):
            return b


def mk(rng, raw, bs, dtype, rks=None, **kw):
    kw.setdefault('style', gen.pick(rng, ['normal', 'int', 'scaled', 'pos', 'sparse'], [6, 2, 1, 1, 1]))
    kw.setdefault('container', gen.pick(rng, ['tf', 'np']))
    return gen.obj(rng, raw=[list(g) for g in raw], bs=bs, dtype=dtype, rks=rks, **kw)


def ranks_for(rng, raw, rmax=4, style=None):
    cs = [int(np.prod([g[k] for g in raw])) for k in range(len(raw[0]))]
    if style is None and rng.random() < .04:
        r = gen.rank_list(rng, cs, 'small', 3)
        for k in range(1, len(cs)):
            if rng.random() < .5:
                r[k] = int(rng.integers(5, 14))
        return r
    return gen.rank_list(rng, cs, style or gen.pick(rng, ['one', 'small', 'hetero', 'equal'], [1, 3, 5, 1]), rmax)


def raw_of(rng, kind, dlo=1, dhi=5, maxel=300, d=None):
    d = d or gen.ndims(rng, dlo, dhi)
    if kind == 'tensor':
        return [gen.sizes(rng, d, maxel)]
    return [list(v) for v in gen.matrix_sizes(rng, d, maxel)]


REG = {}


def op(name, kinds=('tensor', 'matrix'), batch=True):
    def deco(fn):
        REG[name] = (fn, kinds, batch)
        return fn
    return deco


def names(batch=None):
    return [k for k, v in REG.items() if batch is None or v[2] or not batch]


def draw(rng, name, n=None, dtype=None, kind=None):
    fn, kinds, batch = REG[name]
    dtype = dtype or gen.pick(rng, ['float64', 'float32'], [3, 2])
    kind = kind or gen.pick(rng, list(kinds))
    return fn(rng, n if batch else None, dtype, kind)


# ---------------------------------------------------------------- one object

def unary(name, f, model, scale, rng, n, dtype, kind, note='', dlo=1, **kw):
    raw = raw_of(rng, kind, dlo)
    rks = ranks_for(rng, raw)
    style = kw.pop('style', None)

    def make(rng, n):
        k = {'style': style} if style else {}
        return [mk(rng, raw, n, dtype, rks, **k)], []
    return Inst(name, make, lambda t, d: f(t[0]), lambda e, d: model(e[0]), lambda e, d: scale(e[0]),
                rng=rng, n=n, note=note, **kw)


@op('full')
def _(rng, n, dtype, kind):
    return unary('full', t3f.full, lambda e: e.x, lambda e: e.a, rng, n, dtype, kind)


@op('neg')
def _(rng, n, dtype, kind):
    return unary('neg', lambda t: -t, lambda e: -e.x, lambda e: e.a, rng, n, dtype, kind, tt_out=True)


@op('scale')
def _(rng, n, dtype, kind):
    v = float(gen.pick(rng, [2., -1.5, .3, 0., 1e3, -7, 1. / 3]))
    v32 = float(np.float32(v)) if dtype == 'float32' else v
    left = bool(rng.random() < .3)
    return unary('scale', (lambda t: v * t) if left else (lambda t: t * v), lambda e: e.x * v32,
                 lambda e: e.a * abs(v), rng, n, dtype, kind, 'by %r%s' % (v, ' left' if left else ''),
                 depth=200., tt_out=True)


@op('scale_t')
def _(rng, n, dtype, kind):
    raw = raw_of(rng, kind)
    rks = ranks_for(rng, raw)

    def make(rng, n):
        s = float(gen.pick(rng, [-1., 1.])) * float(rng.uniform(.2, 4.))
        if rng.random() < .15:
            s = 0.
        return [mk(rng, raw, n, dtype, rks)], [(np.array(s, gen.NPD[dtype]), None)]
    return Inst('scale_t', make, lambda t, d: t3f.multiply(t[0], d[0]), lambda e, d: e[0].x * float(d[0]),
                lambda e, d: e[0].a * abs(float(d[0])), rng=rng, n=n, depth=200., tt_out=True)


@op('transpose', ('matrix',))
def _(rng, n, dtype, kind):
    return unary('transpose', t3f.transpose, lambda e: e.x.T, lambda e: e.a.T, rng, n, dtype, kind, tt_out=True)


@op('cast')
def _(rng, n, dtype, kind):
    to = gen.pick(rng, ['float32', 'float64'])
    low = 'float32' if 'float32' in (to, dtype) else 'float64'
    return unary('cast', lambda t: t3f.cast(t, gen.TFD[to]), lambda e: e.x, lambda e: e.a, rng, n, dtype, kind,
                 'to ' + to, cast=low, tt_out=True)


@op('norm2')
def _(rng, n, dtype, kind):
    df = bool(rng.random() < .6)
    return unary('norm2', lambda t: t3f.frobenius_norm_squared(t, differentiable=df),
                 lambda e: np.sum(e.x ** 2),
                 (lambda e: np.sum(e.a ** 2)) if df else (lambda e: 2 * e.ifs ** 2),
                 rng, n, dtype, kind, 'differentiable=%s' % df, diff=df)


@op('norm')
def _(rng, n, dtype, kind):
    df = bool(rng.random() < .6)
    return unary('norm', lambda t: t3f.frobenius_norm(t, differentiable=df, epsilon=1.),
                 lambda e: np.sqrt(np.sum(e.x ** 2) + 1.),
                 lambda e: (1. + np.sum(e.a ** 2) + (0 if df else e.ifs ** 2)) / np.sqrt(np.sum(e.x ** 2) + 1.),
                 rng, n, dtype, kind, 'differentiable=%s' % df, diff=df, poly=False)


@op('orth_l2r')
def _(rng, n, dtype, kind):
    return unary('orth_l2r', t3f.orthogonalize_tt_cores, lambda e: e.x, lambda e: e.ifs,
                 rng, n, dtype, kind, diff=False, tt_out=True)


@op('orth_r2l', batch=False)
def _(rng, n, dtype, kind):
    return unary('orth_r2l', lambda t: t3f.orthogonalize_tt_cores(t, left_to_right=False), lambda e: e.x,
                 lambda e: e.ifs, rng, n, dtype, kind, diff=False, tt_out=True)


@op('round')
def _(rng, n, dtype, kind):
    raw = raw_of(rng, kind)
    rks = ranks_for(rng, raw, 3)
    form = gen.pick(rng, ['none', 'rank', 'list', 'inf'])

    def make(rng, n):
        o = mk(rng, raw, n, dtype, rks)
        # Value 3x represented with doubled ranks.
        d = len(o.cores)
        if d == 1:
            return [o], []
        cs = []
        off = 1 if n is not None else 0
        for k, c in enumerate(o.cores):
            z = np.zeros_like(c)
            if k == 0:
                cs.append(np.concatenate([c, 2 * c], -1))
            elif k == d - 1:
                cs.append(np.concatenate([c, c], off))
            else:
                cs.append(np.concatenate([np.concatenate([c, z], -1), np.concatenate([z, c], -1)], off))
        return [gen.wrap(rng, cs, n, gen.pick(rng, ['tf', 'np']))], []
    arg = {'none': None, 'rank': max(rks), 'list': list(rks), 'inf': np.inf}[form]
    fn = (lambda t: t3f.round(t)) if form == 'none' else (lambda t: t3f.round(t, max_tt_rank=arg))
    return Inst('round', make, lambda t, d: fn(t[0]), lambda e, d: e[0].x, lambda e, d: e[0].ifs * 4,
                rng=rng, n=n, diff=False, note=form, tt_out=True)


@op('renorm')
def _(rng, n, dtype, kind):
    return unary('renorm', t3f.renormalize_tt_cores, lambda e: e.x, lambda e: e.a, rng, n, dtype, kind,
                 depth=200., poly=False, style='normal', tt_out=True)


@op('l2_reg', batch=False)
def _(rng, n, dtype, kind):
    s = float(gen.pick(rng, [.1, 2., .5]))
    r = t3f.l2_regularizer(s)
    return unary('l2_reg', r, lambda e: s * np.sum(e.x ** 2), lambda e: s * 2 * e.ifs ** 2, rng, n, dtype,
                 kind, diff=False)


@op('cores_reg', batch=False)
def _(rng, n, dtype, kind):
    s = float(gen.pick(rng, [.1, 2., .5]))
    r = t3f.cores_regularizer(lambda c: tf.reduce_sum(c ** 2), s)
    return unary('cores_reg', r, lambda e: s * sum(np.sum(c.astype(float) ** 2) for c in e.c),
                 lambda e: s * sum(np.sum(c.astype(float) ** 2) for c in e.c), rng, n, dtype,
                 kind)


@op('ones_like', batch=False)
def _(rng, n, dtype, kind):
    return unary('ones_like', t3f.ones_like, lambda e: np.ones_like(e.x), lambda e: 1., rng, n, dtype, kind,
                 diff=False, tt_out=True)


@op('zeros_like', batch=False)
def _(rng, n, dtype, kind):
    return unary('zeros_like', t3f.zeros_like, lambda e: np.zeros_like(e.x), lambda e: 0., rng, n, dtype, kind,
                 diff=False, tt_out=True)


@op('expand_squeeze', batch=False)
def _(rng, n, dtype, kind):
    return unary('expand_squeeze', lambda t: t3f.squeeze_batch_dim(t3f.expand_batch_dim(t)), lambda e: e.x,
                 lambda e: e.a, rng, n, dtype, kind, tt_out=True)


@op('expand', batch=False)
def _(rng, n, dtype, kind):
    return unary('expand', lambda t: t3f.expand_batch_dim(t), lambda e: e.x[None],
                 lambda e: e.a[None], rng, n, dtype, kind, tt_out='batch')


def rand_index(rng, size):
    """A random index of an axis: (library form, is number)."""
    how = gen.pick(rng, ['all', 'int', 'neg', 'slice', 'step', 'from', 'to'], [3, 3, 1, 2, 1, 1, 1])
    if how == 'all' or size < 2 and how in ('slice', 'step', 'from', 'to'):
        return slice(None)
    if how == 'int':
        return int(rng.integers(size))
    if how == 'neg':
        return -int(rng.integers(1, size + 1))
    a = int(rng.integers(0, size))
    b = int(rng.integers(a + 1, size + 1))
    if how == 'slice':
        return slice(a, b)
    if how == 'step':
        return slice(a, b, int(rng.integers(2, 4)))
    if how == 'from':
        return slice(a, None)
    return slice(None, b)


@op('slice', ('tensor',))
def _(rng, n, dtype, kind):
    raw = raw_of(rng, 'tensor', 1, 5)
    rks = ranks_for(rng, raw)
    idx = [rand_index(rng, s) for s in raw[0]]
    if all(isinstance(i, int) for i in idx):
        idx[int(rng.integers(len(idx)))] = slice(None)
    idx = tuple(idx)
    full = ((slice(None),) + idx) if n is not None else idx

    def make(rng, n):
        return [mk(rng, raw, n, dtype, rks)], []
    return Inst('slice', make, lambda t, d: t[0][full], lambda e, d: e[0].x[idx],
                lambda e, d: e[0].a[idx], rng=rng, n=n, note=str(idx), tt_out=True)


@op('gather', ('tensor',), batch=False)
def _(rng, n, dtype, kind):
    raw = raw_of(rng, 'tensor', 1, 5)
    rks = ranks_for(rng, raw)
    m = gen.count(rng, int(rng.integers(1, 9)))
    idx = np.stack([rng.integers(0, s, size=m) for s in raw[0]], 1)

    def make(rng, n):
        return [mk(rng, raw, None, dtype, rks)], []
    return Inst('gather', make, lambda t, d: t3f.gather_nd(t[0], idx), lambda e, d: e[0].x[tuple(idx.T)],
                lambda e, d: e[0].a[tuple(idx.T)], rng=rng, n=n)


@op('sparse_inner', batch=False)
def _(rng, n, dtype, kind):
    raw = raw_of(rng, kind)
    rks = ranks_for(rng, raw)
    sh = raw[0] if kind == 'tensor' else [int(np.prod(g)) for g in raw]
    m = gen.count(rng, int(rng.integers(1, 9)))
    flat = np.sort(rng.choice(int(np.prod(sh)), size=min(m, int(np.prod(sh))), replace=False))
    idx = np.stack(np.unravel_index(flat, sh), 1).astype(np.int64)

    def make(rng, n):
        return [mk(rng, raw, None, dtype, rks)], [(rng.standard_normal(len(flat)).astype(gen.NPD[dtype]), None)]
    return Inst('sparse_inner', make,
                lambda t, d: t3f.flat_inner(t[0], tf.SparseTensor(idx, d[0], np.array(sh, np.int64))),
                lambda e, d: np.sum(e[0].x.reshape(-1)[flat] * d[0].astype(float)),
                lambda e, d: np.sum(e[0].a.reshape(-1)[flat] * abs(d[0].astype(float))), rng=rng, n=n)


# ---------------------------------------------------------------- two objects

def binary(name, f, model, scale, rng, n, dtype, kind, **kw):
    raw = raw_of(rng, kind)
    ra, rb = ranks_for(rng, raw, 3), ranks_for(rng, raw, 3)
    ba, bb = bpair(rng, n)
    sh = bool(rng.random() < .12)
    if sh and rng.random() < .6:
        rb = list(ra)

    def make(rng, n):
        f_ = lambda b: b if b in (None, 1) else n
        a, b = mk(rng, raw, f_(ba), dtype, ra), mk(rng, raw, f_(bb), dtype, rb)
        if sh:
            b = gen.share(rng, a, b) or b
        return [a, b], []
    return Inst(name, make, lambda t, d: f(t[0], t[1]), lambda e, d: model(e[0], e[1]),
                lambda e, d: scale(e[0], e[1]), rng=rng, n=n, **kw)


@op('add')
def _(rng, n, dtype, kind):
    return binary('add', t3f.add, lambda a, b: a.x + b.x, lambda a, b: a.a + b.a, rng, n, dtype, kind,
                  tt_out=True)


@op('sub')
def _(rng, n, dtype, kind):
    return binary('sub', lambda a, b: a - b, lambda a, b: a.x - b.x, lambda a, b: a.a + b.a, rng, n, dtype,
                  kind, tt_out=True)


@op('mul')
def _(rng, n, dtype, kind):
    return binary('mul', t3f.multiply, lambda a, b: a.x * b.x, lambda a, b: a.a * b.a, rng, n, dtype, kind,
                  tt_out=True)


@op('inner')
def _(rng, n, dtype, kind):
    return binary('inner', t3f.flat_inner, lambda a, b: np.sum(a.x * b.x), lambda a, b: np.sum(a.a * b.a),
                  rng, n, dtype, kind)


@op('matmul', ('matrix',))
def _(rng, n, dtype, kind):
    d = gen.ndims(rng, 1, 4)
    g = [gen.sizes(rng, d, 16) for _ in range(3)]
    ra, rb = ranks_for(rng, g[:2], 3), ranks_for(rng, g[1:], 3)
    ba, bb = bpair(rng, n)

    def make(rng, n):
        f_ = lambda b: b if b in (None, 1) else n
        return [mk(rng, g[:2], f_(ba), dtype, ra), mk(rng, g[1:], f_(bb), dtype, rb)], []
    return Inst('matmul', make, lambda t, d: t3f.matmul(t[0], t[1]), lambda e, d: e[0].x @ e[1].x,
                lambda e, d: e[0].a @ e[1].a, rng=rng, n=n, tt_out=True)


@op('tt_dense', ('matrix',), batch=False)
def _(rng, n, dtype, kind):
    raw = raw_of(rng, 'matrix', 1, 4)
    rks = ranks_for(rng, raw)
    k = int(rng.integers(1, 6))

    def make(rng, n):
        return [mk(rng, raw, None, dtype, rks)], \
            [(rng.standard_normal((int(np.prod(raw[1])), k)).astype(gen.NPD[dtype]), None)]
    return Inst('tt_dense', make, lambda t, d: t3f.matmul(t[0], d[0]), lambda e, d: e[0].x @ d[0].astype(float),
                lambda e, d: e[0].a @ abs(d[0].astype(float)), rng=rng, n=n)


@op('dense_tt', ('matrix',), batch=False)
def _(rng, n, dtype, kind):
    raw = raw_of(rng, 'matrix', 1, 4)
    rks = ranks_for(rng, raw)
    k = int(rng.integers(1, 6))

    def make(rng, n):
        return [mk(rng, raw, None, dtype, rks)], \
            [(rng.standard_normal((k, int(np.prod(raw[0])))).astype(gen.NPD[dtype]), None)]
    return Inst('dense_tt', make, lambda t, d: t3f.matmul(d[0], t[0]), lambda e, d: d[0].astype(float) @ e[0].x,
                lambda e, d: abs(d[0].astype(float)) @ e[0].a, rng=rng, n=n)


def vec_raw(s):
    return [list(s), [1] * len(s)]


@op('bilinear', ('matrix',))
def _(rng, n, dtype, kind):
    d = gen.ndims(rng, 1, 4)
    g = [gen.sizes(rng, d, 16) for _ in range(2)]
    rA, rb, rc = ranks_for(rng, g, 3), ranks_for(rng, [g[0]], 3), ranks_for(rng, [g[1]], 3)
    bb, bc = gen.pick(rng, [(1, 1), (1, 0), (0, 1)]) if n is not None else (0, 0)

    def make(rng, n):
        return [mk(rng, g, None, dtype, rA), mk(rng, vec_raw(g[0]), n if bb else None, dtype, rb),
                mk(rng, vec_raw(g[1]), n if bc else None, dtype, rc)], []
    return Inst('bilinear', make, lambda t, d: t3f.bilinear_form(*t),
                lambda e, d: (e[1].x.T @ e[0].x @ e[2].x)[0, 0],
                lambda e, d: (e[1].a.T @ e[0].a @ e[2].a)[0, 0], rng=rng, n=n)


@op('two_mat', ('matrix',))
def _(rng, n, dtype, kind):
    d = gen.ndims(rng, 1, 3)
    g = [gen.sizes(rng, d, 10) for _ in range(3)]
    rA, rB = ranks_for(rng, g[:2], 2), ranks_for(rng, g[1:], 2)
    rx, ry = ranks_for(rng, [g[0]], 3), ranks_for(rng, [g[2]], 2)
    bb, bc = gen.pick(rng, [(1, 1), (1, 0), (0, 1)]) if n is not None else (0, 0)

    def make(rng, n):
        return [mk(rng, vec_raw(g[0]), n if bb else None, dtype, rx), mk(rng, g[:2], None, dtype, rA),
                mk(rng, g[1:], None, dtype, rB), mk(rng, vec_raw(g[2]), n if bc else None, dtype, ry)], []
    return Inst('two_mat', make, lambda t, d: t3f_ops.bilinear_form_two_mat(*t),
                lambda e, d: (e[0].x.T @ e[1].x @ e[2].x @ e[3].x)[0, 0],
                lambda e, d: (e[0].a.T @ e[1].a @ e[2].a @ e[3].a)[0, 0], rng=rng, n=n, depth=60.)


# ---------------------------------------------------------------- whole batches

@op('pairwise')
def _(rng, n, dtype, kind):
    n = n or int(rng.integers(1, 4))
    raw = raw_of(rng, kind)
    ra, rb = ranks_for(rng, raw, 3), ranks_for(rng, raw, 3)

    def make(rng, n):
        n = n or 2
        return [mk(rng, raw, n, dtype, ra), mk(rng, raw, n + 1, dtype, rb)], []

    def form(k):
        return lambda e, d: np.array([[np.sum(getattr(a, k) * getattr(b, k)) for b in e[1]] for a in e[0]])
    return Inst('pairwise', make, lambda t, d: t3f.pairwise_flat_inner(*t), form('x'), form('a'), rng=rng, n=n,
                whole=True)


@op('gram')
def _(rng, n, dtype, kind):
    n = n or int(rng.integers(1, 4))
    raw = raw_of(rng, kind)
    ra = ranks_for(rng, raw, 3)

    def make(rng, n):
        return [mk(rng, raw, n or 2, dtype, ra)], []

    def form(k):
        return lambda e, d: np.array([[np.sum(getattr(a, k) * getattr(b, k)) for b in e[0]] for a in e[0]])
    return Inst('gram', make, lambda t, d: t3f.gram_matrix(*t), form('x'), form('a'), rng=rng, n=n, whole=True)


@op('pairwise_mat', ('matrix',))
def _(rng, n, dtype, kind):
    n = n or int(rng.integers(1, 4))
    d = gen.ndims(rng, 1, 4)
    g = [gen.sizes(rng, d, 16) for _ in range(2)]
    rA, ra, rb = ranks_for(rng, g, 3), ranks_for(rng, [g[0]], 3), ranks_for(rng, [g[1]], 3)

    def make(rng, n):
        n = n or 2
        return [mk(rng, vec_raw(g[0]), n, dtype, ra), mk(rng, vec_raw(g[1]), n + 1, dtype, rb),
                mk(rng, g, None, dtype, rA)], []

    def form(k):
        return lambda e, d: np.array([[(getattr(a, k).T @ getattr(e[2], k) @ getattr(b, k))[0, 0]
                                       for b in e[1]] for a in e[0]])
    return Inst('pairwise_mat', make, lambda t, d: t3f.pairwise_flat_inner(t[0], t[1], t[2]), form('x'),
                form('a'), rng=rng, n=n, whole=True)


@op('concat')
def _(rng, n, dtype, kind):
    n = n or int(rng.integers(1, 4))
    raw = raw_of(rng, kind)
    ra = ranks_for(rng, raw)
    k = int(rng.integers(1, 4))
    # The same batch may come several times.
    order = list(range(k)) if rng.random() < .6 else [int(v) for v in rng.integers(0, k, size=int(rng.integers(1, 5)))]

    def make(rng, n):
        n = n or 2
        os = [mk(rng, raw, n + i, dtype, ra) for i in range(k)]
        return [os[i] for i in order], []

    def form(key):
        return lambda e, d: np.stack([getattr(v, key) for b in e for v in b])
    return Inst('concat', make, lambda t, d: t3f.concat_along_batch_dim(list(t)), form('x'), form('a'), rng=rng,
                n=n, whole=True, tt_out='batch')


@op('mul_along')
def _(rng, n, dtype, kind):
    n = n or int(rng.integers(1, 4))
    raw = raw_of(rng, kind)
    ra = ranks_for(rng, raw)

    def make(rng, n):
        n = n or 2
        return [mk(rng, raw, n, dtype, ra)], [(rng.standard_normal(n).astype(gen.NPD[dtype]), 0)]

    return Inst('mul_along', make, lambda t, d: t3f.multiply_along_batch_dim(t[0], d[0]),
                lambda e, d: np.stack([v.x * float(w) for v, w in zip(e[0], d[0])]),
                lambda e, d: np.stack([v.a * abs(float(w)) for v, w in zip(e[0], d[0])]), rng=rng, n=n,
                whole=True, tt_out='batch')


@op('reduce_sum')
def _(rng, n, dtype, kind):
    n = n or int(rng.integers(1, 6))
    raw = raw_of(rng, kind, maxel=120)
    ra = ranks_for(rng, raw, 3)
    form = gen.pick(rng, ['none', '1d', '2d'])
    K = int(rng.integers(1, 4))

    def make(rng, n):
        n = n or 2
        d = []
        if form == '1d':
            d = [(rng.standard_normal(n).astype(gen.NPD[dtype]), 0)]
        elif form == '2d':
            d = [(rng.standard_normal((n, K)).astype(gen.NPD[dtype]), 0)]
        return [mk(rng, raw, n, dtype, ra)], d

    def fn(t, d):
        return t3f.approximate.reduce_sum_batch(t[0], 1000, *d)

    def model(e, d):
        s = np.stack([v.x for v in e[0]])
        if form == 'none':
            return s.sum(0)
        return np.tensordot(d[0].T, s, 1)

    def scale(e, d):
        s = np.array([v.ifs for v in e[0]])
        if form == 'none':
            return 4 * s.sum()
        w = abs(d[0])
        r = 4 * np.tensordot(w.T, s, 1)
        if form == '2d':
            return r.reshape([-1] + [1] * e[0][0].x.ndim)
        return r
    return Inst('reduce_sum', make, fn, model, scale, rng=rng, n=n, whole=True, diff=False, unknown=False,
                note=form, depth=100., tt_out='batch' if form == '2d' else True)


@op('add_n', batch=False)
def _(rng, n, dtype, kind):
    k = int(rng.integers(2, 6))
    raw = raw_of(rng, kind, maxel=120)
    rr = [ranks_for(rng, raw, 3) for _ in range(k)]

    def make(rng, n):
        return [mk(rng, raw, None, dtype, r) for r in rr], []
    return Inst('add_n', make, lambda t, d: t3f.approximate.add_n(list(t), 1000), lambda e, d: sum(v.x for v in e),
                lambda e, d: 4 * sum(v.ifs for v in e), rng=rng, n=n, diff=False, depth=100., tt_out=True)


@op('batch_index')
def _(rng, n, dtype, kind):
    n = n or int(rng.integers(1, 5))
    raw = raw_of(rng, kind)
    ra = ranks_for(rng, raw)
    i = int(rng.integers(0, n))
    sl = bool(rng.random() < .4)
    neg = bool(rng.random() < .3)

    def make(rng, n):
        return [mk(rng, raw, n, dtype, ra)], []
    key = slice(i, None) if sl else (-i - 1 if neg else i)
    return Inst('batch_index', make, lambda t, d: t[0][key],
                lambda e, d: np.stack([v.x for v in e[0]])[key], lambda e, d: np.stack([v.a for v in e[0]])[key],
                rng=rng, n=n, whole=True, note=str(key), tt_out='batch' if sl else True, unknown=False)


@op('batch_part')
def _(rng, n, dtype, kind):
    """Slices of a batch which make sense for any size."""
    n = n or int(rng.integers(1, 5))
    raw = raw_of(rng, kind)
    ra = ranks_for(rng, raw)
    key = gen.pick(rng, [slice(None, None, -1), slice(None, None, -1), slice(None, None, -2), slice(None, None, 2),
                         slice(-2, None), slice(None, 3), slice(None), slice(-1, None, -1), slice(None, None, 3)])
    arg = key
    if kind == 'tensor' and rng.random() < .3:
        arg = (key,) + (slice(None),) * len(raw[0])

    def make(rng, n):
        return [mk(rng, raw, n, dtype, ra)], []
    return Inst('batch_part', make, lambda t, d: t[0][arg],
                lambda e, d: np.stack([v.x for v in e[0]])[key], lambda e, d: np.stack([v.a for v in e[0]])[key],
                rng=rng, n=n, whole=True, note=str(arg), tt_out='batch')


# ---------------------------------------------------------------- dense to TT

@op('to_tt_tensor', ('tensor',), batch=False)
def _(rng, n, dtype, kind):
    sh = gen.sizes(rng, gen.ndims(rng, 1, 5), 200)

    def make(rng, n):
        return [], [(rng.standard_normal(sh).astype(gen.NPD[dtype]), None)]
    return Inst('to_tt_tensor', make, lambda t, d: t3f.to_tt_tensor(d[0], max_tt_rank=1000), lambda e, d: d[0],
                lambda e, d: np.linalg.norm(d[0].astype(float)) * len(sh), rng=rng, n=n, diff=False, depth=100.,
                tt_out=True)


@op('to_tt_matrix', ('matrix',), batch=False)
def _(rng, n, dtype, kind):
    g = [list(v) for v in gen.matrix_sizes(rng, gen.ndims(rng, 1, 4), 200)]

    def make(rng, n):
        return [], [(rng.standard_normal([int(np.prod(v)) for v in g]).astype(gen.NPD[dtype]), None)]
    return Inst('to_tt_matrix', make, lambda t, d: t3f.to_tt_matrix(d[0], g, max_tt_rank=1000), lambda e, d: d[0],
                lambda e, d: np.linalg.norm(d[0].astype(float)) * len(g[0]), rng=rng, n=n, diff=False, depth=100.,
                tt_out=True)


# ---------------------------------------------------------------- tangent space

def projector(o):
    """Cached projector of a point drawn by cond_point."""
    return o._proj


def point(rng, kind, dtype, raw=None, dhi=4, maxel=150):
    r = None
    while r is None:
        r = gen.cond_point(rng, kind, dtype, 2, dhi, maxel, raw=raw, container=gen.pick(rng, ['tf', 'np']),
                           rmax=3)
    o, p = r
    o._proj = p
    return o


def tensor_of(e):
    return ref.as_tensor(e.c)


def to_dense(x, raw):
    return x if len(raw) == 1 else ref.tensor_to_dense(x, *raw)


@op('project')
def _(rng, n, dtype, kind):
    w = point(rng, kind, dtype)
    ra = ranks_for(rng, w.raw, 3)

    def make(rng, n):
        return [mk(rng, w.raw, n, dtype, ra), w], []
    return Inst('project', make, lambda t, d: t3f.project(t[0], t[1]),
                lambda e, d: to_dense(w._proj(tensor_of(e[0])), w.raw), lambda e, d: 4 * w._proj.cond * e[0].ifs,
                rng=rng, n=n, diff=False, depth=100., tt_out=True)


@op('project_sum')
def _(rng, n, dtype, kind):
    n = n or int(rng.integers(1, 4))
    w = point(rng, kind, dtype)
    ra = ranks_for(rng, w.raw, 3)
    form = gen.pick(rng, ['none', '1d', '2d'])
    K = int(rng.integers(2, 4))

    def make(rng, n):
        n = n or 2
        d = []
        if form == '1d':
            d = [(rng.standard_normal(n).astype(gen.NPD[dtype]), 0)]
        elif form == '2d':
            d = [(rng.standard_normal((n, K)).astype(gen.NPD[dtype]), 0)]
        return [mk(rng, w.raw, n, dtype, ra), w], d

    def model(e, d):
        s = np.stack([to_dense(w._proj(tensor_of(v)), w.raw) for v in e[0]])
        return s.sum(0) if form == 'none' else np.tensordot(d[0].T, s, 1)

    def scale(e, d):
        s = 4 * w._proj.cond * sum(v.ifs for v in e[0])
        return s * (1 if form == 'none' else np.max(abs(d[0])) + 1)
    return Inst('project_sum', make, lambda t, d: t3f.project_sum(t[0], t[1], *d), model, scale, rng=rng, n=n,
                diff=False, depth=100., whole=True, note=form, tt_out='batch' if form == '2d' else True)


@op('project_matmul', ('matrix',))
def _(rng, n, dtype, kind):
    # where and what have the same shape, so the matrix is square.
    d = int(rng.integers(2, 4))
    s = gen.sizes(rng, d, 12)
    raw = [s, [1] * d] if rng.random() < .6 else [s, gen.sizes(rng, d, 6)]
    w = None
    while w is None:
        r = gen.cond_point(rng, 'matrix', dtype, raw=raw, container='tf', rmax=3, tries=5)
        if r:
            w = r[0]
            w._proj = r[1]
        else:
            s = gen.sizes(rng, d, 12)
            raw = [s, [1] * d]
    ra = ranks_for(rng, raw, 3)
    rm = ranks_for(rng, [s, s], 2)

    def make(rng, n):
        return [mk(rng, raw, n, dtype, ra), w, mk(rng, [s, s], None, dtype, rm)], []

    def model(e, d):
        y = e[2].x @ e[0].x
        return to_dense(w._proj(ref.dense_to_tensor(y, *raw)), raw)
    return Inst('project_matmul', make, lambda t, d: t3f.project_matmul(t[0], t[1], t[2]), model,
                lambda e, d: 4 * w._proj.cond * e[0].ifs * e[2].ifs, rng=rng, n=n, diff=False, depth=200.,
                tt_out=True)


@op('tangent_arith')
def _(rng, n, dtype, kind):
    """Inner products and weighted sums of projections."""
    w = point(rng, kind, dtype)
    ra, rb = ranks_for(rng, w.raw, 3), ranks_for(rng, w.raw, 2)

    def make(rng, n):
        return [mk(rng, w.raw, n, dtype, ra), mk(rng, w.raw, n, dtype, rb), w], []

    def fn(t, d):
        p, q = t3f.project(t[0], t[2]), t3f.project(t[1], t[2])
        s = t3f.add_n_projected([p, q], coef=[2., -3.])
        return t3f.pairwise_flat_inner_projected(p, q), s

    def model(e, d):
        a = e[0] if isinstance(e[0], list) else [e[0]]
        b = e[1] if isinstance(e[1], list) else [e[1]]
        pa = [w._proj(tensor_of(v)) for v in a]
        pb = [w._proj(tensor_of(v)) for v in b]
        s = np.stack([to_dense(2 * u - 3 * v, w.raw) for u, v in zip(pa, pb)])
        if not isinstance(e[0], list):
            s = s[0]
        return [np.array([[np.sum(u * v) for v in pb] for u in pa]), s]

    def scale(e, d):
        a = e[0] if isinstance(e[0], list) else [e[0]]
        b = e[1] if isinstance(e[1], list) else [e[1]]
        sa, sb = max(v.ifs for v in a), max(v.ifs for v in b)
        return [8 * w._proj.cond * sa * sb, 12 * w._proj.cond * (sa + sb)]
    return Inst('tangent_arith', make, fn, model, scale, rng=rng, n=n, diff=False, depth=200., whole=True)


@op('tangent_gram')
def _(rng, n, dtype, kind):
    """Inner products of projections with themselves, each object used twice."""
    w = point(rng, kind, dtype)
    ra = ranks_for(rng, w.raw, 3)
    same = bool(rng.random() < .7)

    def make(rng, n):
        return [mk(rng, w.raw, n, dtype, ra), w], []

    def fn(t, d):
        p = t3f.project(t[0], t[1])
        return t3f.pairwise_flat_inner_projected(p, p if same else t3f.project(t[0], t[1]))

    def model(e, d):
        p = [w._proj(tensor_of(v)) for v in (e[0] if isinstance(e[0], list) else [e[0]])]
        return np.array([[np.sum(u * v) for v in p] for u in p])

    def scale(e, d):
        s = max(v.ifs for v in (e[0] if isinstance(e[0], list) else [e[0]]))
        return 8 * w._proj.cond * s ** 2
    return Inst('tangent_gram', make, fn, model, scale, rng=rng, n=n, diff=False, depth=200., whole=True,
                note='same object' if same else 'projected twice')


@op('gradients', batch=False)
def _(rng, n, dtype, kind):
    w = point(rng, kind, dtype)
    ra = ranks_for(rng, w.raw, 2)
    quad = bool(rng.random() < .5)

    def make(rng, n):
        return [w, mk(rng, w.raw, None, dtype, ra, style='normal')], []

    def fn(t, d):
        c = t[1]
        if quad:
            f = lambda x: t3f.frobenius_norm_squared(x, differentiable=True) + t3f.flat_inner(x, c)
        else:
            f = lambda x: t3f.flat_inner(x, c)
        return t3f.gradients(f, t[0], runtime_check=False)

    def model(e, d):
        g = tensor_of(e[1]) + (2 * tensor_of(e[0]) if quad else 0)
        return to_dense(w._proj(g), w.raw)
    return Inst('gradients', make, fn, model, lambda e, d: 8 * w._proj.cond * (e[0].ifs + e[1].ifs), rng=rng, n=n,
                diff=False, depth=200., tt_out=True)


@op('hvp', batch=False)
def _(rng, n, dtype, kind):
    w = point(rng, kind, dtype)
    ra = ranks_for(rng, w.raw, 2)

    def make(rng, n):
        return [w, mk(rng, w.raw, None, dtype, ra, style='normal')], []

    def fn(t, d):
        f = lambda x: t3f.frobenius_norm_squared(x, differentiable=True)
        return t3f.hessian_vector_product(f, t[0], t[1], runtime_check=False)
    return Inst('hvp', make, fn, lambda e, d: to_dense(2 * w._proj(tensor_of(e[1])), w.raw),
                lambda e, d: 16 * w._proj.cond * e[1].ifs, rng=rng, n=n, diff=False, depth=200., tt_out=True)


# ---------------------------------------------------------------- Kronecker

def kron_cores(rng, s, n, dtype, spd=False):
    cs = []
    for k in s:
        m = n or 1
        q = np.linalg.qr(rng.standard_normal((m, k, k)))[0]
        w = rng.uniform(.6, 1.8, size=(m, k))
        if spd:
            a = np.einsum('bij,bj,bkj->bik', q, w, q)
        else:
            p = np.linalg.qr(rng.standard_normal((m, k, k)))[0]
            a = np.einsum('bij,bj,bkj->bik', q, w, p)
        a = a.reshape(m, 1, k, k, 1)
        cs.append((a if n is not None else a[0]).astype(gen.NPD[dtype]))
    return cs


def kron(name, f, model, rng, n, dtype, spd=False, scale=None, **kw):
    s = [int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 5)))]
    if np.prod(s) > 24:
        s = s[:2]

    def make(rng, n):
        return [gen.wrap(rng, kron_cores(rng, s, n, dtype, spd), n, 'tf')], []
    return Inst(name, make, lambda t, d: f(t[0]), lambda e, d: model(e[0].x),
                scale or (lambda e, d: 100. * np.max(abs(model(e[0].x)))), rng=rng, n=n, depth=float(np.prod(s)),
                poly=False, **kw)


@op('k_det', ('matrix',))
def _(rng, n, dtype, kind):
    return kron('k_det', t3f.kronecker.determinant, np.linalg.det, rng, n, dtype)


@op('k_slog', ('matrix',))
def _(rng, n, dtype, kind):
    return kron('k_slog', t3f.kronecker.slog_determinant, lambda x: list(np.linalg.slogdet(x)), rng, n, dtype,
                scale=lambda e, d: [1e-3, 100. * (1 + len(e[0].x))])


@op('k_inv', ('matrix',))
def _(rng, n, dtype, kind):
    return kron('k_inv', t3f.kronecker.inv, np.linalg.inv, rng, n, dtype, tt_out=True)


@op('k_chol', ('matrix',))
def _(rng, n, dtype, kind):
    return kron('k_chol', t3f.kronecker.cholesky, np.linalg.cholesky, rng, n, dtype, spd=True, tt_out=True)
