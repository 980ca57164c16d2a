"""C28: random programs over the public operations; every intermediate result against dense arrays computed from the actual arguments."""
import math
import numpy as np
import tensorflow as tf
import t3f
import t3f.riemannian as rm
import t3f.approximate as ap
from vt import gen, ref, mon

STRATA = [('tensors', 4), ('matrices', 4), ('mixed', 3), ('traced', 2)]
QUICK = 1200
THOROUGH = 5500


class P(object):
    """A member of the pool: the library object and its dense meaning."""

    def __init__(self, ctx, tt, what='input', batch=None):
        self.tt = tt
        self.batch = mon.kind_of(tt) == 'batch' if batch is None else batch
        mon.is_kind(ctx, tt, self.batch, what)
        self.cores, _ = mon.metadata(ctx, tt, what, dynamic=ctx.dyn)
        self.dtype = self.cores[0].dtype.name
        self.raw = ref.modes(self.cores, self.batch)
        self.ranks = ref.ranks(self.cores, self.batch)
        self.matrix = len(self.raw) == 2
        self.bs = self.cores[0].shape[0] if self.batch else None
        self.x = ref.dense(self.cores, self.batch)
        self.a = ref.absdense(self.cores, self.batch)
        self.d = len(self.cores)
        self.made = what
        # Computed from projections.
        self.tangent = False

    @property
    def els(self):
        return [ref.element(self.cores, i) for i in range(self.bs)] if self.batch else [self.cores]

    @property
    def ifs(self):
        """Error scale of sweeps, shaped to broadcast against the dense value."""
        s = np.array([ref.interfaces_scale(e) for e in self.els])
        return s.reshape([-1] + [1] * (self.x.ndim - 1)) if self.batch else float(s[0])

    def lift(self):
        """Dense value and absolute value with a batch axis."""
        return (self.x, self.a) if self.batch else (self.x[None], self.a[None])

    def rawkey(self):
        return tuple(tuple(g) for g in self.raw)


class Pool(list):
    # The member to take whenever it fits.
    force = None


class Program(object):
    def __init__(self, ctx, rng, dtype):
        self.ctx, self.rng, self.dtype = ctx, rng, dtype
        self.pool = Pool()
        self.steps = []
        self.out = []

    def input(self, o):
        self.pool.append(P(self.ctx, o.tt))
        self.steps.append(('input', len(self.pool) - 1, None, None))

    def push(self, name, ids, f, want, tol, batch, sweep=False):
        """Runs f on library objects, checks the result, adds it to the pool."""
        self.ctx.note('%d: %s%s' % (len(self.pool), name, ids))
        res = self.ctx.call(name, f, *[self.pool[i].tt for i in ids])
        p = P(self.ctx, res, name, batch)
        self.ctx.true('modes of a result', p.x.shape == want.shape, lambda: '%s: shape %s instead of %s' % (name, p.x.shape, want.shape))
        # Values far below what the summands were are only known absolutely.
        self.ctx.close('value of %s' % name, p.x, want, tol, 'step %d' % len(self.pool))
        p.tangent = name == 'project' or any(self.pool[i].tangent for i in ids)
        self.pool.append(p)
        self.steps.append((name, len(self.pool) - 1, ids, f))
        return p

    def number(self, name, ids, f, want, tol):
        self.ctx.note('number %s%s' % (name, ids))
        res = self.ctx.call(name, f, *[self.pool[i].tt for i in ids])
        got = np.asarray(res, float)
        self.ctx.true('shape of a number', got.shape == np.shape(want), lambda: '%s: shape %s instead of %s' % (name, got.shape, np.shape(want)))
        self.ctx.close('value of %s' % name, got, np.asarray(want, float), np.asarray(tol, float), 'number')
        self.out.append((name, ids, f, np.asarray(want, float), np.asarray(tol, float)))
        return res


def tolf(ps, scale, extra=0.):
    """Tolerance from all arguments."""
    dt = 'float32' if any(p.dtype == 'float32' for p in ps) else 'float64'
    dep = ref.depth(*[p.cores for p in ps]) + 16 + extra + sum(sum(int(v) for v in g) for p in ps for g in p.raw)
    return mon.tol_for(dt, dep, scale)


def axes(p):
    return tuple(range(1, p.x.ndim)) if p.batch else None


def pick_id(rng, pool, cond):
    """Prefers recent members, so that chains get long."""
    ids = [i for i, p in enumerate(pool) if p is not None and cond(p)]
    if not ids:
        return None
    if pool.force in ids:
        return pool.force
    if rng.random() < .6:
        ids = ids[-3:]
    return ids[int(rng.integers(len(ids)))]


def compatible(p, q):
    return p.rawkey() == q.rawkey() and p.dtype == q.dtype and (not p.batch or not q.batch or p.bs == q.bs or 1 in (p.bs, q.bs))


def small(*ps):
    return all(max(p.ranks) <= 12 for p in ps) and sum(int(np.prod([c.size for c in (p.cores[0],)])) for p in ps) < 10 ** 6


def both(p, q):
    """Dense values of two broadcastable operands, and whether the result is a batch."""
    if p.batch or q.batch:
        (x, a), (y, b) = p.lift(), q.lift()
        return x, a, y, b, True
    return p.x, p.a, q.x, q.a, False


# Unary steps. -----------------------------------------------------------------------------------

def s_neg(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    pr.push('neg', [i], lambda t: -t, -p.x, tolf([p], p.a), p.batch)


def s_scale(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    c = float(gen.pick(rng, [-2., .5, 3., -.25, .1]))
    f = gen.pick(rng, [lambda t: t * c, lambda t: c * t, lambda t: t3f.multiply(t, c)])
    pr.push('scale', [i], f, p.x * c, tolf([p], p.a * abs(c)), p.batch)


def s_shrink(pr, rng):
    """Brings a large value back to size one."""
    i = pick_id(rng, pr.pool, lambda p: np.max(np.abs(p.x)) > 64)
    if i is None:
        return s_scale(pr, rng)
    p = pr.pool[i]
    c = float(2. ** -np.floor(np.log2(np.max(np.abs(p.x)))))
    pr.push('scale', [i], lambda t: t * c, p.x * c, tolf([p], p.a * c), p.batch)


def s_transpose(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: p.matrix)
    if i is None:
        return s_neg(pr, rng)
    p = pr.pool[i]
    pr.push('transpose', [i], t3f.transpose, np.swapaxes(p.x, -1, -2), tolf([p], np.swapaxes(p.a, -1, -2)), p.batch)


def s_round(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    r = gen.pick(rng, [None, 200, [1] + [300] * (p.d - 1) + [1], np.inf])
    pr.push('round', [i], lambda t: t3f.round(t, max_tt_rank=r), p.x, tolf([p], 4 * p.ifs, 50), p.batch)


def s_orth(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    l2r = p.batch or bool(rng.random() < .5)
    q = pr.push('orthogonalize', [i], lambda t: t3f.orthogonalize_tt_cores(t, left_to_right=l2r), p.x, tolf([p], 4 * p.ifs, 50), p.batch)
    for e in q.els:
        for k in (range(q.d - 1) if l2r else range(1, q.d)):
            c = np.asarray(e[k], float)
            m = c.reshape(-1, c.shape[-1]) if l2r else c.reshape(c.shape[0], -1).T
            pr.ctx.true('orthogonal cores', np.abs(m.T @ m - np.eye(m.shape[1])).max() <= 1e3 * ref.EPS[q.dtype], lambda: 'core %d' % k)


def s_renorm(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: min(np.linalg.norm(c) for e in p.els for c in e) > 1e-3)
    if i is None:
        return s_neg(pr, rng)
    p = pr.pool[i]
    pr.push('renormalize', [i], t3f.renormalize_tt_cores, p.x, tolf([p], p.a, 50), p.batch)


def s_cast(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    dt = gen.pick(rng, ['float32', 'float64'])
    q = pr.push('cast', [i], lambda t: t3f.cast(t, gen.TFD[dt]), p.x, mon.tol_for('float32', ref.depth(p.cores), p.a), p.batch)
    pr.ctx.true('dtype of a result', q.dtype == dt, q.dtype)


def s_like(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    one = bool(rng.random() < .5)
    pr.push('ones_like' if one else 'zeros_like', [i], t3f.ones_like if one else t3f.zeros_like,
            np.full(p.x.shape[1:] if p.batch else p.x.shape, 1. if one else 0.), 0., False)


def s_expand(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    pr.push('expand', [i], t3f.expand_batch_dim, p.lift()[0], tolf([p], p.lift()[1]), True)


def s_squeeze(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: p.batch)
    if i is None:
        return s_expand(pr, rng)
    p = pr.pool[i]
    one = p.bs == 1
    pr.push('squeeze', [i], t3f.squeeze_batch_dim, p.x[0] if one else p.x, tolf([p], p.a[0] if one else p.a), not one)


def s_slice(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: not p.matrix and p.d > 1)
    if i is None:
        return s_round(pr, rng)
    p = pr.pool[i]
    key = []
    for n in p.raw[0]:
        z = rng.random()
        if z < .2:
            key.append(int(rng.integers(n)))
        elif z < .7:
            key.append(slice(None))
        else:
            lo = int(rng.integers(n))
            key.append(slice(lo, int(rng.integers(lo + 1, n + 1))))
    if not any(isinstance(k, slice) for k in key):
        key[0] = slice(None)
    batch = p.batch
    if p.batch:
        if rng.random() < .3:
            key = [int(rng.integers(p.bs))] + key
            batch = False
        else:
            key = [slice(None)] + key
    key = tuple(key)
    pr.push('slice', [i], lambda t: t[key], p.x[key], tolf([p], p.a[key]), batch)




def s_batch_index(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: p.batch)
    if i is None:
        return s_expand(pr, rng)
    p = pr.pool[i]
    if rng.random() < .5:
        k = int(rng.integers(p.bs))
        pr.push('element', [i], lambda t: t[k], p.x[k], tolf([p], p.a[k]), False)
    else:
        lo = int(rng.integers(p.bs))
        k = slice(lo, int(rng.integers(lo + 1, p.bs + 1)))
        pr.push('part', [i], lambda t: t[k], p.x[k], tolf([p], p.a[k]), True)


def s_rebuild(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]

    def f(t):
        if p.batch:
            return t3f.TensorTrainBatch(t.tt_cores, t.get_raw_shape(), t.get_tt_ranks(), t.batch_size)
        return t3f.TensorTrain(t.tt_cores, t.get_raw_shape(), t.get_tt_ranks())
    pr.push('rebuild', [i], f, p.x, tolf([p], p.a), p.batch)


def s_dense_trip(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: not p.batch)
    if i is None:
        return s_round(pr, rng)
    p = pr.pool[i]

    def f(t):
        x = t3f.full(t)
        if p.matrix:
            return t3f.to_tt_matrix(x, p.raw, max_tt_rank=1000)
        return t3f.to_tt_tensor(x, max_tt_rank=1000)
    # The dense value can consist of rounding errors only.
    norm = np.linalg.norm(p.x) + np.linalg.norm(tolf([p], p.a))
    pr.push('through dense', [i], f, p.x, tolf([p], p.a + 20 * p.d * norm, 100), False)


def s_variable(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    name = 'p%d' % int(rng.integers(1 << 40))
    q = pr.push('variable', [i], lambda t: t3f.get_variable(name, initializer=t), p.x, tolf([p], p.a), p.batch)
    me = len(pr.pool) - 1
    # Another value of the same structure moves in.
    js = [j for j, o in enumerate(pr.pool[:-1]) if o is not None and [c.shape for c in o.cores] == [c.shape for c in q.cores] and o.dtype == q.dtype]
    if js and rng.random() < .7:
        j = js[int(rng.integers(len(js)))]
        o = pr.pool[j]
        pr.push('assign', [me, j], t3f.assign, o.x, tolf([o], o.a), o.batch)
        # The old view shows the new value as well; it is not used again.
        now = ref.dense(ref.np_cores(q.tt), q.batch)
        pr.ctx.true('assigned variable', np.array_equal(now, o.x), 'the variable does not show the assigned value')
        pr.pool[me] = None


def s_assign(pr, rng):
    """A variable made earlier gets another value; what was computed from it stays."""
    i = pick_id(rng, pr.pool, lambda p: all(isinstance(c, tf.Variable) for c in p.tt.tt_cores))
    if i is None:
        return s_variable(pr, rng)
    p = pr.pool[i]
    new = [rng.standard_normal(c.shape).astype(c.dtype) for c in p.cores]
    cls = t3f.TensorTrainBatch if p.batch else t3f.TensorTrain
    how = gen.pick(rng, ['assign', 'cores', 'one core'])
    pr.ctx.note('assignment to %d by %s' % (i, how))
    if how == 'assign':
        pr.ctx.call('assign', t3f.assign, p.tt, cls([tf.constant(c) for c in new]))
    else:
        ks = range(p.d) if how == 'cores' else [int(rng.integers(p.d))]
        for k in ks:
            p.tt.tt_cores[k].assign(new[k])
    mine = set(id(c) for c in p.tt.tt_cores)
    for k, q in enumerate(pr.pool):
        if q is None:
            continue
        if any(id(c) in mine for c in q.tt.tt_cores):
            pr.pool[k] = P(pr.ctx, q.tt, q.made, q.batch)
        # Tangent arithmetic would mix the spaces at the old and at the new value of the point.
        pr.pool[k].tangent = False
    if how != 'one core':
        pr.ctx.true('assigned variable', all(np.array_equal(a, b) for a, b in zip(pr.pool[i].cores, new)),
                    'the variable does not show the assigned value')


# Binary and n-ary steps. --------------------------------------------------------------------------

def two(pr, rng, ok=lambda p, q: True):
    i = pick_id(rng, pr.pool, small)
    if i is None:
        return None, None
    p = pr.pool[i]
    j = pick_id(rng, pr.pool, lambda q: compatible(p, q) and small(q) and ok(p, q))
    return i, j


def s_add(pr, rng):
    i, j = two(pr, rng)
    if j is None:
        return s_round(pr, rng)
    p, q = pr.pool[i], pr.pool[j]
    x, a, y, b, batch = both(p, q)
    if rng.random() < .6:
        pr.push('add', [i, j], lambda t, u: t + u, x + y, tolf([p, q], a + b), batch)
    else:
        pr.push('sub', [i, j], lambda t, u: t - u, x - y, tolf([p, q], a + b), batch)


def s_mul(pr, rng):
    i, j = two(pr, rng, lambda p, q: max(u * v for u, v in zip(p.ranks, q.ranks)) <= 16)
    if j is None:
        return s_round(pr, rng)
    p, q = pr.pool[i], pr.pool[j]
    x, a, y, b, batch = both(p, q)
    pr.push('mul', [i, j], gen.pick(rng, [lambda t, u: t * u, t3f.multiply]), x * y, tolf([p, q], a * b), batch)


def s_matmul(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: p.matrix and small(p))
    j = None
    if i is not None:
        p = pr.pool[i]
        j = pick_id(rng, pr.pool, lambda q: q.matrix and small(q) and q.raw[0] == p.raw[1] and q.dtype == p.dtype and
                    (not p.batch or not q.batch or p.bs == q.bs or 1 in (p.bs, q.bs)) and
                    max(u * v for u, v in zip(p.ranks, q.ranks)) <= 16 and np.prod(p.raw[0]) * np.prod(q.raw[1]) <= 3000)
    if j is None:
        return s_transpose(pr, rng)
    q = pr.pool[j]
    x, a, y, b, batch = both(p, q)
    pr.push('matmul', [i, j], t3f.matmul, x @ y, tolf([p, q], a @ b), batch)


def s_concat(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    j = pick_id(rng, pr.pool, lambda q: q.rawkey() == p.rawkey() and q.dtype == p.dtype and q.ranks == p.ranks and
                (p.bs or 1) + (q.bs or 1) <= 9)
    if j is None:
        return s_expand(pr, rng)
    q = pr.pool[j]
    (x, a), (y, b) = p.lift(), q.lift()
    pr.push('concat', [i, j], lambda t, u: t3f.concat_along_batch_dim([t3f.expand_batch_dim(t), t3f.expand_batch_dim(u)]), np.concatenate([x, y]), tolf([p, q], np.concatenate([a, b])), True)


def s_add_n(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: not p.batch and small(p))
    if i is None:
        return s_add(pr, rng)
    p = pr.pool[i]
    ids = [i]
    for _ in range(int(rng.integers(1, 4))):
        ids.append(pick_id(rng, pr.pool, lambda q: not q.batch and compatible(p, q) and max(q.ranks) <= 6))
    ids = [k for k in ids if k is not None]
    if len(ids) < 2:
        return s_round(pr, rng)
    ps = [pr.pool[k] for k in ids]
    pr.push('add_n', ids, lambda *ts: ap.add_n(list(ts), max_tt_rank=1000), sum(q.x for q in ps),
            tolf(ps, 8 * len(ps) * sum(q.ifs for q in ps), 100), False)


def s_reduce(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: p.batch and small(p) and max(p.ranks) * p.bs <= 30)
    if i is None:
        return s_expand(pr, rng)
    p = pr.pool[i]
    c = [float(v) for v in rng.integers(-3, 4, size=p.bs)] if rng.random() < .5 else None
    w = np.tensordot(np.ones(p.bs) if c is None else np.array(c), p.x, 1)
    s = np.sum(np.abs(1. if c is None else np.array(c)) * np.ravel(p.ifs))
    pr.push('reduce_sum', [i], lambda t: ap.reduce_sum_batch(t, max_tt_rank=1000, coef=c), w,
            tolf([p], 8 * p.bs * s, 100), False)


def s_along(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: p.batch)
    if i is None:
        return s_expand(pr, rng)
    p = pr.pool[i]
    v = rng.standard_normal(p.bs).astype(gen.NPD[p.dtype])
    sh = [-1] + [1] * (p.x.ndim - 1)
    vv = v.astype(float).reshape(sh)
    pr.push('multiply_along', [i], lambda t: t3f.multiply_along_batch_dim(t, tf.constant(v)), p.x * vv, tolf([p], p.a * np.abs(vv)), True)


def s_scaled_by_number(pr, rng):
    """A number computed from members scales a member."""
    i = pick_id(rng, pr.pool, lambda p: not p.batch and small(p))
    if i is None:
        return s_along(pr, rng)
    p = pr.pool[i]
    j = pick_id(rng, pr.pool, lambda q: not q.batch and compatible(p, q))
    q = pr.pool[j]
    s = float(np.sum(p.x * q.x))
    e = float(np.sum(p.a * q.a))
    pr.push('scaled by inner product', [i, j], lambda t, u: t * t3f.flat_inner(t, u), p.x * s, tolf([p, q], p.a * e), False)


def s_project(pr, rng):
    def good(x):
        if x.batch or x.d < 2 or x.dtype != 'float64' or not small(x):
            return False
        n = np.linalg.norm(x.x)
        if not n > 1e-3 or n > 1e6:
            return False
        t = x.x if not x.matrix else ref.as_tensor(x.cores)
        for k, s in enumerate(ref.unfold_svals(t)):
            r = x.ranks[k + 1]
            if r > len(s) or s[r - 1] < 1e-2 * s[0] or (r < len(s) and s[r] > 1e-10 * s[0]):
                return False
        return True
    i = pick_id(rng, pr.pool, good)
    if i is None:
        return s_round(pr, rng)
    x = pr.pool[i]
    j = pick_id(rng, pr.pool, lambda q: q.rawkey() == x.rawkey() and q.dtype == x.dtype and small(q))
    z = pr.pool[j]
    t = x.x if not x.matrix else ref.as_tensor(x.cores)
    proj = ref.Projector(t, x.ranks)

    def apply(e):
        e = ref.as_tensor(e) if x.matrix else ref.dense(e)
        r = proj(e)
        return ref.tensor_to_dense(r, *x.raw) if x.matrix else r
    w = [apply(e) for e in z.els]
    w = np.stack(w) if z.batch else w[0]
    pr.push('project', [j, i], rm.project, w, 1e-9 * z.ifs + np.zeros_like(w), z.batch)


def tangent_inner(pr, p, q):
    pr.ctx.evals['tangent arithmetic refused or right'] += 1
    try:
        g = np.asarray(t3f.pairwise_flat_inner_projected(p.tt, q.tt), float)
    except Exception:
        g = None
    (x, a), (y, b) = p.lift(), q.lift()
    x, a, y, b = [v.reshape(len(v), -1) for v in (x, a, y, b)]
    s = 1e6 * ref.EPS[p.dtype] * max(np.max(p.ifs), 1e-30) * max(np.max(q.ifs), 1e-30)
    if g is not None:
        pr.ctx.close('tangent inner product', g, x @ y.T, s, '%s and %s' % (p.made, q.made))


def s_tangent(pr, rng):
    """Tangent-space arithmetic on whatever came out of projections: refused or right."""
    i = pick_id(rng, pr.pool, lambda p: p.tangent)
    if i is None:
        return s_project(pr, rng)
    if rng.random() < .6:
        pr.pool.force = i
        f = gen.pick(rng, [s_neg, s_scale, s_round, s_orth, s_expand, s_squeeze, s_batch_index, s_renorm, s_transpose] + [s_slice] * 5 + [s_add] * 7)
        f(pr, rng)
        pr.pool.force = None
        i = len(pr.pool) - 1
        if not pr.pool[i].tangent:
            return
    p = pr.pool[i]
    j = pick_id(rng, pr.pool, lambda q: q.tangent and q.rawkey() == p.rawkey() and q.dtype == p.dtype)
    if rng.random() < .4:
        j = i
    q = pr.pool[j]
    tangent_inner(pr, p, q)
    if p.batch == q.batch and p.bs == q.bs:
        try:
            r = t3f.add_n_projected([p.tt, q.tt])
        except Exception:
            return
        pr.push('add_n_projected', [i, j], lambda t, u: t3f.add_n_projected([t, u]), p.x + q.x,
                1e6 * ref.EPS[p.dtype] * (np.max(p.ifs) + np.max(q.ifs)) + np.zeros_like(p.x), p.batch)


# Numbers. ---------------------------------------------------------------------------------------

def s_inner(pr, rng):
    i, j = two(pr, rng)
    if j is None:
        return s_norm(pr, rng)
    p, q = pr.pool[i], pr.pool[j]
    x, a, y, b, batch = both(p, q)
    ax = tuple(range(1, x.ndim)) if batch else None
    pr.number('inner', [i, j], t3f.flat_inner, np.sum(x * y, axis=ax), tolf([p, q], np.sum(a * b, axis=ax)))


def s_norm(pr, rng):
    i = pick_id(rng, pr.pool, small)
    if i is None:
        return s_round(pr, rng)
    p = pr.pool[i]
    diff = bool(rng.random() < .5)
    pr.number('norm', [i], lambda t: t3f.frobenius_norm_squared(t, differentiable=diff), np.sum(p.x ** 2, axis=axes(p)),
              tolf([p, p], np.maximum(np.sum(p.a ** 2, axis=axes(p)), np.ravel(p.ifs) ** 2 if p.batch else p.ifs ** 2)))


def s_gather(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: not p.matrix)
    if i is None:
        return s_norm(pr, rng)
    p = pr.pool[i]
    n = int(rng.integers(1, 5))
    idx = np.stack([rng.integers(0, s, size=n) for s in p.x.shape], 1)
    pr.number('gather', [i], lambda t: t3f.gather_nd(t, tf.constant(idx)), p.x[tuple(idx.T)], tolf([p], p.a[tuple(idx.T)]))


def s_gram(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: p.batch and small(p))
    if i is None:
        return s_inner(pr, rng)
    p = pr.pool[i]
    x, a = p.x.reshape(p.bs, -1), p.a.reshape(p.bs, -1)
    pr.number('gram', [i], t3f.gram_matrix, x @ x.T, tolf([p, p], a @ a.T))


def s_full(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: True)
    p = pr.pool[i]
    pr.number('full', [i], t3f.full, p.x, tolf([p], p.a))


def s_bilinear(pr, rng):
    i = pick_id(rng, pr.pool, lambda p: p.matrix and not p.batch and small(p))
    if i is None:
        return s_gram(pr, rng)
    m = pr.pool[i]

    def vec(g):
        return pick_id(rng, pr.pool, lambda q: q.matrix and not q.batch and q.raw[0] == g and all(v == 1 for v in q.raw[1]) and q.dtype == m.dtype and small(q))
    j, k = vec(m.raw[0]), vec(m.raw[1])
    if j is None or k is None:
        return s_full(pr, rng)
    u, v = pr.pool[j], pr.pool[k]
    w = (u.x.T @ m.x @ v.x)[0, 0]
    s = (u.a.T @ m.a @ v.a)[0, 0]
    pr.number('bilinear', [i, j, k], t3f.bilinear_form, w, tolf([m, u, v], s))


COMMON = [(s_neg, 1), (s_scale, 2), (s_shrink, 2), (s_round, 4), (s_orth, 3), (s_renorm, 2), (s_cast, .7), (s_like, .7), (s_expand, 2), (s_squeeze, 1.5),
          (s_batch_index, 2), (s_rebuild, 1.5), (s_dense_trip, 1), (s_variable, 1.5), (s_assign, 1.5), (s_add, 5), (s_mul, 3), (s_concat, 2), (s_add_n, 1), (s_reduce, 1),
          (s_along, 1), (s_scaled_by_number, 1), (s_project, 3), (s_tangent, 3), (s_inner, 2), (s_norm, 1.5), (s_gram, 1), (s_full, 1)]
TENSOR = COMMON + [(s_slice, 3), (s_gather, 2)]
MATRIX = COMMON + [(s_transpose, 3), (s_matmul, 6), (s_bilinear, 2)]
MIXED = COMMON + [(s_slice, 3), (s_gather, 2), (s_transpose, 2), (s_matmul, 4), (s_bilinear, 1)]


def inputs(pr, rng, matrices, tensors):
    d = int(rng.integers(1, 5))
    n = gen.sizes(rng, d, 40)
    m = gen.sizes(rng, d, 30) if rng.random() < .5 else list(n)
    groups = []
    if tensors:
        groups += [[n], [n]]
    if matrices:
        groups += [[n, m], [m, n], [n, n], [n, [1] * d], [m, [1] * d]]
    for _ in range(int(rng.integers(2, 5))):
        raw = groups[int(rng.integers(len(groups)))]
        bs = gen.count(rng, int(rng.integers(1, 4)), .03, hi=20) if rng.random() < .35 else None
        pr.input(gen.obj(rng, raw=raw, bs=bs, dtype=pr.dtype, rmax=3, style=gen.pick(rng, ['normal', 'normal', 'int', 'pos', 'sparse']),
                         container=gen.pick(rng, ['np', 'tf', 'tf'])))


def case(ctx, rng, st):
    ctx.dyn = bool(rng.random() < .2)
    pr = Program(ctx, rng, gen.pick(rng, ['float64', 'float32'], [4, 1]))
    kind = gen.pick(rng, ['tensors', 'matrices', 'mixed']) if st == 'traced' else st
    inputs(pr, rng, kind != 'tensors', kind != 'matrices')
    table = {'tensors': TENSOR, 'matrices': MATRIX, 'mixed': MIXED}[kind]
    if st == 'traced':
        table = [(f, w) for f, w in table if f not in (s_variable, s_assign, s_tangent)]
    fs, ws = [f for f, _ in table], np.array([w for _, w in table])
    n = int(rng.integers(4, 15))
    names = []
    for _ in range(n):
        live = [p for p in pr.pool if p is not None]
        last = live[-1]
        big = max(np.max(np.abs(p.x)) for p in live[-3:])
        if big > (1e4 if pr.dtype == 'float32' else 1e12):
            f = s_shrink
        elif max(last.ranks) > 8 and rng.random() < .7:
            f = s_round
        else:
            f = fs[int(rng.choice(len(fs), p=ws / ws.sum()))]
        f(pr, rng)
        names.append(f.__name__)
    ctx.sig(st, names, [p.ranks for p in pr.pool if p is not None])
    # Whatever came out of projections: refused by tangent-space arithmetic or treated right.
    if st != 'traced':
        for i in [i for i, p in enumerate(pr.pool) if p is not None and p.tangent][-2:]:
            pr.pool.force = i
            (s_slice if not pr.pool[i].matrix else gen.pick(rng, [s_transpose, s_neg, s_batch_index]))(pr, rng)
            pr.pool.force = None
        seen = [p for p in pr.pool if p is not None and p.tangent and p.made != 'project'][-6:]
        for p in seen:
            tangent_inner(pr, p, p)
    # Nothing made on the way was changed by what came later.
    for i, p in enumerate(pr.pool):
        if p is None:
            continue
        now = ref.np_cores(p.tt)
        ctx.true('earlier results are intact', len(now) == len(p.cores) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(now, p.cores)),
                 lambda: 'member %d (%s) changed' % (i, p.made))
    if st == 'traced':
        retrace(ctx, pr)


def retrace(ctx, pr):
    """The same program inside one graph."""
    ins = [s[1] for s in pr.steps if s[0] == 'input']
    batch = [pr.pool[i].batch for i in ins]

    def f(*args):
        pool = []
        for cs, b in zip(args, batch):
            pool.append((t3f.TensorTrainBatch if b else t3f.TensorTrain)(list(cs)))
        for name, me, ids, fn in pr.steps[len(ins):]:
            pool.append(fn(*[pool[i] for i in ids]))
        nums = [fn(*[pool[i] for i in ids]) for _, ids, fn, _, _ in pr.out]
        return [[tf.convert_to_tensor(c) for c in t.tt_cores] for t in pool], nums
    res, nums = ctx.call('traced program', tf.function(f), *[[tf.constant(c) for c in pr.pool[i].cores] for i in ins])
    for i, (cs, p) in enumerate(zip(res, pr.pool)):
        x = ref.dense([np.asarray(c) for c in cs], p.batch)
        ctx.true('traced program keeps shapes', x.shape == p.x.shape, lambda: 'member %d (%s): %s instead of %s' % (i, p.made, x.shape, p.x.shape))
        # Both are within their tolerances of the truth; errors travel through later steps.
        s = max(np.max(q.a) for q in pr.pool[:i + 1]) + max(np.max(np.asarray(q.ifs)) for q in pr.pool[:i + 1])
        scale = max(s, s * s) if np.isfinite(s) else s
        dt = 'float32' if any(q.dtype == 'float32' for q in pr.pool[:i + 1]) else 'float64'
        ctx.close('traced program', x, p.x, 1e4 * ref.EPS[dt] * scale * (i + 1) + np.zeros_like(x), 'member %d (%s)' % (i, p.made))
