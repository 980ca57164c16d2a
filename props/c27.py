"""C27: sizes of all tensors produced (op callback) and values by core-wise numpy algebra on objects of up to 10^60 entries."""
import math
import numpy as np
import tensorflow as tf
import t3f
import t3f.riemannian as rm
import t3f.approximate as ap
from t3f import ops as t3f_ops
from tensorflow.python.framework import op_callbacks
from vt import gen, ref, mon, big
from props.c15 import NN

STRATA = [('arithmetic', 5), ('inner', 5), ('matrix', 4), ('elements', 4), ('decompositions', 4), ('tangent', 4), ('autodiff', 2),
          ('sums', 2), ('batch', 2), ('initializers', 3), ('kronecker', 2), ('info', 1), ('traced', 1)]
QUICK = 1200
THOROUGH = 5000

# Elements of one tensor; legitimate ones stay below 2*10^5 here.
LIMIT = 3 * 10 ** 6


class TooLarge(Exception):
    pass


class Sizes(object):
    """Watches every tensor produced while it is active."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.most = 0

    def _cb(self, op_type, inputs, attrs, outputs, op_name=None, graph=None):
        self.ctx.evals['size of a produced tensor'] += 1
        for o in outputs:
            sh = getattr(o, 'shape', None)
            if sh is None or sh.rank is None:
                continue
            n = 1
            for v in sh.as_list():
                n *= 1 if v is None else v
            self.most = max(self.most, n)
            if n > LIMIT:
                raise TooLarge('%s produced a tensor of shape %s' % (op_type, sh))

    def __enter__(self):
        # Bound once: removal goes by identity.
        self.cb = self._cb
        op_callbacks.add_op_callback(self.cb)
        return self

    def __exit__(self, *a):
        op_callbacks.remove_op_callback(self.cb)


def call(ctx, what, f):
    with Sizes(ctx):
        try:
            return ctx.call(what, f)
        except MemoryError as e:
            ctx.fail('memory', '%s: %s' % (what, e))


class Big(object):
    """els: list of lists of numpy cores."""

    def __init__(self, els, batch, dtype):
        self.els = [[np.asarray(c, gen.NPD[dtype]) for c in e] for e in els]
        self.batch, self.dtype = batch, dtype
        if batch:
            self.tt = t3f.TensorTrainBatch([tf.constant(np.stack([e[k] for e in self.els])) for k in range(len(els[0]))])
        else:
            self.tt = t3f.TensorTrain([tf.constant(c) for c in self.els[0]])
        self.bs = len(els) if batch else None


def setting(rng, matrix=False, square=False, dtype=None, cap=None, nmax=None):
    """Modes [n] or [n, m] of a huge object."""
    dtype = dtype or gen.pick(rng, ['float64', 'float32'], [4, 1])
    hi = 60. if dtype == 'float64' else 15.
    if cap:
        hi = min(hi, cap)
    while True:
        d = int(rng.integers(20, 121))
        top = nmax or int(gen.pick(rng, [2, 3, 4, 10]))
        raw = []
        for _ in range(2 if matrix else 1):
            raw.append([int(v) for v in rng.integers(2, top + 1, size=d)])
        if square:
            raw[1] = list(raw[0])
        logs = [sum(math.log10(v) for v in g) for g in raw]
        if min(logs) > 9 and sum(logs) < hi * (1 if not matrix else 1.):
            return raw, dtype
        if matrix and min(logs) > 9 and dtype == 'float32' and sum(logs) < 24:
            return raw, dtype


def rank_list(rng, d, top=6):
    t = int(rng.integers(1, top + 1))
    return [1] + [int(v) for v in rng.integers(1, t + 1, size=d - 1)] + [1]


def element(rng, raw, rks, alpha):
    res = []
    for k in range(len(raw[0])):
        sh = [rks[k]] + [g[k] for g in raw] + [rks[k + 1]]
        n = 1
        for g in raw:
            n *= g[k]
        res.append(rng.standard_normal(sh) * n ** alpha / np.sqrt(rks[k + 1]))
    return res


def bumps(rng, els, dtype, top):
    """Factors of cores: products of neighbouring cores are huge or tiny, but within the range of the
    type in whatever order they are multiplied."""
    d = len(els[0])
    hi, lo = (30, -30) if dtype == 'float32' else (top, -top)
    how = gen.pick(rng, ['walk', 'hill', 'valley', 'slope'], [1, 1, 1, 3])
    end = 0
    if how == 'slope':
        end = int((110 if dtype == 'float32' else 800 if top > 200 else top) * rng.uniform(.75, 1.))
        if rng.random() < .3:
            end = -int(end * .3)
        c = np.sort(rng.integers(0, abs(end) + 1, size=d - 1)) * np.sign(end)
        if rng.random() < .5:
            # Entries near one, so that the slope is that of all products.
            for cs in els:
                for k in range(d):
                    cs[k] = np.sign(cs[k]) * (1 + .1 * np.tanh(cs[k])) / cs[k].shape[-1]
    elif how == 'walk':
        c = np.clip(np.cumsum(rng.integers(-20, 24, size=d - 1) * int(rng.integers(1, 5))), lo, hi)
    else:
        h = (hi if how == 'hill' else lo) * rng.uniform(.5, 1.)
        c = np.round(h * np.sin(np.pi * np.arange(1, d) / d))
    e = np.diff(np.concatenate([[0], c, [end]]))
    if np.max(np.abs(e)) > (100 if dtype == 'float32' else 500):
        return
    for cs in els:
        for k in range(d):
            cs[k] = cs[k] * 2. ** e[k]


def draw(rng, raw, dtype, bs=None, top=6, rks=None, alpha=None, bumpy=False):
    rks = rks or rank_list(rng, len(raw[0]), top)
    if alpha is None:
        alpha = float(gen.pick(rng, [-.5, -.25, 0.])) if dtype == 'float64' else -.25
    els = [element(rng, raw, rks, alpha) for _ in range(bs or 1)]
    if bumpy:
        bumps(rng, els, dtype, bumpy)
    return Big(els, bs is not None, dtype)


def parts(ctx, res, batch, what):
    """Elements of a result as lists of numpy cores, metadata checked."""
    mon.is_kind(ctx, res, batch, what)
    cores = mon.cores_of(ctx, res, what)
    raw = ref.modes(cores, batch)
    ctx.true('reported shapes', [g.as_list() for g in res.get_raw_shape()] == raw and
             res.get_tt_ranks().as_list() == ref.ranks(cores, batch), lambda: '%s: %s' % (what, res))
    sh = list(raw[0]) if len(raw) == 1 else [math.prod(g) for g in raw]
    sh = ([cores[0].shape[0]] if batch else []) + sh
    ctx.true('reported overall shape', res.get_shape().as_list() == sh, lambda: '%s: %s instead of %s' % (what, res.get_shape(), sh))
    if not batch:
        return [cores]
    return [[c[i] for c in cores] for i in range(cores[0].shape[0])]


def tol(dtype, cores, s):
    r = max(c.shape[-1] for c in cores)
    return mon.tol_for(dtype, ref.depth(cores), s) * (1 + r)


def same(ctx, monitor, res, wants, dtype, what, probe=None, factor=1.):
    """A TT result against lists of reference cores; probes only for core-wise operations."""
    got = parts(ctx, res, res_batch(wants), what)
    els = wants[1] if isinstance(wants, tuple) else [wants]
    ctx.true('batch size', len(got) == len(els), lambda: '%s: %d elements instead of %d' % (what, len(got), len(els)))
    for g, w in zip(got, els):
        ctx.true('modes', [c.shape[1:-1] for c in g] == [c.shape[1:-1] for c in w], lambda: '%s: modes differ' % what)
        ctx.true('finite', all(np.all(np.isfinite(c)) for c in g), lambda: '%s: not finite' % what)
        err = big.diff(g, w)
        t = factor * tol(dtype, w, big.dot_scale(w)) + 100 * ref.EPS['float64'] * big.dot_scale(big.flat(g))
        ctx.true(monitor, err <= t, lambda: '%s: distance %g, allowed %g, norm %g' % (what, err, t, big.norm(w)))
        if probe is not None:
            for _ in range(2):
                p = indices(probe, w)
                a, b = big.value(big.path(g, p)), big.value(big.path(w, p))
                s = tol(dtype, w, big.dot_scale(big.path(w, p)))
                ctx.true(monitor + ' at an entry', abs(a - b) <= s, lambda: '%s: %g instead of %g, allowed %g' % (what, a, b, s))


def res_batch(wants):
    return isinstance(wants, tuple)


def pack(els, batch):
    return ('batch', els) if batch else els[0]


def indices(rng, cores):
    return [int(rng.integers(0, c[0, ..., 0].size)) for c in cores]


def number(ctx, monitor, got, wants, tols, what):
    got = np.asarray(got, float)
    ctx.true('shape of numbers', got.shape == np.shape(wants), lambda: '%s: shape %s instead of %s' % (what, got.shape, np.shape(wants)))
    ctx.close(monitor, got, np.asarray(wants, float), np.asarray(tols, float), what)


def case(ctx, rng, st):
    globals()['do_' + st](ctx, rng)


def bsize(rng):
    return gen.count(rng, int(rng.integers(1, 4)), hi=20) if rng.random() < .4 else None


def zipb(*bigs):
    n = max([b.bs for b in bigs if b.batch] or [1])
    return [[b.els[i if len(b.els) > 1 else 0] for b in bigs] for i in range(n)], any(b.batch for b in bigs)


def pair(rng, bs):
    """Batch sizes of two operands."""
    if bs is None:
        return None, None
    return gen.pick(rng, [(bs, bs), (bs, 1), (1, bs), (bs, None), (None, bs)])


def do_arithmetic(ctx, rng):
    matrix = rng.random() < .4
    raw, dt = setting(rng, matrix, cap=40 if matrix else None)
    op = gen.pick(rng, ['add', 'sub', 'mul', 'scale', 'scale left', 'neg', 'cast', 'scale tensor'])
    b1, b2 = pair(rng, bsize(rng))
    top = 4 if op == 'mul' else 6
    alpha = None if dt == 'float64' else -.25
    a = draw(rng, raw, dt, b1, top, alpha=alpha)
    b = draw(rng, raw, dt, b2, top, alpha=alpha)
    c = float(gen.pick(rng, [-2.5, .5, 3., 0.]))
    ctx.note('%s on %d cores, matrix %s, %s, batches %s' % (op, len(raw[0]), matrix, dt, (b1, b2)))
    ctx.sig('arithmetic', op, raw, dt, b1, b2)
    els, batch = zipb(a, b)
    if op in ('add', 'sub', 'mul'):
        f = {'add': lambda: a.tt + b.tt, 'sub': lambda: a.tt - b.tt, 'mul': lambda: a.tt * b.tt}[op]
        w = [{'add': lambda: big.add(x, y), 'sub': lambda: big.add(x, big.scale(y, -1.)), 'mul': lambda: big.mul(x, y)}[op]() for x, y in els]
    else:
        batch = a.batch
        if op == 'cast':
            f = lambda: t3f.cast(a.tt, tf.float64)
            c = 1.
        elif op == 'scale tensor':
            f = lambda: a.tt * tf.constant(c, gen.TFD[dt])
        else:
            f = {'scale': lambda: a.tt * c, 'scale left': lambda: c * a.tt, 'neg': lambda: -a.tt}[op]
        if op == 'neg':
            c = -1.
        w = [big.scale(x, c) for x in a.els]
    same(ctx, op, call(ctx, op, f), pack(w, batch), dt, op, rng)


def do_inner(ctx, rng):
    op = gen.pick(rng, ['flat_inner', 'norm2', 'norm', 'bilinear', 'two_mat', 'sparse', 'sparse matrix'])
    matrix = op in ('bilinear', 'two_mat') or rng.random() < .3
    raw, dt = setting(rng, matrix, cap=40 if matrix else None, nmax=3 if matrix else None)
    b1, b2 = pair(rng, bsize(rng))
    ctx.note('%s on %d cores, matrix %s, %s, batches %s' % (op, len(raw[0]), matrix, dt, (b1, b2)))
    ctx.sig('inner', op, raw, dt, b1, b2)
    if op == 'flat_inner':
        a, b = draw(rng, raw, dt, b1), draw(rng, raw, dt, b2)
        els, batch = zipb(a, b)
        w = [big.dot(x, y) for x, y in els]
        t = [tol(dt, x, big.dot_scale(x, y)) for x, y in els]
        r = call(ctx, op, lambda: t3f.flat_inner(a.tt, b.tt))
    elif op in ('norm2', 'norm'):
        a = draw(rng, raw, dt, b1)
        batch = a.batch
        diff = bool(rng.random() < .5)
        if op == 'norm2':
            w = [big.norm(x) ** 2 for x in a.els]
            t = [tol(dt, x, big.dot_scale(x, x)) for x in a.els]
            r = call(ctx, op, lambda: t3f.frobenius_norm_squared(a.tt, differentiable=diff))
        else:
            w = [big.norm(x) for x in a.els]
            t = [tol(dt, x, big.dot_scale(x, x)) / max(v, 1e-300) for x, v in zip(a.els, w)]
            r = call(ctx, op, lambda: t3f.frobenius_norm(a.tt, epsilon=0., differentiable=diff))
    elif op == 'bilinear':
        one = [1] * len(raw[0])
        A = draw(rng, raw, dt, None, 3)
        x, y = draw(rng, [raw[0], one], dt, b1, 3), draw(rng, [raw[1], one], dt, b1, 3)
        els, batch = zipb(x, y)
        w, t = [], []
        for u, v in els:
            av = big.matmul(A.els[0], v)
            w.append(big.dot(u, av))
            t.append(tol(dt, av, big.dot_scale(u, av)))
        r = call(ctx, op, lambda: t3f.bilinear_form(A.tt, x.tt, y.tt))
    elif op == 'two_mat':
        one = [1] * len(raw[0])
        mid = [int(v) for v in rng.integers(2, 4, size=len(raw[0]))]
        x, A = draw(rng, [raw[0], one], dt, None, 3), draw(rng, [raw[0], mid], dt, None, 2)
        B, y = draw(rng, [mid, raw[1]], dt, None, 2), draw(rng, [raw[1], one], dt, None, 3)
        batch = False
        xa = big.matmul(big.transpose(x.els[0]), A.els[0])
        by = big.matmul(B.els[0], y.els[0])
        w = [big.dot(big.transpose(xa), by)]
        t = [tol(dt, xa, big.dot_scale(xa, by))]
        r = call(ctx, op, lambda: t3f_ops.bilinear_form_two_mat(x.tt, A.tt, B.tt, y.tt))
    else:
        n = gen.count(rng, int(rng.integers(1, 6)))
        if op == 'sparse matrix':
            raw, dt = setting(rng, True, cap=36, nmax=3)
            a = draw(rng, raw, dt, None)
            idx = [indices(rng, a.els[0]) for _ in range(n)]
            rows = []
            for p in idx:
                ij = [0, 0]
                for k, v in enumerate(p):
                    ij[0] = ij[0] * raw[0][k] + v // raw[1][k]
                    ij[1] = ij[1] * raw[1][k] + v % raw[1][k]
                rows.append(ij)
            sh = [math.prod(raw[0]), math.prod(raw[1])]
            if max(sh) >= 2 ** 62:
                ctx.skip('indices of a sparse matrix have 64 bits')
            order = np.lexsort((np.array([q[1] for q in rows]), np.array([q[0] for q in rows])))
            idx, rows = [idx[i] for i in order], [rows[i] for i in order]
        else:
            raw, dt = setting(rng)
            a = draw(rng, raw, dt, None)
            idx = [indices(rng, a.els[0]) for _ in range(n)]
            idx.sort()
            rows, sh = idx, raw[0]
        vals = rng.standard_normal(n)
        sp = tf.SparseTensor(np.array(rows, np.int64), tf.constant(vals, gen.TFD[dt]), np.array(sh, np.int64))
        batch = False
        w, t = [0.], [0.]
        for p, v in zip(idx, vals):
            q = big.path(a.els[0], p)
            w[0] += v * big.value(q)
            t[0] += abs(v) * tol(dt, a.els[0], big.dot_scale(q))
        r = call(ctx, op, lambda: t3f.flat_inner(a.tt, sp))
    number(ctx, op, r, w if batch else w[0], t if batch else t[0], op)


def do_matrix(ctx, rng):
    op = gen.pick(rng, ['matmul', 'matmul', 'matvec', 'transpose', 'transpose method'])
    raw, dt = setting(rng, True, cap=45, nmax=3)
    b1, b2 = pair(rng, bsize(rng))
    ctx.note('%s on %d cores, %s, batches %s' % (op, len(raw[0]), dt, (b1, b2)))
    ctx.sig('matrix', op, raw, dt, b1, b2)
    a = draw(rng, raw, dt, b1, 4)
    if op.startswith('transpose'):
        w = [big.transpose(x) for x in a.els]
        r = call(ctx, op, lambda: t3f.transpose(a.tt))
        same(ctx, op, r, pack(w, a.batch), dt, op, rng)
        return
    other = [1] * len(raw[0]) if op == 'matvec' else [int(v) for v in rng.integers(1, 4, size=len(raw[0]))]
    b = draw(rng, [raw[1], other], dt, b2, 4)
    els, batch = zipb(a, b)
    w = [big.matmul(x, y) for x, y in els]
    r = call(ctx, op, lambda: t3f.matmul(a.tt, b.tt))
    same(ctx, op, r, pack(w, batch), dt, op, rng)


def do_elements(ctx, rng):
    raw, dt = setting(rng)
    d = len(raw[0])
    op = gen.pick(rng, ['gather', 'slice', 'slice', 'batch gather', 'batch slice'])
    bs = int(rng.integers(1, 4)) if op.startswith('batch') else None
    bumpy = 0 if rng.random() < .5 else (400 if op.endswith('gather') else 200)
    a = draw(rng, raw, dt, bs, rks=[1] * (d + 1) if rng.random() < .35 else None, bumpy=bumpy)
    ctx.note('%s on %d cores, %s, batch %s, ranks %s%s' % (op, d, dt, bs, ref.ranks(a.els[0], False), ', uneven' if bumpy else ''))
    ctx.sig('elements', op, raw, dt, bs)
    if op.endswith('gather'):
        n = gen.count(rng, int(rng.integers(1, 6)))
        idx = np.array([indices(rng, a.els[0]) for _ in range(n)])
        if rng.random() < .6:
            # Repeated entries and entries that differ in few positions.
            more = idx[rng.integers(0, n, size=int(rng.integers(1, 6)))]
            for p in more:
                for _ in range(int(rng.integers(0, 3))):
                    k = gen.pick(rng, [0, 0, 1 % d, d - 1, int(rng.integers(d))])
                    p[k] = int(rng.integers(0, raw[0][k]))
            idx = np.concatenate([idx, more])
            n = len(idx)
        el = rng.integers(0, bs or 1, size=n)
        w, t = [], []
        for p, e in zip(idx, el):
            q = big.path(a.els[e], list(p))
            w.append(big.value(q))
            t.append(tol(dt, a.els[e], big.value([np.abs(c) for c in q])))
        arg = np.concatenate([el[:, None], idx], 1) if bs else idx
        r = call(ctx, op, lambda: t3f.gather_nd(a.tt, tf.constant(arg, gen.pick(rng, [tf.int32, tf.int64]))))
        number(ctx, op, r, w, t, op)
        return
    ix = []
    keep = 0
    for k in range(d):
        n = raw[0][k]
        z = rng.random()
        if z < .5:
            ix.append(int(rng.integers(0, n)))
        elif z < .75:
            ix.append(slice(None))
            keep += 1
        else:
            lo = int(rng.integers(0, n))
            ix.append(slice(lo, int(rng.integers(lo + 1, n + 1))))
            keep += 1
    if not keep:
        ix[int(rng.integers(d))] = slice(None)
    w = []
    for e in a.els:
        out, carry = [], np.ones((1, 1))
        for c, i in zip(big.flat(e), ix):
            if isinstance(i, int):
                carry = carry @ c[:, i, :]
            else:
                out.append(np.tensordot(carry, c[:, i, :], 1))
                carry = np.eye(c.shape[-1])
        out[-1] = np.tensordot(out[-1], carry, 1)
        w.append(out)
    key = ((slice(None),) if bs else ()) + tuple(ix)
    r = call(ctx, op, lambda: a.tt[key])
    same(ctx, op, r, pack(w, bs is not None), dt, op, rng)


def do_decompositions(ctx, rng):
    matrix = rng.random() < .3
    raw, dt = setting(rng, matrix, cap=40 if matrix else None, nmax=3 if matrix else None)
    op = gen.pick(rng, ['round', 'round down', 'left', 'right', 'renormalize', 'round sum'])
    bs = bsize(rng) if op != 'right' else None
    a = draw(rng, raw, dt, bs)
    ctx.note('%s on %d cores, %s, batch %s' % (op, len(raw[0]), dt, bs))
    ctx.sig('decompositions', op, raw, dt, bs)
    w = a.els
    f = {'round': lambda: t3f.round(a.tt, max_tt_rank=gen.pick(rng, [None, 50])),
         'left': lambda: t3f.orthogonalize_tt_cores(a.tt), 'right': lambda: t3f.orthogonalize_tt_cores(a.tt, left_to_right=False),
         'renormalize': lambda: t3f.renormalize_tt_cores(a.tt),
         'round sum': lambda: t3f.round(a.tt + a.tt, max_tt_rank=6),
         'round down': lambda: t3f.round(a.tt, max_tt_rank=2)}[op]
    if op == 'round sum':
        w = [big.scale(x, 2.) for x in w]
    r = call(ctx, op, f)
    if op == 'round down':
        got = parts(ctx, r, a.batch, op)
        for g, x in zip(got, w):
            ctx.true('ranks', max(ref.ranks(g, False)) <= 2, lambda: 'ranks %s' % ref.ranks(g, False))
            # Quasi-optimality: the tails of singular values of all cuts.
            bound = math.sqrt(sum(tails(x, 2)))
            err = big.diff(g, x)
            t = tol(dt, x, big.dot_scale(x))
            ctx.true(op, err <= bound * (1 + 1e-6) + t, lambda: 'error %g, bound %g + %g' % (err, bound, t))
        return
    same(ctx, op, r, pack(w, a.batch), dt, op)
    got = parts(ctx, r, a.batch, op)
    rng_ = range(len(raw[0]) - 1) if op == 'left' else range(1, len(raw[0])) if op == 'right' else []
    for g in got:
        for k in rng_:
            c = np.asarray(g[k], float)
            m = c.reshape(-1, c.shape[-1]) if op == 'left' else c.reshape(c.shape[0], -1).T
            e = np.abs(m.T @ m - np.eye(m.shape[1])).max()
            ctx.true('orthogonal cores', e <= 1e3 * ref.EPS[dt], lambda: 'core %d: %g' % (k, e))
        if op == 'renormalize':
            ns = [np.linalg.norm(np.asarray(c, float)) for c in g]
            ctx.true('equal norms', max(ns) <= min(ns) * (1 + 1e-4), lambda: 'core norms %s' % ns)


def tails(x, r):
    u = big.left_orth(x)
    g = np.ones((1, 1))
    res = []
    for k in range(len(u) - 1, 0, -1):
        c = np.tensordot(u[k], g, 1)
        m = c.reshape(c.shape[0], -1)
        uu, s, _ = np.linalg.svd(m, full_matrices=False)
        res.append(float(np.sum(s[r:] ** 2)))
        g = uu * s
    return res


def base_point(ctx, rng, matrix=False, vector=False):
    for _ in range(40):
        raw, dt = setting(rng, matrix, dtype='float64', cap=40 if matrix else 60, nmax=3 if matrix else 4)
        if vector:
            raw = [raw[0], [1] * len(raw[0])]
        d = len(raw[0])
        top = int(rng.integers(1, 4))
        rks = [1]
        for k in range(d - 1):
            rks.append(int(min(rng.integers(1, top + 1), rks[-1] * math.prod(g[k] for g in raw))))
        rks.append(1)
        for k in range(d - 1, 0, -1):
            rks[k] = min(rks[k], rks[k + 1] * math.prod(g[k] for g in raw))
        x = draw(rng, raw, dt, None, rks=rks)
        cond = big.condition(x.els[0])
        if cond < 1e4:
            return x, raw, cond
    ctx.skip('no well-conditioned point')


def do_tangent(ctx, rng):
    op = gen.pick(rng, ['project', 'project_sum', 'project_matmul', 'pairwise', 'add_n_projected', 'deltas'])
    x, raw, cond = base_point(ctx, rng, matrix=op != 'project_matmul' and rng.random() < .3, vector=op == 'project_matmul')
    bs = bsize(rng) if op != 'deltas' else None
    if op in ('project_sum', 'pairwise'):
        bs = bs or 2
    ctx.note('%s on %d cores, batch %s, condition %g' % (op, len(raw[0]), bs, cond))
    ctx.sig('tangent', op, raw, bs)
    x0 = x.els[0]
    shapes = [c.shape[1:-1] for c in x0]
    rks = rank_list(rng, len(raw[0]), 3)
    alpha = float(gen.pick(rng, [-.5, 0.]))
    z = draw(rng, raw, 'float64', bs, rks=rks, alpha=alpha)

    def lim(e):
        return 1e-10 * cond * big.dot_scale(e)

    def cmp(g, w, e, what):
        err = big.diff(g, w)
        ctx.true(op, err <= lim(e), lambda: '%s: distance %g, allowed %g' % (what, err, lim(e)))
        ctx.true('modes', [c.shape[1:-1] for c in g] == shapes, what)
        # Norms agree in relative terms wherever the projection is not negligible.
    if op == 'project':
        r = call(ctx, op, lambda: rm.project(z.tt, x.tt))
        for g, e in zip(parts(ctx, r, z.batch, op), z.els):
            cmp(g, big.project(e, x0), e, op)
    elif op == 'project_sum':
        wts = rng.standard_normal(bs)
        r = call(ctx, op, lambda: rm.project_sum(z.tt, x.tt, tf.constant(wts)))
        w = None
        tot = 0.
        for v, e in zip(wts, z.els):
            p = big.scale(big.project(e, x0), v)
            w = p if w is None else big.add(w, p)
            tot += lim(e) * (1 + abs(v))
        err = big.diff(parts(ctx, r, False, op)[0], w)
        ctx.true(op, err <= tot, lambda: 'distance %g, allowed %g' % (err, tot))
    elif op == 'project_matmul':
        A = draw(rng, [raw[0], raw[0]], 'float64', None, 2, alpha=alpha)
        r = call(ctx, op, lambda: rm.project_matmul(z.tt, x.tt, A.tt))
        for g, e in zip(parts(ctx, r, z.batch, op), z.els):
            ae = big.matmul(A.els[0], e)
            cmp(g, big.project(ae, x0), ae, op)
    elif op == 'pairwise':
        p = call(ctx, 'project', lambda: rm.project(z.tt, x.tt))
        r = call(ctx, op, lambda: rm.pairwise_flat_inner_projected(p, p))
        ws = [big.project(e, x0) for e in z.els]
        w = [[big.dot(a, b) for b in ws] for a in ws]
        nn = [big.dot_scale(e) for e in z.els]
        number(ctx, op, r, w, [[1e-9 * cond * a * b for b in nn] for a in nn], op)
    elif op == 'add_n_projected':
        p = [call(ctx, 'project', lambda: rm.project(z.tt, x.tt)), call(ctx, 'project', lambda: rm.project(x.tt if not z.batch else z.tt, x.tt))]
        r = call(ctx, op, lambda: rm.add_n_projected(p, [2., -3.]))
        other = x.els if not z.batch else z.els
        for g, e, o in zip(parts(ctx, r, z.batch, op), z.els, other):
            w = big.add(big.scale(big.project(e, x0), 2.), big.scale(big.project(o, x0), -3.))
            err = big.diff(g, w)
            ctx.true(op, err <= 5 * (lim(e) + lim(o)), lambda: 'distance %g, allowed %g' % (err, 5 * (lim(e) + lim(o))))
    else:
        p = call(ctx, 'project', lambda: rm.project(z.tt, x.tt))
        dl = call(ctx, op, lambda: rm.tangent_space_to_deltas(p))
        r = call(ctx, op, lambda: rm.deltas_to_tangent_space(dl, x.tt))
        cmp(parts(ctx, r, False, op)[0], big.project(z.els[0], x0), z.els[0], op)


def do_autodiff(ctx, rng):
    op = gen.pick(rng, ['inner', 'norm', 'hvp', 'quadratic'])
    x, raw, cond = base_point(ctx, rng, vector=op in ('hvp', 'quadratic'))
    ctx.note('gradient of %s on %d cores' % (op, len(raw[0])))
    ctx.sig('autodiff', op, raw)
    x0 = x.els[0]
    z = draw(rng, raw, 'float64', None, 3, alpha=-.5)
    check = bool(rng.random() < .3)
    # Size one: the invariance test compares values with an absolute threshold as well.
    x0 = big.scale(x0, 1. / big.norm(x0))
    x = Big([x0], False, 'float64')
    z = Big([big.scale(z.els[0], 1. / big.norm(z.els[0]))], False, 'float64')
    if op == 'inner':
        r = call(ctx, op, lambda: t3f.gradients(lambda t: t3f.flat_inner(t, t) + 2 * t3f.flat_inner(t, z.tt), x.tt, runtime_check=check))
        w = big.add(big.scale(x0, 2.), big.scale(big.project(z.els[0], x0), 2.))
        s = big.dot_scale(z.els[0]) + big.dot_scale(x0)
    elif op == 'norm':
        r = call(ctx, op, lambda: t3f.gradients(lambda t: t3f.frobenius_norm_squared(t, differentiable=True), x.tt, runtime_check=check))
        w = big.scale(x0, 2.)
        s = big.dot_scale(x0)
    else:
        A = draw(rng, [raw[0], raw[0]], 'float64', None, 2, alpha=-.5)
        A = Big([big.scale(A.els[0], 1. / big.norm(A.els[0]))], False, 'float64')
        f = lambda t: t3f.bilinear_form(A.tt, t, t)
        sym = big.add(A.els[0], big.transpose(A.els[0]))
        if op == 'quadratic':
            r = call(ctx, op, lambda: t3f.gradients(f, x.tt, runtime_check=check))
            ax = big.matmul(sym, x0)
        else:
            r = call(ctx, op, lambda: t3f.hessian_vector_product(f, x.tt, rm.project(z.tt, x.tt), runtime_check=check))
            ax = big.matmul(sym, [c.reshape(c.shape[0], -1, 1, c.shape[-1]) for c in big.project(z.els[0], x0)])
        w = big.project(ax, x0)
        s = big.dot_scale(ax) + big.dot_scale(x0) * big.dot_scale(A.els[0]) + big.dot_scale(z.els[0]) * big.dot_scale(A.els[0])
    err = big.diff(parts(ctx, r, False, op)[0], w)
    ctx.true('gradient of ' + op, err <= 1e-10 * cond * s, lambda: 'distance %g, allowed %g' % (err, 1e-10 * cond * s))


def do_sums(ctx, rng):
    raw, dt = setting(rng)
    n = int(rng.integers(2, 6))
    rks = rank_list(rng, len(raw[0]), 2)
    op = gen.pick(rng, ['add_n', 'reduce_sum_batch', 'reduce with coef'])
    ctx.note('%s of %d on %d cores %s' % (op, n, len(raw[0]), dt))
    ctx.sig('sums', op, n, raw, dt)
    coef = rng.standard_normal(n)
    if op != 'reduce with coef':
        coef[:] = 1.
    b = draw(rng, raw, dt, n, rks=rks)
    w = big.scale(b.els[0], coef[0])
    s = abs(coef[0]) * big.dot_scale(b.els[0])
    for v, e in zip(coef[1:], b.els[1:]):
        w = big.add(w, big.scale(e, v))
        s += abs(v) * big.dot_scale(e)
    if op == 'add_n':
        r = call(ctx, op, lambda: ap.add_n([t3f.TensorTrain([tf.constant(c) for c in e]) for e in b.els], max_tt_rank=20))
    elif op == 'reduce_sum_batch':
        r = call(ctx, op, lambda: ap.reduce_sum_batch(b.tt, max_tt_rank=20))
    else:
        r = call(ctx, op, lambda: ap.reduce_sum_batch(b.tt, max_tt_rank=20, coef=tf.constant(coef, gen.TFD[dt])))
    err = big.diff(parts(ctx, r, False, op)[0], w)
    t = tol(dt, w, s) * n
    ctx.true(op, err <= t, lambda: 'distance %g, allowed %g' % (err, t))


def do_batch(ctx, rng):
    op = gen.pick(rng, ['gram', 'pairwise', 'pairwise matrix', 'concat', 'multiply_along', 'index'])
    matrix = op == 'pairwise matrix'
    raw, dt = setting(rng, nmax=3 if matrix else None)
    one = [1] * len(raw[0])
    if matrix:
        raw = [raw[0], one]
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    rks = rank_list(rng, len(raw[0]), 3)
    ctx.note('%s on %d cores %s, batches %d and %d' % (op, len(raw[0]), dt, n, m))
    ctx.sig('batch', op, raw, dt, n, m)
    a, b = draw(rng, raw, dt, n, rks=rks), draw(rng, raw, dt, m, rks=rks)
    if op in ('gram', 'pairwise', 'pairwise matrix'):
        if op == 'gram':
            b = a
        if matrix:
            A = draw(rng, [raw[0], raw[0]], dt, None, 2, alpha=-.5)
            r = call(ctx, op, lambda: t3f.pairwise_flat_inner(a.tt, b.tt, A.tt))
            bb = [big.matmul(A.els[0], e) for e in b.els]
        else:
            r = call(ctx, op, (lambda: t3f.gram_matrix(a.tt)) if op == 'gram' else (lambda: t3f.pairwise_flat_inner(a.tt, b.tt)))
            bb = b.els
        number(ctx, op, r, [[big.dot(x, y) for y in bb] for x in a.els], [[tol(dt, y, big.dot_scale(x, y)) for y in bb] for x in a.els], op)
    elif op == 'concat':
        r = call(ctx, op, lambda: t3f.concat_along_batch_dim([a.tt, b.tt]))
        same(ctx, op, r, pack(a.els + b.els, True), dt, op, rng)
    elif op == 'multiply_along':
        v = rng.standard_normal(n)
        r = call(ctx, op, lambda: t3f.multiply_along_batch_dim(a.tt, tf.constant(v, gen.TFD[dt])))
        same(ctx, op, r, pack([big.scale(e, s) for e, s in zip(a.els, v)], True), dt, op, rng)
    else:
        i = int(rng.integers(n))
        r = call(ctx, op, lambda: a.tt[i])
        same(ctx, op, r, a.els[i], dt, op, rng)


def do_initializers(ctx, rng):
    op = gen.pick(rng, ['tensor_ones', 'tensor_zeros', 'eye', 'matrix_ones', 'matrix_zeros', 'random_tensor', 'random_matrix', 'random_tensor_batch',
                        'random_matrix_batch', 'ones_like', 'zeros_like'] + sorted(NN))
    matrix = 'matrix' in op or op == 'eye' or op in NN
    raw, dt = setting(rng, matrix, cap=120 if matrix and 'random' not in op and op not in NN else 55)
    td = gen.TFD[dt]
    d = len(raw[0])
    ctx.note('%s with %d cores %s' % (op, d, dt))
    ctx.sig('initializers', op, raw, dt)
    if op in ('tensor_ones', 'tensor_zeros', 'matrix_ones', 'matrix_zeros', 'ones_like', 'zeros_like', 'eye'):
        v = 1. if 'ones' in op else 0.
        if op == 'eye':
            r = call(ctx, op, lambda: t3f.eye(raw[0], dtype=td))
            w = [np.eye(n)[None, :, :, None] for n in raw[0]]
        else:
            if op.endswith('like'):
                a = draw(rng, raw, dt)
                r = call(ctx, op, lambda: getattr(t3f, op)(a.tt))
            else:
                r = call(ctx, op, lambda: getattr(t3f, op)(raw if matrix else raw[0], dtype=td))
            w = [np.full([1] + [g[k] for g in raw] + [1], 1.) for k in range(d)]
            if v == 0.:
                w = big.scale(w, 0.)
        got = parts(ctx, r, False, op)[0]
        ctx.true('dtype', got[0].dtype.name == dt, lambda: '%s' % got[0].dtype)
        for _ in range(4):
            p = indices(rng, w)
            a, b = big.value(big.path(got, p)), big.value(big.path(w, p))
            ctx.true('exact entries', a == b, lambda: '%s: %g instead of %g' % (op, a, b))
        if op == 'eye':
            p = [int(rng.integers(n)) * (n + 1) for n in raw[0]]
            ctx.true('exact entries', big.value(big.path(got, p)) == 1., 'diagonal of eye')
        return
    if min(min(g) for g in raw) < 2:
        ctx.skip('sizes')
    r0 = int(rng.integers(2, 4))
    bs = int(rng.integers(1, 4)) if op.endswith('batch') else None
    kw = {'tt_rank': r0, 'dtype': td}
    if bs:
        kw['batch_size'] = bs
    sd = 1.
    if op in NN:
        sd = math.sqrt(NN[op](float(math.prod(raw[0])), float(math.prod(raw[1]))))
    elif rng.random() < .5:
        sd = kw['stddev'] = float(gen.pick(rng, [.25, 4.]))
    tf.random.set_seed(int(rng.integers(1 << 30)))
    r = call(ctx, op, lambda: getattr(t3f, op)(raw if matrix else raw[0], **kw))
    for g in parts(ctx, r, bs is not None, op):
        ctx.true('ranks', ref.ranks(g, False) == [1] + [r0] * (d - 1) + [1], op)
        ctx.true('finite', all(np.all(np.isfinite(c)) and np.any(c != 0) for c in g), op)
        # log of the norm: a sum over cores of bounded fluctuations.
        f = big.flat(g)
        G, lg = np.ones((1, 1)), 0.
        for c in f:
            G = np.einsum('ac,aib,cid->bd', G, c, c, optimize=True)
            s = np.trace(G)
            lg += math.log(s)
            G = G / s
        lg += math.log(max(G[0, 0], 1e-300))
        w = sum(math.log(v) for q in raw for v in q) + 2 * math.log(sd)
        ctx.true('size of entries', abs(lg - w) <= .45 * d + 10, lambda: '%s: log of the squared norm %g instead of about %g' % (op, lg, w))


def do_kronecker(ctx, rng):
    op = gen.pick(rng, ['slog', 'inv', 'cholesky', 'slog batch', 'inv batch', 'det'])
    raw, dt = setting(rng, True, square=True, cap=100, nmax=3, dtype='float64')
    bs = int(rng.integers(1, 4)) if op.endswith('batch') else None
    d = len(raw[0])
    els = []
    for _ in range(bs or 1):
        cs = []
        for n in raw[0]:
            q = np.eye(n) + .3 * rng.standard_normal((n, n))
            if op == 'cholesky':
                q = q @ q.T + .1 * np.eye(n)
            elif rng.random() < .3:
                q[[0, 1]] = q[[1, 0]]
            if op == 'det':
                q = q / abs(np.linalg.det(q)) ** (1. / n)
            cs.append(q[None, :, :, None])
        els.append(cs)
    a = Big(els, bs is not None, dt)
    ctx.note('%s with %d cores' % (op, d))
    ctx.sig('kronecker', op, raw, bs)
    N = math.prod(raw[0])
    if op.startswith('slog') or op == 'det':
        sg, lg, ab = [], [], []
        for e in a.els:
            s, l, b = 1, 0., 0.
            for c, n in zip(e, raw[0]):
                q = np.linalg.slogdet(c[0, :, :, 0])
                s *= 1 if (N // n) % 2 == 0 else int(q[0])
                l += float(N // n) * q[1]
                b += float(N // n) * (abs(q[1]) + 1e-1)
            sg.append(s)
            lg.append(l)
            ab.append(b)
        if op == 'det':
            # A determinant of absolute value one, up to a power of a rounding error.
            r = call(ctx, op, lambda: t3f.kronecker.determinant(a.tt))
            ctx.true(op, r.shape.rank == 0, '')
            return
        r = call(ctx, op, lambda: t3f.kronecker.slog_determinant(a.tt))
        number(ctx, 'sign', r[0], sg if bs else sg[0], np.zeros(bs) if bs else 0., op)
        number(ctx, 'log determinant', r[1], lg if bs else lg[0], [1e-10 * b for b in ab] if bs else 1e-10 * ab[0], op)
        return
    f = t3f.kronecker.inv if op.startswith('inv') else t3f.kronecker.cholesky
    r = call(ctx, op, lambda: f(a.tt))
    for g, e in zip(parts(ctx, r, bs is not None, op), a.els):
        # Core-wise products: the factors of a Kronecker product are unique up to scalars.
        if op == 'cholesky':
            p = big.matmul(g, big.transpose(g))
            w = e
            low = all(np.abs(np.triu(c[0, :, :, 0], 1)).max() <= 1e-12 for c in g)
            ctx.true('lower triangular', low, op)
        else:
            p = big.matmul(g, e)
            w = [np.eye(n)[None, :, :, None] for n in raw[0]]
        for c, v in zip(p, w):
            x, y = c[0, :, :, 0], v[0, :, :, 0]
            x = x / np.trace(x) * np.trace(y)
            ctx.true(op, np.abs(x - y).max() <= 1e-9 * np.abs(y).max() + 1e-9, lambda: 'a factor is off by %g' % np.abs(x - y).max())
        q = [float(np.trace(c[0, :, :, 0])) / float(np.trace(v[0, :, :, 0])) for c, v in zip(p, w)]
        ctx.true(op + ' as a whole', abs(math.prod(q) - 1.) <= 1e-8 * d, lambda: 'scale %g' % math.prod(q))


def do_info(ctx, rng):
    """Printing and queries."""
    matrix = rng.random() < .5
    raw, dt = setting(rng, matrix, cap=55, nmax=3 if matrix else None)
    bs = bsize(rng)
    a = draw(rng, raw, dt, bs)
    ctx.note('queries on %d cores, batch %s' % (len(raw[0]), bs))
    ctx.sig('info', raw, dt, bs)
    parts(ctx, a.tt, bs is not None, 'queries')
    s = call(ctx, 'str', lambda: str(a.tt))
    for g in raw:
        ctx.true('modes in the text', ', '.join(str(v) for v in g) in s, lambda: 'text %r' % s[:300])
    call(ctx, 'repr', lambda: repr(a.tt))
    for name, w in (('raw_shape', raw), ('lazy_raw_shape', raw), ('tt_ranks', ref.ranks(a.els[0], False)), ('lazy_tt_ranks', ref.ranks(a.els[0], False))):
        r = call(ctx, name, lambda: np.asarray(getattr(t3f, name)(a.tt)).tolist())
        ctx.true(name, r == w, lambda: '%s: %s' % (name, r))
    v = call(ctx, 'get_variable', lambda: t3f.get_variable('h%d' % int(rng.integers(1 << 30)), initializer=a.tt))
    same(ctx, 'variable', v, pack(a.els, bs is not None), dt, 'variable', rng)
    e = call(ctx, 'expand_batch_dim', lambda: t3f.expand_batch_dim(a.tt))
    same(ctx, 'expanded', e, pack(a.els, True), dt, 'expanded', rng)


def do_traced(ctx, rng):
    raw, dt = setting(rng, dtype='float64')
    d = len(raw[0])
    bs = bsize(rng)
    a, b = draw(rng, raw, dt, bs, 3, alpha=-.5), draw(rng, raw, dt, bs, 3, alpha=-.5)
    ctx.note('traced on %d cores, batch %s' % (d, bs))
    ctx.sig('traced', raw, bs)
    cls = t3f.TensorTrainBatch if bs else t3f.TensorTrain

    @tf.function
    def f(x, y):
        u, v = cls(list(x)), cls(list(y))
        s = u + v
        return t3f.flat_inner(u, v), t3f.frobenius_norm_squared(s), t3f.flat_inner(u * v, s)
    r = call(ctx, 'traced', lambda: f(list(a.tt.tt_cores), list(b.tt.tt_cores)))
    els, batch = zipb(a, b)
    ws = [[], [], []]
    ts = [[], [], []]
    for x, y in els:
        s = big.add(x, y)
        p = big.mul(x, y)
        for l, t, u, v in zip(ws, ts, (x, s, p), (y, s, s)):
            l.append(big.dot(u, v))
            t.append(tol(dt, u, big.dot_scale(u, v)))
    for g, w, t in zip(r, ws, ts):
        number(ctx, 'traced', g, w if batch else w[0], t if batch else t[0], 'traced')
