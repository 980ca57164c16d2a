"""C06: indexing and gathering."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('tensor', 5), ('batch full', 4), ('batch one', 2), ('gather', 3), ('gather batch', 2), 'single core',
          'chained', 'gather vs index']
QUICK = 7000
THOROUGH = 50000


def index(rng, size, it='int32'):
    """(library index, numpy index) for an axis of the given size."""
    how = gen.pick(rng, ['all', 'int', 'neg', 'slice', 'step', 'from', 'to', 'negslice', 'rev', 'tf', 'np', 'one',
                         'over'],
                   [4, 4, 1.5, 2, 1.5, 1, 1, 1, 1, 1, .5, 1, .5])
    if how == 'int':
        i = int(rng.integers(size))
        return i, i
    if how == 'neg':
        i = -int(rng.integers(1, size + 1))
        return i, i
    if how == 'tf':
        i = int(rng.integers(size))
        return tf.constant(i, it), i
    if how == 'np':
        i = int(rng.integers(size))
        return np.dtype(it).type(i), i
    a = int(rng.integers(0, size))
    b = int(rng.integers(a + 1, size + 1))
    if how == 'slice':
        s = slice(a, b)
    elif how == 'step':
        s = slice(a, b, int(rng.integers(2, 4)))
    elif how == 'from':
        s = slice(a, None)
    elif how == 'to':
        s = slice(None, b)
    elif how == 'negslice':
        s = slice(a - size, None if b == size else b - size)
    elif how == 'rev':
        s = slice(None, None, -1)
    elif how == 'one':
        s = slice(a, a + 1)
    elif how == 'over':
        s = slice(a, size + int(rng.integers(1, 5)))
    else:
        s = slice(None)
    return s, s


def indices(rng, sizes, it='int32'):
    lib, ref_ = zip(*[index(rng, s, it) for s in sizes])
    lib, ref_ = list(lib), list(ref_)
    if not any(isinstance(i, slice) for i in ref_):
        k = int(rng.integers(len(lib)))
        lib[k] = ref_[k] = slice(None)
    return tuple(lib), tuple(ref_)


def gather_indices(rng, sizes):
    lead = gen.pick(rng, [(1,), (3,), (7,), (2, 3), (1, 1), (2, 1, 3), (4, 2), (20,)])
    if rng.random() < .05:
        lead = (gen.count(rng, 1, 1., 1100),)
    idx = np.stack([rng.integers(0, s, size=lead) for s in sizes], -1)
    if rng.random() < .3:
        idx[..., :] = idx[tuple([0] * len(lead))]
    if rng.random() < .2:
        idx[:] = np.array(sizes) - 1
    form = gen.pick(rng, ['np64', 'np32', 'list', 'tf32', 'tf64'])
    if form == 'np32':
        return idx.astype(np.int32), idx
    if form == 'list':
        return idx.tolist(), idx
    if form == 'tf32':
        return tf.constant(idx, tf.int32), idx
    if form == 'tf64':
        return tf.constant(idx, tf.int64), idx
    return idx, idx


def case(ctx, rng, st):
    bs = None
    if st.startswith('batch') or st == 'gather batch' or (st in ('chained', 'single core') and rng.random() < .5):
        bs = gen.batch_size(rng)
    d = 1 if st == 'single core' else None
    a = gen.obj(rng, 'tensor', d=d, bs=bs, dhi=8)
    sz = a.raw[0]
    x, ax = a.dense(), a.absdense()
    tol = lambda s: mon.tol_for(a.dtype, ref.depth(a.cores), s)
    ctx.note(a.describe())
    if st in ('tensor', 'batch full', 'single core'):
        # TensorFlow wants one integer type per index tuple.
        it = gen.pick(rng, ['int32', 'int64'])
        lib, py = indices(rng, sz, it)
        if bs is not None:
            b, pb = index(rng, bs, it)
            lib, py = (b,) + lib, (pb,) + py
        ctx.note('index %s' % (lib,))
        ctx.sig(st, a.raw, a.ranks, a.dtype, bs, str(py))
        r = ctx.call('indexing', lambda: a.tt[lib])
        batch = bs is not None and isinstance(py[0], slice)
        w = x[py]
        ctx.true('number of axes', r.ndims() == w.ndim - (1 if batch else 0), 'ndims %s' % r.ndims())
        mon.tt_close(ctx, 'sub-tensor', r, batch, w, tol(ax[py]))
    elif st == 'batch one':
        m = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), bs=bs)
        b, pb = index(rng, bs)
        ctx.note('instead: %s index %s' % (m.describe(), b))
        ctx.sig(st, m.raw, m.ranks, bs, str(pb))
        r = ctx.call('indexing', lambda: m.tt[b])
        mon.tt_close(ctx, 'selected elements', r, isinstance(pb, slice), m.dense()[pb],
                     mon.tol_for(m.dtype, ref.depth(m.cores), m.absdense()[pb]))
        # Selection copies the numbers: cores are the slices themselves.
        for u, v in zip(mon.cores_of(ctx, r), m.cores):
            ctx.true('selected cores', np.array_equal(u, v[pb]), 'cores of the selection differ')
    elif st in ('gather', 'gather batch'):
        sizes = ([bs] if bs is not None else []) + list(sz)
        lib, idx = gather_indices(rng, sizes)
        ctx.note('gather %s %s' % (type(lib).__name__, idx.shape))
        ctx.sig(st, a.raw, a.ranks, a.dtype, bs, idx.shape)
        r = ctx.call('gather_nd', t3f.gather_nd, a.tt, lib)
        ctx.true('dtype', r.dtype.name == a.dtype, r.dtype.name)
        key = tuple(np.moveaxis(idx, -1, 0))
        ctx.close('gathered entries', r, x[key], tol(ax[key]))
    elif st == 'gather vs index':
        i = tuple(int(rng.integers(s)) for s in sz)
        ctx.sig(st, a.raw, a.ranks, i)
        r = ctx.call('gather_nd', t3f.gather_nd, a.tt, [i])
        k = int(rng.integers(len(sz)))
        lib = i[:k] + (slice(None),) + i[k + 1:]
        q = ctx.call('indexing', lambda: a.tt[lib])
        f = ctx.call('full', t3f.full, q)
        ctx.close('gather against indexing', f[i[k]], float(np.asarray(r)[0]), 2 * tol(ax[i]))
        ctx.close('gather', r, np.array([x[i]]), tol(ax[i]))
    else:  # chained
        lib, py = indices(rng, sz)
        if bs is not None:
            lib, py = (slice(None),) + lib, (slice(None),) + py
        r = ctx.call('indexing', lambda: a.tt[lib])
        w = x[py]
        s2 = w.shape[1:] if bs is not None else w.shape
        lib2, py2 = indices(rng, s2)
        if bs is not None:
            lib2, py2 = (slice(None),) + lib2, (slice(None),) + py2
        ctx.note('%s then %s' % (lib, lib2))
        ctx.sig(st, a.raw, a.ranks, bs, str(py), str(py2))
        q = ctx.call('indexing again', lambda: r[lib2])
        mon.tt_close(ctx, 'sub-tensor of sub-tensor', q, bs is not None, w[py2], tol(ax[py][py2]))
