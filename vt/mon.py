"""Monitors shared by the properties."""
import numpy as np
import t3f
from vt import ref


def kind_of(tt):
    """'tt', 'batch' or None."""
    if isinstance(tt, t3f.TensorTrainBatch):
        return 'batch'
    if isinstance(tt, t3f.TensorTrain):
        return 'tt'
    return None


def is_kind(ctx, res, batch, what=''):
    k = kind_of(res)
    ctx.true('kind of result', k == ('batch' if batch else 'tt'),
             lambda: '%s: got %s, expected %s' % (what, k or type(res).__name__,
                                                  'batch' if batch else 'tt'))


def cores_of(ctx, res, what=''):
    try:
        return ref.np_cores(res)
    except Exception as e:
        ctx.fail('cores', '%s cores are not readable: %s' % (what, e))


def value(ctx, res, batch, what=''):
    """Dense value of a library object, computed from its cores by the model."""
    cores = cores_of(ctx, res, what)
    try:
        return ref.dense(cores, batch)
    except Exception as e:
        ctx.fail('cores', '%s: cores %s do not form a TT: %s' % (what, [c.shape for c in cores], e))


def tol_for(dtype, depth, scale, c=8.):
    return c * ref.EPS[dtype] * depth * np.asarray(scale) + ref.TINY[dtype] * depth * 4


def tt_close(ctx, monitor, res, batch, want, tol, what='', full=True):
    """Value of a returned TT object against the dense expectation."""
    is_kind(ctx, res, batch, what)
    got = value(ctx, res, batch, what)
    ctx.close(monitor, got, want, tol, what)
    if full:
        f = ctx.call('full', t3f.full, res)
        ctx.close(monitor + ' (via full)', f, want, np.asarray(tol) * 2, what)


def dtype_name(x):
    d = x.dtype
    return d.name if hasattr(d, 'name') else np.dtype(d).name


def _ints(v):
    v = np.asarray(v.numpy() if hasattr(v, 'numpy') else v)
    return [int(x) for x in v.ravel()], v.shape


def structure(ctx, tt, what=''):
    """The cores form a TT object; returns (cores, batch, raw, ranks)."""
    k = kind_of(tt)
    ctx.true('is a TT object', k is not None, lambda: '%s: %s' % (what, type(tt).__name__))
    batch = k == 'batch'
    off = 1 if batch else 0
    cores = cores_of(ctx, tt, what)
    nd = {c.ndim - off for c in cores}
    ctx.true('axes of cores', nd in ({3}, {4}), lambda: '%s: cores with shapes %s' % (what, [c.shape for c in cores]))
    ctx.true('neighbouring ranks match', all(a.shape[-1] == b.shape[off] for a, b in zip(cores[:-1], cores[1:])),
             lambda: '%s: cores %s' % (what, [c.shape for c in cores]))
    ctx.true('boundary ranks are one', cores[0].shape[off] == 1 and cores[-1].shape[-1] == 1,
             lambda: '%s: cores %s' % (what, [c.shape for c in cores]))
    ctx.true('cores share a dtype', len({c.dtype for c in cores}) == 1, lambda: '%s: %s' % (what, [c.dtype for c in cores]))
    if batch:
        ctx.true('cores share a batch size', len({c.shape[0] for c in cores}) == 1,
                 lambda: '%s: cores %s' % (what, [c.shape for c in cores]))
    return cores, batch, ref.modes(cores, batch), ref.ranks(cores, batch)


def overall(raw, bs):
    sh = list(raw[0]) if len(raw) == 1 else [int(np.prod([float(v) for v in g])) for g in raw]
    return sh if bs is None else [bs] + sh


def metadata(ctx, tt, what='', dynamic=True):
    """Everything an object says about itself agrees with its cores."""
    cores, batch, raw, rks = structure(ctx, tt, what)
    bs = cores[0].shape[0] if batch else None
    sh = overall(raw, bs)
    ctx.true('static shape', tt.get_shape().as_list() == sh, lambda: '%s: get_shape %s, cores say %s' % (
        what, tt.get_shape(), sh))
    ctx.true('static raw shape', [g.as_list() for g in tt.get_raw_shape()] == [list(g) for g in raw],
             lambda: '%s: get_raw_shape %s, cores say %s' % (what, tt.get_raw_shape(), raw))
    ctx.true('static ranks', tt.get_tt_ranks().as_list() == rks, lambda: '%s: get_tt_ranks %s, cores say %s' % (
        what, tt.get_tt_ranks(), rks))
    ctx.true('number of dimensions', tt.ndims() == len(cores), lambda: '%s: ndims %s of %d cores' % (
        what, tt.ndims(), len(cores)))
    ctx.true('dtype', dtype_name(tt) == cores[0].dtype.name, lambda: '%s: dtype %s, cores %s' % (
        what, tt.dtype, cores[0].dtype))
    ctx.true('matrix or tensor', tt.is_tt_matrix() == (len(raw) == 2), lambda: '%s: is_tt_matrix %s' % (
        what, tt.is_tt_matrix()))
    if batch:
        ctx.true('static batch size', tt.batch_size == bs, lambda: '%s: batch_size %s, cores %s' % (what, tt.batch_size, bs))
    s = ctx.call('str', str, tt)
    ctx.true('str is text', isinstance(s, str) and len(s) > 0, what)
    if dynamic:
        big = max(float(v) for v in (np.prod([float(x) for x in g]) for g in raw)) > 2 ** 31 - 1
        lazy = [('lazy_raw_shape', t3f.lazy_raw_shape, [v for g in raw for v in g], (len(raw), len(cores))),
                ('lazy_tt_ranks', t3f.lazy_tt_ranks, rks, (len(rks),)),
                ('raw_shape', t3f.raw_shape, [v for g in raw for v in g], (len(raw), len(cores))),
                ('tt_ranks', t3f.tt_ranks, rks, (len(rks),))]
        if len(raw) == 1 or not big:
            lazy += [('shape', t3f.shape, sh, (len(sh),)), ('lazy_shape', t3f.lazy_shape, sh, (len(sh),))]
        if batch:
            lazy += [('batch_size', t3f.batch_size, [bs], ()), ('lazy_batch_size', t3f.lazy_batch_size, [bs], ())]
        for name, f, want, shp in lazy:
            got, s = _ints(ctx.call(name, f, tt))
            ctx.true('dynamic ' + name.replace('lazy_', ''), got == want and s == shp,
                     lambda: '%s: %s gives %s, cores say %s' % (what, name, got, want))
    return cores, batch
