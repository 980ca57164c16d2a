"""Monitor of the QR decompositions the library gets from TensorFlow.

The kernel of tf.linalg.qr squares entries without scaling: a column (or what is left of it after the previous
reflections) whose squared norm is below the range of the type gives a reflection that is not orthogonal, and an
error of percents in all the other columns. A case that fails is run once more with such decompositions replaced by
accurate ones; if it holds then, the failure is this known finding and nothing else.
"""
import sys

import numpy as np
import tensorflow as tf

KEY = 'QR decomposition of a column whose squared norm underflows'


def _fix(a, q, r, log):
    """Returns (q, r), replaced by an accurate decomposition when they are wrong because of underflow."""
    if a.dtype not in (np.float32, np.float64) or not np.all(np.isfinite(a)) or not a.size:
        return q, r
    fi = np.finfo(a.dtype)
    sh = a.shape[:-2]
    q, r = q.copy(), r.copy()
    for i in np.ndindex(*sh):
        x = a[i].astype(np.float64)
        y, z = q[i].astype(np.float64), r[i].astype(np.float64)
        tol = 100. * fi.eps * max(x.shape)
        bad = np.abs(y @ z - x).max() > tol * max(np.abs(x).max(), fi.tiny) or \
            np.abs(y.T @ y - np.eye(y.shape[1])).max() > tol
        if not bad:
            continue
        y, z = np.linalg.qr(x)
        low = np.sqrt(fi.tiny) * 1e3
        parts = [np.linalg.norm(z[k:, k]) for k in range(min(z.shape))] + list(np.linalg.norm(x, axis=0))
        # The reflections of TensorFlow see rounding errors instead of what is zero: look at its own R too.
        parts += [abs(r[i][k, k]) for k in range(min(z.shape))]
        if any(0 < p < low for p in parts):
            log.append(x.shape)
            q[i], r[i] = y, z
    return q, r


def accurate(a, q, r):
    log = []
    _fix(a.numpy(), q.numpy(), r.numpy(), log)
    return not log


class Accurate(object):
    """Context in which wrong decompositions are replaced; log holds the shapes of replaced ones."""

    def __enter__(self):
        self.log, self.qr = [], tf.linalg.qr
        log, qr = self.log, self.qr

        def new(input, full_matrices=False, name=None):
            q, r = qr(input, full_matrices=full_matrices, name=name)
            if full_matrices:
                return q, r
            a = tf.convert_to_tensor(input)
            if hasattr(a, 'numpy') and tf.executing_eagerly():
                n = len(log)
                y, z = _fix(a.numpy(), q.numpy(), r.numpy(), log)
                return (q, r) if len(log) == n else (tf.constant(y), tf.constant(z))
            y, z = tf.numpy_function(lambda *v: _fix(*v, log=log), [a, q, r], [a.dtype, a.dtype])
            y.set_shape(q.shape)
            z.set_shape(r.shape)
            return y, z
        self.places = [(m, n) for m in [tf.linalg] + [m for k, m in list(sys.modules.items()) if k.startswith('t3f')]
                       for n in dir(m) if getattr(m, n, None) is qr]
        for m, n in self.places:
            setattr(m, n, new)
        return self

    def __exit__(self, *a):
        for m, n in self.places:
            setattr(m, n, self.qr)
