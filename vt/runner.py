"""Case loop, monitor counters, verdicts, evidence, replay."""
import collections
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
REPLAY = os.path.join(EVID, 'replay')
KNOWN = os.path.join(ROOT, 'known_findings.json')
WORKERS = int(os.environ.get('VT_WORKERS', '8'))
# The time cap only cuts the tail of a run on a slow machine.
CAP = {'quick': 240., 'thorough': 660.}
HANG = {'quick': 330., 'thorough': 780.}


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Skip(Exception):
    pass


class Ctx(object):
    """What a case sees; counts monitor evaluations."""

    def __init__(self, tier):
        self.tier = tier
        self.evals = collections.Counter()
        self.sigs = set()
        self.notes = []
        self.key = None

    def reset(self):
        self.notes = []
        self.key = None

    def note(self, s):
        self.notes.append(str(s))

    def sig(self, *a):
        self.sigs.add(zlib.crc32(repr(a).encode()))

    def fail(self, monitor, msg):
        raise Violation('%s: %s' % (monitor, msg), self.key)

    def skip(self, why):
        raise Skip(why)

    def true(self, monitor, cond, msg=''):
        self.evals[monitor] += 1
        if not cond:
            self.fail(monitor, msg() if callable(msg) else msg)

    def call(self, what, fn, *a, **k):
        """A library call on valid input: an exception is a violation."""
        self.evals['no exception'] += 1
        try:
            return fn(*a, **k)
        except (Violation, Skip, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            raise Violation('%s raised %s: %s\n%s' % (what, type(e).__name__, str(e)[:400],
                                                      tb[-1500:]), self.key)

    def raises(self, monitor, fn, *a, **k):
        """A library call that must be refused."""
        self.evals[monitor] += 1
        try:
            r = fn(*a, **k)
        except (Violation, Skip, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            return e
        self.fail(monitor, 'returned %s instead of raising' % (str(r)[:200],))

    def close(self, monitor, got, want, tol, what=''):
        """|got - want| <= tol element-wise; shapes must agree exactly."""
        import numpy as np
        self.evals[monitor] += 1
        got = np.asarray(got.numpy() if hasattr(got, 'numpy') else got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(monitor, '%s shape %s instead of %s' % (what, got.shape, want.shape))
        g = got.astype(np.float64)
        err = np.abs(g - want)
        bad = ~(err <= tol)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err), -1))),
                                 err.shape) if err.ndim else ()
            t = np.broadcast_to(np.asarray(tol), err.shape)
            self.fail(monitor, '%s at %s got %r want %r tol %.3g (%d of %d entries wrong)' % (
                what, tuple(int(v) for v in i), float(g[i]), float(want[i]), float(t[i]),
                int(bad.sum()), bad.size))


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def strata(mod):
    out = []
    for s in mod.STRATA:
        if isinstance(s, (tuple, list)):
            out += [s[0]] * int(s[1])
        else:
            out.append(s)
    return out


def ncases(mod, tier):
    scale = float(os.environ.get('VT_SCALE', '1'))
    return max(1, int((mod.QUICK if tier == 'quick' else mod.THOROUGH) * scale))


def case_rng(seed, prop, idx):
    import numpy as np
    return np.random.default_rng([int(seed) & 0xffffffff, zlib.crc32(prop.encode()), int(idx)])


def run_one(mod, prop, seed, tier, idx, ctx):
    """Runs one case; returns (verdict, message, key, stratum)."""
    import tensorflow as tf
    st = strata(mod)
    stratum = st[idx % len(st)]
    rng = case_rng(seed, prop, idx)
    tf.random.set_seed(int(rng.integers(1 << 31)))
    ctx.reset()
    try:
        mod.case(ctx, rng, stratum)
        return 'ok', '', None, stratum
    except Skip as e:
        return 'skip', str(e), None, stratum
    except Violation as e:
        msg = str(e) + ''.join('\n  ' + n for n in ctx.notes)
        return 'violation', msg, e.key or qr_key(mod, prop, seed, idx, stratum, tier), stratum
    except KeyboardInterrupt:
        raise
    except (MemoryError, ImportError, tf.errors.ResourceExhaustedError):
        return 'error', traceback.format_exc(), None, stratum
    except BaseException:
        # The harness never lets an exception of its own out on results that look
        # as promised: the library raised on valid input outside a guarded call,
        # or returned something that can not even be inspected.
        tb = traceback.format_exc()
        return 'violation', 'unexpected exception\n' + tb[-2500:] + \
            ''.join('\n  ' + n for n in ctx.notes), ctx.key, stratum


def qr_key(mod, prop, seed, idx, stratum, tier):
    """The key of the known finding about QR if the case holds with accurate decompositions (see qrmon)."""
    import tensorflow as tf
    from vt import qrmon
    if not match_known(prop, qrmon.KEY, known_findings()):
        return None
    rng = case_rng(seed, prop, idx)
    tf.random.set_seed(int(rng.integers(1 << 31)))
    try:
        with qrmon.Accurate() as acc:
            mod.case(Ctx(tier), rng, stratum)
        return qrmon.KEY if acc.log else None
    except KeyboardInterrupt:
        raise
    except BaseException:
        return None


def known_findings():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)['findings']


def match_known(prop, key, known):
    for k in known:
        if k['property'] == prop and key is not None and k['key'] == key:
            return k
    return None


def setup_tf():
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    import warnings
    warnings.filterwarnings('ignore')
    import tensorflow as tf
    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(1)
    tf.get_logger().setLevel('ERROR')
    return tf


def worker(prop, seed, tier, w, nw, out):
    setup_tf()
    sys.stdout = open(os.devnull, 'w')
    mod = load(prop)
    total = ncases(mod, tier)
    ctx = Ctx(tier)
    known = known_findings()
    t0 = time.time()
    res = {'cases': 0, 'ok': 0, 'skip': 0, 'strata': collections.Counter(), 'skips':
           collections.Counter(), 'violations': [], 'errors': [], 'known': [], 'samples': [],
           'capped': False, 'need': sorted(set(strata(mod)))}
    prog = out + '.cur'
    for idx in range(w, total, nw):
        if time.time() - t0 > CAP[tier]:
            res['capped'] = True
            break
        with open(prog, 'w') as f:
            f.write(str(idx))
        v, msg, key, st = run_one(mod, prop, seed, tier, idx, ctx)
        res['cases'] += 1
        if v == 'ok':
            res['ok'] += 1
            res['strata'][st] += 1
            if len(res['samples']) < 2 and ctx.notes:
                res['samples'].append('case %d [%s]: %s' % (idx, st, '; '.join(ctx.notes)[:300]))
        elif v == 'skip':
            res['skip'] += 1
            res['skips'][msg] += 1
        elif v == 'violation':
            k = match_known(prop, key, known)
            if k:
                res['known'].append(k['key'])
                res['strata'][st] += 1
            else:
                res['violations'].append({'case': idx, 'stratum': st, 'message': msg})
                if len(res['violations']) >= 3:
                    break
        else:
            res['errors'].append({'case': idx, 'stratum': st, 'message': msg})
            if len(res['errors']) >= 3:
                break
    if hasattr(mod, 'finish'):
        res['finish'] = mod.finish(ctx)
    res['evals'] = ctx.evals
    res['sigs'] = sorted(ctx.sigs)
    res['wall'] = time.time() - t0
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def _spawn(prop, seed, tier, w, nw, out):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', CUDA_VISIBLE_DEVICES='-1',
               TF_CPP_MIN_LOG_LEVEL='3', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', TF_ENABLE_ONEDNN_OPTS='0')
    return subprocess.Popen([sys.executable, os.path.join(ROOT, 'check.py'), '--worker', prop,
                             str(seed), tier, str(w), str(nw), out], cwd=ROOT, env=env,
                            stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'wb'))


def _case_rc(prop, seed, idx):
    return subprocess.call([sys.executable, os.path.join(ROOT, 'check.py'), '--case', prop,
                            str(seed), str(idx)], cwd=ROOT, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)


def main(prop, seed, tier):
    import shutil
    import tempfile
    t0 = time.time()
    os.makedirs(REPLAY, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vt-%s-' % prop)
    try:
        return _main(prop, seed, tier, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _wait(procs, deadline):
    for p in procs:
        try:
            p.wait(max(1., deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()


def _main(prop, seed, tier, t0, tmp):
    outs = [os.path.join(tmp, 'w%d' % w) for w in range(WORKERS)]
    procs = [_spawn(prop, seed, tier, w, WORKERS, outs[w]) for w in range(WORKERS)]
    _wait(procs, t0 + HANG[tier])
    results, crashed = [], []
    for w in range(WORKERS):
        if os.path.exists(outs[w]):
            with open(outs[w]) as f:
                results.append(json.load(f))
        else:
            err = open(outs[w] + '.err', 'rb').read()[-3000:].decode('utf8', 'replace')
            cur = open(outs[w] + '.cur').read() if os.path.exists(outs[w] + '.cur') else None
            crashed.append((w, procs[w].returncode, cur, err))
    violations = sorted((v for r in results for v in r['violations']), key=lambda v: v['case'])
    errors = [e for r in results for e in r['errors']]
    for w, rc, cur, err in crashed:
        # A fatal signal that comes back twice in isolation is the library's doing.
        if cur is not None and rc < 0 and rc != -9 and not violations:
            again = [_case_rc(prop, seed, cur) for _ in range(2)]
            if all(c < 0 for c in again):
                violations.append({'case': int(cur), 'stratum': '?', 'message':
                                   'the process dies with signal %d\n%s' % (-rc, err[-500:])})
    evals = collections.Counter()
    stc = collections.Counter()
    skips = collections.Counter()
    sigs = set()
    samples = []
    knownhits = collections.Counter()
    for r in results:
        evals.update(r['evals'])
        stc.update(r['strata'])
        skips.update(r['skips'])
        sigs.update(r['sigs'])
        samples += r['samples']
        knownhits.update(r['known'])
    cases = sum(r['cases'] for r in results)
    ok = sum(r['ok'] for r in results)
    code = 0
    msgs = []
    replays = []
    if violations:
        code = 1
        for v in violations[:5]:
            path = os.path.join(REPLAY, '%s-s%s-%s.json' % (prop, seed, v['case']))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': v['case'],
                           'stratum': v['stratum'], 'message': v['message']}, f, indent=1)
            replays.append(path)
    elif errors:
        code = 3
        msgs.append('harness error in case %s [%s]:\n%s' % (
            errors[0]['case'], errors[0]['stratum'], errors[0]['message'][-3000:]))
    elif crashed:
        code = 2
        for w, rc, cur, err in crashed:
            msgs.append('worker %d ended with %s in case %s\n%s' % (w, rc, cur, err))
    else:
        need = results[0]['need'] if not any(r['capped'] for r in results) else []
        missing = [s for s in need if not stc[s]]
        if missing:
            code = 2
            msgs.append('strata never observed: %s' % missing)
        if not ok:
            code = 2
            msgs.append('no case was evaluated')
    evid = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
            'coverage': {
                'evaluations': int(sum(evals.values())),
                'distinct_nontrivial': len(sigs),
                'rule': 'evaluations: monitor comparisons made on observed executions; '
                        'distinct_nontrivial: different (operation, kind, shape, ranks, dtype, '
                        'argument form) signatures among cases with at least one non-trivial '
                        'value, counted in this run',
                'samples': samples[:8],
                'cases': cases, 'cases_ok': ok, 'cases_skipped': dict(skips),
                'monitors': dict(evals), 'strata': dict(stc),
                'capped': any(r['capped'] for r in results)},
            'wall_s': round(time.time() - t0, 2),
            'violations': [{'case': v['case'], 'stratum': v['stratum'],
                            'message': v['message'][:1500]} for v in violations[:5]],
            'known_findings': dict(knownhits)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    kf = {k['key']: k for k in known_findings() if k['property'] == prop}
    for k, n in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s (%d times)' % (prop, kf[k]['what'], n))
    for m in msgs:
        print(m)
    for v, p in zip(violations[:5], replays):
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  case %s [%s] %s' % (v['case'], v['stratum'], v['message'][:1200]))
    print('%s %s seed=%s: %d cases, %d evaluations, %d distinct, %d skipped, %.1fs -> %s' % (
        prop, tier, seed, cases, sum(evals.values()), len(sigs), sum(skips.values()),
        time.time() - t0, {0: 'held', 1: 'VIOLATED', 2: 'inconclusive', 3: 'error'}[code]))
    return code


def replay(path):
    with open(path) as f:
        r = json.load(f)
    setup_tf()
    mod = load(r['property'])
    ctx = Ctx(r['tier'])
    v, msg, key, st = run_one(mod, r['property'], r['seed'], r['tier'], r['case'], ctx)
    print('case %s [%s]: %s\n%s' % (r['case'], st, v, msg))
    print('\n'.join(ctx.notes))
    if v == 'violation':
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return {'ok': 0, 'skip': 0, 'violation': 1, 'error': 3}[v]
