"""Monitor object shared by all checks: cases, events, verdicts, evidence."""

import contextlib
import hashlib
import time
import traceback

import numpy as np


class Violation(Exception):
    def __init__(self, monitor, message):
        super().__init__(f'[{monitor}] {message}')
        self.monitor = monitor
        self.message = message


def _digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(repr(p).encode() if not isinstance(p, bytes) else p)
        h.update(b'|')
    return h.hexdigest()


def _short(x, n=300):
    s = ' '.join(repr(x).split()) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + '...'


class Monitor:
    """Collects what the monitors of one workload observe.

    An *event* is one value observed in an execution of cyjax and judged by
    a named monitor. It is non-trivial if the judged value is not empty and
    not identically zero, and distinct if monitor and expected value differ
    from all others of the run.
    """

    def __init__(self, prop, tier, seed, part, replay=None, budget=600.):
        self.prop, self.tier, self.seed, self.part = prop, tier, seed, part
        self.replay = replay          # None or (workload, index)
        self.case = None
        self.info = ''
        self.t0 = time.time()
        self.budget = budget
        self.monitors = {}            # name -> [events, max error/tolerance]
        self.seen = set()
        self.events = 0
        self.cases_run = 0
        self.samples = []
        self.known = []

    # -- workload ----------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng_for(self, workload, index):
        key = _digest(self.prop, workload, index)
        return np.random.default_rng([self.seed & 0x7fffffff, int(key, 16)])

    def cases(self, workload, quick, thorough=None):
        """Yield one random generator per case of a workload."""
        n = self.pick(quick, quick * 6 if thorough is None else thorough)
        for i in range(n):
            if self.replay is not None and self.replay != (workload, i):
                continue
            if time.time() - self.t0 > self.budget:
                break
            self.case = (workload, i)
            self.info = ''
            self.cases_run += 1
            yield self.rng_for(workload, i)
        self.case = None

    def each(self, workload, items):
        """Yield the elements of a fixed list as cases."""
        for i, item in enumerate(items):
            if self.replay is not None and self.replay != (workload, i):
                continue
            self.case = (workload, i)
            self.info = _short(item)
            self.cases_run += 1
            yield item, self.rng_for(workload, i)
        self.case = None

    def note(self, info):
        self.info = _short(info, 600)

    # -- monitors ----------------------------------------------------------
    def _event(self, monitor, key, nontrivial, err=0.):
        ev = self.monitors.setdefault(monitor, [0, 0, 0.])
        ev[0] += 1
        ev[2] = max(ev[2], err)
        self.events += 1
        if nontrivial:
            d = _digest(monitor, key)
            if d not in self.seen:
                self.seen.add(d)
                ev[1] += 1
                if ev[1] == 1 or (ev[1] == 5 and len(self.samples) < 40):
                    self.samples.append(_short(
                        f'{monitor} @ {self.case}: {self.info}', 400))

    def fail(self, monitor, message):
        raise Violation(monitor, f'{message} [case {self.case}: {self.info}]')

    def ok(self, monitor, cond, message='condition violated', key=None):
        """Boolean monitor."""
        if not bool(cond):
            self.fail(monitor, message)
        self._event(monitor, (self.case, self.info) if key is None else key, True)

    def equal(self, monitor, got, want):
        """Exact equality of discrete values."""
        if got != want:
            self.fail(monitor, f'observed {_short(got)}, expected {_short(want)}')
        self._event(monitor, want, True)

    def bitwise(self, monitor, got, want):
        """Arrays (or trees of arrays) equal bit for bit."""
        import jax
        ga, gt = jax.tree_util.tree_flatten(got)
        wa, wt = jax.tree_util.tree_flatten(want)
        if gt != wt:
            self.fail(monitor, f'structure {gt} instead of {wt}')
        for g, w in zip(ga, wa):
            g, w = np.asarray(g), np.asarray(w)
            if g.shape != w.shape or g.dtype != w.dtype or g.tobytes() != w.tobytes():
                self.fail(monitor, f'observed {_short(g)}, expected {_short(w)}')
            self._event(monitor, w.tobytes(), w.size > 0 and bool(np.any(w != 0)))

    def array(self, monitor, got, want):
        """Exact equality of numpy arrays including shape."""
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            self.fail(monitor, f'observed {_short(g)}, expected {_short(w)}')
        self._event(monitor, (w.shape, w.tobytes()), w.size > 0)

    def close(self, monitor, got, want, tol=1e-8, scale=None, shape=True, key=None):
        """Numerical agreement relative to the scale of the expected array."""
        g, w = np.asarray(got), np.asarray(want)
        if shape and g.shape != w.shape:
            self.fail(monitor, f'shape {g.shape} instead of {w.shape}')
        if g.dtype == object:
            self.fail(monitor, f'non-numeric result {_short(g)}')
        if not np.all(np.isfinite(w)):
            raise RuntimeError(f'reference not finite in {monitor} {self.case} {self.info}')
        if g.size and not np.all(np.isfinite(g)):
            self.fail(monitor, f'non-finite value observed: {_short(g)}')
        if w.size == 0:
            self._event(monitor, w.shape, False)
            return
        s = float(np.max(np.abs(w)))
        if scale is not None:
            s = max(s, float(np.max(np.abs(scale))))
        if s == 0:
            s = 1.
        err = float(np.max(np.abs(g - w))) / s
        if err > tol:
            self.fail(monitor, f'relative error {err:.3g} (tolerance {tol:.1g}): '
                               f'observed {_short(g)}, expected {_short(w)}')
        seen = w if key is None else np.asarray(key)
        self._event(monitor, (w.shape, np.array2string(seen.ravel()[:8], precision=6)),
                    bool(np.any(w != 0)), err / tol)

    def below(self, monitor, value, limit, key=None):
        """Scalar statistic must not exceed its limit."""
        value = float(value)
        if not value <= limit:
            self.fail(monitor, f'value {value:.4g} exceeds {limit:.4g}')
        self._event(monitor, (self.case, key, round(value, 12)), True,
                    max(value, 0.) / limit if limit else 0.)

    @contextlib.contextmanager
    def raises(self, monitor, *types):
        """The enclosed call must raise."""
        try:
            yield
        except types or (Exception,):
            self._event(monitor, (self.case, self.info), True)
        else:
            self.fail(monitor, 'no error raised')

    # -- result ------------------------------------------------------------
    def report(self):
        return {
            'part': self.part, 'events': self.events,
            'cases': self.cases_run, 'seen': sorted(self.seen),
            'monitors': self.monitors, 'samples': self.samples,
            'wall_s': time.time() - self.t0}


def freeze(*trees):
    """Fingerprint of arguments, for detecting modification."""
    import jax
    out = []
    for leaf in jax.tree_util.tree_leaves(trees, is_leaf=lambda x: x is None):
        if hasattr(leaf, 'dtype') and getattr(leaf, 'dtype') != object:
            a = np.asarray(leaf)
            out.append((a.shape, str(a.dtype), a.tobytes()))
        else:
            out.append(repr(leaf))
    return out


# errors that indicate a broken harness or machine, not a library result
_HARNESS = (ImportError, NameError, OSError, MemoryError, KeyboardInterrupt)


def classify(exc, repo='/repo/'):
    """Decide whether an exception during a workload is a violation."""
    if isinstance(exc, Violation):
        return True
    tb = traceback.extract_tb(exc.__traceback__)
    through_repo = any(f.filename.startswith(repo) for f in tb)
    if isinstance(exc, _HARNESS) and not (
            isinstance(exc, NameError) and through_repo):
        return False
    if isinstance(exc, AttributeError) and not through_repo \
            and "module 'cyjax" in str(exc):
        return False
    if isinstance(exc, TypeError) and not through_repo \
            and 'unexpected keyword' in str(exc):
        return False
    if isinstance(exc, RuntimeError) and 'reference not finite' in str(exc):
        return False
    return True
