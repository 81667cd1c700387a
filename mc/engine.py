"""Bounded exhaustive explorer (stateless model checking, choice-point style).

A check is a *driver*: a function run(cfg, ctx) that drives the real FIAT code
and compares every step with a reference model.  cfg is one entry of a finite,
fully enumerated list of configurations.  Inside the driver every further degree
of freedom (derivative order, entity, operation, representation of the points,
next step of a history, ...) is a call ctx.choose(label, options).  explore()
runs the driver once per leaf of that choice tree, i.e. on *every* combination,
by replaying the recorded prefix and backtracking (odometer order).  While a
prefix is replayed the label and the menu have to be identical to the recorded
ones; menus depend only on the configuration and on answers of the
implementation, so a divergence means that the implementation answered the same
history of calls differently (it is reported, and stops the configuration).
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__("%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


class Diverged(Exception):
    """Replay of a prefix met a different menu."""


class Skip(Exception):
    """This leaf is outside the domain of the property."""


class Hang(Exception):
    pass


class Ctx(object):
    tier = "quick"

    def __init__(self, cfg, prefix=(), expected=()):
        self.cfg = cfg
        self.prefix = list(prefix)       # indices to replay
        self.expected = list(expected)   # (label, n) seen before on that prefix
        self.trail = []                  # (label, n, index)
        self.values = []
        self.steps = 0                   # calls made into the implementation
        self.compares = 0                # comparisons with the reference model
        self.digests = []

    def choose(self, label, options):
        options = list(options)
        n = len(options)
        if n == 0:
            raise Skip(label)
        k = len(self.trail)
        if k < len(self.prefix):
            i = self.prefix[k]
            if k < len(self.expected) and self.expected[k] != (label, n):
                raise Diverged("replayed %r, found %r" % (self.expected[k], (label, n)))
            if i >= n:
                raise Diverged("choice %d out of range for %s" % (i, label))
        else:
            i = 0
        self.trail.append((label, n, i))
        self.values.append("%s=%s" % (label, short(options[i])))
        return options[i]

    def step(self, n=1):
        self.steps += n

    def ok(self, cond, key, msg=""):
        self.compares += 1
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def eq(self, got, want, key, msg=""):
        self.compares += 1
        if not (got == want):
            raise Violation(key, "%s got %s want %s" % (msg, short(got, 300), short(want, 300)))

    def close(self, got, want, key, msg="", tol=1e-8, scale=None):
        import numpy as np
        self.compares += 1
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Violation(key, "%s shape got %s want %s" % (msg, got.shape, want.shape))
        if got.size == 0:
            return
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(want))))
        d = np.abs(got - want)
        if not np.all(d <= tol * scale):    # NaN fails
            j = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
            raise Violation(key, "%s differ at %s: got %.17g want %.17g (tol %.1e)"
                            % (msg, tuple(map(int, j)), got[j], want[j], tol * scale))

    def observe(self, *arrays):
        """Digest of an observed implementation state (rounded)."""
        import numpy as np
        h = hashlib.sha1()
        for a in arrays:
            if isinstance(a, (str, bytes)):
                h.update(a.encode() if isinstance(a, str) else a)
            else:
                a = np.asarray(a, dtype=float)
                h.update(str(a.shape).encode())
                h.update((np.round(a, 6) + 0.0).tobytes())
        self.digests.append(h.hexdigest()[:12])


def short(x, n=90):
    s = repr(x)
    return s if len(s) <= n else s[:n - 3] + "..."


class Result(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.states = 1
        self.transitions = 0
        self.traces = 0
        self.compares = 0
        self.skipped = 0
        self.violations = []   # dicts
        self.digests = set()
        self.sample = None
        self.wall = 0.0
        self.error = None
        self.capped = False
        self.extra = {}


def _alarm(signum, frame):
    raise Hang()


def explore(run, cfg, limit_s=240, max_viol=6, only=None, max_leaves=None):
    """Run every leaf of the choice tree of cfg."""
    res = Result(cfg)
    t0 = time.time()
    prefix, expected = [], []
    if only is not None:
        prefix = list(only)
    known_len = 0
    leaves = 0
    keys = set()
    old = signal.signal(signal.SIGALRM, _alarm)
    try:
        while True:
            ctx = Ctx(cfg, prefix, expected)
            signal.alarm(int(limit_s))
            stop = False
            try:
                run(cfg, ctx)
                res.traces += 1
            except Skip:
                res.skipped += 1
            except Diverged as e:
                # menus are functions of the configuration and of the implementation's answers:
                # the same calls gave other answers the second time
                _record(res, ctx, keys, "not-reproducible", str(e))
                stop = True
            except Hang:
                _record(res, ctx, keys, "hang", "no result within %d s" % limit_s)
                stop = True
            except Violation as v:
                _record(res, ctx, keys, v.key, v.msg)
            except MemoryError:
                res.error = "out of memory"
                stop = True
            except Exception as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                where = [f for f in tb if "/FIAT/" in f.filename]
                loc = os.path.basename(where[-1].filename) if where else os.path.basename(tb[-1].filename)
                _record(res, ctx, keys, "raised:%s@%s" % (type(e).__name__, loc),
                        "%s: %s | %s" % (type(e).__name__, short(str(e), 200),
                                         " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                                                    for f in reversed(tb[-5:]))))
            finally:
                signal.alarm(0)
            # new nodes of the tree = everything beyond the common prefix
            res.states += max(0, len(ctx.trail) - known_len)
            res.transitions += ctx.steps
            res.compares += ctx.compares
            res.digests.update(ctx.digests)
            if hasattr(ctx, "extra"):
                for k, v in ctx.extra.items():
                    res.extra[k] = res.extra.get(k, 0) + v
            if res.sample is None or len(ctx.values) > len(res.sample):
                res.sample = list(ctx.values)
            leaves += 1
            if only is not None or stop or len(res.violations) >= max_viol:
                break
            # odometer
            tr = ctx.trail
            while tr and tr[-1][2] + 1 >= tr[-1][1]:
                tr = tr[:-1]
            if not tr:
                break
            if max_leaves and leaves >= max_leaves:
                res.capped = True
                break
            expected = [(l, n) for l, n, _ in tr]
            prefix = [i for _, _, i in tr]
            prefix[-1] += 1
            known_len = len(prefix) - 1
    finally:
        signal.signal(signal.SIGALRM, old)
    res.wall = time.time() - t0
    return res


def _record(res, ctx, keys, key, msg):
    full = "%s|%s" % (cfg_name(ctx.cfg), key)
    if full in keys:
        return
    keys.add(full)
    res.violations.append({"key": full, "msg": msg, "cfg": ctx.cfg,
                           "choices": [i for _, _, i in ctx.trail],
                           "labels": [l for l, _, _ in ctx.trail],
                           "trail": list(ctx.values)})


def cfg_name(cfg):
    return cfg if isinstance(cfg, str) else json.dumps(cfg, sort_keys=True)
