# -*- coding: utf-8 -*-
"""Shared kernel of the property-based checks.

Imported on both sides of the pipe:

* in the *driver* (python3-vt, has Hypothesis): facets carry a generator `gen(draw, st)` that
  builds a JSON-able case;
* in the *worker* (/opt/venv python, has mifem's dependencies): facets carry an evaluator `ev(case)`
  which runs the real code in /repo on that case and raises `Violation` if the oracle disagrees.

Nothing in this file imports mifem, numpy or hypothesis at module level.
"""
FACETS = {}


class Violation(Exception):
    """The code under test broke the property."""


class Reject(Exception):
    """The case is outside the domain the code accepts (counted, never a failure)."""


class Facet(object):
    def __init__(self, prop, name, ev, gen, np, quick, thorough, cost, timeout, doc):
        self.prop, self.name, self.ev, self.gen = prop, name, ev, gen
        self.np = tuple(np)
        self.quick, self.thorough = quick, thorough
        self.cost = cost
        self.timeout = timeout
        self.doc = doc

    def count(self, tier, n):
        c = self.quick if tier == 'quick' else self.thorough
        if isinstance(c, dict):
            return c.get(n, c.get(str(n), 0))
        return c


def facet(prop, name, gen, np=(1,), quick=50, thorough=None, cost=1.0, timeout=100):
    """Register an evaluator. `quick`/`thorough`: numbers of generated cases per rank count."""
    if thorough is None:
        if isinstance(quick, dict):
            thorough = {k: 12 * v for k, v in quick.items()}
        else:
            thorough = 12 * quick

    def deco(ev):
        assert (prop, name) not in FACETS, (prop, name)
        FACETS[(prop, name)] = Facet(prop, name, ev, gen, np, quick, thorough, cost, timeout,
                                     (ev.__doc__ or '').strip())
        return ev
    return deco


# ------------------------------------------------------------------ per-case notes (worker side)
class _State(object):
    nontrivial = False
    tags = None
    stage, prev, dir, out = 0, [], None, None


S = _State()


def begin():
    S.nontrivial = False
    S.tags = []
    S.out = None


def nontrivial(cond=True):
    if cond:
        S.nontrivial = True


def tag(t):
    S.tags.append(str(t))


def reject(why=''):
    raise Reject(why)


def fail(msg):
    raise Violation(msg)


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, msg, rtol=1e-9, atol=1e-10):
    """Element-wise comparison with an explicit tolerance; shapes must match; nan never equals."""
    import numpy as np
    if hasattr(a, 'toarray'):
        a = a.toarray()
    if hasattr(b, 'toarray'):
        b = b.toarray()
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation('%s: shape %s vs expected %s' % (msg, a.shape, b.shape))
    if a.size == 0:
        return
    if not (np.all(np.isfinite(a))):
        raise Violation('%s: non-finite value in the result' % msg)
    err = np.abs(a - b)
    tol = atol + rtol * np.abs(b)
    if not np.all(err <= tol):
        k = int(np.argmax(err - tol))
        i = np.unravel_index(k, a.shape) if a.ndim else ()
        raise Violation('%s: at %s got %r expected %r (tol %.2e, %d of %d entries off)' % (
            msg, tuple(int(_) for _ in i), float(a[i]), float(b[i]), float(tol[i]),
            int(np.sum(err > tol)), a.size))


def gclose(a, b, msg, rtol=1e-9, atol=1e-10):
    """Like close, but the tolerance is relative to the largest entry of b (norm-wise)."""
    import numpy as np
    if hasattr(b, 'toarray'):
        b = b.toarray()
    bb = np.asarray(b, dtype=float)
    m = float(np.max(np.abs(bb))) if bb.size else 0.
    close(a, bb, msg, rtol=0., atol=atol + rtol * m)
