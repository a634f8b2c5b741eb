"""Comparison of a shape catalogue row with the reference iteration."""
import numpy as np
import refmodel as rm
from mc import Violation


def row(sh, i, k=None):
    g = (lambda f: sh[f][i]) if k is None else (lambda f: sh[f][i][k])
    return {f: np.array(g(f)) for f in ('d', 'q', 's', 'is_conv', 'major', 'inter', 'minor')}


def invariants(r, what):
    if bool(r['is_conv']):
        if not (0 < r['s'] <= r['q'] + 1e-12 and r['q'] <= 1 + 1e-12):
            raise Violation("%s: axis ratios q=%r s=%r" % (what, r['q'], r['s']))
        A = np.array([r['major'], r['inter'], r['minor']])
        if not np.allclose(A @ A.T, np.eye(3), atol=1e-6):
            raise Violation("%s: axes not orthonormal\n%s" % (what, A))
    else:
        for f in ('d', 'q', 's', 'major', 'inter', 'minor'):
            if not np.all(np.isnan(r[f])):
                raise Violation("%s: not converged, yet %s = %s" % (what, f, r[f]))


def compare(X, r, ref, tie, u, what):
    """r: row() of the implementation, ref: dict or None."""
    if tie:
        X.skipped += 1
        return
    invariants(r, what)
    if ref is None:
        if bool(r['is_conv']):
            raise Violation("%s: reported converged (q=%r s=%r), must not be" % (what, r['q'], r['s']))
        X.outcome('nan')
        X.ok()
        return
    if not bool(r['is_conv']):
        raise Violation("%s: reported not converged, expected %s" % (what, {k: ref[k] for k in ('d', 'q', 's', 'n', 'it')}))
    for f in ('q', 's'):
        if not abs(r[f] - ref[f]) <= 2e-5:
            raise Violation("%s: %s = %r, expected %r (n=%d, %d iterations)" % (what, f, r[f], ref[f], ref['n'], ref['it']))
    if not rm.close(r['d'], ref['d'] * u.lout, 1e-6):
        raise Violation("%s: d = %r, expected %r" % (what, r['d'], ref['d'] * u.lout))
    if ref['gap'] > 1e-3:
        for f, a in zip(('major', 'inter', 'minor'), ref['axes']):
            if not abs(abs(float(np.dot(r[f], a))) - 1) <= 1e-4:
                raise Violation("%s: %s axis %s, expected %s" % (what, f, r[f], a))
    X.count('iterations_%02d' % min(ref['it'], 20))
    X.outcome(round(ref['q'], 4), round(ref['s'], 4), ref['n'])
    X.ok()
