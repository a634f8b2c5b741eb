"""A world with more particles, and more objects, than 16-bit or 8-bit counters hold: two objects of more than 32767 particles and 300 small ones."""
import numpy as np
import worlds, shapecmp
from mc import Violation

R = (.3, .2, .1)
SPEC = [(33000, .9, (.8, .6, .4), (.3, .6, .5), 1, R)] + [(14 + k % 5, .3 + .001 * k, (.2, .15, .1), ((k * .37) % 1, (k * .61) % 1, (k * .13) % 1), 10 + k, R) for k in range(150)] \
     + [(34000, .6, (.9, .5, .4), (.98, .02, .4), 2, None)] + [(15 + k % 4, .3 + .001 * k, (.2, .12, .1), ((k * .29) % 1, (k * .83) % 1, (k * .47) % 1), 200 + k, R) for k in range(150)]
BIG = (0, 151)
SELS = ([151, 3, 0, 301, 160], list(range(302)))


def world(u, how='com', order='inter', vel=False):
    return worlds.make(u, SPEC, how=how, order=order, vel=vel)


def rtol(o, tight):
    """single particles within rounding of an edge do not matter among tens of thousands"""
    return max(tight, 5e-3) if o in BIG else tight


HALOS = [(33000, 500, 2, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (700, 3, 1, .5, (.5, .4, .3), (.02, .5, .97), 5, None), (34000, 40, 1, .6, (.9, .5, .4), (.98, .02, .4), 2, R)]


def compare(X, row, ref, tie, u, o, what):
    """a large object is compared whether or not single particles are tied, its axis ratios to 5e-3"""
    if o not in BIG:
        return shapecmp.compare(X, row, ref, tie, u, what)
    if ref is None or np.isnan(row['q']):
        raise Violation("%s: %s, expected %s" % (what, row, ref))
    shapecmp.invariants(row, what)
    if not np.allclose((row['d'], row['q'], row['s']), (ref['d'] * u.lout, ref['q'], ref['s']), rtol=5e-3):
        raise Violation("%s: %s, expected %s" % (what, row, ref))
    for k, f in enumerate(('major', 'inter', 'minor')):
        if ref['gap'] > .05 and abs(np.dot(row[f], ref['axes'][k])) < .99:
            raise Violation("%s: %s axis %s, expected %s" % (what, f, row[f], ref['axes'][k]))
    X.ok()
