"""An in-process stand-in for a worker pool, whose order of work is chosen by the check."""


def make(order):
    """order: one-element list holding 'fwd', 'rev' or a tuple of item numbers to be worked on first"""
    def seq(n):
        o = order[0]
        if o == 'fwd':
            return list(range(n))
        if o == 'rev':
            return list(range(n))[::-1]
        first = [i for i in o if i < n]
        return first + [i for i in range(n) if i not in first]

    class Stand:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def map(self, fn, *its, **k):
            items = list(zip(*[list(i) for i in its if not isinstance(i, int)]))
            out = [None] * len(items)
            for i in seq(len(items)):
                out[i] = fn(*items[i])
            return out
        imap = map

        def starmap(self, fn, items, *a, **k):
            return self.map(lambda t: fn(*t), items)

        def uimap(self, fn, *its, **k):
            items = list(zip(*[list(i) for i in its if not isinstance(i, int)]))
            return [fn(*items[i]) for i in seq(len(items))]
        imap_unordered = uimap

        def apply(self, fn, args=(), kwds={}):
            return fn(*args, **kwds)

        def close(self):
            pass
        join = clear = terminate = restart = close
    return Stand
