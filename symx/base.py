"""What the symbolic and the concrete harness context share."""
import numpy as np


class CtxBase:
    symbolic = False

    def __init__(self):
        self.lhs_stratified = False
        self.search_fun = "zero"
        self.on_search = None
        self.definedness = "assume"
        self.tol = 1e-6

    # arrays of named reals
    def array(self, name, shape, lo=None, hi=None, **k):
        if isinstance(shape, int):
            shape = (shape,)
        n = int(np.prod(shape))
        return self.np.array([self.real("%s_%s" % (name, "_".join(map(str, np.unravel_index(i, shape)))), lo, hi, **k) for i in range(n)], dtype=float).reshape(shape)

    def between(self, name, lo, hi):
        """a value in [lo, hi] for possibly symbolic lo, hi"""
        if lo is None and hi is None:
            return self.real(name)
        u = self.real(name, 0, 1)
        return lo + (hi - lo) * u

    def box(self, name, d):
        """d x 2 design space with lower < upper"""
        np_ = self.np
        rows = []
        for j in range(d):
            lo = self.real("%s_lo%d" % (name, j), -1000, 1000)
            w = self.real("%s_w%d" % (name, j), 0, 10000, lo_open=True)
            rows.append([lo, lo + w])
        return np_.array(rows, dtype=float)
