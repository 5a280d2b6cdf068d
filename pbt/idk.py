"""A kernel over rows that carry an identity, with recording and fault injection."""
import numpy as np

from pbt import gens as g
from pbt import hist

LD = np.longdouble


class Boom(Exception):
    """Injected failure of the user's kernel function."""


FAULTS = {'custom': Boom, 'value': ValueError, 'runtime': RuntimeError, 'zero': ZeroDivisionError,
          'type': TypeError, 'key': KeyError, 'mem': MemoryError, 'lookup': IndexError,
          'attr': AttributeError, 'arith': FloatingPointError}


def value(a, b, zero_ids=()):
    """Symmetric, irregular values, some zero or negative; dominated by the diagonal."""
    a, b = (a, b) if a <= b else (b, a)
    if a == b:
        return 0.0 if a in zero_ids else 4.0 + (a * 37 % 11) / 8
    v = (a * 31 + b * 17 + a * b) % 23
    return 0.0 if v in (0, 6) else (v - 4) / 16


class IdKernel:
    """func(x, y) for KernelFromCallable; row[0] is the id."""

    def __init__(self, faults=(), kind='custom', zero_ids=(), odd=None):
        self.odd = odd           # value returned for some off-diagonal pairs
        self.calls = []          # pairs of ids, in order
        self.count = 0
        self.faults = set(faults)
        self.exc = FAULTS[kind]
        self.zero_ids = tuple(zero_ids)
        self.raised = 0

    def __call__(self, x, y):
        a, b = int(x[0]), int(y[0])
        here = self.count
        self.count += 1
        if here in self.faults:
            self.raised += 1
            raise self.exc('injected failure of the kernel')
        self.calls.append((a, b))
        if self.odd is not None and a != b and (a + b) % 3 == 0:
            return self.odd
        return value(a, b, self.zero_ids)

    def kernel(self):
        from kernelmethods.base import KernelFromCallable

        def id_kernel(x, y):
            return self(x, y)

        return KernelFromCallable(id_kernel, name='idk')

    def model(self, X, Y=None):
        def gram(A, B):
            V = np.array([[value(int(x[0]), int(y[0]), self.zero_ids) for y in B] for x in A],
                         dtype=LD).reshape(len(A), len(B))
            return V, LD(1e-14) * (1 + np.abs(V))

        def diag(A):
            V = np.array([value(int(x[0]), int(x[0]), self.zero_ids) for x in A], dtype=LD)
            return V, LD(1e-14) * (1 + np.abs(V))

        return hist.Model(X, Y, gram, diag)


def sample(first, n, dtype='f8', layout='C'):
    a = np.zeros((n, 2), dtype=dtype)
    a[:, 0] = np.arange(first, first + n)
    a[:, 1] = (a[:, 0] * 7) % 5
    return g.lay(a, layout)
