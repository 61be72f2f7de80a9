"""Valid models and files used as workloads."""
import os
from . import gen, igeslib as I


def model(r, what=None, attrs=True, minres=None, ntop=None, extent=None):
    g = gen.Gen(r, minres=minres or r.choice([1e-3, 1e-5, 1e-8]), attrs=attrs, extent=extent)
    for _ in range(ntop or r.randint(1, 3)):
        g.top(r.choice(what) if what else None)
    m = g.finish()
    return m


def valid(r, **kw):
    """A model and a style in which it is written."""
    m = model(r, **kw)
    m.start = ["start line %d" % r.randint(0, 99)] * r.randint(1, 2)
    return m, gen.random_style(r)
