"""Exceptions thrown by the materials at a chosen point of a calculation.

A material may refuse a wavenumber (a table that ends, a request interrupted by
the user).  `at(n, kind)` makes the n-th evaluation of a permittivity or
permeability raise; enumerating n = 1, 2, .. until a calculation finishes
without reaching the fault visits every such point of it.
"""
import contextlib
import functools
import materials


class Fault(Exception):
    pass


KINDS = {"error": Fault, "attribute": AttributeError, "value": ValueError, "interrupt": KeyboardInterrupt}
_state = {"left": None, "kind": None, "hit": False}


def _wrap(fn):
    @functools.wraps(fn)
    def g(self, *a, **kw):
        if _state["left"] is not None:
            _state["left"] -= 1
            if _state["left"] == 0:
                _state["left"] = None
                _state["hit"] = True
                raise _state["kind"]("fault injected in " + fn.__name__)
        return fn(self, *a, **kw)
    g._fault = True
    return g


def _classes(c):
    out = [c]
    for s in c.__subclasses__():
        out += _classes(s)
    return out


def install():
    kinds = {type(v) for v in vars(materials).values()} & set(_classes(materials.Material)) | set(_classes(materials.Material))
    for c in kinds:
        for n in ("epsilon", "mu"):
            f = c.__dict__.get(n)
            if callable(f) and not hasattr(f, "_fault"):
                setattr(c, n, _wrap(f))


@contextlib.contextmanager
def at(n, kind):
    """the n-th evaluation of a material raises, once"""
    install()
    _state.update(left=n, kind=KINDS[kind], hit=False)
    try:
        yield _state
    finally:
        _state["left"] = None
