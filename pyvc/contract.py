"""Contract registry shared by the verifier (symbolic) and the run-time monitor (real floats).

A contract is a function  f(L, I, ck, M, **params):
   L   library facade:  L.ecef.geodetic2ecef(...)
   I   inputs (universally quantified in the verifier, drawn/replayed in the monitor)
   ck  obligations (postconditions)
   M   mathematics for the specification side
"""
from __future__ import annotations


class Spec:
    def __init__(self, prop, name, fn, cfg, mode, params, opts):
        self.prop, self.name, self.fn, self.cfg, self.mode = prop, name, fn, cfg, mode
        self.params = params or [{}]
        self.opts = opts

    @property
    def key(self):
        return f"{self.prop}.{self.name}"


REG: list[Spec] = []


def contract(prop, name=None, *, cfg=("std", "np"), mode="both", params=None, **opts):
    """mode: 'both' (proved and monitored), 'proof' (verifier only), 'bounded' (monitor only)"""
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            REG.append(Spec(p, name or fn.__name__, fn, tuple(cfg), mode, params, opts))
        return fn
    return deco


def specs(prop=None):
    return [s for s in REG if prop is None or s.prop == prop]


def pname(params):
    return ",".join(f"{k}={v}" for k, v in params.items())


class Skip(Exception):
    """input outside the precondition (monitor only)"""
