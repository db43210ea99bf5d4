"""Contracts: drivers registered per property."""
from __future__ import annotations

import dataclasses
from typing import Callable


@dataclasses.dataclass
class Contract:
    prop: str
    name: str
    driver: Callable
    funcs: tuple = ()  # the real functions this contract is about (for the report)
    covers: tuple = ()  # labels that must be reached (vacuity guard)
    opts: dict = dataclasses.field(default_factory=dict)
    bounded: str = ""  # non-empty: this contract is a bounded stand-in, with the bound
    runs: int = 300  # concrete executions in the quick tier
    assumes: tuple = ()


def interpreted(f):
    """A function of a contract that is to be followed like the code under contract."""
    f._pyvc_interpreted = True
    return f


CONTRACTS: list[Contract] = []


def contract(prop, name=None, **kw):
    def deco(f):
        CONTRACTS.append(Contract(prop, name or f.__name__, f, **kw))
        return f

    return deco


@dataclasses.dataclass
class PropInfo:
    prop: str
    assumptions: tuple = ()
    level: str = "proof"


PROPS: dict[str, PropInfo] = {}


def prop(pid, assumptions=(), level="proof"):
    PROPS[pid] = PropInfo(pid, tuple(assumptions), level)
