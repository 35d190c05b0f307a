"""What a property module is made of: sub-checks over JSON-able generated cases."""
from __future__ import annotations
import dataclasses
from typing import Any, Callable


class HarnessError(Exception):
    """The harness (not the code under test) is wrong or cannot proceed: never a violation."""


class Ctx:
    """Per-case notes: is the case non-trivial, and which classes does it belong to."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, flag: bool = True):
        if flag:
            self.nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


@dataclasses.dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]  # returns a hypothesis strategy over plain JSON-able cases
    check: Callable[[Any, Ctx], None]  # raises AssertionError if the property is violated
    quick: int  # number of generated cases in the quick tier (over all workers)
    thorough: int = 0
    rule: str = ""  # what the cases are and which are non-trivial
    examples: tuple = ()  # hand-picked cases that are always run first

    def n(self, tier):
        return self.quick if tier == "quick" else (self.thorough or self.quick * 12)


def must_raise(fn, excs=(Exception,), what=""):
    """Assert that calling fn raises one of excs; other exceptions propagate."""
    try:
        out = fn()
    except excs:
        return
    raise AssertionError(f"expected an error, got {type(out).__name__}: {what}")
