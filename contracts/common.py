"""Shared declarations of the contract files."""
from pyvc.boot import *  # noqa
from pyvc.registry import REG, Inv, old, forall, exists, implies, iff, allocated, fresh_ref, unchanged, use, before  # noqa
from pyvc.values import *  # noqa

contract = REG.contract
lemma = REG.lemma
