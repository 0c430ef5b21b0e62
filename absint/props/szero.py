"""Zero has a single representation in signed numbers: inductive over every public operation."""
from props.sutil import *
from props import sadd, smul, scons, sdiv
RULE = 'inductive step per public operation: from operands in canonical form (partitioned by sign, length and relation) every result satisfies isZero() <=> all blocks zero and exactly one of isZero/isPositive/isNegative'

def build(tier):
    mods = {}; units = []
    for m in (sadd, smul, scons, sdiv):
        a, b = m.build(tier, canon=True)
        mods.update(a); units += b
    return mods, units
