"""byte and bit validators built with 128-bit unit types (feature byte-unit-u128)."""
from p_unit import *
import p_unit
FEATURES = p_unit.FEATURES + ['byte-unit-u128']
CAP = 10 ** 27 - 1

def run_one(P, w, e): return p_unit.run_one(P, w, e, CAP)
