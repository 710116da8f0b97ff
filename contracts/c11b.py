"""C11: ConstraintBuilder hands the normalised constraints to the propagator."""
from cb import C11U as UNITS
