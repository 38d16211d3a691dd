"""The code under test, imported from /repo's working tree."""
from src.sloth.core.unit import Unit, null_dimension
from src.sloth.core import template_units as tu
from src.sloth.core.quantity import Quantity
from src.sloth.core.variable import Variable
from src.sloth.core.parameter import Parameter
from src.sloth.core.constant import Constant
from src.sloth.core.domain import Domain
from src.sloth.core.equation import Equation
from src.sloth.core.expression_evaluation import EquationNode
from src.sloth.core import equation_operators as ops
from src.sloth.core.error_definitions import (DimensionalCoherenceError, UnexpectedValueError,
                                              UnexpectedObjectDeclarationError, ExposedVariableError,
                                              AbsentRequiredObjectError)
from src.sloth.model import Model
from src.sloth.problem import Problem
from src.sloth.analysis import Analysis

BASE = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd']
TEMPLATES = ['dimless', 'm', 'kg', 's', 'A', 'K', 'mol', 'cd', '_s', '_m2', '_m3', 'm_s', 'm_s2', 'kg_s', 'mol_s',
             'Force', 'Pa', 'atm', 'J', 'UniversalIdealGasConstant']


def dims(unit):
    """Canonical exponents of a unit: only the non-zero ones."""
    return {k: float(v) for k, v in unit.dimension.items() if float(v) != 0.}


def template_snapshot():
    return {n: dims(getattr(tu, n)) for n in TEMPLATES}


def lib(name):
    import importlib
    return importlib.import_module('src.sloth.' + name)


def sim():
    from src.sloth.simulation import Simulation
    return Simulation
