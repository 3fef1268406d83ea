"""Reference formulas: written as plain Python over the same libraries, evaluated by
the same abstract interpreter, and compared with the program's results in normal form."""
import ast
from interp import Frame
from values import ModV

PRE = ast.parse("""
import numpy as np
from numpy import cos, sin, pi, exp, sqrt, arctan2, cosh, arccosh
from scipy.constants import hbar, elementary_charge as q_e, Boltzmann, physical_constants, electron_mass
from scipy.integrate import odeint
from skimage import measure
meV = physical_constants["electron volt"][0] * 1e-3
ANG = 1e-10
PS = 1e-12
KB = Boltzmann / meV
""")
_C = {}


def ref(it, src, **env):
    """runs the reference source with the given names; returns its namespace"""
    tree = _C.get(src)
    if tree is None:
        import textwrap
        tree = _C[src] = ast.parse(textwrap.dedent(src))
    m = ModV("spec", {}, "spec")
    fr = Frame(None, m, None)
    fr.vars = m.ns
    it.frames.append(fr)
    try:
        it.exec_block(PRE.body)
        m.ns.update(env)
        it.exec_block(tree.body)
    finally:
        it.frames.pop()
    return m.ns


def val(it, expr, **env):
    return ref(it, "result_ = (%s)" % expr.strip(), **env)["result_"]
