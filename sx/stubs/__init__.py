"""Models of the libraries docria calls, for the symbolic world.

Each stub keeps the contract of the real library (documented in DESIGN.md); anything concrete is
delegated to the real one.  build(world) returns {module name: stub module}.
"""
import types
from . import mp, comp, texty, fs, xmlstub, restub, misc, tab


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


def build(world):
    out = {}
    resets = []
    for part in (mp, comp, texty, fs, xmlstub, restub, misc, tab):
        part.install(world, out, resets, module)
    out["__resets__"] = resets
    return out
