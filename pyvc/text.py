"""Texts of symbolic content."""
from .core import Part, VStr, VTup, Lit


def repeated(interp, text, times):
    return VStr([Part('repeat', VTup([Lit(text), Lit(times)]))])
