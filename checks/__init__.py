"""Checks, one function per property id."""
REG = {}


def prop(pid):
    def deco(f):
        REG[pid] = f
        return f
    return deco
