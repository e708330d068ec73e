"""Runs the scenes of other checks and only watches for writes to what is not theirs."""
from sa import terms as tm
from sa.obl import Check, Section
from sa.world import *
from sa.world import World


def own(v, tag):
    """marks containers handed over by the caller, and everything in them"""
    if isinstance(v, PyDict):
        if v.owner is None:
            v.owner = tag
        for x in list(v.d.values()):
            own(x, tag)
    elif isinstance(v, PyList):
        if v.owner is None:
            v.owner = tag
        for x in v.items:
            own(x, tag)
    elif isinstance(v, tuple):
        for x in v:
            own(x, tag)
    return v


class WatchWorld(World):
    """arguments given by the scene belong to the caller; writes are kept over resets"""
    seen = ()
    raised = ()

    def mine(self, what, args, kw):
        nm = str(what)
        for x in list(args) + list(kw.values()):
            own(x, 'in:argument of ' + nm)

    def call(self, f, *args, **kw):
        self.mine(f if isinstance(f, str) else getattr(f, 'qual', getattr(f, 'name', '')), args, kw)
        return World.call(self, f, *args, **kw)

    def meth(self, o, name, *args, **kw):
        self.mine(name, args, kw)
        return World.meth(self, o, name, *args, **kw)

    def reset(self):
        self.seen = list(self.seen) + list(self.I.mutations)
        self.raised = list(self.raised) + list(self.I.raises)
        World.reset(self)

    def allraises(self):
        return list(self.raised) + list(self.I.raises)


class Watch(object):
    """stands in for the check of a scene: decides nothing itself"""

    def __init__(self, ck, name):
        self.ck, self.name, self.jobs, self.mine = ck, name, [], []
        self.tier, self.section, self.obl = ck.tier, '', []
        self.terms = []

    def world(self, **kw):
        w = WatchWorld(**kw)
        w.seen, w.raised = (), ()
        self.ck.worlds.append(w)
        self.mine.append(w)
        return w

    def eq(self, rule, where, got, want, *a, **kw):
        self.terms.append((where, got))

    def holds(self, rule, where, t, *a, **kw):
        pass

    def fact(self, *a, **kw):
        pass
    undecided = _add = fact

    def excname(self, e):
        return self.ck.excname(e)

    def par(self, jobs):
        self.jobs += jobs


def scenes(ck, props, after, skip=()):
    """jobs running the scenes of the checks given, then after(name, watch) on what they did"""
    out = []
    for label, f in props:
        w = Watch(ck, label)
        f(w)
        if w.mine:                       # done without jobs
            after(label, w)
        for name, g in w.jobs:
            if '%s: %s' % (label, name) in skip:
                continue
            def job(name=name, g=g, w=w, label=label):
                w.mine, w.terms = [], []
                g()
                after('%s: %s' % (label, name), w)
            out.append(('%s: %s' % (label, name), job))
    return out
