"""Abstract interpreter: package source -> gated value graph (no code is run)."""
import ast
import os
from fractions import Fraction
from . import terms as tm
from . import planar
from .terms import T, num, sym, mk, lift, ite, lnot, land, lor, TRUE, FALSE, is_bool, app
from .values import *

BUILTIN_EXC = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'OSError',
               'NotImplementedError', 'RuntimeError', 'AssertionError', 'AttributeError',
               'ZeroDivisionError', 'StopIteration', 'ImportError', 'BaseException',
               'LookupError', 'ArithmeticError', 'FloatingPointError', 'Warning',
               'UserWarning', 'DeprecationWarning', 'KeyboardInterrupt', 'SystemExit'}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'map', 'list', 'tuple', 'dict', 'set', 'sorted',
            'reversed', 'sum', 'min', 'max', 'abs', 'any', 'all', 'isinstance', 'hasattr',
            'getattr', 'setattr', 'callable', 'int', 'float', 'str', 'bool', 'print', 'round',
            'type', 'object', 'iter', 'next', 'id', 'repr', 'filter', 'staticmethod',
            'classmethod', 'property', 'super', 'frozenset', 'slice', 'divmod', 'pow',
            'issubclass', 'vars', 'open', 'hash', 'format', 'globals', 'locals', 'delattr',
            'input', 'exec', 'eval', 'ord', 'chr', 'complex', 'bytes'} | BUILTIN_EXC


class Env(dict):
    """local variables of a function; a number set on some paths only is unknown on the others"""
    __hash__ = None


class Exit(object):
    def __init__(self, kind, pc, delta, value=None, loc=None):
        self.kind, self.pc, self.delta, self.value, self.loc = kind, pc, delta, value, loc


class Frame(object):
    def __init__(self, mod, env, closure, func, qual):
        self.mod, self.env, self.closure, self.func, self.qual = mod, env, closure, func, qual
        self.mark = 0
        self.pcmark = 0
        self.yields = None
        self.loops = []
        self.globals_ = set()
        self.nonlocals = set()
        self.defcls = None


class Interp(object):
    def __init__(self, root='/repo', package='pvfactors', stubs=None):
        self.root = root
        self.package = package
        self.mods = {}
        self.rels = {}
        self.trail = []
        self.pc = []
        self.frames = []
        self.events = []           # ordered external effects / token calls
        self.raises = []           # (pc term, exception name, loc)
        self.mutations = []        # (owner tag, loc, what)
        self.notes = []            # unsupported / opaque constructs met
        self.funcs = {}            # analysed package functions -> count
        self.calls = 0
        self.stubs = stubs or {}   # qualname -> python callable(interp, args, kwargs)
        self.dims = {}
        self.nodes_seen = 0
        self.depth = 0
        self.ext_calls = {}
        from . import npmodel
        self.np = npmodel.Model(self)

    # ------------------------------------------------------------- utilities
    def loc(self):
        return tm.CUR_LOC[0]

    def note(self, msg):
        n = (msg, self.loc())
        if n not in self.notes:
            self.notes.append(n)

    def opaque(self, reason):
        self.note('opaque: ' + reason)
        return Opaque(reason)

    def write(self, d, key, val, cell_owner=None):
        self.trail.append((d, key, d.get(key, UNDEF)))
        d[key] = val

    def hwrite(self, h, key, val):
        if h.owner:
            self.mutations.append((h.owner, self.loc(), key, land(*self.pc)))
        self.write(h.d, key, val)

    def swrite(self, store, cell, val):
        if store.tag:
            self.mutations.append((store.tag, self.loc(), 'element', land(*self.pc)))
        store.wlog.append(self.loc())
        self.write(store.d, cell, val)

    def delta_since(self, mark):
        out = {}
        for d, key, _ in self.trail[mark:]:
            out[(id(d), key)] = (d, key, d.get(key, UNDEF))
        return out

    def rollback(self, mark):
        tr = self.trail
        while len(tr) > mark:
            d, key, old = tr.pop()
            if old is UNDEF:
                d.pop(key, None)
            else:
                d[key] = old

    def decide(self, c):
        """host bool if condition c is known under the path condition."""
        if isinstance(c, T):
            c = tm.tobool(c)
            if c is TRUE:
                return True
            if c is FALSE:
                return False
            if self.pc:
                if land(*(self.pc + [c])) is FALSE:
                    return False
                if land(*(self.pc + [lnot(c)])) is FALSE:
                    return True
        return None

    # -------------------------------------------------------------- merging
    def vite(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) \
                and type(a) is type(b) and a == b:
            return a
        sa = isinstance(a, (T, int, float, Fraction, bool, Opaque))
        sb = isinstance(b, (T, int, float, Fraction, bool, Opaque))
        if sa and sb:
            return ite(c, self.np.scal(a), self.np.scal(b))
        if isinstance(a, NDArr) and isinstance(b, NDArr):
            if a.axes == b.axes:
                if a.elems == b.elems and a.store is b.store:
                    return a
                r = NDArr(a.axes, [ite(c, x, y) for x, y in zip(a.elems, b.elems)])
                r.store.alias = (a.store, b.store)
                return r
        if (isinstance(a, NDArr) and sb) or (isinstance(b, NDArr) and sa):
            return self.np.ew(lambda x, y: ite(c, x, y), a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, PyList) and isinstance(b, PyList) and type(a) is type(b):
            return type(a)(self.merge_items(c, a.items, b.items))
        if isinstance(a, PyDict) and isinstance(b, PyDict) and a.keys() == b.keys():
            return PyDict([(k, self.vite(c, a.d[k], b.d[k])) for k in a.keys()])
        return Phi(c, a, b)

    def merge_items(self, c, a, b):
        if a == b:
            return a
        if len(a) == len(b) and all(self._mergeable(x, y) for x, y in zip(a, b)):
            return tuple(x if x is y else self.vite(c, x, y) for x, y in zip(a, b))
        n = 0
        while n < len(a) and n < len(b) and a[n] is b[n]:
            n += 1
        out = list(a[:n])
        for cond, rest in ((c, a[n:]), (lnot(c), b[n:])):
            for x in rest:
                if isinstance(x, Guarded):
                    out.append(Guarded(land(cond, x.cond), x.val))
                else:
                    out.append(Guarded(cond, x))
        return tuple(out)

    def _mergeable(self, x, y):
        if isinstance(x, Guarded) or isinstance(y, Guarded):
            return x is y
        return x is y or (isinstance(x, (T, int, Fraction, NDArr, bool)) and
                          isinstance(y, (T, int, Fraction, NDArr, bool)))

    def merge_cell(self, key, c, a, b):
        if key == 'items' and isinstance(a, tuple) and isinstance(b, tuple):
            return self.merge_items(c, a, b)
        return self.vite(c, a, b)

    def merge_outcomes(self, mark, outs):
        """outs: list of (cond, delta); rolls back to mark and writes the merge."""
        self.rollback(mark)
        cells = {}
        for _, delta in outs:
            for ck, (d, key, v) in delta.items():
                cells.setdefault(ck, (d, key))
        for ck, (d, key) in cells.items():
            base = d.get(key, UNDEF)
            vals = [(c, delta[ck][2] if ck in delta else base) for c, delta in outs]
            v = vals[-1][1]
            for c, x in reversed(vals[:-1]):
                if isinstance(d, Env) and (x is UNDEF) != (v is UNDEF):
                    x, v = self.unset(x, v), self.unset(v, x)
                v = x if x is v else self.merge_cell(key, c, x, v)
            if v is not base:
                self.write(d, key, v)

    def unset(self, v, other):
        if v is UNDEF and not isinstance(other, bool) \
                and isinstance(other, (T, int, float, Fraction)) and not is_bool(lift(other)):
            return tm.sym('variable_not_set')
        return v

    def rel(self, pcmark, extra=()):
        return land(*(self.pc[pcmark:] + list(extra)))

    # --------------------------------------------------------------- modules
    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            rel = name.replace('.', '/')
            p = os.path.join(self.root, rel + '.py')
            if not os.path.exists(p):
                p = os.path.join(self.root, rel, '__init__.py')
            if not os.path.exists(p):
                raise Unsupported('no module %s' % name)
            m = ModVal(name, p)
            m.tree = ast.parse(open(p).read(), p)
            self.mods[name] = m
        if m.state == 0:
            m.state = 1
            m.env['__name__'] = name
            m.env['__file__'] = p
            fr = Frame(m, m.env, None, None, name + '.<module>')
            fr.mark = len(self.trail)
            fr.pcmark = len(self.pc)
            self.frames.append(fr)
            saved, self.pc = self.pc, []
            sl = tm.CUR_LOC[0]
            try:
                for st in m.tree.body:
                    try:
                        self.exec_stmt(st, fr)
                    except (AbsRaise, Unsupported) as e:
                        self.note('module init %s:%d %s' % (name, st.lineno, e))
            finally:
                self.frames.pop()
                self.pc = saved
                tm.CUR_LOC[0] = sl
            # module state is permanent: forget undo information
            if not any(f.func for f in self.frames):
                pass
            else:
                tr = self.trail
                tr[:] = [x for x in tr if x[0] is not m.env]
            m.state = 2
        return m

    def get(self, dotted):
        """package object by dotted name, e.g. pvfactors.engine.PVEngine.fit"""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            try:
                m = self.module('.'.join(parts[:i]))
            except Unsupported:
                continue
            v = m
            for p in parts[i:]:
                v = self.getattr(v, p)
            return v
        raise Unsupported('cannot resolve %s' % dotted)

    def import_name(self, name):
        if name == self.package or name.startswith(self.package + '.'):
            return self.module(name)
        return Ext(name)

    # ------------------------------------------------------------ statements
    def setloc(self, node, fr):
        rel = self.rels.get(fr.mod.path)
        if rel is None:
            rel = self.rels[fr.mod.path] = os.path.relpath(fr.mod.path, self.root)
        tm.CUR_LOC[0] = (rel, fr.qual, node.lineno)

    def exec_block(self, stmts, fr):
        """returns (falls, exits)."""
        exits = []
        for st in stmts:
            try:
                falls, ex = self.exec_stmt(st, fr)
            except AbsRaise as e:
                exits.append(Exit('raise', list(self.pc), self.delta_since(fr.mark), e.exc,
                                  e.loc or self.loc()))
                return False, exits
            exits += ex
            if not falls:
                return False, exits
            if self.pc and land(*self.pc) is FALSE:
                return False, exits
        return True, exits

    def exec_stmt(self, st, fr):
        self.setloc(st, fr)
        self.nodes_seen += 1
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(st).__name__, self.loc()))
        r = m(st, fr)
        return r if r is not None else (True, [])

    def st_Pass(self, st, fr): pass

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)
        elif fr.func is None and isinstance(st.target, ast.Name):
            fr.env.setdefault('__annotations_order__', []).append(st.target.id)

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            new = self.augop(st.op, old, self.ev(st.value, fr))
            if new is not old or isinstance(new, (int, T)):
                self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            new = self.augop(st.op, old, self.ev(st.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            old = self.getitem(o, k)
            new = self.augop(st.op, old, self.ev(st.value, fr))
            self.setitem(o, k, new)
        else:
            raise Unsupported('augassign')

    def augop(self, op, old, val):
        if isinstance(old, NDArr) and not isinstance(val, (Phi,)):
            new = self.binop(op, old, val)
            if isinstance(new, NDArr) and new.axes == old.axes:
                els = new.elems
                if new.store.dt is None:
                    self.np.narrow(old, None)
                for c, e in zip(old.idx, els):
                    self.swrite(old.store, c, e)
                return old
            return new
        if isinstance(old, PyList) and not isinstance(old, PySet) and isinstance(op, ast.Add):
            items = self.iterate(val)
            self.hwrite(old, 'items', old.items + tuple(items))
            return old
        if isinstance(old, PyDict) and isinstance(op, ast.BitOr):
            for k, v in self.dict_items(val):
                self.hwrite(old, k, v)
            return old
        return self.binop(op, old, val)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.mutations.append(('module:' + fr.mod.name, self.loc(), t.id, land(*self.pc)))
                self.write(fr.mod.env, t.id, v)
            elif t.id in fr.nonlocals:
                c = fr.closure
                while c is not None and t.id not in c.env:
                    c = c.closure
                self.write((c or fr).env, t.id, v)
            else:
                self.write(fr.env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Phi):
                items = self.iterate(v)
            else:
                items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n_after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, PyList(items[i:len(items) - n_after]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - n_after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                raise AbsRaise('ValueError', self.loc())
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assign target')

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.write(fr.env, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj):
                    p, _ = self.class_lookup(o.cls, t.attr)
                    if isinstance(p, PropVal) and p.fdel:
                        self.call(Bound(o, p.fdel), [], {})
                    else:
                        self.hwrite(o, t.attr, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_slice(t.slice, fr)
                if isinstance(o, (PyDict, DF)):
                    self.hwrite(o, k, UNDEF)
                else:
                    self.note('del item')

    def st_Return(self, st, fr):
        v = None if st.value is None else self.ev(st.value, fr)
        return False, [Exit('return', list(self.pc), self.delta_since(fr.mark), v, self.loc())]

    def st_Continue(self, st, fr):
        return False, [Exit('continue', list(self.pc), self.delta_since(fr.loops[-1][1]))]

    def st_Break(self, st, fr):
        return False, [Exit('break', list(self.pc), self.delta_since(fr.loops[-1][0]))]

    def st_Raise(self, st, fr):
        v = None if st.exc is None else self.ev(st.exc, fr)
        name = self.excname(v)
        self.raises.append((land(*self.pc), name, self.loc()))
        return False, [Exit('raise', list(self.pc), self.delta_since(fr.mark), name, self.loc())]

    def excname(self, v):
        if isinstance(v, Ext):
            return v.name
        if isinstance(v, ClassVal):
            return v.name
        if isinstance(v, Obj):
            return v.cls.name
        if isinstance(v, Token):
            return v.name.split('(')[0]
        return 'reraise' if v is None else '?'

    def st_Assert(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        if c is True:
            return
        self.raises.append((land(*(self.pc + ([lnot(c)] if isinstance(c, T) else []))),
                            'AssertionError', self.loc()))
        if c is False:
            raise AbsRaise('AssertionError', self.loc())
        self.pc.append(c)

    def st_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def st_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def st_Import(self, st, fr):
        for a in st.names:
            v = self.import_name(a.name)
            if a.asname:
                self.write(fr.env, a.asname, v)
            else:
                top = a.name.split('.')[0]
                self.write(fr.env, top, self.import_name(top))

    def st_ImportFrom(self, st, fr):
        base = st.module or ''
        if st.level:
            parts = fr.mod.name.split('.')
            if not fr.mod.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        for a in st.names:
            if base == self.package or base.startswith(self.package + '.'):
                m = self.module(base)
                if a.name in m.env:
                    v = m.env[a.name]
                else:
                    try:
                        v = self.module(base + '.' + a.name)
                    except Unsupported:
                        raise AbsRaise('ImportError', self.loc())
            else:
                v = Ext(base + '.' + a.name)
            self.write(fr.env, a.asname or a.name, v)

    def st_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, fr)
        self.write(fr.env, st.name, v)

    def mkfunc(self, st, fr, name=None):
        closure = fr if fr.func is not None else None
        nm = name or getattr(st, 'name', '<lambda>')
        qual = fr.qual.replace('<module>', '').rstrip('.') + '.' + nm
        f = FuncVal(st, fr.mod, closure, qual)
        f.defcls = fr.defcls
        a = st.args
        f.defaults = [self.ev(x, fr) for x in a.defaults]
        for d in f.defaults:
            if isinstance(d, (PyList, PyDict, Obj)):
                d.owner = d.owner or 'default:' + qual
        f.kwdefaults = {k.arg: self.ev(x, fr) for k, x in zip(a.kwonlyargs, a.kw_defaults)
                        if x is not None}
        return f

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Name) and d.id == 'property':
            return PropVal(v)
        if isinstance(d, ast.Name) and d.id == 'staticmethod':
            return StaticVal(v)
        if isinstance(d, ast.Name) and d.id == 'classmethod':
            return ClsMethVal(v)
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter', 'getter'):
            p = self.ev(d.value, fr)
            if isinstance(p, PropVal):
                n = PropVal(p.fget, p.fset, p.fdel, p.cached)
                setattr(n, {'setter': 'fset', 'deleter': 'fdel', 'getter': 'fget'}[d.attr], v)
                return n
        x = self.ev(d, fr)
        nm = x.name if isinstance(x, Ext) else getattr(x, 'name', '')
        if nm.endswith('cached_property'):
            return PropVal(v, cached=True)
        if nm.endswith('lru_cache') or nm.endswith('functools.cache') or 'lru_cache' in nm:
            f = v.f if isinstance(v, (StaticVal, ClsMethVal)) else v
            f.cached = {}
            return v
        if nm.endswith('abstractmethod') or nm.endswith('wraps') or 'wraps' in nm \
                or nm.endswith('override'):
            return v
        if nm.endswith('contextmanager'):
            return v
        if isinstance(x, (FuncVal, Bound)):
            return self.call(x, [v], {})
        self.note('decorator %s ignored' % nm)
        return v

    def st_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        qual = fr.qual.replace('<module>', '').rstrip('.') + '.' + st.name
        env = {'__qualname__': qual}
        cv = ClassVal(st.name, bases, env, fr.mod, qual)
        f2 = Frame(fr.mod, env, fr if fr.func is not None else None, None, qual)
        f2.defcls = cv
        f2.mark = fr.mark
        # class bodies may read names of the class namespace and the module
        f2.classbody = True
        for s in st.body:
            self.exec_stmt(s, f2)
        for k, v in env.items():
            if isinstance(v, PropVal):
                v.name = k
            if isinstance(v, (PyList, PyDict)) and not v.owner:
                v.owner = 'class:' + qual
        for d in st.decorator_list:
            x = self.ev(d, fr)
            nm = getattr(x, 'name', '')
            if 'dataclass' in nm:
                cv.dataclass = True
        if any('NamedTuple' in getattr(b, 'name', '') for b in bases):
            cv.dataclass = True
        self.write(fr.env, st.name, cv)

    # control flow
    def branch(self, c, fr, run_a, run_b):
        """run two alternatives under c / not c; returns (falls, exits)."""
        d = self.decide(c)
        if d is True:
            return run_a()
        if d is False:
            return run_b()
        mark = len(self.trail)
        npc = len(self.pc)
        res = []
        exits = []
        for cond, run in ((c, run_a), (lnot(c), run_b)):
            self.pc.append(cond)
            falls, ex = run()
            exits += ex
            fallpc = self.pc[npc:]
            delta = self.delta_since(mark) if falls else None
            res.append((falls, fallpc, delta))
            self.rollback(mark)
            del self.pc[npc:]
        (fa, pa, da), (fb, pb, db) = res
        if fa and fb:
            self.merge_outcomes(mark, [(c, da), (lnot(c), db)])
            if len(pa) > 1 or len(pb) > 1:
                x = lor(land(*pa), land(*pb))
                if x is not TRUE:
                    self.pc.append(x)
            return True, exits
        if fa or fb:
            d, p = (da, pa) if fa else (db, pb)
            for ck, (dd, key, v) in d.items():
                if dd.get(key, UNDEF) is not v:
                    self.write(dd, key, v)
            self.pc.extend(p)
            return True, exits
        return False, exits

    def st_If(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        if c is True:
            return self.exec_block(st.body, fr)
        if c is False:
            return self.exec_block(st.orelse, fr)
        return self.branch(c, fr, lambda: self.exec_block(st.body, fr),
                           lambda: self.exec_block(st.orelse, fr))

    def loop(self, items, bind, body, fr):
        """unrolled loop over a container of known shape."""
        mark0 = len(self.trail)
        npc0 = len(self.pc)
        out_exits = []
        breaks = []
        for it in items:
            guard = None
            if isinstance(it, Guarded):
                guard, it = it.cond, it.val
            mark = len(self.trail)
            npc = len(self.pc)

            def run(it=it, mark=mark):
                fr.loops.append((mark0, mark))
                try:
                    bind(it)
                    return body()
                finally:
                    fr.loops.pop()
            if guard is not None:
                falls, exits = self.branch(guard, fr, run, lambda: (True, []))
            else:
                falls, exits = run()
            conts = [e for e in exits if e.kind == 'continue']
            breaks += [e for e in exits if e.kind == 'break']
            out_exits += [e for e in exits if e.kind not in ('continue', 'break')]
            outs = []
            for e in conts:
                outs.append((land(*e.pc[npc:]), e.delta))
            if falls:
                outs.append((self.rel(npc), self.delta_since(mark)))
            del self.pc[npc:]
            if not outs:
                self.rollback(mark)
                falls_any = False
                break
            if conts:
                tot = lor(*[c for c, _ in outs])
                self.merge_outcomes(mark, self.simp_sel(outs))
                if tot is not TRUE and any(e.kind in ('break', 'return', 'raise') for e in exits):
                    self.pc.append(tot)
            elif any(e.kind in ('break', 'return', 'raise') for e in exits):
                c = outs[0][0]
                if c is not TRUE:
                    self.pc.append(c)
            falls_any = True
        else:
            falls_any = True
        self._last_break = bool(breaks)
        if breaks:
            outs = [(land(*e.pc[npc0:]), e.delta) for e in breaks]
            if falls_any and outs[-1][0] is not TRUE:
                self._last_break = None
            if falls_any:
                outs.append((self.rel(npc0), self.delta_since(mark0)))
            del self.pc[npc0:]
            tot = lor(*[c for c, _ in outs])
            self.merge_outcomes(mark0, self.simp_sel(outs))
            if tot is not TRUE:
                self.pc.append(tot)
            falls_any = True
        return falls_any, out_exits

    @staticmethod
    def simp_sel(outs):
        """drop from each selector the literals known from earlier ones failing."""
        known = set()
        res = []
        for c, d in outs:
            parts = list(c.a) if c.k == 'and' else [c]
            parts = [p for p in parts if p not in known]
            c2 = land(*parts)
            res.append((c2, d))
            n = lnot(c2)
            known |= set(n.a) if n.k == 'and' else {n}
        return res

    def st_For(self, st, fr):
        v = self.ev(st.iter, fr)
        if isinstance(v, Phi):
            return self.branch(v.c, fr, lambda: self._for(st, v.a, fr), lambda: self._for(st, v.b, fr))
        return self._for(st, v, fr)

    def _for(self, st, v, fr):
        items = self.iterate(v)
        if len(items) > 3000:
            raise Unsupported('loop too long')
        falls, exits = self.loop(items, lambda x: self.assign(st.target, x, fr),
                                 lambda: self.exec_block(st.body, fr), fr)
        if falls and st.orelse:
            f2, e2 = self.exec_block(st.orelse, fr)
            return f2, exits + e2
        return falls, exits

    def st_While(self, st, fr):
        exits_all = []
        n = 0
        while True:
            c = self.truth(self.ev(st.test, fr))
            if isinstance(c, T):
                raise Unsupported('while with symbolic condition at %s' % (self.loc(),))
            if not c:
                break
            n += 1
            if n > 3000:
                raise Unsupported('while bound')
            falls, exits = self.loop([None], lambda x: None,
                                     lambda: self.exec_block(st.body, fr), fr)
            br = False
            # a concrete break ends the loop: detect by rerunning bookkeeping
            if self._last_break is None:
                raise Unsupported('while left under a symbolic condition at %s' % (self.loc(),))
            if self._last_break:
                br = True
            exits_all += exits
            if not falls:
                return False, exits_all
            if br:
                break
        return True, exits_all

    _last_break = False

    def st_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            self.events.append(('with', v, self.loc(), land(*self.pc)))
            if it.optional_vars is not None:
                if isinstance(v, Obj):
                    f, _ = self.class_lookup(v.cls, '__enter__')
                    if f is not None:
                        v = self.call(self.getattr(v, '__enter__'), [], {})
                self.assign(it.optional_vars, v, fr)
        return self.exec_block(st.body, fr)

    def st_Try(self, st, fr):
        mark = len(self.trail)
        npc = len(self.pc)
        nr = len(self.raises)
        falls, exits = self.exec_block(st.body, fr)
        raised = [e for e in exits if e.kind == 'raise']
        others = [e for e in exits if e.kind != 'raise']
        if falls and st.orelse:
            f2, e2 = self.exec_block(st.orelse, fr)
            falls = f2
            others += e2
        if st.handlers:
            self.notes.append(('try/except', self.loc()))
        outs = []
        if falls:
            outs.append((self.rel(npc), self.delta_since(mark)))
        for e in raised:
            h = self.match_handler(st.handlers, e.value, fr)
            if h is None:
                others.append(e)
                continue
            self.raises[nr:] = [r for r in self.raises[nr:] if r[2] != e.loc]   # caught
            self.rollback(mark)
            del self.pc[npc:]
            for ck, (dd, key, v) in e.delta.items():
                if dd.get(key, UNDEF) is not v:
                    self.write(dd, key, v)
            self.pc.extend(e.pc[npc:])
            if h.name:
                self.write(fr.env, h.name, Token('exc:' + str(e.value)))
            hf, hx = self.exec_block(h.body, fr)
            others += hx
            if hf:
                outs.append((self.rel(npc), self.delta_since(mark)))
        if raised and any(self.match_handler(st.handlers, e.value, fr) for e in raised):
            del self.pc[npc:]
            if outs:
                tot = lor(*[c for c, _ in outs])
                self.merge_outcomes(mark, self.simp_sel(outs))
                if tot is not TRUE:
                    self.pc.append(tot)
                falls = True
            else:
                self.rollback(mark)
                falls = False
        if st.finalbody:
            if falls:
                f3, e3 = self.exec_block(st.finalbody, fr)
                return f3, others + e3
        return falls, others

    EXC_PARENTS = {'KeyError': 'LookupError', 'IndexError': 'LookupError',
                   'NotImplementedError': 'RuntimeError', 'PVFactorsError': 'Exception',
                   'ZeroDivisionError': 'ArithmeticError'}

    def match_handler(self, handlers, exc, fr):
        exc = str(exc).split('.')[-1]
        anc = {exc, 'Exception', 'BaseException'}
        p = self.EXC_PARENTS.get(exc)
        if p:
            anc.add(p)
        for h in handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                n = x.name.split('.')[-1] if isinstance(x, (Ext, ClassVal)) else ''
                if n in anc:
                    return h
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(e).__name__, self.loc()))
        return m(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str)) or v is Ellipsis:
            return v
        if isinstance(v, float):
            return num(v)
        if isinstance(v, bytes):
            return v
        raise Unsupported('constant %r' % (v,))

    def ex_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name not in f.globals_ and name in f.env and f.env[name] is not UNDEF \
                    and (first or not getattr(f, 'classbody', False)):
                return f.env[name]
            f = f.closure
            first = False
        if name in fr.mod.env and fr.mod.env[name] is not UNDEF:
            return fr.mod.env[name]
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        if name in BUILTINS:
            return Ext(name)
        if name.startswith('__'):
            return Token(name)
        raise AbsRaise('NameError:' + name, self.loc())

    def ex_Tuple(self, e, fr):
        return tuple(self.ev_seq(e.elts, fr))

    def ex_List(self, e, fr):
        return PyList(self.ev_seq(e.elts, fr))

    def ex_Set(self, e, fr):
        return PySet(self.ev_seq(e.elts, fr))

    def ev_seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, e, fr):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.dict_items(self.ev(v, fr)):
                    d.d[kk] = vv
            else:
                kk = self.hkey(self.ev(k, fr))
                d.d[kk] = self.ev(v, fr)
        return d

    def hkey(self, k):
        if isinstance(k, T) and k.k == 'num' and k.a[0].denominator == 1:
            return int(k.a[0])
        return k

    def ex_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, (str, int)):
                    parts.append(str(x))
                else:
                    return Token('fstring')
        return ''.join(parts)

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ex_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')

    def ex_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        if c is True:
            return self.ev(e.body, fr)
        if c is False:
            return self.ev(e.orelse, fr)
        return self.vbranch(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def vbranch(self, c, fa, fb):
        """value of two alternatives, effects merged."""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        mark = len(self.trail)
        npc = len(self.pc)
        vals = []
        for cond, f in ((c, fa), (lnot(c), fb)):
            self.pc.append(cond)
            try:
                v = f()
            except AbsRaise:
                v = UNDEF
            vals.append((v, self.delta_since(mark)))
            self.rollback(mark)
            del self.pc[npc:]
        (va, da), (vb, db) = vals
        self.merge_outcomes(mark, [(c, da), (lnot(c), db)])
        if va is UNDEF and vb is UNDEF:
            raise AbsRaise('both', self.loc())
        return self.vite(c, va, vb)

    def ex_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        acc = None
        n = len(self.pc)
        try:
            for i, x in enumerate(e.values):
                v = self.ev(x, fr)
                last = i == len(e.values) - 1
                t = self.truth(v, soft=True)
                if t is True or t is False:
                    if t is (not is_and):     # short circuits
                        if acc is None:
                            return v
                        return self.bool_acc(acc, t, is_and)
                    if last:
                        if acc is None:
                            return v
                        return self.bool_acc(acc, v if not isinstance(v, bool) else t, is_and)
                    continue
                # symbolic
                if not last and not self._boolish(v):
                    # value-returning or/and on a non boolean symbolic operand
                    rest = ast.BoolOp(op=e.op, values=e.values[i + 1:]) if len(e.values) - i > 2 \
                        else e.values[i + 1]
                    a, b = ((lambda: self.ev(rest, fr)), (lambda v=v: v))
                    if not is_and:
                        a, b = b, a
                    r = self.vbranch(t, a, b)
                    return r if acc is None else self.bool_acc(acc, self.truth(r), is_and)
                acc = t if acc is None else (land if is_and else lor)(acc, t)
                self.pc.append(t if is_and else lnot(t))
            return acc
        finally:
            del self.pc[n:]

    def _boolish(self, v):
        return isinstance(v, T) and is_bool(v) or isinstance(v, bool)

    def bool_acc(self, acc, v, is_and):
        t = self.truth(v)
        return (land if is_and else lor)(acc, lift(t))

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else lnot(t)
        return self.unop(e.op, v)

    @staticmethod
    def scal0(r):
        """arithmetic with arrays without dimension gives numbers"""
        if isinstance(r, NDArr) and not r.axes and r.store.dt is None:
            return r.elems[0]
        return r

    def unop(self, op, v):
        if isinstance(op, ast.USub):
            if isinstance(v, int):
                return -v
            return self.scal0(self.np.typed(self.np.ew(tm.neg, v), v))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, bool):
                return not v
            if isinstance(v, int):
                return ~v
            return self.np.ew(lnot, v)
        raise Unsupported('unop')

    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        r = self.binop_(op, a, b)
        if isinstance(r, NDArr) and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            self.np.typed(r, a, b)
        return r

    def binop_(self, op, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            p = a if isinstance(a, Phi) else b
            if p is a:
                return self.vbranch(p.c, lambda: self.binop(op, p.a, b), lambda: self.binop(op, p.b, b))
            return self.vbranch(p.c, lambda: self.binop(op, a, p.a), lambda: self.binop(op, a, p.b))
        o = type(op).__name__
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            if o == 'Add':
                return a + b
            if o == 'Sub':
                return a - b
            if o == 'Mult':
                return a * b
            if o == 'FloorDiv' and b:
                return a // b
            if o == 'Mod' and b:
                return a % b
            if o == 'Pow' and b >= 0:
                return a ** b
            if o == 'BitAnd':
                return a & b
            if o == 'BitOr':
                return a | b
            if o == 'BitXor':
                return a ^ b
            if o == 'Div':
                if b == 0:
                    raise AbsRaise('ZeroDivisionError', self.loc())
                return num(Fraction(int(a), int(b)))
        if isinstance(a, str):
            if o == 'Add' and isinstance(b, str):
                return a + b
            if o == 'Mod':
                bs = b if isinstance(b, tuple) else (b,)
                if all(isinstance(x, (str, int)) for x in bs):
                    try:
                        return a % b
                    except (TypeError, ValueError):
                        pass
                return Token('fmt')
            if o == 'Add' and isinstance(b, (Token, Opaque)):
                return Token('fmt')
            if o == 'Mult' and isinstance(b, int):
                return a * b
        if isinstance(b, str) and o == 'Add' and isinstance(a, Token) and a.name == 'fmt':
            return a
        if isinstance(a, PyList) and o == 'Add' and isinstance(b, PyList):
            return PyList(a.items + b.items)
        if isinstance(a, PyList) and o == 'Mult' and isinstance(b, int):
            return PyList(a.items * b)
        if isinstance(b, PyList) and o == 'Mult' and isinstance(a, int):
            return PyList(b.items * a)
        if isinstance(a, PyList) and o == 'Mult' and isinstance(b, T):
            # list repeated a symbolic number of times: constant vector
            if len(a.items) == 1 and isinstance(a.items[0], (int, T)):
                return NDArr((self.np.dim_of(b),), [lift(a.items[0])])
        if isinstance(a, tuple) and isinstance(b, tuple) and o == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and o == 'Mult':
            return a * b
        if isinstance(a, PyDict) and isinstance(b, PyDict) and o == 'BitOr':
            return PyDict([(k, a.d[k]) for k in a.keys()] + [(k, b.d[k]) for k in b.keys()])
        if isinstance(a, PySet) and isinstance(b, PySet):
            if o == 'BitOr':
                return PySet(tuple(dict.fromkeys(a.items + b.items)))
            if o == 'Sub':
                return PySet(tuple(x for x in a.items if x not in b.items))
            if o == 'BitAnd':
                return PySet(tuple(x for x in a.items if x in b.items))
        if isinstance(a, Token) and not a.scalar and not isinstance(b, (NDArr,)):
            return Token('%s%s%s' % (a.name, o, getattr(b, 'name', b)), scalar=a.scalar)
        fns = {'Add': tm.add, 'Sub': tm.sub, 'Mult': tm.mul, 'Div': tm.div, 'Pow': tm.power,
               'Mod': lambda x, y: app('mod', x, y),
               'FloorDiv': lambda x, y: app('floor', tm.div(x, y))}
        if o in fns:
            return self.scal0(self.np.ew(fns[o], a, b))
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': land, 'BitOr': lor,
                 'BitXor': lambda x, y: lnot(tm.beq(tm.tobool(x), tm.tobool(y)))}[o]
            return self.np.ew(f, a, b)
        if o == 'MatMult':
            return self.np.matmul(a, b)
        return self.opaque('binop %s' % o)

    def ex_Compare(self, e, fr):
        res = self.compares(e, fr)
        if isinstance(res, NDArr) and res.store.dt is None:
            res.store.dt = 'b'
        return res

    def compares(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(op, left, right)
            if res is None:
                res = v
            else:
                a, b = self.truth(res), self.truth(v)
                if a is False or b is False:
                    res = False
                elif a is True:
                    res = b
                elif b is True:
                    res = a
                else:
                    res = land(a, b)
            left = right
        return res

    def same(self, a, b):
        """host identity / equality for non numeric values; None if unknown."""
        if a is b:
            return True
        if a is None or b is None:
            if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
                return None
            return False
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            if isinstance(a, (str, bool)) and isinstance(b, (str, bool)):
                return a == b
            if isinstance(a, (Token, Opaque, T)) or isinstance(b, (Token, Opaque, T)):
                return None
            return False
        return None

    def compare(self, op, a, b):
        o = type(op).__name__
        if isinstance(a, Phi):
            return self.vbranch(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Phi):
            return self.vbranch(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if o in ('Is', 'IsNot'):
            r = self.same(a, b)
            if r is None:
                if isinstance(a, int) and isinstance(b, int):
                    r = a == b
                elif isinstance(a, Opaque) or isinstance(b, Opaque):
                    r = mk('bapp', '?is', num(len(self.notes)))
                    return r if o == 'Is' else lnot(r)
                else:
                    r = False
            return r if o == 'Is' else not r
        if o in ('In', 'NotIn'):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if o == 'In' else not r
            return r if o == 'In' else lnot(r)
        if isinstance(a, int) and isinstance(b, int):
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b,
                    'GtE': a >= b}[o]
        if isinstance(a, str) and isinstance(b, str):
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b,
                    'GtE': a >= b}[o]
        if o in ('Eq', 'NotEq') and isinstance(a, PyList) and isinstance(b, PyList):
            a, b = a.items, b.items
            if any(isinstance(x, Guarded) for x in list(a) + list(b)):
                return mk('bapp', '?cmp', num(len(self.notes)))
            a, b = tuple(a), tuple(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and o in ('Eq', 'NotEq'):
            if len(a) != len(b):
                return o == 'NotEq'
            rs = [self.truth(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b)]
            r = land(*[lift(x) for x in rs]) if rs else TRUE
            r = True if r is TRUE else False if r is FALSE else r
            return r if o == 'Eq' else (not r if isinstance(r, bool) else lnot(r))
        numeric = (T, int, NDArr, Opaque, Fraction)
        if isinstance(a, Token) and a.scalar:
            a = sym(a.name)
        if isinstance(b, Token) and b.scalar:
            b = sym(b.name)
        if isinstance(a, numeric) and isinstance(b, numeric):
            s = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[o]
            r = self.np.ew(lambda x, y: tm.cmp(s, x, y), a, b)
            return self.hostb(r)
        if o in ('Eq', 'NotEq'):
            r = self.same(a, b)
            if r is None:
                if isinstance(a, Token) or isinstance(b, Token):
                    r = mk('bapp', 'eq', sym(str(getattr(a, 'name', a))), sym(str(getattr(b, 'name', b))))
                    return r if o == 'Eq' else lnot(r)
                r = False
            return r if o == 'Eq' else not r
        return mk('bapp', '?cmp', num(len(self.notes)))

    def hostb(self, r):
        if r is TRUE:
            return True
        if r is FALSE:
            return False
        return r

    def contains(self, cont, x):
        if isinstance(cont, (PyDict, DF)):
            return self.hkey(x) in cont.keys()
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, (PyList, tuple)):
            acc = FALSE
            for y in self.iterate(cont):
                if isinstance(y, Guarded):
                    r = self.truth(self.compare(ast.Eq(), x, y.val))
                    acc = lor(acc, land(y.cond, lift(r)))
                    continue
                r = self.truth(self.compare(ast.Eq(), x, y))
                if r is True:
                    return True
                if r is not False:
                    acc = lor(acc, r)
            return self.hostb(acc)
        return mk('bapp', '?in', num(len(self.notes)))

    def ex_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ex_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_slice(e.slice, fr))

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def ex_Slice(self, e, fr):
        return self.ev_slice(e, fr)

    def ex_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def ex_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        self.write(fr.yields.d, 'items', fr.yields.items + (v,))
        return None

    def ex_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        self.write(fr.yields.d, 'items', fr.yields.items + tuple(self.iterate(v)))
        return None

    def comp(self, e, fr, emit):
        f2 = Frame(fr.mod, {}, fr, fr.func or True, fr.qual)
        f2.mark = fr.mark
        f2.yields = fr.yields

        def go(i):
            if i == len(e.generators):
                emit(f2)
                return True, []
            g = e.generators[i]
            items = self.iterate(self.ev(g.iter, f2 if i else fr))

            def body():
                c = TRUE
                n = len(self.pc)
                for cond in g.ifs:
                    t = self.truth(self.ev(cond, f2))
                    if t is False:
                        del self.pc[n:]
                        return True, []
                    if t is not True:
                        c = land(c, t)
                        self.pc.append(t)
                del self.pc[n:]
                if c is TRUE:
                    return go(i + 1)
                return self.branch(c, f2, lambda: go(i + 1), lambda: (True, []))
            self.loop(items, lambda x: self.assign(g.target, x, f2), body, f2)
            return True, []
        go(0)

    def ex_ListComp(self, e, fr):
        r = PyList()

        def emit(f2):
            v = self.ev(e.elt, f2)
            self.write(r.d, 'items', r.items + (v,))
        self.comp(e, fr, emit)
        return r

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, e, fr):
        return PySet(self.ex_ListComp(e, fr).items)

    def ex_DictComp(self, e, fr):
        r = PyDict()

        def emit(f2):
            k = self.hkey(self.ev(e.key, f2))
            self.write(r.d, k, self.ev(e.value, f2))
        self.comp(e, fr, emit)
        return r

    def ex_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, fr))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.ev(k.value, fr)):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        if isinstance(f, Ext) and f.name == 'super':
            return self.mk_super(args, fr)
        self.setloc(e, fr)
        if isinstance(f, Ext) and f.name in ('locals', 'vars') and not args:
            return PyDict(fr.env.items())
        return self.call(f, args, kwargs)

    def mk_super(self, args, fr):
        if args:
            return SuperVal(args[0], args[1])
        f = fr
        while f is not None and not isinstance(f.func, FuncVal):
            f = f.closure
        cls = f.func.defcls
        first = f.func.node.args.args[0].arg
        return SuperVal(cls, f.env[first])

    # ------------------------------------------------------------------ truth
    def truth(self, v, soft=False):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, T):
            t = tm.tobool(v)
            d = self.decide(t)
            return t if d is None else d
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, (PyList, tuple)):
            items = v.items if isinstance(v, PyList) else v
            if any(not isinstance(x, Guarded) for x in items):
                return True
            if not items:
                return False
            return self.truth(lor(*[x.cond for x in items]))
        if isinstance(v, PyDict):
            return len(v.keys()) > 0
        if isinstance(v, NDArr):
            els = v.elems
            if len(els) == 1 and all(isinstance(a, int) for a in v.axes):
                return self.truth(els[0])
            # ambiguous truth value of an array: treat as a collapse over the axis
            return self.truth(mk('bapp', '?arraytruth', *els[:1]))
        if isinstance(v, Phi):
            a, b = self.truth(v.a), self.truth(v.b)
            return self.truth(ite(v.c, lift(a), lift(b)))
        if isinstance(v, Opaque):
            return mk('bapp', '?truth', v.term)
        if isinstance(v, Token):
            if v.scalar:
                return tm.tobool(sym(v.name))
            return True
        if isinstance(v, Obj):
            f, _ = self.class_lookup(v.cls, '__bool__')
            if f is not None:
                return self.truth(self.call(Bound(v, f), [], {}))
            f, _ = self.class_lookup(v.cls, '__len__')
            if f is not None:
                return self.truth(self.call(Bound(v, f), [], {}))
            if v.cls.ext_bases():
                return self.truth(self.np.geom_attr(v, '__bool__'))
            return True
        return True

    # --------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, PyList):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyDict):
            return v.keys()
        if isinstance(v, DF):
            return v.keys()
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, NDArr):
            if not v.axes:
                raise AbsRaise('TypeError', self.loc())
            if isinstance(v.axes[0], int):
                return [self.getitem(v, i) for i in range(v.axes[0])]
            raise Unsupported('iteration over the symbolic axis %s at %s' % (v.axes[0].name, self.loc()))
        if isinstance(v, Phi):
            a, b = self.iterate(v.a), self.iterate(v.b)
            return list(self.merge_items(v.c, tuple(a), tuple(b)))
        if isinstance(v, Obj):
            f, _ = self.class_lookup(v.cls, '__iter__')
            if f is None and v.d.get('__geoms__') is not None:
                return self.iterate(v.d['__geoms__'])
            if f is not None:
                return self.iterate(self.call(Bound(v, f), [], {}))
            if v.cls.dataclass and '__fields__' in v.d:
                return [v.d[k] for k in v.d['__fields__']]
        if isinstance(v, Token):
            raise Unsupported('iteration over %s at %s' % (v.name, self.loc()))
        if isinstance(v, Opaque):
            raise Unsupported('iteration over opaque %s at %s' % (v.reason, self.loc()))
        if v is None:
            raise AbsRaise('TypeError', self.loc())
        raise Unsupported('iterate %r at %s' % (v, self.loc()))

    def dict_items(self, v):
        if isinstance(v, (PyDict, DF)):
            return [(k, v.d[k]) for k in v.keys()]
        if isinstance(v, PyList):
            return [tuple(self.iterate(x)) for x in v.items]
        if isinstance(v, Token):
            return [('**' + v.name, v)]
        if isinstance(v, Phi):
            raise Unsupported('items of Phi')
        raise Unsupported('items of %r' % (v,))

    # -------------------------------------------------------------- attributes
    def class_lookup(self, cls, name):
        for c in cls.mro():
            if name in c.d and c.d[name] is not UNDEF:
                return c.d[name], c
        return None, None

    def getattr(self, o, name, default=UNDEF):
        if isinstance(o, Obj):
            cv, owner = self.class_lookup(o.cls, name)
            if isinstance(cv, PropVal):
                if cv.cached:
                    if o.d.get(name, UNDEF) is not UNDEF:
                        return o.d[name]
                    v = self.call(Bound(o, cv.fget), [], {})
                    self.hwrite(o, name, v)
                    return v
                return self.call(Bound(o, cv.fget), [], {})
            if o.d.get(name, UNDEF) is not UNDEF:
                return o.d[name]
            if cv is not None:
                if isinstance(cv, FuncVal):
                    return Bound(o, cv)
                if isinstance(cv, StaticVal):
                    return cv.f
                if isinstance(cv, ClsMethVal):
                    return Bound(o.cls, cv.f)
                return cv
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return PyDict(o.d.items())
            f, _ = self.class_lookup(o.cls, '__getattr__')
            if f is not None:
                return self.call(Bound(o, f), [name], {})
            if o.cls.ext_bases():
                return self.np.geom_attr(o, name)
            if default is not UNDEF:
                return default
            raise AbsRaise('AttributeError:%s.%s' % (o.cls.name, name), self.loc())
        if isinstance(o, ClassVal):
            cv, owner = self.class_lookup(o, name)
            if cv is None:
                if name == '__name__':
                    return o.name
                if o.ext_bases():
                    return self.opaque('class attr ' + name)
                if default is not UNDEF:
                    return default
                raise AbsRaise('AttributeError:%s.%s' % (o.name, name), self.loc())
            if isinstance(cv, StaticVal):
                return cv.f
            if isinstance(cv, ClsMethVal):
                return Bound(o, cv.f)
            return cv
        if isinstance(o, ModVal):
            if name in o.env:
                return o.env[name]
            try:
                return self.module(o.name + '.' + name)
            except Unsupported:
                if default is not UNDEF:
                    return default
                raise AbsRaise('AttributeError:%s.%s' % (o.name, name), self.loc())
        if isinstance(o, SuperVal):
            obj = o.obj
            cls = obj.cls if isinstance(obj, Obj) else obj
            mro = cls.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.d:
                    cv = c.d[name]
                    if isinstance(cv, PropVal):
                        return self.call(Bound(obj, cv.fget), [], {})
                    if isinstance(cv, StaticVal):
                        return cv.f
                    if isinstance(cv, ClsMethVal):
                        return Bound(cls, cv.f)
                    return Bound(obj, cv) if isinstance(cv, FuncVal) else cv
            return BoundExt(o, name)
        if isinstance(o, Phi):
            return self.vbranch(o.c, lambda: self.getattr(o.a, name, default),
                                lambda: self.getattr(o.b, name, default))
        if isinstance(o, Ext):
            return self.np.ext_attr(o, name)
        if isinstance(o, Token):
            if name in o.attrs:
                return o.attrs[name]
            if name in o.absent:
                if default is not UNDEF:
                    return default
                raise AbsRaise('AttributeError', self.loc())
            return Token(o.name + '.' + name, scalar=False)
        if isinstance(o, Opaque):
            return self.opaque(o.reason + '.' + name)
        if isinstance(o, (FuncVal,)):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.node.name
            if default is not UNDEF:
                return default
            raise AbsRaise('AttributeError:func.' + name, self.loc())
        if isinstance(o, PropVal):
            return o
        return self.np.val_attr(o, name, default)

    def hasattr(self, o, name):
        if isinstance(o, Phi):
            return self.vbranch(o.c, lambda: self.hasattr(o.a, name), lambda: self.hasattr(o.b, name))
        if isinstance(o, Token):
            return name in o.attrs
        if isinstance(o, Obj):
            if o.d.get(name, UNDEF) is not UNDEF or self.class_lookup(o.cls, name)[0] is not None:
                return True
            if o.cls.ext_bases():
                k = self.np.kind(o)
                if name in ('geoms', '__iter__') and k != 'Geometry':
                    return k in planar.MULTI
                if name in ('length', 'is_empty', 'boundary', 'bounds', 'distance', 'buffer'):
                    return True
                return mk('bapp', '?hasattr', sym(name))
            return False
        if o is None or isinstance(o, str):
            return hasattr(o, name)
        if isinstance(o, (int, T)):
            return False
        if isinstance(o, (FuncVal, Bound)):
            return name in ('__call__', '__name__')
        if isinstance(o, (PyList, tuple, NDArr, PyDict)) and name == '__iter__':
            return True
        host = {PyList: list, tuple: tuple, PyDict: dict, PySet: set}.get(type(o))
        if host is not None:
            return hasattr(host, name)
        if isinstance(o, ModVal):
            return name in o.env
        if isinstance(o, Opaque):
            return mk('bapp', '?hasattr', o.term)
        try:
            self.getattr(o, name)
            return True
        except AbsRaise:
            return False

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            cv, _ = self.class_lookup(o.cls, name)
            if isinstance(cv, PropVal) and not cv.cached:
                if cv.fset is None:
                    raise AbsRaise('AttributeError', self.loc())
                self.call(Bound(o, cv.fset), [v], {})
                return
            self.hwrite(o, name, v)
            if name == '_geom' and isinstance(v, Token) and 'geoms' in v.attrs:
                self.write(o.d, '__geoms__', self.np.snapshot(v.attrs['geoms']))
            return
        if isinstance(o, Phi):
            def f(x):
                def run():
                    self.setattr(x, name, v)
                    return True, []
                return run
            self.branch(o.c, None, f(o.a), f(o.b))
            return
        if isinstance(o, ClassVal):
            self.mutations.append(('class:' + o.qual, self.loc(), name, land(*self.pc)))
            self.write(o.d, name, v)
            return
        if isinstance(o, ModVal):
            self.mutations.append(('module:' + o.name, self.loc(), name, land(*self.pc)))
            self.write(o.env, name, v)
            return
        if isinstance(o, Token):
            self.events.append(('setattr', o.name, name, v, self.loc(), land(*self.pc)))
            d = dict(o.attrs)
            self.write(o.attrs, name, v)
            return
        if isinstance(o, FuncVal):
            self.mutations.append(('function:' + o.qual, self.loc(), name, land(*self.pc)))
            self.write(o.attrs, name, v)
            return
        if isinstance(o, DF):
            self.np.df_set(o, name, v)
            return
        self.note('setattr on %r ignored' % (o,))
        self.events.append(('setattr', o, name, v, self.loc(), land(*self.pc)))

    # -------------------------------------------------------------- subscripts
    def getitem(self, o, k):
        if isinstance(o, Phi):
            return self.vbranch(o.c, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        if isinstance(k, Phi):
            return self.vbranch(k.c, lambda: self.getitem(o, k.a), lambda: self.getitem(o, k.b))
        if isinstance(o, PyDict):
            kk = self.hkey(k)
            try:
                v = o.d.get(kk, UNDEF)
            except TypeError:
                return self.opaque('dict key')
            if v is UNDEF:
                raise AbsRaise('KeyError:%s' % (kk,), self.loc())
            return v
        if isinstance(o, (PyList, tuple)):
            items = o.items if isinstance(o, PyList) else o
            if isinstance(k, T) and k.k == 'num' and k.a[0].denominator == 1:
                k = int(k.a[0])
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if any(isinstance(x, Guarded) for x in items):
                    if isinstance(o, PyList) and k >= 0 and not any(
                            isinstance(x, Guarded) for x in items[:k + 1]):
                        return items[k]
                    return self.guarded_get(items, k)
                if not -len(items) <= k < len(items):
                    raise AbsRaise('IndexError', self.loc())
                if k < 0:
                    self.events.append(('negindex', o, k, self.loc(), land(*self.pc)))
                return items[k]
            if isinstance(k, slice):
                if any(isinstance(x, Guarded) for x in items):
                    return self.opaque('slice of guarded list')
                ks = [int(x.a[0]) if isinstance(x, T) and x.k == 'num' else x
                      for x in (k.start, k.stop, k.step)]
                if all(x is None or isinstance(x, int) for x in ks):
                    r = items[slice(*ks)]
                    return PyList(r) if isinstance(o, PyList) else tuple(r)
            if isinstance(k, T) and tm.is_bool(k) and len(items) == 2:
                return self.vite(k, items[1], items[0])
            if isinstance(k, T) and items and not any(isinstance(x, Guarded) for x in items):
                v = items[-1]
                for i in reversed(range(len(items) - 1)):
                    v = self.vite(tm.cmp('==', k, num(i)), items[i], v)
                return v
            return self.opaque('list index')
        if isinstance(o, str) and isinstance(k, (int, slice)):
            return o[k]
        if isinstance(o, NDArr):
            return self.np.getitem(o, k)
        if isinstance(o, DF):
            return self.np.df_get(o, k)
        if isinstance(o, Loc):
            return self.np.loc_get(o, k)
        if isinstance(o, Token):
            return Token('%s[%s]' % (o.name, k if isinstance(k, (str, int)) else '?'), scalar=o.scalar)
        if isinstance(o, Opaque):
            return self.opaque(o.reason + '[]')
        if isinstance(o, Obj):
            f, _ = self.class_lookup(o.cls, '__getitem__')
            if f is not None:
                return self.call(Bound(o, f), [k], {})
            if o.cls.dataclass and '__fields__' in o.d and isinstance(k, int):
                return o.d[o.d['__fields__'][k]]
            if o.cls.ext_bases():
                return self.opaque('geom item')
        if isinstance(o, (Ext, ClassVal)):
            return o            # typing subscripts
        if o is None or isinstance(o, (int, T)):
            raise AbsRaise('TypeError', self.loc())
        return self.opaque('getitem %r' % type(o).__name__)

    def guarded_get(self, items, k):
        """k-th present entry of a guarded list (k = 0 or -1)."""
        if k not in (0, -1):
            return self.opaque('index of guarded list')
        seq = items if k == 0 else items[::-1]
        v = UNDEF
        for x in reversed(seq):
            if isinstance(x, Guarded):
                v = self.vite(x.cond, x.val, v)
            else:
                v = x
        return v

    def setitem(self, o, k, v):
        if isinstance(o, PyDict):
            self.hwrite(o, self.hkey(k), v)
            return
        if isinstance(o, PyList):
            items = list(o.items)
            if isinstance(k, int) and -len(items) <= k < len(items):
                items[k] = v
                self.hwrite(o, 'items', tuple(items))
                return
            if isinstance(k, slice):
                ks = (k.start, k.stop, k.step)
                if all(x is None or isinstance(x, int) for x in ks):
                    items[k] = self.iterate(v)
                    self.hwrite(o, 'items', tuple(items))
                    return
            if isinstance(k, int):
                raise AbsRaise('IndexError', self.loc())
            self.note('list store with symbolic index')
            self.hwrite(o, 'items', tuple(self.opaque('list store') for _ in items))
            return
        if isinstance(o, NDArr):
            self.np.setitem(o, k, v)
            return
        if isinstance(o, DF):
            self.np.df_set(o, k, v)
            return
        if isinstance(o, Loc):
            self.np.loc_set(o, k, v)
            return
        if isinstance(o, Phi):
            def f(x):
                def run():
                    self.setitem(x, k, v)
                    return True, []
                return run
            self.branch(o.c, None, f(o.a), f(o.b))
            return
        if isinstance(o, Obj):
            f, _ = self.class_lookup(o.cls, '__setitem__')
            if f is not None:
                self.call(Bound(o, f), [k, v], {})
                return
        if isinstance(o, (T, int, Fraction, tuple, str)):
            raise AbsRaise('TypeError', self.loc())
        self.events.append(('setitem', o, k, v, self.loc(), land(*self.pc)))
        self.note('setitem on %s' % type(o).__name__)

    # ------------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        self.calls += 1
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, StaticVal):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Phi):
            return self.vbranch(f.c, lambda: self.call(f.a, args, kwargs),
                                lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Ext):
            return self.np.call_ext(f.name, args, kwargs)
        if isinstance(f, BoundExt):
            return self.np.call_method(f.obj, f.name, args, kwargs)
        if isinstance(f, Token):
            if not f.callable:
                raise AbsRaise('TypeError', self.loc())
            if f.pointwise:
                self.events.append(('call', f.name, list(args), dict(kwargs), self.loc(), land(*self.pc)))
                if len(args) == 1 and not kwargs:
                    return self.np.ew(lambda x: app(f.name, x), args[0])
                return self.np.ew(lambda *xs: app(f.name, *xs), *args)
            if 'call' in f.attrs:
                self.events.append(('call', f.name, list(args), dict(kwargs), self.loc(), land(*self.pc)))
                return f.attrs['call'](self, args, kwargs)
            r = Token('%s()#%d' % (f.name, len(self.events)))
            self.events.append(('call', f.name, list(args), dict(kwargs), self.loc(), land(*self.pc), r))
            return r
        if isinstance(f, Obj):
            g, _ = self.class_lookup(f.cls, '__call__')
            if g is not None:
                return self.call(Bound(f, g), args, kwargs)
        if isinstance(f, Opaque):
            return self.opaque(f.reason + '()')
        if callable(f):
            return f(self, args, kwargs)
        if f is None or isinstance(f, (int, str, tuple, PyList, PyDict, NDArr, T)):
            raise AbsRaise('TypeError', self.loc())
        raise Unsupported('call %r' % (f,))

    def instantiate(self, c, args, kwargs):
        o = Obj(c)
        init, _ = self.class_lookup(c, '__init__')
        st = self.stubs.get(c.qual)
        if st is not None:
            return st(self, args, kwargs)
        if init is not None:
            self.call(Bound(o, init), args, kwargs)
        elif c.dataclass:
            fields = []
            for k in reversed(c.mro()):
                for n in k.mod.tree.body if False else self.class_fields(k):
                    if n not in fields:
                        fields.append(n)
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for n in fields:
                if n not in vals:
                    dv, _ = self.class_lookup(c, n)
                    vals[n] = dv
                self.write(o.d, n, vals[n])
            o.d['__fields__'] = tuple(fields)
        elif c.ext_bases():
            self.np.geom_init(o, args, kwargs)
        return o

    def class_fields(self, k):
        return k.d.get('__annotations_order__', [])

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise AbsRaise('TypeError:too many args for %s' % f.qual, self.loc())
        kw = dict(kwargs)
        kwonly = [x.arg for x in a.kwonlyargs]
        for n in list(kw):
            if n in names or n in kwonly:
                if n in env:
                    raise AbsRaise('TypeError:dup arg %s' % n, self.loc())
                env[n] = kw.pop(n)
        if a.kwarg:
            env[a.kwarg.arg] = PyDict(kw.items())
        elif kw:
            if all(k.startswith('**') for k in kw):
                pass
            else:
                raise AbsRaise('TypeError:unexpected kwarg %s for %s' % (list(kw), f.qual), self.loc())
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:] if nd else [], f.defaults):
            env.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            env.setdefault(n, d)
        for n in names + kwonly:
            if n not in env:
                raise AbsRaise('TypeError:missing arg %s of %s' % (n, f.qual), self.loc())
        return env

    def call_func(self, f, args, kwargs):
        stub = self.stubs.get(f.qual)
        if stub is not None:
            r = stub(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if f.cached is not None:
            key = tuple(x if isinstance(x, (int, str, T, bool, type(None))) else id(x) for x in args) + \
                tuple(sorted((k, v if isinstance(v, (int, str, T)) else id(v)) for k, v in kwargs.items()))
            if key in f.cached:
                return f.cached[key]
        if self.depth > 60:
            raise Unsupported('recursion depth in %s' % f.qual)
        env = Env(self.bind(f, args, kwargs))
        node = f.node
        self.funcs[f.qual] = self.funcs.get(f.qual, 0) + 1
        fr = Frame(f.mod, env, f.closure, f, f.qual)
        fr.mark = len(self.trail)
        fr.pcmark = len(self.pc)
        saved_loc = tm.CUR_LOC[0]
        self.frames.append(fr)
        self.depth += 1
        npc = len(self.pc)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            isgen = getattr(node, '_isgen', None)
            if isgen is None:
                isgen = node._isgen = has_yield(node)
            if isgen:
                fr.yields = PyList()
            falls, exits = self.exec_block(node.body, fr)
            keep = has_nested(node)         # inner functions still read the local variables
            rets = [e for e in exits if e.kind == 'return']
            outs = [(land(*e.pc[npc:]), e.delta, e.value) for e in rets]
            if falls:
                outs.append((self.rel(npc), self.delta_since(fr.mark), None))
            del self.pc[npc:]
            if not outs:
                rz = [e for e in exits if e.kind == 'raise']
                self.rollback(fr.mark)
                raise AbsRaise(rz[0].value if rz else 'unreachable', rz[0].loc if rz else self.loc())
            if len(outs) == 1 and not falls and len(exits) == 1:
                val = outs[0][2]
                # state is current already (single straight exit)
                self.rollback(fr.mark)
                for ck, (dd, key, v) in outs[0][1].items():
                    if (keep or dd is not env) and dd.get(key, UNDEF) is not v:
                        self.write(dd, key, v)
            else:
                sel = self.simp_sel([(c, (d, v)) for c, d, v in outs])
                self.merge_outcomes(fr.mark, [(c, {k: x for k, x in d.items()
                                                   if keep or x[0] is not env})
                                              for c, (d, v) in sel])
                val = sel[-1][1][1]
                for c, (d, v) in reversed(sel[:-1]):
                    val = self.vite(c, v, val)
                tot = lor(*[c for c, _, _ in outs])
                if tot is not TRUE and any(e.kind == 'raise' for e in exits):
                    self.pc.append(tot)
            if isgen:
                val = fr.yields
            if f.cached is not None:
                f.cached[key] = val
            return val
        finally:
            self.frames.pop()
            self.depth -= 1
            tm.CUR_LOC[0] = saved_loc


def has_yield(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def has_nested(node):
    r = getattr(node, '_nested', None)
    if r is None:
        r = node._nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda))
                               for b in node.body for n in ast.walk(b))
    return r
