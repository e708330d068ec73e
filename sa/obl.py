"""Obligations, verdicts and evidence.

An obligation compares what the source computes (a term of the value graph extracted by
sa.interp) with what the property requires (a term written in the check).  Verdicts:

OK         the two terms have the same normal form, or agree on every cofactor of their
           atomic conditions;
VIOLATION  they differ on a cofactor AND a valuation of the free symbols separates them
           (the valuation only demotes: no separating valuation => no alarm);
UNDECIDED  anything else (unsupported construct, opaque value, budget).
"""
import json
import os
import pickle
import selectors
import sys
import time
import traceback
from . import terms as tm
from .terms import T, TRUE, FALSE, land, lift, Eq, Budget, separated, show, is_bool
from .values import *
from .world import World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorLost(Exception):
    pass


class Section(object):
    def __init__(self, ck, name):
        self.ck, self.name = ck, name

    def __enter__(self):
        self.ck.section = self.name
        self.n = len(self.ck.obl)
        return self

    def __exit__(self, et, ev, tb):
        ck = self.ck
        if et is None:
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, AnchorLost, MemoryError)):
            return False
        if issubclass(et, AbsRaise):
            ck.fact('no-exception', self.name, False,
                    'raises %s on valid input' % (ck.excname(ev.exc),), ev.loc)
            return True
        msg = '%s: %s' % (et.__name__, str(ev)[:300])
        last = traceback.extract_tb(tb)[-1]
        ck.undecided('analysis', self.name, '%s (%s:%s)' % (msg, os.path.basename(last.filename),
                                                            last.lineno))
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
        return True


class Check(object):
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = []           # dicts
        self.section = ''
        self.worlds = []
        self.t0 = time.time()
        self.limit = 20000 if tier == 'quick' else 200000
        self.tries = 160 if tier == 'quick' else 600
        self.keys = set()
        self.sought = 0
        self.found = 0
        # seconds after which what is left stays undecided
        self.patience = 600 if tier == 'quick' else 3000
        self.funcs, self.notes, self.nodes, self.terms = {}, [], 0, 0

    # ------------------------------------------------------------------ worlds
    def world(self, **kw):
        w = World(**kw)
        self.worlds.append(w)
        return w

    def drain(self):
        """facts about the analysis itself, merged over the worlds (and processes)"""
        for w in self.worlds:
            for f, n in w.I.funcs.items():
                self.funcs[f] = self.funcs.get(f, 0) + n
            for n in w.I.notes:
                n = str(n)
                if n not in self.notes:
                    self.notes.append(n)
            self.nodes += w.I.nodes_seen
        self.worlds = []

    def par(self, jobs):
        """run the jobs (name, function) in forked processes and merge what they decided"""
        if os.environ.get('SA_SERIAL') or len(jobs) == 1:
            for name, f in jobs:
                with Section(self, name):
                    f()
            return
        width = min(8, os.cpu_count() or 1)
        pend, live = list(enumerate(jobs)), {}
        res = {}
        sys.stdout.flush()
        sel = selectors.DefaultSelector()
        while pend or live:
            while pend and len(live) < width:
                k, (name, f) = pend.pop(0)
                r, wfd = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self._child(wfd, name, f)
                os.close(wfd)
                live[r] = (k, pid, [])
                sel.register(r, selectors.EVENT_READ)
            for key, _ in sel.select():
                r = key.fd
                b = os.read(r, 1 << 20)
                if b:
                    live[r][2].append(b)
                    continue
                sel.unregister(r)
                os.close(r)
                k, pid, buf = live.pop(r)
                os.waitpid(pid, 0)
                res[k] = b''.join(buf)
        for k, (name, f) in enumerate(jobs):
            try:
                obl, funcs, notes, nodes, terms, lost = pickle.loads(res[k])
            except Exception:
                self.undecided('analysis', name, 'the analysis process ended early')
                continue
            if lost:
                raise AnchorLost(lost)
            self.obl += obl
            for q, n in funcs.items():
                self.funcs[q] = self.funcs.get(q, 0) + n
            self.notes += [n for n in notes if n not in self.notes]
            self.nodes += nodes
            self.terms += terms

    def _child(self, wfd, name, f):
        lost = None
        try:
            self.obl, self.worlds, self.funcs, self.notes, self.nodes = [], [], {}, [], 0
            t0 = len(tm._INTERN)
            try:
                with Section(self, name):
                    f()
            except AnchorLost as e:
                lost = str(e)
            self.drain()
            data = pickle.dumps((self.obl, self.funcs, self.notes, self.nodes,
                                 len(tm._INTERN) - t0, lost))
            with os.fdopen(wfd, 'wb') as o:
                o.write(data)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)

    @staticmethod
    def excname(e):
        c = getattr(e, 'cls', None)
        if c is not None:
            return c.name
        return getattr(e, 'name', None) or str(e)

    # ------------------------------------------------------------- obligations
    def _add(self, rule, where, verdict, detail='', loc=None, **kw):
        d = dict(rule=rule, where=where, verdict=verdict, detail=str(detail),
                 loc='%s:%s in %s' % (loc[0], loc[2], loc[1]) if loc else None)
        d.update(kw)
        self.obl.append(d)
        self.found += verdict == 'VIOLATION'
        if verdict == 'VIOLATION' and os.environ.get('SA_DEBUG'):
            print('  VIOL', rule, where, detail[:600], d['loc'])
        return verdict

    def undecided(self, rule, where, why):
        return self._add(rule, where, 'UNDECIDED', why)

    def fact(self, rule, where, ok, detail='', loc=None):
        return self._add(rule, where, 'OK' if ok else 'VIOLATION', '' if ok else detail, loc)

    def eq(self, rule, where, got, want, hyp=None, ranges=None, loc=None, lemmas=()):
        """got and want: terms (or None, meaning the value is missing)"""
        got = self._term(got)
        want = self._term(want)
        if got is None or want is None:
            return self.undecided(rule, where, 'not a scalar value')
        hyps = [h for h in ([hyp] if hyp is not None else []) + list(lemmas)]
        v, info = self.compare(got, want, hyps, ranges)
        if v == 'VIOLATION':
            return self._add(rule, where, v, info, loc or self.blame(got, want))
        return self._add(rule, where, v, info)

    def holds(self, rule, where, cond, hyp=None, ranges=None, loc=None):
        return self.eq(rule, where, tm.tobool(cond), TRUE, hyp, ranges, loc)

    def compare(self, got, want, hyps=(), ranges=None):
        if got is want:
            return 'OK', ''
        for t in (got, want):
            if opaque(t):
                return 'UNDECIDED', 'depends on a construct that is not modelled: %s' % opaque(t)
        now = time.time()
        if now > self.t0 + self.patience:
            return 'UNDECIDED', 'out of time'
        if self.found >= 40:
            return 'UNDECIDED', 'left undecided after %d violations' % self.found
        e = Eq([h for h in hyps if h is not TRUE], self.limit,
               min(now + (60 if self.tier == 'quick' else 600), self.t0 + self.patience))
        try:
            same = e.equal(got, want)
            why = 'differs'
        except Budget:
            same, why = None, 'case budget exhausted'
        except RecursionError:
            same, why = None, 'recursion'
        if same:
            return 'OK', 'by %d cofactors' % e.n
        hyp = land(*hyps) if hyps else None
        s = self.apart(got, want, hyp, ranges)
        if s is None:
            return 'UNDECIDED', why + ' in normal form, no separating valuation'
        wit = ''
        if same is False and e.witness:
            a, b, path = e.witness
            wit = '; under [%s]: %s  vs required  %s' % ('; '.join(path[:6]), show(a, 5)[:300],
                                                         show(b, 5)[:300])
        return 'VIOLATION', 'computed %s, required %s (separating valuation #%s: %.6g vs %.6g)%s' % (
            show(got, 5)[:300], show(want, 5)[:300], s[0], s[1], s[2], wit)

    def apart(self, got, want, hyp=None, ranges=None):
        """a valuation which separates the terms, or None"""
        s = separated(got, want, self.tries, hyp, ranges)
        if s is None and self.sought < (25 if self.tier == 'quick' else 200):
            self.sought += 1
            s = tm.seek(got, want, hyp, ranges)
        return s

    def _term(self, v):
        if isinstance(v, (T, int, float)):
            return lift(v)
        if isinstance(v, NDArr):
            if len(v.elems) == 1:
                return v.elems[0]
            return None
        if isinstance(v, Opaque):
            return v.term
        if v is None or v is UNDEF:
            return None
        try:
            return lift(v)
        except Exception:
            return None

    def blame(self, got, want):
        ws = tm.subterms(want)
        best = None
        for i, x in tm.subterms(got).items():
            l = getattr(x, 'loc', None)
            if i not in ws and l and (best is None or x.id > best[0]):
                best = (x.id, l)
        return best[1] if best else getattr(got, 'loc', None)

    # --------------------------------------------------------------- known, out
    def finish(self):
        viol = [o for o in self.obl if o['verdict'] == 'VIOLATION']
        und = [o for o in self.obl if o['verdict'] == 'UNDECIDED']
        ok = [o for o in self.obl if o['verdict'] == 'OK']
        known = load_known(self.pid)
        new, old = [], []
        for o in viol:
            key = '%s|%s' % (o['rule'], o['where'])
            (old if key in known else new).append((key, o))
        for key in sorted(set(k for k, _ in old)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[key]))
        self.drain()
        funcs, notes = self.funcs, self.notes
        rules = {}
        for o in self.obl:
            r = rules.setdefault(o['rule'], {'OK': 0, 'VIOLATION': 0, 'UNDECIDED': 0})
            r[o['verdict']] += 1
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'static value-graph analysis of the package source: every '
                               'obligation compares a term extracted from the source (for an '
                               'arbitrary timestep and arbitrary inputs) with the term required '
                               'by the property',
                'obligations': len(self.obl), 'decided_ok': len(ok),
                'violations': len(viol), 'undecided': len(und),
                'rules': rules,
                'functions_analysed': len(funcs),
                'functions': sorted(funcs)[:400],
                'interned_terms': len(tm._INTERN) + self.terms,
                'statements_interpreted': self.nodes,
                'samples': [dict(rule=o['rule'], where=o['where'], verdict=o['verdict'],
                                 detail=o['detail'][:300]) for o in (viol + und + ok[:12])[:60]],
                'unmodelled_constructs': [str(n)[:200] for n in notes[:40]],
            },
            'wall_s': round(time.time() - self.t0, 3)}
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d ok, %d undecided, %d violated; %d functions analysed; %.1fs'
              % (self.pid, len(self.obl), len(ok), len(und), len(viol), len(funcs),
                 time.time() - self.t0))
        for o in und[:20]:
            print('  undecided: %s @ %s: %s' % (o['rule'], o['where'], o['detail'][:300]))
        if new:
            od = os.path.join(HERE, 'out')
            os.makedirs(od, exist_ok=True)
            rp = os.path.join(od, self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump([dict(o, key=k) for k, o in new], f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            for k, o in new[:12]:
                print('  rule %s at %s\n    construct: %s\n    %s' % (
                    o['rule'], o['where'], o['loc'], o['detail'][:900]))
            return 1
        if not ok and not viol:
            print('ANALYSIS-BROKEN: no obligation of %s could be decided' % self.pid)
            return 2
        return 0


def opaque(t):
    for x in tm.subterms(t).values():
        if x.k in ('sym', 'bsym') and x.a[0].startswith('?'):
            return x.a[0]
        if x.k in ('app', 'bapp') and str(x.a[0]).startswith('?'):
            return x.a[0]
    return None


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                if rest.startswith('key='):
                    key, what = rest[4:].split(' :: ', 1)
                    out[key] = what
    return out
