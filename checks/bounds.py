"""C35: every element access stays inside its container. Accesses are recorded by the abstract interpreter with their
path condition, loop nest and the size of the container at that point; the domains are those of the other checks."""
import importlib
from . import common as C, harness as H, solvers as S, cov
from .common import R, X, IT

MODULES = [('funcs', 'c05'), ('funcs', 'c11'), ('funcs', 'c31'), ('dh', 'c14'), ('dh', 'c15'), ('validation', 'c18'),
           ('validation', 'c19'), ('validation', 'c20'), ('validation', 'c21'), ('validation', 'c22'), ('image', 'c23'),
           ('image', 'c24'), ('image', 'c25'), ('image', 'c26'), ('kinematic', 'c16'), ('kinematic', 'c17')]


class Quiet:
    """stands in for the context of a check whose domain is reused; its own verdicts are not wanted"""

    def __init__(self, c):
        self.c, self.tier, self.seed, self.pid = c, c.tier, c.seed, c.pid
        self.explain, self.minimum, self.assume, self.notes, self.obl = '', 0, [], [], []

    def analysed(self, f):
        self.c.analysed(f)

    def ok(self, *a, **k):
        pass

    bad = unres = check = note = ok

    def guard(self, rule, where):
        return C._Guard(self, rule, where)


class Probe:
    def __init__(self, n):
        self.n = n
        self.seen = {}      # (file, line, how) -> [evaluated instances, violation, reason]
        self.done = {}
        # a marker board has one entry per marker in each of its tables
        self.default = R.Spec(sizes=lambda V, k: int(V.h('board' + k.rsplit('.', 1)[0]) * 4)
                              if k.endswith(('.ids', '.objPoints')) else None)

    def key(self, e):
        return (C.rel(e.file), e.line, e.what, e.fn.split('(')[0])

    def entry(self, e):
        return self.seen.setdefault(self.key(e), [0, None, None])

    def events(self, I):
        out, u = [], set()
        for e in I.events:
            if e.name == 'index':
                k = (self.key(e), tuple(e.index), tuple(e.size), e.pc, e.loops)
                if k not in u:
                    u.add(k)
                    out.append(e)
        return out

    def constant(self, I):
        """accesses with a constant index into a container of constant size need no valuation"""
        for e in self.events(I):
            a = self.entry(e)
            v = [(X.intval(i), X.intval(n)) for i, n in zip(e.index, e.size)]
            if all(i is not None and n is not None for i, n in v):
                a[0] += 1
                bad = [x for x in v if not 0 <= x[0] < x[1]]
                if bad and self.reachable(e):
                    a[1] = a[1] or dict(index=bad[0][0], size=bad[0][1])

    def reachable(self, e):
        return not any(p is X.FALSE for p, _ in e.pc)

    def at(self, V, I, f=None):
        for e in self.events(I):
            a = self.entry(e)
            if a[1]:
                continue
            try:
                V.memo = {}
                for asg in V.instances(e):
                    V.memo = {}
                    for i, n in zip(e.index, e.size):
                        x, y = V.num(V.eval(i)), V.num(V.eval(n))
                        if isinstance(x, (int, float)) and not 0 <= x < y:
                            a[1] = dict(index=x, size=y, iteration={str(k): v for k, v in asg.items()})
                            raise StopIteration
                    a[0] += 1
            except StopIteration:
                pass
            except R.Restart:
                raise
            except C.INTERNAL as x:
                a[2] = '%s: %s' % (type(x).__name__, x)

    def function(self, fn, spec, want):
        if spec is None:
            spec = self.default
        k = (id(fn), id(spec))
        self.keep = getattr(self, 'keep', []) + [(fn, spec)]
        if self.done.get(id(fn), 0) > 2:
            return
        self.done[id(fn)] = self.done.get(id(fn), 0) + 1
        self.constant(fn.I)
        used = 0
        for s in range(self.n * 6):
            def one():
                V = R.Valuation('s%d' % s, spec)
                want(V, H.Args(V, fn))      # outside the documented domain: Skip
                self.at(V, fn.I)
                return True
            try:
                if R.with_restart(one):
                    used += 1
            except H.Skip:
                continue
            except C.INTERNAL:
                continue
            if used >= self.n:
                break


def c35(c):
    c.explain = ('Bounds analysis of every element access (operator[], operator() of Eigen objects, front, back, local and '
                 'member arrays, elements reached through a pointer to an array) in both libraries and their headers. Each '
                 'access is recorded with its guard, its loop nest and the size its container has at that point; for every '
                 'iteration in which the guard holds, over the documented domain of the function, the index must be below '
                 'the size.')
    p = Probe(10 if c.tier == 'quick' else 40)
    IT.Interp.TRACK = True
    H.PROBE = p
    q = Quiet(c)
    try:
        for r in S.each(q):
            p.constant(r.I)
            for s in range(p.n):
                def one():
                    V = R.Valuation('m%d' % s, r.spec.rspec())
                    p.at(V, r.I)
                    return True
                try:
                    R.with_restart(one)
                except C.INTERNAL:
                    continue
        for n, f, I, v in cov.cov_functions(q):
            if isinstance(v, Exception):
                continue
            p.constant(I)
            for s in range(p.n * 2):
                try:
                    cov.scenario(q, n, f, I, v, s, s % 3 == 0)
                except C.INTERNAL:
                    continue
        for m, fn in MODULES:
            try:
                getattr(importlib.import_module('checks.' + m), fn)(q)
            except C.INTERNAL + (C.Missing,):
                continue
        for db in (C.dbm.get('opt'), C.dbm.get('tu:core.cpp')):
            for f in list(db.funcs.values()):
                if not f.get('b') or f['n'].split('::')[-1] != 'operator()' or '/repo/' not in f['file'] and 'rct_' not in f['file']:
                    continue
                try:
                    p.constant(H.Fn(q, db, f).I)
                except C.INTERNAL:
                    continue
    finally:
        H.PROBE = None
        IT.Interp.TRACK = False
    for (file, line, how, fn), (n, bad, why) in sorted(p.seen.items(), key=str):
        w = '%s:%s %s' % (file, line, fn)
        if bad:
            c.bad('bounds', w, '%s: element %s of a container with %s elements%s' % (
                how, bad['index'], bad['size'], ' (loop iteration %s)' % list(bad['iteration'].values()) if bad.get('iteration') else ''), bad)
        elif n:
            c.ok('bounds', w, '%s: index inside the container [%d instances]' % (how, n))
        else:
            c.unres('bounds', w, '%s: %s' % (how, why or 'never reached under the sampled domain'))
    c.minimum = 100
