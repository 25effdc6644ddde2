"""Analysis of a single function: its value term, out-parameter terms, throw conditions and events, and the comparison of
these with an independent oracle under pseudo-random valuations."""
import time

from . import common as C
from .common import R, X, IT, Broken
from .solvers import Acc

mk, num = X.mk, X.num


class Skip(Exception):
    """the oracle does not constrain this valuation"""


class Throw:
    def __init__(self, *types):
        self.types = types

    def __repr__(self):
        return 'throw ' + '/'.join(self.types) if self.types else 'throw'


class OrThrow:
    """either an exception or the given value"""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return 'an exception or %r' % (self.value,)


class Args(Acc):
    """typed access to the arguments of an analysed function under one valuation: f('param', field, index, ...)"""

    def __init__(self, V, fn):
        self.V, self.fn = V, fn

    def root(self, n):
        t = self.fn.roots.get(n)
        if t is None:
            raise IT.Unsupported('no parameter ' + n)
        return self.V.eval(t)

    def f(self, n, *path):
        v = self.root(n)
        for s in path:
            v = self.V.fld(v, s) if isinstance(s, str) else self.V.sel(v, s)
        return v


class Fn:
    """one analysed function. names: names given to the parameters, in order (default: their own)"""

    def __init__(self, c, db, f, names=None, args=None, intercept=None, this_type=None, rename=True):
        self.c, self.db, self.f = c, db, f
        self.I = I = IT.Interp(db, intercept=intercept or {})
        self.roots = {}
        ps = []
        for i, p in enumerate(f['p']):
            ps.append(dict(p, n=names[i]) if names and i < len(names) else p)
        self.pnames = [p['n'] or 'arg%d' % i for i, p in enumerate(ps)]
        # parameters keep their own variable ids; only the symbolic name of their value is fixed by position
        g = dict(f, p=ps)
        self.where = C.fwhere(f)
        self.value, self.st = I.run(g, args=args, this_type=this_type)
        if self.st is not None:
            I.st = self.st
        for k, t in I.defaults.items():
            if k.startswith('in:'):
                self.roots[k[3:]] = t
            elif k.startswith('mem:'):
                self.roots['*' + k[4:]] = t
        self.throws = I.throws
        self.events = I.events
        c.analysed(f)
        for u in I.visited:
            c.analysed(db.funcs.get(u, u))

    def out(self, name):
        """final value of a by-reference parameter (or of the memory behind pointer parameter '*name', or 'this')"""
        if name.startswith('*'):
            return self.I.read(IT.LV('mem:' + name[1:]))
        return self.I.read(IT.LV('in:' + name))

    def evs(self, *names):
        return [e for e in self.events if e.name in names]

    def outcome(self, V, term):
        t = thrown(V, self.throws)
        if t:
            return Throw(*t)
        if term is None:
            return None
        return V.eval(term)


def thrown(V, throws):
    out = []
    for st, ty, loc in throws:
        if all(V.bool(V.eval(c)) for c, k in st.pc):
            out.append(str(ty).split('::')[-1])
    return out


def no_wrap(c, rule, fn, text):
    """obligation: no loop bound formed by an unsigned subtraction can be negative (it would wrap around)"""
    bad = None
    for t, pc, where, line in fn.I.usubs:
        for s in range(40):
            V = R.Valuation('w%d' % s, R.Spec(lo=0, hi=2))
            try:
                def one_():
                    V.memo = {}
                    return all(V.bool(V.eval(p)) for p, _ in pc) and V.num(V.eval(t)) < 0
                if R.with_restart(one_):
                    bad = (t, where, line)
                    break
            except C.INTERNAL:
                continue
    if bad:
        c.bad(rule, fn.where, '%s: the bound %s (line %s) wraps around for small inputs' % (text, X.show(bad[0])[:200], bad[2]))
    else:
        c.ok(rule, fn.where, '%s: %d unsigned differences in loop conditions, none can wrap' % (text, len(fn.I.usubs)))


def find(db, qn, nparams=None, pred=None, cls=None):
    fs = [f for f in db.funcs.values() if f['n'] == qn or f['n'].split('<')[0] == qn]
    if cls is not None:
        fs = [f for f in fs if f.get('c') == cls]
    if nparams is not None:
        fs = [f for f in fs if len(f['p']) == nparams]
    if pred:
        fs = [f for f in fs if pred(f)]
    return fs


def one(db, qn, **kw):
    fs = find(db, qn, **kw)
    if not fs:
        raise C.Missing('function %s not found' % qn)
    return fs[0]


PROBE = None    # set while the domains of the checks are reused to look at something else (checks/bounds.py)


def near_constants(term, throws, most=6):
    """constants worth probing, unusual ones (not part of size and index arithmetic) first"""
    ks = R.compared([term] + [p for st, _, _ in throws for p, _ in st.pc])
    return sorted(ks, key=lambda k: (k in (2.0, 3.0), k))[:most]


def agree(c, rule, where, text, fn, term, want, spec=None, n=24, need=3, tol=1e-6, same=None, strict=False, leaves=(), event=False):
    """obligation: under every sampled valuation the value of `term` (or the exception the function throws) is the one
    the oracle want(V, A) computes from the arguments. want may raise Skip."""
    if PROBE is not None:
        if not event or spec:
            PROBE.function(fn, spec, want)
        return 'equal'
    spec = spec or R.Spec()
    agree_, diffs, why, tried, errs, kinds = 0, [], None, 0, 0, {}
    last = [None]
    for s in range(n * 10):
        last[0] = None
        def one_(s=s, spec=spec, last=last):
            V = R.Valuation('s%s' % s, spec)
            V.memo = {}
            A = Args(V, fn)
            w = want(V, A)
            last[0] = 'throws' if isinstance(w, Throw) else 'value'
            V.memo = {}
            try:
                x = V.eval(term) if event else fn.outcome(V, term)
            except R.Mismatch as e:
                return False, 'a size mismatch (%s)' % e, w
            except R.NoValue as e:
                return False, 'an %s' % e, w
            if isinstance(w, OrThrow):
                if isinstance(x, Throw):
                    return True, x, w
                w = w.value
            if isinstance(w, Throw):
                ok = isinstance(x, Throw) and (not w.types or set(w.types) & set(x.types))
            elif isinstance(x, Throw):
                ok = False
            elif same:
                try:
                    ok = same(V, x, w)
                except R.NoValue as e:
                    return False, 'an %s' % e, w
            else:
                ok = V.same(x, w, tol)
            return ok, x, w
        try:
            r = R.with_restart(one_)
        except Skip:
            continue
        except C.INTERNAL as e:
            if C.os.environ.get('RCT_DEBUG'):
                C.traceback.print_exc()
            why = '%s: %s' % (type(e).__name__, e)
            errs += 1
            kinds.setdefault(last[0], [0, 0])[1] += 1
            continue
        tried += 1
        if r[0]:
            agree_ += 1
            kinds.setdefault(last[0], [0, 0])[0] += 1
        else:
            diffs.append((r[1], r[2], s))
        if len(diffs) >= 2 or tried >= n * 8 or (tried >= n and (strict or not diffs)) or \
                (s >= n * 3 and not diffs):
            break
    if not diffs and not event and term is not None and 'rct_image_tools/' not in fn.where:
        # the same with sizes and values near the constants the code compares with (the domains of the image
        # tools are coupled in ways this would not respect)
        for k in near_constants(term, fn.throws):
            end = time.time() + 8
            sp, d, tot = spec.probing(k), [], 0
            for i in range(100):
                if C.probing.left < 0:
                    break
                try:
                    with C.probing:
                        r = R.with_restart(lambda: one_('%d~%s' % (i, k), sp))
                except (Skip,) + C.INTERNAL:
                    continue
                tot += not isinstance(r[2], Throw)
                if not r[0]:
                    d.append((r[1], r[2], '%d~%s' % (i, k)))
                if len(d) >= 2 or tot >= 40 or time.time() > end:
                    break
            if len(d) >= 2:
                diffs, strict = d, True
                break
    if diffs:
        x, y, s = diffs[0]
        bad = R.uninterpreted(*([term] if term is not None else []), *[p for st, _, _ in fn.throws for p, _ in st.pc if not event])
        # sources of randomness are leaves, not computations
        bad = {b for b in bad if not any(l in b for l in leaves) and b.split(':')[0] not in ('entropy', 'raw', 'random', 'static', 'rngnext', 'fnum') and
               not b.startswith(('lib:std::uniform', 'lib:std::mersenne', 'lib:std::linear', 'lib:std::random'))}
        if bad and not isinstance(x, Throw):
            c.unres(rule, where, '%s: uninterpreted %s' % (text, ', '.join(sorted(bad))[:200]))
            return 'unknown'
        if len(diffs) == 1 and agree_ > 12 and not strict:
            c.unres(rule, where, text + ': a single disagreeing valuation')
            return 'unknown'
        c.bad(rule, where, '%s: code yields %s, expected %s' % (text, repr(x)[:300], repr(y)[:300]),
              witness=dict(seed=s, code=repr(x)[:600], spec=repr(y)[:600],
                           term=X.show(term)[:600] if term is not None else None))
        return 'different'
    # a kind of outcome of which no instance could be decided leaves the obligation open
    if agree_ >= need and errs <= agree_ and all(a for a, _ in kinds.values()):
        c.ok(rule, where, '%s [%d valuations]' % (text, agree_))
        return 'equal'
    c.unres(rule, where, '%s: %s' % (text, why or 'no valuation satisfies the domain'))
    return 'unknown'


def analyse(c, rule, db, qn, **kw):
    """Fn or None (recorded as unresolved)"""
    sel = {k: kw.pop(k) for k in ('nparams', 'pred', 'cls') if k in kw}
    try:
        f = one(db, qn, **sel)
    except C.Missing as e:
        c.unres(rule, qn, str(e))
        return None
    try:
        return Fn(c, db, f, **kw)
    except C.INTERNAL as e:
        if C.os.environ.get('RCT_DEBUG'):
            C.traceback.print_exc()
        c.unres(rule, C.fwhere(f), 'not analysable: %s: %s' % (type(e).__name__, e))
        return None
