"""C13: equality operators compare every part of both operands."""
import re
from . import common as C
from . import harness as H
from .common import R, X, IT, Broken

mk, num = X.mk, X.num

CLASSES = ['CameraIntrinsics', 'Correspondence', 'Observation', 'KinematicObservation', 'KinematicMeasurement']


def is_struct(db, ty):
    return X.strip_type(ty) in db.records and 'rct_' in ty


def elem_type(ty):
    m = re.match(r'std::vector<(.*?), std::', ty)
    return m.group(1) if m else None


def variants(V, db, base, ty, rnd):
    """values of the type of `base` that differ from it: [(description, value)]"""
    t = X.strip_type(ty)
    et = elem_type(t)
    out = []
    if t.startswith('std::array') or t.startswith('Eigen::Matrix'):
        n = V.size(base)
        if n:
            i = int(rnd * n) % n
            xs = [V.num(V.sel(base, j)) for j in range(n)]
            out.append(('element %d differs' % i, [x + (0.7 if j == i else 0) for j, x in enumerate(xs)]))
            out.append(('relative difference 1e-3', [x * 1.001 for x in xs]))
            if i != n - 1:
                out.append(('last element differs', xs[:-1] + [xs[-1] - 1.3]))
            if V.spec is not None and X.dims_of_type(t) is None:
                pass
        return out
    if t.startswith('Eigen::Transform'):
        x = V.iso(base)
        out.append(('translation differs', R.Iso(x.R, [x.t[0], x.t[1] + 0.4, x.t[2]])))
        out.append(('rotation differs', R.Iso(R.mm(x.R, R.expR([0.0, 0.3 + rnd, 0.1])), x.t)))
        out.append(('translation differs by 1e-3', R.Iso(x.R, [a * 1.001 for a in x.t])))
        return out
    if et:
        n = V.size(base)
        xs = [V.sel(base, j) for j in range(n)]
        extra = R.Obj('extra%d' % int(rnd * 100), et)
        out.append(('one element more', xs + [extra]))
        if n:
            out.append(('one element less', xs[:-1]))
            i = int(rnd * n) % n
            if is_struct(db, et):
                for f in db.records[X.strip_type(et)]['fields']:
                    for d, v in variants(V, db, V.fld(xs[i], f['n'], f['t']), f['t'], rnd):
                        out.append(('element %d: %s: %s' % (i, f['n'], d), xs[:i] + [R.Struct(xs[i], {f['n']: v})] + xs[i + 1:]))
        return out
    return out


def c13(c):
    c.explain = ('Every operator== is turned into a boolean term over both operands. The second operand is a copy of the first '
                 'with a random subset of the documented parts (including vector length, single elements and sub-fields) '
                 'replaced; the term must be true iff the subset is empty, in both orders of the operands.')
    c.minimum = 20
    core = C.dbm.get('tu:core.cpp')
    done = set()
    for f in list(core.funcs.values()):
        cls = f.get('c') or ''
        short = cls.split('<')[0].split('::')[-1]
        if f['n'].split('::')[-1] != 'operator==' or short not in CLASSES or len(f['p']) != 1:
            continue
        done.add(short)
        record_equality(c, core, f, cls)
    for s in CLASSES:
        if s not in done:
            c.unres('equality', s, 'operator== not found as a member function')
    img = C.dbm.get('img')
    for s, parts in TARGETS.items():
        fs = [f for f in img.funcs.values() if f['n'] == 'rct_image_tools::%s::operator==' % s]
        if not fs:
            c.unres('equality', s, 'operator== not found')
            continue
        target_equality(c, img, fs[0], s, parts)


def record_equality(c, db, f, cls):
    where = C.fwhere(f)
    short = cls.split('::')[-1]
    with c.guard('equality', where):
        fn = H.Fn(c, db, f, names=['rhs'])
        fields = db.records[cls]['fields']
        spec = R.Spec(lo=1, hi=3)
        names = []

        def run(seed, swap, pick):
            def one():
                V = R.Valuation(seed, spec)
                V.exact = True
                base = R.Obj('base', cls)
                f_ = {}
                what = []
                for fl in fields:
                    vs = variants(V, db, V.fld(base, fl['n'], fl['t']), fl['t'], V.h('v|' + fl['n']))
                    if not vs:
                        raise R.NoEval('no variants of ' + fl['n'])
                    k = pick(fl['n'], len(vs))
                    if k is not None:
                        what.append('%s: %s' % (fl['n'], vs[k][0]))
                        f_[fl['n']] = vs[k][1]
                other = R.Struct(base, f_) if f_ else base
                V.bind = {'this': other if swap else base, 'rhs': base if swap else other}
                x = fn.outcome(V, fn.value)
                if isinstance(x, H.Throw):
                    raise R.NoEval('throws')
                return V.bool(x), what
            return R.with_restart(one)
        nvar = {}

        def count(n, k):
            nvar[n] = k
            return None
        got, _ = run('e0', False, count)
        c.check(got is True, 'equal-copies', where, 'copies of a %s compare equal' % short)
        bad = R.uninterpreted(fn.value)
        for swap in (False, True):
            for n, k in nvar.items():
                for i in range(k):
                    got, what = run('d%d' % i, swap, lambda m, _: i if m == n else None)
                    text = '%s operands that differ in %s compare unequal%s' % (short, '; '.join(what), ' (operands swapped)' if swap else '')
                    if got and bad:
                        c.unres('differing-part', where, text + ': ' + ', '.join(sorted(bad)))
                    else:
                        c.check(got is False, 'differing-part', where, text)


TARGETS = {
    'ModifiedCircleGridTarget': [r'\.rows$', r'\.cols$', r'\.spacing$'],
    'ArucoGridTarget': [r'getGridSize.*\.width$', r'getGridSize.*\.height$', r'getMarkerLength', r'getMarkerSeparation', r'\.points$'],
    'CharucoGridTarget': [r'getChessboardSize.*\.width$', r'getChessboardSize.*\.height$', r'getMarkerLength', r'getSquareLength', r'\.points$'],
}


def target_equality(c, db, f, short, parts):
    where = C.fwhere(f)
    with c.guard('equality', where):
        fn = H.Fn(c, db, f, names=['other'])
        rx = [re.compile(p) for p in parts]
        bad = {x for x in R.uninterpreted(fn.value) if not x.startswith(('ucall', 'deref'))}

        def run(seed, differ, swap, delta):
            b = 'this' if swap else 'other'

            def vals(V, k):
                # leaves of both operands agree, except for the part that differs
                if not re.search(r'\b(this|other)\b', k) or k.startswith('deref') or k.endswith('.board'):
                    return None
                x = 2 + int(5 * V.h(re.sub(r'\b(this|other)\b', 'x', k)))
                if differ is not None and rx[differ].search(k) and re.search(r'\b%s\b' % b, k):
                    return x + delta
                return x

            def one():
                V = R.Valuation(seed, R.Spec(values=vals, lo=1, hi=3))
                V.exact = True
                x = fn.outcome(V, fn.value)
                if isinstance(x, H.Throw):
                    raise R.NoEval('throws')
                return V.bool(x), V
            return R.with_restart(one)
        for s in range(4):
            got, _ = run('e%d' % s, None, False, 0)
            c.check(got is True, 'equal-copies', where, 'equal %s compare equal' % short)
        for i, p in enumerate(parts):
            for swap in (False, True):
                for delta in (1, -1, 7) + ((1e-3, -1e-3) if re.search('spacing|Length|Separation', p) else ()):
                    got, _ = run('p%d' % i, i, swap, delta)
                    text = '%s that differ in %s compare unequal' % (short, p.strip('$\\.').replace('\\', '').replace('.*', '()'))
                    if got and bad:
                        c.unres('differing-part', where, text + ': ' + ', '.join(sorted(bad)))
                    else:
                        c.check(got is False, 'differing-part', where, text)
