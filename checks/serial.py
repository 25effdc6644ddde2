"""C12: serialisation round trips."""
from . import common as C
from . import harness as H
from .common import R, X, IT, Broken

mk = X.mk
# documented exceptions: the covariance of a result and the labels for it are not part of the serialised form
OMITTED = ('CovarianceResult',)


def converters(db):
    out = {}
    for f in db.funcs.values():
        if f['n'].startswith('YAML::convert<') and f['n'].endswith(('>::encode', '>::decode')):
            out.setdefault(f['c'][len('YAML::convert<'):-1].strip(), {})[f['n'].rsplit('::', 1)[1]] = f
    return out


def short(t):
    return t.replace('rct_optimizations::', '').split('<')[0].split('::')[-1] + ''.join(ch for ch in t if ch.isdigit())[:2]


def fields(db, t):
    rec = db.records.get(X.strip_type(t))
    return [(f['n'], f['t'], 'i' in f) for f in rec['fields']] if rec else None


def c12(c):
    c.explain = ('For every type with both directions of serialisation, the term of the node that encode builds is substituted for '
                 'the argument of decode, and every field of the decoded object is compared with the field of the original, '
                 'nested types being covered by their own obligation. Decoders without an encoder are compared with the keys '
                 'of their documented format, and must leave no field indeterminate.')
    c.minimum = 3
    db = C.dbm.get('tu:ser.cpp')
    cs = converters(db)
    for t in sorted(cs):
        d = cs[t]
        if 'decode' not in d:
            continue
        rule = 'convert<%s>' % short(t)
        where = C.fwhere(d['decode'])
        with c.guard(rule, where):
            if 'encode' in d:
                round_trip(c, db, rule, t, d)
            elif 'DHTransform' in t:
                dh_transform(c, db, rule, t, d['decode'])
            elif 'DHChain' in t:
                dh_chain(c, db, rule, t, d['decode'])


def round_trip(c, db, rule, t, d):
    nm = 'x' + short(t)
    enc = H.Fn(c, db, d['encode'], names=[nm])
    g = d['decode']
    dec = H.Fn(c, db, g, names=['node' + short(t), 'y' + short(t)], args=[enc.value, None])
    dec.roots[nm] = enc.roots[nm]
    H.agree(c, rule + '.accept', dec.where, 'what encode writes is accepted by decode', dec, dec.value, lambda V, A: True, n=4)
    out = dec.out('y' + short(t))
    fs = fields(db, t)
    if fs is None:
        H.agree(c, rule, dec.where, 'decode yields the encoded value', dec, out, lambda V, A: A.root(nm), n=12)
        return
    for n, ty, _ in fs:
        if any(o in ty for o in OMITTED) or n.startswith('label'):
            continue
        d = X.dims_of_type(X.strip_type(ty)) if IT.cat_of(ty) in ('array', 'carray') else None
        for i in range(d) if isinstance(d, int) else [None]:
            x = X.fld(out, n) if i is None else X.sel(X.fld(out, n), X.num(i))
            H.agree(c, '%s.%s' % (rule, n), dec.where, 'decode yields the encoded value of field ' + n, dec, x,
                    lambda V, A, n=n, i=i: A.f(nm, n) if i is None else A.f(nm, n, i), n=12, event=True)


def untouched(c, db, rule, where, t, out, name):
    """obligation: no field of indeterminate value is left"""
    bad = []
    src = mk('in', name)
    for n, ty, dflt in fields(db, t) or []:
        k = IT.cat_of(ty)
        v = X.fld(out, n)
        if dflt or k not in ('int', 'float', 'ptr', 'eig', 'iso') and 'DHJointType' not in ty:
            continue
        if v == X.fld(src, n) or v.op == 'undef' or any(x == X.UNDEF for x in X.subterms(v)):
            bad.append(n)
    if bad:
        c.bad(rule + '.init', where, 'decode leaves field %s of the decoded object indeterminate' % ', '.join(bad))
    else:
        c.ok(rule + '.init', where, 'decode leaves no field of the decoded object indeterminate')


def dh_transform(c, db, rule, t, f):
    fn = H.Fn(c, db, f, names=['dhnode', 'dht'])
    out = fn.out('dht')
    enums = {n: v for r in db.enums.values() for n, v in [(r, r)]} if isinstance(getattr(db, 'enums', None), dict) else {}
    for i, k in enumerate(('d', 'theta', 'r', 'alpha')):
        H.agree(c, '%s.%s' % (rule, k), fn.where, 'parameter %d is read from key %s' % (i, k), fn, X.sel(X.fld(out, 'params'), X.num(i)),
                lambda V, A, k=k: V.num(R.Obj('dhnode.@%s:double' % k)), n=6, event=True)
    H.agree(c, rule + '.name', fn.where, 'the name is read from key joint_name', fn, X.fld(out, 'name'),
            lambda V, A: True, same=lambda V, x, w: V.canon(x).startswith("dhnode.@joint_name"), n=4, event=True)
    untouched(c, db, rule, fn.where, t, out, 'dht')


def dh_chain(c, db, rule, t, f):
    fn = H.Fn(c, db, f, names=['chnode', 'dhc'])
    out = fn.out('dhc')
    sp = R.Spec(sizes=lambda V, k: int(V.h('nt') * 5) if k == 'chnode.@dh_transforms' else None)
    H.agree(c, rule + '.transforms_', fn.where, 'the chain has exactly the transforms listed, in order', fn, X.fld(out, 'transforms_'),
            lambda V, A: ['chnode.@dh_transforms[%d]:' % i for i in range(int(V.h('nt') * 5))], spec=sp,
            same=lambda V, x, w: len(V.seq(x)) == len(w) and all(V.canon(e).startswith(k) for e, k in zip(V.seq(x), w)), n=12)
    H.agree(c, rule + '.base_offset_', fn.where, 'the base offset is read from key base_transform', fn, X.fld(out, 'base_offset_'),
            lambda V, A: R.Obj('chnode.@base_transform:Eigen::Transform<double, 3, 1, 0>', 'Eigen::Transform<double, 3, 1, 0>'), spec=sp, n=4)
