"""C14, C15: DH chains."""
import math
from . import common as C
from . import harness as H
from . import solvers as S
from .common import R, X, IT, Broken

mk, num = X.mk, X.num
NS = 'rct_optimizations::'
LINEAR, REVOLUTE = 0, 1


def rz(a):
    return R.Iso([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]], [0, 0, 0])


def rx(a):
    return R.Iso([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]], [0, 0, 0])


def tr(x, y, z):
    return R.Iso([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [x, y, z])


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        q = R.mv(r.R, t.t)
        r = R.Iso(R.mm(r.R, t.R), [q[i] + r.t[i] for i in range(3)])
    return r


def dh(d, theta, r, alpha):
    return mul(tr(0, 0, d), rz(theta), tr(r, 0, 0), rx(alpha))


def joint(V, T, offsets, q):
    """transform of one joint: T the DHTransform value"""
    p = V.vec(V.fld(T, 'params'), 4)
    p = [a + b for a, b in zip(p, offsets)]
    ty = jtype(V, T)
    if ty == LINEAR:
        p[0] += q
    elif ty == REVOLUTE:
        p[1] += q
    else:
        return None
    return dh(*p)


def jtype(V, T):
    return etype(V, V.fld(T, 'type', NS + 'DHJointType'))


def etype(V, v):
    n = V.enumof(v, NS + 'DHJointType::LINEAR', NS + 'DHJointType::REVOLUTE')
    return {None: 2, 'LINEAR': 0, 'REVOLUTE': 1}[n and n.split('::')[-1]]


def types(V, k):
    if k.endswith('joint_index'):
        return int(V.h(k) * 7) - 2
    return None


def c14(c):
    c.explain = ('The transforms returned by createRelativeTransform, getFK (both forms) and getRelativeTransform are compared, '
                 'as terms over the chain, joint values and offsets, with base * prod Tz(d)Rz(theta)Tx(r)Rx(alpha) for random '
                 'chain lengths, joint counts, joint types and offset shapes; exceptions are part of the compared outcome.')
    c.minimum = 4
    core = C.dbm.get('tu:core.cpp', 'opt')
    for f in H.find(core, NS + 'DHTransform::createRelativeTransform'):
        two = len(f['p']) == 2
        rule = 'joint-transform'
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, core, f, names=['q', 'offsets'])

            def want(V, A):
                off = A.vec(4, 'offsets') if two else [0] * 4
                r = joint(V, A.root('this'), off, A.num('q'))
                return H.Throw() if r is None else r
            H.agree(c, rule, fn.where + (' with offsets' if two else ''), 'Tz(d) Rz(theta) Tx(r) Rx(alpha) with offsets and joint value', fn, fn.value,
                    want, spec=R.Spec(values=types), n=30)
    for f in H.find(core, NS + 'DHChain::getFK'):
        two = len(f['p']) == 2
        with c.guard('fk', C.fwhere(f)):
            fn = H.Fn(c, core, f, names=['q', 'offsets'])

            def want(V, A):
                n, m = A.n('q'), A.n('this', 'transforms_')
                if n > m or two and n > A.n2('offsets')[0]:
                    return H.Throw()
                T = A.iso('this', 'base_offset_')
                for i in range(n):
                    off = [V.num(A.f('offsets', (i, j))) for j in range(4)] if two else [0] * 4
                    t = joint(V, A.f('this', 'transforms_', i), off, V.num(A.f('q', i)))
                    if t is None:
                        return H.Throw()
                    T = mul(T, t)
                return T

            def sizes(V, k):
                return 4 if k.endswith('.cols') else None
            H.agree(c, 'fk', fn.where + (' with offsets' if two else ''), 'base offset followed by the joint transforms in order', fn, fn.value, want,
                    spec=R.Spec(values=types, sizes=sizes, lo=0, hi=4), n=40)
    for f in H.find(core, NS + 'DHChain::getRelativeTransform'):
        with c.guard('relative', C.fwhere(f)):
            fn = H.Fn(c, core, f, names=['joint_index', 'value'])

            def want(V, A):
                i, m = V.int(A.f('joint_index')), A.n('this', 'transforms_')
                if i < 0 or i >= m:
                    return H.Throw()
                t = joint(V, A.f('this', 'transforms_', i), [0] * 4, A.num('value'))
                return H.Throw() if t is None else t
            H.agree(c, 'relative', fn.where, 'the transform of the joint with that index, or an exception', fn, fn.value, want,
                    spec=R.Spec(values=types, lo=1, hi=4), n=40)
    for f in H.find(core, NS + 'DHChain::getBaseOffset'):
        with c.guard('base', C.fwhere(f)):
            fn = H.Fn(c, core, f)
            H.agree(c, 'base', fn.where, 'the base offset is the one of the chain', fn, fn.value, lambda V, A: A.iso('this', 'base_offset_'), n=8)


def c15(c):
    c.explain = ('Tables returned by a chain are compared, for random chain lengths, with the parameters, types and names of its '
                 'joints in order; constructors must store their arguments; the offset constructor must copy everything but the '
                 'parameters and add offset row i to joint i; random joint values must be drawn from an engine seeded by that '
                 'joint\'s seed, between that joint\'s limits.')
    c.minimum = 6
    db = C.dbm.get('tu:core.cpp', 'opt')
    sp = R.Spec(values=types, lo=0, hi=4)

    def run(rule, name, want, text, same=None, term=None, **kw):
        for f in H.find(db, NS + name):
            with c.guard(rule, C.fwhere(f)):
                fn = H.Fn(c, db, f)
                H.agree(c, rule, fn.where, text, fn, fn.value, want, spec=sp, same=same, n=16, **kw)
    tf = lambda A, *p: A.f('this', 'transforms_', *p)
    run('dof', 'DHChain::dof', lambda V, A: A.n('this', 'transforms_'), 'dof is the number of joints')

    def table(V, A):
        return [V.vec(tf(A, i, 'params'), 4) for i in range(A.n('this', 'transforms_'))]

    def same_table(V, x, w):
        return rows(V, x) == len(w) and all(V.same([V.num(V.sel(x, (i, j))) for j in range(4)], r) for i, r in enumerate(w))
    run('dh-table', 'DHChain::getDHTable', table, 'row i holds the parameters of joint i', same=same_table)
    run('joint-types', 'DHChain::getJointTypes', lambda V, A: [jtype(V, tf(A, i)) for i in range(A.n('this', 'transforms_'))],
        'entry i is the type of joint i', same=lambda V, x, w: [etype(V, y) for y in V.seq(x)] == w)
    labs = ('_d', '_theta', '_r', '_alpha')

    def strs(V, x):
        return [V.tostr(y) for y in V.seq(x)]
    run('labels', 'DHTransform::getParamLabels', lambda V, A: [V.tostr(A.f('this', 'name')) + s for s in labs],
        'labels are name_d, name_theta, name_r, name_alpha', same=lambda V, x, w: strs(V, x) == w)
    run('chain-labels', 'DHChain::getParamLabels',
        lambda V, A: [[V.tostr(tf(A, i, 'name')) + s for s in labs] for i in range(A.n('this', 'transforms_'))],
        'entry i holds the labels of joint i', same=lambda V, x, w: [strs(V, y) for y in V.seq(x)] == w)
    ctors(c, db)
    randoms(c, db)


def rows(V, x):
    if isinstance(x, R.Mat):
        return len(x.rows)
    if isinstance(x, R.Obj):
        return V.spec.size(V, x.key + '.rows')
    return V.size(x)


def ctors(c, db):
    for f in [g for g in db.funcs.values() if g.get('ctor') and g.get('c') == NS + 'DHTransform']:
        n = len(f['p'])
        if n < 2:
            continue
        with c.guard('joint-constructor', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['params', 'type', 'name', 'seed'])
            v = fn.value
            w = '%s (%d arguments)' % (fn.where, n)
            H.agree(c, 'joint-constructor', w, 'params is the first argument', fn, X.fld(v, 'params'), lambda V, A: A.vec(4, 'params'), n=6)
            H.agree(c, 'joint-constructor', w, 'type is the second argument', fn, X.fld(v, 'type'), lambda V, A: etype(V, A.f('type')),
                    same=lambda V, x, q: etype(V, x) == q, n=6)
            if n >= 3:
                H.agree(c, 'joint-constructor', w, 'name is the third argument', fn, X.fld(v, 'name'), lambda V, A: V.tostr(A.f('name')),
                        same=lambda V, x, q: V.tostr(x) == q, n=6)
            if n >= 4:
                H.agree(c, 'joint-constructor', w, 'random_seed is the fourth argument', fn, X.fld(v, 'random_seed'),
                        lambda V, A: V.int(A.f('seed')), n=6)
            for m, q in (('max', math.pi), ('min', -math.pi)):
                H.agree(c, 'joint-constructor', w, 'default %s limit' % m, fn, X.fld(v, m), lambda V, A: q, n=4)
    for f in [g for g in db.funcs.values() if g.get('ctor') and g.get('c') == NS + 'DHChain' and len(g['p']) == 2]:
        first = f['p'][0]['t']
        if 'vector' in first:
            with c.guard('chain-constructor', C.fwhere(f)):
                fn = H.Fn(c, db, f, names=['transforms', 'base'])
                v = fn.value
                H.agree(c, 'chain-constructor', fn.where, 'base offset is the second argument', fn, X.fld(v, 'base_offset_'),
                        lambda V, A: A.iso('base'), n=6)
                H.agree(c, 'chain-constructor', fn.where, 'joints are the first argument', fn, X.fld(v, 'transforms_'),
                        lambda V, A: A.f('transforms'), n=6)
        else:
            with c.guard('offset-constructor', C.fwhere(f)):
                fn = H.Fn(c, db, f, names=['other', 'offsets'])
                v = fn.value
                sp = R.Spec(values=types, lo=0, hi=3, alias=lambda k: 'n' if k in ('other.transforms_', 'offsets.rows') else k,
                            sizes=lambda V, k: 4 if k.endswith('.cols') else None)
                N = lambda A: A.n('other', 'transforms_')
                H.agree(c, 'offset-constructor.base', fn.where, 'base offset is copied', fn, X.fld(v, 'base_offset_'),
                        lambda V, A: A.iso('other', 'base_offset_'), n=6, spec=sp)
                H.agree(c, 'offset-constructor.size', fn.where, 'one joint per joint of the other chain', fn,
                        X.size(X.fld(v, 'transforms_')), lambda V, A: N(A), n=8, spec=sp)

                def each(field, conv):
                    def want(V, A):
                        return [conv(V, A.f('other', 'transforms_', i, field), i, A) for i in range(N(A))]

                    def same(V, x, w):
                        got = [conv(V, V.fld(y, field), None, None) for y in V.seq(x)]
                        return len(got) == len(w) and all(V.same(a, b) if isinstance(a, (list, float, int)) else a == b for a, b in zip(got, w))
                    H.agree(c, 'offset-constructor.' + field, fn.where, '%s of joint i is that of joint i of the other chain' % field +
                            (' plus offset row i' if field == 'params' else ''), fn, X.fld(v, 'transforms_'), want, same=same, n=16, spec=sp)

                def params(V, x, i, A):
                    p = V.vec(x, 4)
                    return p if A is None else [a + V.num(A.f('offsets', (i, j))) for j, a in enumerate(p)]
                each('params', params)
                each('type', lambda V, x, i, A: etype(V, x))
                each('name', lambda V, x, i, A: V.tostr(x))
                each('min', lambda V, x, i, A: V.num(x))
                each('max', lambda V, x, i, A: V.num(x))
                each('random_seed', lambda V, x, i, A: V.int(x))


def randoms(c, db):
    for f in H.find(db, NS + 'DHTransform::createRandomJointValue'):
        with c.guard('random.limits', C.fwhere(f)):
            fn = H.Fn(c, db, f)
            for u in (0.0, 1.0, 0.25):
                H.agree(c, 'random.limits', fn.where, 'a draw of %g from [0,1] maps to min + %g (max - min)' % (u, u), fn, fn.value,
                        lambda V, A: (1 - u) * A.num('this', 'min') + u * A.num('this', 'max'), n=6,
                        spec=R.Spec(values=lambda V, k: u if k.startswith('uniform(') else None))
            evs = fn.evs('random')
            if not evs:
                raise IT.Unsupported('no random draw found')
            for e in evs:
                seeded(c, fn.where, 'random.engine', e, mk('in', 'this'))
    for f in H.find(db, NS + 'DHChain::createUniformlyRandomPose'):
        with c.guard('random.pose', C.fwhere(f)):
            fn = H.Fn(c, db, f)
            for u in (0.0, 1.0):
                H.agree(c, 'random.pose', fn.where, 'entry i lies between the limits of joint i', fn, fn.value,
                        lambda V, A: [A.num('this', 'transforms_', i, 'max' if u else 'min') for i in range(A.n('this', 'transforms_'))],
                        n=8, spec=R.Spec(values=lambda V, k: u if k.startswith('uniform(') else None, lo=0, hi=4),
                        same=lambda V, x, w: rows(V, x) == len(w) and all(V.same(V.num(V.sel(x, i)), y) for i, y in enumerate(w)))


def seeded(c, where, rule, e, this):
    """the engine of a random draw is a function of the seed of the joint it is drawn for"""
    ops = {}
    for x in X.subterms(e.gen):
        ops.setdefault(x.op, x)
    if 'static' in ops or (e.genptr is not None and any('static:' in str(x.args) for x in X.subterms(e.genptr) if x.op == 'ptr')):
        c.bad(rule, where, 'joint values are drawn from an engine with static storage that all joints share; '
              'the seed of the second and every later joint is ignored')
    elif any(x.op in ('entropy', 'raw') for x in X.subterms(e.gen)):
        c.bad(rule, where, 'the engine is seeded with something else than the seed of the joint: %s' % X.show(e.gen)[:200])
    elif X.fld(this, 'random_seed') in list(X.subterms(e.gen)):
        c.ok(rule, where, 'the engine is seeded with the seed of the joint')
    else:
        c.unres(rule, where, 'engine %s' % X.show(e.gen)[:200])
