"""C05, C11, C31: camera model, pose conversions, circle fit."""
from . import common as C
from . import harness as H
from . import solvers as S
from .common import R, X, IT, Broken

mk, num = X.mk, X.num


# --------------------------------------------------------------------------- C05
def depth_values(*keys):
    """depths of very different magnitude and both signs"""
    def val(V, k):
        if k in keys:
            u = V.h('mag|' + k)
            s = 1 if V.h('sgn|' + k) < 0.5 else -1
            return s * 10 ** (-8.0 * u * u) * 2
        return None
    return val


def rel(V, x, w):
    """same up to relative error, also for very large image coordinates"""
    return all(abs(a - b) <= 1e-7 * (abs(a) + abs(b) + 1e-9) for a, b in zip(nums(V, x, len(w)), w))


def nums(V, x, n):
    return [V.num(V.sel(x, i)) for i in range(n)]


def c05(c):
    c.explain = ('The value computed by every projection routine (both projectPoint overloads, the distorted projection of '
                 'the intrinsic calibration, the reprojections used for drawing and validation, the back-projection of '
                 'project3D) is compared, as a term over its arguments, with an independent pinhole / Brown-Conrady model, '
                 'for points in front of and behind the camera and depths over eight orders of magnitude. Camera matrices '
                 'built from intrinsics are covered as part of the routines that use them.')
    c.minimum = 4
    core = C.dbm.get('tu:core.cpp')
    for f in H.find(core, 'rct_optimizations::projectPoint'):
        ptr = len(f['p']) == 3
        rule = 'projectPoint.%s' % ('pointer' if ptr else 'eigen')
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, core, f, names=['intr', 'point', 'uv'])
            pt = '*point' if ptr else 'point'
            H.agree(c, rule, fn.where, 'projected point is (fx*x/z+cx, fy*y/z+cy)', fn, fn.out('*uv') if ptr else fn.value,
                    lambda V, A: S.pinhole(A.intr('intr'), A.vec(3, pt)), same=rel,
                    spec=R.Spec(values=depth_values('point[2]', '*point[2]')), n=60)
    opt = C.dbm.get('opt')
    for f in H.find(opt, 'rct_optimizations::projectPoints2') + \
            [g for g in opt.funcs.values() if '::projectPoints2' in g['n'] and g['n'].split('<')[0] != 'rct_optimizations::projectPoints2']:
        with c.guard('projectPoints2', C.fwhere(f)):
            if 'double' not in f['f'].split(' : ')[0]:
                continue
            fn = H.Fn(c, opt, f, names=['intr', 'point', 'uv'])
            H.agree(c, 'projectPoints2', fn.where, 'projected point follows the Brown-Conrady model', fn, fn.out('*uv'),
                    lambda V, A: S.brown_conrady(A.vec(4, '*intr'), A.vec(9, '*intr')[4:], A.vec(3, '*point')), same=rel,
                    spec=R.Spec(values=depth_values('*point[2]')), n=60)
    for f in H.find(core, 'rct_image_tools::getReprojections'):
        with c.guard('getReprojections', C.fwhere(f)):
            fn = H.Fn(c, core, f, names=['pose', 'intr', 'points'])

            def want(V, A):
                return [S.pinhole(A.intr('intr'), S.ap(A.iso('pose'), A.vec(3, 'points', i))) for i in range(A.n('points'))]

            def same(V, x, w):
                return V.size(x) == len(w) and all(V.same(point2(V, V.sel(x, i)), p) for i, p in enumerate(w))
            H.agree(c, 'getReprojections', fn.where, 'one projected pixel per target point, in order', fn, fn.value, want,
                    same=same, n=24)
    for f in H.find(opt, 'rct_optimizations::project3D'):
        with c.guard('project3D', C.fwhere(f)):
            fn = H.Fn(c, opt, f, names=['src', 'T', 'k'])

            def want(V, A):
                T = A.iso('T')
                fx, fy, cx, cy = [V.num(A.f('k', (i, j))) for i, j in ((0, 0), (1, 1), (0, 2), (1, 2))]
                out = []
                for i in range(A.n2('src')[0]):
                    u = [V.num(A.f('src', (i, j))) for j in (0, 1)]
                    d = [(u[0] - cx) / fx, (u[1] - cy) / fy, 1.0]
                    nrm = [r[2] for r in T.R]
                    dp = sum(a * b for a, b in zip(nrm, d))
                    L = sum(a * a for a in d) ** 0.5
                    if abs(dp) / L < 1e-3:
                        raise H.Skip()
                    s = sum(a * b for a, b in zip(nrm, T.t)) / dp
                    out.append(S.ap(S.inv(T), [s * a for a in d]))
                return out

            def vals(V, k):
                m = {'k[1,0]': 0.0, 'k[2,0]': 0.0, 'k[2,1]': 0.0, 'k[0,1]': 0.0, 'k[2,2]': 1.0}
                return m.get(k)

            def same(V, x, w):
                return all(V.same([V.num(V.sel(x, (i, j))) for j in range(3)], r) for i, r in enumerate(w))
            H.agree(c, 'project3D', fn.where, 'viewing rays are the inverse of the pinhole model', fn, fn.value, want,
                    same=same, spec=R.Spec(values=vals, lo=0, hi=3), n=24)


def point2(V, p):
    return [V.num(V.fld(p, 'x')), V.num(V.fld(p, 'y'))]


# --------------------------------------------------------------------------- C11
def c11(c):
    c.explain = ('poseEigenToCal and poseCalToEigen are turned into terms over their argument and compared with independent '
                 'exponential / logarithm maps of rotations for general, tiny and zero rotations; the round trip is the '
                 'composition of the two terms. Accessors are shown to denote distinct slots, equal for reading and writing.')
    c.minimum = 12
    opt = C.dbm.get('opt')
    core = C.dbm.get('tu:core.cpp')

    def small(names):
        def vals(V, k):
            if k in names:
                m = V.h('mode')
                u = 2 * V.h(k) - 1
                return 0.0 if m < 0.15 else u * 1e-9 if m < 0.4 else u * 1e-6 if m < 0.55 else u * 1.7
            return None
        return vals
    rot = ['pose.values[%d]' % i for i in range(3)]
    fn = H.analyse(c, 'poseCalToEigen', opt, 'rct_optimizations::poseCalToEigen', names=['pose'])
    if fn:
        def want(V, A):
            v = A.vec(6, 'pose', 'values')
            return R.Iso(R.expR(v[:3]), v[3:])

        def same(V, x, w):
            x = V.iso(x)
            return all(abs(x.R[i][j] - w.R[i][j]) <= 1e-6 * max(abs(w.R[i][j]), 1e-12) + 1e-13
                       for i in range(3) for j in range(3)) and V.same(x.t, w.t)
        with c.guard('poseCalToEigen', fn.where):
            H.agree(c, 'poseCalToEigen', fn.where, 'rotation exp(rx,ry,rz), translation (x,y,z)', fn, fn.value, want, same=same,
                    spec=R.Spec(values=small(rot)), n=60)
    g = H.analyse(c, 'poseEigenToCal', opt, 'rct_optimizations::poseEigenToCal', names=['pose'])
    if g:
        def wantg(V, A):
            T = A.iso('pose')
            return R.logR(T.R) + list(T.t)
        with c.guard('poseEigenToCal', g.where):
            H.agree(c, 'poseEigenToCal', g.where, 'values = (rotation vector, translation)', g, X.fld(g.value, 'values'), wantg, n=40)
    if fn and g:
        with c.guard('round-trip', g.where):
            t = X.subst(g.value, {mk('in', 'pose'): fn.value})

            class Both(H.Fn):
                def __init__(self):
                    self.throws, self.roots = g.throws + fn.throws, fn.roots
                    self.where = g.where

            def wantr(V, A):
                v = A.vec(6, 'pose', 'values')
                if sum(a * a for a in v[:3]) < 1e-8 or sum(a * a for a in v[:3]) > 9.5:
                    raise H.Skip()
                return v
            H.agree(c, 'round-trip', g.where, 'pose -> transform -> pose is the identity', Both(), X.fld(t, 'values'), wantr, n=24)
    slots = {'CameraIntrinsics': ('fx', 'fy', 'cx', 'cy'), 'Pose6d': ('rx', 'ry', 'rz', 'x', 'y', 'z')}
    accessors(c, core, 'rct_optimizations::', slots)
    accessors(c, opt, None, {'CalibCameraIntrinsics': ('fx', 'fy', 'cx', 'cy', 'k1', 'k2', 'p1', 'p2', 'k3'),
                             'MutableCalibCameraIntrinsics': ('fx', 'fy', 'cx', 'cy', 'k1', 'k2', 'p1', 'p2', 'k3')})


def accessors(c, db, ns, classes):
    for cls, names in classes.items():
        fs = [f for f in db.funcs.values() if f.get('c') and len(f['p']) == 0 and not f.get('ctor') and
              f['c'].split('<')[0].split('::')[-1] == cls and f['n'].split('::')[-1] in names]
        seen = {}
        for f in fs:
            n = f['n'].split('::')[-1]
            I = IT.Interp(db)
            rule = 'accessor.%s' % cls
            with c.guard(rule, C.fwhere(f)):
                v, st = I.run(f)
                lv = getattr(I, 'retlv', None)
                c.analysed(f)
                if v is None:
                    raise IT.Unsupported('no value')
                i = slot(v)
                if i is None:
                    raise IT.Unsupported('slot of %s' % X.show(v))
                seen.setdefault(n, set()).add(i)
        where = cls
        for n, s in seen.items():
            c.check(len(s) == 1, 'accessor.%s' % cls, where, 'reading and writing %s use one slot (%s)' % (n, sorted(s)))
            c.check(s == {names.index(n)}, 'accessor.%s' % cls, where, '%s is slot %d (found %s)' % (n, names.index(n), sorted(s)))


def slot(v):
    """constant index of an element read"""
    if v.op == 'sel':
        return X.intval(v.args[1])
    if v.op == 'in' or v.op == 'fld':
        return None
    # element reads of known pointers: in(*p)[i]
    for x in X.subterms(v):
        if x.op == 'sel':
            return X.intval(x.args[1])
    return None


# --------------------------------------------------------------------------- C31
def c31(c):
    c.explain = ('Both residual forms of the circle cost are compared with r^4 parameterisation of squared radius minus squared '
                 'distance; optimize(CircleFitProblem) is shown to seed centre and radius with the guesses they name, to add '
                 'one residual per point, and to return the solved centre and the square of the third parameter.')
    c.minimum = 5
    core = C.dbm.get('tu:core.cpp')
    fs = [f for f in core.funcs.values() if f.get('c') == 'rct_optimizations::CircleDistCost' and 'operator()' in f['n']]
    if not fs:
        raise C.Missing('CircleDistCost::operator() not found')
    flds = ctor_fields(c, core, 'rct_optimizations::CircleDistCost')
    for f in fs:
        nb = len(f['p']) - 1
        rule = 'residual.%d-block' % nb
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, core, f, names=['a', 'res'] if nb == 1 else ['x', 'y', 'rs', 'res'])

            def want(V, A):
                if nb == 1:
                    x, y, rs = A.vec(3, '*a')
                else:
                    x, y, rs = [V.num(A.f('*' + q, 0)) for q in ('x', 'y', 'rs')]
                px, py = V.num(A.f('this', flds[0])), V.num(A.f('this', flds[1]))
                return [(rs * rs) ** 2 - (px - x) ** 2 - (py - y) ** 2]
            H.agree(c, rule, fn.where, 'residual = r^2 - |p - centre|^2 with r the square of the third parameter', fn, fn.out('*res'), want,
                    n=24, same=lambda V, x, w: V.same(V.num(V.sel(x, 0)), w[0]))
            H.agree(c, rule + '.return', fn.where, 'the residual reports success', fn, fn.value, lambda V, A: True, n=8)
    opt = C.dbm.get('opt')
    sp = [s for s in S.SPECS if s.key == 'circle'][0]
    r = S.analyse(c, sp, opt)
    if r is not None:
        if not r.residuals:
            c.bad('fit.blocks', r.where, 'no residual block is added to the problem that is solved')
            return
        S.coverage(c, r, r.residuals, 'fit.blocks')

        def one(V, A):
            V.memo = {}
            rows, err = S.values(r, V, A)
            V.identity = False
            V.memo = {}
            rad = S.Acc(V, V.eval(r.value)).num('radius')
            V.identity = True
            V.memo = {}
            B = S.Acc(V, V.eval(r.value))
            seeds = [(n, B.num(n), A.num(g)) for n, g in (('x_center', 'x_center_initial'), ('y_center', 'y_center_initial'),
                                                       ('radius', 'radius_initial'))]
            return rows, err, rad, seeds
        for seed, res in S.runs_over(r, S.nvals(c), one):
            if isinstance(res, Exception):
                c.unres('fit.value', r.where, str(res))
                continue
            rows, err, rad, seeds = res
            c.check(rad >= 0, 'fit.radius', r.where, 'the returned radius is not negative (%.4g for an arbitrary solution)' % rad)
            for n, a, b in seeds:
                c.check(abs(a - b) <= 1e-9 * (1 + abs(a)), 'fit.seed', r.where, '%s starts from its own guess' % n,
                        witness=dict(seed=seed, got=a, want=b))
            for k, x, v0, v1 in rows:
                if x.entry is not None and v0 is not None:
                    c.check(S.same(x.entry, v0), 'fit.residual', C.loc(x.ev), 'residual of %s at the initial guess' % k,
                            witness=dict(seed=seed, code=x.entry, spec=v0))
                if x.exit is not None and v1 is not None:
                    c.check(S.same(x.exit, v1), 'fit.residual', C.loc(x.ev), 'residual of %s at the returned circle' % k,
                            witness=dict(seed=seed, code=x.exit, spec=v1))


def ctor_fields(c, db, cls):
    """fields of a record in constructor-parameter order: which field stores which parameter"""
    f = [g for g in db.funcs.values() if g.get('ctor') and g.get('c') == cls and len(g['p']) == 2][0]
    I = IT.Interp(db)
    v, st = I.run(dict(f, p=[dict(p, n='arg%d' % i) for i, p in enumerate(f['p'])]))
    out = []
    for i in range(len(f['p'])):
        for fl in db.records[cls]['fields']:
            if X.fld(v, fl['n']) is mk('in', 'arg%d' % i):
                out.append(fl['n'])
    if len(out) != len(f['p']):
        raise IT.Unsupported('constructor of ' + cls)
    return out
