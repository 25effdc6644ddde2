"""C01-C06: the optimize() overloads. One analysis run per overload yields its residual, solve, covariance, allocation
and write events plus the normal form of the returned result; every check below is a query on these."""
import re
from . import common as C
from .common import R, X, IT, Broken

mk, num = X.mk, X.num
P = 'P'


# --------------------------------------------------------------------------- frames (independent oracle)
def ap(T, p):
    q = R.mv(T.R, p)
    return [q[i] + T.t[i] for i in range(3)]


def inv(T):
    Rt = R.tr(T.R)
    return R.Iso(Rt, [-x for x in R.mv(Rt, T.t)])


def pinhole(k, p):
    fx, fy, cx, cy = k
    if p[2] == 0:
        raise R.NoEval('zero depth')
    return [fx * p[0] / p[2] + cx, fy * p[1] / p[2] + cy]


def brown_conrady(k, d, p):
    fx, fy, cx, cy = k
    k1, k2, p1, p2, k3 = d
    x, y = p[0] / p[2], p[1] / p[2]
    r2 = x * x + y * y
    rad = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
    xd = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
    yd = y * rad + 2 * p2 * x * y + p1 * (r2 + 2 * y * y)
    return [fx * xd + cx, fy * yd + cy]


class Acc:
    """typed access to the problem / result value of one valuation"""

    def __init__(self, V, p):
        self.V, self.p = V, p

    def f(self, *path):
        v = self.p
        for s in path:
            v = self.V.sel(v, s) if isinstance(s, int) else self.V.fld(v, s)
        return v

    def iso(self, *path):
        return self.V.iso(self.f(*path))

    def vec(self, n, *path):
        return self.V.vec(self.f(*path), n)

    def n(self, *path):
        return self.V.size(self.f(*path))

    def n2(self, *path):
        """(rows, columns) of a matrix argument"""
        v = self.f(*path)
        if isinstance(v, R.Mat):
            return len(v.rows), len(v.rows[0]) if v.rows else 0
        if isinstance(v, R.Obj) and self.V.shape(v):
            return self.V.shape(v)
        if isinstance(v, R.Obj):
            return self.V.spec.size(self.V, v.key + '.rows'), self.V.spec.size(self.V, v.key + '.cols')
        return self.V.size(v), 1

    def intr(self, *path):
        return self.V.vec(self.f(*path, 'values'), 4)

    def num(self, *path):
        return self.V.num(self.f(*path))

    def bool(self, *path):
        return self.V.bool(self.f(*path))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


# each spec: iterate (key, {data leaves}, residual) over the correspondences; E gives the estimated quantities
def s_pnp(A, E):
    T = E['camera_to_target']()
    for i in range(A.n('correspondences')):
        c = 'P.correspondences[%d]' % i
        yield c, {c + '.in_image', c + '.in_target', 'P.intr', 'P.camera_to_target_guess'}, sub(
            pinhole(A.intr('intr'), ap(T, A.vec(3, 'correspondences', i, 'in_target'))),
            A.vec(2, 'correspondences', i, 'in_image'))


def s_pnp3(A, E):
    T = E['camera_to_target']()
    for i in range(A.n('correspondences')):
        c = 'P.correspondences[%d]' % i
        yield c, {c + '.in_image', c + '.in_target', 'P.camera_to_target_guess'}, sub(
            ap(T, A.vec(3, 'correspondences', i, 'in_target')), A.vec(3, 'correspondences', i, 'in_image'))


def hand_eye(A, E, dim):
    tm, cm = E['target_mount_to_target'](), E['camera_mount_to_camera']()
    for i in range(A.n('observations')):
        o = 'P.observations[%d]' % i
        for j in range(A.n('observations', i, 'correspondence_set')):
            c = '%s.correspondence_set[%d]' % (o, j)
            q = ('observations', i, 'correspondence_set', j)
            p = ap(tm, A.vec(3, *q, 'in_target'))
            p = ap(A.iso('observations', i, 'to_target_mount'), p)
            p = ap(inv(A.iso('observations', i, 'to_camera_mount')), p)
            p = ap(inv(cm), p)
            t = {c + '.in_image', c + '.in_target', o + '.to_target_mount', o + '.to_camera_mount',
                 'P.target_mount_to_target_guess', 'P.camera_mount_to_camera_guess'}
            if dim == 2:
                p = pinhole(A.intr('intr'), p)
                t.add('P.intr')
            yield c, t, sub(p, A.vec(dim, *q, 'in_image'))


def s_he2(A, E):
    return hand_eye(A, E, 2)


def s_he3(A, E):
    return hand_eye(A, E, 3)


def s_multi(A, E):
    wt = E['wrist_to_target']()
    for c in range(A.n('base_to_camera_guess')):
        bc = E['base_to_camera'](c)
        for i in range(A.n('wrist_poses', c)):
            for j in range(A.n('image_observations', c, i)):
                k = 'P.image_observations[%d][%d][%d]' % (c, i, j)
                q = ('image_observations', c, i, j)
                p = ap(inv(bc), ap(A.iso('wrist_poses', c, i), ap(wt, A.vec(3, *q, 'in_target'))))
                yield k, {k + '.in_image', k + '.in_target', 'P.intr[%d]' % c, 'P.wrist_poses[%d][%d]' % (c, i),
                          'P.base_to_camera_guess[%d]' % c, 'P.wrist_to_target_guess'}, sub(
                    pinhole(A.intr('intr', c), p), A.vec(2, *q, 'in_image'))


def s_camonly(A, E):
    for c in range(A.n('base_to_camera_guess')):
        bc = E['base_to_camera'](c)
        for i in range(A.n('base_to_target_guess')):
            bt = E['base_to_target'](i)
            for j in range(A.n('image_observations', c, i)):
                k = 'P.image_observations[%d][%d][%d]' % (c, i, j)
                q = ('image_observations', c, i, j)
                p = ap(inv(bc), ap(bt, A.vec(3, *q, 'in_target')))
                yield k, {k + '.in_image', k + '.in_target', 'P.intr[%d]' % c, 'P.base_to_target_guess[%d]' % i,
                          'P.base_to_camera_guess[%d]' % c}, sub(
                    pinhole(A.intr('intr', c), p), A.vec(2, *q, 'in_image'))


def s_wrist(A, E):
    wt = E['wrist_to_target']()
    for c in range(A.n('base_to_camera_guess')):
        bc = E['base_to_camera'](c)
        for i in range(A.n('wrist_poses')):
            for j in range(A.n('image_observations', c, i)):
                k = 'P.image_observations[%d][%d][%d]' % (c, i, j)
                q = ('image_observations', c, i, j)
                p = ap(inv(bc), ap(A.iso('wrist_poses', i), ap(wt, A.vec(3, *q, 'in_target'))))
                yield k, {k + '.in_image', k + '.in_target', 'P.intr[%d]' % c, 'P.wrist_poses[%d]' % i,
                          'P.base_to_camera_guess[%d]' % c, 'P.wrist_to_target_guess'}, sub(
                    pinhole(A.intr('intr', c), p), A.vec(2, *q, 'in_image'))


def s_mcpnp(A, E):
    bt = E['base_to_target']()
    for c in range(A.n('base_to_camera')):
        for j in range(A.n('image_observations', c)):
            k = 'P.image_observations[%d][%d]' % (c, j)
            q = ('image_observations', c, j)
            p = ap(inv(A.iso('base_to_camera', c)), ap(bt, A.vec(3, *q, 'in_target')))
            yield k, {k + '.in_image', k + '.in_target', 'P.intr[%d]' % c, 'P.base_to_camera[%d]' % c,
                      'P.base_to_target_guess'}, sub(pinhole(A.intr('intr', c), p), A.vec(2, *q, 'in_image'))


def s_intr(A, E):
    for i in range(A.n('image_observations')):
        if not E['seeded'](i):
            continue
        for j in range(A.n('image_observations', i)):
            k = 'P.image_observations[%d][%d]' % (i, j)
            q = ('image_observations', i, j)
            r = None
            if 'pose' in E:
                p = ap(E['pose'](i), A.vec(3, *q, 'in_target'))
                r = sub(brown_conrady(E['intr'](), E['dist'](), p), A.vec(2, *q, 'in_image'))
            yield k, {k + '.in_image', k + '.in_target', 'P.intrinsics_guess'}, r


def s_circle(A, E):
    x, y, r = E['xyr']()
    for i in range(A.n('observations')):
        k = 'P.observations[%d]' % i
        px, py = A.vec(2, 'observations', i)
        yield k, {k, 'P.x_center_initial', 'P.y_center_initial', 'P.radius_initial'}, \
            [r * r - (px - x) ** 2 - (py - y) ** 2]


COR = r'P(?:\.\w+(?:\[\d+\])*)+?\.(?:in_image|in_target)(?![\w])'


class Spec:
    def __init__(self, key, ptype, rtype, spec, est, data, alias=(), lo=0, hi=3, values=None, nz=(), cov=True, sub=False):
        self.key, self.ptype, self.rtype, self.spec, self.est = key, ptype, rtype, spec, est
        self.data = [re.compile(x) for x in data]
        self.alias_ = [(re.compile(a), b) for a, b in alias]
        self.lo, self.hi = lo, hi
        self.values = values
        self.cov = cov
        self.sub = sub

    def alias(self, key):
        for a, b in self.alias_:
            m = a.fullmatch(key)
            if m:
                return m.expand(b)
        return key

    def rspec(self, lo=None):
        return R.Spec(alias=self.alias, lo=self.lo if lo is None else lo, hi=self.hi, values=self.vals,
                      closed=getattr(self, 'closed', False))

    def vals(self, V, k):
        if 'summary(' in k:
            return _summary_values(V, k)
        return self.values(V, k) if self.values else None


def G(field):
    """estimate taken from a field of the problem / the result"""
    return field


SPECS = [
    Spec('pnp', 'PnPProblem', 'PnPResult', s_pnp, {'camera_to_target': 'camera_to_target_guess'},
         [r'P\.correspondences\[\d+\]\.(?:in_image|in_target)', r'P\.intr', r'P\.camera_to_target_guess']),
    Spec('pnp3d', 'PnPProblem3D', 'PnPResult', s_pnp3, {'camera_to_target': 'camera_to_target_guess'},
         [r'P\.correspondences\[\d+\]\.(?:in_image|in_target)', r'P\.camera_to_target_guess']),
    Spec('handeye2d', 'ExtrinsicHandEyeProblem2D3D', 'ExtrinsicHandEyeResult', s_he2,
         {'target_mount_to_target': 'target_mount_to_target_guess', 'camera_mount_to_camera': 'camera_mount_to_camera_guess'},
         [r'P\.observations\[\d+\]\.correspondence_set\[\d+\]\.(?:in_image|in_target)',
          r'P\.observations\[\d+\]\.to_(?:camera|target)_mount', r'P\.\w+_guess', r'P\.intr']),
    Spec('handeye3d', 'ExtrinsicHandEyeProblem3D3D', 'ExtrinsicHandEyeResult', s_he3,
         {'target_mount_to_target': 'target_mount_to_target_guess', 'camera_mount_to_camera': 'camera_mount_to_camera_guess'},
         [r'P\.observations\[\d+\]\.correspondence_set\[\d+\]\.(?:in_image|in_target)',
          r'P\.observations\[\d+\]\.to_(?:camera|target)_mount', r'P\.\w+_guess']),
    Spec('multistatic', 'ExtrinsicMultiStaticCameraMovingTargetProblem', 'ExtrinsicMultiStaticCameraMovingTargetResult', s_multi,
         {'base_to_camera': 'base_to_camera_guess[]', 'wrist_to_target': 'wrist_to_target_guess'},
         [r'P\.image_observations\[\d+\]\[\d+\]\[\d+\]\.(?:in_image|in_target)', r'P\.intr\[\d+\]',
          r'P\.wrist_poses\[\d+\]\[\d+\]', r'P\.base_to_camera_guess\[\d+\]', r'P\.wrist_to_target_guess'],
         alias=[(r'P\.(intr|wrist_poses|image_observations|base_to_camera_guess)', r'#cam'),
                (r'P\.(wrist_poses|image_observations)\[(\d+)\]', r'#pose\2')]),
    Spec('cameraonly', 'ExtrinsicMultiStaticCameraOnlyProblem', 'ExtrinsicMultiStaticCameraOnlyResult', s_camonly,
         {'base_to_camera': 'base_to_camera_guess[]', 'base_to_target': 'base_to_target_guess[]'},
         [r'P\.image_observations\[\d+\]\[\d+\]\[\d+\]\.(?:in_image|in_target)', r'P\.intr\[\d+\]',
          r'P\.base_to_target_guess\[\d+\]', r'P\.base_to_camera_guess\[\d+\]'],
         alias=[(r'P\.(intr|image_observations|base_to_camera_guess)', r'#cam'),
                (r'P\.base_to_target_guess|P\.image_observations\[\d+\]', r'#pose')], lo=1, cov=False),
    Spec('wristonly', 'ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem',
         'ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult', s_wrist,
         {'base_to_camera': 'base_to_camera_guess[]', 'wrist_to_target': 'wrist_to_target_guess'},
         [r'P\.image_observations\[\d+\]\[\d+\]\[\d+\]\.(?:in_image|in_target)', r'P\.intr\[\d+\]',
          r'P\.wrist_poses\[\d+\]', r'P\.base_to_camera_guess\[\d+\]', r'P\.wrist_to_target_guess'],
         alias=[(r'P\.(intr|image_observations|base_to_camera_guess)', r'#cam'),
                (r'P\.wrist_poses|P\.image_observations\[\d+\]', r'#pose')], cov=False),
    Spec('multicamerapnp', 'MultiCameraPnPProblem', 'MultiCameraPnPResult', s_mcpnp,
         {'base_to_target': 'base_to_target_guess'},
         [r'P\.image_observations\[\d+\]\[\d+\]\.(?:in_image|in_target)', r'P\.intr\[\d+\]',
          r'P\.base_to_camera\[\d+\]', r'P\.base_to_target_guess'],
         alias=[(r'P\.(intr|image_observations|base_to_camera)', r'#cam')], cov=False),
    Spec('intrinsic', 'IntrinsicEstimationProblem', 'IntrinsicEstimationResult', s_intr, None,
         [r'P\.image_observations\[\d+\]\[\d+\]\.(?:in_image|in_target)', r'P\.intrinsics_guess'], sub=True),
    Spec('circle', 'CircleFitProblem', 'CircleFitResult', s_circle, None,
         [r'P\.observations\[\d+\]', r'P\.(?:x_center|y_center|radius)_initial'],
         values=lambda V, k: 0.3 + 2 * V.h(k) if k == 'P.radius_initial' else None),
]


def cov_event(I, e):
    line, file = I.line, I.file
    prob = IT.ptr(I.ref(e['a'][0]))
    vs = [prob] + [I.ev(a) for a in e['a'][1:]]
    I.line, I.file = line, file
    I.event('covariance', args=tuple(vs), problem=prob, nev=I.seq + 1)
    t = mk('covres', num(I.seq))
    X.TY[t] = 'rct_optimizations::CovarianceResult'
    return t


class Run:
    def __init__(self, spec, f, I, v, st):
        self.spec, self.f, self.I, self.value, self.st = spec, f, I, v, st
        self.name = 'optimize(%s)' % spec.ptype
        self.where = '%s %s' % (C.rel(f['file']), self.name)
        self.solves = [e for e in I.events if e.name == 'solve']
        self.main = self.solves[-1] if self.solves else None
        self.residuals = [e for e in I.events if e.name == 'residual' and self.main is not None and e.problem is self.main.problem]
        self.sub_res = [e for e in I.events if e.name == 'residual' and (self.main is None or e.problem is not self.main.problem)]
        self.covs = [e for e in I.events if e.name == 'covariance']

    def block_value(self, b, store):
        """value of the parameter block behind pointer b in the given store"""
        I = self.I
        if b.op == 'ite':
            return X.ite(b.args[0], self.block_value(b.args[1], store), self.block_value(b.args[2], store))
        old = I.st
        I.st = _state(old, store)
        try:
            path = b.args[1]
            if path and path[-1][0] == 'i':
                base = I.read(IT.LV(b.args[0], path[:-1]))
                off = path[-1][1]
                n = 12
                return base if X.intval(off) == 0 else X.lst(*[X.sel(base, X.add(off, num(i))) for i in range(n)])
            return I.read(IT.LV(b.args[0], path))
        finally:
            I.st = old

    def residual_terms(self, ev, store):
        """residual value terms of one residual event with the block contents of the given store"""
        if ev.res is None:
            return None
        m = {}
        for b in ev.blocks:
            t = mk('blkval', b)
            m[t] = self.block_value(b, store)
        r = ev.res
        self._at[id(ev), id(store)] = m
        lists = r.args[0] if r.op == 'evalres' else r
        n = ev.dims[0]
        out = []
        for i in range(n):
            t = X.sel(lists, num(i))
            out.append(X.subst(t, m))
        return out


def _state(old, store):
    s = old.copy() if old is not None else None
    s.store = dict(store.d)
    return s


_runs = {}


def functions(db):
    out = {}
    for f in db.named('rct_optimizations::optimize'):
        if len(f['p']) != 1:
            continue
        ty = X.strip_type(f['p'][0]['t']).split('::')[-1]
        out[ty] = f
    return out


def analyse(c, spec, db, **kw):
    key = (spec.key, tuple(sorted(kw)))
    if key in _runs:
        return _runs[key]
    fs = functions(db)
    f = fs.get(spec.ptype)
    if f is None:
        raise C.Missing('optimize(const %s&) not found' % spec.ptype)
    I = IT.Interp(db, intercept={'rct_optimizations::computeCovariance': cov_event})
    p = C.typed(P, X.strip_type(f['p'][0]['t']))
    try:
        v, st = I.run(f, args=[p])
    except IT.Unsupported as e:
        c.unres('analysis', C.fwhere(f), 'not analysable: %s' % e)
        _runs[key] = None
        return None
    if st is not None:
        I.st = st
    r = Run(spec, f, I, v, st)
    _runs[key] = r
    c.analysed(f)
    for u in I.visited:
        c.analysed(db.funcs.get(u, u))
    return r


def each(c, db=None):
    db = db or C.dbm.get('opt')
    n = 0
    for s in SPECS:
        r = analyse(c, s, db)
        n += 1
        if r is not None:
            yield r
    fs = functions(db)
    for ty in fs:
        if ty not in [s.ptype for s in SPECS]:
            c.notes.append('optimize(%s) has no specification' % ty)


# --------------------------------------------------------------------------- C01
def c01(c):
    c.explain = ('For every optimize() overload the abstract interpreter computes the returned result as a value term '
                 'over the problem and the opaque summary of each ceres::Solve call. Rule: converged == '
                 '(termination_type of the solve that produced the returned estimates == CONVERGENCE), costs == that '
                 'summary\'s costs / num_residuals, on every return.')
    c.minimum = 20
    for r in each(c):
        if r.main is None:
            c.bad('solve', r.where, 'no ceres::Solve call reaches the return')
            continue
        nsol = 'solve%d' % r.main.nsolve
        s = mk('summary', nsol, *[k for k, _ in r.main.loops])
        X.TY[s] = 'ceres::Solver::Summary'
        f = lambda n, ty: _t(X.fld(s, n), ty)
        tt = f('termination_type', 'ceres::TerminationType')
        ini, fin, nr = f('initial_cost', 'double'), f('final_cost', 'double'), f('num_residuals', 'int')
        want = {'converged': X.eq(tt, num(0)), 'initial_cost_per_obs': X.div(ini, nr), 'final_cost_per_obs': X.div(fin, nr)}
        sp = R.Spec(values=_summary_values, lo=1, hi=3, alias=r.spec.alias)
        for n, w in want.items():
            with c.guard('result.' + n, r.where):
                got = X.fld(r.value, n)
                if got.op == 'undef' or got.op == 'fld' and got.args[0].op == 'undef':
                    c.bad('result.' + n, r.where, 'result.%s is returned without having been given a value' % n)
                    continue
                c.equal('result.' + n, r.where, X.fld(r.value, n), w,
                        'result.%s of %s (line %s) equals %s' % (n, r.name, r.f['l'], X.show(w)), spec=sp, n=40)
    c.minimum = 20


def _t(t, ty):
    X.TY[t] = ty
    return t


def _summary_values(V, k):
    if k.endswith('termination_type'):
        return int(V.h(k) * 4)
    if k.endswith('.num_residuals') or k.endswith('num_residuals_reduced'):
        return 1 + int(V.h(k) * 40)
    return None


# --------------------------------------------------------------------------- estimates
def estimators(r, A, result):
    """functions giving the estimated quantities, from the guess (result None) or from the returned result"""
    s = r.spec
    if s.key == 'intrinsic':
        if result is None:
            return {'seeded': lambda i: seeded(r, A, i)}
        B = Acc(A.V, result)
        return {'seeded': lambda i: seeded(r, A, i), 'pose': lambda i: B.iso('target_transforms', i),
                'intr': lambda: B.intr('intrinsics'), 'dist': lambda: B.vec(5, 'distortions')}
    if s.key == 'circle':
        if result is None:
            return {'xyr': lambda: [A.num('x_center_initial'), A.num('y_center_initial'), A.num('radius_initial')]}
        B = Acc(A.V, result)
        return {'xyr': lambda: [B.num('x_center'), B.num('y_center'), B.num('radius')]}
    out = {}
    for n, g in s.est.items():
        if g.endswith('[]'):
            if result is None:
                out[n] = lambda i, g=g[:-2]: A.iso(g, i)
            else:
                B = Acc(A.V, result)
                out[n] = lambda i, n=n, B=B: B.iso(n, i)
        elif result is None:
            out[n] = lambda g=g: A.iso(g)
        else:
            B = Acc(A.V, result)
            out[n] = lambda n=n, B=B: B.iso(n)
    return out


def seeded(r, A, i):
    """did the pose of view i get a seed? read from the events of the sub-problem"""
    sub = r.solves[:-1]
    if not sub:
        return True
    e = sub[0]
    V = A.V
    old = dict(V.kenv)
    ks = [k for k, _ in e.loops]
    if ks:
        V.kenv[ks[0]] = i
    try:
        return V.num(V.fld(V.eval(mk('summary', 'solve%d' % e.nsolve, *ks)), 'termination_type', 'ceres::TerminationType')) == 0
    finally:
        V.kenv = old




# --------------------------------------------------------------------------- residual instances of one valuation
class Instance:
    __slots__ = ('ev', 'asg', 'touched', 'entry', 'exit', 'err', 'redo', 'fails')


def if_instances(V, ev):
    class E:
        loops = ev.loops
        pc = [x for x in ev.pc if x[1] == 'if']
    return V.instances(E)


def leaves(spec, touched):
    out = set()
    for k in touched:
        for p in spec.data:
            m = p.match(k)
            if m and (m.end() == len(k) or not (k[m.end()].isalnum() or k[m.end()] == '_')):
                out.add(m.group(0))
    return out


def code_instances(r, V, residuals=None, values=True):
    out = []
    for ev in (r.residuals if residuals is None else residuals):
        te = r.terms_of(ev, 'entry')
        tx = r.terms_of(ev, 'exit')
        for asg in if_instances(V, ev):
            x = Instance()
            x.ev, x.asg, x.err, x.entry, x.exit = ev, dict(asg), None, None, None
            V.memo = {}
            V.touched = set()
            try:
                if te is None:
                    raise R.NoEval('residual functor not analysable')
                x.entry = [V.num(V.eval(t)) for t in te]
            except R.NoEval as e:
                x.err = str(e)
            x.touched = leaves(r.spec, V.touched)
            V.touched = None
            x.redo = te
            x.fails = False
            if te is not None and ev.res.op == 'evalres' and ev.res.args[1] is not X.UNDEF:
                try:
                    V.memo = {}
                    x.fails = not V.bool(V.eval(r.at_entry(ev, ev.res.args[1])))
                except R.NoEval:
                    pass
                V.memo = {}
            if values and tx is not None:
                try:
                    x.exit = [V.num(V.eval(t)) for t in tx]
                except R.NoEval as e:
                    x.err = x.err or str(e)
            out.append(x)
    return out


def terms_of(self, ev, which):
    k = (id(ev), which)
    if k not in self._tc:
        s = self.main if any(ev is e for e in self.residuals) else [e for e in self.solves if e.problem is ev.problem][0]
        st = s.entry_store if which == 'entry' else s.exit_store
        self._tc[k] = self.residual_terms(ev, st)
    return self._tc[k]


def at_entry(self, ev, t):
    """a term over the blocks of a residual with the contents the solver is given"""
    s = self.main if any(ev is e for e in self.residuals) else [e for e in self.solves if e.problem is ev.problem][0]
    return X.subst(t, self._at.get((id(ev), id(s.entry_store)), {}))


Run.at_entry = at_entry
Run._at = {}
Run.terms_of = terms_of
Run._tc = {}


def runs_over(r, n, fn):
    """fn(V, A, result value) on n valuations of the problem; yields (seed, value or NoEval)"""
    for s in range(n):
        sp = r.spec.rspec()

        def one():
            V = R.Valuation('v%d' % s, sp)
            p = V.eval(C.typed(P, X.TY.get(mk('in', P))))
            return fn(V, Acc(V, p))
        try:
            yield s, R.with_restart(one)
        except C.INTERNAL as e:
            if C.os.environ.get('RCT_DEBUG'):
                C.traceback.print_exc()
            yield s, e
    # the same with sizes and values near the constants that guards compare with
    if getattr(r, 'near', None) is None:
        r.near = R.compared([r.value] + [p for e in r.I.events for p, _ in e.pc] +
                        [t for e in r.I.events for t in C.event_terms(e)] + [p for st, _, _ in r.I.throws for p, _ in st.pc])
    for k in sorted(r.near, key=lambda k: (k in (2.0, 3.0), k))[:6]:
        for s in range(4):
            sp = r.spec.rspec().probing(k)

            def one():
                V = R.Valuation('v%d~%s' % (s, k), sp)
                p = V.eval(C.typed(P, X.TY.get(mk('in', P))))
                return fn(V, Acc(V, p))
            if C.probing.left < 0:
                return
            try:
                with C.probing:
                    res = R.with_restart(one)
                yield '%d~%s' % (s, k), res
            except C.INTERNAL:
                pass


def corr_key(t):
    for k in t:
        if k.endswith('.in_image') or k.startswith('P.observations[') and '.' not in k[14:]:
            return k
    return None


def nvals(c):
    return 8 if c.tier == 'quick' else 40


def c03(c):
    c.explain = ('For every optimize() overload the residual-block events (loop nest, guards, cost functor values, '
                 'parameter blocks) are enumerated symbolically; under pseudo-random set sizes the multiset of data '
                 'leaves each block reads (image point, target point, camera intrinsics/guess, view poses, estimate '
                 'behind each parameter block) must be exactly one block per correspondence with its own leaves.')
    for r in each(c):
        if not r.residuals:
            c.bad('blocks', r.where, 'no residual block is added to the problem that is solved')
            continue
        coverage(c, r, r.residuals, 'blocks')
        if r.spec.sub and r.sub_res:
            coverage(c, r, r.sub_res, 'seed-blocks', sub=True)
    c.minimum = 60


def coverage(c, r, residuals, rule, sub=False):
    for seed, res in runs_over(r, nvals(c), lambda V, A: cover(r, V, A, residuals, sub)):
        w = r.where
        if isinstance(res, Exception):
            c.unres(rule, w, str(res))
            continue
        bad, n, err = res
        if bad:
            for what, line in bad[:3]:
                c.bad(rule, w, 'line %s: %s' % (line, what), witness=dict(valuation=seed))
        elif err:
            c.unres(rule, w, err)
        else:
            c.ok(rule, w, 'valuation %s: %d correspondences, %d residual blocks at %s, one each with its own data' %
                 (seed, n, n, ', '.join(sorted(set(C.loc(e) for e in residuals)))))


def influences(V, x, leaf):
    """does the residual change when the leaf's value changes?"""
    old = dict(V.kenv)
    V.kenv.update(x.asg)
    V.memo = {}
    V.perturb = leaf
    try:
        return not all(V.same(a, V.num(V.eval(t))) for a, t in zip(x.entry, x.redo))
    except R.NoEval:
        return True
    finally:
        V.perturb = None
        V.memo = {}
        V.kenv = old


def cover(r, V, A, residuals, sub):
    E = estimators(r, A, None)
    if sub:
        E['seeded'] = lambda i: True
    want = {}
    for key, t, _ in r.spec.spec(A, E):
        want[key] = t
    got = code_instances(r, V, residuals, values=False)
    bykey = {}
    for k, t in want.items():
        bykey[corr_key(t)] = k
    bad, seen, err = [], {}, None
    for x in got:
        if x.err:
            err = x.err
        ks = [bykey[k] for k in x.touched if k in bykey]
        if len(ks) > 1 and not x.err:
            x.touched = {l for l in x.touched if influences(V, x, l)}
            ks = [bykey[k] for k in x.touched if k in bykey]
        if not ks:
            if not x.err:
                bad.append(('a residual block uses no correspondence of the problem (reads %s)' % sorted(x.touched), x.ev.line))
            continue
        if len(ks) > 1:
            bad.append(('a residual block mixes correspondences %s' % sorted(ks), x.ev.line))
            continue
        k = ks[0]
        seen[k] = seen.get(k, 0) + 1
        if not x.err and x.touched - want[k]:
            # a value may be read (an element of a list built in one go) without having an influence
            x.touched = {l for l in x.touched if l in want[k] or influences(V, x, l)}
        if not x.err and x.touched != want[k]:
            miss, extra = sorted(want[k] - x.touched), sorted(x.touched - want[k])
            bad.append(('the residual of %s %s%s' % (k, 'does not use ' + ', '.join(miss) if miss else '',
                                                      ' uses ' + ', '.join(extra) if extra else ''), x.ev.line))
    line = r.f['l']
    if not err:
        for k in want:
            if seen.get(k, 0) != 1:
                bad.append(('%s has %d residual blocks' % (k, seen.get(k, 0)), line))
    return bad, len(want), err


def c04(c):
    c.explain = ('The residual functors are evaluated to value terms over symbolic parameter blocks. With the blocks '
                 'holding what the solver is given, each residual must equal the specified predicted-minus-observed value '
                 'at the problem\'s guesses; with the blocks holding what the solver returns, the value at the returned '
                 'result. Equality of value terms is decided by random interpretation (no code is executed).')
    for r in each(c):
        for seed, res in runs_over(r, nvals(c), lambda V, A: values(r, V, A)):
            w = r.where
            if isinstance(res, Exception):
                c.unres('residual', w, str(res))
                continue
            res_is = result_ok(c, r)
            rows, err = res
            for k, x, spec_e, spec_x in rows:
                if x.err and x.entry is None:
                    c.unres('residual', w, '%s: %s' % (k, x.err))
                    continue
                if x.fails:
                    c.bad('residual.valid', w, 'the residual of %s (line %s) is reported as not computable' % (k, x.ev.line),
                          witness=dict(valuation=seed))
                    continue
                if spec_e is not None:
                    if same(x.entry, spec_e):
                        c.ok('residual at guess', w, '%s line %s' % (k, x.ev.line))
                    else:
                        c.bad('residual', w, 'residual of %s (line %s) is not predicted - observed at the guess' % (k, x.ev.line),
                              witness=dict(valuation=seed, code=x.entry, spec=spec_e))
                        continue
                if spec_x is not None and x.exit is not None:
                    if same(x.exit, spec_x):
                        c.ok('residual at result', w, '%s line %s' % (k, x.ev.line))
                    elif res_is:
                        c.bad('residual', w, 'residual of %s (line %s) at the solution is not predicted - observed for the returned '
                              'result' % (k, x.ev.line), witness=dict(valuation=seed, code=x.exit, spec=spec_x))
                elif spec_x is None and spec_e is None:
                    c.unres('residual', w, 'no specification value')
    c.minimum = 60


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)) for x, y in zip(a, b))


def values(r, V, A):
    """[(correspondence, code instance, expected residual at guess, expected residual at result)]"""
    got = code_instances(r, V)
    eg = list(r.spec.spec(A, estimators(r, A, None)))
    ex = None
    err = None
    V.memo = {}
    try:
        res = V.eval(r.value)
        ex = list(r.spec.spec(A, estimators(r, A, res)))
    except R.NoEval as e:
        err = str(e)
    rows = []
    for n, (k, t, v) in enumerate(eg):
        me = corr_key(t)
        xs = [x for x in got if me in x.touched]
        for x in xs:
            rows.append((k, x, v, ex[n][2] if ex else None))
    return rows, err


_res_ok = {}


def result_ok(c, r):
    if r.spec.key not in _res_ok:
        _res_ok[r.spec.key] = all(s != 'bad' for s, *_ in result_items(c, r))
    return _res_ok[r.spec.key]


def fields_of(r):
    """(result field, guess field, indexed)"""
    s = r.spec
    if s.est:
        return [(n, g.replace('[]', ''), g.endswith('[]')) for n, g in s.est.items()]
    return []


def c02(c):
    c.explain = ('The returned result is a value term over the problem and solved(.) marks at the locations the solver was '
                 'given. Rules: reading solved(x) as x, each returned transform is the corresponding guess (direction, index, '
                 'inversion, conversion pair); reading it as a perturbation, each returned value changes with the solver and '
                 'the residuals at the solution are those of the returned result; fixed values are returned unchanged.')
    for r in each(c):
        for st, rule, text, wit in result_items(c, r):
            if st == 'ok':
                c.ok(rule, r.where, text)
            elif st == 'bad':
                c.bad(rule, r.where, text, wit)
            else:
                c.unres(rule, r.where, text)
        # residual at the solution is consistent with the returned result
        for seed, res in runs_over(r, nvals(c), lambda V, A: values(r, V, A)):
            if isinstance(res, Exception):
                c.unres('consistent', r.where, str(res))
                continue
            rows, err = res
            if err:
                c.unres('consistent', r.where, err)
                continue
            for k, x, se, sx in rows:
                if x.exit is None or sx is None or (se is not None and (x.entry is None or not same(x.entry, se))):
                    continue
                if same(x.exit, sx):
                    c.ok('consistent', r.where, 'valuation %s: residual of %s at the solution is that of the returned result' % (seed, k))
                else:
                    c.bad('consistent', r.where, 'the returned result does not describe the optimised parameters: residual of %s '
                          'differs at the solution' % k, witness=dict(valuation=seed, code=x.exit, at_result=sx))
                    break
    c.minimum = 60


def result_items(c, r):
    out = []
    s = r.spec

    def same_iso(V, a, b):
        return V.same(a, b)

    def one(V, A):
        items = []
        V.memo = {}
        V.identity = True
        ident = Acc(V, V.eval(r.value))
        idv = {}
        if s.key == 'intrinsic':
            got = ident.intr('intrinsics')
            want = A.intr('intrinsics_guess')
            for i, n in enumerate(('fx', 'fy', 'cx', 'cy')):
                items.append(('intrinsics.' + n, V.same(got[i], want[i]), 'intrinsics_guess', (got[i], want[i])))
        elif s.key == 'circle':
            for n, g in (('x_center', 'x_center_initial'), ('y_center', 'y_center_initial'), ('radius', 'radius_initial')):
                a, b = ident.num(n), A.num(g)
                items.append((n, V.same(a, b), g, (a, b)))
        for n, g, idx in fields_of(r):
            if idx:
                items.append((n + '.size()', ident.n(n) == A.n(g), g + '.size()', (ident.n(n), A.n(g))))
                for i in range(min(A.n(g), ident.n(n))):
                    a, b = ident.iso(n, i), A.iso(g, i)
                    items.append(('%s[%d]' % (n, i), V.same(a, b), '%s[%d]' % (g, i), (repr(a), repr(b))))
            else:
                a, b = ident.iso(n), A.iso(g)
                items.append((n, V.same(a, b), g, (repr(a), repr(b))))
        # dependence on the solver
        V.identity = False
        V.memo = {}
        pert = Acc(V, V.eval(r.value))
        dep = []
        if s.key == 'intrinsic':
            got = pert.intr('intrinsics')
            want = A.intr('intrinsics_guess')
            for i, n in enumerate(('fx', 'fy', 'cx', 'cy')):
                dep.append(('intrinsics.' + n, not V.same(got[i], want[i]), True))
            d = pert.vec(5, 'distortions')
            for i in range(5):
                dep.append(('distortions[%d]' % i, abs(d[i]) > 1e-9, True))
            n = A.n('image_observations')
            m = pert.n('target_transforms')
            items.append(('target_transforms.size()', m == n, 'image_observations.size()', (m, n)))
        elif s.key == 'circle':
            for n, g in (('x_center', 'x_center_initial'), ('y_center', 'y_center_initial'), ('radius', 'radius_initial')):
                dep.append((n, not V.same(pert.num(n), A.num(g)), True))
        nres = sum(1 for _ in (x for ev in r.residuals for x in if_instances(V, ev)))
        for n, g, idx in fields_of(r):
            if idx:
                for i in range(min(A.n(g), pert.n(n))):
                    fixed = s.key == 'cameraonly' and n == 'base_to_camera' and i == 0 and A.bool('fix_first_camera')
                    ch = not V.same(pert.iso(n, i), A.iso(g, i))
                    dep.append(('%s[%d]' % (n, i), ch != fixed, not fixed))
            else:
                dep.append((n, not V.same(pert.iso(n), A.iso(g)), True))
        return items, dep

    for seed, res in runs_over(r, nvals(c), one):
        if isinstance(res, R.NoValue):
            out.append(('bad', 'value:uninitialised', 'a transform of the result is returned without having been given a value',
                        dict(valuation=seed)))
            continue
        if isinstance(res, Exception):
            out.append(('unres', 'value', str(res), None))
            continue
        items, dep = res
        for n, ok, g, w in items:
            n0 = n
            if ok:
                out.append(('ok', 'value', 'valuation %s: result.%s is %s with the solver as identity' % (seed, n, g), None))
            else:
                out.append(('bad', 'value:' + strip_idx(n), 'result.%s is not the documented form of the optimised %s' % (n, g),
                            dict(valuation=seed, code=w[0], spec=w[1])))
        for n, ok, var in dep:
            if ok:
                out.append(('ok', 'source', 'result.%s %s' % (n, 'follows the solver' if var else 'keeps its given value'), None))
            else:
                out.append(('bad', 'source:' + strip_idx(n), 'result.%s %s' % (n, 'does not depend on the solved parameter' if var else
                                                                            'is declared fixed but changes'), dict(valuation=seed)))
    return out


def strip_idx(n):
    return re.sub(r'\[\d+\]', '', n)
