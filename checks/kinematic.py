"""C16, C17: kinematic calibration (parameter order, masks, labels) and parameter masking."""
import math
import re
from . import common as C
from . import harness as H
from . import solvers as S
from . import cov as CV
from .dh import mul, joint, types, rows
from .common import R, X, IT, Broken

mk, num = X.mk, X.num
NS = 'rct_optimizations::'
BLOCKS = ('camera chain DH offsets', 'target chain DH offsets', 'camera mount to camera position',
          'camera mount to camera angle axis', 'target mount to target position', 'target mount to target angle axis',
          'camera base to target base position', 'camera base to target base angle axis')


# --------------------------------------------------------------------------- oracle
def fk(V, chain, q, off):
    T = V.iso(V.fld(chain, 'base_offset_'))
    n = V.size(q)
    for i in range(n):
        o = [V.num(V.sel(off, (i, j))) for j in range(4)] if off is not None else [0.0] * 4
        t = joint(V, V.sel(V.fld(chain, 'transforms_'), i), o, V.num(V.sel(q, i)))
        if t is None:
            raise R.NoEval('joint without a type')
        T = mul(T, t)
    return T


def camera_to_target(A, E, o):
    V = A.V
    cam = fk(V, A.f('camera_chain'), A.f(*o, 'camera_chain_joints'), E['camera_chain_dh_offsets']())
    tgt = fk(V, A.f('target_chain'), A.f(*o, 'target_chain_joints'), E['target_chain_dh_offsets']())
    b2c = mul(cam, E['camera_mount_to_camera']())
    b2t = mul(E['camera_base_to_target_base'](), tgt, E['target_mount_to_target']())
    return mul(S.inv(b2c), b2t)


def joints(A, o, key):
    return {key + '.' + j for j, ch in (('camera_chain_joints', 'camera_chain'), ('target_chain_joints', 'target_chain'))
            if A.n(*o, j) > 0}


def s_kin2(A, E):
    for i in range(A.n('observations')):
        o = 'P.observations[%d]' % i
        T = camera_to_target(A, E, ('observations', i))
        for j in range(A.n('observations', i, 'correspondence_set')):
            c = '%s.correspondence_set[%d]' % (o, j)
            q = ('observations', i, 'correspondence_set', j)
            yield c, {c + '.in_image', c + '.in_target', 'P.intr'} | joints(A, ('observations', i), o), S.sub(
                S.pinhole(A.intr('intr'), S.ap(T, A.vec(3, *q, 'in_target'))), A.vec(2, *q, 'in_image'))


def s_kin6(A, E):
    for i in range(A.n('observations')):
        o = 'P.observations[%d]' % i
        T = camera_to_target(A, E, ('observations', i))
        M = A.iso('observations', i, 'camera_to_target')
        D = mul(M, S.inv(T))
        ang = math.sqrt(sum(x * x for x in R.logR(R.mm(R.tr(M.R), T.R))))
        yield o, {o}, list(D.t) + [A.V.num(R.Obj('weight', 'double')) * ang]


EST = {n: n + '_guess' for n in ('camera_mount_to_camera', 'target_mount_to_target', 'camera_base_to_target_base')}
ALIAS = [(r'P\.(?:observations\[\d+\]\.)?(camera|target)_chain(?:\.transforms_|_joints)', r'#\1')]
SPECS = [
    S.Spec('kin2d3d', 'KinematicCalibrationProblem2D3D', 'KinematicCalibrationResult', s_kin2, EST,
           [r'P\.observations\[\d+\]\.correspondence_set\[\d+\]\.(?:in_image|in_target)',
            r'P\.observations\[\d+\]\.(?:camera|target)_chain_joints', r'P\.intr'], alias=ALIAS, lo=0, hi=2),
    S.Spec('kin6d', 'KinematicCalibrationProblemPose6D', 'KinematicCalibrationResult', s_kin6, EST,
           [r'P\.observations\[\d+\]'], alias=ALIAS, lo=0, hi=2),
]


def kin_values(V, k):
    if re.fullmatch(r'P\.label_\w+', k):
        return k[2:]
    return types(V, k)


for _s in SPECS:
    _s.values, _s.closed = kin_values, True


def event(name):
    def h(I, e):
        line, file = I.line, I.file
        vs = [IT.ptr(I.ref(e['a'][0]))] + [I.ev(a) for a in e['a'][1:]]
        I.line, I.file = line, file
        I.event(name, args=tuple(vs))
        return IT.UNDEF
    return h


def run(c, db, s):
    fs = [f for f in db.named(NS + 'optimize') if X.strip_type(f['p'][0]['t']).split('::')[-1] == s.ptype]
    if not fs:
        raise C.Missing('optimize(const %s&) not found' % s.ptype)
    f = fs[0]
    I = IT.Interp(db, intercept={NS + 'computeCovariance': S.cov_event, NS + 'addSubsetParameterization': event('masking'),
                                 NS + 'printOptimizationLabels': event('labels')})
    args = [C.typed(S.P, X.strip_type(f['p'][0]['t']))] + [
        C.typed('weight', 'double') if X.strip_type(p['t']) == 'double' else None for p in f['p'][1:]]
    v, st = I.run(f, args=args)
    if st is not None:
        I.st = st
    r = S.Run(s, f, I, v, st)
    r.priors = [e for e in r.residuals if str(e.ftype).split('::')[-1] == 'MaximumLikelihood']
    r.residuals = [e for e in r.residuals if e not in r.priors]
    c.analysed(f)
    for u in I.visited:
        c.analysed(db.funcs.get(u, u))
    return r


def estimates(r, A, result):
    out = S_est(r, A, result)
    for n in ('camera_chain_dh_offsets', 'target_chain_dh_offsets'):
        out[n] = (lambda: None) if result is None else (lambda n=n: A.V.fld(result, n))
    return out


S_est = S.estimators


def c16(c):
    c.explain = ('Both kinematic optimize() overloads are summarised like the other solvers: residual blocks, priors, masks, labels '
                 'and result fields as terms over the problem. Under pseudo-random chains, masks and observations each residual must '
                 'be that of its own observation with every block read in its documented role, each prior, mask and label must sit '
                 'on the block it describes and each result field must come from its own block.')
    c.minimum = 8
    db = C.dbm.get('opt', 'kin')
    for s in SPECS:
        w = 'rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp optimize(%s)' % s.ptype
        with c.guard('analysis', w):
            r = run(c, db, s)
            if r.main is None:
                c.bad('solve', r.where, 'no ceres::Solve call reaches the return')
                continue
            S.estimators = estimates
            try:
                calibration(c, r, db)
            finally:
                S.estimators = S_est
    header(c, C.dbm.get('tu:kin.cpp'))


def blocks_of(r):
    """the eight block pointers in the order of the functor, if every observation block uses the same"""
    bs = {tuple(e.blocks) for e in r.residuals}
    if len(bs) != 1:
        raise IT.Unsupported('observation residuals use different parameter blocks')
    b = bs.pop()
    if len(b) != 8:
        raise IT.Unsupported('%d parameter blocks' % len(b))
    return b


def calibration(c, r, db):
    w = r.where
    if not r.residuals:
        c.bad('blocks', w, 'no observation is added to the problem that is solved')
        return
    S.coverage(c, r, r.residuals, 'blocks')
    for st, rule, text, wit in S.result_items(c, r):
        (c.ok if st == 'ok' else c.unres if st == 'unres' else c.bad)(rule, w, text, *([wit] if st == 'bad' else []))
    for seed, res in S.runs_over(r, nvals(c), lambda V, A: S.values(r, V, A)):
        if isinstance(res, Exception):
            c.unres('residual', w, str(res))
            continue
        for k, x, se, sx in res[0]:
            for what, a, b in (('guess', x.entry, se), ('result', x.exit, sx)):
                if a is None or b is None:
                    if what == 'guess':
                        c.unres('residual', w, '%s: %s' % (k, x.err))
                    continue
                c.check(S.same(a, b), 'residual', w, 'valuation %s: the residual of %s (line %s) at the %s reads every block in its role' %
                        (seed, k, x.ev.line, what), dict(code=a, spec=b))
    status(c, r)
    with c.guard('offsets', w):
        offsets(c, r)
    b = blocks_of(r)
    with c.guard('priors', w):
        priors(c, r, b)
    with c.guard('masks', w):
        masks(c, r, b)
    with c.guard('labels', w):
        label_maps(c, r, b, db)
    with c.guard('constant', w):
        placeholders(c, r, b)


def status(c, r):
    s = mk('summary', 'solve%d' % r.main.nsolve)
    X.TY[s] = 'ceres::Solver::Summary'
    f = lambda n, ty: S._t(X.fld(s, n), ty)
    nr = f('num_residuals', 'int')
    want = {'converged': X.eq(f('termination_type', 'ceres::TerminationType'), num(0)),
            'initial_cost_per_obs': X.div(f('initial_cost', 'double'), nr), 'final_cost_per_obs': X.div(f('final_cost', 'double'), nr)}
    sp = R.Spec(values=S._summary_values, lo=1, hi=3)
    for n, t in want.items():
        with c.guard('result.' + n, r.where):
            c.equal('result.' + n, r.where, X.fld(r.value, n), t, 'result.%s is that of the solve' % n, spec=sp, n=20)


def nvals(c):
    return 3 * S.nvals(c)


def over(c, r, rule, fn):
    for seed, res in S.runs_over(r, nvals(c), fn):
        if isinstance(res, Exception):
            c.unres(rule, r.where, str(res))
        else:
            for ok, text, wit in res:
                c.check(ok, rule, r.where, 'valuation %s: %s' % (seed, text) if ok else text, dict(valuation=seed, detail=wit))


def offsets(c, r):
    def fn(V, A):
        out = []
        for ident in (True, False):
            V.identity, V.memo = ident, {}
            B = S.Acc(V, V.eval(r.value))
            for ch in ('camera', 'target'):
                n = A.n(ch + '_chain', 'transforms_')
                x = V.tomat(B.f(ch + '_chain_dh_offsets'))
                x = [[V.num(e) for e in row] for row in x]
                if ident:
                    out.append((len(x) == n and all(len(q) == 4 and not any(q) for q in x),
                                'result.%s_chain_dh_offsets has one row per joint and is the solved block of a zero start' % ch, repr(x)))
                elif n:
                    out.append((all(any(abs(e) > 1e-9 for e in q) for q in x), 'result.%s_chain_dh_offsets follows the solver' % ch, repr(x)))
        V.identity = False
        return out
    over(c, r, 'offsets', fn)


def priors(c, r, b):
    def fn(V, A):
        out = []
        got = {}
        for e in r.priors:
            for asg in S.if_instances(V, e):
                V.memo = {}
                got.setdefault(V.canon(V.eval(e.blocks[0])), []).append(e)
        for i, ch in enumerate(('camera', 'target')):
            k = V.canon(V.eval(b[i]))
            n = A.n(ch + '_chain', 'transforms_')
            V.memo = {}
            const = n == 0 or V.bool(V.eval(constant(r, b[i])))
            es = got.pop(k, [])
            out.append((len(es) == (0 if const else 1), 'the %s chain offsets have %s prior' % (ch, 'no' if const else 'one'), len(es)))
            for e in es:
                if e.seq > r.main.seq:
                    out.append((False, 'the %s chain prior is added after the solve' % ch, None))
                m, sd = V.tomat(V.eval(X.fld(e.fval, 'mean'))), V.tomat(V.eval(X.fld(e.fval, 'stdev')))
                want = A.num(ch + '_chain_offset_stdev')
                out.append((len(m) == n and all(len(q) == 4 and not any(V.num(x) for x in q) for q in m),
                            'the %s chain prior has mean zero for every offset' % ch, repr(m)))
                out.append((len(sd) == n and all(len(q) == 4 and all(V.same(V.num(x), want) for x in q) for q in sd),
                            'the %s chain prior uses the %s chain deviation' % (ch, ch), repr(sd)))
                nres, bs = e.dims if e.dims else (None, None)
                for what, d in (('residuals', X.fld(e.costval, 'nres')), ('parameters', X.sel(X.fld(e.costval, 'blocks'), num(0)))):
                    V.memo = {}
                    out.append((V.int(V.eval(d)) == 4 * n, 'the %s chain prior declares one of its %s per offset' % (ch, what), None))
        for k, es in got.items():
            out.append((False, 'a prior is attached to %s' % CV.pretty(k), None))
        return out
    over(c, r, 'priors', fn)


def constant(r, b):
    """is block b constant when the priors are added (as answered by the problem)"""
    for e in r.I.events:
        if e.name == 'ucall' and e.fnname == 'ceres::Problem::IsParameterBlockConstant' and b in e.args:
            return e.result
    return X.FALSE


def masks(c, r, b):
    ms = [e for e in r.I.events if e.name == 'masking']
    if not ms:
        if any(e.name in ('setmanifold', 'setvariable') or e.name == 'ucall' and 'arameteriz' in e.fnname for e in r.I.events):
            raise IT.Unsupported('addSubsetParameterization is not called')
        c.bad('masks', r.where, 'the masks of the problem are never applied')
        return
    c.check(len(ms) == 1 and not ms[0].loops, 'masks', r.where, 'the masks are applied once')
    e = ms[0]
    last = max(x.seq for x in r.residuals)
    c.check(last < e.seq < r.main.seq, 'masks', r.where, 'the masks are applied to the complete problem before it is solved')
    c.check(e.args[0] is r.main.problem, 'masks', r.where, 'the masks are applied to the problem that is solved')
    covs = CV.attached(r)[0]

    def fn(V, A):
        out = []
        for what, t in [('applied', e.args[1])] + [('covariance', x.args[2]) for x in covs]:
            V.memo = {}
            m = V.eval(t)
            out += pairing(V, m, b, lambda i: A.f('mask', i), what + ' mask')
        return out
    over(c, r, 'masks', fn)


def pairing(V, m, b, want, what, same=None):
    if not isinstance(m, R.MapV) or m.base is not None:
        raise R.NoEval(what + ' map not known')
    d = {V.canon(k): v for _, (k, v) in m.d.items()}
    out = []
    for i, t in enumerate(b):
        k = t if isinstance(t, str) else V.canon(V.eval(t))
        if k not in d:
            out.append((False, 'the %s has no %s' % (BLOCKS[i], what), None))
            continue
        v, x = d.pop(k), want(i)
        out.append((same(V, v, x) if same else V.same(v, x), 'the %s has its own %s' % (BLOCKS[i], what), (repr(v)[:200], repr(x)[:200])))
    for k in d:
        out.append((False, 'a %s is attached to something else (%s)' % (what, CV.pretty(k)), None))
    return out


LABEL = {1: 'label_camera_mount_to_camera', 2: 'label_target_mount_to_target', 3: 'label_camera_base_to_target'}


def iso_labels(V, v, i, prefix):
    labs = [V.tostr(x) for x in V.seq(v)]
    if len(labs) != 3:
        return False
    rx = CV.TRA if i % 2 == 0 else CV.ROT
    return all(l.startswith(prefix) and CV._suffix(rx, l[len(prefix):].lstrip('_ -'), ch) for l, ch in zip(labs, 'xyz'))


def bound(I, name, t):
    I.defaults['in:' + name] = t
    I.rootinfo['in:' + name] = dict(kind='param', name=name, type=X.TY.get(t), n=0, line=0, file='', loops=(), cls=None)
    return IT.LV('in:' + name)


def label_maps(c, r, b, db):
    covs = CV.attached(r)[0]
    c.check(len(covs) == 1, 'labels', r.where, 'result.covariance is the covariance of the problem that is solved')
    for x in covs:
        c.check(x.problem is r.main.problem and x.seq > r.main.seq, 'labels', r.where, 'the covariance is that of the solved problem')
    pl = H.find(db, NS + 'DHChain::getParamLabels')
    if not pl:
        raise IT.Unsupported('getParamLabels not found')
    chain = {}
    for ch in ('camera', 'target'):
        I = IT.Interp(db)
        P = C.typed(S.P, X.strip_type(r.f['p'][0]['t']))
        chain[ch], _ = I.run(pl[0], args=None, this=bound(I, ch, S._t(X.fld(P, ch + '_chain'), NS + 'DHChain')))
    maps = [('covariance labels', x.args[1]) for x in covs]
    maps += [('printed labels', x.args[2]) for x in r.I.events if x.name == 'labels' and len(x.args) == 4]

    def fn(V, A):
        def want(i):
            if i < 2:
                ch = ('camera', 'target')[i]
                n = A.n(ch + '_chain', 'transforms_')
                if n == 0:
                    return None
                rw = [V.seq(x) for x in V.seq(V.eval(chain[ch]))]
                return [V.tostr(rw[k % n][k // n]) for k in range(4 * n)]
            return V.tostr(A.f(LABEL[i // 2]))

        out = []
        for what, t in maps:
            V.memo = {}
            m = V.eval(t)
            if not isinstance(m, R.MapV) or m.base is not None:
                raise R.NoEval('label map not known')
            d = {V.canon(k): v for _, (k, v) in m.d.items()}
            for i, q in enumerate(b):
                k = V.canon(V.eval(q))
                if k not in d:
                    out.append((False, 'the %s has no %s' % (BLOCKS[i], what), None))
                    continue
                x = want(i)
                labs = [V.tostr(y) for y in V.seq(d[k])]
                ok = len(labs) == 4 if x is None else labs == x if isinstance(x, list) else iso_labels(V, d[k], i, x)
                out.append((ok, 'the %s has its own %s' % (BLOCKS[i], what), (labs, x)))
        return out
    over(c, r, 'labels', fn)


def placeholders(c, r, b):
    """the placeholder block of a chain without joints is held constant, no other block is"""
    def fn(V, A):
        got = set()
        for e in r.I.events:
            if e.name == 'setconstant' and e.seq < r.main.seq:
                for asg in S.if_instances(V, e):
                    V.memo = {}
                    got.add(V.canon(V.eval(e.block)))
        out = []
        for i, q in enumerate(b):
            k = V.canon(V.eval(q))
            want = i < 2 and A.n(('camera', 'target')[i] + '_chain', 'transforms_') == 0
            out.append(((k in got) == want, 'the %s are %s' % (BLOCKS[i], 'held constant (no joints)' if want else 'free before masking'), None))
        return out
    over(c, r, 'constant', fn)


# --------------------------------------------------------------------------- header
def meaning(s):
    """which block a parameter name describes, None if it fits none or several"""
    s = ' '.join(re.findall(r'[a-z]+', s.lower()))
    pos, rot = bool(re.search(r'position|translation', s)), bool(re.search(r'orientation|rotation|angle|axis', s))
    m = re.match(r'(camera|target)\b', s)
    if not m:
        return None
    if re.search(r'\bdh\b', s):
        return None if pos or rot or re.search('mount|base', s) else 0 if m.group(1) == 'camera' else 1
    mount, base = 'mount' in s, 'base' in s
    if pos == rot or mount == base:
        return None
    if base:
        return None if m.group(1) != 'camera' or not re.search(r'base\b.*\btarget\b.*\bbase', s) else 6 + rot
    return (2 if m.group(1) == 'camera' else 4) + rot


def header(c, db):
    D = NS + 'DualDHChainCost::'

    def get(rule, name, names, **kw):
        if not H.find(db, name):
            c.unres(rule, name, 'not found')
            return None
        return H.analyse(c, rule, db, name, names=names, **kw)

    fn = get('order', D + 'constructParameters', ['blk%d' % i for i in range(8)])
    if fn is not None:
        with c.guard('order', fn.where):
            v = fn.value
            if v.op != 'list' or any(x.op != 'ptr' for x in v.args):
                raise IT.Unsupported('parameter list is not a list of addresses')
            c.check(len(v.args) == 8, 'order', fn.where, 'eight parameter blocks', dict(n=len(v.args)))
            for i, x in enumerate(v.args[:8]):
                c.check(x.args[0] == 'in:blk%d' % i, 'order', fn.where, 'block %d is the %s' % (i, BLOCKS[i]), dict(code=x.args[0]))

    def keys(V, A):
        return [V.canon(A.f('blocks', i)) for i in range(8)]

    def maps(rule, name, names, want, same, text):
        fn = get(rule, name, names)
        if fn is None:
            return
        bad, n, why = None, 0, None
        for s in range(10 if c.tier == 'quick' else 60):
            def one():
                V = R.Valuation('m%d' % s, R.Spec(sizes=lambda V, k: 8 if k in ('blocks', 'maskset') else 3 if re.fullmatch(r'l[2-7]', k) else
                                                  4 if re.fullmatch(r'[ct]c\[\d+\]', k) else None, lo=1, hi=3))
                V.memo = {}
                A = H.Args(V, fn)
                th = fn.outcome(V, fn.value)
                if isinstance(th, H.Throw):
                    return [(False, 'an exception is raised', repr(th))]
                return pairing(V, th, keys(V, A), lambda i: want(V, A, i), text, same)
            try:
                res = R.with_restart(one)
            except C.INTERNAL as e:
                why = str(e)
                continue
            n += 1
            for ok, t, wit in res:
                if not ok:
                    bad = bad or (t, wit, s)
        if bad:
            c.bad(rule, fn.where, bad[0], dict(valuation=bad[2], detail=bad[1]))
        elif n:
            c.ok(rule, fn.where, 'every block has its own %s [%d valuations]' % (text, n))
        else:
            c.unres(rule, fn.where, why)

    def w_lab(V, A, i):
        if i < 2:
            rw = [V.seq(x) for x in V.seq(A.root(('cc', 'tc')[i]))]
            return [rw[k % len(rw)][k // len(rw)] for k in range(4 * len(rw))]
        return A.root('l%d' % i)
    maps('labels', D + 'constructParameterLabels', ['blocks', 'cc', 'tc', 'l2', 'l3', 'l4', 'l5', 'l6', 'l7'], w_lab,
         lambda V, v, x: [V.canon(y) for y in V.seq(v)] == [V.canon(y) for y in V.seq(x)], 'labels')
    maps('masks', D + 'constructParameterMasks', ['blocks', 'maskset'], lambda V, A, i: A.f('maskset', i), None, 'mask')

    def named(V, v, i):
        return meaning(V.tostr(v)) == i
    maps('names', D + 'constructParameterNames', ['blocks'], lambda V, A, i: i, named, 'name')

    # masks from matrices of flags
    fn = get('dh-mask', NS + 'createDHMask', ['flags'])
    if fn is not None:
        def w_mask(V, A):
            n, m = A.n2('flags')
            return sorted(j * n + i for i in range(n) for j in range(m) if V.bool(A.f('flags', (i, j))))
        H.agree(c, 'dh-mask', fn.where, 'the mask lists the column-major index of every flagged parameter once', fn, fn.value, w_mask,
                same=lambda V, x, w: sorted(V.int(y) for y in V.seq(x)) == w,
                spec=R.Spec(sizes=lambda V, k: 4 if k.endswith('.cols') else None, lo=0, hi=4))


# --------------------------------------------------------------------------- C17
GB, PS = 'ceres::Problem::GetParameterBlocks', 'ceres::Problem::ParameterBlockSize'


def c17(c):
    c.explain = ('addSubsetParameterization is summarised as the calls it makes on the problem, each under its path condition, as terms '
                 'over the blocks of the problem, their sizes and the mask map. Under pseudo-random blocks and masks (duplicates, '
                 'negative and too large indices, unmasked blocks) the calls and the exception must be the specified ones. Comparisons '
                 'of signed values converted to unsigned follow the wrap-around semantics of the language.')
    c.minimum = 2
    IT.Interp.wrap_cmp = True
    try:
        db = C.dbm.get('tu:lp.cpp')
        fn = H.analyse(c, 'mask', db, NS + 'addSubsetParameterization', names=['problem', 'masks'])
        if fn is not None:
            with c.guard('mask', fn.where):
                subset(c, fn)
        plus(c, db)
    finally:
        IT.Interp.wrap_cmp = False


def mask_spec(mode):
    def sizes(V, k):
        if GB in k:
            return int(V.h('blocks') * 4)
        if k == 'masks':
            return int(V.h('nmasks') * 3)
        if re.fullmatch(r'masks\[.*\]', k):
            return int(V.h('len|' + k) * 6)
        return None

    def values(V, k):
        m = re.fullmatch(r'(masks\[.*\])\[(\d+)\]', k)
        if m:
            n = 4
            if mode == 3:       # all blocks have one size and the masks fit
                return int(V.h(k) * (1 + int(V.h('blocksize') * 4)))
            return int(V.h(k) * n) if mode == 0 else int(V.h(k) * (n + 4)) - 2 if mode == 1 else -1 - int(V.h(k) * 3)
        if PS in k:
            return 1 + int(V.h('blocksize' if mode == 3 else k) * 4)
        return None
    return R.Spec(sizes=sizes, values=values, has=lambda V, o, k: V.h('has|%s|%s' % (getattr(o, 'key', o), k)) < 0.75)


def subset(c, fn):
    pb = mk('in', 'problem')
    lists = [e for e in fn.events if e.name == 'ucall' and e.fnname == GB]
    if len(lists) != 1:
        raise IT.Unsupported('the blocks of the problem are not listed by one GetParameterBlocks call')
    sizes = {e.result.op for e in fn.events if e.name == 'ucall' and e.fnname == PS}
    bt = next((e.block for e in fn.evs('setconstant', 'setmanifold')), None)
    if bt is None:
        c.bad('mask', fn.where, 'no block is ever held constant')
        return
    lt = bt.args[0] if bt.op == 'sel' else None
    if lt is None or GB not in str(lt)[:60]:
        raise IT.Unsupported('the masked block is not an element of the block list')
    pt = next(e for e in fn.events if e.name == 'ucall' and e.fnname == PS) if sizes else None
    bad, n, why, kinds = None, 0, None, set()
    total = 60 if c.tier == 'quick' else 600
    for mode in (0, 1, 2, 3):
        sp = mask_spec(mode)
        for s in range(total):
            def one():
                V = R.Valuation('s%d' % s, sp)
                A = H.Args(V, fn)
                th = H.thrown(V, fn.throws)
                V.memo = {}
                blocks = V.seq(V.eval(lt))
                m = A.root('masks')
                nm = V.size(m)
                want, err = [], False
                for i, b in enumerate(blocks):
                    V.memo = {}
                    if nm == 0 or not V.spec.has(V, m, b):
                        continue
                    mask = [V.int(x) for x in V.seq(V.sel(m, b))]
                    size = V.int(V.eval(X.subst(pt.result, {bt: X.sel(lt, num(i))})))
                    if not mask:
                        continue
                    if any(x < 0 or x >= size for x in mask):
                        err = True
                        kinds.add('rejected')
                        break
                    ks = sorted(set(mask))
                    kinds.add('constant' if len(ks) == size else 'overlong' if len(mask) >= size else 'duplicates' if len(ks) < len(mask) else 'subset')
                    want.append((i, 'all') if len(ks) == size else (i, size, tuple(ks)))
                if err:
                    return (th == ['OptimizationException'] or bool(th) and set(th) == {'OptimizationException'},
                            'an index outside its block must be rejected with OptimizationException', dict(thrown=th))
                if th:
                    return False, 'a valid mask is rejected', dict(thrown=th)
                got = []
                for e in fn.evs('setconstant', 'setmanifold', 'setvariable'):
                    for asg in S.if_instances(V, e):
                        V.memo = {}
                        k = V.canon(V.eval(e.block))
                        i = [j for j, b in enumerate(blocks) if V.canon(b) == k]
                        if len(i) != 1:
                            return False, 'a block that is not in the problem is changed', dict(block=k)
                        if e.name == 'setconstant':
                            got.append((i[0], 'all'))
                        elif e.name == 'setvariable':
                            got.append((i[0], 'variable'))
                        else:
                            v = e.value
                            if v is None or v.op != 'lib' or len(v.args) != 3:
                                raise R.NoEval('parameterisation not known')
                            V.memo = {}
                            ks = [V.int(x) for x in V.seq(V.eval(v.args[2]))]
                            sz = V.int(V.eval(v.args[1]))
                            if len(set(ks)) != len(ks):
                                return False, 'duplicate indices are passed to ceres', dict(indices=ks)
                            got.append((i[0], 'all') if len(ks) == sz else (i[0], sz, tuple(sorted(ks))))
                return sorted(map(str, got)) == sorted(map(str, want)), 'exactly the listed indices are held constant', dict(got=got, want=want)
            try:
                ok, text, wit = R.with_restart(one)
            except C.INTERNAL as e:
                why = str(e)
                if C.os.environ.get('RCT_DEBUG'):
                    C.traceback.print_exc()
                continue
            n += 1
            if not ok:
                bad = bad or (text, dict(valuation=(mode, s), **wit))
    if bad:
        c.bad('mask', fn.where, *bad)
    elif n >= total and {'rejected', 'constant', 'duplicates', 'overlong', 'subset'} <= kinds:
        c.ok('mask', fn.where, 'listed indices constant, others free, full masks constant, bad indices rejected [%d valuations]' % n)
    else:
        c.unres('mask', fn.where, why or 'cases not reached: %s' % sorted(kinds))


def unit(V, k):
    if k.startswith('*delta['):
        return 0.0 if V.h('zero') < 0.3 else None
    m = re.fullmatch(r'\*x\[([0-3])\]', k)
    if m:
        q = [V.h('x|%d' % i) - 0.5 for i in range(4)]
        return q[int(m.group(1))] / math.sqrt(sum(x * x for x in q))
    return None


def plus(c, db):
    """the quaternion update: identity for a zero step, unit norm, left product with the rotation by twice the step"""
    for f in H.find(db, NS + 'EigenQuaternionPlus::operator()'):
        if 'Jet' in f['f']:
            continue
        with c.guard('plus', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['x', 'delta', 'out'])

            def want(V, A):
                x, d = [[V.num(V.sel(A.root('*' + n), i)) for i in range(k)] for n, k in (('x', 4), ('delta', 3))]
                n = math.sqrt(sum(q * q for q in d))
                k = math.sin(n) / n if n else 1.0
                a, b = [k * q for q in d] + [math.cos(n)], x
                v = [a[3] * b[i] + b[3] * a[i] + a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3] for i in range(3)]
                return v + [a[3] * b[3] - sum(a[i] * b[i] for i in range(3))]
            H.agree(c, 'plus', fn.where, 'x_plus_delta = exp(delta) * x, x for a zero step', fn, fn.out('*out'), want,
                    same=lambda V, v, w: any(all(abs(g * V.num(V.sel(v, i)) - w[i]) < 1e-9 for i in range(4)) for g in (1, -1)),
                    spec=R.Spec(values=unit))
