"""C18-C22: likelihood prior and the validation routines."""
import hashlib
from . import common as C
from . import harness as H
from . import solvers as S
from .common import R, X, IT, Broken

mk, num = X.mk, X.num
NS = 'rct_optimizations::'


# --------------------------------------------------------------------------- C18
def c18(c):
    c.explain = ('The residual of the likelihood prior is turned into a term over the parameter block and the two tables and '
                 'compared, entry by entry in the storage order shared by block and tables, with (parameter - mean) / deviation '
                 'for tables of every small shape. The constructor must throw for tables of different size.')
    c.minimum = 2
    db = C.dbm.get('tu:core.cpp')
    for f in H.find(db, NS + 'MaximumLikelihood::operator()'):
        with c.guard('residual', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['parameter', 'residual'])
            pb = [t for t in X.subterms(fn.out('*residual')) if t.op == 'deref']
            if not pb and fn.out('*residual') is fn.roots.get('*residual'):
                c.bad('residual', fn.where, 'the residuals are never written')
                continue
            if not pb:
                raise IT.Unsupported('parameter block is not read')

            def want(V, A):
                n, m = A.n2('this', 'mean')
                p = V.eval(mk('deref', mk('arrp', X.sel(fn.roots['*parameter'], num(0)))))
                out = []
                for k in range(n * m):
                    i, j = k % n, k // n
                    out.append((V.num(V.sel(p, k)) - V.num(A.f('this', 'mean', (i, j)))) / V.num(A.f('this', 'stdev', (i, j))))
                return out

            def same(V, x, w):
                return all(V.same(V.num(V.sel(x, k)), q) for k, q in enumerate(w)) and \
                    all(k < len(w) for k in written(x))
            al = {'this.stdev.rows': 'r', 'this.mean.rows': 'r', 'this.stdev.cols': 'c', 'this.mean.cols': 'c'}
            H.agree(c, 'residual', fn.where, 'residual k is (parameter k - mean k) / deviation k', fn, fn.out('*residual'), want,
                    same=same, spec=R.Spec(alias=lambda k: al.get(k, k), lo=1, hi=4), n=30, leaves=('arrp', 'deref'))
            H.agree(c, 'residual.valid', fn.where, 'evaluation succeeds', fn, fn.value, lambda V, A: True, n=4,
                    spec=R.Spec(alias=lambda k: al.get(k, k), lo=1, hi=4))
    for f in H.find(db, NS + 'MaximumLikelihood::MaximumLikelihood', nparams=2):
        with c.guard('constructor', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['mean', 'stdev'])

            def want(V, A):
                if A.n('mean') != A.n('stdev'):
                    return H.Throw('OptimizationException')
                if A.n2('mean') != A.n2('stdev'):
                    raise H.Skip()
                return [A.f('mean'), A.f('stdev')]

            def same(V, x, w):
                return all(V.same(V.fld(x, k), v) for k, v in zip(('mean', 'stdev'), w))
            H.agree(c, 'constructor', fn.where, 'tables of different size are rejected, others stored as given', fn,
                    fn.value, want, same=same, spec=R.Spec(lo=1, hi=3), n=40)


def written(x):
    return [k for k in x.ups if isinstance(k, int)] if isinstance(x, R.Over) else []


# --------------------------------------------------------------------------- C19
def perm(V, key, n, k):
    """k distinct indices below n, drawn from the valuation"""
    return sorted(range(n), key=lambda i: V.h('%s|%d' % (key, i)))[:k]


def homography(V):
    h = [V.h('H%d' % i) for i in range(8)]
    return [[0.7 + h[0], 0.4 * h[1] - 0.2, h[2]], [0.4 * h[3] - 0.2, 0.7 + h[4], h[5]], [0.1 * h[6], 0.1 * h[7], 1.0]]


def hmap(Hm, p):
    w = Hm[2][0] * p[0] + Hm[2][1] * p[1] + 1.0
    return [(Hm[i][0] * p[0] + Hm[i][1] * p[1] + Hm[i][2]) / w for i in range(2)]


def c19(c):
    c.explain = ('calculateHomographyError is turned into a term over the correspondences and the indices the selector returns. '
                 'Valuations place the selected correspondences on a random homography and the others anywhere: every entry '
                 'must then be the distance of that correspondence from the homography, whatever linear solver is used. '
                 'The selectors are compared with their definition for all grid sizes, strides and counts sampled.')
    c.minimum = 5
    db = C.dbm.get('opt')
    for f in H.find(db, NS + 'calculateHomographyError'):
        three = 'Correspondence<3, 3>' in f['p'][0]['t']
        rule = 'error.3d' if three else 'error.2d'
        with c.guard(rule, C.fwhere(f)):
            cn = 'corr3' if three else 'corr2'
            fn = H.Fn(c, db, f, names=[cn, 'sampler' + cn[-1]])
            idx = [t for t in X.subterms(fn.value) if t.op == 'ucall' and 'getSampleCorrespondenceIndices' in str(t.args[0])]
            if not idx:
                c.bad(rule, fn.where, 'the indices of the given selector are not used')
                continue
            ik = idx[0]

            def sizes(V, k, cn=cn):
                ns = V.spec.integer(V, 'ns', 4, 3)
                if 'getSampleCorrespondenceIndices' in k and not k.endswith(']'):
                    return ns
                if k == cn:
                    return 2 * ns + int(V.h('nc') * 4) - 1
                return None

            def vals(V, k, cn=cn, three=three):
                nc = sizes(V, cn)
                if 'getSampleCorrespondenceIndices' in k and k.endswith(']'):
                    return perm(V, 'perm', nc, 8)[int(k[k.rindex('[') + 1:-1])]
                if k.startswith(cn + '[') and '.in_image[' in k:
                    i = int(k[6:k.index(']')])
                    d = int(k[k.rindex('[') + 1:-1])
                    z = 0.5 + 2 * V.h('z%d' % i) if three else 1.0
                    if d == 2:
                        return z
                    if i in perm(V, 'perm', nc, sizes(V, 'x.getSampleCorrespondenceIndices')):
                        t = [V.num(R.Obj('%s[%d].in_target[%d]' % (cn, i, e), 'double')) for e in (0, 1)]
                        return z * hmap(homography(V), t)[d]
                return None

            def want(V, A, cn=cn, three=three, ik=ik):
                ns, nc = V.size(V.eval(ik)), A.n(cn)
                if nc < 2 * ns:
                    return H.Throw('runtime_error')
                out = []
                for i in range(nc):
                    p = A.vec(3, cn, i, 'in_target')
                    q = A.vec(3 if three else 2, cn, i, 'in_image')
                    m = hmap(homography(V), p)
                    z = q[2] if three else 1.0
                    out.append(((q[0] - z * m[0]) ** 2 + (q[1] - z * m[1]) ** 2) ** 0.5)
                return out

            def same(V, x, w):
                return V.size(x) == len(w) and all(abs(V.num(V.sel(x, i)) - q) < 1e-6 + 1e-6 * abs(q) for i, q in enumerate(w))
            H.agree(c, rule, fn.where, 'entry i is the distance of correspondence i from the homography of the selected samples',
                    fn, fn.value, want, same=same, n=24, leaves=('getSampleCorrespondenceIndices',),
                    spec=R.Spec(values=vals, sizes=sizes))
    for f in H.find(db, NS + 'GridCorrespondenceSampler::getSampleCorrespondenceIndices'):
        with c.guard('grid', C.fwhere(f)):
            fn = H.Fn(c, db, f)

            def want(V, A):
                r, k, s = [V.int(A.f('this', x)) for x in ('rows', 'cols', 'stride')]
                if r * k // 2 < 4:
                    return H.Throw('runtime_error')
                return [0, (k - 1) * s, (r - 1) * k * s, (r * k - 1) * s]
            rng = {'this.rows': (1, 7), 'this.cols': (1, 7), 'this.stride': (1, 4)}
            H.agree(c, 'grid', fn.where, 'the four corners of the grid, first element of the stride', fn, fn.value, want, n=60,
                    same=lambda V, x, w: [V.int(i) for i in V.seq(x)] == w, strict=True,
                    spec=R.Spec(values=lambda V, k: V.spec.integer(V, k, *rng[k]) if k in rng else None))
    for f in H.find(db, NS + 'GridCorrespondenceSampler::GridCorrespondenceSampler', nparams=3):
        with c.guard('grid.constructor', C.fwhere(f)):
            stored(c, H.Fn(c, db, f, names=['rows', 'cols', 'stride']), 'grid.constructor', ('rows', 'cols', 'stride'))
    for f in H.find(db, NS + 'RandomCorrespondenceSampler::RandomCorrespondenceSampler', nparams=3):
        with c.guard('random.constructor', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['n_correspondences', 'n_samples', 'seed'])

            def rej(V):
                n, m = V.int(V.eval(fn.roots['n_correspondences'])), V.int(V.eval(fn.roots['n_samples']))
                return m < 4 or m > n
            stored(c, fn, 'random.constructor', ('n_correspondences', 'n_samples', 'seed'), rej)
    for f in H.find(db, NS + 'RandomCorrespondenceSampler::getSampleCorrespondenceIndices'):
        with c.guard('random', C.fwhere(f)):
            fn = H.Fn(c, db, f)
            rng = {'this.n_samples': lambda V: V.spec.integer(V, 'k', 4, 5), 'this.n_correspondences': lambda V: V.spec.integer(V, 'm', 9, 9)}
            for u in (0.0, 0.5, 1.0):
                def want(V, A):
                    return None

                def same(V, x, w):
                    n, m = rng['this.n_samples'](V), rng['this.n_correspondences'](V)
                    s = [V.num(i) for i in V.seq(x)]
                    return len(s) == n and all(i == int(i) and 0 <= i < m for i in s)
                H.agree(c, 'random', fn.where, 'the requested number of indices, all inside the set (draw %g)' % u, fn, fn.value,
                        want, same=same, n=12, strict=True,
                        spec=R.Spec(values=lambda V, k: u if k.startswith('uniform(') else rng[k](V) if k in rng else None))
            if fn.evs('random'):
                for e in fn.evs('random'):
                    ops = {x.op for x in X.subterms(e.gen)}
                    if 'static' in ops or (e.genptr is not None and any('static:' in str(x.args) for x in X.subterms(e.genptr) if x.op == 'ptr')):
                        c.bad('random.seed', fn.where, 'the engine has static storage: selections depend on earlier calls')
                    elif ops & {'entropy', 'raw'}:
                        c.bad('random.seed', fn.where, 'the engine is not seeded with the seed of the selector')
                    elif X.fld(mk('in', 'this'), 'seed') in list(X.subterms(e.gen)):
                        c.ok('random.seed', fn.where, 'the engine is seeded with the seed of the selector')
                    elif not any(x.op in ('in', 'ucall', 'unknown') for x in X.subterms(e.gen)):
                        c.bad('random.seed', fn.where, 'the engine is not seeded with the seed of the selector: ' + X.show(e.gen)[:100])
                    else:
                        c.unres('random.seed', fn.where, X.show(e.gen)[:200])


def stored(c, fn, rule, names, rejected=None):
    def want(V, A):
        if rejected and rejected(V):
            return H.Throw('runtime_error')
        return [V.int(A.f(n)) for n in names]

    def same(V, x, w):
        return [V.int(V.fld(x, n)) for n in names] == w
    H.agree(c, rule, fn.where, 'arguments are stored in the members of the same name' +
            (', impossible requests are rejected' if rejected else ''), fn, fn.value, want, same=same, n=60, strict=True,
            spec=R.Spec(values=lambda V, k: int(V.h(k) * 12) if k in names else None))


# --------------------------------------------------------------------------- C20
def intersect(o, n, p, d):
    dp = sum(a * b for a, b in zip(d, n))
    s = sum((a - b) * e for a, b, e in zip(p, o, n)) / dp
    return [a + s * b for a, b in zip(o, d)]


def proj3d(A, V, o, base):
    """expected error per correspondence of one observation"""
    T = R.Iso
    ctt = compose(S.inv(A.iso('cm')), S.inv(A.iso(*base, 'to_camera_mount')), A.iso(*base, 'to_target_mount'), A.iso('tm'))
    k = A.intr('intr')
    out = []
    nrm = [r[2] for r in ctt.R]
    for i in range(A.n(*base, 'correspondence_set')):
        u = A.vec(2, *base, 'correspondence_set', i, 'in_image')
        t = A.vec(3, *base, 'correspondence_set', i, 'in_target')
        d = [(u[0] - k[2]) / k[0], (u[1] - k[3]) / k[1], 1.0]
        L = sum(a * a for a in d) ** 0.5
        if abs(sum(a * b for a, b in zip(d, nrm))) / L < 1e-4:
            raise H.Skip()
        q = S.ap(S.inv(ctt), intersect([0, 0, 0], nrm, ctt.t, d))
        out.append(sum((a - b) ** 2 for a, b in zip(t, q)) ** 0.5)
    return out


def compose(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = R.Iso(R.mm(r.R, t.R), S.ap(r, t.t))
    return r


def c20(c):
    c.explain = ('Both compute3DProjectionError overloads are turned into terms and compared with an independent ray/plane '
                 'construction for every correspondence, in order; computeLinePlaneIntersection is compared for general and '
                 'parallel lines, the latter having to be rejected.')
    c.minimum = 3
    db = C.dbm.get('opt')
    for f in H.find(db, NS + 'computeLinePlaneIntersection'):
        with c.guard('intersection', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['n', 'p', 'd', 'o', 'eps'])

            def vals(V, k):
                if k == 'eps':
                    return 1e-6
                if V.h('mode') < 0.4:
                    v = {'n[0]': 0.0, 'n[1]': 0.0, 'd[2]': (0.0, 1e-9, -1e-9, 1e-3, -1e-3)[int(V.h('par') * 5)]}
                    if k in v:
                        return v[k]
                return None

            def want(V, A):
                n, p, d, o = [A.vec(3, k) for k in 'npdo']
                dp = sum(a * b for a, b in zip(n, d))
                if abs(dp) < 0.9e-6:
                    return H.Throw()
                if abs(dp) < 1e-4:
                    raise H.Skip()
                return intersect(o, n, p, d)
            H.agree(c, 'intersection', fn.where, 'point of the line on the plane; parallel lines are rejected', fn, fn.value, want,
                    spec=R.Spec(values=vals), n=60, tol=1e-5, strict=True)
    for f in H.find(db, NS + 'compute3DProjectionError'):
        many = 'vector' in f['p'][0]['t']
        rule = 'error.set' if many else 'error.single'
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['obs', 'intr', 'cm', 'tm'])

            def want(V, A):
                if not many:
                    return proj3d(A, V, None, ('obs',))
                return sum([proj3d(A, V, i, ('obs', i)) for i in range(A.n('obs'))], [])

            def same(V, x, w):
                if len(w) == 0 and isinstance(x, R.Obj):
                    return True
                return V.size(x) == len(w) and all(V.same(V.num(V.sel(x, i)), q) for i, q in enumerate(w))
            H.agree(c, rule, fn.where, 'one distance per correspondence, in order', fn, fn.value, want, same=same,
                    spec=R.Spec(lo=0, hi=3, values=lambda V, k: 0.3 + V.h(k) if k in ('intr.values[0]', 'intr.values[1]') else None), n=16)
            thr = [t for _, t, _ in fn.throws]
            if any('runtime_error' in str(t) for t in thr):
                c.ok(rule + '.parallel', fn.where, 'rays parallel to the plane raise an exception')
            else:
                c.bad(rule + '.parallel', fn.where, 'no exception for rays parallel to the target plane')


# --------------------------------------------------------------------------- C21, C22
def pnp_call(I, e):
    return mk('pnp', I.ev(e['a'][0]), num(0 if 'PnPProblem3D' in e['f'] else 1))


def pnp_of(self, v, two):
    """result of a PnP solve: an arbitrary function of the problem's contents"""
    g = lambda *a: descend(self, v, a)
    rnd = lambda *xs: tuple(round(x, 6) + 0.0 for x in xs)
    key = []
    if two:
        i = g('intr', 'values')
        key.append(rnd(*[self.num(self.sel(i, k)) for k in range(4)]))
    else:
        key.append('3d')
    for q in self.seq(g('correspondences')):
        a, b = self.fld(q, 'in_image'), self.fld(q, 'in_target')
        key.append(rnd(*[self.num(self.sel(a, k)) for k in range(2 if key[0] != '3d' else 3)] +
                       [self.num(self.sel(b, k)) for k in range(3)]))
    T = self.iso(g('camera_to_target_guess'))
    key.append(rnd(*[x for r in T.R for x in r] + list(T.t)))
    return R.Obj('pnp#' + hashlib.sha1(repr(key).encode()).hexdigest()[:16], NS + 'PnPResult')


def descend(V, v, path):
    for s in path:
        v = V.fld(v, s) if isinstance(s, str) else V.sel(v, s)
    return v


R.Valuation.o_pnp = lambda self, t, p, two: pnp_of(self, self.eval(p), X.intval(two) == 1)
PNP = {NS + 'optimize': pnp_call}


def pnp_spec(k, V):
    if k.startswith('pnp#'):
        if k.endswith('.converged'):
            return V.h(k) < 0.85
        if k.endswith('.final_cost_per_obs'):
            r = V.spec.near_value(V, k, False) if V.spec.near is not None else None
            return V.h(k) * 2 if r is None else abs(r)
    return None


def solve(V, intr, corr, guess):
    pr = dict(correspondences=corr, camera_to_target_guess=guess)
    if intr is not None:
        pr['intr'] = intr
    return pnp_of(V, R.Struct(None, pr), intr is not None)


def halves(V, A, intr, corr, guess, thr):
    n = V.size(corr)
    out = []
    for a, b in ((0, n // 2), (n // 2, n)):
        r = solve(V, intr, [V.sel(corr, i) for i in range(a, b)], guess)
        if not V.bool(V.fld(r, 'converged')) or V.num(V.fld(r, 'final_cost_per_obs')) > thr:
            raise Reject()
        out.append(V.iso(V.fld(r, 'camera_to_target')))
    T = compose(S.inv(out[0]), out[1])
    return sum(x * x for x in T.t) ** 0.5, sum(x * x for x in R.logR(T.R)) ** 0.5, T


class Reject(Exception):
    pass


def mean(x):
    return sum(x) / len(x)


def pstd(x):
    m = mean(x)
    return mean([(a - m) ** 2 for a in x]) ** 0.5


def close(V, x, w, tol=1e-6):
    return abs(V.num(x) - w) <= tol * (1 + abs(w))


def c22(c):
    c.explain = ('Both routines are turned into terms in which a PnP solve is an arbitrary function of the contents of its '
                 'problem (intrinsics, correspondences, guess). The terms are compared with the definition: the two halves '
                 'of a view solved with the same intrinsics and guess, their relative pose, and mean and standard deviation '
                 'over all views.')
    c.minimum = 2
    db = C.dbm.get('opt')
    for f in H.find(db, NS + 'measureVirtualTargetDiff'):
        with c.guard('views', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['vt_corr', 'intr', 'guess', 'thr'], intercept=PNP)

            def want(V, A):
                try:
                    return halves(V, A, A.f('intr'), A.f('vt_corr'), A.f('guess'), V.num(A.f('thr')))
                except Reject:
                    return H.Throw('runtime_error')

            def same(V, x, w):
                return close(V, V.fld(x, 'positional_error'), w[0]) and close(V, V.fld(x, 'angular_error'), w[1]) and \
                    V.same(V.iso(V.fld(x, 't1_to_t2')), w[2])
            spec = R.Spec(lo=2, hi=7, values=lambda V, k: 1.6 if k == 'thr' else pnp_spec(k, V))
            H.agree(c, 'views', fn.where, 'relative pose of the two halves; unsolved halves are rejected', fn, fn.value, want,
                    same=same, n=40, spec=spec, strict=True)
    for f in H.find(db, NS + 'measureIntrinsicCalibrationAccuracy'):
        with c.guard('accuracy', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['acc_obs', 'intr', 'cm', 'tm', 'base', 'thr'], intercept=PNP)

            def mkwant(eq):
                def want(V, A):
                    n = A.n('acc_obs')
                    if len({A.n('acc_obs', i, 'correspondence_set') for i in range(n)}) > 1:
                        return H.Throw('OptimizationException')
                    if not n:
                        raise H.Skip()
                    P, G = [], []
                    try:
                        for i in range(n):
                            g = compose(S.inv(A.iso('cm')), S.inv(A.iso('acc_obs', i, 'to_camera_mount')), A.iso('base'),
                                        A.iso('acc_obs', i, 'to_target_mount'), A.iso('tm'))
                            p, a, _ = halves(V, A, A.f('intr'), A.f('acc_obs', i, 'correspondence_set'), g, V.num(A.f('thr')))
                            P.append(p)
                            G.append(a)
                    except Reject:
                        return H.Throw('runtime_error')
                    return mean(P), pstd(P), mean(G), pstd(G)
                return want

            def same(V, x, w):
                p, a = V.fld(x, 'pos_error'), V.fld(x, 'ang_error')
                return all(close(V, V.fld(y, k), q) for (y, k), q in
                           zip(((p, 'first'), (p, 'second'), (a, 'first'), (a, 'second')), w))
            for eq in (True, False):
                def sizes(V, k, eq=eq):
                    if k.endswith('.correspondence_set'):
                        return V.spec.integer(V, 'n' if eq else k, 2, 4)
                    return None
                H.agree(c, 'accuracy' if eq else 'accuracy.sizes', fn.where,
                        'mean and standard deviation over all views' if eq else 'views of different size are rejected',
                        fn, fn.value, mkwant(eq), same=same, n=24, strict=True,
                        spec=R.Spec(lo=1, hi=4, sizes=sizes, values=lambda V, k: 1.9 if k == 'thr' else
                                    V.h(k) < 0.98 if k.endswith('.converged') else pnp_spec(k, V)))
            H.no_wrap(c, 'accuracy.empty', fn, 'the loops of measureIntrinsicCalibrationAccuracy')


def c21(c):
    c.explain = ('qualifyNoise2D/3D and the quaternion statistics are turned into terms in which a PnP solve is an arbitrary '
                 'function of its problem and compared with the definition of the statistics over the converged solutions. '
                 'The mean orientation is compared as a rotation with the maximiser of sum (q.q_i)^2.')
    c.minimum = 3
    db = C.dbm.get('opt')

    for f in H.find(db, NS + 'computeQuaternionMean') + H.find(db, NS + 'computeQuaternionStats'):
        st = f['n'].endswith('Stats')
        rule = 'orientation.' + ('stats' if st else 'mean')
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['quats'])

            def want(V, A):
                Q = [V.iso(A.f('quats', i)).R for i in range(A.n('quats'))]
                return rstats(Q)

            def same(V, x, w):
                m = V.iso(V.fld(x, 'mean') if st else x).R
                return samerot(m, w[0]) and (not st or close(V, V.fld(x, 'stdev'), w[1]))
            H.agree(c, rule, fn.where, 'principal orientation' + (' and spread around it' if st else ''), fn, fn.value, want,
                    same=same, n=24, spec=R.Spec(lo=2, hi=5))
    for nm in ('qualifyNoise2D', 'qualifyNoise3D'):
        for f in H.find(db, NS + nm):
            with c.guard(nm, C.fwhere(f)):
                root = 'set' + nm[-2:]
                fn = H.Fn(c, db, f, names=[root], intercept=PNP)

                def want(V, A, root=root, two='2D' in nm):
                    rs = []
                    for i in range(A.n(root)):
                        p = A.f(root, i)
                        r = solve(V, V.fld(p, 'intr') if two else None, V.seq(V.fld(p, 'correspondences')),
                                  V.fld(p, 'camera_to_target_guess'))
                        if V.bool(V.fld(r, 'converged')):
                            rs.append(V.iso(V.fld(r, 'camera_to_target')))
                    if len(rs) < 2:
                        raise H.Skip()
                    m, s = rstats([r.R for r in rs])
                    P = [[r.t[k] for r in rs] for k in range(3)]
                    return [mean(p) for p in P], [pstd(p) for p in P], m, s

                def same(V, x, w):
                    p, q = V.fld(x, 'p_stat'), V.fld(x, 'q_stat')
                    return all(close(V, V.sel(V.fld(p, 'mean'), k), w[0][k]) and
                               close(V, V.sel(V.fld(p, 'stdev'), k), w[1][k]) for k in range(3)) and \
                        samerot(V.iso(V.fld(q, 'mean')).R, w[2]) and close(V, V.fld(q, 'stdev'), w[3])
                H.agree(c, nm, fn.where, 'statistics of the converged solutions', fn, fn.value, want, same=same, n=16,
                        spec=R.Spec(lo=2, hi=5, values=lambda V, k: pnp_spec(k, V)))


def samerot(a, b, tol=1e-6):
    return all(abs(x - y) < tol for p, q in zip(a, b) for x, y in zip(p, q))


def rstats(Rs):
    """principal orientation of rotation matrices and sample spread around it; Skip when it is not well determined"""
    q = [R.quatR(r) for r in Rs]
    M = [[sum(x[i] * x[j] for x in q) for j in range(4)] for i in range(4)]
    w, U = R.jacobi(M)
    o = sorted(range(4), key=lambda i: -w[i])
    if w[o[0]] - w[o[1]] < 0.05 * w[o[0]]:
        raise H.Skip()
    v = [U[i][o[0]] for i in range(4)]
    Rm = R.Rquat(v)
    d = [sum(x * x for x in R.logR(R.mm(R.tr(Rm), r))) for r in Rs]
    return Rm, (sum(d) / (len(Rs) - 1)) ** 0.5 if len(Rs) > 1 else 0.0
