"""C23-C26: target models, correspondences, finders, circle detection."""
import math
import re
from engine import models as MD
from . import common as C
from . import harness as H
from .common import R, X, IT, Broken

mk, num = X.mk, X.num
T = 'rct_image_tools::'


# --------------------------------------------------------------------------- C23
def feature_spec(name, single, known, extra=None):
    """valuations of a feature map parameter `name`: distinct small ids in ascending order; known(V) is the set of ids of
    the target (None: every id below the given grid size)"""
    def ids(V):
        n = int(V.h('nf') * 5)
        return sorted(sorted(range(9), key=lambda k: V.h('id%d' % k))[:n])

    def value(V, k):
        if k.startswith(name + '.key'):
            i = int(k[len(name) + 4:])
            s = ids(V)
            return s[i] if i < len(s) else None
        return extra(V, k) if extra else None

    def size(V, k):
        if k == name:
            return len(ids(V))
        if k.startswith(name + '['):
            return 1 if single else 1 + int(V.h('nc' + k) * 4)
        if k.startswith('this.points['):
            return 4
        if k == 'this.points':
            return len(known(V))
        return None

    def has(V, m, k):
        k = int(V.num(k))
        if m == name:
            return k in ids(V)
        if m == 'this.points':
            return k in known(V)
        return None
    return R.Spec(values=value, sizes=size, has=has), ids


def pairs_same(V, x, w):
    """multisets of (image point, target point)"""
    got = [(V.vec(V.fld(e, 'in_image'), 2), V.vec(V.fld(e, 'in_target'), 3)) for e in V.seq(x)]
    left = list(w)
    for g in got:
        for q in left:
            if all(abs(a - b) < 1e-7 for a, b in zip(g[0] + g[1], q[0] + q[1])):
                left.remove(q)
                break
        else:
            return False
    return not left


def c23(c):
    c.explain = ('The list returned by createCorrespondences of each target model is analysed as a term over the feature map and '
                 'the target description, and compared, as a multiset of (image point, target point) pairs, with the list '
                 'that pairs point j of feature id with corner j of the same id, for random id sets including unknown ids.')
    c.minimum = 2
    db = C.dbm.get('img')

    def known(V):
        return [k for k in range(9) if V.h('kn%d' % k) < 0.75]

    for cls, name, single in (('ArucoGridTarget', 'atf', False), ('CharucoGridTarget', 'ctf', True)):
        rule = cls + '.createCorrespondences'
        for f in H.find(db, T + rule.replace('.', '::')):
            with c.guard(rule, C.fwhere(f)):
                fn = H.Fn(c, db, f, names=[name])
                sp, ids = feature_spec(name, single, known)

                def want(V, A, missing):
                    out, unk = [], False
                    for k in ids(V):
                        if k not in known(V):
                            unk = True
                            continue
                        for j in range(A.n(name, k)):
                            t = A.f('this', 'points', k) if single else A.f('this', 'points', k, j)
                            out.append((V.vec(A.f(name, k, j), 2), V.vec(t, 3)))
                    if unk != missing:
                        raise H.Skip()
                    return H.OrThrow(out) if unk else out
                for missing in (False, True):
                    H.agree(c, rule + ('.unknown' if missing else ''), fn.where,
                            'an unknown feature id never yields a correspondence (exception or omitted)' if missing else
                            'point j of feature id is paired with corner j of the same id, for every feature', fn, fn.value,
                            lambda V, A, missing=missing: want(V, A, missing), spec=sp, same=pairs_same, n=40)
    for f in H.find(db, T + 'ModifiedCircleGridTarget::createCorrespondences'):
        rule = 'ModifiedCircleGridTarget.createCorrespondences'
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['mtf'])
            sp, ids = grid_spec('mtf')
            for complete in (True, False):
                def want(V, A):
                    r, q, s = V.int(A.f('this', 'rows')), V.int(A.f('this', 'cols')), A.num('this', 'spacing')
                    out = [(V.vec(A.f('mtf', k, 0), 2), grid_point(r, q, s, k)) for k in ids(V) if k < r * q]
                    if (len(out) == r * q and len(ids(V)) == r * q) != complete:
                        raise H.Skip()
                    return out if complete else H.OrThrow(out)
                H.agree(c, rule + ('' if complete else '.incomplete'), fn.where,
                        'feature k is paired with the target point of grid cell k' if complete else
                        'an incomplete feature set never yields a mismatched correspondence', fn, fn.value, want, spec=sp,
                        same=pairs_same, n=30)


def grid_spec(name):
    def dims(V):
        return 1 + int(V.h('gr') * 4), 1 + int(V.h('gc') * 4)

    def ids(V):
        r, q = dims(V)
        if V.h('cut') < 0.5:
            return list(range(r * q))
        return [k for k in range(r * q) if V.h('cut%d' % k) < 0.7]

    def value(V, k):
        if k == 'this.rows':
            return dims(V)[0]
        if k == 'this.cols':
            return dims(V)[1]
        if k.startswith(name + '.key'):
            i = int(k[len(name) + 4:])
            return ids(V)[i] if i < len(ids(V)) else None
        return None

    def size(V, k):
        if k == name:
            return len(ids(V))
        if k.startswith(name + '['):
            return 1
        return None

    return R.Spec(values=value, sizes=size, has=lambda V, m, k: int(V.num(k)) in ids(V) if m == name else None), ids


def grid_point(rows, cols, s, k):
    """the largest circle (origin) is in the bottom left corner; points are listed left to right, top row first"""
    return [(k % cols) * s, (rows - 1 - k // cols) * s, 0.0]


# --------------------------------------------------------------------------- C24
def c24(c):
    c.explain = ('The point tables of the three target models are analysed as terms over the constructor arguments (or the '
                 'board object supplied by OpenCV) and compared entry by entry with the documented layout; the arguments '
                 'handed to the OpenCV board factories are compared with the constructor parameters of the same meaning.')
    c.minimum = 4
    db = C.dbm.get('img')
    f = H.one(db, T + 'ModifiedCircleGridTarget::createPoints')
    with c.guard('ModifiedCircleGridTarget.createPoints', C.fwhere(f)):
        fn = H.Fn(c, db, f)
        sp = R.Spec(values=lambda V, k: 1 + int(V.h(k) * 5) if k in ('this.rows', 'this.cols') else None)

        def want(V, A):
            r, q = V.int(A.f('this', 'rows')), V.int(A.f('this', 'cols'))
            return [grid_point(r, q, A.num('this', 'spacing'), k) for k in range(r * q)]
        H.agree(c, 'ModifiedCircleGridTarget.createPoints', fn.where,
                'point k is at (column*spacing, (rows-1-row)*spacing, 0), row-major from the top row', fn, fn.value, want, spec=sp,
                same=lambda V, x, w: len(V.seq(x)) == len(w) and
                all(V.same(V.vec(a, 3), b) for a, b in zip(V.seq(x), w)), n=40)
        H.no_wrap(c, 'ModifiedCircleGridTarget.createPoints', fn, 'loops over the grid')
    for f in H.find(db, T + 'ModifiedCircleGridTarget::ModifiedCircleGridTarget', nparams=3):
        with c.guard('ModifiedCircleGridTarget.ctor', C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['rows_arg', 'cols_arg', 'spacing_arg'])
            for m in ('rows', 'cols'):
                H.agree(c, 'ModifiedCircleGridTarget.ctor.' + m, fn.where, m + ' is taken from the argument of the same meaning', fn,
                        X.fld(fn.value, m), lambda V, A, m=m: V.int(A.f(m + '_arg')), n=8)
            H.agree(c, 'ModifiedCircleGridTarget.ctor.spacing', fn.where, 'spacing is taken from the third argument', fn,
                    X.fld(fn.value, 'spacing'), lambda V, A: A.num('spacing_arg'), n=8)
    for cls, pts, bname in (('ArucoGridTarget', 'objPoints', 'aboard'), ('CharucoGridTarget', 'chessboardCorners', 'cboard')):
        for f in H.find(db, T + cls + '::' + cls, nparams=1, pred=lambda f: 'Board>' in f['p'][0]['t']):
            with c.guard(cls + '.points', C.fwhere(f)):
                fn = H.Fn(c, db, f, names=[bname])
                aruco = cls[0] == 'A'
                brd = 'deref(%s)' % bname

                def size(V, k, brd=brd):
                    return 4 if k.startswith(brd + '.objPoints[') else 1 + int(V.h('bn') * 4) if k.startswith(brd + '.') else None

                def value(V, k, brd=brd):
                    if k.startswith(brd + '.ids['):
                        return sorted(range(12), key=lambda q: V.h('bid%d' % q))[int(k[len(brd) + 5:-1])]
                    return None

                def want(V, A, aruco=aruco, pts=pts, bname=bname):
                    B = V.eval(mk('deref', fn.roots[bname]))
                    p3 = lambda o: [V.num(V.fld(o, a)) for a in 'xyz']
                    if aruco:
                        return {V.int(k): [p3(o) for o in V.seq(V.sel(V.fld(B, pts), i))]
                                for i, k in enumerate(V.seq(V.fld(B, 'ids')))}
                    return {i: p3(o) for i, o in enumerate(V.seq(V.fld(B, pts)))}

                def same(V, x, w, aruco=aruco):
                    got = {V.int(k): [V.vec(p, 3) for p in V.seq(v)] if aruco else V.vec(v, 3) for k, v in V.seq(x)}
                    return got.keys() == w.keys() and all(
                        len(got[k]) == len(w[k]) and all(V.same(a, b) for a, b in zip(got[k], w[k])) for k in w)
                H.agree(c, cls + '.points', fn.where, 'points of id are the %s of the board with that id' %
                        ('marker corners' if aruco else 'chessboard corners'), fn, X.fld(fn.value, 'points'), want,
                        spec=R.Spec(values=value, sizes=size), same=same, n=16, leaves=('deref',))
        fac = 'GridBoard::create' if cls[0] == 'A' else 'CharucoBoard::create'
        for f in H.find(db, T + cls + '::' + cls, nparams=5):
            with c.guard(cls + '.ctor', C.fwhere(f)):
                fn = H.Fn(c, db, f, names=['rows_p', 'cols_p', 'dim_p', 'gap_p', 'dict_p'])
                es = [e for e in fn.evs('ucall') if e.fnname.endswith(fac)]
                if len(es) != 1:
                    c.unres(cls + '.ctor', fn.where, '%d calls of %s' % (len(es), fac))
                    continue
                a = es[0].args
                if X.fld(fn.value, 'board') is es[0].result:
                    c.ok(cls + '.ctor.board', fn.where, 'the created board is the one kept and tabulated')
                else:
                    H.agree(c, cls + '.ctor.board', fn.where, 'the created board is the one kept', fn, X.fld(fn.value, 'board'),
                            lambda V, A: V.eval(es[0].result), same=lambda V, x, w: V.canon(x) == V.canon(w), n=6)
                for i, (nm, text) in enumerate((('cols_p', 'columns'), ('rows_p', 'rows'), ('dim_p', 'marker/square size'),
                                                ('gap_p', 'gap/marker size'))):
                    H.agree(c, '%s.ctor.%s' % (cls, text.split('/')[0]), '%s:%s' % (fn.where.split(':')[0], es[0].line),
                            '%s of the board are those given to the constructor' % text, fn, a[i],
                            lambda V, A, nm=nm: A.num(nm), n=8, event=True)
                es = [e for e in fn.evs('ucall') if e.fnname.endswith('getPredefinedDictionary')]
                if len(es) == 1:
                    H.agree(c, cls + '.ctor.dictionary', fn.where, 'the dictionary is the one with the given id', fn,
                            es[0].args[0], lambda V, A: A.num('dict_p'), n=8, event=True)


# --------------------------------------------------------------------------- C25
def contract(outs, ret=None, retty=None, empty=()):
    """what a library detector writes is an arbitrary value, named by `outs` (argument index -> name; a second call site of
    the function gets a suffix); recorded as an event"""
    sites = {}

    def h(I, e):
        n = sites.setdefault(id(e), len(sites))
        sfx = '' if n == 0 else str(n + 1)
        args, wrote = [], {}
        for i, a in enumerate(e['a']):
            w = MD.unwrap(a)
            if i in outs:
                lv = I.ref(w)
                args.append(I.read(lv))
                t = mk('in', outs[i] + sfx)
                X.TY[t] = X.strip_type(w['t'])
                I.write(lv, t)
                wrote[i] = outs[i] + sfx
            else:
                args.append(I.ev(w))
        r = X.UNDEF
        if ret:
            r = mk('in', ret + sfx)
            X.TY[r] = retty
        I.event('detect', fnname=e['n'], args=tuple(args), outs=tuple(sorted(wrote.items())), result=r)
        return r
    return h


def feats(V, x):
    """{id: [points]} of a feature map value"""
    return {V.int(k): [V.vec(p, 2) for p in V.seq(v)] for k, v in V.seq(x)}


def feats_same(V, x, w):
    g = feats(V, x)
    return g.keys() == w.keys() and all(len(g[k]) == len(w[k]) and all(
        abs(a - b) < 1e-5 for p, q in zip(g[k], w[k]) for a, b in zip(p, q)) for k in w)


def c25(c):
    c.explain = ('The feature maps returned by the three finders are analysed as terms over what the OpenCV detectors report '
                 '(ids, corners, circle centres, key points: arbitrary values subject to the documented contract of each '
                 'call) and compared with the specified map. For the modified circle grid the reported centres are those of '
                 'a board in every orientation the detector can report, regular or flipped, for all small grid sizes, '
                 'including missing key points, duplicate centres and failed detections.')
    c.minimum = 3
    db = C.dbm.get('img')
    f = H.one(db, T + 'ArucoGridBoardTargetFinder::findTargetFeatures')
    rule = 'ArucoGridBoardTargetFinder.findTargetFeatures'
    with c.guard(rule, C.fwhere(f)):
        ic = {'cv::aruco::detectMarkers': contract({2: 'mkc', 3: 'mki', 5: 'rej'}),
              'cv::aruco::refineDetectedMarkers': contract({2: 'mkrc', 3: 'mkri', 4: 'rejr'})}
        fn = H.Fn(c, db, f, names=['aimg'], intercept=ic)
        ds = [e for e in fn.evs('detect')]
        if not ds:
            raise IT.Unsupported('no marker detection')
        o = dict(ds[-1].outs)
        cn, idn = o[2], o[3]
        H.agree(c, rule, fn.where, 'every detected marker id maps to its own four corners', fn, fn.value,
                lambda V, A: {k: pts for k, pts in zip(ids_of(V, idn), corners_of(V, cn))},
                spec=marker_spec(('mki', 'mkri'), ('mkc', 'mkrc')), same=feats_same, n=20)
        uses_board(c, rule, fn, ds, 1, lambda V, A: V.canon(V.fld(V.eval(mk('deref', X.fld(X.fld(mk('in', 'this'), 'target_'), 'board'))), 'dictionary')),
                   'detectMarkers', 'the markers searched are those of the target\'s dictionary')
    f = H.one(db, T + 'CharucoGridBoardTargetFinder::findTargetFeatures')
    rule = 'CharucoGridBoardTargetFinder.findTargetFeatures'
    with c.guard(rule, C.fwhere(f)):
        ic = {'cv::aruco::detectMarkers': contract({2: 'mkc', 3: 'mki', 5: 'rej'}),
              'cv::aruco::refineDetectedMarkers': contract({2: 'mkrc', 3: 'mkri', 4: 'rejr'}),
              'cv::aruco::interpolateCornersCharuco': contract({4: 'chc', 5: 'chi'}, 'chn', 'int')}
        fn = H.Fn(c, db, f, names=['cimg'], intercept=ic)
        ds = [e for e in fn.evs('detect')]
        sp = marker_spec(('mki', 'mkri'), ('mkc', 'mkrc'))

        def want(V, A):
            det = [dict(e.outs).get(3) for e in ds if 'Markers' in e.fnname]
            if not det or V.int(V.size(V.eval(mk('in', det[-1])))) == 0:
                return H.Throw()
            cs = [[V.num(V.fld(p, 'x')), V.num(V.fld(p, 'y'))] for p in V.seq(V.eval(mk('in', 'chc')))]
            return {k: [p] for k, p in zip(ids_of(V, 'chi'), cs)}
        H.agree(c, rule, fn.where, 'every detected corner id maps to its own location; no markers is an error', fn, fn.value, want,
                spec=sp, same=feats_same, n=24)
        uses_board(c, rule, fn, ds, 3, lambda V, A: V.canon(V.eval(X.fld(X.fld(mk('in', 'this'), 'target_'), 'board'))),
                   'interpolateCornersCharuco', 'corners are interpolated on the target\'s board')
    f = H.one(db, T + 'ModifiedCircleGridTargetFinder::findTargetFeatures')
    rule = 'ModifiedCircleGridTargetFinder.findTargetFeatures'
    with c.guard(rule, C.fwhere(f)):
        det = contract({1: 'kps'})
        ic = {'cv::findCirclesGrid': contract({2: 'cen'}, 'found', 'bool'),
              'cv::Feature2D::detect': det, T + 'CircleDetector::detect': det}
        fn = H.Fn(c, db, f, names=['gimg'], intercept=ic)
        grid_checks(c, rule, fn)


def uses_board(c, rule, fn, ds, i, want, name, text):
    for e in ds:
        if e.fnname.endswith(name):
            H.agree(c, rule + '.board', '%s:%s' % (fn.where.split(':')[0], e.line), text, fn, e.args[i], want, n=3, event=True,
                    same=lambda V, x, w: V.canon(x) == w, leaves=('deref',))


def ids_of(V, n):
    return [V.int(k) for k in V.seq(V.eval(mk('in', n)))]


def corners_of(V, n):
    return [[[V.num(V.fld(p, 'x')), V.num(V.fld(p, 'y'))] for p in V.seq(s)] for s in V.seq(V.eval(mk('in', n)))]


def marker_spec(idn, cn):
    """as many corner lists as ids, four corners each, distinct ids"""
    def value(V, k):
        for n in idn + ('chi',):
            if k.startswith(n + '['):
                return sorted(range(20), key=lambda q: V.h('%s%d' % (n, q)))[int(k[len(n) + 1:-1])]
        if k == 'chn':
            return int(V.h('chn') * 4)
        return None

    def size(V, k):
        for a, b in zip(idn, cn):
            if k in (a, b):
                return int(V.h('sz' + a) * 4)
            if k.startswith(b + '['):
                return 4
        if k in ('chi', 'chc'):
            return int(V.h('chn') * 4)
        return None
    return R.Spec(values=value, sizes=size)


class Scene:
    """a board of r x q circles, the largest one in the bottom left corner, as reported by findCirclesGrid: centres listed
    row by row in one of the orientations that keep the handedness of the board"""

    def __init__(self, V, kind):
        self.kind = kind
        r, q = 2 + int(V.h('r') * 4), 2 + int(V.h('q') * 4)
        self.r, self.q = r, q
        self.flip = kind == 'flipped'
        turns = [1, 3] if self.flip else [0, 2] + ([1, 3] if r == q else [])
        self.turn = turns[int(V.h('turn') * len(turns))]
        th = (V.h('th') - 0.5) * 6.2
        co, si = math.cos(th), math.sin(th)
        sc = 20 + 30 * V.h('sc')
        self.pt = {}
        for i in range(r):
            for j in range(q):
                x, y = j * sc, i * sc * (0.7 + 0.3 * V.h('asp'))
                self.pt[i, j] = (300 + co * x - si * y, 300 + si * x + co * y)
        # grid rows as the detector lists them
        if self.turn == 0:
            grid = [[(i, j) for j in range(q)] for i in range(r)]
        elif self.turn == 2:
            grid = [[(r - 1 - i, q - 1 - j) for j in range(q)] for i in range(r)]
        elif self.turn == 1:
            grid = [[(r - 1 - b, a) for b in range(r)] for a in range(q)]
        else:
            grid = [[(b, q - 1 - a) for b in range(r)] for a in range(q)]
        self.cells = [x for row in grid for x in row]
        self.cen = [self.pt[x] for x in self.cells]
        self.kps = [(p, 4.0 if x == (r - 1, 0) else 2.0 + 0.2 * V.h('ks%d,%d' % x)) for x, p in self.pt.items()]
        self.kps.sort(key=lambda k: V.h('ko%.3f' % k[0][0]))
        if V.h('spur') < 0.5:
            self.kps.insert(int(V.h('spi') * len(self.kps)), ((5.0, 900.0), 3.0))
        if kind == 'missing':
            i = int(V.h('mi') * len(self.kps))
            self.kps[i] = ((7.0, 800.0), 2.0)
        if kind == 'duplicate':
            i = int(V.h('du') * len(self.cen))
            self.cen[i] = self.cen[(i + 1) % len(self.cen)]
        if kind == 'none':
            self.cen = []

    def want(self):
        return {i * self.q + j: [list(self.pt[i, j])] for i in range(self.r) for j in range(self.q)}


def grid_checks(c, rule, fn):
    scenes = {}

    def scene(V, kind):
        k = (V.seed, kind)
        if k not in scenes:
            scenes[k] = Scene(V, kind)
        return scenes[k]

    def spec(kind):
        def value(V, k):
            S = scene(V, kind)
            if k == 'this.target_.rows':
                return S.r
            if k == 'this.target_.cols':
                return S.q
            if k in ('found', 'found2'):
                return kind != 'none' and (k == 'found2') == S.flip
            m = re.match(r'(cen2?|kps\d*)\[(\d+)\]\.(pt\.)?(x|y|size)$', k)
            if m:
                i = int(m.group(2))
                if m.group(1).startswith('kps'):
                    if i >= len(S.kps):
                        return None
                    return S.kps[i][1] if m.group(4) == 'size' else S.kps[i][0]['xy'.index(m.group(4))]
                if (m.group(1) == 'cen2') != S.flip or i >= len(S.cen):
                    return None
                return S.cen[i]['xy'.index(m.group(4))]
            return None

        def size(V, k):
            S = scene(V, kind)
            if k in ('cen', 'cen2'):
                return len(S.cen) if (k == 'cen2') == S.flip else 0
            if k.startswith('kps'):
                return len(S.kps)
            return None
        return R.Spec(values=value, sizes=size)
    for kind, text in (('regular', 'circle k of the board is reported as feature k, for every orientation of the board'),
                       ('flipped', 'the same when only the flipped grid dimensions are found'),
                       ('missing', 'a centre without a key point is an error'),
                       ('duplicate', 'a duplicated centre is an error'),
                       ('none', 'no circles is an error')):
        H.agree(c, rule + '.' + kind, fn.where, text, fn, fn.value,
                lambda V, A, kind=kind: scene(V, kind).want() if kind in ('regular', 'flipped') else H.Throw(), spec=spec(kind),
                same=feats_same, n=24 if kind in ('regular', 'flipped') else 8, leaves=('trip', 'oob'))


# --------------------------------------------------------------------------- C26
def pure(name, outs=None, ins=None, ty=None):
    """a library function whose results are arbitrary functions of (some of) its arguments; outs: argument index -> type"""
    outs = outs or {}

    def h(I, e):
        args, refs = [], []
        for i, a in enumerate(e['a']):
            w = MD.unwrap(a)
            if i in outs:
                refs.append((i, I.ref(w)))
            elif ins is None or i in ins:
                v = I.ev(w)
                v = I.load_root(v.args[0]) if v.op == 'img' else v
                if v.op == 'newmat':
                    # matrix header over a vector of points
                    v = v.args[0]
                args.append(v)
        t = mk('lfn', name, *args)
        for i, r in refs:
            X.TY[t] = outs[i]
            I.write(r, t)
        if not outs and ty:
            X.TY[t] = ty
        I.event('detect', fnname=e['n'], args=tuple(args), outs=(), result=t)
        return t
    return h


POINTS = 'std::vector<cv::Point_<int>>'
CVFN = {'cv::threshold': pure('BIN', {1: 'cv::Mat'}, (0, 2)),
        'cv::findContours': pure('CTS', {1: 'std::vector<%s>' % POINTS}, (0,)),
        'cv::cvtColor': pure('CVT', {1: 'cv::Mat'}, (0, 2)),
        'cv::moments': pure('MOM', ins=(0,), ty='cv::Moments'),
        'cv::arcLength': pure('PER', ty='double'),
        'cv::convexHull': pure('HULL', {1: POINTS}, (0,)),
        'cv::contourArea': pure('AREA', ins=(0,), ty='double'),
        'cv::fitEllipse': pure('ELL', ins=(0,), ty='cv::RotatedRect')}
PICK = [0.0, 0.5, 1.0, 2.0, 3.0]


MODES = ['filterBy' + n for n in ('Area', 'Circularity', 'Inertia', 'Convexity', 'Color')] + ['err', '', '']


def mode(V):
    return MODES[int(V.h('mode') * len(MODES))]


def circle_spec():
    """contours, their measures and the parameters: values from small sets so that boundaries are hit"""
    def pick(V, k, vals):
        return vals[int(V.h('pk' + k) * len(vals))]

    def value(V, k):
        m = re.match(r'(?:prm|this\.params)\.(\w+)$', k)
        if m:
            n = m.group(1)
            if n.startswith('filterBy'):
                return mode(V) == n or mode(V) == '' and V.h(n) < 0.35
            if n == 'circleColor':
                return pick(V, n, [0, 255])
            if n in ('nThresholds',):
                return int(V.h(n) * 5)
            if n == 'minRepeatability':
                return 1 + int(V.h(n) * 3)
            if n == 'maxAverageEllipseError':
                return pick(V, n, [0.3, 0.9, 2.0, 9.0]) if mode(V) in ('', 'err') else 100.0
            if n in ('circleInclusionRadius', 'maxRadiusDiff'):
                return pick(V, n, [1.0, 5.0, 5.0, 60.0] if n[0] == 'c' else [0.25, 0.5, 9.0])
            if n == 'minThreshold':
                return 20 + 30 * V.h(n)
            if n == 'maxThreshold':
                return 120 + 30 * V.h(n)
            if n.startswith('min'):
                return pick(V, n, [0.0, 0.125, 0.25, 0.5])
            if n.startswith('max'):
                return pick(V, n, [0.25, 0.5, 1.0, 3.0])
            return None
        if k.startswith('MOM('):
            n = k.rsplit('.', 1)[1]
            if n == 'm00':
                return area(V, k[4:-5])
            if n == 'mu02' and V.h(k[:-4] + 'mu20') < 0.05:
                return 1.5
            if n in ('mu20', 'mu02'):
                return 1.5 if n == 'mu20' and V.h(k) < 0.1 else 0.2 + 2.8 * V.h(k)
            if n == 'mu11':
                # a circle has no principal axes
                a, b = [V.num(R.Obj(k[:-4] + z)) for z in ('mu20', 'mu02')]
                return 0.0 if V.h(k) < 0.1 else 1.8 * (V.h(k) - 0.5) * math.sqrt(a * b)
            return None
        if k.startswith('AREA('):
            if k.startswith('AREA(HULL('):
                return area(V, k[10:-2]) * pick(V, k, [1.0, 2.0, 4.0])
            return area(V, k[5:-1])
        if k.startswith('PER('):
            return 1 + 6 * V.h(k)
        if k.startswith('ELL('):
            if k.endswith('.center.x'):
                return pick(V, k, [-0.75, -0.25, 1.25, 6.25, 30.25, 39.75, 44.25])
            if k.endswith('.center.y'):
                return pick(V, k, [-0.75, -0.25, 1.25, 6.25, 20.25, 29.75, 34.25])
            if '.size.' in k:
                return (1 + 3 * V.h(k)) * pick(V, k, [1.0, 10.0])
            if k.endswith('.angle'):
                return 180 * V.h(k)
            return None
        if k.startswith('CTS(') and k.endswith(('.x', '.y')):
            return int(V.h(k) * 9)
        if k.startswith('pixel('):
            return pick(V, k, [0, 255])
        if k.endswith('.rows'):
            return 30
        if k.endswith('.cols'):
            return 40
        if k.endswith('.confidence'):
            return 0.5 + 3 * V.h(k)
        if k.endswith('.location.x'):
            return pick(V, k, [10.0, 13.0, 16.0, 30.0])
        if k.endswith('.location.y'):
            return pick(V, k, [10.0, 14.0])
        if k.endswith('.radius'):
            return pick(V, k, [4.0, 4.5])
        return None

    def area(V, k):
        return pick(V, 'area' + k, [0.125, 0.25, 0.5, 0.75, 1.0])

    def size(V, k):
        if k.startswith('CTS('):
            return 3 + int(V.h(k) * 4) if k.endswith(']') else 1 + int(V.h(k) * 4)
        if k.startswith('allc'):
            return int(V.h(k) * 4)
        return None
    return R.Spec(values=value, sizes=size)


def want_circles(V, img, thr, P):
    """centres and contours of the specified filter chain"""
    b = V.canon_call('BIN', img, thr)
    out = []
    for j in range(V.int(V.size(R.Obj('CTS(%s)' % b, 'std::vector<%s>' % POINTS)))):
        k = 'CTS(%s)[%d]' % (b, j)
        n = V.int(V.size(R.Obj(k, POINTS)))
        if n < 5:
            continue

        def q(s, k=k):
            return V.num(R.Obj(s % k))

        def outside(flag, lo, hi, v):
            if not V.bool(P(flag)):
                return False
            lo, hi = V.num(P(lo)), V.num(P(hi))
            if any(v != z and abs(v - z) < 1e-6 for z in (lo, hi)):
                raise H.Skip()
            return v < lo or v >= hi
        area, per = q('MOM(%s).m00'), q('PER(%s,1)')
        if outside('filterByArea', 'minArea', 'maxArea', area):
            continue
        if outside('filterByCircularity', 'minCircularity', 'maxCircularity', 4 * math.pi * area / per ** 2):
            continue
        a, d, e = q('MOM(%s).mu20'), q('MOM(%s).mu02'), q('MOM(%s).mu11')
        den = math.hypot(2 * e, a - d)
        # ratio of the principal moments (eigenvalues of [[mu20, mu11], [mu11, mu02]])
        ratio = ((a + d) / 2 - den / 2) / ((a + d) / 2 + den / 2) if den > 1e-2 else 1.0
        if outside('filterByInertia', 'minInertiaRatio', 'maxInertiaRatio', ratio):
            continue
        if outside('filterByConvexity', 'minConvexity', 'maxConvexity', q('AREA(%s)') / q('AREA(HULL(%s))')):
            continue
        cx, cy, w, h = q('ELL(%s).center.x'), q('ELL(%s).center.y'), q('ELL(%s).size.width'), q('ELL(%s).size.height')
        if V.bool(P('filterByColor')):
            x, y = round(cx), round(cy)
            if not (0 <= x < 40 and 0 <= y < 30) or V.num(R.Obj('pixel(%s)[%d][%d]' % (b, y, x))) != V.num(P('circleColor')):
                continue
        th = math.radians(q('ELL(%s).angle'))
        s = 0.0
        for i in range(n):
            x, y = V.num(R.Obj('%s[%d].x' % (k, i))) - cx, V.num(R.Obj('%s[%d].y' % (k, i))) - cy
            s += math.hypot((x * math.cos(th) + y * math.sin(th)) / (w / 2), (y * math.cos(th) - x * math.sin(th)) / (h / 2))
        err = abs(s / n - 1)
        if err < 1e-3:
            raise H.Skip()
        if err < V.num(P('maxAverageEllipseError')):
            out.append(((cx, cy), 1 / err, (w + h) / 4, k))
    return out


def circles_same(V, x, w):
    cs, ks = V.seq(V.fld(x, 'centers')), V.seq(V.fld(x, 'contours'))
    if len(cs) != len(w) or len(ks) != len(w):
        return False
    for c_, k, (loc, conf, rad, key) in zip(cs, ks, w):
        loc_ = V.fld(c_, 'location')
        got = [V.num(V.fld(loc_, 'x')), V.num(V.fld(loc_, 'y'))] + [V.num(V.fld(c_, 'confidence')), V.num(V.fld(c_, 'radius'))]
        if any(abs(a - b) > 1e-5 * max(1, abs(b)) for a, b in zip(got, list(loc) + [conf, rad])) or V.canon(k) != key:
            return False
    return True


def want_keypoints(V, levels, P):
    """levels: [[(x, y, radius, confidence)]]"""
    groups = []
    for lv in levels:
        for s in lv:
            for g in groups:
                f = g[0]
                if math.hypot(f[0] - s[0], f[1] - s[1]) <= V.num(P('circleInclusionRadius')) and \
                        abs(f[2] - s[2]) <= V.num(P('maxRadiusDiff')):
                    g.append(s)
                    break
            else:
                groups.append([s])
    out = []
    for g in groups:
        if len(g) >= V.int(P('minRepeatability')):
            t = sum(s[3] for s in g)
            out.append([sum(s[i] * s[3] for s in g) / t for i in (0, 1)] + [2 * sum(s[2] * s[3] for s in g) / t])
    return out


def keypoints_same(V, x, w):
    got = [[V.num(V.fld(V.fld(k, 'pt'), n)) for n in ('x', 'y')] + [V.num(V.fld(k, 'size'))] for k in V.seq(x)]
    return len(got) == len(w) and all(abs(a - b) < 1e-5 for p, q in zip(sorted(got, key=rnd9), sorted(w, key=rnd9)) for a, b in zip(p, q))


def rnd9(xs):
    return [round(x, 6) for x in xs]


def c26(c):
    c.explain = ('The filter chain, the threshold sweep, the grouping of sightings and the two entry points of the circle detector '
                 'are each analysed as terms over the results of the OpenCV calls (contours, moments, ellipse fits, pixels: '
                 'arbitrary functions of their arguments) and all detector parameters, and compared with the specified filters '
                 'and weighted means, with values on the filter boundaries and ellipses centred outside the image.')
    c.minimum = 3
    db = C.dbm.get('img')
    A_ = '(anonymous namespace)::'
    sp = circle_spec()

    def P(V, A, n):
        return lambda s: A.f(n, s)
    for f in H.find(db, A_ + 'findCircles'):
        rule = 'findCircles'
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, db, f, names=['bimg', 'thr', 'prm'], intercept=CVFN)
            H.agree(c, rule, fn.where, 'a contour is kept exactly when it passes every filter that is switched on, and is reported with '
                    'its own centre, radius and confidence', fn, fn.value,
                    lambda V, A: want_circles(V, A.root('bimg'), A.root('thr'), P(V, A, 'prm')), spec=sp, same=circles_same, n=150)
    by = {'Mat': 'bimg', 'CircleDetectorParams': 'prm', 'double': 'thr', 'Center': 'allc'}
    fns = {n: H.find(db, A_ + n) for n in ('applyThresholds', 'findCircles', 'detectKeyPoints')}

    def cutat(*names):
        """calls of the named stages, as functions of their (type-identified) arguments"""
        ic = dict(CVFN)
        for n in names:
            for f in fns[n]:
                ic[A_ + n] = stage(n, role_names(f, by), f['ret'])
        return ic
    for f in fns['applyThresholds']:
        rule = 'applyThresholds'
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, db, f, names=role_names(f, by), intercept=cutat('findCircles'))
            if not [e for e in fn.evs('detect') if e.fnname == 'findCircles']:
                raise IT.Unsupported('no call of findCircles')

            def want(V, A):
                p = P(V, A, 'prm')
                n, lo, hi = V.int(p('nThresholds')), V.num(p('minThreshold')), V.num(p('maxThreshold'))
                if V.int(p('minRepeatability')) > n:
                    return H.Throw()
                return [(lo + hi) / 2] if n == 1 else [lo + i * (hi - lo) / (n - 1) for i in range(n)]

            def same(V, x, w):
                got = [re.match(r'findCircles\(bimg,prm,([^(),]*)\)$', V.canon(e)) for e in V.seq(x)]
                return len(got) == len(w) and all(g and abs(float(g.group(1)) - t) < 1e-3 for g, t in zip(got, w))
            H.agree(c, rule, fn.where, 'the image is searched at the configured number of evenly spaced thresholds, both ends included; '
                    'an unreachable repeatability is an error', fn, fn.value, want, spec=sp, same=same, n=60)
    for f in fns['detectKeyPoints']:
        rule = 'detectKeyPoints'
        with c.guard(rule, C.fwhere(f)):
            fn = H.Fn(c, db, f, names=role_names(f, by), intercept=dict(CVFN))

            def want(V, A):
                lv = [[[V.num(V.fld(V.fld(s, 'location'), 'x')), V.num(V.fld(V.fld(s, 'location'), 'y')), V.num(V.fld(s, 'radius')),
                        V.num(V.fld(s, 'confidence'))] for s in V.seq(l)] for l in V.seq(A.root('allc'))]
                return want_keypoints(V, lv, P(V, A, 'prm'))
            H.agree(c, rule, fn.where, 'sightings are grouped by distance and radius, and groups seen often enough are reported at their '
                    'confidence-weighted mean', fn, fn.value, want, spec=sp, same=keypoints_same, n=50)
    for m, out in (('detect', 'ckps'), ('drawDetectedCircles', None)):
        for f in H.find(db, T + 'CircleDetector::' + m):
            rule = 'CircleDetector.' + m
            with c.guard(rule, C.fwhere(f)):
                fn = H.Fn(c, db, f, names=['cdimg', 'ckps', 'cmask'], intercept=cutat('applyThresholds', 'detectKeyPoints'))
                if not [e for e in fn.evs('detect') if e.fnname == 'detectKeyPoints']:
                    raise IT.Unsupported('no call of detectKeyPoints')
                if out:
                    ts = [(fn.out(out), fn.where)]
                else:
                    ts = [(e.args[1], '%s:%s' % (fn.where, e.line)) for e in fn.evs('imgwrite') if e.call == 'drawKeypoints']
                for t, where in ts:
                    H.agree(c, rule, where, 'what is reported is what the sweep over the (grey) image with the detector\'s own '
                            'parameters found', fn, t, lambda V, A: want_entry(V, A.root('cdimg')), spec=entry_spec(),
                            same=lambda V, x, w: V.canon(x) == w, n=12, event=not out)


def entry_spec():
    def value(V, k):
        if k.startswith('matprop(channels'):
            return 3 if V.h('chan') < 0.5 else 1
        return None

    def size(V, k):
        return int(V.h('sz' + k) * 4) if k.startswith('applyThresholds(') else None
    return R.Spec(values=value, sizes=size)


def want_entry(V, img):
    g = V.canon_call('CVT', img, 6) if V.h('chan') < 0.5 else V.canon(img)
    at = 'applyThresholds(%s,this.params)' % g
    n = V.int(V.size(R.Obj(at)))
    return 'detectKeyPoints([%s],this.params)' % ','.join('%s[%d].centers' % (at, i) for i in range(n))


def role_names(f, by):
    out = []
    for p in f['p']:
        n = [v for k, v in by.items() if k in p['t'].split('vector<')[-1] or p['t'] == k or k in p['t'].split()]
        if not n:
            raise IT.Unsupported('parameter of unexpected type ' + p['t'])
        out.append(n[-1] if 'Center' in p['t'] else n[0])
    return out


def stage(name, names, ty):
    def h(I, e):
        if len(e['a']) != len(names):
            raise IT.Unsupported('arguments of ' + name)
        d = {}
        for n, a in zip(names, e['a']):
            v = I.ev(a)
            d[n] = I.load_root(v.args[0]) if v.op == 'img' else v
        t = mk('lfn', name, *[d[n] for n in sorted(d)])
        X.TY[t] = X.strip_type(ty)
        I.event('detect', fnname=name, args=tuple(d[n] for n in sorted(d)), outs=(), result=t)
        return t
    return h
