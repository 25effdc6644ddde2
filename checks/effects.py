"""C07: effects of every function of the libraries on memory that outlives the call (side-effect analysis)."""
import collections
from . import common as C, harness as H
from .common import X, IT
from .solvers import cov_event
from .image import CVFN, contract, stage

mk, num = X.mk, X.num
# functions whose arguments are inputs whatever their signature says
ENTRY = {'optimize', 'measureIntrinsicCalibrationAccuracy', 'measureVirtualTargetDiff', 'qualifyNoise2D', 'qualifyNoise3D',
         'calculateHomographyError', 'projectPoint', 'findTargetFeatures', 'drawTargetFeatures', 'drawDetectedCircles', 'detect',
         'getCorrespondences', 'correspondenceSet', 'projectPoints', 'project3D', 'measureCameraExtrinsicAccuracy', 'validate',
         'getFK', 'getRelativeTransform', 'getSampleCorrespondenceIndices', 'circleFit', 'measureAccuracy'}
STAGES = ('findCircles', 'applyThresholds', 'detectKeyPoints')
OUTPUTS = {('detect', 1)}
# destination has the size and type of the source
SAMETYPE = {'threshold', 'GaussianBlur', 'blur', 'medianBlur', 'boxFilter', 'bilateralFilter', 'filter2D', 'bitwise_not', 'bitwise_and',
            'bitwise_or', 'adaptiveThreshold', 'equalizeHist', 'erode', 'dilate', 'morphologyEx', 'normalize', 'flip', 'add',
            'subtract', 'multiply', 'addWeighted', 'absdiff', 'convertScaleAbs', 'max', 'min', 'undistort', 'sort', 'setIdentity',
            'randn', 'randu'}
# colour conversions that change the number of channels
RECHANNEL = {6, 7, 8, 9, 10, 11, 0, 1, 2, 3}
STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'std::rand', 'std::srand', 'cv::theRNG', 'cv::setRNGSeed',
            'cv::randu', 'cv::randn', 'cv::randShuffle'}


def walk(n, fn):
    if isinstance(n, dict):
        fn(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, fn)
    elif isinstance(n, list):
        for v in n:
            walk(v, fn)


def isconst(ty):
    t = (ty or '').strip()
    return t.startswith('const ') and not t.endswith('*') or t.endswith('const') or t.endswith('&') or t.startswith('constexpr')


def mutable_params(f):
    """names of the parameters the function may write, by its signature"""
    name = f['n'].split('::')[-1].split('<')[0]
    out = set()
    for i, p in enumerate(f['p']):
        t = p['t'].strip()
        n = p['n'] or 'arg%d' % i
        if name in ENTRY and (name, i) not in OUTPUTS and not X.strip_type(t).startswith('ceres::'):
            if t.endswith('&') or t.endswith('*') or t.endswith('*const'):
                if name == 'projectPoint' and ('*' in t):
                    if not t.startswith('const '):
                        out.add(n)
                continue
        if t.endswith('&') and not t.startswith('const ') or t.endswith('&&'):
            out.add(n)
        elif not t.endswith('&') and '*' not in t:
            # by value: a copy, unless it is a handle
            out.add(n) if 'cv::Mat' not in t else None
        elif '*' in t and not t.startswith('const '):
            out.add(n)
        elif '*' in t and t.count('*') > 1:
            pass
    if not f.get('cm') and not f.get('sm') and not (name in ENTRY and not f.get('ctor')):
        out.add('this')
    return out


def roots_of(t):
    """names of the parameters a term is derived from"""
    return {x.args[0].lstrip('*') for x in X.subterms(t) if x.op == 'in'}


def handle(I, t, frozen, pc, depth=0):
    """does an image handle denote pixels of the caller's image? 'yes', 'no' or 'maybe'"""
    if depth > 30:
        return 'maybe'
    if t.op == 'ite':
        conds = [c for c, _ in pc]
        if t.args[0] in conds:
            return handle(I, t.args[1], frozen, pc, depth + 1)
        if X.not_(t.args[0]) in conds:
            return handle(I, t.args[2], frozen, pc, depth + 1)
        r = {handle(I, x, frozen, pc, depth + 1) for x in t.args[1:]}
        return 'yes' if 'yes' in r else 'maybe' if 'maybe' in r else 'no'
    if t.op == 'img':
        s = I.rootinfo.get(t.args[0], {}).get('shares')
        return handle(I, s, frozen, pc, depth + 1) if s is not None else 'no'
    if t.op == 'imgview':
        return handle(I, t.args[0], frozen, pc, depth + 1)
    if t.op in ('in', 'fld', 'sel', 'deref', 'elt'):
        rs = roots_of(t)
        return 'yes' if rs and rs <= frozen else 'no'
    if t.op == 'out':
        hs = [handle(I, x, frozen, pc, depth + 1) for x in t.args if isinstance(x, X.Term) and X.TY.get(x) == 'cv::Mat' or
              isinstance(x, X.Term) and x.op == 'in']
        return 'maybe' if 'yes' in hs or 'maybe' in hs else 'no'
    return 'no'


def judge(I, e, frozen):
    """'bad', 'ok' or a reason why it is not known"""
    h = handle(I, e.handle, frozen, e.pc)
    if h == 'no':
        return 'ok'
    name = e.call.split('::')[-1]
    if e.src is not None and e.src is e.handle:
        return 'ok'
    if name == 'cvtColor':
        code = e.lits.get(2)
        if code is not None and code.isdigit() and int(code) in RECHANNEL:
            return 'ok'
    if h == 'maybe':
        return 'the image may be the caller\'s'
    if e.inout or name in SAMETYPE:
        return 'bad'
    if name == 'cvtColor' and e.lits.get(2, '').isdigit():
        return 'bad'
    if name == 'convertTo' and e.lits.get(1) == '-1':
        return 'bad'
    return 'destination may be reallocated'


def effects(c, db, f, fn, seen):
    I = fn.I
    mut = mutable_params(f)
    frozen = ({p['n'] or 'arg%d' % i for i, p in enumerate(f['p'])} | {'this'}) - mut
    where = fn.where
    name = f['n'].split('::')[-1].split('<')[0]
    bad = 0
    stores = [fn.st] if fn.st is not None else []
    stores += [s for s, _, _ in fn.throws]
    done = set()
    for st in stores:
        for r, v in st.store.items():
            k = r.split(':', 1)[0]
            if k not in ('in', 'mem', 'obj', 'global', 'static') or r in done or v is I.defaults.get(r):
                continue
            info = I.rootinfo.get(r, {})
            if k in ('global', 'static'):
                if info.get('const'):
                    continue
                done.add(r)
                if r in seen:
                    continue
                seen.add(r)
                owner = r.split(':', 1)[1].rsplit(':', 1)[0] if k == 'static' else where
                c.bad('state', owner, 'the call changes the object %s with static storage, so later calls of any object depend on '
                      'earlier ones' % r.split(':')[-1], witness=dict(value=X.show(v)[:300], seen_from=where))
                bad += 1
                continue
            if k in ('in', 'mem'):
                n = r.split(':', 1)[1].lstrip('*')
                if n not in frozen:
                    continue
                done.add(r)
                c.bad('inputs', where, 'modifies its input %s' % n, witness=dict(value=X.show(v)[:400]))
                bad += 1
            else:
                d = I.defaults.get(r)
                if d is None:
                    continue
                rs = roots_of(d)
                px = [x for x in X.subterms(d) if x.op == 'pixel']
                if px:
                    if any(handle(I, x.args[0], frozen, st.pc) == 'yes' for x in px):
                        done.add(r)
                        c.bad('image', where, 'writes pixels of its input image through a pointer')
                        bad += 1
                    continue
                if rs and rs <= frozen and not any(x.op in ('lfn', 'new', 'lib', 'ucall', 'clone') for x in X.subterms(d)):
                    done.add(r)
                    c.bad('inputs', where, 'modifies the object behind %s, which belongs to its input' % X.show(d)[:120])
                    bad += 1
    outs = 0
    # helpers private to a source file are judged where they are called, with the images they are given
    private = f.get('internal') and name not in STAGES
    for e in () if private else fn.evs('cvout'):
        outs += 1
        j = judge(I, e, frozen)
        loc = '%s' % where
        if j == 'bad':
            c.bad('image', loc, '%s at line %s writes into the pixels of the caller\'s image' % (e.call, e.line))
            bad += 1
        elif j != 'ok':
            c.unres('image', loc, '%s at line %s: %s' % (e.call, e.line, j))
            bad += 1
    if name.startswith('draw') and f['n'].startswith('rct_') and fn.value is not None and X.strip_type(f.get('ret') or '') in ('cv::Mat', ''):
        h = handle(I, fn.value, frozen, ())
        if h == 'yes':
            c.bad('image.returned', where, 'the returned image shares its pixels with the image passed in')
            bad += 1
        elif h == 'no':
            c.ok('image.returned', where, 'the returned image is a new one')
    if not bad:
        c.ok('effects', where, 'writes only its outputs (%s) and new objects; %d image outputs' % (', '.join(sorted(mut)) or 'none', outs))
    # objects with static storage the function reads although they are not constant
    for e in fn.evs('static'):
        if not e.const and e.root not in seen:
            seen.add(e.root)
            c.unres('state', e.root.split(':', 1)[1].rsplit(':', 1)[0], 'the function keeps a mutable object %s with static storage; no write '
                    'to it was found' % e.root.split(':')[-1])


def stateful_calls(c, db):
    """library calls that read or leave process-wide state"""
    n = 0
    for f in db.funcs.values():
        if f.get('b') is None:
            continue
        hits = []

        def look(x):
            k = x.get('k')
            if k == 'call':
                q = x.get('n') or ''
                if q in STATEFUL or q.startswith('Eigen::') and q.split('::')[-1] in ('Random', 'setRandom', 'UnitRandom'):
                    hits.append((q, x.get('l')))
            elif k == 'ctor' and X.strip_type(x.get('t', '')).startswith('std::random_device') and not f.get('ctor') and \
                    f['n'].split('::')[-1] in ENTRY:
                hits.append(('std::random_device', x.get('l')))
        walk(f['b'], look)
        n += 1
        for q, l in hits:
            c.bad('state.library', C.fwhere(f), '%s (line %s) draws from or changes process-wide state' % (q, l))
    return n


def c07(c):
    c.explain = ('Side-effect analysis of every function of both libraries (and of the instantiated header templates): the final '
                 'store of the abstract interpreter, on normal and on exceptional exits, is compared with the initial one. Rules: '
                 'no write to an input (const reference/pointer parameters, the object of a const method, every argument of '
                 'the solving, validating, projecting, detecting and drawing entry points whatever their signature, and '
                 'objects reached from those through shared pointers); no write to an object with static storage; no call '
                 'that draws on process-wide random state; no drawing or library output into an image that shares pixels '
                 'with the caller\'s image; drawing functions return an image that does not share them.')
    c.minimum = 30
    seen = set()
    for g in ('opt', 'img', 'tu:core.cpp'):
        db = C.dbm.get(g)
        n = stateful_calls(c, db)
        c.ok('state.library', g, '%d function bodies searched for process-wide random state' % n)
        for k, v in db.globals.items():
            if not str(v.get('file')).startswith(C.REPO) or v.get('const') or isconst(v.get('t')):
                continue
            c.unres('state', k, 'mutable object with static storage: %s' % v.get('t'))
        for k, f in sorted(db.funcs.items()):
            if f.get('b') is None or f.get('defaulted') or f['n'].startswith('lambda') or '::encode' in f['n'] or '::decode' in f['n']:
                continue
            ic = {'rct_optimizations::computeCovariance': cov_event} if not f['n'].endswith('computeCovariance') else {}
            base = f['n'].split('::')[-1].split('<')[0]
            if g == 'img':
                ic.update(CVFN)
                ic.update({'cv::aruco::detectMarkers': contract({2: 'mkc', 3: 'mki', 5: 'rej'}),
                           'cv::aruco::refineDetectedMarkers': contract({2: 'mkrc', 3: 'mkri', 4: 'rejr'}),
                           'cv::aruco::interpolateCornersCharuco': contract({4: 'chc', 5: 'chi'}, 'chn', 'int'),
                           'cv::findCirclesGrid': contract({2: 'cen'}, 'found', 'bool')})
                for h in db.funcs.values():
                    b = h['n'].split('::')[-1]
                    if b in STAGES and b != base and h['p'] and \
                            h['n'] not in ic and h.get('internal'):
                        ic[h['n']] = stage(b, ['a%d' % i for i in range(len(h['p']))], h.get('ret') or '')
            with c.guard('effects', C.fwhere(f)):
                fn = H.Fn(c, db, f, intercept=ic)
                effects(c, db, f, fn, seen)
