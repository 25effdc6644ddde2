"""C30: printed calibration values appear under the right name and unit"""
import math
import re

from . import common as C
from . import harness as H
from .common import R, X, IT

mk, num = X.mk, X.num
NUM = re.compile(r'(?<![A-Za-z0-9_])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)(?![A-Za-z_])')


def printed(events, depth=0):
    """the text sent to std::cout, as a list of text terms in program order"""
    out = []
    i = 0
    while i < len(events):
        e = events[i]
        if len(e.loops) <= depth:
            t = e.text
            for c, kind in reversed(e.pc):
                t = X.ite(c, t, X.strlit(''))
            out.append(t)
            i += 1
            continue
        k, n = e.loops[depth]
        grp = []
        while i < len(events) and len(events[i].loops) > depth and events[i].loops[depth][0] is k:
            grp.append(events[i])
            i += 1
        out.append(X.gen(n, k, mk('list', *printed(grp, depth + 1))))
    return out


def to_cout(fn):
    ev = [e for e in fn.evs('print') if e.stream.op == 'ptr' and e.stream.args[0].startswith('g:') and 'cout' in e.stream.args[0]]
    return mk('list', *printed(ev))


def flat(V, x):
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return ''.join(flat(V, y) for y in x)
    if isinstance(x, R.Obj):
        return V.tostr(x)
    try:
        return ''.join(flat(V, y) for y in V.seq(x))
    except R.NoEval:
        return V.tostr(x)


def words(s):
    return ' '.join(re.findall(r'[a-z_]\w*', s.lower()))


def tokens(s):
    """the numbers of a text, each with the words between it and the number before it"""
    out, last = [], 0
    for m in NUM.finditer(s):
        out.append((words(s[last:m.start()]), float(m.group())))
        last = m.end()
    out.append((words(s[last:]), None))
    return out


def near(a, b):
    if a is None or b is None:
        return a is b
    if math.isnan(b):
        return math.isnan(a)
    return a == b or abs(a - b) <= 2e-5 * max(1e-3, abs(a), abs(b))


class Txt:
    """expected output: (words in front, value) in order; a Run stands for several numbers"""

    def __init__(self, *items):
        self.items = items

    def __repr__(self):
        return repr(self.items)


class Run:
    """numbers with given words in front of each that together satisfy a predicate"""

    def __init__(self, labels, pred, what):
        self.labels, self.pred, self.what = labels, pred, what

    def __repr__(self):
        return self.what


def same_text(V, x, w):
    tk = tokens(flat(V, x))
    i = 0
    for it in w.items:
        if isinstance(it, Run):
            n = len(it.labels)
            if i + n > len(tk) or [t[0] for t in tk[i:i + n]] != it.labels or any(t[1] is None for t in tk[i:i + n]):
                return False
            if not it.pred([t[1] for t in tk[i:i + n]]):
                return False
            i += n
            continue
        if i >= len(tk) or tk[i][0] != it[0] or not near(tk[i][1], it[1]):
            return False
        i += 1
    return i == len(tk)


def vals(vs, first, rest=''):
    return [((first if i == 0 else rest), v) for i, v in enumerate(vs)]


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def app(A, v):
    return [sum(A[i][k] * v[k] for k in range(3)) for i in range(3)]


def norm(v):
    return math.sqrt(sum(a * a for a in v))


def close(A, B):
    return all(abs(A[i][j] - B[i][j]) < 2e-4 for i in range(3) for j in range(3))


def show(A):
    return [[round(x, 4) for x in r] for r in A]


def rot(rpy):
    r, p, y = rpy
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return mul(mul([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]], [[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]),
               [[1, 0, 0], [0, cr, -sr], [0, sr, cr]])


def rpy_run(Rm, before):
    """roll(deg) pitch(deg) yaw(deg) of a rotation, in this order"""
    def ok(v):
        rad, deg = v[0::2], v[1::2]
        return close(rot(rad), Rm) and all(abs(d - r * 180 / math.pi) < 2e-3 * max(1, abs(d) / 10) for r, d in zip(rad, deg))
    return Run([before, '', 'deg', '', 'deg', ''], ok, 'roll pitch yaw with degrees of %s' % show(Rm))


def quat_run(Rm, before):
    def ok(v):
        x, y, z, w = v
        if abs(math.sqrt(sum(a * a for a in v)) - 1) > 1e-3:
            return False
        Q = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
             [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
             [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
        return close(Q, Rm)
    return Run([before, '', '', ''], ok, 'quaternion x y z w of %s' % show(Rm))


NAMES = dict(parent='parentname', child='childname', descr='descriptionname', title='titlename')


def spec():
    def values(V, k):
        if k in NAMES:
            return NAMES[k]
        if k.endswith('.names.first') or k.endswith('.names.second'):
            h = int(V.h(k) * 1e6)
            return ''.join(chr(97 + (h // 26 ** i) % 26) for i in range(4))
        return None
    return R.Spec(values=values, hi=3)


def iso(V, x):
    T = V.iso(x)
    return T.R, T.t


def m4(Rm, t):
    return [*Rm[0], t[0], *Rm[1], t[1], *Rm[2], t[2], 0.0, 0.0, 0.0, 1.0]


def vecn(V, x, n):
    return [V.num(V.sel(x, i)) for i in range(n)]


def c30(c):
    c.explain = ('Every printing helper of print_utils.h and covariance_types.h is summarised as the text it produces (stream '
                 'insertions in program order, as terms over its arguments). Under pseudo-random arguments the text is split '
                 'into numbers and the words in front of each, and compared with the values that belong under these names '
                 'and units, computed independently (roll/pitch/yaw and quaternions through the rotation they stand for).')
    db = C.dbm.get('tu:print.cpp')
    N = 12 if c.tier == 'quick' else 80
    P = 'rct_common::'

    def run(rule, name, names, want, cout=True, text=None, **kw):
        if not H.find(db, name):
            c.unres(rule, name, 'not found')
            return
        fn = H.analyse(c, rule, db, name, names=names, **kw)
        if fn is None:
            return
        t = to_cout(fn) if cout else fn.value
        H.agree(c, rule, fn.where, text or name.split('::')[-1] + ' prints every value under its name', fn, t, want, spec(), n=N,
                same=same_text)

    run('vector', P + 'getStringXYZ', ['xyz3'], lambda V, A: Txt(*vals(vecn(V, A.root('xyz3'), 3), 'xyz'), ('', None)), False)

    def w_rpy(V, A):
        y, p, r = vecn(V, A.root('ypr3'), 3)
        d = 180 / math.pi
        return Txt(('rpy', r), ('', r * d), ('deg', p), ('', p * d), ('deg', y), ('', y * d), ('deg', None))
    run('angles', P + 'getStringRPY', ['ypr3'], w_rpy, False)

    def w_q(V, A):
        return Txt(quat_run(V.iso(A.root('quat')).R, 'qxyzw'), ('', None))
    run('quaternion', P + 'getStringQuaternion', ['quat'], w_q, False)

    def listed(root, labels, pre):
        def w(V, A):
            v = vecn(V, A.root(root), len(labels))
            return Txt(*[((pre + ' ' if i == 0 else '') + n, x) for i, (n, x) in enumerate(zip(labels, v))], ('', None))
        return w
    INTR, DIST = ('fx', 'fy', 'cx', 'cy'), ('k1', 'k2', 'p1', 'p2', 'k3')
    run('intrinsics', P + 'getStringIntrinsics', ['in4'], listed('in4', INTR, 'intr'), False)
    run('distortion', P + 'getStringDistortion', ['di5'], listed('di5', DIST, 'distortions'), False)
    run('intrinsics', P + 'printCameraIntrinsics', ['in4', 'descr'], listed('in4', INTR, NAMES['descr'] + ' intr'))
    run('distortion', P + 'printCameraDistortion', ['di5', 'descr'], listed('di5', DIST, NAMES['descr'] + ' distortions'))

    def w_tf(V, A):
        Rm, t = iso(V, A.root('tf'))
        frames = 'urdf format %s to %s' % (NAMES['parent'], NAMES['child'])
        return Txt(*vals(m4(Rm, t), NAMES['descr']), *vals(t, frames + ' xyz'), rpy_run(Rm, 'rpy'), quat_run(Rm, 'deg qxyzw'),
                   ('', None))
    run('transform', P + 'printTransform', ['tf', 'parent', 'child', 'descr'], w_tf)

    def w_diff(V, A):
        R1, t1 = iso(V, A.root('tf1'))
        R2, t2 = iso(V, A.root('tf2'))
        s = [b - a for a, b in zip(t1, t2)]
        Rd, td = mul(tr(R1), R2), app(tr(R1), s)
        ang = math.degrees(math.acos(max(-1, min(1, (Rd[0][0] + Rd[1][1] + Rd[2][2] - 1) / 2))))
        fr = '%s to %s diff' % (NAMES['parent'], NAMES['child'])
        return Txt((NAMES['descr'] + ' ' + fr + ' delta s', norm(s)), *vals(s, 'at xyz'), ('delta a', ang),
                   rpy_run(Rd, 'and rpy'), ('deg ' + fr + ' relative to transform', 1.0), *vals(m4(Rd, td), ''),
                   ('delta s', norm(td)), *vals(td, 'at xyz'), ('delta a', ang), rpy_run(Rd, 'and rpy'), ('deg', None))
    run('transform', P + 'printTransformDiff', ['tf1', 'tf2', 'parent', 'child', 'descr'], w_diff)

    def w_opt(V, A):
        i, f = V.num(A.root('initialcost')), V.num(A.root('finalcost'))
        if i < 0 or f < 0:
            raise H.Skip
        return Txt(('did converge', float(V.bool(A.root('conv')))), ('initial cost', math.sqrt(i)),
                   ('pixels per dot final cost', math.sqrt(f)), ('pixels per dot', None))
    run('costs', P + 'printOptResults', ['conv', 'initialcost', 'finalcost'], w_opt)
    run('title', P + 'printTitle', ['title', 'width'], lambda V, A: Txt((NAMES['title'], None)))

    # named covariance entries
    Q = 'rct_optimizations::'

    def line(V, x):
        n = V.fld(x, 'names')
        return V.tostr(V.fld(n, 'first')) + ' ' + V.tostr(V.fld(n, 'second')), V.num(V.fld(x, 'value'))

    def this(V, t):
        return V.eval(C.typed('this', Q + t))

    run('named', Q + 'NamedParam::toString', None, lambda V, A: Txt(line(V, this(V, 'NamedParam')), ('', None)), False)

    def w_cov(V, A):
        out, pre = [], ''
        for f, h in (('standard_deviations', 'std devs'), ('covariances', 'covariance'), ('correlation_coeffs', 'correlation coeffs')):
            pre = (pre + ' ' + h).strip()
            for x in V.seq(V.fld(this(V, 'CovarianceResult'), f)):
                l, v = line(V, x)
                out.append(((pre + ' ' + l).strip(), v))
                pre = ''
        return Txt(*out, (pre, None))
    run('covariance', Q + 'CovarianceResult::toString', None, w_cov, False)

    def w_above(V, A):
        t = V.num(A.root('threshold'))
        if t < 0:
            raise H.Skip
        xs = sorted((x for x in V.seq(V.fld(this(V, 'CovarianceResult'), 'correlation_coeffs')) if abs(V.num(V.fld(x, 'value'))) > t),
                    key=lambda x: -abs(V.num(V.fld(x, 'value'))))
        if not xs:
            return Txt(('no correlation coefficients with magnitude', float('%.6f' % t)), ('', None))
        return Txt(('correlation coeff', float('%.6f' % t)), *[line(V, x) for x in xs], ('', None))
    run('threshold', Q + 'CovarianceResult::printCorrelationCoeffAboveThreshold', ['threshold'], w_above, False)
    c.minimum = 4
