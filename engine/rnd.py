"""Random interpretation of value terms.

Two value-flow terms whose normal forms differ are compared by giving every leaf (parameter field, element, size,
uninterpreted library result) a pseudo-random value that depends only on the leaf, and evaluating both terms with these
values (Gulwani & Necula, "Global value numbering using random interpretation"). Equal terms always agree; unequal ones
disagree on some valuation, which is then reported as the witness. No repository code is executed."""
import copy
import hashlib
import math
import re
import sys
from fractions import Fraction
from . import terms as X
from .terms import T, TY, TRUE, FALSE, NULL, UNDEF

sys.setrecursionlimit(100000)


class NoEval(Exception):
    pass


def shape_error(a, b):
    # 3 against 4 is what confusing a rotation with a homogeneous matrix looks like, which fixed-size types exclude at
    # compile time: the representation here is at fault, not the code
    if {a, b} <= {1, 2, 3, 4}:
        return NoEval('shape %s, %s' % (a, b))
    return Mismatch('shape %s, %s' % (a, b))


class NoValue(NoEval):
    """the value of an object that was never given one"""


class Mismatch(NoEval):
    """operands of different size (an assertion failure or memory error of the library)"""


class Restart(Exception):
    pass


class Obj:
    """leaf value, interpreted on demand"""
    __slots__ = ('key', 'ty')

    def __init__(self, key, ty=None):
        self.key = key
        self.ty = ty

    def __repr__(self):
        return '<%s>' % self.key


class Struct:
    __slots__ = ('base', 'f')

    def __init__(self, base, f):
        self.base = base
        self.f = f

    def __repr__(self):
        return '{%r|%s}' % (self.base, ', '.join('%s=%r' % x for x in sorted(self.f.items())))


class Iso:
    __slots__ = ('R', 't')

    def __init__(self, R, t):
        self.R = R
        self.t = t

    def __repr__(self):
        return 'Iso(rv=%s,t=%s)' % (['%.4g' % x for x in logR(self.R)], ['%.4g' % x for x in self.t])


class Mat:
    __slots__ = ('rows', 'base')

    def __init__(self, rows, base=None):
        self.rows = rows
        self.base = base

    def __repr__(self):
        return 'Mat%r' % (self.rows,)


class Over:
    """opaque object with element overwrites"""
    __slots__ = ('base', 'ups')

    def __init__(self, base, ups):
        self.base = base
        self.ups = ups     # canon index -> (index value, value)

    def __repr__(self):
        return 'Over(%r,%r)' % (self.base, {k: v[1] for k, v in self.ups.items()})


class MapV:
    __slots__ = ('d', 'base')

    def __init__(self, d, base=None):
        self.d = d         # canon key -> (key, value)
        self.base = base

    def __repr__(self):
        return 'Map%r' % ({k: v[1] for k, v in self.d.items()},)


class Chunk:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Uninit:
    def __repr__(self):
        return 'uninit'


UN = Uninit()

I3 = ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))


def mm(A, B):
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def mv(A, v):
    return [sum(A[i][k] * v[k] for k in range(3)) for i in range(3)]


def tr(A):
    return tuple(tuple(A[j][i] for j in range(3)) for i in range(3))


def expR(v):
    th = math.sqrt(sum(x * x for x in v))
    if th < 1e-12:
        x, y, z = v
        return ((1., -z, y), (z, 1., -x), (-y, x, 1.))
    x, y, z = (a / th for a in v)
    c, s = math.cos(th), math.sin(th)
    C = 1 - c
    return ((c + x * x * C, x * y * C - z * s, x * z * C + y * s),
            (y * x * C + z * s, c + y * y * C, y * z * C - x * s),
            (z * x * C - y * s, z * y * C + x * s, c + z * z * C))


def logR(R):
    c = max(-1., min(1., (R[0][0] + R[1][1] + R[2][2] - 1) / 2))
    th = math.acos(c)
    w = [R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]]
    if th < 1e-9:
        return [x / 2 for x in w]
    s = math.sin(th)
    if abs(s) < 1e-7:
        # half turn: axis from the diagonal
        ax = [math.sqrt(max(0., (R[i][i] + 1) / 2)) for i in range(3)]
        i = ax.index(max(ax))
        for j in range(3):
            if j != i and R[i][j] < 0:
                ax[j] = -ax[j]
        return [th * a for a in ax]
    return [x * th / (2 * s) for x in w]


def quatR(R):
    v = logR(R)
    th = math.sqrt(sum(x * x for x in v))
    if th < 1e-12:
        return [v[0] / 2, v[1] / 2, v[2] / 2, 1.]
    s = math.sin(th / 2) / th
    return [v[0] * s, v[1] * s, v[2] * s, math.cos(th / 2)]


def Rquat(q):
    x, y, z, w = q
    return ((1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)),
            (2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)),
            (2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)))


ENUMS = ('ceres::TerminationType', 'rct_optimizations::DHJointType', 'cv::', 'YAML::')


CHEAP = {'bv', 'k', 'num', 'in', 'phi', 'lam', 'fld', 'elemA', 'elemB', 'sorted', 'argbest'}
_BV = {}


def bvar(l):
    b = _BV.get(l)
    if b is None:
        b = _BV[l] = X.mk('bv', l)
    return b


_ft = {}


def field_type(ty, n):
    if ty is None:
        return None
    k = (ty, n)
    if k not in _ft:
        r = X.RECORDS.get(X.strip_type(ty))
        _ft[k] = next((f['t'] for f in r['fields'] if f['n'] == n), None) if r else None
    return _ft[k]


def elem_type(ty):
    if ty is None:
        return None
    k = (ty, None)
    if k not in _ft:
        t = X.strip_type(ty)
        if t.startswith(('std::vector<', 'std::array<')):
            d, j = 0, len(t)
            for j in range(t.index('<') + 1, len(t)):
                if t[j] in '<([':
                    d += 1
                elif t[j] in '>)]':
                    if d == 0:
                        break
                    d -= 1
                elif t[j] == ',' and d == 0:
                    break
            e = t[t.index('<') + 1:j].strip()
            _ft[k] = None if e in ('double', 'float') else e
        else:
            _ft[k] = None
    return _ft[k]


DECOMP = {'fullPivLu', 'partialPivLu', 'lu', 'colPivHouseholderQr', 'householderQr', 'fullPivHouseholderQr', 'ldlt', 'llt',
          'jacobiSvd', 'bdcSvd', 'completeOrthogonalDecomposition', 'JacobiSVD', 'BDCSVD', 'SelfAdjointEigenSolver', 'FullPivLU',
          'PartialPivLU', 'ColPivHouseholderQR', 'HouseholderQR', 'LDLT', 'LLT', 'FullPivHouseholderQR',
          'CompleteOrthogonalDecomposition'}
EIGFN = DECOMP | {'eulerAngles', 'diagonal', 'value', 'reverse', 'solve', 'inverse', 'matrixU', 'matrixV', 'singularValues', 'eigenvalues', 'eigenvectors', 'info'}


def lstsq(a, b):
    """least squares solution (normal equations with one refinement); NoEval when rank deficient"""
    n = len(a[0])
    at = [list(r) for r in zip(*a)]

    def solve(b):
        g = [[sum(x * y for x, y in zip(u, v)) for v in at] + [sum(x * r[k] for x, r in zip(u, b)) for k in range(len(b[0]))] for u in at]
        sc = max(abs(g[i][i]) for i in range(n)) or 1.0
        for i in range(n):
            p = max(range(i, n), key=lambda q: abs(g[q][i]))
            if abs(g[p][i]) < 1e-13 * sc:
                raise NoEval('rank deficient')
            g[i], g[p] = g[p], g[i]
            g[i] = [x / g[i][i] for x in g[i]]
            for q in range(n):
                if q != i and g[q][i]:
                    g[q] = [x - g[q][i] * y for x, y in zip(g[q], g[i])]
        return [r[n:] for r in g]
    x = solve(b)
    for _ in range(2):
        res = [[b[i][k] - sum(a[i][j] * x[j][k] for j in range(n)) for k in range(len(b[0]))] for i in range(len(a))]
        dx = solve(res)
        x = [[p + q for p, q in zip(r, s)] for r, s in zip(x, dx)]
    return x


def jacobi(m):
    """eigenvalues and eigenvectors (columns) of a symmetric matrix"""
    n = len(m)
    a = [list(map(float, r)) for r in m]
    v = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-26 * (1 + sum(a[i][i] ** 2 for i in range(n))):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < 1e-300:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    return [a[i][i] for i in range(n)], v


class Valuation:
    near_kind = None

    def __init__(self, seed, spec=None):
        self.seed = seed
        self.spec = spec or Spec()
        self.kenv = {}
        self.memo = {}
        self.elems = None
        self.unint = set()
        self.bind = None        # argument name -> value
        self.exact = False      # isApprox means equality up to its precision
        self.touched = None     # set collecting leaf keys read
        self.enumsets = {}
        self.perturb = None     # prefix of leaves whose value is changed
        self.identity = False   # reads solved(x) as x

    # ------------------------------------------------------------ leaf values
    def h(self, key):
        if self.perturb is not None and key.lstrip('bin|').startswith(self.perturb):
            key = 'perturbed|' + key
        d = hashlib.blake2b(('%s|%s' % (self.seed, key)).encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big') / 2 ** 64

    def touch(self, key):
        if self.touched is not None:
            self.touched.add(key)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Obj):
            self.touch(v.key)
            r = self.spec.value(self, v.key)
            if r is not None:
                return r
            if self.spec.near is not None and not (v.ty and X.strip_type(v.ty) in ENUMS):
                r = self.spec.near_value(self, v.key, self.isint(v))
                if r is not None:
                    return r
            if self.isint(v):
                return self.spec.small(self, v.key)
            u = self.h(v.key)
            s = 1 if u < 0.5 else -1
            u = (u * 2) % 1.0
            return s * (0.15 + 2.3 * u)
        if isinstance(v, Iso) or isinstance(v, (list, Struct, Mat)):
            raise NoEval('number expected')
        raise NoEval('number expected: %r' % (v,))

    def isint(self, v):
        if v.key in self.spec.intkeys:
            return True
        ty = v.ty
        if ty:
            t = X.strip_type(ty)
            if X.is_int_type(t) or t in ENUMS:
                return True
        return False

    def int(self, v):
        if isinstance(v, Obj):
            if not self.isint(v) and self.spec.value(self, v.key) is None:
                self.spec.intkeys.add(v.key)
                raise Restart()
            return int(self.num(v))
        n = self.num(v)
        r = round(n)
        if abs(n - r) > 1e-9:
            raise NoEval('integer expected')
        return int(r)

    def bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, Obj):
            self.touch(v.key)
            r = self.spec.value(self, v.key)
            if r is not None:
                return bool(r)
            if v.ty and X.is_int_type(X.strip_type(v.ty)) and X.strip_type(v.ty) != 'bool':
                return self.num(v) != 0
            return self.h('b|' + v.key) < 0.5
        raise NoEval('bool expected: %r' % (v,))

    def size(self, v):
        if isinstance(v, list):
            return len(v)
        if isinstance(v, Obj):
            d = X.dims_of_type(X.strip_type(v.ty)) if v.ty else None
            if isinstance(d, int):
                return d
            d = self.shape(v)
            if d:
                return d[0] * d[1]
            return self.spec.size(self, v.key)
        if isinstance(v, Over):
            if isinstance(v.base, list):
                return len(v.base)
            return self.size(v.base)
        if isinstance(v, MapV):
            if v.base is not None:
                raise NoEval('map size')
            return len(v.d)
        if isinstance(v, Mat):
            if len(v.rows) == 0:
                return 0
            return len(v.rows) * len(v.rows[0])
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Struct) and isinstance(v.base, Obj):
            return self.size(v.base)
        raise NoEval('size of %r' % (v,))

    def seq(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, (Obj, Over)):
            return [self.sel(v, i) for i in range(self.size(v))]
        if isinstance(v, Mat) and v.rows and (len(v.rows[0]) == 1):
            return [r[0] for r in v.rows]
        if isinstance(v, Mat) and len(v.rows) == 1:
            return list(v.rows[0])
        if isinstance(v, MapV):
            if v.base is not None:
                raise NoEval('map')
            return [(k, x) for c, (k, x) in sorted(v.d.items(), key=lambda q: self.mapkey(q[1][0]))]
        raise NoEval('sequence expected: %r' % (v,))

    def mapkey(self, k):
        if isinstance(k, Obj):
            if k.ty and X.is_int_type(X.strip_type(k.ty)):
                return (0, self.num(k), '')
            return (1, 0, k.key)
        if isinstance(k, (int, float)):
            return (0, k, '')
        if isinstance(k, str):
            return (1, 0, k)
        return (2, 0, self.canon(k))

    def vec3(self, v):
        return self.vec(v, 3)

    def vec(self, v, n=None):
        if isinstance(v, (Obj, Over)):
            if n is None:
                n = self.size(v)
            return [self.num(self.sel(v, i)) for i in range(n)]
        s = self.seq(v)
        if n is not None and len(s) != n:
            raise NoEval('vector of %d expected' % n)
        return [self.num(x) for x in s]

    def iso(self, v):
        if isinstance(v, Iso):
            return v
        if isinstance(v, Obj):
            self.touch(v.key)
            if v.key.startswith(('uninit', 'undef')):
                raise NoValue("uninitialised transform")
            rv = [(self.h(v.key + '.R%d' % i) - 0.5) * 2.2 for i in range(3)]
            t = [self.num(Obj(v.key + '.t[%d]' % i)) for i in range(3)]
            return Iso(expR(rv), t)
        if isinstance(v, Mat):
            if len(v.rows) == 3 and all(len(r) == 3 for r in v.rows):
                return Iso(tuple(tuple(self.num(x) for x in r) for r in v.rows), [0., 0., 0.])
            if len(v.rows) >= 3 and all(len(r) == 4 for r in v.rows):
                return Iso(tuple(tuple(self.num(x) for x in r[:3]) for r in v.rows[:3]),
                           [self.num(r[3]) for r in v.rows[:3]])
        if isinstance(v, Over):
            R = tuple(tuple(self.num(self.sel(v, (i, j))) for j in range(3)) for i in range(3))
            return Iso(R, [0., 0., 0.])
        raise NoEval('transform expected: %r' % (v,))

    # ------------------------------------------------------------ structure access
    def fld(self, v, n, ty=None):
        if isinstance(v, Struct):
            if n in v.f:
                return v.f[n]
            if isinstance(v.base, Obj) and v.base.key == 'undef':
                return Obj('undef.' + n, ty)
            return self.fld(v.base, n, ty)
        if isinstance(v, Iso):
            if n == 'R':
                return Iso(v.R, [0., 0., 0.])
            if n == 't':
                return list(v.t)
        if isinstance(v, tuple) and n in ('first', 'second'):
            return v[0 if n == 'first' else 1]
        if isinstance(v, Obj):
            if n in ('R', 't'):
                return self.fld(self.iso(v), n)
            return Obj(v.key + '.' + n, ty or field_type(v.ty, n))
        if isinstance(v, Over):
            return self.fld(v.base, n, ty)
        raise NoEval('field %s of %r' % (n, v))

    def idx(self, i):
        """canonical index"""
        if isinstance(i, bool):
            return int(i)
        if isinstance(i, int):
            return i
        if isinstance(i, float):
            r = round(i)
            if abs(i - r) < 1e-9:
                return int(r)
            return self.canon(i)
        if isinstance(i, tuple) and len(i) == 2 and i[0] != 'rowix':
            try:
                return (self.int(i[0]), self.int(i[1]))
            except NoEval:
                return self.canon(i)
        if isinstance(i, Obj) and self.isint(i):
            return self.int(i)
        return self.canon(i)

    def sel(self, v, i, ty=None):
        if isinstance(v, list):
            if isinstance(i, tuple) and len(i) == 2 and i[0] != 'rowix':
                a, b = self.int(i[0]), self.int(i[1])
                i = a if b == 0 else b if a == 0 else None
                if i is None:
                    raise NoEval('matrix index of vector')
            n = self.int(i)
            if 0 <= n < len(v):
                return v[n]
            return Obj('oob[%d of %d]' % (n, len(v)))
        if isinstance(v, str):
            n = self.int(i)
            return v[n] if 0 <= n < len(v) else Obj('oob')
        if isinstance(v, Iso):
            if isinstance(i, tuple) and len(i) == 2:
                a, b = self.int(i[0]), self.int(i[1])
                if a < 3 and b < 3:
                    return v.R[a][b]
                if a < 3 and b == 3:
                    return v.t[a]
                return 1.0 if a == b else 0.0
            raise NoEval('transform index')
        if isinstance(v, Mat):
            if isinstance(i, tuple) and len(i) == 2 and i[0] != 'rowix':
                a, b = self.int(i[0]), self.int(i[1])
                if 0 <= a < len(v.rows) and 0 <= b < len(v.rows[a]):
                    return v.rows[a][b]
                return Obj('oob[%d,%d]' % (a, b))
            if isinstance(i, tuple) and i[0] == 'rowix':
                a = self.int(i[1])
                return list(v.rows[a]) if 0 <= a < len(v.rows) else Obj('oob')
            n = self.int(i)
            if len(v.rows) > 1 and len(v.rows[0]) > 1:      # linear index into a column-major buffer
                q, n = divmod(n, len(v.rows))
                return v.rows[n][q] if 0 <= q < len(v.rows[0]) else Obj('oob[%d]' % n)
            s = self.seq(v)
            return s[n] if 0 <= n < len(s) else Obj('oob[%d]' % n)
        if isinstance(v, Over):
            c = self.idx(i)
            if c in v.ups:
                return v.ups[c][1]
            return self.sel(v.base, i, ty)
        if isinstance(v, MapV):
            c = self.idx(i)
            if c in v.d:
                return v.d[c][1]
            if v.base is not None:
                return self.sel(v.base, i, ty)
            return Obj('mapdefault', ty)
        if isinstance(v, Struct):
            if isinstance(v.base, Obj) and v.base.key != 'undef':
                return self.sel(v.base, i, ty)
            raise NoEval('index of struct')
        if isinstance(v, Obj):
            c = self.idx(i)
            ty = ty or elem_type(v.ty)
            if isinstance(i, tuple) and len(i) == 2 and i[0] == 'rowix':
                return Obj('%s.row[%s]' % (v.key, self.int(i[1])), ty)
            if isinstance(c, int):
                n = None
                d = X.dims_of_type(X.strip_type(v.ty)) if v.ty else None
                if isinstance(d, int):
                    n = d
                if n is not None and not (0 <= c < n):
                    return Obj('oob[%s][%d]' % (v.key, c))
                if self.spec.bounded and n is None and not v.key.startswith(('ptr:', '*')):
                    if not (0 <= c < self.size(v)):
                        return Obj('oob[%s][%d]' % (v.key, c))
                return Obj('%s[%d]' % (v.key, c), ty)
            return Obj('%s[%s]' % (v.key, c if isinstance(c, str) else ','.join(map(str, c))), ty)
        if isinstance(v, tuple):
            n = self.int(i)
            return v[n]
        raise NoEval('index of %r' % (v,))

    def upd(self, v, i, x):
        if isinstance(i, tuple) and i and i[0] == 'segix':
            q = self.vecany(x) if not isinstance(x, list) else x
            if len(q) != i[2]:
                raise Mismatch('segment size')
            for k, y in enumerate(q):
                if isinstance(v, list) and not 0 <= i[1] + k < len(v):
                    raise Mismatch('segment outside the vector')
                v = self.upd(v, i[1] + k, y)
            return v
        if isinstance(i, tuple) and i and i[0] == 'layix':
            off, r, c, rm = i[1:]
            m = self.tomat(x)
            if len(m) != r or any(len(q) != c for q in m):
                raise Mismatch('shape of a mapped matrix')
            for a in range(r):
                for b in range(c):
                    v = self.upd(v, off + (a * c + b if rm else b * r + a), m[a][b])
            return v
        if isinstance(v, list):
            try:
                n = self.int(i) if not isinstance(i, tuple) else None
                if n is None:
                    a, b = self.int(i[0]), self.int(i[1])
                    n = a if b == 0 else b
            except NoEval:
                n = None
            if n is not None and 0 <= n < len(v):
                r = list(v)
                r[n] = x
                return r
            if n is not None:
                return v
        if isinstance(v, Mat):
            if isinstance(i, tuple) and i[0] in ('blkix', 'colix'):
                rows = [list(r) for r in v.rows]
                if i[0] == 'blkix':
                    i0, j0, nr, nc = i[1:]
                else:
                    i0, j0, nr, nc = 0, self.int(i[1]), len(rows), 1
                m = None if isinstance(x, list) and 1 in (nr, nc) else self.tomat(x)
                for a in range(nr):
                    for b in range(nc):
                        if not (0 <= i0 + a < len(rows) and 0 <= j0 + b < len(rows[0])):
                            raise NoEval('block outside the matrix')
                        rows[i0 + a][j0 + b] = x[a + b] if m is None else m[a][b]
                return Mat(rows)
            if isinstance(i, tuple) and i[0] != 'rowix':
                a, b = self.int(i[0]), self.int(i[1])
                rows = [list(r) for r in v.rows]
                if 0 <= a < len(rows) and 0 <= b < len(rows[a]):
                    rows[a][b] = x
                return Mat(rows)
            if isinstance(i, tuple) and i[0] == 'rowix':
                a = self.int(i[1])
                rows = [list(r) for r in v.rows]
                if 0 <= a < len(rows):
                    rows[a] = self.seq(x)
                return Mat(rows)
            if isinstance(i, tuple):
                raise NoEval('matrix update')
            if all(len(r) == 1 for r in v.rows):
                rows = [list(r) for r in v.rows]
                n = self.int(i)
                if 0 <= n < len(rows):
                    rows[n][0] = x
                return Mat(rows)
        if isinstance(v, Iso):
            if isinstance(i, tuple):
                a, b = self.int(i[0]), self.int(i[1])
                R = [list(r) for r in v.R]
                t = list(v.t)
                if b == 3:
                    t[a] = self.num(x)
                else:
                    R[a][b] = self.num(x)
                return Iso(tuple(tuple(r) for r in R), t)
        if isinstance(v, MapV):
            d = dict(v.d)
            d[self.idx(i)] = (i, x)
            return MapV(d, v.base)
        if isinstance(v, Over):
            u = dict(v.ups)
            u[self.idx(i)] = (i, x)
            return Over(v.base, u)
        if isinstance(v, (Obj, Struct)):
            return Over(v, {self.idx(i): (i, x)})
        raise NoEval('update of %s at %s with %s' % (repr(v)[:60], repr(i)[:40], repr(x)[:60]))

    # ------------------------------------------------------------ canonical keys
    def canon(self, v):
        if isinstance(v, bool):
            return str(int(v))
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return ('%.7g' % v) if abs(v) > 1e-9 else '0'
        if isinstance(v, Obj):
            sv = self.spec.value(self, v.key)
            if isinstance(sv, str):
                return repr(sv)
            if sv is not None or v.key in self.spec.intkeys:
                return self.canon(self.num(v))
            return v.key
        if isinstance(v, str):
            return repr(v)
        if isinstance(v, Iso):
            return 'Iso(%s;%s)' % (','.join('%.5f' % (x + 0.0) for r in v.R for x in r), ','.join('%.5f' % x for x in v.t))
        if isinstance(v, (list, tuple)):
            return '[' + ','.join(self.canon(x) for x in v) + ']'
        if isinstance(v, Mat):
            return 'M' + self.canon([list(r) for r in v.rows])
        if isinstance(v, Struct):
            return '{%s|%s}' % (self.canon(v.base), ','.join('%s=%s' % (k, self.canon(x)) for k, x in sorted(v.f.items())))
        if isinstance(v, Over):
            return 'O(%s|%s)' % (self.canon(v.base), ','.join('%s=%s' % (k, self.canon(x[1])) for k, x in
                                                              sorted(v.ups.items(), key=str)))
        if isinstance(v, MapV):
            return 'Map(%s)' % ','.join('%s=%s' % (k, self.canon(x[1])) for k, x in sorted(v.d.items(), key=str))
        if isinstance(v, Chunk):
            return self.canon(v.s)
        return repr(v)

    # ------------------------------------------------------------ evaluation
    def eval(self, t):
        if isinstance(t, str):
            return t
        closed = t.maxbv == 0 and not t.free
        if closed:
            r = self.memo.get(t)
            if r is not None:
                return r
        elif t.op not in CHEAP:
            env = self.kenv
            vs = [env.get(bvar(l)) for l in range(1, t.maxbv + 1)] + [env.get(k) for k in t.free]
            okey = (t, tuple(v if type(v) is int else id(v) for v in vs))
            r = self.memo.get(okey)
            if r is not None:
                return r[0]
        f = getattr(self, 'o_' + t.op, None)
        try:
            r = f(t, *t.args) if f else self.default(t)
        except ZeroDivisionError:
            raise NoEval('division by zero')
        except OverflowError:
            raise NoEval('overflow')
        if isinstance(r, Obj) and r.ty is None:
            ty = TY.get(t)
            if ty:
                r = Obj(r.key, ty)
        if closed:
            self.memo[t] = r
        elif t.op not in CHEAP:
            self.memo[okey] = (r, vs)
        return r

    def carg(self, a):
        if isinstance(a, T):
            return self.canon(self.eval(a))
        if isinstance(a, tuple):
            return '(' + ','.join(self.carg(x) for x in a) + ')'
        return str(a)

    def default(self, t):
        if X.is_binder(t):
            raise NoEval('binder ' + t.op)
        name = t.op + (':' + str(t.args[0]) if t.args and isinstance(t.args[0], str) else '')
        self.unint.add(name)
        head, _, fn = name.partition(':')
        if head not in OPAQUE and not fn.startswith(OPAQUE_NAMES):
            # a library function without a model: what it yields is not known, so nothing may be concluded from it
            raise NoEval('no model for ' + name)
        return Obj('%s(%s)' % (t.op, ','.join(self.carg(a) for a in t.args)), TY.get(t))

    def o_num(self, t, v):
        return int(v) if v.denominator == 1 else float(v)

    def o_lfn(self, t, *args):
        """result of a library function: an arbitrary function of the (evaluated) arguments"""
        return Obj('%s(%s)' % (args[0], ','.join(self.carg(a) for a in args[1:])), TY.get(t))

    def o_narrowf(self, t, v):
        """a double read back as float: not the same value (an arbitrary function close to the identity)"""
        return self.num(self.eval(v)) * 1.0001

    def o_yas(self, t, to, v):
        return Obj('%s:%s' % (self.canon(self.eval(v)), to), TY.get(t))

    def o_matprop(self, t, name, h):
        return Obj('matprop(%s,%s)' % (name, self.canon(self.eval(h))), TY.get(t))

    def canon_call(self, name, *vs):
        return '%s(%s)' % (name, ','.join(self.canon(v) for v in vs))

    def o_pixel(self, t, h, *rc):
        h = self.eval(h)
        rc = [self.int(self.eval(x)) for x in rc]
        k = self.canon(h)
        dims = [self.spec.value(self, k + '.rows'), self.spec.value(self, k + '.cols')]
        if any(d is not None and not 0 <= x < d for x, d in zip(rc, dims)):
            raise Mismatch('pixel (%s) outside the image' % ','.join(map(str, rc)))
        return Obj('pixel(%s)%s' % (k, ''.join('[%d]' % x for x in rc)), TY.get(t))

    def o_true(self, t):
        return True

    def o_false(self, t):
        return False

    def o_null(self, t):
        return Obj('null')

    def o_undef(self, t):
        return Obj('undef')

    def o_in(self, t, n):
        if self.bind and n in self.bind:
            return self.bind[n]
        return Obj(str(n), TY.get(t))

    def less(self, cmp_, x, y):
        if cmp_.op == 'less':
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return [self.num(a) for a in x] < [self.num(b) for b in y]
            return self.num(x) < self.num(y)
        if cmp_.op == 'greater':
            return self.num(x) > self.num(y)
        old, self.memo = self.memo, {}
        olde = self.elems
        self.elems = (x, y)
        try:
            return self.bool(self.eval(cmp_))
        finally:
            self.memo = old
            self.elems = olde

    def o_elemA(self, t):
        return self.elems[0]

    def o_elemB(self, t):
        return self.elems[1]

    def o_sorted(self, t, s, cmp_):
        import functools
        q = list(self.seq(self.eval(s)))
        return sorted(q, key=functools.cmp_to_key(lambda a, b: -1 if self.less(cmp_, a, b) else (1 if self.less(cmp_, b, a) else 0)))

    def o_dedup(self, t, s):
        out = []
        for x in self.seq(self.eval(s)):
            if not out or not self.same(out[-1], x):
                out.append(x)
        return out

    def o_reversed(self, t, s):
        return list(reversed(self.seq(self.eval(s))))

    def o_argbest(self, t, name, s, cmp_):
        q = self.seq(self.eval(s))
        b = 0
        for i in range(1, len(q)):
            x, y = (q[i], q[b]) if name == 'min_element' else (q[b], q[i])
            if self.less(cmp_, x, y):
                b = i
        return b

    def o_k(self, t, n):
        if t in self.kenv:
            return self.kenv[t]
        raise NoEval('free index ' + n)

    def o_bv(self, t, n):
        if t in self.kenv:
            return self.kenv[t]
        raise NoEval('free bv')

    def o_phi(self, t, *a):
        if t in self.kenv:
            return self.kenv[t]
        raise NoEval('phi')

    def o_poly(self, t, items):
        s = 0
        for m, c in items:
            p = int(c) if c.denominator == 1 else float(c)
            for x, e in m:
                v = self.num(self.eval(x))
                if e == 1:
                    p = p * v
                else:
                    if v == 0 and e < 0:
                        raise NoEval('division by zero')
                    p = p * v ** e
            s = s + p
        return s

    def o_fld(self, t, v, n):
        return self.fld(self.eval(v), n, TY.get(t))

    def o_sel(self, t, v, i):
        return self.sel(self.eval(v), self.eval(i), TY.get(t))

    def o_rowix(self, t, i):
        return ('rowix', self.eval(i))

    def o_colix(self, t, j):
        return ('colix', self.eval(j))

    def o_layix(self, t, *a):
        return ('layix',) + tuple(self.int(self.eval(x)) for x in a)

    def o_lay(self, t, v, *a):
        v = self.eval(v)
        off, r, c, rm = [self.int(self.eval(x)) for x in a]
        return Mat([[self.sel(v, off + (i * c + j if rm else j * r + i)) for j in range(c)] for i in range(r)])

    def o_segix(self, t, *a):
        return ('segix',) + tuple(self.int(self.eval(x)) for x in a)

    def o_cresize(self, t, v, *n):
        x = self.eval(v)
        n = [self.int(self.eval(k)) for k in n]
        if len(n) == 1:
            x = list(self.seq(x)) if not (isinstance(x, Obj) and x.key in ('undef', 'emptydyn')) else []
            return x[:n[0]] + [UN] * (n[0] - len(x))
        m = self.tomat(x) if not (isinstance(x, Mat) and not x.rows) else []
        return Mat([[m[i][j] if i < len(m) and j < len(m[i]) else UN for j in range(n[1])] for i in range(n[0])])

    def o_emptydyn(self, t):
        return []

    def o_blkix(self, t, *a):
        return ('blkix',) + tuple(self.int(self.eval(x)) for x in a)

    def o_pair(self, t, a, b):
        return (self.eval(a), self.eval(b))

    def o_tuple(self, t, *a):
        return tuple(self.eval(x) for x in a)

    def o_list(self, t, *a):
        return [self.eval(x) for x in a]

    def o_struct(self, t, b, fs):
        return Struct(self.eval(b), {n: self.eval(v) for n, v in fs})

    def o_arr(self, t, b, ups):
        v = self.eval(b)
        if v is UN or isinstance(v, Obj) and v.key == 'ident':
            v = Obj('undef')
        for i, x in ups:
            v = self.upd(v, self.eval(i), self.eval(x))
        return v

    def o_ite(self, t, c, a, b):
        return self.eval(a) if self.bool(self.eval(c)) else self.eval(b)

    def o_not(self, t, a):
        return not self.bool(self.eval(a))

    def o_and(self, t, *a):
        pend = None
        for x in a:
            try:
                if not self.bool(self.eval(x)):
                    return False
            except NoEval as e:
                pend = e
        if pend:
            raise pend
        return True

    def o_or(self, t, *a):
        pend = None
        for x in a:
            try:
                if self.bool(self.eval(x)):
                    return True
            except NoEval as e:
                pend = e
        if pend:
            raise pend
        return False

    def o_pos(self, t, d):
        return self.num(self.eval(d)) > 0

    def o_zero(self, t, d):
        v = self.num(self.eval(d))
        return v == 0 if isinstance(v, int) else abs(v) < 1e-12

    def o_eq(self, t, a, b):
        x, y = self.eval(a), self.eval(b)
        for p, q, tq in ((x, y, b), (y, x, a)):
            if isinstance(q, Obj) and q.key.startswith('enum:') and isinstance(p, Obj) and not p.key.startswith('enum:'):
                return self.enumval(p, q.key) == q.key
        return self.same(x, y)

    def enumval(self, p, ekey):
        pre = ekey.rsplit('::', 1)[0]
        es = self.spec.enums.setdefault(pre, [])
        if ekey not in es:
            es.append(ekey)
            es.sort()
            raise Restart()
        self.touch(p.key)
        c = es if self.spec.closed else es + [pre + '::other']
        return c[int(self.h('e|' + p.key) * len(c))]

    def enumof(self, v, *names):
        """enumerator (of the given full names) an enum value stands for; None if it is another one"""
        if isinstance(v, Obj) and v.key.startswith('enum:'):
            return v.key[5:] if v.key[5:] in names else None
        if not isinstance(v, Obj):
            raise NoEval('enum expected')
        r = None
        for n in names:
            r = self.enumval(v, 'enum:' + n)
        return r[5:] if r[5:] in names else None

    def o_enum(self, t, n):
        return Obj('enum:' + str(n))

    def o_strlit(self, t, s):
        return s

    def tostr(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, bool):
            return str(int(v))
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return '%.6g' % v
        if isinstance(v, Obj):
            r = self.spec.value(self, v.key)
            if isinstance(r, str):
                return r
            if v.ty and X.is_int_type(X.strip_type(v.ty)):
                return str(self.num(v))
            return '<%s>' % v.key
        return '<%s>' % self.canon(v)

    def o_scat(self, t, *a):
        return ''.join(self.tostr(self.eval(x)) for x in a)

    def o_fmt(self, t, v, *r):
        if r and r[0] in ('f', 'd'):
            return ('%.6g' if r[0] == 'f' else '%.6f') % self.num(self.eval(v))
        if r and r[0] == 'b':
            return str(int(self.bool(self.eval(v))))
        if r and r[0] == 'c':
            x = self.eval(v)
            return x if isinstance(x, str) else chr(self.int(x))
        if r and r[0] == 'm':
            m = self.tomat(self.eval(v))
            return '\n'.join(' '.join('%.6g' % self.num(x) for x in row) for row in m)
        return self.tostr(self.eval(v))

    def o_strfill(self, t, n, c):
        x = self.eval(c)
        return (x if isinstance(x, str) else chr(self.int(x))) * self.int(self.eval(n))

    def o_size(self, t, v):
        return self.size(self.eval(v))

    def loop(self, n, lvl):
        n = self.int(self.eval(n))
        if n > 400:
            raise NoEval('long loop')
        b = X.mk('bv', lvl)
        old = self.kenv.get(b)
        try:
            for i in range(n):
                self.kenv[b] = i
                yield i
        finally:
            if old is None:
                self.kenv.pop(b, None)
            else:
                self.kenv[b] = old

    def o_gen(self, t, n, b, g, lvl):
        out = []
        for i in self.loop(n, lvl):
            if g is TRUE or self.bool(self.eval(g)):
                x = self.eval(b)
                if isinstance(x, Chunk):
                    out.extend(self.seq(x.s))
                else:
                    out.append(x)
        return out

    def o_chunk(self, t, s):
        return Chunk(self.eval(s))

    def o_gseq(self, t, g, s):
        return self.eval(s) if self.bool(self.eval(g)) else []

    def o_sgen(self, t, n, b, g, lvl):
        return ''.join(self.tostr(self.eval(b)) for i in self.loop(n, lvl) if g is TRUE or self.bool(self.eval(g)))

    def o_cat(self, t, *a):
        out = []
        for x in a:
            v = self.eval(x)
            out.extend(self.seq(v.s if isinstance(v, Chunk) else v))
        return out

    def o_fill(self, t, n, v):
        return [self.eval(v)] * max(0, self.int(self.eval(n)))

    def o_erasedat(self, t, v, i, j):
        s = list(self.seq(self.eval(v)))
        a, b = self.int(self.eval(i)), self.int(self.eval(j))
        if not 0 <= a <= b <= len(s) or a == len(s):
            raise NoEval('erase outside the sequence')
        return s[:a] + s[b:]

    def o_trip(self, t, n):
        # number of iterations of a loop without a closed form: any positive number
        return 1 + int(self.h('trip|' + n) * 3)

    def o_psum(self, t, x):
        return self.num(self.eval(x))

    def o_sum(self, t, n, b, lvl):
        s = 0
        for i in self.loop(n, lvl):
            s = s + self.num(self.eval(b))
        return s

    def o_count(self, t, *a):
        raise NoEval('count')

    def o_exists(self, t, n, g, lvl):
        r = False
        for i in self.loop(n, lvl):
            if self.bool(self.eval(g)):
                r = True
                break
        return r

    def o_first(self, t, n, *a):
        if isinstance(n, str) or len(a) != 2:
            raise NoEval('first')
        g, lvl = a
        N = self.int(self.eval(n))
        for i in self.loop(n, lvl):
            if self.bool(self.eval(g)):
                return i
        return N

    def o_prodall(self, t, n, A, lvl):
        r = Iso(I3, [0., 0., 0.])
        for i in self.loop(n, lvl):
            r = self.mul(r, self.iso(self.eval(A)))
        return r

    def o_lprodall(self, t, n, A, lvl):
        r = Iso(I3, [0., 0., 0.])
        for i in self.loop(n, lvl):
            r = self.mul(self.iso(self.eval(A)), r)
        return r

    def o_vsum(self, t, n, d, lvl):
        s = None
        for i in self.loop(n, lvl):
            v = self.vecany(self.eval(d))
            s = v if s is None else self.vzip(lambda a, b: a + b, s, v)
        return s if s is not None else 0

    def o_maxall(self, t, n, a, I, lvl):
        r = self.num(self.eval(I))
        for i in self.loop(n, lvl):
            r = max(r, self.num(self.eval(a)))
        return r

    def o_minall(self, t, n, a, I, lvl):
        r = self.num(self.eval(I))
        for i in self.loop(n, lvl):
            r = min(r, self.num(self.eval(a)))
        return r

    def o_lastif(self, t, n, g, v, I, lvl):
        r = None
        for i in self.loop(n, lvl):
            if self.bool(self.eval(g)):
                r = (self.eval(v),)
        return r[0] if r else self.eval(I)

    def o_fold(self, t, n, lam, I, lvl):
        r = self.eval(I)
        b, l2 = lam.args
        pv = X.mk('bv', l2)
        old = self.kenv.get(pv)
        for i in self.loop(n, lvl):
            self.kenv[pv] = r
            r = self.eval(b)
        if old is None:
            self.kenv.pop(pv, None)
        else:
            self.kenv[pv] = old
        return r

    def o_scatter(self, t, n, I, idx, val, g, lvl):
        v = self.eval(I)
        tup = idx.op == 'tuple'
        for i in self.loop(n, lvl):
            if tup:
                for a, b, c in zip(idx.args, val.args, g.args if g.op == 'tuple' else [g] * len(idx.args)):
                    if c is TRUE or self.bool(self.eval(c)):
                        v = self.upd(v, self.eval(a), self.eval(b))
            elif g is TRUE or self.bool(self.eval(g)):
                v = self.upd(v, self.eval(idx), self.eval(val))
        return v

    def o_mapgen(self, t, n, idx, val, lvl):
        v = MapV({})
        for i in self.loop(n, lvl):
            if idx.op == 'tuple':
                for a, b in zip(idx.args, val.args):
                    v = self.upd(v, self.eval(a), self.eval(b))
            else:
                v = self.upd(v, self.eval(idx), self.eval(val))
        return v

    def o_rowgen(self, t, n, val, lvl):
        return Mat([list(self.seq(self.eval(val))) for i in self.loop(n, lvl)])

    def o_emptymap(self, t):
        return MapV({})

    def o_mapdefault(self, t):
        return Obj('mapdefault')

    def o_has(self, t, M, k):
        m, k = self.eval(M), self.eval(k)
        if isinstance(m, MapV):
            if self.idx(k) in m.d:
                return True
            if m.base is None:
                return False
            m = m.base
        if isinstance(m, list):
            return any(self.same(x, k) for x in m)
        if isinstance(m, Over):
            if self.idx(k) in m.ups:
                return True
            m = m.base
        if isinstance(m, Obj):
            return self.spec.has(self, m, k)
        raise NoEval('has')

    def o_entries(self, t, M):
        m = self.eval(M)
        if isinstance(m, MapV):
            return self.seq(m)
        if isinstance(m, Obj):
            ks = [self.keyname(m, i) for i in range(self.size(m))]
            return [(k, self.sel(m, k)) for k in ks]
        raise NoEval('entries')

    def o_keyat(self, t, M, i):
        m, i = self.eval(M), self.int(self.eval(i))
        if isinstance(m, MapV):
            s = self.seq(m)
            return s[i][0] if 0 <= i < len(s) else Obj('oob')
        if isinstance(m, Obj):
            return self.keyname(m, i)
        raise NoEval('keyat')

    def keyname(self, m, i):
        v = self.spec.value(self, '%s.key%d' % (m.key, i))
        return Obj('%s.key%d' % (m.key, i)) if v is None else v

    # ---- numbers
    def o_abs(self, t, v):
        return abs(self.num(self.eval(v)))

    o_iabs = None

    def o_sqrt(self, t, v):
        x = self.num(self.eval(v))
        if x < -1e-12:
            raise NoEval('sqrt of negative')
        return math.sqrt(max(0, x))

    def o_trunc(self, t, v):
        return int(self.num(self.eval(v)))

    def o_idiv(self, t, a, b):
        x, y = self.int(self.eval(a)), self.int(self.eval(b))
        if y == 0:
            raise NoEval('division by zero')
        q = abs(x) // abs(y)
        return q if (x >= 0) == (y >= 0) else -q

    def o_mod(self, t, a, b):
        x, y = self.int(self.eval(a)), self.int(self.eval(b))
        if y == 0:
            raise NoEval('division by zero')
        return x - y * int(x / y)

    FN1 = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'acos': math.acos, 'asin': math.asin, 'atan': math.atan,
           'exp': math.exp, 'log': math.log, 'floor': math.floor, 'ceil': math.ceil, 'abs': abs, 'sqrt': math.sqrt,
           'fabs': abs, 'cvRound': round, 'round': round, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x)}

    def o_fn1(self, t, n, v):
        f = self.FN1.get(n.split('::')[-1])
        if f is None:
            if n in ('isnan', 'isinf', 'isfinite'):
                x = self.eval(v)
                if not isinstance(x, Obj):
                    x = self.num(x)
                    return math.isfinite(x) if n == 'isfinite' else getattr(math, n)(x)
            return self.default(t)
        try:
            return f(self.num(self.eval(v)))
        except ValueError:
            raise NoEval('domain')

    def o_fn2(self, t, n, a, b):
        n = n.split('::')[-1]
        x, y = self.eval(a), self.eval(b)
        if n == 'pow':
            x, y = self.num(x), self.num(y)
            if x < 0 and y != int(y) or x == 0 and y < 0:
                raise NoEval('pow')
            return x ** y
        if n == 'atan2':
            return math.atan2(self.num(x), self.num(y))
        if n in ('max', 'fmax'):
            return max(self.num(x), self.num(y))
        if n in ('min', 'fmin'):
            return min(self.num(x), self.num(y))
        if n == 'hypot':
            return math.hypot(self.num(x), self.num(y))
        return self.default(t)

    def o_div0(self, t):
        raise NoEval('division by zero')

    # ---- rigid transforms
    def mul(self, a, b):
        return Iso(mm(a.R, b.R), [x + y for x, y in zip(mv(a.R, b.t), a.t)])

    def o_ident(self, t):
        return Iso(I3, [0., 0., 0.])

    def o_prod(self, t, *a):
        r = self.iso(self.eval(a[0]))
        for x in a[1:]:
            r = self.mul(r, self.iso(self.eval(x)))
        return r

    def o_inv(self, t, v):
        x = self.eval(v)
        if isinstance(x, (int, float)):
            if x == 0:
                raise NoEval('division by zero')
            return 1 / x
        m = self.iso(x)
        Rt = tr(m.R)
        return Iso(Rt, [-y for y in mv(Rt, m.t)])

    def o_Trans(self, t, v):
        return Iso(I3, self.vec3(self.eval(v)))

    def o_Rvec(self, t, v):
        return Iso(expR(self.vec3(self.eval(v))), [0., 0., 0.])

    o_RvecSmall = o_Rvec

    def o_Rot(self, t, m):
        if m.op == 'arr' and m.args[0].op == 'ident':
            r = Iso(I3, [0., 0., 0.])
            for i, x in m.args[1]:
                r = self.upd(r, self.eval(i), self.eval(x))
            return r
        return Iso(self.iso(self.eval(m)).R, [0., 0., 0.])

    def o_Quat(self, t, v):
        return Iso(Rquat(self.vec(self.eval(v), 4)), [0., 0., 0.])

    def o_quatof(self, t, R):
        x = self.eval(R)
        q = quatR(self.iso(x).R)
        # a quaternion that is an input may have either sign
        if isinstance(x, Obj) and self.h('qsign|' + x.key) < 0.5:
            q = [-p for p in q]
        return q

    def o_rotvec(self, t, M):
        return logR(self.iso(self.eval(M)).R)

    def o_angle(self, t, R):
        return math.sqrt(sum(x * x for x in logR(self.iso(self.eval(R)).R)))

    def o_axis(self, t, R):
        v = logR(self.iso(self.eval(R)).R)
        th = math.sqrt(sum(x * x for x in v))
        if th < 1e-12:
            raise NoEval('axis')
        return [x / th for x in v]

    def o_angdist(self, t, a, b):
        A, B = self.iso(self.eval(a)), self.iso(self.eval(b))
        return math.sqrt(sum(x * x for x in logR(mm(tr(A.R), B.R))))

    def o_xf(self, t, M, p):
        m = self.iso(self.eval(M))
        v = self.eval(p)
        if isinstance(v, Mat):
            cols = list(zip(*[[self.num(x) for x in r] for r in v.rows]))
            out = [[a + b for a, b in zip(mv(m.R, c[:3]), m.t)] for c in cols]
            return Mat([list(r) for r in zip(*out)])
        v = self.vec3(v)
        return [x + y for x, y in zip(mv(m.R, v), m.t)]

    def o_aarot(self, t, v, p):
        return mv(expR(self.vec3(self.eval(v))), self.vec3(self.eval(p)))

    def o_isoof(self, t, m):
        return self.iso(self.eval(m))

    def o_matof(self, t, m):
        i = self.iso(self.eval(m))
        return Mat([list(r) + [x] for r, x in zip(i.R, i.t)] + [[0., 0., 0., 1.]])

    def o_isocoeff(self, t, m, *ij):
        i = self.iso(self.eval(m))
        a, b = [self.int(self.eval(x)) for x in ij]
        if a == 3:
            return 1.0 if b == 3 else 0.0
        return i.t[a] if b == 3 else i.R[a][b]

    def solve(self, v, tag):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            a = 1.0 + 0.3 * self.h('sa' + tag)
            return v * a + 0.1 + 0.2 * self.h('sb' + tag)
        if isinstance(v, Obj):
            if v.key in ('undef',):
                return v
            d = X.dims_of_type(X.strip_type(v.ty)) if v.ty else None
            if isinstance(d, int):
                return [self.solve(self.num(self.sel(v, i)), tag) for i in range(d)]
            if v.ty and 'Transform' in v.ty:
                return self.solve(self.iso(v), tag)
            if v.ty and not X.is_float_type(X.strip_type(v.ty)):
                return Obj('solved(%s)' % v.key, v.ty)
            return self.solve(self.num(v), tag)
        if isinstance(v, Iso):
            rv = [self.solve(x, tag) for x in logR(v.R)]
            return Iso(expR(rv), [self.solve(x, tag) for x in v.t])
        if isinstance(v, list):
            return [self.solve(x, tag) for x in v]
        if isinstance(v, Struct):
            return Struct(v.base if isinstance(v.base, Obj) and v.base.key == 'undef' else self.solve(v.base, tag),
                          {n: self.solve(x, tag) for n, x in v.f.items()})
        if isinstance(v, Mat):
            return Mat([[self.solve(x, tag) for x in r] for r in v.rows])
        raise NoEval('solved %r' % (v,))

    def o_solved(self, t, v, *tag):
        v = self.eval(v)
        if self.identity:
            return v
        return self.solve(v, self.carg(tag) if tag else '')

    # ---- vectors and matrices
    def shape(self, v):
        d = X.matdims(X.strip_type(v.ty)) if v.ty else None
        if not d:
            return None
        return tuple(n if n >= 0 else self.spec.size(self, v.key + x) for n, x in zip(d, ('.rows', '.cols')))

    def vecany(self, v):
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Mat):
            return v
        if isinstance(v, Obj):
            if v.ty:
                d = X.dims_of_type(X.strip_type(v.ty))
                if isinstance(d, int):
                    return self.vec(v, d)
                d = self.shape(v)
                if d:
                    return Mat([[self.sel(v, (i, j)) for j in range(d[1])] for i in range(d[0])])
            return self.vec(v)
        if isinstance(v, Iso):
            return Mat([list(r) for r in v.R])
        return self.vec(v)

    def vzip(self, f, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if len(a.rows) != len(b.rows) or any(len(x) != len(y) for x, y in zip(a.rows, b.rows)):
                raise shape_error(len(a.rows), len(b.rows))
            return Mat([[f(self.num(x), self.num(y)) for x, y in zip(r, s)] for r, s in zip(a.rows, b.rows)])
        a = self.vec(a) if not isinstance(a, (int, float)) else a
        b = self.vec(b) if not isinstance(b, (int, float)) else b
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                raise shape_error(len(a), len(b))
            return [f(x, y) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [f(x, b) for x in a]
        if isinstance(b, list):
            return [f(a, y) for y in b]
        return f(a, b)

    def o_vadd(self, t, *a):
        r = None
        for x in a:
            v = self.vecany(self.eval(x))
            r = v if r is None else self.vzip(lambda p, q: p + q, r, v)
        return r

    def o_vscale(self, t, s, v):
        k = self.num(self.eval(s))
        return self.vzip(lambda p, q: p * q, self.vecany(self.eval(v)), k) if not isinstance(
            self.vecany(self.eval(v)), Mat) else Mat([[self.num(x) * k for x in r] for r in
                                                      self.vecany(self.eval(v)).rows])

    def o_vmul(self, t, a, b):
        return self.vzip(lambda p, q: p * q, self.vecany(self.eval(a)), self.vecany(self.eval(b)))

    def o_vdiv(self, t, a, b):
        return self.vzip(lambda p, q: p / q, self.vecany(self.eval(a)), self.vecany(self.eval(b)))

    def o_dot(self, t, a, b):
        x, y = self.vecany(self.eval(a)), self.vecany(self.eval(b))
        if isinstance(x, Mat) or isinstance(y, Mat):
            x, y = self.vec(self.seq(x)), self.vec(self.seq(y))
        if len(x) != len(y):
            raise shape_error(len(x), len(y))
        return sum(p * q for p, q in zip(x, y))

    def o_normalized(self, t, v):
        x = self.vecany(self.eval(v))
        n = math.sqrt(sum(p * p for p in x))
        return [p / n for p in x]

    def o_mat(self, t, r, c, items):
        vs = [self.eval(x) for x in items]
        return Mat([vs[i * c:(i + 1) * c] for i in range(r)])

    def o_cmat(self, t, c, *sz):
        v = self.eval(c)
        s = [self.int(self.eval(x)) for x in sz]
        if len(s) == 1:
            return [v] * s[0]
        if len(s) != 2:
            raise NoEval('cmat')
        return Mat([[v] * s[1] for i in range(s[0])])

    def o_identm(self, t, *sz):
        s = [self.int(self.eval(x)) for x in sz]
        return Mat([[1 if i == j else 0 for j in range(s[1])] for i in range(s[0])])

    def o_dynmat(self, t, *sz):
        s = [self.int(self.eval(x)) for x in sz]
        return Mat([[Obj('uninit') for j in range(s[1])] for i in range(s[0])])

    def o_dynvec(self, t, n):
        return [Obj('uninit')] * self.int(self.eval(n))

    def tomat(self, v):
        v = self.vecany(v)
        if isinstance(v, list):
            return [[x] for x in v]
        return [[self.num(x) for x in r] for r in v.rows]

    def o_matmul(self, t, *a):
        first = self.eval(a[0])
        if isinstance(first, Obj) and first.ty and X.strip_type(first.ty).startswith('Eigen::Transform'):
            first = self.iso(first)
        r = self.tomat(first)
        for x in a[1:]:
            b = self.eval(x)
            if isinstance(first, Iso) and not isinstance(b, (int, float)):
                m = self.tomat(b)
                if len(m) == 4:
                    r = [list(q) + [y] for q, y in zip(first.R, first.t)] + [[0.0, 0.0, 0.0, 1.0]]
                elif len(m) == 3 and len(a) == 2:
                    r = [[sum(q[k] * m[k][j] for k in range(3)) + y for j in range(len(m[0]))] for q, y in zip(first.R, first.t)]
                    break
            first = None
            if isinstance(b, (int, float)):
                r = [[p * b for p in q] for q in r]
                continue
            b = self.tomat(b)
            if not b:
                raise NoEval('empty matrix')
            if len(r[0]) != len(b):
                raise shape_error(len(r[0]), len(b))
            r = [[sum(r[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(r))]
        if len(r) > 0 and len(r[0]) == 1:
            return [q[0] for q in r]
        return Mat(r)

    def o_transpose(self, t, v):
        m = self.tomat(self.eval(v))
        return Mat([list(r) for r in zip(*m)])

    def o_eig(self, t, name, *a):
        f = name.split('<')[0]
        if f in DECOMP:
            return ('dec', f, self.tomat(self.eval(a[0])))
        if f == 'eulerAngles':
            return self.euler(self.iso(self.eval(a[0])).R, *[self.int(self.eval(x)) for x in a[1:4]])
        if f == 'diagonal' and len(a) == 1:
            m = self.tomat(self.eval(a[0]))
            return [m[i][i] for i in range(min(len(m), len(m[0]) if m else 0))]
        if f == 'value' and len(a) == 1:
            m = self.eval(a[0])
            if isinstance(m, (int, float)):
                return m
            m = self.tomat(m)
            if len(m) == 1 and len(m[0]) == 1:
                return m[0][0]
            raise NoEval('value() of a matrix that is not 1x1')
        if f == 'reverse':
            return list(reversed(self.seq(self.eval(a[0]))))
        if f in EIGFN:
            d = self.eval(a[0])
            if isinstance(d, tuple) and d and d[0] == 'dec':
                return self.decomposed(f, d, [self.eval(x) for x in a[1:]])
        return self.default(t)

    def euler(self, R, a0, a1, a2):
        """Eigen's eulerAngles for three distinct axes: R = rot(a0, r0) rot(a1, r1) rot(a2, r2), r0 in [0, pi]"""
        if len({a0, a1, a2}) != 3:
            raise NoEval('proper Euler angles')
        odd = 0 if (a0 + 1) % 3 == a1 else 1
        i, j, k = a0, (a0 + 1 + odd) % 3, (a0 + 2 - odd) % 3
        r0 = math.atan2(R[j][k], R[k][k])
        c2 = math.hypot(R[i][i], R[i][j])
        if odd and r0 < 0 or not odd and r0 > 0:
            r0 += -math.pi if r0 > 0 else math.pi
            r1 = math.atan2(-R[i][k], -c2)
        else:
            r1 = math.atan2(-R[i][k], c2)
        s1, c1 = math.sin(r0), math.cos(r0)
        r2 = math.atan2(s1 * R[k][i] - c1 * R[j][i], c1 * R[j][j] - s1 * R[k][j])
        return [r0, r1, r2] if odd else [-r0, -r1, -r2]

    def decomposed(self, f, d, args):
        m = d[2]
        if f == 'solve':
            b = self.tomat(args[0])
            if len(b) != len(m):
                raise shape_error(len(b), len(m))
            x = lstsq(m, b)
            return [r[0] for r in x] if len(x[0]) == 1 else Mat(x)
        if f == 'inverse':
            return self.o_minv_(m)
        if f == 'info':
            return 0
        sym = 'SelfAdjoint' in d[1]
        if f in ('matrixU', 'matrixV', 'singularValues'):
            q = m if f != 'matrixV' else [list(r) for r in zip(*m)]
            g = [[sum(x * y for x, y in zip(u, v)) for v in q] for u in q]
            w, vec = jacobi(g)
            o = sorted(range(len(w)), key=lambda i: -w[i])
            if f == 'singularValues':
                return [math.sqrt(max(w[i], 0)) for i in o]
        else:
            w, vec = jacobi(m)
            o = sorted(range(len(w)), key=lambda i: w[i])
            if f == 'eigenvalues':
                return [w[i] for i in o]
            if not sym:
                raise NoEval('eigenvectors of a general matrix')
        # directions are determined up to sign
        sg = [1 if self.h('evsign%d' % i) < 0.5 else -1 for i in range(len(o))]
        return Mat([[sg[k] * vec[r][i] for k, i in enumerate(o)] for r in range(len(vec))])

    def o_minv(self, t, v):
        return self.o_minv_(self.tomat(self.eval(v)))

    def o_minv_(self, m):
        n = len(m)
        if n == 0 or any(len(r) != n for r in m):
            raise NoEval('inverse of a matrix that is not square')
        a = [list(r) + [float(i == j) for j in range(n)] for i, r in enumerate(m)]
        for i in range(n):
            p = max(range(i, n), key=lambda q: abs(a[q][i]))
            if abs(a[p][i]) < 1e-12:
                raise NoEval('singular')
            a[i], a[p] = a[p], a[i]
            a[i] = [x / a[i][i] for x in a[i]]
            for q in range(n):
                if q != i and a[q][i]:
                    a[q] = [x - a[q][i] * y for x, y in zip(a[q], a[i])]
        return Mat([r[n:] for r in a])

    def o_blk(self, t, v, i, j, r, c):
        m = self.tomat(self.eval(v))
        i, j, r, c = [self.int(self.eval(x)) for x in (i, j, r, c)]
        if i < 0 or j < 0 or i + r > len(m) or (m and j + c > len(m[0])):
            raise NoEval('block outside the matrix')
        return Mat([x[j:j + c] for x in m[i:i + r]])

    def o_wmap(self, t, d, f, m):
        r = self.tomat(self.eval(m))
        if d == 'colwise':
            r = [list(x) for x in zip(*r)]
        out = []
        for x in r:
            if f == 'normalized':
                n = math.sqrt(sum(p * p for p in x))
                out.append([p / n for p in x])
            elif f == 'reverse':
                out.append(x[::-1])
            elif f == 'homogeneous':
                out.append(x + [1.0])
            else:
                out.append([p / x[-1] for p in x[:-1]])
        if d == 'colwise':
            out = [list(x) for x in zip(*out)]
        return Mat(out)

    def o_wred(self, t, d, f, m):
        r = self.tomat(self.eval(m))
        if d == 'colwise':
            r = [list(x) for x in zip(*r)]
        g = {'norm': lambda x: math.sqrt(sum(p * p for p in x)), 'squaredNorm': lambda x: sum(p * p for p in x),
             'sum': sum, 'mean': lambda x: sum(x) / len(x), 'minCoeff': min, 'maxCoeff': max, 'prod': math.prod}
        g['stableNorm'] = g['norm']
        return [g[f](x) for x in r]

    def o_diag(self, t, v):
        x = self.vecany(self.eval(v))
        return Mat([[x[i] if i == j else 0 for j in range(len(x))] for i in range(len(x))])

    def o_rows(self, t, v):
        x = self.eval(v)
        if isinstance(x, Mat):
            return len(x.rows)
        if isinstance(x, list):
            return len(x)
        if isinstance(x, Obj):
            d = self.shape(x)
            return d[0] if d else self.spec.size(self, x.key + '.rows')
        raise NoEval('rows')

    def o_cols(self, t, v):
        x = self.eval(v)
        if isinstance(x, Mat):
            return len(x.rows[0]) if x.rows else 0
        if isinstance(x, list):
            return 1
        if isinstance(x, Obj):
            d = self.shape(x)
            return d[1] if d else self.spec.size(self, x.key + '.cols')
        raise NoEval('cols')

    def o_seg(self, t, v, off, n):
        o, m = self.int(self.eval(off)), self.int(self.eval(n))
        x = self.eval(v)
        return [self.sel(x, i) for i in range(o, o + m)]

    def o_row(self, t, v, i):
        return self.sel(self.eval(v), ('rowix', self.eval(i)))

    def o_col(self, t, v, j):
        x = self.eval(v)
        j = self.int(self.eval(j))
        if isinstance(x, Mat):
            return [r[j] for r in x.rows]
        if isinstance(x, Obj):
            return [self.sel(x, (i, j)) for i in range(self.spec.size(self, x.key + '.rows'))]
        if isinstance(x, Iso):
            if v.op == 'matof' or j == 3:
                return [r[j] for r in x.R] + [0.0] if j < 3 else list(x.t) + [1.0]
            return [r[j] for r in x.R]
        raise NoEval('col')

    def o_reduce(self, t, name, v):
        x = self.vecany(self.eval(v))
        x = [self.num(e) for r in x.rows for e in r] if isinstance(x, Mat) else x
        if not x:
            raise NoEval('empty reduction')
        if name == 'sum':
            return sum(x)
        if name == 'mean':
            return sum(x) / len(x)
        if name == 'variance':
            m = sum(x) / len(x)
            return sum((e - m) ** 2 for e in x) / len(x)
        if name == 'prod':
            return math.prod(x)
        if name == 'minCoeff':
            return min(x)
        if name == 'maxCoeff':
            return max(x)
        return self.default(t)

    def o_vmap(self, t, name, v):
        x = self.vecany(self.eval(v))
        f = {'cwiseAbs': abs, 'abs': abs, 'cwiseSqrt': math.sqrt, 'sqrt': math.sqrt, 'square': lambda a: a * a,
             'abs2': lambda a: a * a, 'cwiseAbs2': lambda a: a * a, 'cwiseInverse': lambda a: 1 / a}[name]
        if isinstance(x, Mat):
            return Mat([[f(self.num(e)) for e in r] for r in x.rows])
        return [f(e) for e in x]

    # ---- optionals
    def o_some(self, t, v):
        return ('some', self.eval(v))

    def o_none(self, t):
        return ('none',)

    def o_issome(self, t, v):
        x = self.eval(v)
        if isinstance(x, tuple) and x and x[0] in ('some', 'none'):
            return x[0] == 'some'
        return self.bool(Obj('issome(%s)' % self.canon(x), 'bool'))

    def o_optval(self, t, v):
        x = self.eval(v)
        if isinstance(x, tuple) and x and x[0] == 'some':
            return x[1]
        if isinstance(x, tuple) and x and x[0] == 'none':
            return Obj('deref-none')
        return Obj('optval(%s)' % self.canon(x))

    def o_ptr(self, t, root, path):
        ps = []
        for s in path:
            if s[0] == 'f':
                ps.append('.' + s[1])
            elif s[0] == 'i':
                c = self.idx(self.eval(s[1]))
                ps.append('[%s]' % (c,))
            else:
                ps.append('<%s>' % ','.join(self.carg(x) for x in s[1:]))
        p = ''.join(ps)
        return Obj('ptr:%s%s' % (root, p))

    def o_isnull(self, t, v):
        x = self.eval(v)
        if isinstance(x, Obj) and x.key == 'null':
            return True
        if isinstance(x, Obj) and x.key.startswith('ptr:'):
            return False
        return self.bool(Obj('isnull(%s)' % self.canon(x), 'bool'))

    def o_approx(self, t, a, b, p=None):
        x, y = self.eval(a), self.eval(b)
        if self.same(x, y):
            return True
        if self.exact:
            p = 1e-12 if p is None else self.num(self.eval(p))
            if p < 1e-5:
                return False
            u, v = self.flat(x), self.flat(y)
            if len(u) != len(v):
                return False
            n = lambda w: sum(c * c for c in w) ** 0.5
            return n([c - d for c, d in zip(u, v)]) <= p * min(n(u), n(v))
        ca, cb = sorted((self.canon(x), self.canon(y)))
        return self.bool(Obj('approx(%s,%s)' % (ca, cb), 'bool'))

    def o_random(self, t, dist, gen):
        d = dist
        if d.op == 'lib' and 'uniform_real_distribution' in str(d.args[0]):
            lo, hi = [self.num(self.eval(x)) for x in d.args[1:3]] if len(d.args) >= 3 else (0., 1.)
            key = 'uniform(%s)' % X.show(gen)
            u = self.spec.value(self, key)
            return lo + (hi - lo) * (self.h(key) if u is None else u)
        if d.op == 'lib' and 'uniform_int_distribution' in str(d.args[0]):
            lo, hi = [self.int(self.eval(x)) for x in d.args[1:3]] if len(d.args) >= 3 else (0, 2 ** 31 - 1)
            if hi < lo:
                raise NoEval('empty range of a uniform distribution')
            key = 'uniform(%s)' % X.show(gen)
            u = self.spec.value(self, key)
            return lo + min(int((self.h(key) if u is None else u) * (hi - lo + 1)), hi - lo)
        return Obj('random(%s,%s)' % (X.show(dist), X.show(gen)))

    def flat(self, v):
        if isinstance(v, Iso):
            return [c for r in v.R for c in r] + list(v.t)
        if isinstance(v, Mat):
            return [self.num(c) for r in v.rows for c in r]
        if isinstance(v, Obj) and v.ty and 'Transform' in v.ty:
            return self.flat(self.iso(v))
        return [self.num(c) for c in self.seq(v)]

    def o_eqop(self, t, a, b):
        x, y = self.eval(a), self.eval(b)
        ca, cb = sorted((self.canon(x), self.canon(y)))
        if ca == cb:
            return True
        return self.bool(Obj('eqop(%s,%s)' % (ca, cb), 'bool'))

    # ------------------------------------------------------------ comparing values
    def same(self, a, b, tol=1e-6):
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= tol * (1 + abs(a) + abs(b))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.key == b.key:
                return True
            if self.isint(a) and self.isint(b):
                return self.num(a) == self.num(b)
            return False
        if isinstance(b, (Obj,)) and not isinstance(a, Obj):
            a, b = b, a
        if isinstance(a, Obj):
            if a.key.startswith(('undef', 'uninit', 'oob', 'mapdefault', 'null', 'enum:', 'ptr:')):
                return False
            try:
                if isinstance(b, bool):
                    return self.bool(a) == b
                if isinstance(b, (int, float)):
                    return self.same(self.num(a), b, tol)
                if isinstance(b, Iso):
                    return self.same(self.iso(a), b, tol)
                if isinstance(b, list):
                    d = X.dims_of_type(X.strip_type(a.ty)) if a.ty else None
                    if not isinstance(d, int) and self.size(a) != len(b):
                        # a fixed-size vector whose type is not known has the size of its counterpart
                        if a.ty:
                            return False
                    return all(self.same(self.sel(a, i), x, tol) for i, x in enumerate(b))
                if isinstance(b, Mat):
                    return all(self.same(self.sel(a, (i, j)), x, tol) for i, r in enumerate(b.rows)
                               for j, x in enumerate(r))
                if isinstance(b, Struct):
                    return all(self.same(self.fld(a, n), x, tol) for n, x in b.f.items()) and \
                        (self.same(a, b.base, tol) or not isinstance(b.base, Obj) or b.base.key == 'undef')
                if isinstance(b, Over):
                    return all(self.same(self.sel(a, i), x, tol) for i, x in b.ups.values()) and self.same(a, b.base)
                if isinstance(b, str):
                    return False
                if isinstance(b, tuple):
                    return len(b) == 2 and self.same(self.fld(a, 'first'), b[0]) and self.same(self.fld(a, 'second'), b[1])
            except NoEval:
                return False
            return False
        if isinstance(a, Iso) and isinstance(b, Iso):
            return all(self.same(x, y, tol) for r, s in zip(a.R, b.R) for x, y in zip(r, s)) and \
                all(self.same(x, y, tol) for x, y in zip(a.t, b.t))
        if isinstance(a, Iso) and isinstance(b, Mat):
            return self.same(a, self.iso(b), tol)
        if isinstance(b, Iso) and isinstance(a, Mat):
            return self.same(self.iso(a), b, tol)
        if isinstance(a, Mat) and isinstance(b, list) or isinstance(b, Mat) and isinstance(a, list):
            try:
                return self.same(self.seq(a), self.seq(b), tol)
            except NoEval:
                return False
        if isinstance(a, list) and isinstance(b, list) or (type(a) is tuple and type(b) is tuple):
            return len(a) == len(b) and all(self.same(x, y, tol) for x, y in zip(a, b))
        if isinstance(a, Mat) and isinstance(b, Mat):
            return len(a.rows) == len(b.rows) and all(self.same(list(x), list(y), tol) for x, y in zip(a.rows, b.rows))
        if isinstance(a, Struct) and isinstance(b, Struct):
            ns = set(a.f) | set(b.f)
            return all(self.same(self.fld(a, n), self.fld(b, n), tol) for n in ns)
        if isinstance(a, Over) or isinstance(b, Over):
            if isinstance(a, Over) and isinstance(b, Over):
                ks = {**a.ups, **b.ups}
                return self.same(a.base, b.base, tol) and all(self.same(self.sel(a, i), self.sel(b, i), tol)
                                                              for i, _ in ks.values())
            try:
                return self.same(self.seq(a), self.seq(b), tol)
            except NoEval:
                return False
        if isinstance(a, MapV) and isinstance(b, MapV):
            return set(a.d) == set(b.d) and all(self.same(a.d[k][1], b.d[k][1], tol) for k in a.d)
        if type(a) is str and type(b) is str:
            return a == b
        return False

    # ------------------------------------------------------------ event instances
    def instances(self, ev, pc=True, cap=4000):
        """index assignments for which the event happens"""
        loops = list(ev.loops)
        cnt = [0]

        def rec(i):
            if i == len(loops):
                if pc:
                    for c, kind in ev.pc:
                        if not self.bool(self.eval(c)):
                            return
                cnt[0] += 1
                if cnt[0] > cap:
                    raise NoEval('too many instances')
                yield {k: self.kenv[k] for k, _ in loops}
                return
            k, n = loops[i]
            N = self.int(self.eval(n))
            for j in range(N):
                self.kenv[k] = j
                self.memo_k = None
                yield from rec(i + 1)
            self.kenv.pop(k, None)
        yield from rec(0)


class Spec:
    """domain assumptions of a valuation"""

    def __init__(self, alias=None, values=None, sizes=None, bounded=False, lo=0, hi=3, has=None, closed=False):
        self.hasfn = has
        self.closed = closed        # enum leaves take only the named enumerators the code or the oracle mention
        self.intkeys = set()
        self.enums = {}
        self.alias = alias
        self.values = values
        self.sizes = sizes
        self.bounded = bounded
        self.lo, self.hi = lo, hi
        self.near = None            # a constant the code compares something with

    def probing(self, k):
        """the same domain, with sizes and values near the constant k"""
        o = copy.copy(self)
        o.near = k
        return o

    def near_value(self, V, key, isint):
        if V.h('near?|' + key) < 0.4:
            return None
        k, u = self.near, V.h('near|' + key)
        if isint:
            return max(0, int(k) * (1 + int(u * 6) // 3) + int(u * 6) % 3 - 1) if abs(k) < 1e6 else None
        return (k, k * 0.9 - 0.1, k * 1.1 + 0.1, k * 2 + 0.3, -k * 1.1 - 0.1, -k)[int(u * 6)]

    def near_size(self, V, key):
        k, u = self.near, V.h('nears|' + key)
        if not 3 <= k <= 130 or V.h('nears?|' + key) < 0.4:
            return None
        # one kind of container at a time, so that nested ones do not multiply
        kind = re.sub(r'\[[^][]*\]', '[]', key)
        if V.near_kind is None:
            V.near_kind = kind
        if V.near_kind != kind:
            return None
        if u > 0.6 and k <= 65:
            return 2 * int(k) + int(V.h('nears2|' + key) * 4)
        return max(self.lo, int(k) + int(u * 9) - 1)

    def integer(self, V, key, lo, n):
        """a whole number of lo..lo+n-1, or one near the constant being probed"""
        r = self.near_value(V, key, True) if self.near is not None and self.near <= 130 else None
        return max(lo, r) if r is not None else lo + int(V.h(key) * n)

    def value(self, V, key):
        if self.values:
            return self.values(V, key)
        return None

    def small(self, V, key):
        return int(V.h('i|' + key) * 4)

    def size(self, V, key):
        if self.alias:
            key = self.alias(key)
        if self.sizes:
            r = self.sizes(V, key)
            if r is not None:
                return r
        if self.near is not None:
            r = self.near_size(V, key)
            if r is not None:
                return r
        return self.lo + int(V.h('n|' + key) * (self.hi - self.lo + 1))

    def has(self, V, m, k):
        if self.hasfn:
            r = self.hasfn(V, m.key, k)
            if r is not None:
                return r
        return V.h('h|%s|%s' % (m.key, V.canon(k))) < 0.5


def literals(x, out):
    """numbers written in a term (coefficients and constants of sums are not terms of their own)"""
    if isinstance(x, (Fraction, float)) or isinstance(x, int) and not isinstance(x, bool):
        out.add(float(x))
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            literals(y, out)


def compared(terms):
    """constants the code compares something with or clips something at"""
    out, seen = set(), set()
    for t in terms:
        for s in X.subterms(t):
            if s.op in ('pos', 'eq', 'zero', 'min', 'max', 'mod', 'imod', 'idiv', 'fmod', 'floor', 'abs') and s not in seen:
                for n in X.subterms(s):
                    if n not in seen:
                        seen.add(n)
                        literals(n.args, out)
    return sorted({abs(k) for k in out} - {0.0, 1.0})


def valuations(n, spec=None):
    spec = spec or Spec()
    for s in range(n):
        yield Valuation('s%d' % s, spec)


def with_restart(f, tries=60):
    for _ in range(tries):
        try:
            return f()
        except Restart:
            continue
    raise NoEval('typing does not settle')


def compare(a, b, assume=(), spec=None, n=24, need=4, ks=()):
    """('equal'|'different'|'unknown', detail). ks: free loop indices (k, count term) both terms may mention"""
    if a is b:
        return 'equal', 'identical normal form'
    spec = spec or Spec()
    agree, tried, errs = 0, 0, 0
    why = None
    diffs = []
    for s in range(n * 4):
        def one():
            V = Valuation('s%d' % s, spec)
            for k, cnt in ks:
                N = V.int(V.eval(cnt))
                if N <= 0:
                    return None
                V.kenv[k] = int(V.h('k|%s' % k.args[0]) * N)
            for c in assume:
                if not V.bool(V.eval(c)):
                    return None
            x = V.eval(a)
            y = V.eval(b)
            return V.same(x, y), x, y, V
        try:
            r = with_restart(one)
        except NoEval as e:
            why = str(e)
            errs += 1
            continue
        except RecursionError:
            return 'unknown', 'term too deep'
        if r is None:
            continue
        tried += 1
        ok, x, y, V = r
        if ok:
            agree += 1
        else:
            diffs.append((x, y, s))
        if len(diffs) >= 2 or tried >= n:
            break
    if diffs:
        x, y, s = diffs[0]
        # a value computed by other means in one of the terms cannot be compared
        only = uninterpreted(a) ^ uninterpreted(b)
        if only:
            return 'unknown', 'uninterpreted: ' + ', '.join(sorted(only))[:200]
        if len(diffs) == 1 and agree > 12:
            return 'unknown', 'a single disagreeing valuation'
        return 'different', dict(seed=s, code=repr(x)[:600], spec=repr(y)[:600])
    if agree >= need and errs <= agree:
        return 'equal', '%d valuations' % agree
    return 'unknown', why or 'no valuation satisfies the assumptions'


# interfaces that are treated as arbitrary (but fixed) functions of their arguments: everything the oracles take from
# ceres, board geometry getters, and sources of randomness
OPAQUE = {'covres', 'summary', 'deref', 'arrp', 'entropy', 'raw', 'random', 'static', 'rngnext', 'fnum', 'trip', 'in', 'undef'}
OPAQUE_NAMES = ('ceres::', 'cv::aruco::', 'rct_', 'std::uniform', 'std::mersenne', 'std::linear', 'std::random', 'std::normal')


def uninterpreted(*ts):
    out = set()
    for t in ts:
        for x in X.subterms(t):
            if (not hasattr(Valuation, 'o_' + x.op) or x.op == 'trip') and not x.op == 'lam':
                out.add(x.op + (':' + str(x.args[0]) if x.args and isinstance(x.args[0], str) else ''))
            elif x.op in ('fn1', 'fn2') and x.args[0].split('::')[-1] not in Valuation.KNOWNFN:
                out.add(x.op + ':' + x.args[0])
            elif x.op == 'eig' and x.args[0].split('<')[0] not in EIGFN:
                out.add('eig:' + x.args[0])
            elif x.op == 'reduce' and x.args[0] not in ('sum', 'mean', 'minCoeff', 'maxCoeff', 'variance', 'prod'):
                out.add('reduce:' + x.args[0])
    return out


Valuation.KNOWNFN = set(Valuation.FN1) | {'pow', 'atan2', 'max', 'min', 'fmax', 'fmin', 'hypot'}
