"""Interned symbolic terms with a normalising constructor for each operator.

Arithmetic is kept in a sum-of-monomials normal form with rational coefficients and integer (also negative) exponents,
booleans as and/or/not over atoms, sequences as concatenations of literal segments and comprehensions, transforms as
products, so that equal computations written differently become the same term."""
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'args', '_h', 'id', 'maxbv', 'free', '_s')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return skey(self) < skey(o)


_tab = {}
_cnt = [0]
TY = {}  # term -> C++ type string (hint only)


def mk(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t._h = hash(key)
    _cnt[0] += 1
    t.id = _cnt[0]
    t._s = None
    m = 0
    fr = frozenset()
    for a in _sub(args):
        if a.maxbv > m:
            m = a.maxbv
        if a.free:
            fr = fr | a.free
    if op == 'bv':
        m = args[0]
    if op == 'k' or op == 'phi':
        fr = fr | {t} if op == 'phi' else frozenset([t])
    t.maxbv = m
    t.free = fr
    _tab[key] = t
    return t


def _sub(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _sub(a)


def subterms(t):
    """All distinct subterms."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in _sub(x.args):
            if a not in seen:
                st.append(a)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def has_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


# --------------------------------------------------------------------------- structural ordering key
def skey(t):
    if t._s is None:
        t._s = _sk(t)
    return t._s


def _sk(t):
    s = show(t, 10 ** 9)
    return s


# --------------------------------------------------------------------------- numbers
def num(v):
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('fnum', repr(v))
        v = Fraction(v)
    return mk('num', Fraction(v))


ZERO = num(0)
ONE = num(1)
TRUE = mk('true')
FALSE = mk('false')
NULL = mk('null')
UNDEF = mk('undef')


def boolt(b):
    return TRUE if b else FALSE


def isnum(t):
    return t.op == 'num'


def numval(t):
    if t.op == 'num':
        return t.args[0]
    if t is TRUE:
        return Fraction(1)
    if t is FALSE:
        return Fraction(0)
    return None


def intval(t):
    v = numval(t)
    if v is not None and v.denominator == 1:
        return int(v)
    return None


# --------------------------------------------------------------------------- polynomials
def as_poly(t):
    """dict monomial -> coeff; monomial = tuple of (atom, exp) sorted by id"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((skey(a), e) for a, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    d = _rewrite_sum(d)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if not d:
        return ZERO
    items = tuple(sorted(d.items(), key=lambda x: _mono_key(x[0])))
    return mk('poly', items)


def _rewrite_sum(d):
    # aarot(rotvec(M), p)[i] + t(M)[i]  ->  xf(M, p)[i]
    changed = True
    while changed:
        changed = False
        for m, c in list(d.items()):
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = m[0][0]
            if a.op == 'sel' and a.args[0].op == 'aarot':
                rv, p = a.args[0].args
                i = a.args[1]
                M = rotvec_source(rv)
                if M is None:
                    continue
                tm = sel(fld(M, 't'), i)
                tp = as_poly(tm)
                if all(d.get(mm, 0) == cc * c for mm, cc in tp.items()) and tp:
                    d = dict(d)
                    for mm in tp:
                        del d[mm]
                    del d[m]
                    nt = sel(xf(M, p), i)
                    for mm, cc in as_poly(nt).items():
                        d[mm] = d.get(mm, 0) + cc * c
                    d = {mm: cc for mm, cc in d.items() if cc != 0}
                    changed = True
                    break
    return d


def rotvec_source(rv):
    if rv.op == 'rotvec':
        return rv.args[0]
    return None


def add(*ts):
    d = {}
    for t in ts:
        if t is UNDEF:
            return UNDEF
        for m, c in as_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    e = {}
    for a, x in m1:
        e[a] = e.get(a, 0) + x
    for a, x in m2:
        e[a] = e.get(a, 0) + x
    extra = None
    out = []
    for a, x in e.items():
        if x == 0:
            continue
        if a.op == 'sqrt' and (x >= 2 or x <= -2):
            q = int(x / 2)
            r = x - 2 * q
            extra = mul(extra or ONE, power(a.args[0], q))
            if r:
                out.append((a, r))
            continue
        out.append((a, x))
    # angle(R) * axis(R)[i] -> rotvec(R)[i]
    for a, x in list(out):
        if a.op == 'angle' and x == 1:
            for b, y in out:
                if b.op == 'sel' and b.args[0].op == 'axis' and b.args[0].args[0] is a.args[0] and y == 1:
                    out.remove((a, x))
                    out.remove((b, y))
                    extra = mul(extra or ONE, sel(rotvec(a.args[0]), b.args[1]))
                    break
            break
    out.sort(key=lambda p: skey(p[0]))
    return tuple(out), extra


def mul(*ts):
    res = {(): Fraction(1)}
    for t in ts:
        if t is UNDEF:
            return UNDEF
        # exact cancellation of a sum against its inverse
        p = as_poly(t)
        if len(p) > 1:
            cancelled = _cancel(res, t, p)
            if cancelled is not None:
                res = cancelled
                continue
        new = {}
        pend = []
        for m1, c1 in res.items():
            for m2, c2 in p.items():
                m, extra = _mono_mul(m1, m2)
                if extra is not None:
                    pend.append(mul(from_poly({m: c1 * c2}), extra))
                else:
                    new[m] = new.get(m, 0) + c1 * c2
        for x in pend:
            for m, c in as_poly(x).items():
                new[m] = new.get(m, 0) + c
        res = {m: c for m, c in new.items() if c != 0}
    return from_poly(res)


def _cancel(res, t, p):
    base, c = _unit(p)
    for m in res:
        if not any(a is base and e < 0 for a, e in m):
            return None
    out = {}
    for m, cc in res.items():
        mm = tuple((a, e + 1) if a is base else (a, e) for a, e in m)
        mm = tuple((a, e) for a, e in mm if e != 0)
        out[mm] = out.get(mm, 0) + cc * c
    return out


def _unit(p):
    """normalise a sum to leading coefficient 1, wrapped as an atom ('sum')"""
    items = sorted(p.items(), key=lambda x: _mono_key(x[0]))
    c = items[0][1]
    q = from_poly({m: v / c for m, v in p.items()})
    return mk('psum', q), c


def inv(t):
    if t is UNDEF:
        return UNDEF
    p = as_poly(t)
    if not p:
        return mk('div0')
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(1 / c)
        return from_poly({tuple((a, -e) for a, e in m): 1 / c})
    base, c = _unit(p)
    return from_poly({((base, -1),): 1 / c})


def div(a, b):
    return mul(a, inv(b))


def power(t, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(t, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def sqrt(t):
    v = numval(t)
    if v is not None and v >= 0:
        import math
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return num(Fraction(n, d))
    return mk('sqrt', t)


def absv(t):
    v = numval(t)
    if v is not None:
        return num(abs(v))
    if t in (TRUE, FALSE) or t.op in ('pos', 'zero', 'not', 'and', 'or'):
        return t
    p = as_poly(t)
    if len(p) >= 1:
        items = sorted(p.items(), key=lambda x: _mono_key(x[0]))
        if items[0][1] < 0:
            t = neg(t)
    if t.op == 'abs':
        return t
    if len(p) == 1:
        (m, c), = p.items()
        if m and abs(c) != 1:
            return mul(num(abs(c)), mk('abs', from_poly({m: Fraction(1)})))
    return mk('abs', t)


# --------------------------------------------------------------------------- integers
RECORDS = {}         # record type -> record of the analysed sources (for the types of leaf values)
INT_OPS = {'size', 'k', 'bv', 'count', 'trip', 'idiv', 'mod', 'trunc', 'iphi', 'rows', 'cols', 'numblocks'}


def isint(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t in (TRUE, FALSE):
        return True
    if t.op in INT_OPS:
        return True
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e > 0 and isint(a) for a, e in m) for m, c in t.args[0])
    ty = TY.get(t)
    if ty is not None:
        return is_int_type(ty)
    if t.op == 'ite':
        return isint(t.args[1]) and isint(t.args[2])
    return False


def strip_type(ty):
    ty = ty.strip()
    while True:
        o = ty
        if ty.endswith('&&'):
            ty = ty[:-2].strip()
        elif ty.endswith('&'):
            ty = ty[:-1].strip()
        if ty.startswith('const '):
            ty = ty[6:].strip()
        if ty.endswith(' const'):
            ty = ty[:-6].strip()
        if ty == o:
            return ty


_INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char',
         'signed char', 'bool', 'long long', 'unsigned long long', 'size_t'}


def is_int_type(ty):
    return strip_type(ty) in _INTS


def is_float_type(ty):
    return strip_type(ty) in ('double', 'float', 'long double')


def nonneg(t):
    if t.op in ('size', 'k', 'bv', 'count', 'trip', 'rows', 'cols', 'sqrt', 'abs', 'numblocks'):
        return True
    if t.op == 'num':
        return t.args[0] >= 0
    ty = TY.get(t)
    if ty is not None and strip_type(ty).startswith('unsigned'):
        return True
    return False


# --------------------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    if a.op == 'num':
        return boolt(a.args[0] == 0)
    return mk('not', a)


def and_(*xs):
    s = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            s.extend(x.args)
        else:
            s.append(x)
    u = sorted(set(s), key=skey)
    us = set(u)
    for x in u:
        if x.op == 'not' and x.args[0] in us:
            return FALSE
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    out = []
    changed = False
    for x in u:
        if x.op == 'or':
            if any(y in us for y in x.args):
                changed = True
                continue
            rem = tuple(y for y in x.args if not_(y) not in us)
            if len(rem) != len(x.args):
                changed = True
                out.append(or_(*rem))
                continue
        out.append(x)
    if changed:
        return and_(*out)
    return mk('and', *u)


def or_(*xs):
    s = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            s.extend(x.args)
        else:
            s.append(x)
    u = sorted(set(s), key=skey)
    us = set(u)
    for x in u:
        if x.op == 'not' and x.args[0] in us:
            return TRUE
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    out = []
    changed = False
    for x in u:
        if x.op == 'and':
            if any(y in us for y in x.args):
                changed = True
                continue
            rem = tuple(y for y in x.args if not_(y) not in us)
            if len(rem) != len(x.args):
                changed = True
                out.append(and_(*rem))
                continue
        out.append(x)
    if changed:
        return or_(*out)
    # resolution (a and x) or (a and not x) -> a
    for i, x in enumerate(u):
        xs_ = set(x.args) if x.op == 'and' else {x}
        for y in u[i + 1:]:
            ys_ = set(y.args) if y.op == 'and' else {y}
            d1, d2 = xs_ - ys_, ys_ - xs_
            if len(d1) == 1 and len(d2) == 1 and not_(next(iter(d1))) is next(iter(d2)):
                return or_(and_(*(xs_ & ys_)), *[z for z in u if z is not x and z is not y])
    return mk('or', *u)


def _norm_scale(d):
    """scale by a positive rational so that the leading (non constant) coefficient has absolute value 1"""
    items = sorted(((m, c) for m, c in d.items() if m != ()), key=lambda x: _mono_key(x[0]))
    return items[0] if items else None


def pos(d):
    """0 < d"""
    v = numval(d)
    if v is not None:
        return boolt(v > 0)
    if d is UNDEF:
        return mk('pos', d)
    if d.op == 'ite' and (numval(d.args[1]) is not None or numval(d.args[2]) is not None):
        return ite(d.args[0], pos(d.args[1]), pos(d.args[2]))
    p = as_poly(d)
    lead = _norm_scale(p)
    if lead is None:
        return mk('pos', d)
    if isint(d):
        if lead[1] < 0:
            e = sub(ONE, d)
            return not_(mk('pos', e)) if _posn(e) is None else not_(_posn(e))
        r = _posn(d)
        return r if r is not None else mk('pos', d)
    c = abs(lead[1])
    if c != 1:
        d = from_poly({m: x / c for m, x in p.items()})
    r = _posn(d)
    return r if r is not None else mk('pos', d)


def _posn(d):
    # trivially true/false because of non-negative atoms
    p = as_poly(d)
    const = p.get((), Fraction(0))
    rest = [(m, c) for m, c in p.items() if m != ()]
    if all(c > 0 and all(nonneg(a) and e > 0 for a, e in m) for m, c in rest) and const > 0:
        return TRUE
    if all(c < 0 and all(nonneg(a) and e > 0 for a, e in m) for m, c in rest) and const <= 0:
        return FALSE
    return None


def lt(a, b):
    if a is b:
        return FALSE
    if a.op in ('ptr',) or b.op in ('ptr',):
        if a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0] and a.args[1][:-1] == b.args[1][:-1]:
            return lt(a.args[1][-1][1], b.args[1][-1][1])
        return mk('ptrlt', a, b)
    return pos(sub(b, a))


def le(a, b):
    if a is b:
        return TRUE
    if not isint(sub(b, a)) and a.op != 'ptr':
        return not_(lt(b, a))
    return not_(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ptr' and b.op == 'ptr':
        if a.args[0] == b.args[0] and a.args[1] and b.args[1] and a.args[1][:-1] == b.args[1][:-1] and \
                a.args[1][-1][0] == 'i' and b.args[1][-1][0] == 'i':
            return eq(a.args[1][-1][1], b.args[1][-1][1])
        if a.args[0] != b.args[0]:
            return FALSE
    if (a is NULL and b.op == 'ptr') or (b is NULL and a.op == 'ptr'):
        return FALSE
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if a in (TRUE, FALSE):
            a, b = b, a
        v = numval(a)
        if v is not None:
            return boolt((v != 0) == (b is TRUE))
        return a if b is TRUE else not_(a)
    if a.op in ('str', 'cat') or b.op in ('str', 'cat') or a.op == 'strlit' or b.op == 'strlit':
        if a.op == 'strlit' and b.op == 'strlit':
            return boolt(a.args[0] == b.args[0])
        x, y = sorted((a, b), key=skey)
        return mk('eq', x, y)
    if a.op == 'enum' and b.op == 'enum':
        return boolt(a is b)
    NUMERIC = ('num', 'poly', 'size', 'k', 'bv', 'sel', 'fld', 'in', 'sqrt', 'abs', 'call', 'iphi', 'phi', 'trip',
               'count', 'mod', 'idiv', 'rows', 'cols')
    if a.op in ('enum', 'null', 'fn') or b.op in ('enum', 'null', 'fn'):
        x, y = sorted((a, b), key=skey)
        return mk('eq', x, y)
    d = sub(a, b)
    v = numval(d)
    if v is not None:
        return boolt(v == 0)
    if d.op == 'poly' or isnum(a) or isnum(b):
        p = as_poly(d)
        lead = _norm_scale(p)
        if lead is not None:
            d = from_poly({m: x / lead[1] for m, x in p.items()})
            if isint(d):
                q = as_poly(d)
                # n == 0 for non-negative n  ->  not (0 < n)
                if all(c > 0 and all(nonneg(x) for x, e in m) for m, c in q.items()):
                    return not_(pos(d))
            return mk('zero', d)
    x, y = sorted((a, b), key=skey)
    return mk('eq', x, y)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if b is FALSE:
        return and_(c, a)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if a.op == 'struct' and b.op == 'struct' and a.args[0] is b.args[0]:
        da, db = dict(a.args[1]), dict(b.args[1])
        out = {}
        for n in set(da) | set(db):
            va = da[n] if n in da else _base_fld(a.args[0], n)
            vb = db[n] if n in db else _base_fld(b.args[0], n)
            out[n] = ite(c, va, vb)
        return struct(a.args[0], out)
    if a.op == 'list' and b.op == 'list' and len(a.args) == len(b.args):
        return lst(*[ite(c, x, y) for x, y in zip(a.args, b.args)])
    return mk('ite', c, a, b)


# --------------------------------------------------------------------------- aggregates
def struct(base, fields):
    """record value: base term (opaque, or UNDEF) with overridden fields"""
    out = {}
    for n, v in fields.items():
        if base is not UNDEF and v is _base_fld(base, n):
            continue
        out[n] = v
    if not out and base is not UNDEF:
        return base
    return mk('struct', base, tuple(sorted(out.items())))


def _base_fld(base, n):
    if base is UNDEF:
        return UNDEF
    return fld(base, n)


def lst(*items):
    # eta: list of all components of one opaque value of known size
    if items:
        a = items[0]
        if a.op == 'sel':
            v = a.args[0]
            d = dims(v)
            if d == len(items) and all(x.op == 'sel' and x.args[0] is v and intval(x.args[1]) == i
                                       for i, x in enumerate(items)):
                return v
    if items and all(x is UNDEF for x in items):
        return mk('list', *items)
    return mk('list', *items)


import re

_dim_cache = {}


_md_cache = {}


def matdims(ty):
    """(rows, columns) of a matrix type that is not a vector, -1 for dimensions known at run time only"""
    ty = strip_type(ty)
    if ty not in _md_cache:
        m = re.match(r'Eigen::\w*Base<(Eigen::(?:Matrix|Array)<.*>)>$', ty)
        if m:
            _md_cache[ty] = matdims(m.group(1))
        else:
            m = re.match(r'Eigen::(?:Matrix|Array)<[\w:<>, ]*?, (-?\d+), (-?\d+)[,>]', ty)
            d = (int(m.group(1)), int(m.group(2))) if m else None
            _md_cache[ty] = d if d and 1 not in d else None
    return _md_cache[ty]


def dims_of_type(ty):
    ty = strip_type(ty)
    if ty in _dim_cache:
        return _dim_cache[ty]
    m = re.match(r'Eigen::\w*Base<(Eigen::(?:Matrix|Array)<.*>)>$', ty)
    if m:
        r = _dim_cache[ty] = dims_of_type(m.group(1))
        return r
    r = None
    m = re.match(r'std::array<(.*), (\d+)(?:UL)?>$', ty)
    if m:
        r = int(m.group(2))
    m = re.match(r'Eigen::(?:Matrix|Array)<[\w:<>, ]*?, (-?\d+), (-?\d+)[,>]', ty)
    if m:
        a, b = int(m.group(1)), int(m.group(2))
        if a == 1 and b > 0:
            r = b
        elif b == 1 and a > 0:
            r = a
        elif a > 0 and b > 0:
            r = (a, b)
    m = re.match(r'.*\[(\d+)\]$', ty)
    if m:
        r = int(m.group(1))
    if ty in ('cv::Point_<float>', 'cv::Point_<int>', 'cv::Point_<double>'):
        r = None
    _dim_cache[ty] = r
    return r


def dims(v):
    if v.op == 'list':
        return len(v.args)
    if v.op in ('xf', 'rotvec', 'axis', 'aarot', 'vecof3'):
        return 3
    if v.op == 'fld' and v.args[1] == 't' and TY.get(v) is None:
        return 3
    if v.op == 'solved':
        return dims(v.args[0])
    if v.op == 'mat':
        return (v.args[0], v.args[1])
    ty = TY.get(v)
    if ty:
        return dims_of_type(ty)
    return None


def fld(t, n):
    if t.op == 'struct':
        for k, v in t.args[1]:
            if k == n:
                return v
        return _base_fld(t.args[0], n)
    if t is UNDEF:
        return UNDEF
    if t.op == 'ite':
        return ite(t.args[0], fld(t.args[1], n), fld(t.args[2], n))
    if t.op == 'solved':
        return solved(fld(t.args[0], n))
    if t.op == 'prod' or t.op == 'inv' or t.op in ('Trans', 'Rvec', 'Rot', 'AA', 'Quat') or t is IDENT:
        if n in ('t', 'R'):
            return iso_part(t, n)
    if t.op == 'pair' and n in ('first', 'second'):
        return t.args[0 if n == 'first' else 1]
    r = mk('fld', t, n)
    return r


def sel(t, i):
    """element i of a sequence / component of a vector"""
    if t is UNDEF:
        return UNDEF
    o = t.op
    iv = intval(i) if isinstance(i, T) else None
    if o == 'list':
        if iv is not None and 0 <= iv < len(t.args):
            return t.args[iv]
        if t.args and all(x is t.args[0] for x in t.args) and iv is None:
            return t.args[0]
        if iv is not None:
            return mk('oob', t, i)
    elif o == 'cat':
        if iv is not None:
            off = 0
            for s in t.args:
                if s.op == 'list':
                    if iv - off < len(s.args):
                        return s.args[iv - off]
                    off += len(s.args)
                else:
                    n = intval(size(s))
                    if n is None:
                        if off == 0 and len(t.args) == 1:
                            break
                        break
                    if iv - off < n:
                        return sel(s, num(iv - off))
                    off += n
        # leading comprehension of symbolic size indexed by the same range
        if t.args and t.args[0].op in ('gen',):
            g = t.args[0]
            if len(t.args) == 1:
                return sel(g, i)
    elif o == 'gen':
        if t.args[2] is TRUE and t.args[1].op != 'chunk':  # unguarded comprehension
            return open_gen(t, i)[0]
    elif o == 'arr':  # base with point updates, latest last
        base, ups = t.args
        for (j, v) in reversed(ups):
            d = idx_cmp(j, i)
            if d is True:
                return v
            if d is None:
                return mk('sel', t, i)
        return sel(base, i)
    elif o == 'mat':
        r, c, items = t.args
        if i.op == 'pair':
            a, b = intval(i.args[0]), intval(i.args[1])
            if a is not None and b is not None and 0 <= a < r and 0 <= b < c:
                return items[a * c + b]
        elif iv is not None and (r == 1 or c == 1):
            return items[iv]
    elif o == 'ite':
        return ite(t.args[0], sel(t.args[1], i), sel(t.args[2], i))
    elif o == 'solved':
        return solved(sel(t.args[0], i))
    elif o == 'vadd':
        return add(*[sel(x, i) for x in t.args])
    elif o == 'vscale':
        return mul(t.args[0], sel(t.args[1], i))
    elif o == 'vmul':
        return mul(sel(t.args[0], i), sel(t.args[1], i))
    elif o == 'vdiv':
        return div(sel(t.args[0], i), sel(t.args[1], i))
    elif o == 'vabs':
        return absv(sel(t.args[0], i))
    elif o == 'vconst':
        return t.args[0]
    elif o == 'transpose':
        if i.op == 'pair':
            return sel(t.args[0], mk('pair', i.args[1], i.args[0]))
        if i.op not in ('rowix', 'colix', 'blkix', 'segix'):
            return sel(t.args[0], i)
    elif o == 'row':
        if i.op == 'pair':
            return sel(t.args[0], mk('pair', t.args[1], i.args[1]))
        return sel(t.args[0], mk('pair', t.args[1], i))
    elif o == 'col':
        if i.op == 'pair':
            return sel(t.args[0], mk('pair', i.args[0], t.args[1]))
        return sel(t.args[0], mk('pair', i, t.args[1]))
    elif o == 'lay' and i.op == 'pair':
        v, off, r, c, rm = t.args
        a, b = i.args
        return sel(v, add(off, mul(a, c), b) if intval(rm) else add(off, mul(b, r), a))
    elif o == 'seg':
        return sel(t.args[0], add(i, t.args[1]))
    elif o == 'fill':
        return t.args[1]
    elif o == 'mapped':
        pass
    return mk('sel', t, i)


def idx_cmp(a, b):
    """True equal, False surely different, None unknown"""
    if a is b:
        return True
    if a.op == 'pair' and b.op == 'pair':
        r = [idx_cmp(x, y) for x, y in zip(a.args, b.args)]
        if False in r:
            return False
        if all(x is True for x in r):
            return True
        return None
    if a.op == 'pair' or b.op == 'pair':
        p, q = (a, b) if a.op == 'pair' else (b, a)
        if p.args[1] is ZERO:
            return idx_cmp(p.args[0], q)
        if p.args[0] is ZERO:
            return idx_cmp(p.args[1], q)
        return None
    if a.op in ('ptr', 'strlit') and b.op == a.op:
        if a.op == 'strlit':
            return False
        if a.args[0] != b.args[0]:
            return False
        pa, pb = a.args[1], b.args[1]
        if len(pa) == len(pb):
            for x, y in zip(pa, pb):
                if x == y:
                    continue
                if x[0] == 'f' or y[0] == 'f':
                    return False
                return idx_cmp(x[1], y[1])
        return None
    try:
        v = numval(sub(a, b))
    except Exception:
        return None
    if v is not None:
        return v == 0
    return None


def upd(t, i, v):
    if t.op == 'list':
        iv = intval(i)
        if iv is not None and 0 <= iv < len(t.args):
            a = list(t.args)
            a[iv] = v
            return lst(*a)
    if t.op == 'mat' and i.op == 'pair':
        a, b = intval(i.args[0]), intval(i.args[1])
        if a is not None and b is not None:
            it = list(t.args[2])
            it[a * t.args[1] + b] = v
            return mk('mat', t.args[0], t.args[1], tuple(it))
    if t.op == 'arr':
        base, ups = t.args
        new = []
        for (j, w) in ups:
            if idx_cmp(j, i) is True:
                continue
            new.append((j, w))
        new.append((i, v))
        # stable order for constant indices
        if all(intval(j) is not None for j, _ in new):
            new.sort(key=lambda p: intval(p[0]))
        return _arr(base, new)
    if v is sel(t, i) and t is not UNDEF:
        return t
    return _arr(t, [(i, v)])


def _arr(base, ups):
    d = dims(base) if base is not UNDEF else None
    if isinstance(d, int) and all(intval(j) is not None for j, _ in ups):
        m = {intval(j): v for j, v in ups}
        if all(0 <= x < d for x in m):
            return lst(*[m[x] if x in m else sel(base, num(x)) for x in range(d)])
    r = mk('arr', base, tuple(ups))
    if base in TY and r not in TY:
        TY[r] = TY[base]
    return r


def size(t):
    if t.op == 'list':
        return num(len(t.args))
    if t.op == 'cat':
        return add(*[size(x) for x in t.args])
    if t.op == 'gen':
        if t.args[1].op == 'chunk':
            k = fresh_k()
            b, g = open_gen(t, k)
            return sumk(t.args[0], k, ite(g, size(b.args[0]), num(0)))
        if t.args[2] is TRUE:
            return t.args[0]
        return mk('count', *t.args[:1], t.args[2])
    if t.op == 'fill':
        return t.args[0]
    if t.op == 'arr':
        return size(t.args[0])
    if t.op == 'scatter':
        return size(t.args[1])
    if t.op == 'solved':
        return size(t.args[0])
    if t.op == 'mat':
        return num(t.args[0] * t.args[1])
    if t.op == 'strlit':
        return num(len(t.args[0]))
    if t.op in ('vadd', 'vmul', 'vdiv'):
        return size(t.args[0])
    if t.op in ('vscale',):
        return size(t.args[1])
    if t.op == 'ite':
        a, b = size(t.args[1]), size(t.args[2])
        return ite(t.args[0], a, b)
    d = dims(t)
    if isinstance(d, int):
        return num(d)
    if isinstance(d, tuple):
        return num(d[0] * d[1])
    return mk('size', t)


def cat(*segs):
    out = []
    for s in segs:
        parts = s.args if s.op == 'cat' else (s,)
        for p in parts:
            if p.op == 'list':
                if not p.args:
                    continue
                if out and out[-1].op == 'list':
                    out[-1] = mk('list', *(out[-1].args + p.args))
                    continue
            out.append(p)
    if not out:
        return mk('list')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def strcat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'scat' else (p,)
        for x in ps:
            if x.op == 'strlit':
                if x.args[0] == '':
                    continue
                if out and out[-1].op == 'strlit':
                    out[-1] = mk('strlit', out[-1].args[0] + x.args[0])
                    continue
            out.append(x)
    if not out:
        return mk('strlit', '')
    if len(out) == 1:
        return out[0]
    return mk('scat', *out)


def strlit(s):
    return mk('strlit', s)


# --------------------------------------------------------------------------- binders
_fresh = [0]


def fresh_k(tag='k'):
    _fresh[0] += 1
    return mk('k', '%s%d' % (tag, _fresh[0]))


def close(k, *terms):
    """abstract the fresh index k out of terms; returns (level, terms)"""
    lvl = 1 + max([t.maxbv for t in terms] + [0])
    b = mk('bv', lvl)
    return lvl, [subst(t, {k: b}) for t in terms]


# gen(n, body, guard): for bv in 0..n (filtered by guard) yields body
def gen(n, k, body, guard=TRUE):
    lvl, (b, g) = close(k, body, guard)
    iv = intval(n)
    if iv is not None and iv <= 0:
        return mk('list')
    if b.op == 'chunk':
        if iv is not None and iv <= 16 and g is TRUE:
            return cat(*[subst(body.args[0], {k: num(i)}) for i in range(iv)])
        return mk('gen', n, b, g, lvl)
    if iv is not None and iv <= 16 and g is TRUE:
        return lst(*[subst(body, {k: num(i)}) for i in range(iv)])
    # eta: gen(size(v), v[i]) = v
    if g is TRUE and b.op == 'sel' and b.args[1] is mk('bv', lvl) and not (
            b.args[0].maxbv >= lvl and contains(b.args[0], lambda x: x is mk('bv', lvl))) and size(b.args[0]) is n:
        return b.args[0]
    if g is TRUE and not contains(b, lambda x: x is mk('bv', lvl)):
        return mk('fill', n, b)
    return mk('gen', n, b, g, lvl)


def open_gen(t, j):
    n, b, g, lvl = t.args
    m = {mk('bv', lvl): j}
    return subst_bv(b, lvl, j), subst_bv(g, lvl, j)


# generic binder node: bind(op, lvl, args...)  e.g. sum/fold/first/exists
def bind(op, k, n, *terms):
    lvl, ts = close(k, *terms)
    return mk(op, n, *ts, lvl)


BINDERS = {'gen', 'sum', 'fold', 'first', 'exists', 'scatter', 'mapgen', 'prodall', 'maxall', 'minall', 'last',
           'countif', 'sgen'}


def is_binder(t):
    return t.op in BINDERS and t.args and isinstance(t.args[-1], int)


def subst_bv(t, lvl, j):
    return subst(t, {mk('bv', lvl): j})


REBUILD = {}


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    keys = m
    needk = any(x.op == 'bv' for x in m)

    def go(x):
        if x in keys:
            return keys[x]
        r = memo.get(x)
        if r is not None:
            return r
        if not needk and not x.free and not any(kk.op not in ('k', 'phi') for kk in keys):
            return x
        if is_binder(x):
            lvl = x.args[-1]
            bvt = mk('bv', lvl)
            inner = dict((kk, v) for kk, v in m.items() if kk is not bvt)
            # open with fresh index
            k = fresh_k('s')
            args = list(x.args)
            opened = []
            changed = False
            n2 = go_with(args[0], m)
            for a in args[1:-1]:
                if isinstance(a, T):
                    o = subst(a, {bvt: k}) if a.maxbv >= lvl else a
                    o2 = subst(o, inner) if inner else o
                    if o2 is not o:
                        changed = True
                    opened.append(o2)
                else:
                    opened.append(a)
            if n2 is args[0] and not changed:
                r = x
            else:
                r = rebind(x.op, k, n2, opened)
        else:
            na = tuple(garg(a) for a in x.args)
            if na == x.args:
                r = x
            else:
                r = rebuild(x.op, na)
                if r not in TY and x in TY:
                    TY[r] = TY[x]
        memo[x] = r
        return r

    def go_with(x, mm):
        return go(x)

    def garg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(garg(b) for b in a)
        return a

    return go(t)


def rebind(op, k, n, ts):
    if op == 'gen':
        return gen(n, k, ts[0], ts[1])
    if op == 'sgen':
        return sgen(n, k, ts[0], ts[1])
    f = REBUILD.get('bind:' + op)
    if f:
        return f(n, k, *ts)
    return bind(op, k, n, *ts)


def sgen(n, k, body, guard=TRUE):
    """string comprehension"""
    iv = intval(n)
    if iv is not None and iv <= 16 and guard is TRUE:
        return strcat(*[subst(body, {k: num(i)}) for i in range(iv)])
    lvl, (b, g) = close(k, body, guard)
    return mk('sgen', n, b, g, lvl)


def sumk(n, k, body):
    iv = intval(n)
    if iv is not None and iv <= 16:
        return add(*[subst(body, {k: num(i)}) for i in range(iv)])
    if k not in body.free:
        return mul(n, body)
    # linearity: pull out constant factors
    p = as_poly(body)
    if len(p) > 1:
        return add(*[sumk(n, k, from_poly({m: c})) for m, c in p.items()])
    (m, c), = p.items()
    out = [(a, e) for a, e in m if k not in a.free]
    inn = [(a, e) for a, e in m if k in a.free]
    b = from_poly({tuple(inn): Fraction(1)})
    return mul(from_poly({tuple(out): c}), bind('sum', k, n, b))


REBUILD['bind:sum'] = lambda n, k, b: sumk(n, k, b)


def rebuild(op, a):
    f = REBUILD.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


def _re_poly(items):
    return add(*[mul(num(c), *[power(x, e) for x, e in m]) for m, c in items])


REBUILD.update({
    'poly': _re_poly, 'not': not_, 'and': and_, 'or': or_, 'ite': ite, 'pos': pos,
    'zero': lambda d: eq(d, ZERO), 'eq': eq, 'fld': fld, 'sel': sel, 'size': size, 'cat': cat, 'scat': strcat,
    'abs': absv, 'sqrt': sqrt, 'list': lst, 'struct': lambda b, f: struct(b, dict(f)),
    'sum_': None,
})
del REBUILD['sum_']


def _re_arr(base, ups):
    t = base
    for j, v in ups:
        t = upd(t, j, v)
    return t


REBUILD['arr'] = _re_arr
REBUILD['sum'] = None
del REBUILD['sum']


# --------------------------------------------------------------------------- rigid transforms
IDENT = mk('ident')


def prod(*ts):
    out = []
    for t in ts:
        parts = t.args if t.op == 'prod' else (t,)
        for p in parts:
            if p is IDENT:
                continue
            if p.op == 'Rvec' and p.args[0].op == 'list' and all(x is ZERO for x in p.args[0].args):
                continue
            if p.op == 'Trans' and p.args[0].op == 'list' and all(x is ZERO for x in p.args[0].args):
                continue
            if out and (inverse(out[-1]) is p):
                out.pop()
                continue
            if out and out[-1].op == 'Trans' and p.op == 'Trans':
                out[-1] = Trans(vec_add(out[-1].args[0], p.args[0]))
                continue
            # eta: Trans(t(M)) * R(M) = M
            if out and out[-1].op == 'Trans':
                M = rot_source(p)
                if M is not None and fld(M, 't') is out[-1].args[0]:
                    out.pop()
                    for q in (M.args if M.op == 'prod' else (M,)):
                        if out and inverse(out[-1]) is q:
                            out.pop()
                        else:
                            out.append(q)
                    continue
            out.append(p)
    if not out:
        return IDENT
    if len(out) == 1:
        return out[0]
    return mk('prod', *out)


def rot_source(p):
    if p.op == 'Rvec' and p.args[0].op == 'rotvec':
        return p.args[0].args[0]
    if p.op == 'Rvec' and p.args[0].op == 'solved' and p.args[0].args[0].op == 'rotvec':
        return solvedM(p.args[0].args[0].args[0])
    if p.op == 'Rot' and p.args[0].op == 'fld' and p.args[0].args[1] == 'R':
        return p.args[0].args[0]
    return None


def solvedM(M):
    TY.setdefault(M, 'Eigen::Transform<double, 3, 1, 0>')
    return mk('solved', M)


def solved(t, tag='', loop=()):
    """value of t after the solver changed it; constants keep a tag that tells the locations apart"""
    if t is UNDEF:
        return t
    if isnum(t):
        return mk('solved', t, tag, loop) if loop else mk('solved', t, tag)
    if t.op == 'solved':
        return mk('solved', t, 'again')
    if t.op == 'list':
        return lst(*[solved(x, (tag, i), loop) for i, x in enumerate(t.args)])
    if t.op == 'struct':
        return struct(t.args[0] if t.args[0] is UNDEF else solved(t.args[0], tag, loop),
                      {n: solved(v, (tag, n), loop) for n, v in t.args[1]})
    if t.op == 'gen':
        k = fresh_k('s')
        b, g = open_gen(t, k)
        return gen(t.args[0], k, solved(b, (tag, k), loop), g)
    if t.op == 'fill':
        k = fresh_k('s')
        return gen(t.args[0], k, solved(t.args[1], (tag, k), loop))
    if t.op == 'arr':
        return mk('arr', solved(t.args[0], tag, loop), tuple((i, solved(v, (tag, i), loop)) for i, v in t.args[1]))
    if t.op == 'cat':
        return cat(*[solved(x, (tag, i), loop) for i, x in enumerate(t.args)])
    if t.op == 'ite':
        return ite(t.args[0], solved(t.args[1], tag, loop), solved(t.args[2], tag, loop))
    return mk('solved', t, loop) if loop else mk('solved', t)


def Trans(v):
    return mk('Trans', v)


def inverse(t):
    if t is IDENT:
        return t
    if t.op == 'inv':
        return t.args[0]
    if t.op == 'prod':
        return mk('prod', *[inverse(x) for x in reversed(t.args)])
    if t.op == 'Trans':
        return Trans(vec_neg(t.args[0]))
    if t.op == 'ite':
        return ite(t.args[0], inverse(t.args[1]), inverse(t.args[2]))
    if t.op == 'AA':
        return mk('AA', neg(t.args[0]), t.args[1])
    if t.op == 'solved':
        pass
    return mk('inv', t)


def rotvec(t):
    """rotation vector of the rotation of M"""
    if t is IDENT:
        return lst(ZERO, ZERO, ZERO)
    if t.op == 'fld' and t.args[1] == 'R':
        t = t.args[0]
    if t.op == 'prod':
        rots = [x for x in t.args if x.op != 'Trans']
        if len(rots) == 1:
            return rotvec(rots[0])
        if len(rots) != len(t.args):
            pass
    if t.op == 'Rvec':
        return mk('rvnorm', t.args[0]) if False else t.args[0]
    if t.op == 'Rot':
        return rotvec(t.args[0])
    if t.op == 'solved':
        return solved(rotvec(t.args[0]))
    r = mk('rotvec', t)
    return r


def Rvec(v):
    if v.op == 'list' and all(x is ZERO for x in v.args):
        return IDENT
    return mk('Rvec', v)


def Rot(m):
    if m.op in ('AA', 'Rvec', 'Quat') or m is IDENT:
        return m
    if m.op == 'fld' and m.args[1] == 'R':
        s = m.args[0]
        return mk('Rot', m)
    if m.op == 'Rot':
        return m
    if m.op == 'prod' and all(x.op in ('AA', 'Rvec', 'Quat', 'Rot') for x in m.args):
        return m
    return mk('Rot', m)


def iso(R, t):
    return prod(Trans(t), Rot(R))


def iso_part(M, n):
    """translation / rotation part of a product in normal form"""
    if M is IDENT:
        return lst(ZERO, ZERO, ZERO) if n == 't' else IDENT
    if n == 't':
        if M.op == 'Trans':
            return M.args[0]
        if M.op in ('AA', 'Rvec', 'Rot', 'Quat'):
            return lst(ZERO, ZERO, ZERO)
        if M.op == 'prod':
            if M.args[0].op == 'Trans' and all(x.op in ('AA', 'Rvec', 'Rot', 'Quat') for x in M.args[1:]):
                return M.args[0].args[0]
        return mk('fld', M, 't')
    if M.op == 'Trans':
        return IDENT
    if M.op in ('AA', 'Rvec', 'Quat'):
        return M
    if M.op == 'Rot':
        return M.args[0]
    if M.op == 'prod':
        rs = [x for x in M.args if x.op != 'Trans']
        if len(rs) < len(M.args) and all(x.op in ('AA', 'Rvec', 'Rot', 'Quat') for x in rs):
            return iso_part(prod(*rs), 'R') if len(rs) == 1 else prod(*rs)
        if all(x.op in ('AA', 'Rvec', 'Rot', 'Quat') for x in rs):
            return M
    return mk('fld', M, 'R')


def xf(M, p):
    if M is IDENT:
        return p
    if p.op == 'xf':
        return xf(prod(M, p.args[0]), p.args[1])
    if M.op == 'ite':
        return ite(M.args[0], xf(M.args[1], p), xf(M.args[2], p))
    if M.op == 'Trans':
        return vec_add(M.args[0], p)
    if M.op == 'prod' and M.args[0].op == 'Trans':
        # Trans(t)*Rvec(r) p = aarot(r,p)+t
        rest = prod(*M.args[1:])
        return vec_add(xf(rest, p), M.args[0].args[0])
    if M.op == 'Rvec':
        return aarot(M.args[0], p)
    return mk('xf', M, p)


def aarot(v, p):
    if v.op == 'list' and all(x is ZERO for x in v.args):
        return p
    return mk('aarot', v, p)


REBUILD.update({'prod': prod, 'inv': inverse, 'xf': xf, 'rotvec': rotvec, 'Rvec': Rvec, 'Rot': Rot, 'Trans': Trans,
                'solved': solved, 'aarot': aarot})


# vectors of known size are component lists
def comps(v, n):
    return [sel(v, num(i)) for i in range(n)]


def vec_n(v):
    d = dims(v)
    return d if isinstance(d, int) else None


def vec_zip(f, a, b):
    n = vec_n(a)
    if n is None:
        n = vec_n(b)
    if n is None:
        return None
    return lst(*[f(x, y) for x, y in zip(comps(a, n), comps(b, n))])


def vec_add(a, b):
    r = vec_zip(add, a, b)
    if r is not None:
        return r
    xs = sorted(list(a.args if a.op == 'vadd' else (a,)) + list(b.args if b.op == 'vadd' else (b,)), key=skey)
    return mk('vadd', *xs)


def vec_scale(s, v):
    n = vec_n(v)
    if v.op == 'axis' and s.op == 'angle' and v.args[0] is s.args[0]:
        return rotvec(v.args[0])
    if v.op == 'mat':
        return mk('mat', v.args[0], v.args[1], tuple(mul(s, x) for x in v.args[2]))
    if n is not None:
        return lst(*[mul(s, x) for x in comps(v, n)])
    if s is ONE:
        return v
    if v.op == 'vscale':
        return vec_scale(mul(s, v.args[0]), v.args[1])
    if v.op == 'vadd':
        return mk('vadd', *sorted([vec_scale(s, x) for x in v.args], key=skey))
    return mk('vscale', s, v)


def vec_neg(v):
    return vec_scale(num(-1), v)


def vec_sub(a, b):
    return vec_add(a, vec_neg(b))


def dot(a, b):
    n = vec_n(a)
    if n is None:
        n = vec_n(b)
    if n is not None:
        return add(*[mul(x, y) for x, y in zip(comps(a, n), comps(b, n))])
    x, y = sorted((a, b), key=skey)
    return mk('dot', x, y)


def norm(a):
    return sqrt(dot(a, a))


def cross(a, b):
    a = comps(a, 3)
    b = comps(b, 3)
    return lst(sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])),
               sub(mul(a[0], b[1]), mul(a[1], b[0])))


# --------------------------------------------------------------------------- printing
def show(t, depth=40):
    def g(x, d):
        if isinstance(x, T):
            return s(x, d)
        if isinstance(x, tuple):
            return '(' + ', '.join(g(y, d) for y in x) + ')'
        return str(x)

    def s(t, d):
        if d <= 0:
            return '…'
        o = t.op
        a = t.args
        if o == 'num':
            v = a[0]
            if v.denominator == 1:
                return str(v.numerator)
            f = float(v)
            return ('%g' % f) if Fraction(f) == v and depth < 10 ** 8 else str(v)
        if o == 'poly':
            out = []
            for m, c in a[0]:
                fs = []
                for x, e in m:
                    xs = s(x, d - 1)
                    fs.append(xs if e == 1 else '%s^%d' % (xs, e))
                if not fs:
                    out.append(s(num(c), d))
                elif c == 1:
                    out.append('*'.join(fs))
                else:
                    out.append(s(num(c), d) + '*' + '*'.join(fs))
            return '(' + ' + '.join(out) + ')'
        if o == 'fld':
            return s(a[0], d - 1) + '.' + str(a[1])
        if o == 'sel':
            return s(a[0], d - 1) + '[' + g(a[1], d - 1) + ']'
        if o == 'in':
            return str(a[0])
        if o == 'k':
            return str(a[0])
        if o == 'bv':
            return '#%d' % a[0]
        if o == 'strlit':
            return '"' + a[0] + '"'
        if o == 'ptr':
            return '&' + str(a[0]) + ''.join(('.' + p[1]) if p[0] == 'f' else '[' + g(p[1], d - 1) + ']' for p in a[1])
        if o == 'struct':
            return '{' + s(a[0], d - 1) + ' | ' + ', '.join('%s=%s' % (n, s(v, d - 1)) for n, v in a[1]) + '}'
        if o == 'ite':
            return '(%s ? %s : %s)' % (s(a[0], d - 1), s(a[1], d - 1), s(a[2], d - 1))
        if o == 'list':
            return '[' + ', '.join(s(x, d - 1) for x in a) + ']'
        if not a:
            return o
        return o + '(' + ', '.join(g(x, d - 1) for x in a) + ')'

    return s(t, depth)


# --------------------------------------------------------------------------- deciding equality
def cond_atoms(t, acc=None):
    """conditions of ite terms outside binders, as leaf booleans"""
    acc = acc if acc is not None else {}

    seen = set()

    def leaf(c):
        if c.op in ('and', 'or', 'not'):
            for x in c.args:
                leaf(x)
        elif c not in (TRUE, FALSE):
            acc[c] = True

    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            leaf(x.args[0])
        if x.op in ('and', 'or', 'not'):
            leaf(x)
        for a in _sub(x.args):
            st.append(a)
    return list(acc)


class TooBig(Exception):
    pass


def cases(ts, assume=(), limit=14):
    """Shannon expansion: yields (assignment dict, restricted terms)"""
    atoms = set()
    for t in ts:
        atoms.update(a for a in cond_atoms(t) if a.maxbv == 0 or True)
    m0 = {}
    for a in assume:
        if a.op == 'not':
            m0[a.args[0]] = FALSE
        elif a.op == 'and':
            for x in a.args:
                if x.op == 'not':
                    m0[x.args[0]] = FALSE
                else:
                    m0[x] = TRUE
        else:
            m0[a] = TRUE

    def rec(ts, asg, left):
        # pick next undecided atom present
        cand = set()
        for t in ts:
            cand.update(cond_atoms(t))
        cand = sorted((c for c in cand if c.maxbv == 0 and c not in asg), key=skey)
        if not cand:
            yield asg, ts
            return
        if left <= 0:
            raise TooBig()
        a = cand[0]
        for v in (TRUE, FALSE):
            asg2 = dict(asg)
            asg2[a] = v
            if not consistent(asg2):
                continue
            ts2 = [subst_any(t, {a: v}) for t in ts]
            yield from rec(ts2, asg2, left - 1)

    ts = [subst_any(t, m0) for t in ts] if m0 else list(ts)
    yield from rec(ts, dict(m0), limit)


def subst_any(t, m):
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if is_binder(x):
            # substitute inside binder bodies too (conditions are closed terms)
            na = tuple(garg(a) for a in x.args)
            if na == x.args:
                r = x
            else:
                k = fresh_k('s')
                lvl = x.args[-1]
                ops = [subst(a, {mk('bv', lvl): k}) if isinstance(a, T) else a for a in na[1:-1]]
                r = rebind(x.op, k, na[0], ops)
        else:
            na = tuple(garg(a) for a in x.args)
            if na == x.args:
                r = x
            else:
                r = rebuild(x.op, na)
                if r not in TY and x in TY:
                    TY[r] = TY[x]
        memo[x] = r
        return r

    def garg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(garg(b) for b in a)
        return a

    return go(t)


def consistent(asg):
    """cheap infeasibility test on an assignment of comparison atoms"""
    lows = []
    for a, v in asg.items():
        if a.op == 'pos':
            d = a.args[0]
            # pos(d) & pos(-d) ; pos(d) & zero(d)
            if v is TRUE:
                nd = pos(neg(d))
                if asg.get(nd) is TRUE:
                    return False
                if nd.op == 'not' and asg.get(nd.args[0]) is FALSE:
                    return False
                z = eq(d, ZERO)
                if asg.get(z) is TRUE:
                    return False
            else:
                pass
        if a.op == 'zero' and v is TRUE:
            if asg.get(pos(a.args[0])) is TRUE or asg.get(pos(neg(a.args[0]))) is TRUE:
                return False
        if a.op == 'eq' and v is TRUE:
            # x == E1 and x == E2 for different enum constants
            for b, w in asg.items():
                if w is TRUE and b is not a and b.op == 'eq':
                    sa, sb = set(a.args), set(b.args)
                    c = sa & sb
                    if len(c) == 1:
                        x, y = (sa - c), (sb - c)
                        if x and y:
                            x, y = next(iter(x)), next(iter(y))
                            if x.op == 'enum' and y.op == 'enum' and x is not y:
                                return False
    # interval reasoning on shared non-constant part (integers and reals)
    bounds = {}
    for a, v in asg.items():
        if a.op not in ('pos',):
            continue
        p = as_poly(a.args[0])
        c = p.get((), Fraction(0))
        rest = {m: x for m, x in p.items() if m != ()}
        lead = _norm_scale(rest)
        if lead is None:
            continue
        s = lead[1]
        key = tuple(sorted(((m, x / s) for m, x in rest.items()), key=lambda q: _mono_key(q[0])))
        integer = isint(a.args[0]) and abs(s) == 1
        # 0 < s*E + c   <=> E > -c/s (s>0) or E < -c/s (s<0)
        b = -c / s
        lo, lo_s, hi, hi_s = bounds.get(key, (None, False, None, False))
        tr = v is TRUE
        if (s > 0) == tr:
            # lower bound: E > b (strict) if true with s>0 ; not(E < b) => E >= b if false with s<0
            strict = tr
            bb = b
            if integer and strict:
                bb, strict = b + 1, False
            if lo is None or bb > lo or (bb == lo and strict):
                lo, lo_s = bb, strict
        else:
            strict = tr
            bb = b
            if integer and strict:
                bb, strict = b - 1, False
            if hi is None or bb < hi or (bb == hi and strict):
                hi, hi_s = bb, strict
        bounds[key] = (lo, lo_s, hi, hi_s)
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (lo_s or hi_s)):
                return False
    return True


UNKNOWN_OPS = {'unk', 'fold', 'phi', 'out', 'after', 'oob', 'scatter', 'whilev', 'div0', 'havoc', 'caught', 'ucall',
               'first', 'last', 'oldphi'}


def unknown(t):
    return contains(t, lambda x: x.op in UNKNOWN_OPS)


def decide_equal(a, b, assume=()):
    """'equal' | 'different' | 'unknown' with a witness case"""
    if a is b:
        return 'equal', None
    try:
        worst = ('equal', None)
        for asg, (x, y) in cases([a, b], assume):
            if x is y:
                continue
            if same_ext(x, y):
                continue
            ux = ops_unknown(x) - ops_unknown(y)
            if ux:
                worst = ('unknown', (asg, x, y))
                continue
            return 'different', (asg, x, y)
        return worst
    except TooBig:
        return 'unknown', None


def ops_unknown(t):
    return {x.op + (':' + str(x.args[0]) if x.op in ('ucall', 'out', 'after') else '') for x in subterms(t)
            if x.op in UNKNOWN_OPS}


def same_ext(x, y):
    """extensional equality on aggregates"""
    if x is y:
        return True
    nx, ny = dims(x), dims(y)
    if isinstance(nx, int) and nx == ny and (x.op in ('list', 'arr') or y.op in ('list', 'arr')):
        return all(sel(x, num(i)) is sel(y, num(i)) for i in range(nx))
    if isinstance(nx, int) and (y.op == 'list' and len(y.args) == nx):
        return all(sel(x, num(i)) is sel(y, num(i)) for i in range(nx))
    return False
