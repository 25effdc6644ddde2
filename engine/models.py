"""Meaning of the library calls the repository uses (std, Eigen, ceres, OpenCV, YAML)."""
import re
from fractions import Fraction
from . import terms as X
from .terms import T, mk, num, TRUE, FALSE, NULL, UNDEF, ZERO, ONE, TY
from . import interp as I_
from .interp import LV, ptr, cat_of, targs, base_name, Dead, Unsupported, exists


def f32(v):
    return v


# --------------------------------------------------------------------------- names
_mn = {}


def method_name(q):
    r = _mn.get(q)
    if r is None:
        d = 0
        last = 0
        i = 0
        # operators such as operator<< must not be read as template brackets
        m = re.search(r'operator\s*(\(\)|\[\]|->\*?|<<=?|>>=?|<=>|<=|>=|[-+*/%^&|~!=<>]=?|,|&&|\|\||\+\+|--|"".*|.*)$', q)
        body = q
        tail = None
        if m and (m.start() == 0 or q[m.start() - 1] == ':'):
            r = q[m.start():]
        else:
            for i, ch in enumerate(q):
                if ch in '<(':
                    d += 1
                elif ch in '>)':
                    d -= 1
                elif ch == ':' and d == 0:
                    last = i + 1
            r = q[last:]
        _mn[q] = r
    return r


# --------------------------------------------------------------------------- views (Eigen blocks, map entries, …)
def view_read(I, v, s):
    k = s[1]
    if k == 'seg':
        off, n = s[2], s[3]
        nv = X.intval(n)
        if v.op == 'list' and X.intval(off) == 0 and nv == len(v.args):
            return v
        d = X.dims(v)
        if isinstance(d, int) and nv == d and X.intval(off) == 0:
            return v
        if nv is not None and nv <= 16:
            return X.lst(*[X.sel(v, X.add(off, num(i))) for i in range(nv)])
        return mk('seg', v, off, n)
    if k == 'row':
        d = X.dims(v)
        if isinstance(d, tuple):
            return X.lst(*[X.sel(v, mk('pair', s[2], num(j))) for j in range(d[1])])
        r = X.sel(v, mk('rowix', s[2]))
        return r if not (r.op == 'sel' and r.args[0] is v) else mk('row', v, s[2])
    if k == 'col':
        d = X.dims(v)
        if isinstance(d, tuple):
            return X.lst(*[X.sel(v, mk('pair', num(i), s[2])) for i in range(d[0])])
        return mk('col', v, s[2])
    if k == 'blk':
        i, j, r, c = s[2:6]
        rv, cv = X.intval(r), X.intval(c)
        if rv is not None and cv is not None and rv * cv <= 64:
            its = [X.sel(v, mk('pair', X.add(i, num(a)), X.add(j, num(b)))) for a in range(rv) for b in range(cv)]
            if rv == 1 or cv == 1:
                return X.lst(*its)
            return mk('mat', rv, cv, tuple(its))
        return mk('blk', v, i, j, r, c)
    if k == 'entries':
        return mk('entries', v)
    if k == 'opt':
        if v.op == 'some':
            return v.args[0]
        if v.op == 'ite':
            return X.ite(v.args[0], view_read(I, v.args[1], s), view_read(I, v.args[2], s))
        return mk('optval', v)
    if k == 'pt':     # image pixel
        return X.sel(v, s[2])
    if k == 'T':
        return X.sel(mk('transpose', v), ZERO) if False else transpose(v)
    raise Unsupported('view ' + k)


def view_write(I, v, s, new):
    k = s[1]
    if k == 'seg':
        off, n = s[2], X.intval(s[3])
        if n is not None and n <= 16:
            for i in range(n):
                v = X.upd(v, X.add(off, num(i)), X.sel(new, num(i)))
            return v
        return X.upd(v, mk('segix', off, s[3]), new)
    if k == 'row':
        d = X.dims(v)
        if isinstance(d, tuple):
            for j in range(d[1]):
                v = X.upd(v, mk('pair', s[2], num(j)), X.sel(new, num(j)))
            return v
        return X.upd(v, mk('rowix', s[2]), new)
    if k == 'col':
        d = X.dims(v)
        if isinstance(d, tuple):
            for i in range(d[0]):
                v = X.upd(v, mk('pair', num(i), s[2]), X.sel(new, num(i)))
            return v
        return X.upd(v, mk('colix', s[2]), new)
    if k == 'blk':
        i, j, r, c = s[2:6]
        rv, cv = X.intval(r), X.intval(c)
        if rv is not None and cv is not None and rv * cv <= 64:
            for a in range(rv):
                for b in range(cv):
                    e = X.sel(new, num(a * cv + b)) if (rv == 1 or cv == 1) else X.sel(new, mk('pair', num(a), num(b)))
                    v = X.upd(v, mk('pair', X.add(i, num(a)), X.add(j, num(b))), e)
            return v
        return X.upd(v, mk('blkix', i, j, r, c), new)
    if k == 'entries':
        if new.op == 'arr':
            for j, p in new.args[1]:
                key = X.fld(p, 'first')
                v = X.upd(v, key, X.fld(p, 'second'))
            return v
        return mk('out', 'entries', v, new)
    if k == 'opt':
        return mk('some', new)
    if k == 'T':
        return transpose(new)
    raise Unsupported('view write ' + k)


def transpose(v):
    if v.op == 'mat':
        r, c, it = v.args
        return mk('mat', c, r, tuple(it[a * c + b] for b in range(c) for a in range(r)))
    if v.op == 'transpose':
        return v.args[0]
    if v.op == 'list' or isinstance(X.dims(v), int):
        return v
    if v.op in ('Rot', 'Rvec', 'AA', 'Quat') or (v.op == 'fld' and v.args[1] == 'R'):
        return X.inverse(X.Rot(v))
    return mk('transpose', v)


_sel0 = X.sel


def sel(t, i):
    if t.op == 'entries':
        M = t.args[0]
        key = i.args[1] if i.op == 'keyidx' else mk('keyat', M, i)
        return mk('pair', key, X.sel(M, key))
    if t.op == 'scatter' and isinstance(i, T):
        n, base, idx, val, g, lvl = t.args
        b = mk('bv', lvl)
        if idx.op not in ('pair', 'tuple', 'rowix', 'ptr', 'strlit') and i.op not in ('pair', 'rowix'):
            d = X.sub(idx, b)
            if not X.contains(d, lambda x: x is b):
                kk = X.sub(i, d)
                inr = X.and_(X.le(ZERO, kk), X.lt(kk, n))
                vv = X.subst(val, {b: kk})
                if g is not TRUE:
                    inr = X.and_(inr, X.subst(g, {b: kk}))
                return X.ite(inr, vv, X.sel(base, i))
    if t.op == 'emptymap':
        return mk('mapdefault')
    if t.op == 'mapdefault':
        return mk('mapdefault')
    if t.op == 'identm' and i.op == 'pair':
        r = X.idx_cmp(i.args[0], i.args[1])
        if r is True:
            return ONE
        if r is False:
            return ZERO
    if t.op == 'zerov':
        return ZERO
    if t.op in ('fld',) and t.args[1] == 'R' and i.op == 'pair':
        pass
    if t.op == 'dynmat':
        return mk('sel', t, i)
    return _sel0(t, i)


X.sel = sel
X.REBUILD['sel'] = sel
_eq0 = X.eq


def eq(a, b):
    if a.op == 'keyidx' or b.op == 'keyidx':
        if b.op == 'keyidx':
            a, b = b, a
        if b is X.size(a.args[0]):
            return X.not_(has(a.args[0], a.args[1]))
    return _eq0(a, b)


X.eq = eq
X.REBUILD['eq'] = eq
X.REBUILD['zero'] = lambda d: eq(d, ZERO)


def has(M, key):
    if M.op in ('emptymap', 'list') and not M.args:
        return FALSE
    if M.op == 'arr':
        return X.or_(has(M.args[0], key), *[X.eq(j, key) for j, _ in M.args[1]])
    if M.op == 'ite':
        return X.ite(M.args[0], has(M.args[1], key), has(M.args[2], key))
    if M.op == 'mapgen':
        n, idx, val, lvl = M.args
        k = X.fresh_k()
        j = X.subst(idx, {mk('bv', lvl): k})
        js = j.args if j.op == 'tuple' else (j,)
        return exists(n, k, X.or_(*[X.eq(x, key) for x in js]))
    if M.op == 'solved':
        return has(M.args[0], key)
    t = mk('has', M, key)
    TY[t] = 'bool'
    return t


X.REBUILD['has'] = has


def seq_has(S, v):
    """v occurs in sequence S"""
    if S.op == 'list':
        return X.or_(*[X.eq(x, v) for x in S.args])
    t = mk('has', S, v)
    TY[t] = 'bool'
    return t


# --------------------------------------------------------------------------- helpers
def ucall(I, name, args):
    return mk('ucall', name, *args)


def ty_of(I, node):
    return node.get('t', '')


def vals(I, e):
    return [I.ev(a) for a in e['a']]


def is_scalar_type(ty):
    return X.is_int_type(ty) or X.is_float_type(ty)


def is_rot_like(ty):
    return cat_of(ty) in ('iso', 'translation', 'aa', 'quat')


def cvpt_default(t):
    b = base_name(t)
    n = 2
    names = ('x', 'y')
    if b == 'cv::Point3_':
        names = ('x', 'y', 'z')
    if b == 'cv::Size_':
        names = ('width', 'height')
    if b in ('cv::Scalar_', 'cv::Vec'):
        return mk('list', ZERO, ZERO, ZERO, ZERO) if b == 'cv::Scalar_' else UNDEF
    if b == 'cv::Rect_':
        names = ('x', 'y', 'width', 'height')
    return mk('struct', UNDEF, tuple((n, ZERO) for n in names))


def convert(I, v, node, ty):
    """implicit conversion of a value to the declared type"""
    if ty is None:
        return v
    c = cat_of(ty)
    t = X.strip_type(ty)
    if c == 'int' and t == 'bool' and v.op not in ('true', 'false', 'pos', 'zero', 'eq', 'and', 'or', 'not', 'exists'):
        return I.truth(v) if v.op in ('num',) else v
    if c == 'float' and v.op in ('true', 'false'):
        return I.toint(v)
    if c == 'optional' and v.op not in ('some', 'none', 'ite') and node is not None and \
            cat_of(node.get('t', '')) != 'optional' and not node.get('copy'):
        return mk('some', v)
    return v


def copy_value(I, v, t):
    return v


def overrides(e):
    return False


def range_size(I, cont, ty):
    c = cat_of(ty)
    v = I.read(cont, X.strip_type(ty))
    if c == 'map' or c == 'set':
        return msize(v)
    d = X.dims_of_type(ty)
    if isinstance(d, int) and c in ('array', 'carray'):
        return num(d)
    if c == 'rec' and v.op not in ('list', 'gen', 'cat', 'fill'):
        return mk('size', v)
    return X.size(v)


def range_elem(I, cont, ty, k):
    c = cat_of(ty)
    if c == 'map':
        return LV(cont.root, cont.path + (('w', 'entries'), ('i', k)))
    return cont.i(k)


def mapit_eq(a, b):
    return X.eq(a, b)


def msize(v):
    if v.op == 'emptymap':
        return ZERO
    if v.op == 'arr':
        keys = []
        b = v.args[0]
        if b.op == 'emptymap':
            ks = [j for j, _ in v.args[1]]
            if all(X.idx_cmp(x, y) is False or x is y for x in ks for y in ks):
                return num(len(ks))
    if v.op == 'ite':
        return X.ite(v.args[0], msize(v.args[1]), msize(v.args[2]))
    return mk('size', v)


def map_view(I, node, ty):
    """Eigen::Map variables are views of the memory they are constructed from"""
    if node['k'] != 'ctor' or node.get('copy'):
        return None
    a = node['a']
    if not a:
        return None
    p = I.ev(a[0])
    mt = targs(ty)[0]
    mt = X.strip_type(mt)
    d = X.dims_of_type(mt)
    lv = I.ptr_index(p, ZERO)
    if cat_of(mt) == 'quat' and lv.path and lv.path[-1][0] == 'i':
        return LV(lv.root, lv.path[:-1] + (('w', 'quatv', lv.path[-1][1]),))
    if isinstance(d, int):
        n = num(d)
    elif isinstance(d, tuple):
        n = num(d[0] * d[1])
        if lv.path and lv.path[-1][0] == 'i':
            r, c = d
            # a matrix laid over a linear array: row or column major by the options argument
            opts = targs(mt)
            rm = len(opts) > 3 and opts[3] == '1'
            return LV(lv.root, lv.path[:-1] + (('w', 'lay', lv.path[-1][1], num(r), num(c), num(1 if rm else 0)),))
    elif X.matdims(mt) and len(a) > 1 and lv.path and lv.path[-1][0] == 'i':
        sz = [I.toint(I.ev(x)) for x in a[1:3]]
        md = [num(n) if n >= 0 else None for n in X.matdims(mt)]
        if len(sz) == 1:
            sz = sz + [md[1]] if md[0] is None else [md[0]] + sz
        opts = targs(mt)
        rm = len(opts) > 3 and opts[3].strip() == '1'
        return LV(lv.root, lv.path[:-1] + (('w', 'lay', lv.path[-1][1], sz[0], sz[1], num(1 if rm else 0)),))
    else:
        n = I.ev(a[1]) if len(a) > 1 else mk('size', mk('deref', p))
    if lv.path and lv.path[-1][0] == 'i':
        return LV(lv.root, lv.path[:-1] + (('w', 'seg', lv.path[-1][1], n),))
    return lv


_vr0 = view_read


def _view_read(I, v, s):
    if s[1] == 'lay':
        off, r, c, rm = s[2], X.intval(s[3]), X.intval(s[4]), X.intval(s[5])
        if r is None or c is None or r * c > 64:
            return mk('lay', v, *s[2:6])
        its = []
        for a in range(r):
            for b in range(c):
                its.append(X.sel(v, X.add(off, num(a * c + b if rm else b * r + a))))
        return mk('mat', r, c, tuple(its))
    if s[1] == 'quatv':
        return quat(X.lst(*[X.sel(v, X.add(s[2], num(i))) for i in range(4)]))
    if s[1] == 'coeffs':
        return X.lst(UNDEF, UNDEF, UNDEF, UNDEF) if v is UNDEF else quatof(v)
    if s[1] == 'lin':
        r, c, rm = s[2:5]
        return X.lst(*[X.sel(v, mk('pair', num(i // c if rm else i % r), num(i % c if rm else i // r))) for i in range(r * c)])
    return _vr0(I, v, s)


view_read = _view_read
_vw0 = view_write


def _view_write(I, v, s, new):
    if s[1] == 'lay':
        off, r, c, rm = s[2], X.intval(s[3]), X.intval(s[4]), X.intval(s[5])
        if r is None or c is None or r * c > 64:
            return X.upd(v, mk('layix', *s[2:6]), new)
        for a in range(r):
            for b in range(c):
                v = X.upd(v, X.add(off, num(a * c + b if rm else b * r + a)), X.sel(new, mk('pair', num(a), num(b))))
        return v
    if s[1] == 'quatv':
        for i in range(4):
            v = X.upd(v, X.add(s[2], num(i)), X.sel(quatof(new), num(i)))
        return v
    if s[1] == 'coeffs':
        return quat(new)
    if s[1] == 'lin':
        r, c, rm = s[2:5]
        return mk('mat', r, c, tuple(X.sel(new, num(i * c + j if rm else j * r + i)) for i in range(r) for j in range(c)))
    return _vw0(I, v, s, new)


view_write = _view_write


# --------------------------------------------------------------------------- construction of library types
def construct(I, e, t):
    c = cat_of(t)
    a = e['a']
    if X.strip_type(t).startswith('boost::accumulators::accumulator_set<') and not e.get('copy'):
        return mk('list')
    if c in ('iso',):
        if not a:
            return UNDEF
        v = I.ev(a[0])
        st = a[0].get('t', '')
        if cat_of(st) == 'eig' or cat_of(st) == 'eigx':
            return from_matrix4(v)
        return v
    if c == 'translation':
        if len(a) == 3:
            return X.Trans(X.lst(*vals(I, e)))
        if not a:
            return UNDEF
        v = I.ev(a[0])
        return v if is_rot_like(a[0].get('t', '')) else X.Trans(v)
    if c == 'aa':
        if len(a) == 2:
            ang, ax = vals(I, e)
            return angle_axis(ang, ax)
        if not a:
            return UNDEF
        return X.Rot(I.ev(a[0]))
    if c == 'quat':
        if len(a) == 4:
            w, x, y, z = vals(I, e)
            return quat(X.lst(x, y, z, w))
        if len(a) == 1:
            v = I.ev(a[0])
            ct = cat_of(a[0].get('t', ''))
            d = X.dims_of_type(X.strip_type(a[0].get('t', '')))
            if v.op == 'ptr':
                lv = I.ptr_index(v, ZERO)
                return quat(X.lst(*[I.read(I.ptr_index(v, num(i))) for i in range(4)]))
            if d == 4 or X.dims(v) == 4:
                return quat(v)
            return X.Rot(v)
        return UNDEF
    if c in ('eig', 'eigx'):
        return eigen_construct(I, e, t, a)
    if c == 'vector' or c == 'set':
        if not a:
            return mk('list')
        v = vals(I, e)
        t0 = cat_of(a[0].get('t', ''))
        if c == 'set':
            if e.get('sil') or t0 == 'vector':
                return v[0] if len(set(v[0].args)) == len(v[0].args) else mk('dedup', v[0])
        if e.get('sil'):
            return v[0]
        if t0 in ('int',) and len(a) >= 1:
            n = v[0]
            et = targs(t)[0]
            if len(a) >= 2 and cat_of(a[1].get('t', '')) != 'rec' or len(a) >= 2 and 'allocator' not in a[1].get('t', ''):
                val = v[1]
            else:
                val = I.zero(et)
            return fill(n, val)
        if len(a) >= 2 and (v[0].op in ('ptr', 'riter', 'ite') or t0 in ('iter', 'ptr')):
            return seq_range(I, v[0], v[1])
        if t0 in ('vector', 'set', 'array') or v[0].op in ('list', 'gen', 'cat'):
            return v[0]
        return mk('ucall', 'vector', *v)
    if c == 'array':
        return I.dinit(t) if not a else I.ev(a[0])
    if c == 'string':
        if not a:
            return X.strlit('')
        v = vals(I, e)
        if len(a) >= 2 and cat_of(a[0].get('t', '')) == 'int':
            return mk('strfill', v[0], v[1])
        return tostr_c(v[0])
    if c == 'sstream':
        return X.strlit('') if not a or cat_of(a[0].get('t', '')) not in ('string',) else I.ev(a[0])
    if c == 'map':
        if not a:
            return mk('emptymap')
        v = vals(I, e)
        m = mk('emptymap')
        if e.get('sil') and v[0].op == 'list':
            for p in v[0].args:
                m = X.upd(m, X.fld(p, 'first'), X.fld(p, 'second'))
            return m
        return v[0]
    if c == 'pair':
        v = vals(I, e)
        if len(v) == 2 and base_name(t) == 'std::pair':
            return mk('pair', *v)
        if len(v) == 1:
            return v[0]
        if not v:
            return I.dinit(t)
        return mk('tuple', *v)
    if c == 'smart':
        if not a:
            return NULL
        v = I.ev(a[0])
        if cat_of(X.strip_type(a[0].get('t', ''))) == 'ptr' and v is not NULL:
            I.event('own', ptr=v, how=t)
        return v
    if c == 'ynode':
        return ynode_of(I, a[0]) if a else I.dinit(t)
    if c == 'optional':
        if not a:
            return mk('none')
        v = I.ev(a[0])
        ct = a[0].get('t', '')
        if cat_of(ct) == 'optional' or 'none_t' in ct:
            return v if cat_of(ct) == 'optional' else mk('none')
        return mk('some', v)
    if c == 'function':
        return I.ev(a[0]) if a else NULL
    if c == 'cvpt':
        return cv_construct(I, e, t, a)
    if c == 'cvmat':
        if not a:
            return mk('emptymat')
        v = vals(I, e)
        h = new_image(I, mk('newmat', *v))
        if cat_of(X.strip_type(a[0].get('t', ''))) == 'cvmat':
            # header over (part of) the pixels of another image
            I.rootinfo[h.args[0]]['shares'] = v[0]
        return h
    if c in ('int', 'float'):
        return I.ev(a[0]) if a else I.zero(t)
    if c == 'iter' or c == 'ptr':
        return I.ev(a[0]) if a else UNDEF
    if t == 'boost::none_t':
        return mk('none')
    if t.startswith('ceres::AutoDiffCostFunction') or t.startswith('ceres::DynamicAutoDiffCostFunction'):
        f = I.ev(a[0])
        return mk('struct', UNDEF, (('blocks', mk('list')), ('functor', f), ('nres', UNDEF)))
    b = base_name(t)
    if b == 'std::reverse_iterator':
        return mk('riter', I.ev(a[0]))
    if b in ('std::random_device',):
        return mk('entropy')
    v = vals(I, e)
    o = mk('lib', t, *v)
    TY[o] = t
    return o


def from_matrix4(v):
    if v.op == 'mat' and v.args[0] == 4:
        return mk('isoof', v)
    return v


def angle_axis(ang, ax):
    if ax.op == 'normalized' and X.norm(ax.args[0]) is ang:
        return X.Rvec(ax.args[0])
    return X.Rvec(X.vec_scale(ang, ax))


def quat(v):
    if v.op == 'quatof':
        return v.args[0]
    if v.op == 'list':
        s = {x.args[0] for x in v.args if x.op == 'sel'}
        if len(s) == 1 and next(iter(s)).op == 'quatof':
            q = next(iter(s))
            if all(x.op == 'sel' and X.intval(x.args[1]) == i for i, x in enumerate(v.args)):
                return q.args[0]
    return mk('Quat', v)


def quatof(R):
    if R.op == 'Quat':
        return R.args[0]
    if R.op == 'Rot' and R.args[0].op == 'Quat':
        return R.args[0].args[0]
    if R.op == 'ite':
        return X.ite(R.args[0], quatof(R.args[1]), quatof(R.args[2]))
    t = mk('quatof', R)
    TY[t] = 'Eigen::Matrix<double, 4, 1>'
    return t


X.REBUILD['quatof'] = quatof
X.REBUILD['Quat'] = quat


def fill(n, v):
    ni = X.intval(n)
    if ni is not None and ni <= 16:
        return mk('list', *[v] * max(ni, 0))
    return mk('fill', n, v)


def eigen_construct(I, e, t, a):
    d = X.dims_of_type(t)
    if not a:
        return I.dinit(t)
    v = vals(I, e)
    if len(a) == 2 and a[1].get('t', '').endswith('::PrivateType'):
        a, v = a[:1], v[:1]
    st = a[0].get('t', '')
    if len(a) == 1:
        if is_scalar_type(st) and not isinstance(d, int):
            ta = targs(t)
            if cat_of(t) == 'eig' and len(ta) >= 3 and ta[2] == '1':
                return mk('dynvec', v[0])
            return v[0] if cat_of(t) != 'eig' else mk('dynvec', v[0])
        if v[0].op == 'ptr' and cat_of(st) == 'ptr':
            if isinstance(d, int):
                return X.lst(*[I.read(I.ptr_index(v[0], num(i))) for i in range(d)])
        return densify(v[0], d)
    if isinstance(d, int) and len(a) == d and all(is_scalar_type(x.get('t', '')) for x in a):
        return X.lst(*v)
    if len(a) == 2 and all(X.is_int_type(x.get('t', '')) for x in a):
        return mk('dynmat', v[0], v[1])
    if base_name(t)[7:] in ('JacobiSVD', 'BDCSVD', 'SelfAdjointEigenSolver', 'FullPivLU', 'PartialPivLU', 'ColPivHouseholderQR',
                            'HouseholderQR', 'LDLT', 'LLT', 'FullPivHouseholderQR', 'CompleteOrthogonalDecomposition') and v:
        return mk('eig', base_name(t)[7:], *v)
    if len(v) == 1 and cat_of(e['a'][0].get('t', '')) in ('eig', 'eigx'):
        return v[0]
    return mk('ucall', 'eigen', *v)


def densify(v, d):
    if isinstance(d, int) and v.op in ('vadd', 'vscale', 'vmul', 'vdiv'):
        return X.lst(*[X.sel(v, num(i)) for i in range(d)])
    return v


def cv_construct(I, e, t, a):
    b = base_name(t)
    names = {'cv::Point_': ('x', 'y'), 'cv::Point3_': ('x', 'y', 'z'), 'cv::Size_': ('width', 'height'),
             'cv::Rect_': ('x', 'y', 'width', 'height')}.get(b)
    v = vals(I, e)
    if names is None:
        if b == 'cv::Scalar_':
            return mk('list', *(v + [ZERO] * (4 - len(v))))
        return mk('list', *v)
    if not v:
        return mk('struct', UNDEF, tuple((n, ZERO) for n in names))
    if len(v) == len(names):
        return mk('struct', UNDEF, tuple(sorted(zip(names, v))))
    if len(v) == 1:
        return v[0]
    return mk('ucall', t, *v)


def new_image(I, content):
    r = I.newroot('image', 'img', 'cv::MatData')
    I.st.store[r] = content
    return mk('img', r)


def tostr_c(v):
    return v


def keypoint(vs, nodes):
    """cv::KeyPoint(pt, size, ...) or (x, y, size, ...)"""
    if cat_of(X.strip_type(nodes[0].get('t', ''))) == 'cvpt':
        pt, sz = vs[0], vs[1]
    else:
        pt, sz = mk('struct', UNDEF, (('x', vs[0]), ('y', vs[1]))), vs[2]
    return mk('struct', UNDEF, (('pt', pt), ('size', sz)))


def construct_refs(I, ty, refs, nodes):
    """construct an object of type ty from evaluated argument locations (emplace, make_shared, …)"""
    t = X.strip_type(ty)
    c = cat_of(t)
    if t == 'cv::KeyPoint' and len(refs) >= 2:
        return keypoint([I.read(r, X.strip_type(n.get('t', ''))) for r, n in zip(refs, nodes)], nodes)
    if c == 'rec' and t in I.db.records:
        cands = I.db.ctors(t, I.frames[-1].tu if I.frames else None, len(refs))
        best = None
        bs = -1
        for f in cands:
            s = 0
            ok = True
            for p, n in zip(f['p'], nodes):
                pt, nt = X.strip_type(p['t']), X.strip_type(n.get('t', ''))
                if pt == nt:
                    s += 3
                elif cat_of(pt) == cat_of(nt) and cat_of(pt) != 'rec':
                    s += 2
                elif cat_of(pt) in ('int', 'float') and cat_of(nt) in ('int', 'float'):
                    s += 1
                elif cat_of(pt) in ('eig',) and cat_of(nt) in ('eigx', 'eig'):
                    s += 1
                elif cat_of(pt) == 'string' and (cat_of(nt) in ('ptr', 'carray')):
                    s += 1
                elif cat_of(pt) == 'rec' or cat_of(nt) == 'rec':
                    ok = False
                else:
                    s += 0
            if ok and s > bs:
                best, bs = f, s
        if best is not None:
            lv = LV(I.newroot('temp', 'tmp', t))
            I.rootinfo[lv.root]['cls'] = t
            I.visited.add(best['f'])
            I.run_ctor(best, lv, None, refs)
            return I.read(lv)
        if len(refs) == 1:
            return I.read(refs[0])
        if not refs:
            return I.dinit(t, explicit=True)
        return mk('ucall', 'ctor:' + t, *[I.read(r) for r in refs])
    vs = [I.read(r, X.strip_type(n.get('t', ''))) for r, n in zip(refs, nodes)]
    if len(vs) == 1 and t.startswith(('ceres::AutoDiffCostFunction', 'ceres::DynamicAutoDiffCostFunction')):
        return mk('struct', UNDEF, (('blocks', mk('list')), ('functor', vs[0]), ('nres', UNDEF)))
    if len(vs) == 1:
        return convert(I, vs[0], nodes[0], ty)
    if not vs:
        return I.dinit(t, explicit=True)
    if c == 'pair' and len(vs) == 2:
        return mk('pair', *vs)
    if c == 'cvpt':
        names = {'cv::Point_': ('x', 'y'), 'cv::Point3_': ('x', 'y', 'z')}.get(base_name(t))
        if names and len(names) == len(vs):
            return mk('struct', UNDEF, tuple(sorted(zip(names, vs))))
    if c == 'eig':
        d = X.dims_of_type(t)
        if d == len(vs):
            return X.lst(*vs)
    if c == 'vector' and len(vs) == 2:
        return fill(vs[0], vs[1])
    if c == 'aa' and len(vs) == 2:
        return angle_axis(*vs)
    return mk('ucall', 'ctor:' + t, *vs)


def seq_range(I, a, b):
    """sequence between two iterators"""
    if a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0] and a.args[1][:-1] == b.args[1][:-1]:
        base = I.read(LV(a.args[0], a.args[1][:-1]))
        i, j = a.args[1][-1][1], b.args[1][-1][1]
        if i is ZERO and j is X.size(base):
            return base
        n = X.sub(j, i)
        nv = X.intval(n)
        if nv is not None and nv <= 16:
            return mk('list', *[X.sel(base, X.add(i, num(q))) for q in range(nv)])
        k = X.fresh_k()
        return X.gen(n, k, X.sel(base, X.add(i, k)))
    if a.op == 'riter' and b.op == 'riter' and a.args[0].op == 'ptr' and b.args[0].op == 'ptr' and \
            a.args[0].args[0] == b.args[0].args[0]:
        n = iter_len(I, a, b)
        k = X.fresh_k()
        return X.gen(n, k, I.read(deref_at(I, a, k)))
    return mk('ucall', 'range', a, b)


# --------------------------------------------------------------------------- calls
def call(I, e, this):
    q = e.get('n', '')
    name = method_name(q)
    op = e.get('op')
    if this is not None:
        ot = e.get('ot', '')
        if e.get('ar'):
            ot = ot.rstrip('*').strip() if ot.rstrip().endswith('*') else ot
        h = method(I, e, this, name, X.strip_type(ot), op)
        if h is not NotImplemented:
            return h
        return opaque(I, e, this)
    h = free(I, e, q, name, op)
    if h is not NotImplemented:
        return h
    return opaque(I, e, None)


def opaque(I, e, this):
    if this is not None and e.get('n') == 'cv::_InputArray::getMat':
        return I.read(this)
    return opaque_call(I, e, this)


def opaque_call(I, e, this):
    """call whose meaning is not known: result is an uninterpreted function of the arguments, everything it can modify
    becomes unknown"""
    q = e.get('n', '?')
    I.ucalls[q] = I.ucalls.get(q, 0) + 1
    pt = e.get('pt', '')
    args = []
    refs = []
    for i, a in enumerate(e['a']):
        k = pt[i] if i < len(pt) else 'v'
        w = unwrap(a)
        if w is not a:
            # implicit cv::InputArray / cv::OutputArray conversion of a container
            if '_OutputArray' in a['t'] or '_InputOutputArray' in a['t']:
                lv = I.ref(w)
                args.append(I.read(lv) if '_InputOutputArray' in a['t'] else UNDEF)
                if isinstance(lv, LV):
                    refs.append((i, lv))
            else:
                args.append(I.ev(w))
            continue
        if k == 'm':
            lv = I.ref(a)
            refs.append((i, lv))
            args.append(I.read(lv))
        else:
            v = I.ev(a)
            args.append(v)
            if k == 'p' and v.op == 'ptr':
                refs.append((i, LV(v.args[0], v.args[1][:-1] if v.args[1] and v.args[1][-1][0] == 'i' else v.args[1])))
    if this is not None:
        args = [I.read(this)] + args
    t = mk('ucall', q, *args)
    ty = e.get('t', '')
    if ty and ty != 'void':
        TY[t] = X.strip_type(ty)
    mut = this is not None and not e.get('cm') and not e.get('sm') and e.get('op') not in ('()', '->', '*', '[]')
    I.event('ucall', fnname=q, args=tuple(args), result=t, mut=tuple(ptr(l) for _, l in refs) + ((ptr(this),) if mut else ()))
    for i, lv in refs:
        o = mk('out', q, num(i), *args)
        if I.track and pt[i:i + 1] and pt[i] == 'p':
            w = I.read(lv)
            if w.op == 'dynmat':
                SHAPE[o] = w.args
        I.write(lv, o)
    if mut:
        I.write(this, mk('after', q, *args))
    return t


def fmt(v):
    """text of a value in a stream"""
    if v.op in ('strlit', 'scat', 'sgen'):
        return v
    if v.op == 'ite':
        return mk('fmt', v)
    ty = TY.get(v)
    if ty and cat_of(ty) == 'string':
        return v
    return mk('fmt', v)


def fmt_kind(v, ty):
    """text of a value of a given type inserted into a stream"""
    t, c = X.strip_type(ty), cat_of(X.strip_type(ty))
    if t == 'char':
        return mk('fmt', v, 'c')
    if c == 'float':
        return mk('fmt', v, 'f')
    if t == 'bool':
        return mk('fmt', v, 'b')
    if c in ('eig', 'eigx'):
        return mk('fmt', v, 'm')
    return mk('fmt', v)


def concat(I, a, b):
    return X.strcat(fmt_s(a), fmt_s(b))


def fmt_s(v):
    return v


# ---- free functions
def free(I, e, q, name, op):
    a = e['a']
    if op:
        return free_op(I, e, q, name, op)
    if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const'):
        return I.ref(a[0])
    if name in ('sqrt', 'sqrtf') and len(a) == 1:
        return X.sqrt(I.toint(I.ev(a[0])))
    if name in ('abs', 'fabs', 'fabsf', 'labs') and len(a) == 1:
        v = I.toint(I.ev(a[0]))
        if q == 'abs' and X.is_float_type(a[0].get('t', '')):
            return mk('iabs', v)
        return X.absv(v)
    if name == 'pow' and len(a) == 2:
        b, x = vals(I, e)
        n = X.intval(x)
        if n is not None and abs(n) <= 8:
            return X.power(I.toint(b), n)
        if X.numval(x) == Fraction(1, 2):
            return X.sqrt(b)
        return mk('fn2', 'pow', b, x)
    if q in ('ceres::IsNaN', 'ceres::IsInfinite', 'ceres::IsFinite', 'ceres::isnan', 'ceres::isinf', 'ceres::isfinite'):
        name = {'IsNaN': 'isnan', 'IsInfinite': 'isinf', 'IsFinite': 'isfinite'}.get(name, name)
    if name in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'round', 'cvRound',
                'cvFloor', 'cvCeil', 'isnan', 'isinf', 'isfinite', 'trunc', 'lround', 'log10', 'cbrt') and len(a) == 1:
        v = I.toint(I.ev(a[0]))
        t = mk('fn1', name, v)
        if name in ('isnan', 'isinf', 'isfinite'):
            TY[t] = 'bool'
        if name in ('cvRound', 'cvFloor', 'cvCeil', 'lround'):
            TY[t] = 'int'
        return t
    if name in ('atan2', 'fmod', 'hypot', 'fmin', 'fmax') and len(a) == 2:
        v = vals(I, e)
        if name == 'hypot':
            return X.sqrt(X.add(X.mul(v[0], v[0]), X.mul(v[1], v[1])))
        if name in ('fmin', 'fmax'):
            return X.ite(X.lt(v[1], v[0]), v[1], v[0]) if name == 'fmin' else X.ite(X.lt(v[0], v[1]), v[1], v[0])
        return mk('fn2', name, *v)
    if q.startswith('std::numeric_limits<'):
        return limits(q, name)
    if q == 'std::to_string':
        v = I.toint(I.ev(a[0]))
        return mk('fmt', v, 'd') if X.is_float_type(a[0].get('t', '')) else fmt(v)
    if q == 'std::make_pair':
        return mk('pair', *vals(I, e))
    if q == 'std::make_tuple':
        return mk('tuple', *vals(I, e))
    if q == 'std::get':
        lv = I.ref(a[0])
        i = int(e['ta'][0].rstrip('UL')) if e.get('ta') and e['ta'][0].rstrip('UL').isdigit() else None
        if i is not None:
            ty = cat_of(a[0].get('t', ''))
            if ty == 'array':
                return lv.i(num(i))
            return lv.f('first' if i == 0 else 'second')
        return NotImplemented
    if q in ('std::make_shared', 'std::make_unique', 'cv::makePtr', 'boost::make_shared'):
        ty = e['ta'][0]
        root = I.newroot('heap', 'new', ty)
        I.rootinfo[root]['cls'] = X.strip_type(ty)
        refs = [I.ref(x) for x in a]
        v = construct_refs(I, ty, refs, a)
        I.st.store[root] = v
        I.event('new', root=root, type=ty)
        I.event('own', ptr=ptr(LV(root)), how=q)
        return ptr(LV(root))
    if q in ('std::min', 'std::max') and len(a) == 2 and is_scalar_type(a[0].get('t', '')):
        x, y = vals(I, e)
        return X.ite(X.lt(y, x), y, x) if q == 'std::min' else X.ite(X.lt(x, y), y, x)
    if q == 'std::swap':
        x, y = I.ref(a[0]), I.ref(a[1])
        vx, vy = I.read(x), I.read(y)
        I.write(x, vy)
        I.write(y, vx)
        return UNDEF
    if q in ('std::back_inserter', 'std::inserter'):
        lv = I.ref(a[0])
        return mk('inserter', ptr(lv))
    if q in ('std::begin', 'std::cbegin'):
        lv = I.ref(a[0])
        return begin(I, lv, a[0].get('t', ''))
    if q in ('std::end', 'std::cend'):
        lv = I.ref(a[0])
        return end(I, lv, a[0].get('t', ''))
    if q in ('std::distance',):
        x, y = vals(I, e)
        return I.ptr_diff(y, x)
    if q in ('std::next', 'std::prev'):
        v = vals(I, e)
        n = v[1] if len(v) > 1 else ONE
        return I.ptr_add(v[0], n if q == 'std::next' else X.neg(n))
    if q == 'std::advance':
        lv = I.ref(a[0])
        I.write(lv, I.ptr_add(I.read(lv), I.ev(a[1])))
        return UNDEF
    if q in ('std::setw', 'std::setprecision', 'std::setfill'):
        return mk('manip', name, *vals(I, e))
    r = algorithm(I, e, q, name)
    if r is not NotImplemented:
        return r
    r = eigen_static(I, e, q, name)
    if r is not NotImplemented:
        return r
    r = ceres_free(I, e, q, name)
    if r is not NotImplemented:
        return r
    r = cv_free(I, e, q, name)
    if r is not NotImplemented:
        return r
    return NotImplemented


def limits(q, name):
    ty = targs(q[:q.rfind('>') + 1])[0]
    if name == 'epsilon':
        return num(Fraction(1, 2 ** 52)) if ty == 'double' else num(Fraction(1, 2 ** 23))
    return mk('fnum', 'limits<%s>::%s' % (ty, name))


def free_op(I, e, q, name, op):
    a = e['a']
    if op == '<<':
        if is_stream(a[0].get('t', '')):
            return stream_out(I, I.ref(a[0]), a[1], e)
        ct = cat_of(a[0].get('t', ''))
        return NotImplemented
    t0 = a[0].get('t', '')
    t1 = a[1].get('t', '') if len(a) > 1 else ''
    c0, c1 = cat_of(t0), cat_of(t1) if t1 else None
    if op in ('==', '!='):
        x, y = vals(I, e)
        if c0 in ('smart', 'function', 'iter', 'ptr') or c1 in ('smart', 'iter', 'ptr'):
            r = I.equal(x, y)
        elif c0 == 'cvpt':
            names = ('x', 'y', 'z') if 'Point3' in t0 else ('x', 'y') if 'Point' in t0 else ('width', 'height')
            r = X.and_(*[X.eq(X.fld(x, n), X.fld(y, n)) for n in names])
        else:
            r = seq_eq(I, x, y, t0)
        return r if op == '==' else X.not_(r)
    if c0 in ('string',) or c1 in ('string',):
        if op == '+':
            x, y = vals(I, e)
            return X.strcat(x, y)
    if op in ('<', '>', '<=', '>='):
        x, y = vals(I, e)
        return I.arith(op, x, y, 'bool')
    if c0 == 'iter' or c1 == 'iter':
        x, y = vals(I, e)
        if op == '-':
            return I.ptr_diff(x, y)
        if op == '+':
            return I.ptr_add(x, y) if c0 == 'iter' else I.ptr_add(y, x)
    if c0 == 'cvpt' or c1 == 'cvpt':
        return cv_arith(I, e, op, t0, t1)
    if is_eigen(t0) or is_eigen(t1):
        return eigen_binop(I, op, I.ev(a[0]), I.ev(a[1]), t0, t1)
    return NotImplemented


def seq_eq(I, x, y, ty):
    """value equality of containers, element by element with the element type's own operator=="""
    t = X.strip_type(ty)
    c = cat_of(t)
    if c in ('vector', 'array') and targs(t):
        et = targs(t)[0]
        n = X.size(x)
        same = X.eq(n, X.size(y)) if c == 'vector' else TRUE
        d = X.dims_of_type(t)
        k = X.fresh_k()
        el = elem_eq(I, X.sel(x, k), X.sel(y, k), et)
        if isinstance(d, int) and d <= 16:
            return X.and_(*[elem_eq(I, X.sel(x, num(i)), X.sel(y, num(i)), et) for i in range(d)])
        ne = exists(n, k, X.not_(el))
        return X.and_(same, X.not_(ne))
    if c == 'pair' and len(targs(t)) == 2:
        a = targs(t)
        return X.and_(elem_eq(I, X.fld(x, 'first'), X.fld(y, 'first'), a[0]),
                      elem_eq(I, X.fld(x, 'second'), X.fld(y, 'second'), a[1]))
    return X.eq(x, y)


def elem_eq(I, x, y, ty):
    t = X.strip_type(ty)
    c = cat_of(t)
    if c in ('vector', 'array', 'pair'):
        return seq_eq(I, x, y, t)
    if c == 'rec':
        for f in I.db.funcs.values():
            if method_name(f['n']) == 'operator==' and X.strip_type(f.get('c', '')) == t and len(f['p']) == 1:
                TY.setdefault(x, t)
                TY.setdefault(y, t)
                return I.val(I.run_function(f, I.temp(x, t), [I.temp(y, t)]))
        o = mk('eqop', *sorted((x, y), key=X.skey))
        TY[o] = 'bool'
        return o
    return X.eq(x, y)


def is_stream(ty):
    b = base_name(ty)
    return b.startswith('std::basic_ostream') or b.startswith('std::basic_stringstream') or \
        b.startswith('std::basic_ostringstream') or b.startswith('std::basic_ofstream') or \
        b.startswith('std::basic_iostream') or b == 'std::ostream' or b.startswith('std::__cxx11::basic_')


def stream_out(I, lv, node, e):
    if node['k'] == 'fn':
        n = node['n']
        if n.endswith('endl'):
            txt = X.strlit('\n')
        else:
            return lv
    else:
        v = I.ev(node)
        if v.op == 'manip' or v.op == 'fn':
            return lv
        t = cat_of(node.get('t', ''))
        if t == 'string' or v.op in ('strlit', 'scat'):
            txt = v
        else:
            txt = fmt_kind(v, node.get('t', ''))
    cur = I.read(lv)
    if cur.op in ('global', 'in', 'deref', 'lib') and lv.root.startswith('g:'):
        cur = X.strlit('')
    I.event('print', stream=ptr(lv), text=txt)
    I.write(lv, X.strcat(cur, txt))
    return lv


def begin(I, lv, ty):
    if cat_of(ty) in ('map', 'set') and cat_of(ty) == 'map':
        return mk('ptr', lv.root, lv.path + (('w', 'entries'), ('i', ZERO)))
    return ptr(lv.i(ZERO))


def end(I, lv, ty):
    if cat_of(ty) == 'map':
        return mk('ptr', lv.root, lv.path + (('w', 'entries'), ('i', msize(I.read(lv)))))
    d = X.dims_of_type(ty)
    if isinstance(d, int) and cat_of(ty) in ('array', 'carray'):
        return ptr(lv.i(num(d)))
    return ptr(lv.i(X.size(I.read(lv, X.strip_type(ty)))))


# ---- std algorithms as loops
def deref_at(I, it, k):
    if it.op == 'riter':
        return I.deref(I.ptr_add(it.args[0], X.sub(num(-1), k)))
    return I.deref(I.ptr_add(it, k))


def iter_len(I, a, b):
    if a.op == 'riter' and b.op == 'riter':
        return I.ptr_diff(a.args[0], b.args[0])
    return I.ptr_diff(b, a)


def emit(I, out, k, v):
    if out.op == 'inserter':
        lv = I.deref(out.args[0])
        I.event('grow', target=ptr(lv))
        I.write(lv, X.cat(I.read(lv), mk('list', v)))
    else:
        I.write(deref_at(I, out, k), v)


def algorithm(I, e, q, name):
    a = e['a']
    if not q.startswith('std::'):
        return NotImplemented
    if name == 'transform' and len(a) == 4:
        f, l, o, fn = vals(I, e)

        def body(k):
            v = I.val(I.call_closure(fn, [deref_at(I, f, k)]))
            emit(I, o, k, v)
        I.iterate(iter_len(I, f, l), body)
        return o if o.op == 'inserter' else I.ptr_add(o, iter_len(I, f, l))
    if name == 'transform' and len(a) == 5:
        f, l, g, o, fn = vals(I, e)

        def body(k):
            v = I.val(I.call_closure(fn, [deref_at(I, f, k), deref_at(I, g, k)]))
            emit(I, o, k, v)
        I.iterate(iter_len(I, f, l), body)
        return o
    if name == 'for_each' and len(a) == 3:
        f, l, fn = vals(I, e)
        I.iterate(iter_len(I, f, l), lambda k: I.call_closure(fn, [deref_at(I, f, k)]))
        return fn
    if name in ('copy',) and len(a) == 3:
        f, l, o = vals(I, e)
        I.iterate(iter_len(I, f, l), lambda k: emit(I, o, k, I.read(deref_at(I, f, k))))
        return o
    if name in ('copy_n',) and len(a) == 3:
        f, n, o = vals(I, e)
        I.iterate(n, lambda k: emit(I, o, k, I.read(deref_at(I, f, k))))
        return o
    if name in ('copy_if', 'remove_copy_if') and len(a) == 4:
        f, l, o, fn = vals(I, e)

        def body(k):
            lv = deref_at(I, f, k)
            c = I.truth(I.val(I.call_closure(fn, [lv])))
            if name == 'remove_copy_if':
                c = X.not_(c)
            I.branch(c, lambda: emit(I, o, k, I.read(lv)), lambda: None)
        I.iterate(iter_len(I, f, l), body)
        return o
    if name == 'fill' and len(a) == 3:
        f, l, v = vals(I, e)
        I.iterate(iter_len(I, f, l), lambda k: I.write(deref_at(I, f, k), v))
        return UNDEF
    if name == 'generate' and len(a) == 3:
        f, l, fn = vals(I, e)
        I.iterate(iter_len(I, f, l), lambda k: I.write(deref_at(I, f, k), I.val(I.call_closure(fn, []))))
        return UNDEF
    if name == 'iota' and len(a) == 3:
        f, l, v = vals(I, e)
        I.iterate(iter_len(I, f, l), lambda k: I.write(deref_at(I, f, k), X.add(v, k)))
        return UNDEF
    if name == 'accumulate':
        f, l, init = [I.ev(x) for x in a[:3]]
        fn = I.ev(a[3]) if len(a) > 3 else None
        acc = I.temp(init, a[2].get('t'))
        et = a[2].get('t', '')

        def body(k):
            cur = I.read(acc)
            el = deref_at(I, f, k)
            if fn is None:
                ev = I.read(el)
                if cat_of(et) == 'string':
                    nv = X.strcat(cur, ev)
                elif is_eigen(et):
                    nv = X.vec_add(cur, ev)
                else:
                    nv = X.add(cur, I.toint(ev))
            else:
                nv = I.val(I.call_closure(fn, [I.temp(cur), el]))
            I.write(acc, nv)
        I.iterate(iter_len(I, f, l), body)
        return I.read(acc)
    if name in ('all_of', 'any_of', 'none_of') and len(a) == 3:
        f, l, fn = vals(I, e)
        acc = I.temp(FALSE, 'bool')

        def body(k):
            c = I.truth(I.val(I.call_closure(fn, [deref_at(I, f, k)])))
            if name == 'all_of':
                c = X.not_(c)
            I.write(acc, X.or_(I.read(acc), c))
        I.iterate(iter_len(I, f, l), body)
        r = I.read(acc)
        return r if name == 'any_of' else X.not_(r)
    if name in ('count_if', 'count') and len(a) == 3:
        f, l, fn = vals(I, e)
        acc = I.temp(ZERO, 'long')

        def body(k):
            if name == 'count':
                c = X.eq(I.read(deref_at(I, f, k)), fn)
            else:
                c = I.truth(I.val(I.call_closure(fn, [deref_at(I, f, k)])))
            I.write(acc, X.add(I.read(acc), X.ite(c, ONE, ZERO)))
        I.iterate(iter_len(I, f, l), body)
        return I.read(acc)
    if name in ('find_if', 'find', 'find_if_not') and len(a) == 3:
        f, l, fn = vals(I, e)
        n = iter_len(I, f, l)
        k = X.fresh_k()
        save = I.st.copy()
        if name == 'find':
            c = X.eq(I.read(deref_at(I, f, k)), fn)
        else:
            c = I.truth(I.val(I.call_closure(fn, [deref_at(I, f, k)])))
            if name == 'find_if_not':
                c = X.not_(c)
        I.st = save
        return I.ptr_add(f, X.bind('first', k, n, c))
    if name in ('sort', 'stable_sort'):
        v = vals(I, e)
        f, l = v[0], v[1]
        cmp_ = closure_key(I, v[2], f) if len(v) > 2 else mk('less')
        if f.op == 'ptr':
            base = LV(f.args[0], f.args[1][:-1])
            cur = I.read(base)
            s = seq_range(I, f, l)
            I.event('sort', target=ptr(base), cmp=cmp_)
            if s is cur:
                I.write(base, mk('sorted', cur, cmp_))
            else:
                I.write(base, mk('out', 'sort', cur, f, l, cmp_))
        return UNDEF
    if name in ('max_element', 'min_element'):
        v = vals(I, e)
        cmp_ = closure_key(I, v[2], v[0]) if len(v) > 2 else mk('less')
        s = seq_range(I, v[0], v[1])
        return I.ptr_add(v[0], mk('argbest', name, s, cmp_))
    if name == 'remove_if' and len(a) == 3:
        f, l, fn = vals(I, e)
        n = iter_len(I, f, l)
        base = LV(f.args[0], f.args[1][:-1])
        cur = I.read(base)
        k = X.fresh_k()
        c = I.truth(I.val(I.call_closure(fn, [deref_at(I, f, k)])))
        kept = X.gen(n, k, X.sel(cur, k), X.not_(c))
        I.write(base, mk('partitioned', kept, cur))
        return I.ptr_add(f, X.size(kept))
    if name == 'unique' and len(a) == 2:
        f, l = vals(I, e)
        if f.op != 'ptr' or not f.args[1]:
            return NotImplemented
        base = LV(f.args[0], f.args[1][:-1])
        cur = I.read(base)
        if seq_range(I, f, l) is not cur:
            return NotImplemented
        kept = mk('dedup', cur)
        I.write(base, mk('partitioned', kept, cur))
        return I.ptr_add(f, X.size(kept))
    if name == 'reverse':
        f, l = vals(I, e)
        base = LV(f.args[0], f.args[1][:-1])
        I.write(base, mk('reversed', I.read(base)))
        return UNDEF
    if name == 'equal' and len(a) in (3, 4):
        v = vals(I, e)
        n = iter_len(I, v[0], v[1])
        k = X.fresh_k()
        ne = exists(n, k, X.not_(X.eq(I.read(deref_at(I, v[0], k)), I.read(deref_at(I, v[2], k)))))
        return X.not_(ne)
    if name == 'inner_product':
        return NotImplemented
    return NotImplemented


def closure_key(I, fn, it):
    """ordering relation of a comparison closure, as a term over two generic elements"""
    a, b = mk('elemA'), mk('elemB')
    ety = None
    info = I.closures.get(fn)
    if info:
        p = info['node']['bodies'][0]['p']
        if p:
            ety = X.strip_type(p[0]['t'])
    if ety:
        TY[a] = ety
        TY[b] = ety
    save = I.st.copy()
    try:
        r = I.val(I.call_closure(fn, [I.temp(a, ety), I.temp(b, ety)]))
    except (Unsupported, Dead):
        r = mk('ucall', 'cmp')
    I.st = save
    return r


# --------------------------------------------------------------------------- Eigen
def is_eigen(ty):
    return X.strip_type(ty).startswith('Eigen::')


def eigen_static(I, e, q, name):
    if not q.startswith('Eigen::'):
        return NotImplemented
    t = X.strip_type(e['t'])
    own = q[:q.rfind('::')]
    if name == 'Identity':
        if cat_of(own) in ('iso', 'quat', 'aa', 'translation'):
            return X.IDENT
        ot = result_matrix(own, t)
        d = X.dims_of_type(ot) if ot else None
        if isinstance(d, tuple):
            return mk('mat', d[0], d[1], tuple(ONE if i == j else ZERO for i in range(d[0]) for j in range(d[1])))
        v = vals(I, e)
        return mk('identm', *v)
    if name in ('Zero', 'Ones', 'Constant'):
        v = vals(I, e)
        c = ZERO if name == 'Zero' else ONE if name == 'Ones' else v[-1]
        sz = v[:-1] if name == 'Constant' else v
        ot = result_matrix(own, t)
        d = X.dims_of_type(ot) if ot else None
        if isinstance(d, int):
            return mk('list', *[c] * d)
        if isinstance(d, tuple):
            return mk('mat', d[0], d[1], tuple([c] * (d[0] * d[1])))
        if len(sz) == 1:
            return fill(sz[0], c)
        return mk('cmat', c, *sz)
    if name in ('UnitX', 'UnitY', 'UnitZ'):
        i = 'XYZ'.index(name[-1])
        return mk('list', *[ONE if j == i else ZERO for j in range(3)])
    if name == 'dummy_precision':
        return num(Fraction(1, 10 ** 12))
    return NotImplemented


def result_matrix(own, t):
    m = re.search(r'Eigen::(?:Matrix|Array)<[\w:]+(?:<[^<>]*>)?, -?\d+, -?\d+[^<>]*>', own)
    if m:
        return m.group(0)
    return None


def is_vec_type(ty):
    d = X.dims_of_type(X.strip_type(ty))
    return isinstance(d, int)


_shape = {}


def shape_of_type(ty):
    """(rows, columns) of an Eigen expression type, -1 for run-time dimensions; None if unknown"""
    ty = X.strip_type(ty)
    if ty in _shape:
        return _shape[ty]
    r = None
    b = base_name(ty)
    t = targs(ty) if b.startswith('Eigen::') and '<' in ty else []
    n = b[7:]
    if n in ('Matrix', 'Array') and len(t) >= 3:
        r = (int(t[1]), int(t[2]))
    elif n in ('MatrixBase', 'DenseBase', 'ArrayBase', 'EigenBase', 'PlainObjectBase', 'Map', 'Ref', 'ArrayWrapper', 'MatrixWrapper',
               'NoAlias', 'DenseCoeffsBase', 'MapBase'):
        r = shape_of_type(t[0])
    elif n == 'Transpose':
        r = shape_of_type(t[0])
        r = r and r[::-1]
    elif n == 'Product':
        x, y = shape_of_type(t[0]), shape_of_type(t[1])
        r = (x[0], y[1]) if x and y else None
    elif n == 'Block' or n == 'VectorBlock':
        if n == 'Block':
            r = (int(t[1]), int(t[2]))
        else:
            x = shape_of_type(t[0])
            r = x and ((int(t[1]), 1) if x[1] == 1 else (1, int(t[1])))
    elif n in ('CwiseBinaryOp', 'CwiseUnaryOp', 'CwiseNullaryOp', 'CwiseUnaryView'):
        r = shape_of_type(t[1]) or (shape_of_type(t[2]) if n == 'CwiseBinaryOp' else None)
    _shape[ty] = r
    return r


def eigen_binop(I, op, a, b, ta, tb):
    ca, cb = cat_of(ta), cat_of(tb)
    if op == '*':
        sa, sb = shape_of_type(ta), shape_of_type(tb)
        if sa and sb and sa[1] == 1 and sb[0] == 1 and sa[0] != 1 and sb[1] != 1 and 'Array' not in base_name(ta):
            # column times row
            n, m = sa[0], sb[1]
            if 0 < n * m <= 64:
                return mk('mat', n, m, tuple(X.mul(X.sel(a, num(i)), X.sel(b, num(j))) for i in range(n) for j in range(m)))
            return mk('outer', a, b)
        if sa and sb and sa[0] == 1 and sb[1] == 1 and sa[1] != 1:
            return X.dot(a, b)
        if sa and sb and sa[0] == 1 and sa[1] != 1 and sb[1] != 1 and not is_rot_like(tb) and 'Array' not in base_name(ta):
            return matmul(transpose(b), a)
        if is_scalar_type(ta):
            return X.vec_scale(I.toint(a), b)
        if is_scalar_type(tb):
            return X.vec_scale(I.toint(b), a)
        ra, rb = is_rot_like(ta), is_rot_like(tb)
        if ra and rb:
            return X.prod(a, b)
        if ra:
            # transform applied to a point (or to a rotation matrix)
            if is_rotation_term(b) or X.dims_of_type(X.strip_type(tb)) == (3, 3):
                return X.prod(a, X.Rot(b))
            if b.op == 'transpose' or X.matdims(TY.get(b) or tb):
                return mk('matmul', a, b)
            return X.xf(a, b)
        if rb:
            return X.prod(X.Rot(a), b)
        return matmul(a, b)
    if op == '+':
        return X.vec_add(a, b)
    if op == '-':
        return X.vec_sub(a, b)
    if op == '/':
        if is_scalar_type(tb):
            return X.vec_scale(X.inv(I.toint(b)), a)
        return mk('vdiv', a, b)
    return NotImplemented


def is_rotation_term(v):
    return v.op in ('Rot', 'Rvec', 'AA', 'Quat') or (v.op == 'fld' and v.args[1] == 'R') or \
        (v.op == 'inv' and is_rotation_term(v.args[0])) or (v.op == 'prod' and all(is_rotation_term(x) for x in v.args))


def matmul(a, b):
    if is_rotation_term(a):
        if is_rotation_term(b):
            return X.prod(X.Rot(a), X.Rot(b))
        if isinstance(X.dims(b), int) or b.op in ('vadd', 'vscale'):
            return X.xf(X.Rot(a), b)
    da, db = X.dims(a), X.dims(b)
    if isinstance(da, tuple) and da[0] * da[1] <= 36:
        if isinstance(db, int) and db == da[1]:
            return X.lst(*[X.add(*[X.mul(X.sel(a, mk('pair', num(i), num(j))), X.sel(b, num(j)))
                                   for j in range(da[1])]) for i in range(da[0])])
        if isinstance(db, tuple) and db[0] == da[1] and db[0] * db[1] <= 36:
            its = []
            for i in range(da[0]):
                for j in range(db[1]):
                    its.append(X.add(*[X.mul(X.sel(a, mk('pair', num(i), num(q))), X.sel(b, mk('pair', num(q), num(j))))
                                       for q in range(da[1])]))
            return mk('mat', da[0], db[1], tuple(its))
    la = a.args if a.op == 'matmul' else (a,)
    lb = b.args if b.op == 'matmul' else (b,)
    # scalar factors come out
    return mk('matmul', *(la + lb))


X.REBUILD['matmul'] = lambda *xs: _mm(xs)


def _mm(xs):
    r = xs[0]
    for x in xs[1:]:
        r = matmul(r, x)
    return r


def prec(I, a):
    """explicit precision of isApprox (the default one is left out)"""
    if len(a) < 2 or a[1].get('k') == 'call' or 'dummy_precision' in str(a[1]):
        return None
    return I.ev(a[1])


def approx(I, a, b, p=None):
    x, y = sorted((a, b), key=X.skey)
    if x is y:
        return TRUE
    t = mk('approx', x, y) if p is None else mk('approx', x, y, p)
    TY[t] = 'bool'
    return t


COMP = {'x': 0, 'y': 1, 'z': 2, 'w': 3}


def track_eigen(I, this, ot, v):
    d = X.dims_of_type(ot)
    sh = shape_of_type(ot)
    where = ptr(this) if isinstance(this, LV) else this
    if len(v) == 1 and isinstance(d, int):
        I.access(where, v, (num(d),), 'coefficient')
    elif len(v) == 1 and sh and min(sh) >= 0:
        I.access(where, v, (num(sh[0] * sh[1]),), 'coefficient')
    elif len(v) == 1:
        I.access(where, v, (esize(I.read(this, ot), ot),), 'coefficient')
    elif len(v) == 2 and sh:
        x = I.read(this, ot)
        n = num(sh[0]) if sh[0] >= 0 else esize(x, ot) if sh[1] == 1 else mrows(x)
        m = num(sh[1]) if sh[1] >= 0 else esize(x, ot) if sh[0] == 1 else mcols(x)
        I.access(where, v, (n, m), 'coefficient')


def eigen_method(I, e, this, name, ot, op):
    a = e['a']
    c = cat_of(ot)
    ta = e.get('ta') or []
    if op == '=':
        v = I.ev(a[0])
        at = a[0].get('t', '')
        if c == 'iso' and cat_of(at) in ('eig',):
            v = from_matrix4(v)
        if c == 'aa' or c == 'quat':
            v = X.Rot(v) if not is_rotation_term(v) else v
        d = X.dims_of_type(ot)
        v = densify(v, d)
        I.write(this, v)
        return this
    if op in ('+=', '-='):
        v = I.ev(a[0])
        cur = I.read(this, ot)
        I.write(this, X.vec_add(cur, v) if op == '+=' else X.vec_sub(cur, v))
        return this
    if op in ('*=', '/='):
        v = I.ev(a[0])
        cur = I.read(this, ot)
        if is_scalar_type(a[0].get('t', '')):
            s = I.toint(v)
            I.write(this, X.vec_scale(s if op == '*=' else X.inv(s), cur))
        else:
            I.write(this, eigen_binop(I, '*', cur, v, ot, a[0].get('t', '')))
        return this
    if op in ('+', '-', '*', '/'):
        cur = I.read(this, ot)
        if not a and op == '-':
            return X.vec_neg(cur)
        return eigen_binop(I, op, cur, I.ev(a[0]), ot, a[0].get('t', ''))
    if op in ('==', '!='):
        r = X.eq(I.read(this, ot), I.ev(a[0]))
        return r if op == '==' else X.not_(r)
    if op in ('()', '[]') or name in ('coeff', 'coeffRef'):
        v = [I.toint(x) for x in vals(I, e)]
        if I.track:
            track_eigen(I, this, ot, v)
        if c == 'iso':
            M = I.read(this, ot)
            return iso_coeff(M, v)
        if len(v) == 2:
            i, j = v
            d = X.dims_of_type(ot)
            if isinstance(d, int):
                return this.i(i if j is ZERO else j if i is ZERO else mk('pair', i, j))
            cur = I.read(this, ot)
            if is_rotation_term(cur):
                return rot_coeff(cur, i, j)
            return this.i(mk('pair', i, j))
        return this.i(v[0])
    if name in COMP and not a:
        if c == 'quat':
            if isinstance(this, LV) and e.get('lv') and not e.get('cm'):
                return this.w('coeffs').i(num(COMP[name]))
            R = I.read(this, ot)
            return X.sel(quatof(R), num(COMP[name]))
        if c == 'translation':
            return X.sel(X.fld(I.read(this, ot), 't'), num(COMP[name]))
        return this.i(num(COMP[name]))
    if op == '<<':
        I.comma = dict(lv=this, ot=ot, n=0)
        comma_put(I, I.ev(a[0]), a[0].get('t', ''))
        return mk('comma')
    if op == ',' and 'CommaInitializer' in ot:
        comma_put(I, I.ev(a[0]), a[0].get('t', ''))
        return mk('comma')
    if c in ('iso', 'translation'):
        r = iso_method(I, e, this, name, ot)
        if r is not NotImplemented:
            return r
    if c in ('aa', 'quat'):
        r = rot_method(I, e, this, name, ot, c)
        if r is not NotImplemented:
            return r
    # dense
    if name in ('head', 'tail', 'segment'):
        if ta and ta[0].lstrip('-').isdigit():
            n = num(int(ta[0]))
            args = vals(I, e)
        else:
            args = vals(I, e)
            n = args[-1]
            args = args[:-1]
        if I.track:
            z = esize(I.read(this, ot), ot)
            I.access(ptr(this) if isinstance(this, LV) else this, (args[0] if name == 'segment' else ZERO,),
                     (X.add(X.sub(z, n), ONE),), name + '()')
        if name == 'head':
            return this.w('seg', ZERO, n)
        if name == 'segment':
            return this.w('seg', args[0], n)
        return this.w('seg', X.sub(esize(I.read(this, ot), ot), n), n)
    if name in ('topRows', 'bottomRows', 'middleRows', 'leftCols', 'rightCols', 'middleCols', 'topLeftCorner', 'topRightCorner',
                'bottomLeftCorner', 'bottomRightCorner', 'block'):
        nums = [num(int(x)) for x in ta if x.lstrip('-').isdigit()]
        args = vals(I, e)
        sh = shape_of_type(ot)
        if I.track and sh and name == 'block' and (len(args) == 4 or len(nums) == 2 and len(args) == 2):
            x = I.read(this, ot)
            q = args[2:] or nums
            z = [num(sh[0]) if sh[0] >= 0 else mrows(x), num(sh[1]) if sh[1] >= 0 else mcols(x)]
            I.access(ptr(this) if isinstance(this, LV) else this, tuple(args[:2]),
                     tuple(X.add(X.sub(d, k), ONE) for d, k in zip(z, q)), 'block()')
        if name == 'block':
            if len(nums) == 2 and len(args) == 2:
                return this.w('blk', args[0], args[1], nums[0], nums[1])
            if len(args) == 4:
                return this.w('blk', *args)
        if name == 'topLeftCorner':
            rc = nums if nums else args
            return this.w('blk', ZERO, ZERO, rc[0], rc[1])
        if isinstance(X.dims_of_type(ot), int):
            if name == 'topRows':
                return this.w('seg', ZERO, nums[0] if nums else args[0])
            return NotImplemented
        m = re.match(r'Eigen::(?:Matrix|Array|PlainObjectBase|DenseBase|MatrixBase)<(?:Eigen::Matrix<)?[\w:<>, ]*?, (-?\d+), (-?\d+)[,>]', X.strip_type(ot))
        st = [int(m.group(i)) if m else -1 for i in (1, 2)]
        v = I.read(this, ot)
        nr = num(st[0]) if st[0] >= 0 else mrows(v)
        nc = num(st[1]) if st[1] >= 0 else mcols(v)
        if name.endswith('Corner'):
            r, k = nums if len(nums) == 2 else args[:2]
            return this.w('blk', ZERO if name.startswith('top') else X.sub(nr, r), ZERO if 'Left' in name else X.sub(nc, k), r, k)
        k = nums[0] if nums else args[-1]
        o = {'t': ZERO, 'l': ZERO, 'm': args[0] if args else ZERO, 'b': X.sub(nr, k), 'r': X.sub(nc, k)}[name[0]]
        if name.endswith('Rows'):
            return this.w('blk', o, ZERO, k, nc)
        return this.w('blk', ZERO, o, nr, k)
    if name in ('row', 'col'):
        i = I.toint(I.ev(a[0]))
        sh = shape_of_type(ot)
        if I.track and sh and isinstance(this, LV):
            x = I.read(this, ot)
            k = name == 'col'
            I.access(ptr(this), (i,), (num(sh[k]) if sh[k] >= 0 else (mcols if k else mrows)(x),), name + '()')
        return this.w(name, i)
    if name == 'data':
        d = X.dims_of_type(ot)
        if isinstance(d, tuple) and base_name(X.strip_type(ot))[7:] in ('Matrix', 'Array', 'PlainObjectBase', 'MatrixBase'):
            o = X.strip_type(ot)
            if 'Base<' in o.split('Matrix<')[0].split('Array<')[0]:
                o = targs(o)[0]
            o = targs(o)
            return ptr(this.w('lin', d[0], d[1], int(len(o) > 3 and o[3].strip() == '1')).i(ZERO))
        return ptr(this.i(ZERO))
    if name == 'rows' or name == 'cols' or name == 'size':
        d = X.dims_of_type(ot)
        m = re.match(r'Eigen::(?:Matrix|Array)<[\w:<>, ]*?, (-?\d+), (-?\d+)[,>]', X.strip_type(ot))
        v = I.read(this, ot)
        if name == 'rows' and m and int(m.group(1)) >= 0:
            return num(int(m.group(1)))
        if name == 'cols' and m and int(m.group(2)) >= 0:
            return num(int(m.group(2)))
        if name == 'rows':
            return mrows(v)
        if name == 'cols':
            return mcols(v)
        return esize(v, ot)
    if name in ('setZero', 'setOnes', 'setIdentity'):
        vs = vals(I, e)
        if not vs and X.dims_of_type(ot) is None and c in ('eig', 'eigx'):
            m = re.search(r'(?:Block<.*|Matrix<[^<>]*?|Array<[^<>]*?), (-?\d+), (-?\d+)(?:, (?:true|false)>|, \d+, -?\d+, -?\d+>)+$', X.strip_type(ot))
            v = I.read(this, ot)
            vs = [esize(v, ot)] if m and '1' in m.groups() else [mrows(v), mcols(v)]
        I.write(this, eigen_const(name, ot, vs, I))
        return this
    if name in ('setConstant', 'fill'):
        vs = vals(I, e)
        d = X.dims_of_type(ot)
        I.write(this, mk('list', *[vs[-1]] * d) if isinstance(d, int) else mk('cmat', vs[-1], mrows(I.read(this, ot)), mcols(I.read(this, ot))))
        return this
    if name == 'resize' or name == 'conservativeResize':
        vs = vals(I, e)
        if name == 'resize':
            I.write(this, mk('dynvec', vs[0]) if len(vs) == 1 else mk('dynmat', *vs))
        else:
            I.write(this, mk('cresize', I.read(this, ot), *vs))
        return UNDEF
    if name in ('cast', 'eval', 'array', 'matrix', 'derived', 'noalias', 'asDiagonal', 'toDenseMatrix', 'real') :
        if name == 'asDiagonal':
            return mk('diag', I.read(this, ot))
        return this
    v = I.read(this, ot)
    if v.op == 'wise':
        d, m, at = v.args
        if name == 'normalize':
            I.write(LV(at.args[0], at.args[1]), mk('wmap', d, 'normalized', m))
            return UNDEF
        if name in ('normalized', 'reverse'):
            return mk('wmap', d, name, m)
        if name in ('norm', 'stableNorm', 'squaredNorm', 'sum', 'mean', 'minCoeff', 'maxCoeff', 'prod'):
            return mk('wred', d, name, m)
        if name in ('homogeneous', 'hnormalized'):
            return mk('wmap', d, name, m)
        raise Unsupported('%s().%s' % (d, name))
    if name == 'norm':
        return X.norm(v)
    if name == 'squaredNorm':
        return X.dot(v, v)
    if name in ('normalized',):
        return normalized(v)
    if name == 'normalize':
        I.write(this, normalized(v))
        return UNDEF
    if name == 'dot':
        return X.dot(v, I.ev(a[0]))
    if name == 'cross':
        return X.cross(v, I.ev(a[0]))
    if name in ('transpose', 'adjoint'):
        sh = shape_of_type(ot)
        if sh and 1 in sh and c not in ('iso', 'translation'):
            return v           # vectors have one index, rows and columns are told apart by their types
        return transpose(v)
    if name == 'inverse' and c != 'iso':
        if is_rotation_term(v):
            return X.inverse(X.Rot(v))
        return mk('minv', v)
    if name == 'isApprox':
        return approx(I, v, I.ev(a[0]), prec(I, a))
    if name == 'sum' or name == 'mean' or name in ('minCoeff', 'maxCoeff', 'prod', 'trace', 'determinant', 'lpNorm'):
        n = X.dims(v)
        if isinstance(n, int) and name in ('sum', 'mean'):
            s = X.add(*[X.sel(v, num(i)) for i in range(n)])
            return s if name == 'sum' else X.div(s, num(n))
        return mk('reduce', name, v)
    if name in ('cwiseProduct', 'cwiseQuotient'):
        o = I.ev(a[0])
        f = X.mul if name == 'cwiseProduct' else X.div
        r = X.vec_zip(f, v, o)
        return r if r is not None else mk('vmul' if name == 'cwiseProduct' else 'vdiv', v, o)
    if name in ('cwiseAbs', 'abs', 'cwiseSqrt', 'sqrt', 'cwiseInverse', 'square', 'abs2', 'cwiseAbs2'):
        f = {'cwiseAbs': X.absv, 'abs': X.absv, 'cwiseSqrt': X.sqrt, 'sqrt': X.sqrt, 'cwiseInverse': X.inv,
             'square': lambda x: X.mul(x, x), 'abs2': lambda x: X.mul(x, x), 'cwiseAbs2': lambda x: X.mul(x, x)}[name]
        n = X.dims(v)
        if isinstance(n, int):
            return X.lst(*[f(X.sel(v, num(i))) for i in range(n)])
        return mk('vmap', name, v)
    if name in ('rowwise', 'colwise'):
        return mk('wise', name, v, ptr(this))
    if name == 'hasNaN' or name == 'allFinite':
        t = mk('fn1', name, v)
        TY[t] = 'bool'
        return t
    if name == 'lpNorm':
        return mk('reduce', 'lpNorm' + (ta[0] if ta else ''), v)
    args = vals(I, e)
    t = mk('eig', name + ('<' + ','.join(ta) + '>' if ta else ''), v, *args)
    TY[t] = X.strip_type(e['t'])
    return t


def normalized(v):
    t = mk('normalized', v)
    d = X.dims(v)
    if v.op == 'list':
        nn = X.numval(X.dot(v, v))
        if nn == 1:
            return v
    if isinstance(d, int):
        TY[t] = 'Eigen::Matrix<double, %d, 1>' % d
    return t


_vs0 = X.vec_scale


def vec_scale(s, v):
    if v.op == 'normalized' and s is X.norm(v.args[0]):
        return v.args[0]
    return _vs0(s, v)


X.vec_scale = vec_scale


def _renorm(v):
    return normalized(v)


X.REBUILD['normalized'] = _renorm


SHAPE = {}      # matrix handed to a library function by its address -> its size, which the call cannot change


def mrows(v):
    if v in SHAPE:
        return SHAPE[v][0]
    if v.op == 'dynmat':
        return v.args[0]
    if v.op == 'cmat':
        return v.args[1]
    if v.op == 'identm' and v.args:
        return v.args[0]
    if v.op in ('arr', 'rowgen'):
        return mrows(v.args[0]) if v.op == 'arr' else v.args[0]
    if v.op == 'scatter':
        return mrows(v.args[1])
    if v.op == 'mat':
        return num(v.args[0])
    if v.op in ('list', 'gen', 'fill', 'cat', 'dynvec'):
        return esize(v, '')
    if v.op == 'ite':
        return X.ite(v.args[0], mrows(v.args[1]), mrows(v.args[2]))
    t = mk('rows', v)
    return t


def mcols(v):
    if v in SHAPE:
        return SHAPE[v][1]
    if v.op == 'dynmat':
        return v.args[1]
    if v.op == 'cmat':
        return v.args[2]
    if v.op == 'identm' and v.args:
        return v.args[1]
    if v.op == 'arr':
        return mcols(v.args[0])
    if v.op == 'scatter':
        return mcols(v.args[1])
    if v.op == 'mat':
        return num(v.args[1])
    if v.op == 'ite':
        return X.ite(v.args[0], mcols(v.args[1]), mcols(v.args[2]))
    return mk('cols', v)


X.REBUILD['rows'] = mrows
X.REBUILD['cols'] = mcols


def esize(v, ot):
    if v.op == 'dynvec':
        return v.args[0]
    if v.op == 'arr':
        return esize(v.args[0], ot)
    if v.op == 'cresize':
        return v.args[1]
    if v.op == 'scatter':
        return esize(v.args[1], ot)
    return X.size(v)


def eigen_const(name, ot, vs, I):
    c = ONE if name == 'setOnes' else ZERO
    if cat_of(ot) == 'iso' or cat_of(ot) == 'quat':
        return X.IDENT
    d = X.dims_of_type(ot)
    if isinstance(d, int):
        return mk('list', *[c] * d)
    if isinstance(d, tuple):
        if name == 'setIdentity':
            return mk('mat', d[0], d[1], tuple(ONE if i == j else ZERO for i in range(d[0]) for j in range(d[1])))
        return mk('mat', d[0], d[1], tuple([c] * (d[0] * d[1])))
    return mk('cmat', c, *vs) if name != 'setIdentity' else mk('identm', *vs)


def comma_put(I, v, ty):
    c = I.comma
    lv, ot = c['lv'], c['ot']
    d = X.dims_of_type(ot)
    m = re.search(r'Block<.*, (-?\d+), (-?\d+), (?:true|false)>$', X.strip_type(ot))
    if d is None and m:
        r0, c0 = int(m.group(1)), int(m.group(2))
        if r0 == 1 or c0 == 1:
            d = -1
    if d is None:
        d = X.dims(I.read(lv))
    n = X.dims(v) if not is_scalar_type(ty) else 1
    vec = isinstance(d, int)
    sc = is_scalar_type(ty) or v.op in ('num',)
    if not vec and not (sc and isinstance(d, tuple)):
        # blocks are placed side by side until the row is full, then on the next block row
        if sc:
            r, k = ONE, ONE
        else:
            sh = shape_of_type(ty)
            r = num(sh[0]) if sh and sh[0] >= 0 else mrows(v) if not sh or sh[1] != 1 else esize(v, ty)
            k = num(sh[1]) if sh and sh[1] >= 0 else mcols(v) if not sh or sh[0] != 1 else esize(v, ty)
        if 'cols' not in c:
            so = shape_of_type(ot)
            c['cols'] = num(d[1]) if isinstance(d, tuple) else num(so[1]) if so and so[1] >= 0 else mcols(I.read(lv))
        cols = c['cols']
        if 'row' not in c:
            c.update(row=ZERO, col=num(c['n']), br=ONE) if c['n'] and not isinstance(d, tuple) else c.update(row=ZERO, col=ZERO, br=r)
            if c['n'] and isinstance(d, tuple):
                i, j = divmod(c['n'], d[1])
                c.update(row=num(i), col=num(j), br=ONE)
        if c['col'] is cols:
            c.update(row=X.add(c['row'], c['br']), col=ZERO, br=r)
        if sc:
            I.write(lv.i(mk('pair', c['row'], c['col'])), I.toint(v))
        elif isinstance(d, tuple) and isinstance(X.intval(r), int) and isinstance(X.intval(k), int) and isinstance(X.intval(c['row']), int) and isinstance(X.intval(c['col']), int):
            for i in range(X.intval(r)):
                for j in range(X.intval(k)):
                    x = X.sel(v, num(i)) if X.intval(k) == 1 else X.sel(v, num(j)) if X.intval(r) == 1 else X.sel(v, mk('pair', num(i), num(j)))
                    I.write(lv.i(mk('pair', num(X.intval(c['row']) + i), num(X.intval(c['col']) + j))), x)
        else:
            I.write(lv.w('blk', c['row'], c['col'], r, k), v)
        c['col'] = X.add(c['col'], k)
        if isinstance(d, tuple) and isinstance(X.intval(c['row']), int) and isinstance(X.intval(c['col']), int):
            c['n'] = X.intval(c['row']) * d[1] + X.intval(c['col'])
        return
    if sc:
        comps = [I.toint(v)]
    elif isinstance(n, int):
        comps = [X.sel(v, num(i)) for i in range(n)]
    else:
        I.write(lv, mk('out', 'comma', v))
        return
    for x in comps:
        if isinstance(d, tuple):
            i, j = divmod(c['n'], d[1])
            I.write(lv.i(mk('pair', num(i), num(j))), x)
        else:
            I.write(lv.i(num(c['n'])), x)
        c['n'] += 1


def iso_coeff(M, v):
    if len(v) == 2:
        i, j = X.intval(v[0]), X.intval(v[1])
        if j == 3 and i is not None and i < 3:
            return X.sel(X.fld(M, 't'), num(i))
        if i is not None and j is not None and i < 3 and j < 3:
            return rot_coeff(X.fld(M, 'R'), v[0], v[1])
    return mk('isocoeff', M, *v)


def rot_coeff(R, i, j):
    return mk('sel', X.Rot(R), mk('pair', i, j))


def iso_method(I, e, this, name, ot):
    a = e['a']
    if name == 'translation':
        return this.f('t')
    if name in ('linear', 'rotation'):
        return this.f('R')
    v = None
    if name == 'inverse':
        return X.inverse(I.read(this, ot))
    if name == 'matrix':
        return mk('matof', I.read(this, ot))
    if name == 'affine':
        return mk('matof', I.read(this, ot))
    if name == 'isApprox':
        return approx(I, I.read(this, ot), I.ev(a[0]), prec(I, a))
    if name in ('translate', 'pretranslate', 'rotate', 'prerotate'):
        x = I.ev(a[0])
        x = X.Trans(x) if 'trans' in name else X.Rot(x)
        cur = I.read(this, ot)
        I.write(this, X.prod(x, cur) if name.startswith('pre') else X.prod(cur, x))
        return this
    if name == 'setIdentity':
        I.write(this, X.IDENT)
        return UNDEF
    if name == 'cast':
        return this
    if name == 'vector' or name == 'translation':
        return X.fld(I.read(this, ot), 't')
    if name == 'data':
        return mk('ucall', 'iso.data', I.read(this, ot))
    return NotImplemented


def angle(R):
    if R.op == 'Rvec':
        return mk('angle', R)
    return mk('angle', R)


def rot_method(I, e, this, name, ot, c):
    a = e['a']
    R = I.read(this, ot)
    if name == 'angle':
        return mk('angle', R)
    if name == 'axis':
        t = mk('axis', R)
        return t
    if name in ('toRotationMatrix', 'matrix', 'cast', 'normalized'):
        return R
    if name in ('inverse', 'conjugate'):
        return X.inverse(R)
    if name == 'coeffs':
        return this.w('coeffs')
    if name == 'vec':
        return X.lst(*[X.sel(quatof(R), num(i)) for i in range(3)])
    if name == 'normalize':
        return UNDEF
    if name == 'angularDistance':
        b = I.ev(a[0])
        return mk('angdist', *sorted((R, b), key=X.skey))
    if name == 'isApprox':
        return approx(I, R, I.ev(a[0]), prec(I, a))
    if name == 'setIdentity':
        I.write(this, X.IDENT)
        return UNDEF
    if name == 'dot':
        return X.dot(quatof(R), quatof(I.ev(a[0])))
    if name == 'slerp':
        return mk('slerp', R, *vals(I, e))
    return NotImplemented


# --------------------------------------------------------------------------- methods
STATS = {'mean': 'mean', 'immediate_mean': 'mean', 'variance': 'variance', 'lazy_variance': 'variance', 'sum': 'sum',
         'min': 'minCoeff', 'max': 'maxCoeff', 'count': 'count'}


def statistic(tag, v):
    s = STATS.get(tag.split('::')[-1])
    if s is None:
        return NotImplemented
    t = X.size(v) if s == 'count' else mk('reduce', s, v)
    TY[t] = 'double'
    return t


def method(I, e, this, name, ot, op):
    if ot.startswith('Eigen::'):
        return eigen_method(I, e, this, name, ot, op)
    if ot.startswith('boost::accumulators::accumulator_set<') and op == '()':
        v = I.toint(I.ev(e['a'][0]))
        I.write(this, X.cat(I.read(this, ot), mk('list', v)))
        return UNDEF
    if ot.startswith('boost::accumulators::extractor<') and op == '()':
        return statistic(targs(ot)[0], I.ev(e['a'][0]))
    c = cat_of(ot)
    a = e['a']
    f = globals().get('m_' + c)
    if f is not None:
        r = f(I, e, this, name, ot, op)
        if r is not NotImplemented:
            return r
    if is_stream(ot):
        if op == '<<':
            return stream_out(I, this, a[0], e)
        if name == 'str':
            if a:
                I.write(this, I.ev(a[0]))
                return UNDEF
            return I.read(this)
        if name in ('precision', 'width', 'flush', 'setf', 'fill'):
            for x in a:
                I.ev(x)
            return UNDEF
    if ot.startswith('ceres::') or 'ceres::' in e.get('n', ''):
        r = ceres_method(I, e, this, name, ot)
        if r is not NotImplemented:
            return r
    if ot.startswith('cv::'):
        r = cv_method(I, e, this, name, ot, op)
        if r is not NotImplemented:
            return r
    if op == '=' and len(a) == 1:
        v = I.ev(a[0])
        I.write(this, convert(I, v, a[0], ot))
        return this
    if op == '->' or op == '*':
        return NotImplemented
    return NotImplemented


def ynode_of(I, a):
    """node holding the encoding of the value of expression a"""
    if cat_of(a.get('t', '')) == 'ynode':
        return I.ev(a)
    return mk('yval', X.strip_type(a.get('t', '')), I.ev(a))


def yaml_as(I, v, to):
    """value of type `to` decoded from a node; decoding inverts encoding of the same type (an obligation of its own)"""
    to = X.strip_type(to)
    if v.op == 'ite':
        return X.ite(v.args[0], yaml_as(I, v.args[1], to), yaml_as(I, v.args[2], to))
    if v.op == 'yval':
        fr = v.args[0]
        if fr == to:
            return v.args[1]
        cf, ct = cat_of(fr), cat_of(to)
        if fr == 'double' and to == 'float':
            return mk('narrowf', v.args[1])
        if cf in ('int', 'float') and ct == 'float' or cf == 'int' and ct == 'int':
            return v.args[1]
        if cf in ('int', 'float') and ct == 'int':
            return mk('ucall', 'yaml.int', v.args[1])
        if ct == 'string' and cf in ('ptr', 'carray', 'string'):
            return v.args[1]
        if 'Eigen::' in fr and 'Eigen::' in to:
            return v.args[1]
        return mk('ucall', 'yaml.as<%s>' % to, v)
    t = mk('lfn', 'as<%s>' % to, v) if v.op not in ('fld', 'sel', 'in') else mk('yas', to, v)
    X.TY[t] = to
    return t


def m_ynode(I, e, this, name, ot, op):
    a = e['a']
    if op == '[]':
        if cat_of(a[0].get('t', '')) == 'int':
            return this.i(I.ev(a[0]))
        k = I.ev(a[0])
        if k.op != 'strlit':
            return NotImplemented
        return this.f('@' + str(k.args[0]))
    if op == '=':
        I.write(this, ynode_of(I, a[0]))
        return this
    if name == 'as':
        v = I.read(this)
        if a:
            d = ydefined(v)
            return X.ite(d, yaml_as(I, v, e['t']), I.ev(a[0]))
        I.event('yread', key=v, to=X.strip_type(e['t']))
        return yaml_as(I, v, e['t'])
    if name == 'size':
        v = I.read(this)
        if v.op == 'struct':
            return num(len(v.args[1]))
        t = X.size(v)
        return t
    if name in ('IsDefined', 'operator bool', 'operator!') or op == '!':
        d = ydefined(I.read(this))
        return X.not_(d) if op == '!' or name == 'operator!' else d
    return NotImplemented


def ydefined(v):
    if v.op in ('yval', 'struct'):
        return X.TRUE
    if v.op == 'fld' and v.args[0].op in ('struct', 'undef') or v.op == 'undef':
        return X.FALSE
    t = mk('lfn', 'defined', v)
    X.TY[t] = 'bool'
    return t


def m_rec(I, e, this, name, ot, op):
    if op == '=' and ot in I.db.records:
        v = I.ev(e['a'][0])
        I.write(this, v)
        return this
    if op == '()' and base_name(ot) in ('std::uniform_real_distribution', 'std::uniform_int_distribution',
                                        'std::normal_distribution'):
        g = I.ref(e['a'][0])
        d = I.read(this)
        I.event('random', dist=d, gen=I.read(g), genptr=ptr(g))
        r = mk('random', d, I.read(g))
        TY[r] = targs(ot)[0] if targs(ot) else 'double'
        I.write(g, mk('rngnext', I.read(g)))
        return r
    if name == 'operator()' and base_name(ot) in ('std::mersenne_twister_engine', 'std::random_device'):
        v = I.read(this)
        I.event('random', dist=mk('raw'), gen=v, genptr=ptr(this))
        I.write(this, mk('rngnext', v))
        return mk('random', mk('raw'), v)
    return NotImplemented


def m_vector(I, e, this, name, ot, op):
    a = e['a']
    if op == '=':
        v = I.ev(a[0])
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        I.write(this, v)
        return this
    if op == '[]':
        i = I.toint(I.ev(a[0]))
        if I.track:
            I.access(ptr(this), (i,), (X.size(I.read(this, ot)),), 'operator[]')
        return this.i(i)
    if name == 'at':
        i = I.toint(I.ev(a[0]))
        n = X.size(I.read(this, ot))
        I.may_throw(oob(i, n), 'std::out_of_range', 'vector::at')
        return this.i(i)
    if name in ('front', 'back') and I.track:
        I.access(ptr(this), (ZERO,), (X.size(I.read(this, ot)),), name + '()')
    if name == 'front':
        return this.i(ZERO)
    if name == 'back':
        return this.i(X.sub(X.size(I.read(this, ot)), ONE)) if not _last_known(I.read(this, ot)) else this.i(
            X.sub(X.size(I.read(this, ot)), ONE))
    if name == 'size':
        return X.size(I.read(this, ot))
    if name == 'empty':
        return X.eq(X.size(I.read(this, ot)), ZERO)
    if name in ('begin', 'cbegin'):
        return ptr(this.i(ZERO))
    if name in ('end', 'cend'):
        return ptr(this.i(X.size(I.read(this, ot))))
    if name in ('rbegin', 'crbegin'):
        return mk('riter', ptr(this.i(X.size(I.read(this, ot)))))
    if name in ('rend', 'crend'):
        return mk('riter', ptr(this.i(ZERO)))
    if name == 'data':
        return ptr(this.i(ZERO))
    if name in ('push_back', 'push_front'):
        v = I.ev(a[0])
        et = targs(ot)[0]
        v = convert(I, v, a[0], et)
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        cur = I.read(this, ot)
        I.write(this, X.cat(cur, mk('list', v)) if name == 'push_back' else X.cat(mk('list', v), cur))
        return UNDEF
    if name == 'emplace_back':
        refs = [I.ref(x) for x in a]
        v = construct_refs(I, targs(ot)[0], refs, a)
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        cur = I.read(this, ot)
        I.write(this, X.cat(cur, mk('list', v)))
        return this.i(X.size(cur))
    if name == 'reserve':
        n = I.ev(a[0])
        I.event('reserve', target=ptr(this), n=n)
        return UNDEF
    if name in ('shrink_to_fit',):
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        return UNDEF
    if name == 'clear':
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        I.write(this, mk('list'))
        return UNDEF
    if name in ('resize', 'assign') and len(a) >= 1:
        vs = vals(I, e)
        et = targs(ot)[0]
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        cur = I.read(this, ot)
        if name == 'assign':
            if (cat_of(a[0].get('t', '')) in ('iter', 'ptr') or vs[0].op == 'riter') and len(vs) == 2:
                I.write(this, seq_range(I, vs[0], vs[1]))
            elif len(vs) == 2:
                I.write(this, fill(vs[0], vs[1]))
            else:
                I.write(this, vs[0])
            return UNDEF
        d = vs[1] if len(vs) > 1 else I.zero(et)
        if cur.op == 'list' and not cur.args:
            I.write(this, fill(vs[0], d))
        elif X.size(cur) is vs[0]:
            pass
        else:
            I.write(this, mk('resized', cur, vs[0], d))
        return UNDEF
    if name == 'pop_back':
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        cur = I.read(this, ot)
        if cur.op == 'list' and cur.args:
            I.write(this, mk('list', *cur.args[:-1]))
        else:
            n = X.size(cur)
            I.write(this, mk('erasedat', cur, X.sub(n, ONE), n))
        return UNDEF
    if name == 'insert':
        vs = vals(I, e)
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        cur = I.read(this, ot)
        at_end = vs[0].op == 'ptr' and vs[0].args[0] == this.root and vs[0].args[1] == this.path + (('i', X.size(cur)),)
        if len(vs) == 3 and at_end and cat_of(a[1].get('t', '')) in ('iter', 'ptr'):
            I.write(this, X.cat(cur, seq_range(I, vs[1], vs[2])))
        elif len(vs) == 2 and at_end:
            v = vs[1]
            if cat_of(a[1].get('t', '')) == 'vector' and X.strip_type(a[1]['t']).startswith('std::initializer_list'):
                I.write(this, X.cat(cur, v))
            else:
                I.write(this, X.cat(cur, mk('list', v)))
        else:
            I.write(this, mk('out', 'insert', cur, *vs))
        return vs[0]
    if name == 'erase':
        vs = vals(I, e)
        I.event('grow', target=ptr(this), ty=ot, how=name or op)
        cur = I.read(this, ot)
        if len(vs) == 2 and cur.op == 'partitioned' and vs[0] is ptr(this.i(X.size(cur.args[0]))) :
            I.write(this, cur.args[0])
        elif vs[0].op == 'ptr' and vs[0].args[0] == this.root and vs[0].args[1] and vs[0].args[1][-1][0] == 'i' and \
                tuple(vs[0].args[1][:-1]) == tuple(this.path) and (len(vs) == 1 or (
                    vs[1].op == 'ptr' and vs[1].args[0] == this.root and vs[1].args[1][-1][0] == 'i')):
            i = vs[0].args[1][-1][1]
            I.write(this, mk('erasedat', cur, i, vs[1].args[1][-1][1] if len(vs) == 2 else X.add(i, ONE)))
        else:
            I.write(this, mk('erased', cur, *vs))
        return vs[0]
    if name == 'swap':
        o = I.ref(a[0])
        x, y = I.read(this), I.read(o)
        I.write(this, y)
        I.write(o, x)
        return UNDEF
    if name == 'capacity' or name == 'max_size':
        return mk('ucall', 'capacity', I.read(this, ot))
    if op in ('==', '!='):
        return NotImplemented
    return NotImplemented


def _last_known(v):
    return False


_size0 = X.size


def size(t):
    if t.op == 'sorted' or t.op == 'reversed':
        return size(t.args[0])
    if t.op == 'partitioned':
        return size(t.args[1])
    if t.op == 'resized':
        return t.args[1]
    if t.op == 'rowgen':
        return t.args[0]
    if t.op == 'scatter':
        return size(t.args[1])
    if t.op == 'gen' and t.args[1].op == 'chunk' and t.args[2] is TRUE:
        # one chunk per iteration
        n, b, g, lvl = t.args
        k = X.fresh_k()
        s = size(X.subst(b.args[0], {mk('bv', lvl): k}))
        return X.sumk(n, k, s)
    if t.op == 'gen' and t.args[2] is not TRUE:
        n, b, g, lvl = t.args
        k = X.fresh_k()
        bb = mk('bv', lvl)
        one = size(X.subst(b.args[0], {bb: k})) if b.op == 'chunk' else ONE
        return X.sumk(n, k, X.ite(X.subst(g, {bb: k}), one, ZERO))
    if t.op == 'dynvec':
        return t.args[0]
    if t.op in ('emptymap',) or (t.op == 'arr' and t.args[0].op == 'emptymap'):
        return msize(t)
    if t.op == 'strfill':
        return t.args[0]
    return _size0(t)


X.size = size
X.REBUILD['size'] = size


def oob(i, n):
    return X.or_(X.le(n, i), X.lt(i, ZERO))


def m_array(I, e, this, name, ot, op):
    a = e['a']
    d = X.dims_of_type(ot)
    if op == '=':
        I.write(this, I.ev(a[0]))
        return this
    if op == '[]':
        i = I.toint(I.ev(a[0]))
        if I.track and isinstance(d, int):
            I.access(ptr(this), (i,), (num(d),), 'operator[]')
        return this.i(i)
    if name == 'at':
        i = I.toint(I.ev(a[0]))
        I.may_throw(oob(i, num(d)), 'std::out_of_range', 'array::at')
        return this.i(i)
    if name == 'front':
        return this.i(ZERO)
    if name == 'back':
        return this.i(num(d - 1))
    if name in ('size', 'max_size'):
        return num(d)
    if name == 'empty':
        return X.boolt(d == 0)
    if name in ('begin', 'cbegin', 'data'):
        return ptr(this.i(ZERO))
    if name in ('end', 'cend'):
        return ptr(this.i(num(d)))
    if name == 'fill':
        I.write(this, mk('list', *[I.ev(a[0])] * d))
        return UNDEF
    return NotImplemented


def m_string(I, e, this, name, ot, op):
    a = e['a']
    v = lambda: I.read(this, 'std::basic_string<char>')
    if op == '=':
        I.write(this, I.ev(a[0]))
        return this
    if op == '+=' or name in ('append', 'push_back'):
        x = I.ev(a[0])
        I.write(this, X.strcat(v(), x))
        return this
    if name in ('c_str', 'data', 'str'):
        return v()
    if name in ('size', 'length'):
        return strsize(v())
    if name == 'empty':
        return X.eq(strsize(v()), ZERO)
    if op == '[]' or name == 'at':
        return this.i(I.ev(a[0]))
    if name == 'clear':
        I.write(this, X.strlit(''))
        return UNDEF
    if name == 'compare':
        return X.ite(X.eq(v(), I.ev(a[0])), ZERO, ONE)
    if name in ('find', 'rfind', 'substr', 'find_first_of', 'find_last_of'):
        t = mk('strfn', name, v(), *vals(I, e))
        TY[t] = X.strip_type(e['t'])
        return t
    if name in ('begin', 'cbegin'):
        return ptr(this.i(ZERO))
    if name in ('end', 'cend'):
        return ptr(this.i(strsize(v())))
    return NotImplemented


def strsize(v):
    if v.op == 'strlit':
        return num(len(v.args[0]))
    return mk('size', v)


def m_map(I, e, this, name, ot, op):
    a = e['a']
    ta = targs(ot)
    if op == '=':
        I.write(this, I.ev(a[0]))
        return this
    if op == '[]':
        key = I.ev(a[0])
        M = I.read(this, ot)
        h = has(M, key)
        # operator[] inserts a default element
        if h is not TRUE and len(ta) > 1:
            d = I.zero(ta[1])
            cur = X.sel(M, key)
            I.write(this.i(key), d if h is FALSE else X.ite(h, cur, d))
            I.event('mapinsert', target=ptr(this), key=key)
        return this.i(key)
    if name == 'at':
        key = I.ev(a[0])
        I.may_throw(X.not_(has(I.read(this, ot), key)), 'std::out_of_range', 'map::at')
        return this.i(key)
    if name == 'find':
        key = I.ev(a[0])
        M = I.read(this, ot)
        return mk('ptr', this.root, this.path + (('w', 'entries'), ('i', mk('keyidx', M, key))))
    if name == 'count' or name == 'contains':
        h = has(I.read(this, ot), I.ev(a[0]))
        return X.ite(h, ONE, ZERO) if name == 'count' else h
    if name in ('begin', 'cbegin'):
        return begin(I, this, ot)
    if name in ('end', 'cend'):
        return end(I, this, ot)
    if name == 'size':
        return msize(I.read(this, ot))
    if name == 'empty':
        return X.eq(msize(I.read(this, ot)), ZERO)
    if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        vs = vals(I, e)
        M = I.read(this, ot)
        if len(vs) == 1:
            p = vs[0]
            key, val = X.fld(p, 'first'), X.fld(p, 'second')
        elif len(vs) == 2:
            key, val = vs
        else:
            I.write(this, mk('out', 'mapinsert', M, *vs))
            return UNDEF
        h = has(M, key)
        if name == 'insert_or_assign':
            h = FALSE
        if h is TRUE:
            return mk('pair', UNDEF, FALSE)
        nv = val if h is FALSE else X.ite(h, X.sel(M, key), val)
        I.write(this.i(key), nv)
        it = mk('ptr', this.root, this.path + (('w', 'entries'), ('i', mk('keyidx', I.read(this, ot), key))))
        return mk('pair', it, X.not_(h))
    if name == 'clear':
        I.write(this, mk('emptymap'))
        return UNDEF
    if name == 'erase':
        vs = vals(I, e)
        I.write(this, mk('out', 'maperase', I.read(this, ot), *vs))
        return UNDEF
    return NotImplemented


def m_set(I, e, this, name, ot, op):
    a = e['a']
    if name in ('count', 'contains'):
        h = seq_has(I.read(this, ot), I.ev(a[0]))
        return X.ite(h, ONE, ZERO) if name == 'count' else h
    if name in ('size',):
        return X.size(I.read(this, ot))
    if name == 'empty':
        return X.eq(X.size(I.read(this, ot)), ZERO)
    if name in ('insert', 'emplace'):
        vs = vals(I, e)
        cur = I.read(this, ot)
        if len(vs) == 1:
            h = seq_has(cur, vs[0])
            I.write(this, X.ite(h, cur, X.cat(cur, mk('list', vs[0]))))
            return mk('pair', UNDEF, X.not_(h))
        if len(vs) == 2:
            s = seq_range(I, vs[0], vs[1])
            I.write(this, mk('dedup', X.cat(cur, s)))
            return UNDEF
    if name in ('begin', 'cbegin'):
        return ptr(this.i(ZERO))
    if name in ('end', 'cend'):
        return ptr(this.i(X.size(I.read(this, ot))))
    if op == '=':
        I.write(this, I.ev(a[0]))
        return this
    return NotImplemented


def m_pair(I, e, this, name, ot, op):
    if op == '=':
        I.write(this, I.ev(e['a'][0]))
        return this
    return NotImplemented


def m_smart(I, e, this, name, ot, op):
    p = lambda: I.read(this, ot)
    if op in ('->',):
        return p()
    if op == '*':
        return I.deref(p())
    if name == 'get':
        return p()
    if name in ('operator bool',):
        return X.not_(I.equal(p(), NULL))
    if op == '=' or name == 'reset':
        v = I.ev(e['a'][0]) if e['a'] else NULL
        if name == 'reset' and v is not NULL:
            I.event('own', ptr=v, how='reset')
        I.write(this, v)
        return this
    if name == 'empty':
        return I.equal(p(), NULL)
    if name == 'release':
        v = p()
        I.write(this, NULL)
        I.event('disown', ptr=v)
        return v
    return NotImplemented


def m_ptr(I, e, this, name, ot, op):
    return NotImplemented


def m_iter(I, e, this, name, ot, op):
    p = I.read(this)
    if op == '*':
        return I.deref(p)
    if op == '->':
        return p
    if op in ('++', '--'):
        d = ONE if op == '++' else num(-1)
        np = I.ptr_add(p, d)
        I.write(this, np)
        return p if e['a'] else this
    if op in ('+', '-'):
        x = I.ev(e['a'][0])
        if x.op == 'ptr':
            return I.ptr_diff(p, x)
        return I.ptr_add(p, x if op == '+' else X.neg(x))
    if op in ('+=', '-='):
        x = I.ev(e['a'][0])
        I.write(this, I.ptr_add(p, x if op == '+=' else X.neg(x)))
        return this
    if op == '[]':
        return I.ptr_index(p, I.ev(e['a'][0]))
    if op in ('==', '!='):
        r = I.equal(p, I.ev(e['a'][0]))
        return r if op == '==' else X.not_(r)
    if op == '=':
        I.write(this, I.ev(e['a'][0]))
        return this
    if name == 'base':
        return p
    return NotImplemented


def m_optional(I, e, this, name, ot, op):
    v = I.read(this)
    some = is_some(v)
    if op in ('*', '->') or name in ('get', 'value'):
        I.event('optderef', value=v, some=some)
        lv = this.w('opt')
        return ptr(lv) if op == '->' else lv
    if name in ('operator bool', 'has_value', 'is_initialized') or op == '!':
        return X.not_(some) if op == '!' else some
    if op == '=':
        x = I.ev(e['a'][0])
        I.write(this, convert(I, x, e['a'][0], ot))
        return this
    return NotImplemented


def is_some(v):
    if v.op == 'some':
        return TRUE
    if v.op == 'none':
        return FALSE
    if v.op == 'ite':
        return X.ite(v.args[0], is_some(v.args[1]), is_some(v.args[2]))
    t = mk('issome', v)
    TY[t] = 'bool'
    return t


def m_function(I, e, this, name, ot, op):
    f = I.read(this)
    if op == '()':
        return I.call_closure(f, [I.ref(x) for x in e['a']])
    if name == 'operator bool':
        return X.not_(I.equal(f, NULL))
    if op == '=':
        I.write(this, I.ev(e['a'][0]))
        return this
    return NotImplemented


# --------------------------------------------------------------------------- ceres
def ceres_free(I, e, q, name):
    a = e['a']
    if q == 'ceres::AngleAxisRotatePoint':
        aa, p, o = vals(I, e)
        v3 = lambda ptrv: X.lst(*[I.read(I.ptr_index(ptrv, num(i))) for i in range(3)])
        r = X.aarot(v3(aa), v3(p))
        for i in range(3):
            I.write(I.ptr_index(o, num(i)), X.sel(r, num(i)))
        return UNDEF
    if q == 'ceres::AngleAxisToRotationMatrix':
        aa, o = vals(I, e)
        v = X.lst(*[I.read(I.ptr_index(aa, num(i))) for i in range(3)])
        R = X.Rvec(v)
        for i in range(9):   # column major
            I.write(I.ptr_index(o, num(i)), rot_coeff(R, num(i % 3), num(i // 3)))
        return UNDEF
    if q == 'ceres::Solve':
        opts, prob, summ = vals(I, e)
        do_solve(I, opts, prob, summ)
        return UNDEF
    return NotImplemented


class Snapshot:
    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return '<store>'


def do_solve(I, opts, prob, summ):
    I.uid += 1
    blocks = []
    for ev in I.events:
        if ev.name == 'residual' and same_problem(ev.problem, prob):
            blocks.extend(ev.blocks)
        if ev.name == 'paramblock' and same_problem(ev.problem, prob):
            blocks.append(ev.block)
    const = [ev.block for ev in I.events if ev.name == 'setconstant' and same_problem(ev.problem, prob)]
    ev = I.event('solve', problem=prob, summary=summ, options=opts, nsolve=I.uid, blocks=tuple(blocks))
    if ev is not None:
        ev.entry_store = Snapshot(dict(I.st.store))
    done = set()
    todo = list(blocks)
    locs = set()
    while todo:
        b = todo.pop()
        if b.op == 'ite':
            todo += [b.args[1], b.args[2]]
            continue
        if b.op != 'ptr':
            continue
        path = b.args[1]
        active = set(k for k, _ in I.loopstack)
        p = []
        for s in path:
            if s[0] == 'i' and any(x.op == 'k' and x not in active for x in s[1].free):
                break
            p.append(s)
        # a pointer to the first element of an array designates the array
        if p and len(p) == len(path) and p[-1][0] == 'i':
            p = p[:-1]
        locs.add((b.args[0], tuple(p)))
    for root, p in I_._merge_locs(set(), locs):
        lv = LV(root, p)
        old = I.read(lv)
        tag = '%s%s' % (root.split('#')[0], ''.join(str(s[1]) for s in p if s[0] == 'f'))
        loop = tuple(k for k, _ in I.loopstack)
        gs = block_guards(I, prob, root, p)
        if gs is None:
            I.write(lv, X.solved(old, tag, loop))
        else:
            # only the elements whose registration guard holds are variables of the problem
            j = X.fresh_k()
            el = X.sel(old, j)
            v = X.solved(el, (tag, j), loop)
            I.write(lv, X.gen(X.size(old), j, X.ite(X.or_(*[X.subst(g, {k: j}) for k, g in gs]), v, el)))
    if ev is not None:
        ev.exit_store = Snapshot(dict(I.st.store))
    if summ.op == 'ptr':
        s = mk('summary', 'solve%d' % I.uid, *[k for k, _ in I.loopstack])
        TY[s] = 'ceres::Solver::Summary'
        I.write(I.deref(summ), s)


def block_guards(I, prob, root, p):
    """[(index, condition)] under which elements of the array at (root, p) are registered as parameter blocks; None if
    the whole location is registered unconditionally (or the conditions do not only depend on the element)"""
    active = set(k for k, _ in I.loopstack)
    out = []
    for ev in I.events:
        if ev.name not in ('residual', 'paramblock') or not same_problem(ev.problem, prob):
            continue
        for b in (ev.blocks if ev.name == 'residual' else (ev.block,)):
            bs = [b]
            while bs:
                b = bs.pop()
                if b.op == 'ite':
                    bs += [b.args[1], b.args[2]]
                    continue
                if b.op != 'ptr' or b.args[0] != root or tuple(b.args[1][:len(p)]) != tuple(p):
                    continue
                if len(b.args[1]) <= len(p) + 1 or b.args[1][len(p)][0] != 'i' or b.args[1][len(p)][1].op != 'k':
                    return None
                k = b.args[1][len(p)][1]
                g = X.and_(*[c for c, kind in ev.pc if kind == 'if' and
                             all(x is k or x in active for x in c.free if x.op == 'k')])
                if g is TRUE:
                    return None
                out.append((k, g))
    return out or None


def same_block(a, b):
    """same block up to the loop index it was registered under"""
    if a is b:
        return True
    if a.op != 'ptr' or b.op != 'ptr' or a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
        return False
    return all(s[0] == t[0] and (s == t or s[0] == 'i') for s, t in zip(a.args[1], b.args[1]))


def cost_dims(ctype, costval, blocks):
    """declared (residuals, block sizes) of a cost function object"""
    if ctype is None:
        return None
    b = base_name(ctype)
    ta = targs(ctype)
    if b in ('ceres::AutoDiffCostFunction', 'ceres::NumericDiffCostFunction', 'ceres::SizedCostFunction'):
        ns = [int(x) for x in ta if re.fullmatch(r'-?\d+', x)]
        return (ns[0], tuple(ns[1:])) if ns else None
    if b in ('ceres::DynamicAutoDiffCostFunction', 'ceres::DynamicNumericDiffCostFunction') and costval is not None:
        bl = X.fld(costval, 'blocks')
        nr = X.intval(X.fld(costval, 'nres'))
        if bl.op == 'list':
            ns = [X.intval(x) for x in bl.args]
            if None not in ns:
                return (nr, tuple(ns))
            if any(b.op == 'blockseq' for b in blocks) is False and len(ns) == len(blocks):
                return (nr, tuple(x if n is None else n for n, x in zip(ns, bl.args)))
        return (nr, bl)
    return None


def blk(b, i=None):
    """symbolic value of a parameter block during the solve"""
    t = mk('blkval', b)
    return t if i is None else X.sel(t, num(i))


def eval_functor(I, ftype, functor, blocks, dims):
    """residual values of one cost function as terms over the block values"""
    nres, bs = dims
    if nres is None or ftype is None or not isinstance(bs, tuple) or not getattr(I, 'functors', True):
        return None
    cands = [f for f in I.db.funcs_of(ftype, 'operator()', I.frames[-1].tu)
             if 'Jet' not in f['f'] and 'double' in f['f']]
    dyn = [f for f in cands if len(f['p']) == 2 and f['p'][0]['t'].count('*') >= 2]
    fixed = [f for f in cands if len(f['p']) == len(blocks) + 1 and f not in dyn]
    if fixed:
        f = fixed[0]
    elif dyn:
        f = dyn[0]
    else:
        return None
    saved = (I.st, len(I.events), len(I.throws))
    I.st = I.st.copy()
    I.quiet = getattr(I, 'quiet', 0) + 1
    try:
        rr = I.newroot('temp', 'residual', None)
        I.st.store[rr] = mk('list', *[mk('unwritten', num(i)) for i in range(nres)])
        bound = []
        ptrs = []
        for b, n in zip(blocks, bs):
            r = I.newroot('temp', 'block', None)
            I.st.store[r] = X.lst(*[blk(b, i) for i in range(n)]) if isinstance(n, int) else blk(b)
            ptrs.append(mk('ptr', r, (('i', ZERO),)))
        if fixed:
            args = ptrs
        else:
            r = I.newroot('temp', 'blockptrs', None)
            I.st.store[r] = mk('list', *ptrs)
            args = [mk('ptr', r, (('i', ZERO),))]
        for v in args + [mk('ptr', rr, (('i', ZERO),))]:
            r = I.newroot('temp', 'arg', None)
            I.st.store[r] = v
            bound.append(LV(r))
        try:
            ok = I.val(I.run_function(f, I.deref(functor), bound))
        except Dead:
            return mk('list')
        v = I.load_root(rr)
        return mk('evalres', v, ok if isinstance(ok, T) else UNDEF, X.and_(*[c for c, k in I.st.pc[len(saved[0].pc):]]))
    finally:
        I.st = saved[0]
        del I.events[saved[1]:]
        del I.throws[saved[2]:]
        I.quiet -= 1


def same_problem(a, b):
    return a is b


def ceres_method(I, e, this, name, ot):
    a = e['a']
    if name == 'AddResidualBlock':
        v = vals(I, e)
        cost, loss, rest = v[0], v[1], v[2:]
        blocks = list(rest)
        if len(rest) == 1 and cat_of(a[2].get('t', '')) == 'vector':
            s = rest[0]
            if s.op == 'list':
                blocks = list(s.args)
            else:
                blocks = [mk('blockseq', s)]
        fd = None
        clv = I.deref(cost) if cost.op == 'ptr' else None
        costval = I.read(clv) if clv is not None else None
        functor = X.fld(costval, 'functor') if costval is not None else UNDEF
        fval = None
        ftype = None
        if functor.op == 'ptr':
            fval = I.read(I.deref(functor))
            ftype = I.rootinfo.get(functor.args[0], {}).get('cls') or I.rootinfo.get(functor.args[0], {}).get('type')
        ctype = I.rootinfo.get(cost.args[0], {}).get('type') if cost.op == 'ptr' else None
        bvals = []
        for b in blocks:
            try:
                if b.op == 'ptr' and b.args[1] and b.args[1][-1][0] == 'i':
                    bvals.append(I.read(LV(b.args[0], b.args[1][:-1])))
                elif b.op == 'ptr':
                    bvals.append(I.read(I.deref(b)))
                else:
                    bvals.append(UNDEF)
            except Unsupported:
                bvals.append(UNDEF)
        dims = cost_dims(ctype, costval, blocks)
        res = eval_functor(I, ftype, functor, blocks, dims) if functor.op == 'ptr' and dims else None
        I.event('residual', problem=ptr(this), cost=cost, ctype=ctype, functor=functor, ftype=ftype, fval=fval,
                costval=costval, loss=loss, blocks=tuple(blocks), bvals=tuple(bvals), dims=dims, res=res)
        return mk('resid', num(I.seq))
    if name == 'AddParameterBlock' and 'Problem' in ot:
        v = vals(I, e)
        I.event('paramblock', problem=ptr(this), block=v[0], size=v[1])
        return UNDEF
    if name == 'AddParameterBlock':
        v = vals(I, e)
        lv = this.f('blocks')
        cur = I.read(lv)
        I.write(lv, X.cat(cur, mk('list', v[0])))
        return UNDEF
    if name == 'SetNumResiduals':
        I.write(this.f('nres'), I.ev(a[0]))
        return UNDEF
    if name == 'IsSolutionUsable':
        tt = X.fld(I.read(this, ot), 'termination_type')
        TY.setdefault(tt, 'ceres::TerminationType')
        return X.or_(*[X.eq(tt, num(i)) for i in (0, 1, 3)])
    if name == 'ParameterBlockSize':
        b = I.ev(a[0])
        for ev in I.events:
            if ev.name == 'residual' and ev.dims and isinstance(ev.dims[1], tuple):
                for x, n in zip(ev.blocks, ev.dims[1]):
                    if same_block(x, b):
                        return num(n)
            if ev.name == 'paramblock' and ev.block is b:
                return ev.size
        return NotImplemented
    if name in ('SetParameterization', 'SetManifold'):
        v = vals(I, e)
        pv = I.smart(v[1])
        I.event('setmanifold', problem=ptr(this), block=v[0], param=v[1], value=I.read(I.deref(pv)) if pv.op == 'ptr' else None)
        return UNDEF
    if name in ('SetParameterBlockConstant', 'SetParameterBlockVariable'):
        v = vals(I, e)
        I.event('setconstant' if name.endswith('Constant') else 'setvariable', problem=ptr(this), block=v[0])
        return UNDEF
    if name in ('SetParameterLowerBound', 'SetParameterUpperBound'):
        I.event('bound', problem=ptr(this), kind=name, args=tuple(vals(I, e)))
        return UNDEF
    return NotImplemented


# --------------------------------------------------------------------------- OpenCV
CV_DRAW = {'line', 'circle', 'putText', 'drawChessboardCorners', 'drawContours', 'drawKeypoints', 'rectangle',
           'ellipse', 'arrowedLine', 'drawMarker', 'drawDetectedMarkers', 'drawDetectedCornersCharuco', 'drawAxis',
           'drawFrameAxes', 'polylines', 'fillPoly'}


def cv_free(I, e, q, name):
    if not q.startswith('cv::'):
        return NotImplemented
    a = e['a']
    if name in CV_DRAW:
        # drawKeypoints writes its third argument, all others their first
        idx = 2 if name == 'drawKeypoints' else 0
        vs = []
        for i, x in enumerate(a):
            vs.append(I.ev(x))
        h = I.ev(unwrap(a[idx]))
        lv = None
        if name == 'drawKeypoints':
            o = I.ref(unwrap(a[idx]))
            I.event('imgwrite', call=name, handle=I.read(o), args=tuple(vs))
            src = vs[0]
            I.write(o, new_image(I, mk('drawn', name, *vs)))
            return UNDEF
        I.event('imgwrite', call=name, handle=h, args=tuple(vs))
        if h.op == 'img':
            cur = I.load_root(h.args[0])
            I.write(LV(h.args[0]), mk('drawn', name, cur, *vs[1:]))
        return UNDEF
    if name == 'noArray':
        return mk('noarray')
    if name == 'norm' and len(a) == 1:
        v = I.ev(a[0])
        if cat_of(a[0].get('t', '')) == 'cvpt':
            ns = ('x', 'y', 'z') if 'Point3' in a[0]['t'] else ('x', 'y')
            return X.sqrt(X.add(*[X.mul(X.fld(v, n), X.fld(v, n)) for n in ns]))
        return mk('fn1', 'cv::norm', v)
    return NotImplemented


def unwrap(n):
    """argument of an implicit cv::InputArray conversion"""
    while n['k'] == 'ctor' and ('_InputOutputArray' in n['t'] or '_InputArray' in n['t'] or '_OutputArray' in n['t']) \
            and len(n['a']) == 1:
        n = n['a'][0]
    return n


def cv_arith(I, e, op, t0, t1):
    a = e['a']
    x, y = vals(I, e)
    p0, p1 = cat_of(t0) == 'cvpt', cat_of(t1) == 'cvpt'
    t = t0 if p0 else t1
    if 'Scalar' in t or 'Vec' in t or 'Rect' in t:
        return NotImplemented
    names = ('x', 'y', 'z') if 'Point3' in t else ('width', 'height') if 'Size' in t else ('x', 'y')

    def build(f):
        return mk('struct', UNDEF, tuple((n, f(n)) for n in names))
    if op in ('+', '-') and p0 and p1:
        g = X.add if op == '+' else X.sub
        return build(lambda n: g(X.fld(x, n), X.fld(y, n)))
    if op in ('+=', '-=') and p0:
        g = X.add if op == '+=' else X.sub
        lv = I.ref(a[0])
        I.write(lv, build(lambda n: g(X.fld(x, n), X.fld(y, n))))
        return lv
    if op == '*' and p0 and not p1:
        return build(lambda n: X.mul(X.fld(x, n), I.toint(y)))
    if op == '*' and p1 and not p0:
        return build(lambda n: X.mul(X.fld(y, n), I.toint(x)))
    if op == '/' and p0:
        return build(lambda n: X.div(X.fld(x, n), I.toint(y)))
    if op in ('*=', '/=') and p0:
        lv = I.ref(a[0])
        g = X.mul if op == '*=' else X.div
        I.write(lv, build(lambda n: g(X.fld(x, n), I.toint(y))))
        return lv
    return NotImplemented


def cv_method(I, e, this, name, ot, op):
    c = cat_of(ot)
    a = e['a']
    if c == 'cvpt':
        if op == '=':
            I.write(this, I.ev(a[0]))
            return this
        if name.startswith('operator ') and not a:
            return I.read(this)
        v = I.read(this, ot)
        if op == '[]':
            return this.i(I.ev(a[0]))
        if name == 'dot':
            w = I.ev(a[0])
            ns = ('x', 'y', 'z') if 'Point3' in ot else ('x', 'y')
            return X.add(*[X.mul(X.fld(v, n), X.fld(w, n)) for n in ns])
        if name == 'cross' and 'Point3' not in ot:
            w = I.ev(a[0])
            return X.sub(X.mul(X.fld(v, 'x'), X.fld(w, 'y')), X.mul(X.fld(v, 'y'), X.fld(w, 'x')))
        if name == 'area':
            return X.mul(X.fld(v, 'width'), X.fld(v, 'height'))
    if c == 'cvmat':
        if op == '=':
            st = a[0].get('t', '')
            if cat_of(X.strip_type(st)) != 'cvmat' and ('Scalar' in st or 'Vec<' in st or 'Matx' in st):
                # fills the existing pixels
                h = I.read(this, ot)
                v = I.ev(a[0])
                I.event('cvout', call='cv::Mat::operator=(Scalar)', handle=h, inout=True, index=0, lits={}, src=None)
                if h.op == 'img':
                    I.write(LV(h.args[0]), mk('drawn', 'fill', I.load_root(h.args[0]), v))
                return this
            I.write(this, I.ev(a[0]))
            return this
        if op == '()' or name in ('row', 'col', 'rowRange', 'colRange', 'diag', 'reshape'):
            h = I.read(this, ot)
            return mk('imgview', h, *vals(I, e))
        h = I.read(this, ot)
        if name == 'clone':
            src = I.load_root(h.args[0]) if h.op == 'img' else h
            return new_image(I, mk('clone', src))
        if name == 'copyTo':
            o = I.ref(unwrap(a[0]))
            cur = I.read(o)
            src = I.load_root(h.args[0]) if h.op == 'img' else h
            I.event('imgwrite', call='copyTo', handle=cur, args=())
            I.event('cvout', call='cv::Mat::copyTo', handle=cur, inout=False, index=0, lits={}, src=h)
            I.write(o, new_image(I, mk('clone', src)))
            return UNDEF
        if name in ('empty', 'channels', 'type', 'depth', 'total', 'size', 'isContinuous'):
            t = mk('matprop', name, h)
            TY[t] = X.strip_type(e['t'])
            return t
        if name == 'setTo':
            I.event('cvout', call='cv::Mat::setTo', handle=h, inout=True, index=0, lits={}, src=None)
        if name in ('setTo', 'create', 'release', 'push_back'):
            I.event('imgwrite', call=name, handle=h, args=tuple(vals(I, e)))
            return UNDEF
        if name in ('at', 'ptr'):
            vs = vals(I, e)
            if len(vs) == 1 and name == 'at' and cat_of(X.strip_type(unwrap(a[0])['t'])) == 'cvpt':
                vs = [X.fld(vs[0], 'y'), X.fld(vs[0], 'x')]
            t = mk('pixel', h, *vs)
            TY[t] = X.strip_type(e['t'])
            I.event('pixel', handle=h, args=tuple(vs))
            return t
    return NotImplemented
