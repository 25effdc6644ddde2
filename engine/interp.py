"""Abstract interpreter (gated value numbering) over the JSON IR produced by rct-extract.

One pass over every function body: branches are joined with gated values, loops are summarised by classifying how each
written location evolves, calls into the repository are inlined, calls outside are modelled (models.py) or opaque.
Nothing is executed and no path is enumerated."""
import re
from fractions import Fraction
from . import terms as X
from .terms import T, mk, num, TRUE, FALSE, NULL, UNDEF, ZERO, ONE, TY

UNROLL = 16
MAXDEPTH = 60


class Dead(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store=None, pc=()):
        self.store = store if store is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.store), self.pc)


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def f(self, name):
        return LV(self.root, self.path + (('f', name),))

    def i(self, idx):
        return LV(self.root, self.path + (('i', idx),))

    def w(self, *a):
        return LV(self.root, self.path + (('w',) + a,))

    def __repr__(self):
        return 'LV(%s)' % X.show(ptr(self))


def ptr(lv):
    return mk('ptr', lv.root, lv.path)


class Frame:
    def __init__(self, fn, tu, this=None):
        self.fn = fn
        self.tu = tu
        self.this = this
        self.env = {}
        self.rets = []
        self.loops = []
        self.name = fn.get('n', 'lambda') if fn else '?'
        self.retref = False


class Event:
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)

    def map(self, f):
        for n, v in list(self.__dict__.items()):
            if n in ('name', 'file', 'line', 'fn', 'stack', 'seq'):
                continue
            self.__dict__[n] = _deep(v, f)

    def __repr__(self):
        return 'Event(%s @%s:%s %s)' % (self.name, self.file.split('/')[-1], self.line,
                                        {k: v for k, v in self.__dict__.items() if
                                         k not in ('name', 'file', 'line', 'fn', 'stack')})


def _deep(v, f):
    if isinstance(v, T):
        return f(v)
    if isinstance(v, tuple):
        return tuple(_deep(x, f) for x in v)
    if isinstance(v, list):
        return [_deep(x, f) for x in v]
    if isinstance(v, dict):
        return {k: _deep(x, f) for k, x in v.items()}
    if isinstance(v, LV):
        return LV(v.root, _deep(v.path, f))
    return v


# --------------------------------------------------------------------------- type helpers
def base_name(ty):
    ty = X.strip_type(ty)
    i = ty.find('<')
    return ty[:i] if i >= 0 else ty


def targs(ty):
    """top-level template arguments of a type string"""
    ty = X.strip_type(ty)
    i = ty.find('<')
    if i < 0 or not ty.endswith('>'):
        return []
    s = ty[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        if ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_cat = {}


def cat_of(ty):
    t = X.strip_type(ty)
    r = _cat.get(t)
    if r is None:
        r = _cat[t] = _cat_of(t)
    return r


def _cat_of(t):
    if t.endswith('*') or t.endswith('*const') or t.endswith('* const'):
        return 'ptr'
    if X.is_int_type(t):
        return 'int'
    if X.is_float_type(t):
        return 'float'
    b = base_name(t)
    if t.endswith(']') and '<' not in t[t.rfind('>'):]:
        return 'carray'
    if b in ('std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::__cxx11::list'):
        return 'vector'
    if b == 'std::array':
        return 'array'
    if b in ('std::basic_string', 'std::__cxx11::basic_string'):
        return 'string'
    if b in ('std::map', 'std::unordered_map'):
        return 'map'
    if b in ('std::set', 'std::unordered_set', 'std::multiset'):
        return 'set'
    if b in ('std::pair', 'std::tuple'):
        return 'pair'
    if b in ('std::shared_ptr', 'std::unique_ptr', 'cv::Ptr', 'boost::shared_ptr', 'std::__shared_ptr',
             'pluginlib::UniquePtr'):
        return 'smart'
    if b in ('boost::optional', 'std::optional'):
        return 'optional'
    if b in ('std::basic_ostringstream', 'std::basic_stringstream', 'std::__cxx11::basic_ostringstream',
             'std::__cxx11::basic_stringstream'):
        return 'sstream'
    if b == 'Eigen::Transform':
        return 'iso'
    if b == 'Eigen::Translation':
        return 'translation'
    if b == 'Eigen::AngleAxis':
        return 'aa'
    if b in ('Eigen::Quaternion', 'Eigen::QuaternionBase'):
        return 'quat'
    if b == 'Eigen::Map':
        return 'map_eigen'
    if b in ('Eigen::Matrix', 'Eigen::Array'):
        return 'eig'
    if b.startswith('Eigen::'):
        return 'eigx'
    if b == 'cv::Mat' or b == 'cv::Mat_':
        return 'cvmat'
    if b in ('cv::Point_', 'cv::Point3_', 'cv::Size_', 'cv::Vec', 'cv::Scalar_', 'cv::Rect_'):
        return 'cvpt'
    if b == 'std::function':
        return 'function'
    if b == 'YAML::Node':
        return 'ynode'
    if b in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
        return 'iter'
    return 'rec'


# --------------------------------------------------------------------------- interpreter
def is_unsigned(t):
    t = X.strip_type(t)
    return t.startswith('unsigned') or t in ('size_t', 'std::size_t', 'uint', 'uint32_t', 'uint64_t')


def arr_size(t):
    t = X.strip_type(t or '')
    m = re.match(r'std::array<(.*), (\d+)(?:UL)?>$', t)
    if m:
        return m.group(1), int(m.group(2))
    m = re.match(r'(.*?)\s*\[(\d+)\]$', t)
    if m:
        return m.group(1), int(m.group(2))
    if t.startswith('Eigen::'):
        d = X.dims_of_type(t)
        if isinstance(d, int):
            return 'double', d
        if isinstance(d, tuple) and all(isinstance(x, int) and x > 0 for x in d):
            return 'double', d[0] * d[1]
        return 'double', None
    if t.startswith(('std::vector<', 'std::deque<')):
        return targs(t)[0], None
    return None, None


def type_at(I, root, path):
    """static type of the location (root, path); None if unknown"""
    t = I.rootinfo.get(root, {}).get('type')
    for s in path:
        if t is None:
            return None
        t = X.strip_type(t)
        if s[0] == 'f':
            rec = I.db.records.get(t)
            ft = None
            while rec is not None and ft is None:
                ft = next((f['t'] for f in rec['fields'] if f['n'] == s[1]), None)
                rec = I.db.records.get(X.strip_type(rec['bases'][0])) if ft is None and rec['bases'] else None
            if ft is None and t.startswith('std::pair'):
                ft = targs(t)[0 if s[1] == 'first' else 1]
            t = ft
        elif s[0] == 'i':
            if t.startswith(('std::map<', 'std::unordered_map<')):
                t = targs(t)[1]
            else:
                t = arr_size(t)[0]
        else:
            t = None
    return t


class Interp:
    TRACK = False

    def __init__(self, db, models=None, intercept=None):
        from . import models as M
        self.db = db
        self.M = M
        self.intercept = intercept or {}
        self.st = State()
        self.events = []
        self.rootinfo = {}
        self.defaults = {}
        self.nroot = 0
        self.frames = []
        self.throws = []       # (state, type, loc)
        self.usubs = []        # unsigned subtractions in loop conditions: (term, pc, function, line)
        self.incond = 0
        self.closures = {}
        self.wlogs = []
        self.loopstack = []    # active (k, n)
        self.scopes = []       # list of lists of roots
        self.line = 0
        self.file = ''
        self.visited = set()
        self.ucalls = {}
        self.trystack = 0
        self.uid = 0
        self.seq = 0
        self.dead_roots = {}
        self.enumval = {}
        self.track = Interp.TRACK     # record every element access with the size of its container

    def access(self, cont, i, n, what):
        """element access i of a container with n elements (kind 'range': the elements [i, i + count))"""
        if self.track:
            self.event('index', cont=cont, index=i, size=n, what=what)

    def access_ptr(self, lv):
        if not self.track or not isinstance(lv, LV) or lv.root == '?' or not lv.path or lv.path[-1][0] != 'i':
            return
        i = lv.path[-1][1]
        if i.op in ('strlit', 'ptr', 'pair'):
            return
        c = LV(lv.root, lv.path[:-1])
        try:
            t = type_at(self, lv.root, lv.path[:-1])
            if not t:
                return
            t = X.strip_type(t)
            m = re.match(r'.*\[(\d+)\]$', t)
            d = int(m.group(1)) if m else X.dims_of_type(t)
            if t.startswith(('std::vector<', 'std::deque<')):
                n = X.size(self.read(c))
            elif isinstance(d, int):
                n = num(d)
            else:
                return
        except Unsupported:
            return
        self.access(ptr(c), (i,), (n,), '[] through a pointer')

    # ------------------------------------------------------------ roots / memory
    def newroot(self, kind, name, ty=None):
        self.nroot += 1
        r = '%s#%d' % (name, self.nroot)
        self.rootinfo[r] = dict(kind=kind, name=name, type=ty, n=self.nroot, line=self.line, file=self.file,
                                loops=tuple(self.loopstack))
        if kind in ('local',) and self.scopes:
            self.scopes[-1].append(r)
        return r

    def default(self, root):
        d = self.defaults.get(root)
        if d is not None:
            return d
        return UNDEF

    def obj_root(self, term, ty=None):
        """memory behind an opaque pointer/reference value"""
        r = 'obj:%d' % term.id
        if r not in self.defaults:
            t = mk('deref', term)
            if ty:
                TY[t] = ty
            self.defaults[r] = t
            self.rootinfo[r] = dict(kind='obj', name=X.show(term, 4), type=ty, n=0, line=0, file='', loops=())
        return r

    def load_root(self, root):
        if root == '?':
            raise Unsupported('?')
        v = self.st.store.get(root)
        if v is None:
            v = self.default(root)
        return v

    def read(self, lv, ty=None):
        if lv.root == '?':
            return self.read_ptr(lv.path[0], lv.path[1:], ty)
        v = self.load_root(lv.root)
        for s in lv.path:
            v = self.step(v, s)
        if ty and v.op in ('fld', 'sel', 'in', 'deref', 'global', 'ucall', 'lfn') and v not in TY:
            TY[v] = ty
        return v

    def read_ptr(self, p, rest, ty):
        if p.op == 'ite':
            return X.ite(p.args[0], self.read_ptr(p.args[1], rest, ty), self.read_ptr(p.args[2], rest, ty))
        lv = self.deref(p)
        return self.read(LV(lv.root, lv.path + rest), ty)

    def step(self, v, s):
        if s[0] == 'f':
            return X.fld(v, s[1])
        if s[0] == 'i':
            return X.sel(v, s[1])
        return self.M.view_read(self, v, s)

    def setstep(self, v, s, new):
        if s[0] == 'f':
            return self.setf(v, s[1], new)
        if s[0] == 'i':
            return X.upd(v, s[1], new)
        return self.M.view_write(self, v, s, new)

    def setf(self, v, n, new):
        if n == 't':
            return X.iso(X.fld(v, 'R') if v is not UNDEF else UNDEF, new)
        if n == 'R':
            return X.iso(new, X.fld(v, 't') if v is not UNDEF else UNDEF)
        if v.op == 'struct':
            d = dict(v.args[1])
            d[n] = new
            return X.struct(v.args[0], d)
        if v.op == 'ite':
            return X.ite(v.args[0], self.setf(v.args[1], n, new), self.setf(v.args[2], n, new))
        if v.op == 'pair' and n in ('first', 'second'):
            return mk('pair', new, v.args[1]) if n == 'first' else mk('pair', v.args[0], new)
        return X.struct(v, {n: new})

    def write(self, lv, val):
        if lv.root == '?':
            p = lv.path[0]
            self.write_ptr(p, lv.path[1:], val)
            return
        for w in self.wlogs:
            w.append((lv.root, lv.path))
        self._write(lv.root, lv.path, val)

    def _write(self, root, path, val):
        base = self.load_root(root)
        self.st.store[root] = self._setpath(base, path, val)

    def _setpath(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if len(path) == 1:
            return self.setstep(v, s, val)
        return self.setstep(v, s, self._setpath(self.step(v, s), path[1:], val))

    def write_ptr(self, p, rest, val):
        if p.op == 'ite':
            for q, c in ((p.args[1], p.args[0]), (p.args[2], X.not_(p.args[0]))):
                lv = self.deref(q)
                lv = LV(lv.root, lv.path + rest)
                self.write(lv, X.ite(c, val, self.read(lv)))
            return
        lv = self.deref(p)
        self.write(LV(lv.root, lv.path + rest), val)

    def deref(self, p, ty=None):
        if p.op == 'ptr':
            return LV(p.args[0], p.args[1])
        if p.op == 'ite':
            return LV('?', (p,))
        if p.op == 'solved':
            return self.deref(p.args[0])
        return LV(self.obj_root(p, ty))

    def temp(self, val, ty=None):
        r = self.newroot('temp', 'tmp', ty)
        self.st.store[r] = val
        return LV(r)

    # ------------------------------------------------------------ state joining
    def rel(self, st, base):
        return X.and_(*[c for c, k in st.pc[len(base):]])

    def assume(self, cond, kind='if'):
        if cond is TRUE:
            return
        self.st.pc = self.st.pc + ((cond, kind),)

    def join(self, sts, base_pc):
        """sts: states with mutually exclusive, pc-prefixed conditions"""
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        n = len(base_pc)
        rels = [self.rel(s, base_pc) for s in sts]
        out = dict(sts[-1].store)
        for s, c in reversed(list(zip(sts[:-1], rels[:-1]))):
            keys = set(out) | set(s.store)
            for r in keys:
                a = s.store.get(r)
                b = out.get(r)
                if a is None:
                    a = self.defaults.get(r)
                if b is None:
                    b = self.defaults.get(r)
                if a is None:
                    out[r] = b
                elif b is None:
                    out[r] = a
                elif a is not b:
                    out[r] = X.ite(c, a, b)
        cond = X.or_(*rels)
        if cond is TRUE:
            return State(out, base_pc)
        # drop the exclusive branch selectors when judging why a part is missing
        kinds = {k for s in sts for c, k in s.pc[n + 1:]} | {k for s in sts for c, k in s.pc[n:n + 1] if k == 'nothrow'}
        kind = 'nothrow' if kinds <= {'nothrow'} and kinds else 'if'
        return State(out, base_pc + ((cond, kind),))

    def branch(self, cond, fa, fb):
        """run fa under cond, fb otherwise; values returned are merged"""
        if cond is TRUE:
            return fa()
        if cond is FALSE:
            return fb() if fb else None
        base = self.st
        va = vb = None
        self.st = base.copy()
        self.assume(cond)
        try:
            va = fa()
        except Dead:
            self.st = None
        A = self.st
        self.st = base.copy()
        self.assume(X.not_(cond))
        try:
            vb = fb() if fb else None
        except Dead:
            self.st = None
        B = self.st
        self.st = self.join2(cond, A, B, base.pc)
        if self.st is None:
            raise Dead()
        if A is None:
            return vb
        if B is None:
            return va
        if isinstance(va, T) and isinstance(vb, T):
            return X.ite(cond, va, vb)
        if isinstance(va, LV) and isinstance(vb, LV):
            return self.deref(X.ite(cond, ptr(va), ptr(vb)))
        return va

    def join2(self, cond, A, B, base_pc):
        if A is None and B is None:
            return None
        n = len(base_pc)
        if A is None or B is None:
            s = A or B
            # the surviving branch: condition stays, marked by why the other left
            return s
        out = {}
        for r in set(A.store) | set(B.store):
            a = A.store.get(r)
            b = B.store.get(r)
            if a is None:
                a = self.defaults.get(r)
            if b is None:
                b = self.defaults.get(r)
            if a is None:
                out[r] = b
            elif b is None or a is b:
                out[r] = a
            else:
                out[r] = X.ite(cond, a, b)
        ea = [x for x in A.pc[n + 1:]]
        eb = [x for x in B.pc[n + 1:]]
        if not ea and not eb:
            return State(out, base_pc)
        c = X.or_(X.and_(cond, *[x for x, k in ea]), X.and_(X.not_(cond), *[x for x, k in eb]))
        kinds = {k for x, k in ea + eb}
        pc = base_pc
        if c is not TRUE:
            pc = pc + ((c, 'nothrow' if kinds == {'nothrow'} else 'if'),)
        return State(out, pc)

    # ------------------------------------------------------------ events
    def event(self, name, **kw):
        self.seq += 1
        e = Event(name, pc=tuple(self.st.pc), loops=tuple(self.loopstack), file=self.file, line=self.line,
                  fn=self.frames[-1].name if self.frames else '?', seq=self.seq,
                  stack=tuple(f.name for f in self.frames), **kw)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.st is None:
            return
        if s.get('l'):
            self.line = s['l']
        k = s['k']
        getattr(self, 's_' + k)(s)

    def exec_body(self, s):
        """statement with Dead handling; leaves self.st None when control does not fall through"""
        try:
            self.exec(s)
        except Dead:
            self.st = None

    def s_nop(self, s):
        pass

    def s_error(self, s):
        raise Unsupported('clang does not accept the body of a function (see the output of the extraction)')

    def s_ostmt(self, s):
        raise Unsupported('statement ' + s.get('cls', '?'))

    def s_seq(self, s):
        self.scopes.append([])
        try:
            for c in s['s']:
                if self.st is None:
                    break
                self.exec(c)
        finally:
            rs = self.scopes.pop()
            for r in rs:
                self.dead_roots.setdefault(r, self.seq)

    def s_decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        ty = d['t']
        init = d.get('i')
        if d.get('l'):
            self.line = d['l']
        if d.get('st'):
            root = 'static:%s:%s' % (fr.name, d['n'])
            if root not in self.rootinfo:
                self.rootinfo[root] = dict(kind='static', name=d['n'], type=ty, n=0, line=self.line, file=self.file,
                                           loops=())
                t = mk('static', root)
                TY[t] = X.strip_type(ty)
                self.defaults[root] = t
                const = ty.startswith('const ') or ' const' in ty[-7:]
                self.rootinfo[root]['const'] = const
                if const and init is not None:
                    # constant: value is its initialiser
                    v = self.ev(init)
                    self.st.store[root] = v
                else:
                    self.event('static', root=root, const=const, init=init is not None)
                    if init is not None:
                        try:
                            self.ev(init)
                        except Unsupported:
                            pass
            fr.env[d['id']] = LV(root)
            return
        if d.get('ref') and init is not None:
            fr.env[d['id']] = self.ref(init)
            lv = fr.env[d['id']]
            if lv.root in self.rootinfo and self.rootinfo[lv.root]['kind'] == 'temp':
                self.rootinfo[lv.root]['kind'] = 'local'
                self.rootinfo[lv.root]['name'] = d['n']
                if self.scopes:
                    self.scopes[-1].append(lv.root)
            return
        if cat_of(ty) == 'map_eigen' and init is not None:
            lv = self.M.map_view(self, init, ty)
            if lv is not None:
                fr.env[d['id']] = lv
                return
        root = self.newroot('local', d['n'] or 'v', ty)
        lv = LV(root)
        fr.env[d['id']] = lv
        if init is None:
            self.st.store[root] = self.dinit(ty, explicit=False)
            for w in self.wlogs:
                w.append((root, ()))
        else:
            self.init_at(lv, init, ty)

    def init_at(self, lv, init, ty):
        """initialise the object at lv from an initialiser expression"""
        if init['k'] == 'ctor' and not init.get('copy'):
            if self.construct_at(lv, init):
                return
        v = self.ev(init)
        v = self.M.convert(self, v, init, ty)
        self.write(lv, v)

    def s_expr(self, s):
        self.ev(s['e'])

    def s_if(self, s):
        self.scopes.append([])
        if s.get('i'):
            self.exec(s['i'])
        if s.get('cv'):
            self.exec(s['cv'])
        c = self.cond(s['c'])
        base = self.st
        n = len(base.pc)
        if c is TRUE:
            self.exec(s['a'])
        elif c is FALSE:
            self.exec(s.get('b'))
        else:
            nt = len(self.throws)
            self.st = base.copy()
            self.assume(c)
            self.exec_body(s['a'])
            A = self.st
            tA = len(self.throws)
            self.st = base.copy()
            self.assume(X.not_(c))
            self.exec_body(s.get('b'))
            B = self.st
            tB = len(self.throws)
            if (A is None) != (B is None):
                S = B if A is None else A
                # did the other branch leave by exception only?
                left = self.throws[nt:tA] if A is None else self.throws[tA:tB]
                if left and self._left_by_throw(base, s['a'] if A is None else s.get('b'), left):
                    S.pc = S.pc[:n] + ((S.pc[n][0], 'nothrow'),) + S.pc[n + 1:]
                self.st = S
            else:
                self.st = self.join2(c, A, B, base.pc)
        rs = self.scopes.pop()
        for r in rs:
            self.dead_roots.setdefault(r, self.seq)
        if self.st is None:
            raise Dead()

    def _left_by_throw(self, base, node, left):
        # exact when no return/break/continue occurs inside the leaving branch
        return not _has_jump(node)

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get('v') is not None:
            if fr.retref:
                v = ptr(self.ref(s['v']))
            else:
                v = self.ev(s['v'])
                rt = fr.fn.get('ret')
                if rt:
                    v = self.M.convert(self, v, s['v'], rt)
        fr.rets.append((self.st, v, self.line))
        raise Dead()

    def s_break(self, s):
        self.frames[-1].loops[-1]['brk'].append(self.st)
        raise Dead()

    def s_continue(self, s):
        for l in reversed(self.frames[-1].loops):
            if l['kind'] == 'loop':
                l['cont'].append(self.st)
                break
        raise Dead()

    def s_switch(self, s):
        self.scopes.append([])
        if s.get('i'):
            self.exec(s['i'])
        v = self.ev(s['c'])
        base = self.st
        n = len(base.pc)
        items = []

        def flat(st):
            if st is None:
                return
            if st['k'] == 'seq':
                for c in st['s']:
                    flat(c)
            elif st['k'] == 'case':
                items.append(('case', st['v']))
                flat1(st['s'])
            elif st['k'] == 'default':
                items.append(('default', None))
                flat1(st['s'])
            else:
                items.append(('s', st))

        def flat1(st):
            if st is not None and st['k'] in ('case', 'default'):
                flat(st)
            elif st is not None:
                items.append(('s', st))

        flat(s['b'])
        conds = []
        for kind, x in items:
            if kind == 'case':
                conds.append(X.eq(v, self.ev(x)))
        anyc = X.or_(*conds)
        ctx = dict(kind='switch', brk=[], cont=[])
        self.frames[-1].loops.append(ctx)
        ci = 0
        cur = None
        seen_default = False
        pend = []

        def enter(c):
            nonlocal cur
            if c is FALSE:
                return
            e = base.copy()
            e.pc = base.pc + ((c, 'if'),)
            if cur is None:
                cur = e
            else:
                # same entry point reached by fallthrough and by label
                ra = self.rel(cur, base.pc)
                cur = self.join([cur, e], base.pc)

        for kind, x in items:
            if kind == 'case':
                enter(conds[ci])
                ci += 1
            elif kind == 'default':
                seen_default = True
                enter(X.not_(anyc))
            else:
                if cur is None:
                    continue
                self.st = cur
                self.exec_body(x)
                cur = self.st
        self.frames[-1].loops.pop()
        outs = ctx['brk'] + ([cur] if cur is not None else [])
        if not seen_default and anyc is not TRUE:
            e = base.copy()
            e.pc = base.pc + ((X.not_(anyc), 'if'),)
            outs.append(e)
        self.st = self.join(outs, base.pc)
        self.scopes.pop()
        if self.st is None:
            raise Dead()

    def s_try(self, s):
        base = self.st
        nt = len(self.throws)
        self.trystack += 1
        self.st = base.copy()
        nev = len(self.events)
        self.exec_body(s['b'])
        self.trystack -= 1
        normal = self.st
        caught = self.throws[nt:]
        keep = []
        outs = [normal] if normal is not None else []
        handled = []
        for (st, ty, loc) in caught:
            h = None
            for hh in s['h']:
                if 't' not in hh or self.exc_match(ty, hh['t']):
                    h = hh
                    break
            if h is None:
                keep.append((st, ty, loc))
            else:
                handled.append((st, h, ty))
        # calls outside the analysed code may throw as well
        opaque = [e for e in self.events[nev:] if e.name in ('ucall', 'libthrow', 'opaque')]
        self.throws[nt:] = keep
        if opaque or not caught:
            h = s['h'][-1]
            self.uid += 1
            c = mk('caught', 'c%d' % self.uid)
            if normal is not None:
                normal.pc = normal.pc + ((X.not_(c), 'nothrow'),)
            st = base.copy()
            st.pc = st.pc + ((c, 'if'),)
            for hh in s['h']:
                st2 = st.copy()
                if len(s['h']) > 1:
                    cc = mk('caught', 'c%d:%s' % (self.uid, hh.get('t', '...')))
                    st2.pc = st2.pc + ((cc, 'if'),)
                handled.append((st2, hh, None))
        for st, h, ty in handled:
            self.st = st
            if 'id' in h:
                r = self.newroot('local', 'exc', h['t'])
                t = mk('exc', ty or h['t'])
                self.st.store[r] = t
                self.frames[-1].env[h['id']] = LV(r)
            self.exec_body(h['b'])
            if self.st is not None:
                outs.append(self.st)
        self.st = self.join(outs, base.pc)
        if self.st is None:
            raise Dead()

    def exc_match(self, ty, caught):
        if ty is None:
            return True
        t, c = X.strip_type(ty), X.strip_type(caught)
        if t == c or c == 'std::exception':
            return True
        seen = set()
        todo = [t]
        STD = {'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
               'std::out_of_range': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'],
               'std::range_error': ['std::runtime_error']}
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == c:
                return True
            r = self.rec(x)
            if r:
                todo.extend(X.strip_type(b) for b in r['bases'])
            todo.extend(STD.get(x, []))
        return False

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        self.scopes.append([])
        if s.get('i'):
            self.exec(s['i'])
        self.header_loop(s.get('c'), s.get('u'), s['b'], False)
        for r in self.scopes.pop():
            self.dead_roots.setdefault(r, self.seq)

    def s_while(self, s):
        self.header_loop(s['c'], None, s['b'], False)

    def s_do(self, s):
        self.header_loop(s['c'], None, s['b'], True)

    def header_loop(self, cond, inc, bodyst, post):
        entry = self.st

        def raw(first=False):
            """one iteration: returns the condition value (before the body)"""
            c = TRUE
            if cond is not None and not post:
                c = self.hcond(cond)
            return c

        # 1. try to unroll while the condition stays constant
        if cond is not None and not post:
            probe = entry.copy()
            saved = self._mark()
            self.st = probe
            c0 = self.hcond(cond)
            self._reset(saved)
            self.st = entry
            if c0 is FALSE:
                self.hcond(cond)
                return
        # 2. discover how the header evolves
        k = X.fresh_k()
        locs, info = self.discover(lambda kk: self._iter(cond, inc, bodyst, post), k, None)
        # induction variables
        ind = {}
        for loc, (phi, I, N) in info['vals'].items():
            st = self._step_of(phi, I, N)
            if st is not None:
                ind[loc] = (I, st)
        # trip count
        n = None
        extra = None
        C = info['cond']
        if C is not None and not post:
            m = {}
            for loc, (I, stp) in ind.items():
                m[info['vals'][loc][0] if not isinstance(info['vals'][loc][0], tuple) else None] = None
            sub = {}
            for loc, (I, stp) in ind.items():
                phi = info['vals'][loc][0]
                a = _phi_atom(phi)
                sub[a] = X.add(_phi_init(I), X.mul(num(stp) if not isinstance(stp, T) else stp, k))
            # containers only written elementwise keep their size
            for loc, (phi, I, N) in info['vals'].items():
                if phi.op != 'phi' or N is None or cat_of(TY.get(phi, '')) in ('map', 'set'):
                    continue
                for fs in (X.size, self.M.mrows, self.M.mcols):
                    a = fs(phi)
                    if a.op in ('size', 'rows', 'cols') and fs(N) is a:
                        sub[a] = fs(I)
            Ck = X.subst(C, sub)
            n, extra = self._trip(Ck, k)
            if n is not None and X.contains(n, lambda x: x.op == 'phi' and x in [
                    _phi_atom(p) for p, _, _ in info['vals'].values()]):
                n = None
            # the bound must not change in the loop: it contains no phi (checked) and is taken at entry
        if n is None:
            # unknown number of iterations
            self.uid += 1
            n = mk('trip', 'w%d' % self.uid)
            generic = True
        else:
            generic = False
        ni = X.intval(n)
        if ni is not None and ni <= UNROLL and not generic:
            self._unroll_header(cond, inc, bodyst, post, ni)
            return

        def body(kk):
            for loc, (I, stp) in ind.items():
                self._write(loc[0], loc[1], _at(I, stp, kk))
            if cond is not None and not post:
                # keep side conditions: a compound condition is a break
                c = self.hcond(cond)
                if generic or extra is not None:
                    bc = X.not_(c) if generic else X.not_(self._extra(c, kk, n))
                    if bc is not FALSE:
                        base = self.st
                        brk = base.copy()
                        brk.pc = brk.pc + ((bc, 'if'),)
                        if not generic:
                            self.frames[-1].loops[-1]['brk'].append(brk)
                        self.st = base
                        self.st.pc = self.st.pc + ((X.not_(bc), 'if'),)
            self.exec_body(bodyst)
            self.st = self._join_conts(self.frames[-1].loops[-1], base_pc_of=None)
            if self.st is not None and inc is not None:
                try:
                    self.ev(inc)
                except Dead:
                    self.st = None

        skip = set(ind)
        self.iterate(n, body, ind=ind, whilelike=generic)

    def _extra(self, c, k, n):
        """the part of the loop condition that is not the index bound"""
        b = X.lt(k, n)
        parts = c.args if c.op == 'and' else (c,)
        rest = [p for p in parts if p is not b and not self._is_bound(p, k, n)]
        return X.and_(*rest)

    def _is_bound(self, p, k, n):
        r, e = self._trip(p, k)
        return r is n and e is None

    def _iter(self, cond, inc, bodyst, post):
        """run header+body once for discovery, returns condition"""
        c = None
        if cond is not None and not post:
            c = self.hcond(cond)
        self.exec_body(bodyst)
        self.st = self._join_conts(self.frames[-1].loops[-1], None)
        if self.st is not None and inc is not None:
            try:
                self.ev(inc)
            except Dead:
                self.st = None
        if cond is not None and post and self.st is not None:
            c = self.hcond(cond)
        return c

    def _join_conts(self, ctx, base_pc_of):
        conts = ctx['cont']
        ctx['cont'] = []
        if not conts:
            return self.st
        sts = conts + ([self.st] if self.st is not None else [])
        return self.join(sts, ctx['pc'])

    def _unroll_header(self, cond, inc, bodyst, post, n):
        base = self.st
        brks = []
        for i in range(n + 1):
            if self.st is None:
                break
            ctx = dict(kind='loop', brk=[], cont=[], pc=self.st.pc)
            self.frames[-1].loops.append(ctx)
            if cond is not None:
                c = self.hcond(cond)
                if c is FALSE:
                    self.frames[-1].loops.pop()
                    break
                if c is not TRUE:
                    b = self.st.copy()
                    b.pc = b.pc + ((X.not_(c), 'if'),)
                    brks.append(b)
                    self.st.pc = self.st.pc + ((c, 'if'),)
            ctx['pc'] = self.st.pc
            self.exec_body(bodyst)
            self.st = self._join_conts(ctx, None)
            self.frames[-1].loops.pop()
            brks += ctx['brk']
            if self.st is not None and inc is not None:
                self.ev(inc)
        self.st = self.join(brks + ([self.st] if self.st is not None else []), base.pc)
        if self.st is None:
            raise Dead()

    def _mark(self):
        fr = self.frames[-1]
        return (len(self.events), len(self.throws), [len(f.rets) for f in self.frames], self.seq,
                dict(self.dead_roots), [list(s) for s in self.scopes], len(self.frames))

    def _reset(self, m):
        del self.events[m[0]:]
        del self.throws[m[1]:]
        for f, n in zip(self.frames, m[2]):
            del f.rets[n:]
        self.seq = m[3]
        self.dead_roots = dict(m[4])
        self.scopes = [list(s) for s in m[5]]

    def _step_of(self, phi, I, N):
        """constant step of an induction variable"""
        if N is None:
            return None
        a = _phi_atom(phi)
        if phi.op == 'ptr':
            if N.op != 'ptr' or N.args[0] != phi.args[0] or len(N.args[1]) != len(phi.args[1]) or \
                    N.args[1][:-1] != phi.args[1][:-1]:
                return None
            d = X.sub(N.args[1][-1][1], a)
        elif phi.op == 'mapit':
            return None
        else:
            if phi.op != 'phi' or N.op not in ('poly', 'num', 'phi') and N is not phi:
                return None
            d = X.sub(N, a)
        v = X.numval(d)
        if v is None or v == 0 or v.denominator != 1:
            return None
        return int(v)

    def _trip(self, C, k):
        """number of iterations of a loop whose condition at iteration k is C; second: other conjuncts exist"""
        parts = C.args if C.op == 'and' else (C,)
        best = None
        extra = None
        for p in parts:
            n = self._trip1(p, k)
            if n is not None and best is None:
                best = n
            else:
                extra = True
        if best is None:
            return None, None
        return best, extra

    def _trip1(self, p, k):
        neg = False
        if p.op == 'not':
            neg = True
            p = p.args[0]
        if p.op == 'pos':
            d = p.args[0]
            if neg:
                d = X.sub(ONE, d)  # integers: not(d>0) == 1-d > 0
            po = X.as_poly(d)
            ck = None
            rest = {}
            for m, c in po.items():
                if m == ((k, 1),):
                    ck = c
                elif any(a is k or k in a.free for a, e in m):
                    return None
                else:
                    rest[m] = c
            if ck is None or ck >= 0:
                return None
            a = X.from_poly(rest)
            b = -ck
            if b == 1:
                return a
            v = X.numval(a)
            if v is not None:
                q = v / b
                return num(-((-q.numerator) // q.denominator))
            return mk('idiv', X.add(a, num(b - 1)), num(b))
        if p.op == 'zero' and neg:
            d = p.args[0]
            po = X.as_poly(d)
            ck = po.get(((k, 1),))
            if ck is None or abs(ck) != 1:
                return None
            rest = {m: c for m, c in po.items() if m != ((k, 1),)}
            if any(k in a.free for m in rest for a, e in m):
                return None
            a = X.from_poly(rest)
            return X.neg(a) if ck == 1 else a
        if p.op == 'eq' and neg:
            # it != end for map iterators
            a, b = p.args
            for x, y in ((a, b), (b, a)):
                if x.op == 'mapit' and y.op == 'mapend':
                    return None
        return None

    def discover(self, run, k, n):
        """find the locations a loop iteration writes and their values after one iteration, as functions of phis"""
        entry = self.st
        locs = {}
        self.uid += 1
        lid = self.uid
        for attempt in range(6):
            m = self._mark()
            self.st = entry.copy()
            phis = {}
            for loc in locs:
                I = self.read(LV(*loc))
                phi = self._make_phi(lid, loc, I)
                phis[loc] = (phi, I)
                self._write(loc[0], loc[1], phi)
            log = []
            self.wlogs.append(log)
            self.loopstack.append((k, n))
            ctx = dict(kind='loop', brk=[], cont=[], pc=self.st.pc)
            self.frames[-1].loops.append(ctx)
            nroot0 = self.nroot
            try:
                c = run(k)
            except Dead:
                self.st = None
                c = None
            self.frames[-1].loops.pop()
            self.loopstack.pop()
            self.wlogs.pop()
            E = self.st
            self._reset(m)
            self.st = entry
            new = self._reduce(log, phis, nroot0, k)
            merged = _merge_locs(set(locs), new)
            if merged == set(locs):
                vals = {}
                for loc, (phi, I) in phis.items():
                    N = None
                    if E is not None:
                        self.st = E
                        N = self.read(LV(*loc))
                        self.st = entry
                    vals[loc] = (phi, I, N)
                return locs, dict(vals=vals, cond=c, E=E)
            locs = {l: True for l in merged}
        raise Unsupported('loop does not stabilise')

    def _make_phi(self, lid, loc, I):
        name = '%d:%s%s' % (lid, loc[0], ''.join('.' + str(s[1]) if s[0] == 'f' else '[%s]' % X.show(s[1]) for s in loc[1]))
        p = mk('phi', name)
        if I.op == 'ptr' and I.args[1] and I.args[1][-1][0] == 'i' and X.isint(I.args[1][-1][1]):
            TY[p] = 'long'
            return mk('ptr', I.args[0], I.args[1][:-1] + (('i', p),))
        ty = TY.get(I)
        if ty is None:
            info = self.rootinfo.get(loc[0])
            if info and not loc[1]:
                ty = info['type']
        if ty is None and I.op == 'num' and I.args[0].denominator == 1:
            ty = None
        if ty:
            ty = X.strip_type(ty)
            TY[p] = ty
        elif loc[1]:
            t = self._loc_type(loc)
            if t:
                TY[p] = X.strip_type(t)
                ty = TY[p]
        d = X.dims_of_type(ty) if ty else None
        if isinstance(d, int) and d <= 16 and cat_of(ty) in ('eig', 'array', 'carray', 'cvpt'):
            return X.lst(*[mk('phi', name + '#%d' % i) for i in range(d)])
        return p

    def _loc_type(self, loc):
        info = self.rootinfo.get(loc[0])
        ty = info['type'] if info else None
        for s in loc[1]:
            if ty is None:
                return None
            ty = X.strip_type(ty)
            if s[0] == 'f':
                r = self.rec(ty)
                nt = None
                todo = [r] if r else []
                while todo:
                    q = todo.pop()
                    for f in q['fields']:
                        if f['n'] == s[1]:
                            nt = f['t']
                    todo += [self.db.records[b] for b in q['bases'] if b in self.db.records]
                if nt is None and s[1] in ('first', 'second'):
                    a = targs(ty)
                    nt = a[0 if s[1] == 'first' else 1] if len(a) >= 2 else None
                ty = nt
            elif s[0] == 'i':
                c = cat_of(ty)
                a = targs(ty)
                if c in ('vector', 'array'):
                    ty = a[0] if a else None
                elif c == 'map':
                    ty = a[1] if len(a) > 1 else None
                elif c == 'eig':
                    ty = a[0] if a else None
                elif c == 'carray':
                    ty = re.sub(r'\s*\[\d+\]$', '', ty)
                elif c == 'ptr':
                    ty = ty.rstrip('*').strip()
                else:
                    return None
            else:
                return None
        return ty

    def _reduce(self, log, phis, nroot0, k):
        active = set(kk for kk, _ in self.loopstack)
        out = set()
        for root, path in log:
            info = self.rootinfo.get(root)
            if info is not None and info['n'] > nroot0:
                continue
            if root == '?':
                continue
            p = []
            for s in path:
                if s[0] == 'w':
                    break
                if s[0] == 'i':
                    if any(x not in active and x.op in ('k', 'phi') for x in s[1].free if
                           not (x.op == 'phi' and self._outer_phi(x, phis))):
                        break
                p.append(s)
            # a transform part is updated through its whole transform
            q = tuple(p)
            for j, s in enumerate(q):
                if s[0] == 'f' and s[1] in ('t', 'R'):
                    q = q[:j]
                    break
            out.add((root, q))
        return _merge_locs(set(), out)

    def _outer_phi(self, x, phis):
        mine = set()
        for p, _ in phis.values():
            mine |= {y for y in X.subterms(p) if y.op == 'phi'}
        return x not in mine

    def iterate(self, n, body, ind=None, whilelike=False):
        """summary of: for k in 0..n: body(k)"""
        ind = ind or {}
        entry = self.st
        ni = X.intval(n)
        fr = self.frames[-1]
        if ni is not None and ni <= 0:
            return
        if ni is not None and ni <= UNROLL and not whilelike:
            brks = []
            for i in range(ni):
                if self.st is None:
                    break
                ctx = dict(kind='loop', brk=[], cont=[], pc=self.st.pc)
                fr.loops.append(ctx)
                try:
                    body(num(i))
                except Dead:
                    self.st = None
                self.st = self._join_conts(ctx, None)
                fr.loops.pop()
                brks += ctx['brk']
            self.st = self.join(brks + ([self.st] if self.st is not None else []), entry.pc)
            if self.st is None:
                raise Dead()
            return
        k = X.fresh_k()

        def run(kk):
            body(kk)
            self.st = self._join_conts(fr.loops[-1], None)

        locs, info = self.discover(run, k, n)
        locs = {l: v for l, v in locs.items() if l not in ind}
        # final run, keeping events and exits
        self.st = entry.copy()
        phis = {}
        for loc in locs:
            phi, I, N = info['vals'][loc]
            phis[loc] = (phi, I)
            self._write(loc[0], loc[1], phi)
        m = self._mark()
        nroot0 = self.nroot
        self.loopstack.append((k, n))
        ctx = dict(kind='loop', brk=[], cont=[], pc=self.st.pc)
        fr.loops.append(ctx)
        try:
            run(k)
        except Dead:
            self.st = None
        fr.loops.pop()
        self.loopstack.pop()
        E = self.st
        brks = ctx['brk']
        rets = fr.rets[m[2][len(self.frames) - 1]:]
        del fr.rets[m[2][len(self.frames) - 1]:]
        throws = self.throws[m[1]:]
        del self.throws[m[1]:]
        evs = self.events[m[0]:]
        base_pc = entry.pc
        # values after one iteration
        vals = {}
        for loc, (phi, I) in phis.items():
            N = None
            if E is not None:
                self.st = E
                N = self.read(LV(*loc))
            vals[loc] = (phi, I, N)
        self.st = entry
        # exit conditions
        bconds = [self.rel(b, base_pc) for b in brks] + [self.rel(r[0], base_pc) for r in rets]
        S = self._summaries(vals, k, n, whilelike)   # loc -> function(index term) -> term

        def phimap(at):
            mp = {}
            for loc, (phi, I, N) in vals.items():
                v = S[loc](at)
                if phi.op == 'phi':
                    mp[phi] = v
                elif phi.op == 'list':
                    for i, p in enumerate(phi.args):
                        mp[p] = X.sel(v, num(i))
                elif phi.op == 'ptr':
                    a = phi.args[1][-1][1]
                    if v.op == 'ptr' and v.args[1]:
                        mp[a] = v.args[1][-1][1]
                    else:
                        mp[a] = mk('out', 'it', a)
            return mp

        needs = [x for x in phis]
        pm = phimap(k) if phis else {}
        phiset = set(pm)

        def closeterm(t):
            if phiset and any(p in t.free for p in phiset):
                return X.subst(t, pm)
            return t

        for e in evs:
            e.map(closeterm)
        bconds = [closeterm(c) for c in bconds]
        out = entry.copy()
        # objects created inside the loop stay addressable by the recorded events
        for srcst in [E] + brks + [r[0] for r in rets]:
            if srcst is None:
                continue
            for r, v in srcst.store.items():
                inf = self.rootinfo.get(r)
                if r not in out.store and inf is not None and inf['n'] > nroot0:
                    out.store[r] = closeterm(v)
        B = X.or_(*bconds) if bconds else FALSE
        found = exists(n, k, B) if B is not FALSE else FALSE
        neff = n
        if E is None and B is FALSE and not throws:
            self.st = None
        self.st = out
        K = None
        if found is not FALSE:
            K = X.bind('first', k, n, B) if not whilelike else mk('first', 'w', n)
        for loc in vals:
            v = S[loc](n) if not (E is None and vals[loc][2] is None) else vals[loc][1]
            self._write(loc[0], loc[1], v)
            for w in self.wlogs:
                w.append((loc[0], loc[1]))
        for loc, (I, stp) in ind.items():
            self._write(loc[0], loc[1], _at(I, stp, n))
            for w in self.wlogs:
                w.append((loc[0], loc[1]))
        normal = self.st
        results = []
        nb = len(brks)
        if brks:
            rb = X.or_(*bconds[:nb])
            fb = exists(n, k, rb) if not rets else X.and_(found, X.subst(rb, {k: K}))
            # state at the breaking iteration
            bst = self.join_many(brks, bconds[:nb])
            brk = out.copy()
            brk.store = dict(normal.store)
            self.st = brk
            for loc in vals:
                self.st = State(bst, ())
                v = self.read(LV(*loc))
                self.st = brk
                v = X.subst(closeterm(v), {k: K})
                self._write(loc[0], loc[1], v)
            for loc, (I, stp) in ind.items():
                self._write(loc[0], loc[1], _at(I, stp, K))
            merged = {}
            for r in set(brk.store) | set(normal.store):
                a, b = brk.store.get(r), normal.store.get(r)
                merged[r] = b if a is None else a if b is None else X.ite(fb, a, b)
            normal = State(merged, base_pc)
        if rets:
            for (rs, rv, rl), c in zip(rets, bconds[nb:]):
                fc = X.and_(found, X.subst(c, {k: K})) if (len(bconds) > 1) else found
                st = State(dict(normal.store), base_pc + ((fc, 'if'),))
                self.st = st
                for loc in vals:
                    self.st = rs
                    v = self.read(LV(*loc))
                    self.st = st
                    self._write(loc[0], loc[1], X.subst(closeterm(v), {k: K}))
                v2 = X.subst(closeterm(rv), {k: K}) if rv is not None else None
                fr.rets.append((st, v2, rl))
            rb = X.or_(*bconds[nb:])
            fr_ = X.and_(found, X.subst(rb, {k: K})) if len(bconds) > nb or brks else found
            if len(bconds) == len(rets):
                fr_ = found
            normal.pc = normal.pc + ((X.not_(fr_), 'if'),)
        for (ts, ty, loc) in throws:
            c = closeterm(self.rel(ts, base_pc))
            ex = exists(n, k, c)
            st = State(dict(out.store), base_pc + ((ex, 'if'),))
            self.throws.append((st, ty, loc))
            normal.pc = normal.pc + ((X.not_(ex), 'nothrow'),)
        if E is None and not brks and X.intval(n) is None:
            # every iteration leaves: only the empty loop falls through
            normal.pc = normal.pc + ((X.not_(X.pos(n)), 'if'),)
        self.st = normal
        if whilelike and self.st is not None:
            self.event('while', n=n)

    def join_many(self, sts, conds):
        out = dict(sts[-1].store)
        for s, c in reversed(list(zip(sts[:-1], conds[:-1]))):
            for r in set(out) | set(s.store):
                a, b = s.store.get(r), out.get(r)
                out[r] = b if a is None else a if b is None else X.ite(c, a, b)
        return out

    def _summaries(self, vals, k, n, whilelike):
        S = {}
        todo = dict(vals)
        known = {}   # phi atom -> term at iteration k

        def own(phi):
            return set(x for x in X.subterms(phi) if x.op == 'phi')

        phis_all = set()
        for loc, (phi, I, N) in vals.items():
            phis_all |= own(phi)
        progress = True
        while todo and progress:
            progress = False
            for loc, (phi, I, N) in list(todo.items()):
                if N is None:
                    f = (lambda at, I=I: I)
                else:
                    others = (N.free & phis_all) - own(phi) - set(known)
                    if others:
                        continue
                    use = {p: v for p, v in known.items() if p in N.free}
                    N2 = X.subst(N, use) if use else N
                    f = self._classify(phi, I, N2, k, n)
                S[loc] = f
                v = f(k)
                if phi.op == 'phi':
                    known[phi] = v
                elif phi.op == 'list':
                    for i, p in enumerate(phi.args):
                        known[p] = X.sel(v, num(i))
                elif phi.op == 'ptr':
                    known[phi.args[1][-1][1]] = v.args[1][-1][1] if v.op == 'ptr' and v.args[1] else mk(
                        'out', 'it', phi)
                del todo[loc]
                progress = True
        for loc, (phi, I, N) in todo.items():
            # mutually dependent locations
            self.uid += 1
            S[loc] = (lambda at, N=N, I=I, u=self.uid: mk('out', 'loop%d' % u, at, I, N))
        if whilelike:
            pass
        return S

    def _classify(self, phi, I, N, k, n):
        if phi.op == 'list':
            fs = []
            Ncs = [X.sel(N, num(i)) for i in range(len(phi.args))]
            for i, p in enumerate(phi.args):
                others = (Ncs[i].free & set(phi.args)) - {p}
                if others:
                    fs = None
                    break
                fs.append(self._classify(p, X.sel(I, num(i)), Ncs[i], k, n))
            if fs is not None:
                return lambda at: X.lst(*[f(at) for f in fs])
            return lambda at: X.lst(*[fold(at, k, p, X.sel(I, num(i)), Ncs[i]) for i, p in enumerate(phi.args)])
        if phi.op == 'ptr':
            a = _phi_atom(phi)
            if N.op == 'ptr' and N.args[0] == phi.args[0] and N.args[1][:-1] == phi.args[1][:-1]:
                f = self._classify(a, _phi_init(I), N.args[1][-1][1], k, n)
                return lambda at: mk('ptr', phi.args[0], phi.args[1][:-1] + (('i', f(at)),))
            return lambda at: mk('out', 'ptr', at, I, N)
        if N is phi:
            return lambda at: I
        if phi not in N.free:
            def last(at, N=N, I=I):
                if k not in N.free:
                    return X.ite(X.pos(at), N, I)
                if at is k:
                    return X.ite(X.pos(k), X.subst(N, {k: X.sub(k, ONE)}), I)
                return X.ite(X.pos(at), X.subst(N, {k: X.sub(at, ONE)}), I)
            return last
        # appended sequences
        d = append_delta(N, phi)
        if d is not None and phi not in d.free:
            return lambda at: X.cat(I, genseq(at, k, d))
        # strings / streams
        d = str_delta(N, phi)
        if d is not None and phi not in d.free:
            return lambda at: X.strcat(I, X.sgen(at, k, d))
        # element updates
        ups = scatter_of(N, phi)
        if ups is not None:
            r = self._scatter(phi, I, ups, k, n)
            if r is not None:
                return r
        # booleans
        b = bool_delta(N, phi)
        if b is not None:
            kind, g = b
            if kind == 'or':
                return lambda at: X.or_(I, exists(at, k, g))
            return lambda at: X.and_(I, X.not_(exists(at, k, X.not_(g))))
        # numeric accumulation
        d = num_delta(N, phi)
        if d is not None and phi not in d.free:
            return lambda at: X.add(I, X.sumk(at, k, d))
        d = vec_delta(N, phi)
        if d is not None and phi not in d.free:
            return lambda at: X.vec_add(I, X.bind('vsum', k, at, d))
        # transforms
        if N.op == 'prod' and N.args[0] is phi and not any(phi in a.free for a in N.args[1:]):
            A = X.prod(*N.args[1:])
            return lambda at: X.prod(I, X.bind('prodall', k, at, A))
        if N.op == 'prod' and N.args[-1] is phi and not any(phi in a.free for a in N.args[:-1]):
            A = X.prod(*N.args[:-1])
            return lambda at: X.prod(X.bind('lprodall', k, at, A), I)
        m = max_delta(N, phi)
        if m is not None:
            return lambda at: X.bind(m[0], k, at, m[1], I)
        # conditional overwrite
        if N.op == 'ite':
            g = None
            if N.args[2] is phi and phi not in N.args[1].free and phi not in N.args[0].free:
                g, v = N.args[0], N.args[1]
            elif N.args[1] is phi and phi not in N.args[2].free and phi not in N.args[0].free:
                g, v = X.not_(N.args[0]), N.args[2]
            if g is not None:
                return lambda at: X.bind('lastif', k, at, g, v, I)
        if N.op == 'struct' and N.args[0] is phi:
            fs = {}
            for nme, v in N.args[1]:
                fs[nme] = self._classify_field(phi, nme, I, v, k, n)
            if all(f is not None for f in fs.values()):
                return lambda at: X.struct(I, {a: f(at) for a, f in fs.items()})
        return lambda at: fold(at, k, phi, I, N)

    def _classify_field(self, phi, nme, I, v, k, n):
        p2 = mk('phi', phi.args[0] + '.' + nme)
        v2 = X.subst_any(v, {X.fld(phi, nme): p2})
        if phi in v2.free:
            return None
        return self._classify(p2, X.fld(I, nme), v2, k, n)

    def _scatter(self, phi, I, ups, k, n):
        # ups: list of (guard, index, value); single index expression supported exactly
        if len(ups) == 1:
            g, idx, v = ups[0]
            if phi in g.free or phi in idx.free:
                return None
            cur = X.sel(phi, idx)
            if phi in v.free:
                v = X.subst_any(v, {cur: X.sel(I, idx)})
                if phi in v.free:
                    return None
                if k not in idx.free:
                    return None
            val = v if g is TRUE else X.ite(g, v, X.sel(I, idx))
            d = X.sub(idx, k) if idx.op not in ('pair', 'ptr', 'strlit', 'rowix', 'blk', 'colix', 'scat') else None
            full = X.size(I)

            def f(at):
                if d is ZERO and (at is full or full is X.subst(at, {})):
                    return X.gen(at, k, val)
                if d is not None:
                    # reverse iteration over the whole range
                    s = X.add(idx, k)
                    if k not in s.free and at is X.add(s, ONE) and at is full:
                        return X.gen(at, k, X.subst(val, {k: X.sub(X.sub(at, ONE), k)}))
                if I.op == 'emptymap' and g is TRUE:
                    return X.bind('mapgen', k, at, idx, val)
                if idx.op == 'rowix' and d is None and idx.args[0] is k and at is mat_rows(I):
                    return X.bind('rowgen', k, at, val)
                return X.bind('scatter', k, at, I, idx, val, g)
            return f
        idxs = [u[1] for u in ups]
        if all(k not in i.free and phi not in i.free for i in idxs):
            return None
        if I.op == 'emptymap' and all(u[0] is TRUE and phi not in u[2].free and phi not in u[1].free for u in ups):
            return lambda at: X.bind('mapgen', k, at, mk('tuple', *idxs), mk('tuple', *[u[2] for u in ups]))
        if any(phi in u[0].free or phi in u[1].free or phi in u[2].free for u in ups):
            return None
        return lambda at: X.bind('scatter', k, at, I, mk('tuple', *idxs), mk('tuple', *[u[2] for u in ups]),
                                 mk('tuple', *[u[0] for u in ups]))

    def s_rfor(self, s):
        self.scopes.append([])
        cont = self.ref(s['r'])
        n = self.M.range_size(self, cont, s['rt'])
        d = s['v']
        fr = self.frames[-1]
        saved = self.scopes

        def body(k):
            self.scopes.append([])
            elv = self.M.range_elem(self, cont, s['rt'], k)
            if d.get('ref'):
                fr.env[d['id']] = elv
            else:
                root = self.newroot('local', d['n'] or 'v', d['t'])
                fr.env[d['id']] = LV(root)
                self.st.store[root] = self.read(elv, X.strip_type(d['t']))
            for x in s.get('extra', []):
                self.declare(x)
            self.exec_body(s['b'])
            for r in self.scopes.pop():
                self.dead_roots.setdefault(r, self.seq)

        self.iterate(n, body)
        for r in self.scopes.pop():
            self.dead_roots.setdefault(r, self.seq)

    # ------------------------------------------------------------ expressions
    def hcond(self, e):
        """condition of a loop header; unsigned subtractions in it are recorded"""
        self.incond += 1
        try:
            return self.cond(e)
        finally:
            self.incond -= 1

    def cond(self, e):
        v = self.ev(e)
        return self.truth(v)

    def truth(self, v):
        if v is TRUE or v is FALSE:
            return v
        if v.op == 'num':
            return X.boolt(v.args[0] != 0)
        if v.op in ('pos', 'zero', 'eq', 'not', 'and', 'or', 'exists', 'bterm', 'ptrlt'):
            return v
        if v.op == 'ptr' or v.op == 'closure':
            return TRUE
        if v is NULL:
            return FALSE
        if v.op == 'ite':
            return X.ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
        ty = TY.get(v)
        if ty and X.strip_type(ty) == 'bool':
            return v
        if ty and cat_of(ty) == 'ptr':
            return X.not_(mk('isnull', v))
        if X.isint(v):
            return X.not_(X.eq(v, ZERO))
        return v

    def ev(self, e):
        if e is None:
            return UNDEF
        if e.get('l'):
            self.line = e['l']
        r = getattr(self, 'e_' + e['k'])(e)
        if isinstance(r, LV):
            r = self.read(r, X.strip_type(e['t']) if 't' in e else None)
        return r

    def ref(self, e):
        """location denoted by an expression (temporaries are materialised)"""
        if e.get('l'):
            self.line = e['l']
        k = e['k']
        if k == 'ctor' and not e.get('copy'):
            lv = LV(self.newroot('temp', 'tmp', e['t']))
            if self.construct_at(lv, e):
                return lv
        r = getattr(self, 'e_' + k)(e)
        if isinstance(r, LV):
            return r
        return self.temp(r, e.get('t'))

    def e_lit(self, e):
        return num(int(e['v']))

    def e_flit(self, e):
        # exact decimal as written, so that 0.1 means one tenth
        try:
            return num(Fraction(float.fromhex(e['x'])))
        except OverflowError:
            return mk('fnum', e['v'])

    def e_blit(self, e):
        return TRUE if e['v'] else FALSE

    def e_slit(self, e):
        return X.strlit(e['v'])

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.zero(e['t'])

    def e_enum(self, e):
        t = mk('enum', e['n'])
        self.enumval[t] = int(e['v'])
        return t

    def e_fn(self, e):
        return mk('fn', e['f'], e['n'])

    def e_this(self, e):
        th = self.frames[-1].this
        if th is None:
            raise Unsupported('this')
        return ptr(th)

    def lookup(self, vid):
        for f in (self.frames[-1],):
            lv = f.env.get(vid)
            if lv is not None:
                return lv
        return None

    def e_var(self, e):
        if 'g' in e:
            return self.global_lv(e)
        lv = self.lookup(e['id'])
        if lv is None:
            # captured constant or unknown
            t = mk('in', 'unbound:' + e['n'])
            TY[t] = X.strip_type(e['t'])
            r = 'unbound:%s' % e['n']
            self.defaults.setdefault(r, t)
            return LV(r)
        return lv

    def global_lv(self, e):
        r = 'g:' + e['g']
        if r not in self.rootinfo:
            g = self.db.globals.get(e['g'])
            self.rootinfo[r] = dict(kind='global', name=e['g'], type=e['t'], n=0, line=0, file='', loops=(),
                                    const=bool(g and g['const']))
            t = mk('global', e['g'])
            TY[t] = X.strip_type(e['t'])
            self.defaults[r] = t
            if g and g['const'] and 'i' in g:
                try:
                    saved = self.st
                    fr = Frame({'n': '<init>', 'ret': None}, g.get('tu'))
                    self.frames.append(fr)
                    v = self.ev(g['i'])
                    self.frames.pop()
                    if not v.op == 'ucall':
                        self.defaults[r] = v
                except (Unsupported, Dead):
                    self.frames.pop()
        return LV(r)

    def e_mem(self, e):
        if e.get('meth'):
            raise Unsupported('method value')
        if e.get('ar'):
            p = self.ev(e['b'])
            b = self.deref(self.smart(p))
        else:
            b = self.ref(e['b'])
        r = LV(b.root, b.path + (('f', e['n']),))
        if e.get('t', '').rstrip().endswith('&') and b.root != '?':
            v = self.read(r)
            if v.op == 'ptr':                       # reference member bound to an object
                return self.deref(v)
        return r

    wrap_cmp = False

    def smart(self, p):
        if p.op == 'smart':
            return p.args[0]
        return p

    def e_idx(self, e):
        p = e['b']
        i = self.ev(e['i'])
        bt = p.get('t', '')
        base = self.ev(p)
        i = self.toint(i)
        lv = self.ptr_index(base, i)
        self.access_ptr(lv)
        return lv

    def toint(self, t):
        if t.op == 'enum':
            return num(self.enumval[t])
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        if t.op in ('pos', 'zero', 'eq', 'and', 'or', 'not'):
            return X.ite(t, ONE, ZERO)
        return t

    def ptr_index(self, base, i):
        if base.op == 'ptr':
            path = base.args[1]
            if path and path[-1][0] == 'i' and path[-1][1].op not in ('strlit', 'ptr', 'pair'):
                return LV(base.args[0], path[:-1] + (('i', X.add(path[-1][1], i)),))
            if i is ZERO:
                return LV(base.args[0], path)
            return LV(base.args[0], path + (('i', i),))
        if base.op == 'ite':
            return LV('?', (X.ite(base.args[0], ptr(self.ptr_index(base.args[1], i)),
                                  ptr(self.ptr_index(base.args[2], i))),))
        if base.op == 'strlit' or base.op in ('scat',):
            return self.temp(X.sel(base, i))
        if base.op == 'padd':
            return self.ptr_index(base.args[0], X.add(base.args[1], i))
        r = self.obj_root(mk('arrp', base))
        return LV(r, (('i', i),))

    def ptr_add(self, p, i):
        if p.op == 'ptr' and p.args[1] and p.args[1][-1][0] == 'i':
            j = p.args[1][-1][1]
            if j.op not in ('strlit', 'pair'):
                return mk('ptr', p.args[0], p.args[1][:-1] + (('i', X.add(j, i)),))
        if p.op == 'ite':
            return X.ite(p.args[0], self.ptr_add(p.args[1], i), self.ptr_add(p.args[2], i))
        if p.op == 'padd':
            return self.ptr_add(p.args[0], X.add(p.args[1], i))
        if p.op in ('mapit', 'mapend'):
            return mk('mapnext', p, i)
        if i is ZERO:
            return p
        if p.op == 'ptr':
            return mk('ptr', p.args[0], p.args[1] + (('i', i),))
        # opaque pointer to an array
        return mk('padd', p, i)

    def e_cast(self, e):
        c = e['c']
        if c == 'ArrayToPointerDecay':
            lv = self.ref(e['a'])
            if lv.root == '?':
                return X.ite(lv.path[0].args[0], lv.path[0].args[1], lv.path[0].args[2])
            return ptr(lv.i(ZERO))
        if c in ('DerivedToBase', 'BaseToDerived', 'Dynamic'):
            r = getattr(self, 'e_' + e['a']['k'])(e['a'])
            return r
        if c == 'BitCast':
            return self.ev(e['a'])
        if c == 'ToVoid':
            self.ev(e['a'])
            return UNDEF
        v = self.ev(e['a'])
        if c == 'NullToPointer':
            return NULL
        if c == 'IntegralToBoolean':
            return X.not_(X.eq(self.toint(v), ZERO)) if v.op not in ('pos', 'zero', 'eq', 'and', 'or', 'not') else v
        if c in ('FloatingToBoolean', 'PointerToBoolean'):
            if c == 'PointerToBoolean':
                return self.truth(v) if v.op in ('ptr', 'null', 'ite') else X.not_(mk('isnull', v))
            return X.not_(X.eq(self.toint(v), ZERO))
        if c == 'FloatingToIntegral':
            if X.isint(v):
                return v
            nv = X.numval(v)
            if nv is not None:
                return num(int(nv))
            return mk('trunc', v)
        if c in ('IntegralCast', 'IntegralToFloating'):
            v = self.toint(v) if X.strip_type(e['t']) != 'bool' else v
            return v
        if c == 'FloatingCast':
            if X.strip_type(e['t']) == 'float' and X.strip_type(e['from']) == 'double':
                return self.M.f32(v)
            return v
        return v

    def e_un(self, e):
        op = e['op']
        if op == '*':
            p = self.smart(self.ev(e['a']))
            return self.deref(p)
        if op == '&':
            return ptr(self.ref(e['a']))
        if op in ('++', '--'):
            lv = self.ref(e['a'])
            v = self.read(lv, X.strip_type(e['t']))
            d = ONE if op == '++' else num(-1)
            if v.op in ('ptr', 'mapit', 'mapnext', 'padd', 'ite') and not X.isint(v):
                nv = self.ptr_add(v, d)
            else:
                nv = X.add(v, d)
            self.write(lv, nv)
            if e.get('post'):
                return v
            return lv
        v = self.ev(e['a'])
        if op == '-':
            return X.neg(self.toint(v)) if not v.op == 'enum' else X.neg(num(self.enumval[v]))
        if op == '+':
            return v
        if op == '!':
            return X.not_(self.truth(v))
        if op == '~':
            return mk('bitnot', v)
        raise Unsupported('unary ' + op)

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '&&':
            a = self.cond(e['a'])
            if a is FALSE:
                return FALSE
            r = self.branch(a, lambda: self.cond(e['b']), lambda: FALSE)
            return r if r is not None else FALSE
        if op == '||':
            a = self.cond(e['a'])
            if a is TRUE:
                return TRUE
            r = self.branch(a, lambda: TRUE, lambda: self.cond(e['b']))
            return r if r is not None else TRUE
        if op == '=':
            v = self.ev(e['b'])
            self.note_pixel(e['a'])
            lv = self.ref(e['a'])
            v = self.M.convert(self, v, e['b'], e['a'].get('t', e['t']))
            self.write(lv, v)
            return lv
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            b = self.ev(e['b'])
            self.note_pixel(e['a'])
            lv = self.ref(e['a'])
            a = self.read(lv, X.strip_type(e['t']))
            v = self.arith(op[:-1], a, b, e.get('ct', e['t']))
            if X.strip_type(e['t']) == 'bool':
                w = self.asbool(v)
                v = w if w is not None else X.not_(X.eq(self.toint(v), ZERO))
            elif X.is_int_type(e['t']) and not X.isint(v):
                v = mk('trunc', v)
            self.write(lv, v)
            return lv
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        r = self.arith(op, a, b, e['t'])
        if self.wrap_cmp and op in ('<', '>', '<=', '>='):
            # a negative value converted to an unsigned type compares as a huge one
            for v, n, low in ((a, e['a'], op[0] == '<'), (b, e['b'], op[0] == '>')):
                if n['k'] == 'cast' and n['c'] == 'IntegralCast' and is_unsigned(n['t']) and not is_unsigned(n['from']):
                    neg = X.lt(self.toint(v), ZERO)
                    r = X.and_(X.not_(neg), r) if low else X.or_(neg, r)
        return r

    def arith(self, op, a, b, ty):
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else X.not_(r)
        if op in ('<', '>', '<=', '>='):
            a, b = self.toint(a), self.toint(b)
            return {'<': X.lt, '>': X.gt, '<=': X.le, '>=': X.ge}[op](a, b)
        isptr = lambda t: t.op in ('ptr', 'padd') or (TY.get(t) and cat_of(TY[t]) == 'ptr')
        if op in ('+', '-') and (isptr(a) or isptr(b)):
            if op == '-' and isptr(a) and isptr(b):
                return self.ptr_diff(a, b)
            if isptr(b):
                a, b = b, a
            return self.ptr_add(a, b if op == '+' else X.neg(b))
        a, b = self.toint(a), self.toint(b)
        if op == '+':
            return X.add(a, b)
        if op == '-':
            r = X.sub(a, b)
            if self.incond and X.strip_type(ty or '').startswith('unsigned') and self.st is not None:
                self.usubs.append((r, self.st.pc, self.frames[-1].fn.get('n'), self.line))
            return r
        if op == '*':
            return X.mul(a, b)
        if op == '/':
            if X.is_int_type(ty):
                return idiv(a, b)
            return X.div(a, b)
        if op == '%':
            return imod(a, b)
        if op in ('&', '|', '^'):
            x, y = self.asbool(a), self.asbool(b)
            if x is not None and y is not None:
                return self.toint(X.and_(x, y) if op == '&' else X.or_(x, y) if op == '|' else
                                  X.or_(X.and_(x, X.not_(y)), X.and_(X.not_(x), y)))
        return mk('bitop', op, a, b)

    def asbool(self, t):
        """boolean term of a value that is known to be 0 or 1"""
        if t is TRUE or t is FALSE or t.op in ('pos', 'zero', 'eq', 'and', 'or', 'not', 'exists'):
            return t
        n = X.intval(t)
        if n is not None:
            return X.boolt(n != 0) if n in (0, 1) else None
        if t.op == 'ite':
            x, y = self.asbool(t.args[1]), self.asbool(t.args[2])
            return None if x is None or y is None else X.ite(t.args[0], x, y)
        ty = TY.get(t)
        if ty and X.strip_type(ty) == 'bool':
            return t
        return None

    def ptr_diff(self, a, b):
        if a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0] and a.args[1][:-1] == b.args[1][:-1] and \
                a.args[1] and a.args[1][-1][0] == 'i':
            return X.sub(a.args[1][-1][1], b.args[1][-1][1])
        return mk('ptrdiff', a, b)

    def equal(self, a, b):
        if a.op in ('mapit', 'mapend') or b.op in ('mapit', 'mapend'):
            return self.M.mapit_eq(a, b)
        if a is NULL or b is NULL:
            o = b if a is NULL else a
            if o is NULL:
                return TRUE
            if o.op in ('ptr', 'closure'):
                return FALSE
            if o.op == 'ite':
                return X.ite(o.args[0], self.equal(o.args[1], NULL), self.equal(o.args[2], NULL))
            return mk('isnull', o)
        if (a.op == 'enum') != (b.op == 'enum'):
            if a.op == 'num':
                b = num(self.enumval[b])
            elif b.op == 'num':
                a = num(self.enumval[a])
        return X.eq(a, b)

    def e_cond(self, e):
        c = self.cond(e['c'])
        k = lambda n: (lambda: getattr(self, 'e_' + n['k'])(n))

        def val(n):
            def f():
                r = getattr(self, 'e_' + n['k'])(n)
                return r
            return f
        if c is TRUE:
            return val(e['a'])()
        if c is FALSE:
            return val(e['b'])()
        return self.branch(c, lambda: self.ev(e['a']), lambda: self.ev(e['b']))

    def e_throw(self, e):
        ty = e.get('t')
        if e.get('a') is not None:
            try:
                v = self.ev(e['a'])
            except Unsupported:
                v = UNDEF
        self.do_throw(ty)

    def do_throw(self, ty):
        self.throws.append((self.st, ty, (self.file, self.line)))
        self.event('throw', ty=X.strip_type(ty) if ty else None)
        self.st = None
        raise Dead()

    def may_throw(self, cond, ty, what):
        """library call that throws under cond: recorded, control continues under the negation"""
        if cond is FALSE:
            return
        base = self.st
        st = base.copy()
        st.pc = st.pc + ((cond, 'if'),)
        self.throws.append((st, ty, (self.file, self.line)))
        self.event('libthrow', cond=cond, ty=ty, what=what)
        if cond is TRUE:
            self.st = None
            raise Dead()
        self.st.pc = self.st.pc + ((X.not_(cond), 'nothrow'),)

    def e_lambda(self, e):
        self.uid += 1
        c = mk('closure', self.uid)
        fr = self.frames[-1]
        env = dict(fr.env)
        capt = {}
        for cap in e['caps']:
            if cap.get('this'):
                continue
            if 'init' in cap:
                v = self.ev(cap['init']) if not cap['ref'] else None
                if cap['ref']:
                    env[cap['id']] = self.ref(cap['init'])
                else:
                    lv = self.temp(v)
                    self.rootinfo[lv.root]['kind'] = 'capture'
                    env[cap['id']] = lv
                continue
            if not cap['ref'] and cap['id'] in env:
                v = self.read(env[cap['id']])
                lv = self.temp(v, self.rootinfo.get(env[cap['id']].root, {}).get('type'))
                self.rootinfo[lv.root]['kind'] = 'capture'
                env[cap['id']] = lv
        self.closures[c] = dict(node=e, env=env, this=fr.this, tu=fr.tu, fn=fr.fn)
        return c

    def e_new(self, e):
        root = self.newroot('heap', 'new', e['t'])
        lv = LV(root)
        self.event('new', root=root, type=e['t'])
        if e.get('arr') is not None:
            n = self.ev(e['arr'])
            self.st.store[root] = mk('fill', n, UNDEF)
            return ptr(lv.i(ZERO))
        if e.get('i') is None:
            self.st.store[root] = self.dinit(e['t'], explicit=False)
        else:
            self.st.store[root] = UNDEF
            self.init_at(lv, e['i'], e['t'])
        return ptr(lv)

    def e_delete(self, e):
        p = self.ev(e['a'])
        self.event('delete', ptr=p)
        return UNDEF

    def e_ilist(self, e):
        ty = e['t']
        c = cat_of(ty)
        if c == 'rec':
            v = self.dinit(ty, explicit=True)
            rec = self.rec(X.strip_type(ty))
            if rec is None:
                if len(e['a']) == 1:
                    return self.ev(e['a'][0])
                return mk('agg', X.strip_type(ty), *[self.ev(a) for a in e['a']])
            items = list(e['a'])
            fields = {}
            nb = len(rec['bases'])
            for b, a in zip(rec['bases'], items[:nb]):
                bv = self.ev(a)
                for f in self.allfields(b):
                    fields[f['n']] = X.fld(bv, f['n'])
            for f, a in zip(rec['fields'], items[nb:]):
                fields[f['n']] = self.M.convert(self, self.ev(a), a, f['t'])
            for f, val in fields.items():
                v = self.setf(v, f, val)
            return v
        vals = [self.ev(a) for a in e['a']]
        if c == 'array' and len(vals) == 1 and e['a'][0]['k'] == 'ilist':
            return vals[0]
        if c in ('int', 'float', 'string', 'ptr') and len(vals) == 1:
            return vals[0]
        if c in ('int', 'float', 'ptr') and not vals:
            return self.zero(ty)
        d = X.dims_of_type(ty)
        if isinstance(d, int) and len(vals) < d and c in ('carray', 'array'):
            f = self.ev(e['fill']) if e.get('fill') is not None else ZERO
            vals += [f] * (d - len(vals)) if d <= 64 else []
        return mk('list', *vals)

    def e_other(self, e):
        self.uid += 1
        t = mk('ucall', 'expr:' + e.get('cls', '?'), num(self.uid))
        return t

    def e_inhctor(self, e):
        raise Unsupported('inherited ctor outside initialiser')

    # ------------------------------------------------------------ construction
    def allfields(self, ty):
        r = self.rec(X.strip_type(ty))
        if not r:
            return []
        out = []
        for b in r['bases']:
            out += self.allfields(b)
        return out + r['fields']

    def zero(self, ty):
        c = cat_of(ty)
        t = X.strip_type(ty)
        if c in ('int', 'float'):
            return FALSE if t == 'bool' else ZERO
        if c in ('ptr', 'smart', 'function'):
            return NULL
        if c in ('array', 'carray'):
            d = X.dims_of_type(t)
            et = targs(t)[0] if c == 'array' else re.sub(r'\s*\[\d+\]$', '', t)
            if isinstance(d, int):
                z = self.zero(et)
                return mk('list', *[z] * d) if d <= 64 else mk('fill', num(d), z)
        if c == 'rec' and t in self.db.records:
            return self.dinit(ty, explicit=True, zero=True)
        return self.dinit(ty, explicit=True)

    def dinit(self, ty, explicit=False, zero=False):
        """value of a default-initialised object (UNDEF parts for indeterminate scalars)"""
        t = X.strip_type(ty)
        c = cat_of(t)
        if c in ('int', 'float', 'ptr'):
            return UNDEF
        if c in ('smart', 'function'):
            return NULL
        if c == 'vector' or c == 'set':
            return mk('list')
        if c == 'string' or c == 'sstream':
            return X.strlit('')
        if c == 'map':
            return mk('emptymap')
        if c == 'optional':
            return mk('none')
        if c in ('array', 'carray'):
            d = X.dims_of_type(t)
            et = targs(t)[0] if c == 'array' else re.sub(r'\s*\[\d+\]$', '', t)
            if isinstance(d, int) and d <= 64:
                z = self.dinit(et)
                return mk('list', *[z] * d)
            return UNDEF
        if c == 'pair':
            a = targs(t)
            if len(a) == 2:
                return mk('pair', self.dinit(a[0]), self.dinit(a[1]))
            return UNDEF
        if c in ('cvpt',):
            return self.M.cvpt_default(t)
        if c == 'cvmat':
            return mk('emptymat')
        if c == 'ynode':
            return mk('struct', UNDEF, ())
        if c in ('iso', 'translation', 'aa', 'quat', 'eigx', 'map_eigen'):
            return UNDEF
        if c == 'eig':
            d = X.dims_of_type(t)
            if isinstance(d, int):
                return mk('list', *[UNDEF] * d)
            if isinstance(d, tuple):
                return mk('mat', d[0], d[1], tuple([UNDEF] * (d[0] * d[1])))
            return mk('list') if targs(t)[1:3] and targs(t)[2] == '1' else mk('emptydyn')
        rec = self.rec(t)
        if rec is None:
            o = mk('lib', t)
            TY[o] = t
            return o
        # a default constructor in the repository is run
        ctor = self.find_default_ctor(t)
        if ctor is not None and not zero:
            lv = LV(self.newroot('temp', 'tmp', t))
            self.run_ctor(ctor, lv, [], [])
            return self.load_root(lv.root)
        return self.field_defaults(t, zero)

    def find_default_ctor(self, t):
        nm = t + '::' + base_name(t.split('::')[-1] if '<' not in t else t[:t.find('<')].split('::')[-1])
        for fid in (nm + ' : void ()', nm + ' : void () noexcept'):
            f = self.db.find(fid, self.frames[-1].tu if self.frames else None)
            if f is not None:
                return f
        return None

    def field_defaults(self, t, zero=False):
        rec = self.rec(t)
        fields = {}
        for b in rec['bases']:
            bt = X.strip_type(b)
            if bt in self.db.records:
                v = self.dinit(bt)
                for f in self.allfields(bt):
                    fields[f['n']] = X.fld(v, f['n'])
        for f in rec['fields']:
            if 'i' in f:
                fields[f['n']] = self.M.convert(self, self.ev_in(f['i'], t), f['i'], f['t'])
            elif zero:
                fields[f['n']] = self.zero(f['t'])
            else:
                fields[f['n']] = self.dinit(f['t'])
        return mk('struct', UNDEF, tuple(sorted(fields.items())))

    def ev_in(self, node, t):
        return self.ev(node)

    def construct_at(self, lv, e):
        """run a repository constructor in place; False if the class is not in the repository"""
        t = X.strip_type(e['t'])
        if self.frames and 'ctor:' + t in self.intercept:
            v = self.intercept['ctor:' + t](self, e)
            self.write(lv, v)
            return True
        if t == 'cv::KeyPoint' and len(e['a']) >= 2:
            self.write(lv, self.M.keypoint([self.ev(a) for a in e['a']], e['a']))
            return True
        f = self.db.find(e['f'], self.frames[-1].tu)
        if f is None:
            return False
        if lv.root in self.rootinfo and not lv.path:
            self.rootinfo[lv.root]['cls'] = t
        self.visited.add(f['f'])
        args = e['a']
        self.run_ctor(f, lv, args, None)
        return True

    def rec(self, t):
        return self.db.record(t, self.frames[-1].tu if self.frames else None)

    def run_ctor(self, f, lv, argnodes, argrefs):
        bound = []
        for i, p in enumerate(f['p']):
            if argnodes is not None and i < len(argnodes):
                bound.append(self.bind_param(p, argnodes[i]))
            elif argrefs is not None and i < len(argrefs):
                bound.append(self.bind_param_ref(p, argrefs[i]))
            else:
                raise Unsupported('missing argument')
        self.ctor_body(f, lv, bound)

    def ctor_body(self, f, lv, bound):
        t = X.strip_type(f['c'])
        fr = self.enter(f, lv)
        for p, b in zip(f['p'], bound):
            fr.env[p['id']] = b
        try:
            if any(i.get('deleg') for i in f['inits']):
                i = [x for x in f['inits'] if x.get('deleg')][0]
                self.init_at(lv, i['e'], t)
            else:
                rec = self.rec(t)
                fields = {}
                if rec:
                    for fl in rec['fields']:
                        fields[fl['n']] = self.dinit(fl['t']) if cat_of(fl['t']) not in ('rec',) else UNDEF
                self._write(lv.root, lv.path, mk('struct', UNDEF, tuple(sorted(fields.items()))))
                for w in self.wlogs:
                    w.append((lv.root, lv.path))
                for i in f['inits']:
                    if i.get('l'):
                        self.line = i['l']
                    if 'm' in i:
                        e = i['e']
                        sub = lv.f(i['m'])
                        if i.get('t') and i['t'].rstrip().endswith('&'):
                            r = self.ref(e)
                            self.write(sub, ptr(r))
                            continue
                        self.init_at(sub, e, i['t'])
                    elif 'base' in i:
                        e = i['e']
                        self.init_base(lv, e, i['base'], fr, bound)
            self.exec(f['b'])
        except Dead:
            if not fr.rets:
                self.leave()
                raise
            self.st = None
        if fr.rets:
            self.st = self.join([r[0] for r in fr.rets] + ([self.st] if self.st else []), fr.base_pc)
        self.leave()

    def init_base(self, lv, e, base, fr, bound):
        bt = X.strip_type(base)
        if e['k'] == 'inhctor':
            g = self.db.find(e['f'], fr.tu)
            if g is None:
                return
            self._base_run(g, lv, bound)
            return
        if e['k'] == 'ctor':
            g = self.db.find(e['f'], fr.tu)
            if g is not None:
                args = [self.bind_param(p, a) for p, a in zip(g['p'], e['a'])]
                self._base_run(g, lv, args)
                return
            if bt in self.db.records:
                if e.get('copy'):
                    v = self.ev(e['a'][0])
                    cur = self.read(lv)
                    for f in self.allfields(bt):
                        cur = self.setf(cur, f['n'], X.fld(v, f['n']))
                    self._write(lv.root, lv.path, cur)
                    return
                v = self.dinit(bt)
                cur = self.read(lv)
                for f in self.allfields(bt):
                    cur = self.setf(cur, f['n'], X.fld(v, f['n']))
                self._write(lv.root, lv.path, cur)

    def _base_run(self, g, lv, bound):
        tmp = LV(self.newroot('temp', 'base', g['c']))
        self.ctor_body(g, tmp, bound)
        v = self.load_root(tmp.root)
        cur = self.read(lv)
        for f in self.allfields(g['c']):
            cur = self.setf(cur, f['n'], X.fld(v, f['n']))
        self._write(lv.root, lv.path, cur)

    def e_ctor(self, e):
        t = X.strip_type(e['t'])
        if e.get('copy'):
            if e.get('up') and self.db.find(e['f'], self.frames[-1].tu):
                lv = LV(self.newroot('temp', 'tmp', t))
                self.construct_at(lv, e)
                return self.read(lv)
            a = e['a'][0]
            v = self.ev(a)
            if e.get('mv') and cat_of(t) in ('vector', 'string', 'map', 'smart'):
                pass
            return self.M.copy_value(self, v, t)
        lv = LV(self.newroot('temp', 'tmp', t))
        if self.construct_at(lv, e):
            return self.read(lv)
        if t in self.db.records and not e['a']:
            return self.dinit(t, explicit=True, zero=bool(e.get('zi')))
        return self.M.construct(self, e, t)

    # ------------------------------------------------------------ calls
    def enter(self, f, this):
        if len(self.frames) > MAXDEPTH:
            raise Unsupported('call depth')
        fr = Frame(f, f.get('tu', self.frames[-1].tu if self.frames else None), this)
        fr.base_pc = self.st.pc
        fr.save = (self.file, self.line)
        fr.retref = (f.get('ret') or '').rstrip().endswith('&') and not (f.get('ret') or '').rstrip().endswith('&&')
        self.file = f.get('file', self.file)
        self.frames.append(fr)
        self.scopes.append([])
        if 'f' in f:
            self.visited.add(f['f'])
        return fr

    def leave(self):
        fr = self.frames.pop()
        for r in self.scopes.pop():
            self.dead_roots.setdefault(r, self.seq)
        self.file, self.line = fr.save

    def bind_param(self, p, argnode):
        ty = p['t'].rstrip()
        if ty.endswith('&'):
            return self.ref(argnode)
        if cat_of(ty) == 'map_eigen':
            lv = self.M.map_view(self, argnode, ty)
            if lv is not None:
                return lv
        root = self.newroot('local', p['n'] or 'arg', ty)
        lv = LV(root)
        if argnode['k'] == 'ctor' and not argnode.get('copy'):
            self.st.store[root] = UNDEF
            self.init_at(lv, argnode, ty)
        else:
            v = self.ev(argnode)
            self.st.store[root] = self.M.convert(self, v, argnode, ty)
        return lv

    def bind_param_ref(self, p, lv):
        """bind a parameter to an already evaluated location"""
        ty = p['t'].rstrip()
        if ty.endswith('&'):
            return lv
        root = self.newroot('local', p['n'] or 'arg', ty)
        self.st.store[root] = self.M.convert(self, self.read(lv, X.strip_type(ty)), None, ty)
        return LV(root)

    def run_function(self, f, this, bound):
        """inline a function with bound parameter locations; returns value term or LV for references"""
        if sum(1 for x in self.frames if x.fn is f) > 3:
            raise Unsupported('recursion in ' + f['n'])
        fr = self.enter(f, this)
        for p, b in zip(f['p'], bound):
            fr.env[p['id']] = b
            if not p['t'].rstrip().endswith('&') and isinstance(b, LV) and not b.path:
                self.scopes[-1].append(b.root)
        try:
            self.exec(f['b'])
        except Dead:
            self.st = None
        except Exception:
            self.leave()
            raise
        return self.finish_call(fr)

    def finish_call(self, fr):
        rets = fr.rets
        base = fr.base_pc
        if self.st is not None:
            rets = rets + [(self.st, None, 0)]
        retref = fr.retref
        self.leave()
        if not rets:
            self.st = None
            raise Dead()
        sts = [r[0] for r in rets]
        if len(rets) == 1:
            self.st = sts[0]
            v = rets[0][1]
            n = len(base)
            # conditions under which it returned stay on the path
        else:
            rels = [self.rel(s, base) for s in sts]
            v = rets[-1][1]
            for r, c in reversed(list(zip(rets[:-1], rels[:-1]))):
                if r[1] is None or v is None:
                    v = v if r[1] is None else r[1]
                else:
                    v = X.ite(c, r[1], v)
            self.st = self.join(sts, base)
            n = len(base)
            if len(self.st.pc) > n:
                # only exceptions can keep a call from returning
                self.st.pc = self.st.pc[:n] + ((X.and_(*[c for c, k in self.st.pc[n:]]), 'nothrow'),)
        if len(rets) == 1:
            self.st.pc = self.st.pc[:len(base)] + tuple((c, 'nothrow') for c, k in self.st.pc[len(base):])
        if v is None:
            return UNDEF
        if retref:
            return self.deref(v)
        return v

    def call_closure(self, c, argrefs):
        """call a closure / function value with argument locations"""
        if c.op == 'ite':
            return self.branch(c.args[0], lambda: self.val(self.call_closure(c.args[1], argrefs)),
                               lambda: self.val(self.call_closure(c.args[2], argrefs)))
        if c.op == 'fn':
            f = self.db.find(c.args[0], self.frames[-1].tu)
            if f is None:
                return self.M.ucall(self, c.args[1], [self.read(a) for a in argrefs])
            bound = [self.bind_param_ref(p, a) for p, a in zip(f['p'], argrefs)]
            return self.run_function(f, None, bound)
        info = self.closures.get(c)
        if info is None:
            return self.M.ucall(self, 'closure', [c] + [self.read(a) for a in argrefs])
        bodies = info['node']['bodies']
        b = bodies[0]
        for x in bodies:
            if len(x['p']) == len(argrefs):
                b = x
                break
        fn = dict(b)
        fn['n'] = info['fn'].get('n', '?') + '::lambda'
        fn['file'] = info['fn'].get('file', self.file)
        fn['tu'] = info['tu']
        bound = [self.bind_param_ref(p, a) for p, a in zip(fn['p'], argrefs)]
        fr = self.enter(fn, info['this'])
        fr.env.update(info['env'])
        for p, bb in zip(fn['p'], bound):
            fr.env[p['id']] = bb
        try:
            self.exec(fn['b'])
        except Dead:
            self.st = None
        except Exception:
            self.leave()
            raise
        return self.finish_call(fr)

    def val(self, r, ty=None):
        if isinstance(r, LV):
            return self.read(r, ty)
        return r

    def note_outs(self, e):
        """images handed to a library call as output, and pixels assigned through a reference"""
        if e.get('op') and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.note_pixel(e.get('o') or (e['a'][0] if e.get('a') else None))
        n = e.get('n') or ''
        if n.startswith('cv::operator') and n[-1] == '=' and n[12:] not in ('==', '!=', '<=', '>=') and e.get('a') and \
                cat_of(X.strip_type(e['a'][0].get('t', ''))) == 'cvmat':
            self.event('cvout', call=n, handle=self.ev(e['a'][0]), inout=True, index=0, lits={}, src=None)
        if not n.startswith('cv::') or n.split('::')[-1] == 'copyTo':
            return
        for i, a in enumerate(e.get('a') or ()):
            if a.get('k') == 'ctor' and 'OutputArray' in a.get('t', '') and len(a['a']) == 1:
                x = a['a'][0]
                if cat_of(X.strip_type(x.get('t', ''))) != 'cvmat' or x.get('k') == 'ctor':
                    continue
                lits = {}
                for j, b in enumerate(e['a']):
                    if b.get('k') == 'lit':
                        lits[j] = b.get('v')
                    elif b.get('k') != 'ctor' and X.is_int_type(X.strip_type(b.get('t', ''))):
                        try:
                            v = self.ev(b)
                            lits[j] = X.show(v)
                        except Unsupported:
                            pass
                src = None
                if 'o' in e and cat_of(X.strip_type(e['o'].get('t', ''))) == 'cvmat':
                    src = self.ev(e['o'])
                self.event('cvout', call=n, handle=self.ev(x), inout='_InputOutputArray' in a['t'], index=i, lits=lits, src=src)

    def note_pixel(self, a):
        """assignment below cv::Mat::at / cv::Mat::ptr"""
        while isinstance(a, dict):
            if a.get('k') == 'call' and a.get('n') in ('cv::Mat::at', 'cv::Mat::ptr') and 'o' in a:
                self.event('cvout', call=a['n'] + ' =', handle=self.ev(a['o']), inout=True, index=-1, lits={}, src=None)
                return
            k = a.get('k')
            if k == 'call' and a.get('op') in ('[]', '()', '*'):
                a = a.get('o') or (a['a'][0] if a.get('a') else None)
            elif k in ('cast', 'un', 'paren', 'tmp'):
                a = a.get('a')
            elif k in ('idx', 'index', 'sub'):
                a = a.get('a') or a.get('b')
            elif k in ('mem', 'member', 'fld'):
                a = a.get('a') or a.get('o')
            else:
                return

    def e_call(self, e):
        n = e.get('n')
        self.note_outs(e)
        h = self.intercept.get(n)
        if h is not None:
            r = h(self, e)
            if r is not None:
                return r
        if 'f' not in e:
            # call through a function pointer / closure value
            c = self.ev(e['callee'])
            args = [self.ref(a) for a in e['a']]
            return self.call_closure(c, args)
        if e.get('c', '').startswith('lambda#'):
            c = self.ev(e['o'])
            args = [self.ref(a) for a in e['a']]
            return self.call_closure(c, args)
        tu = self.frames[-1].tu
        f = self.db.find(e['f'], tu)
        this = None
        if 'o' in e:
            f2, this = self.dispatch(e, f)
            f = f2
        if f is not None and f.get('b') is not None and not self.M.overrides(e):
            if f.get('defaulted') and e.get('op') == '=':
                v = self.ev(e['a'][0])
                self.write(this, v)
                return this
            bound = []
            nm = e['a']
            for p, a in zip(f['p'], nm):
                bound.append(self.bind_param(p, a))
            if f.get('c') and not f.get('sm') and this is None:
                raise Unsupported('no object')
            return self.run_function(f, this, bound)
        return self.M.call(self, e, this)

    def dispatch(self, e, f):
        """object location and the most specific override that can be determined"""
        if e.get('ar'):
            p = self.smart(self.ev(e['o']))
            this = self.deref(p)
        else:
            this = self.ref(e['o'])
        if e.get('virt'):
            info = self.rootinfo.get(this.root)
            cls = None
            if info is not None and not this.path:
                cls = info.get('cls') or (info['type'] if info['kind'] in ('heap', 'local', 'temp') else None)
            if cls is None and self.frames[-1].this is not None and info is not None:
                cls = None
            if cls:
                cls = X.strip_type(cls)
                g = self.find_override(cls, e['f'])
                if g is not None:
                    f = g
        return f, this

    def find_override(self, cls, fid):
        cur = cls
        seen = set()
        while cur and cur not in seen:
            seen.add(cur)
            for o in self.db.overriders.get(fid, []):
                if X.strip_type(o.get('c', '')) == cur:
                    return o
            g = self.db.funcs.get(fid)
            if g is not None and X.strip_type(g.get('c', '')) == cur:
                return g
            r = self.rec(cur)
            cur = X.strip_type(r['bases'][0]) if r and r['bases'] else None
        return None

    # ------------------------------------------------------------ entry
    def run(self, f, args=None, this=None, this_type=None):
        """analyse function f with symbolic (or given) arguments. Returns (value, final state or None)"""
        self.file = f['file']
        self.frames.append(Frame({'n': '<entry>', 'ret': None}, f['tu']))
        self.scopes.append([])
        bound = []
        self.params = {}
        for i, p in enumerate(f['p']):
            given = args[i] if args and i < len(args) else None
            ty = p['t'].rstrip()
            name = p['n'] or 'arg%d' % i
            if isinstance(given, LV):
                bound.append(given)
                self.params[name] = given
                continue
            if given is not None:
                t = given
            else:
                t = mk('in', name)
                TY[t] = X.strip_type(ty)
            root = 'in:' + name
            self.rootinfo[root] = dict(kind='param', name=name, type=ty, n=0, line=f['l'], file=f['file'], loops=())
            self.defaults[root] = t
            if ty.endswith('*') or ty.endswith('*const') or cat_of(ty) == 'ptr':
                if given is None:
                    t2 = mk('ptr', 'mem:' + name, (('i', ZERO),))
                    arr = mk('in', '*' + name)
                    et = ty
                    self.defaults['mem:' + name] = arr
                    self.rootinfo['mem:' + name] = dict(kind='param', name=name, type=None, n=0, line=0, file='',
                                                        loops=())
                    self.defaults[root] = t2
            bound.append(LV(root))
            self.params[name] = LV(root)
        if this is None and f.get('c') and not f.get('sm'):
            t = mk('in', 'this')
            TY[t] = X.strip_type(f['c'])
            self.defaults['in:this'] = t
            self.rootinfo['in:this'] = dict(kind='param', name='this', type=f['c'], n=0, line=0, file='', loops=(),
                                            cls=this_type)
            this = LV('in:this')
        try:
            if f.get('ctor'):
                r = self.newroot('heap', 'self', f['c'])
                self.rootinfo[r]['cls'] = f['c']
                lv = LV(r)
                self.ctor_body(f, lv, bound)
                return self.load_root(r), self.st
            v = self.run_function(f, this, bound)
            if isinstance(v, LV):
                self.retlv = v
                v = self.read(v)
            return v, self.st
        except Dead:
            return None, None


# --------------------------------------------------------------------------- helpers
def _has_jump(node):
    if isinstance(node, dict):
        if node.get('k') in ('ret', 'break', 'continue'):
            return True
        if node.get('k') == 'lambda':
            return False
        return any(_has_jump(v) for v in node.values())
    if isinstance(node, list):
        return any(_has_jump(v) for v in node)
    return False


def _phi_atom(phi):
    if phi.op == 'ptr':
        return phi.args[1][-1][1]
    return phi


def _phi_init(I):
    if I.op == 'ptr':
        return I.args[1][-1][1]
    return I


def _at(I, step, k):
    d = X.mul(num(step), k)
    if I.op == 'ptr':
        return mk('ptr', I.args[0], I.args[1][:-1] + (('i', X.add(I.args[1][-1][1], d)),))
    return X.add(I, d)


def _merge_locs(a, b):
    s = set(a) | set(b)
    out = set()
    for (r, p) in s:
        if any(r == r2 and len(p2) < len(p) and p[:len(p2)] == p2 for (r2, p2) in s):
            continue
        out.add((r, p))
    return out


def idiv(a, b):
    x, y = X.numval(a), X.numval(b)
    if x is not None and y:
        q = x / y
        return num(int(q))
    if y == 1:
        return a
    if y is not None and y > 0:
        # (b*E + r) / b with every non-constant coefficient divisible
        p = X.as_poly(a)
        c = p.get((), Fraction(0))
        rest = {m: v for m, v in p.items() if m != ()}
        if rest and all((v / y).denominator == 1 for v in rest.values()) and 0 <= c < y:
            return X.from_poly({m: v / y for m, v in rest.items()})
    return mk('idiv', a, b)


def imod(a, b):
    x, y = X.intval(a), X.intval(b)
    if x is not None and y:
        return num(x - y * int(Fraction(x, y)))
    if y == 1:
        return ZERO
    if y is not None and y > 0:
        p = X.as_poly(a)
        c = p.get((), Fraction(0))
        rest = {m: v for m, v in p.items() if m != ()}
        if rest and all((v / y).denominator == 1 for v in rest.values()) and 0 <= c < y:
            return num(c)
    return mk('mod', a, b)


def exists(n, k, g):
    if g is FALSE:
        return FALSE
    ni = X.intval(n)
    if ni is not None and ni <= UNROLL:
        return X.or_(*[X.subst(g, {k: num(i)}) for i in range(ni)])
    if k not in g.free:
        return X.and_(X.pos(n), g)
    if g.op == 'or':
        return X.or_(*[exists(n, k, x) for x in g.args])
    if g.op == 'and':
        out = [x for x in g.args if k not in x.free]
        if out:
            return X.and_(*out, exists(n, k, X.and_(*[x for x in g.args if k in x.free])))
    return X.bind('exists', k, n, g)


X.REBUILD['bind:exists'] = lambda n, k, g: exists(n, k, g)


def fold(at, k, phi, I, N):
    u = X.fresh_k('f')
    N2 = X.subst(N, {phi: u})
    lvl, (b,) = X.close(u, N2)
    body = mk('lam', b, lvl)
    return X.bind('fold', k, at, body, I)


def genseq(n, k, d):
    """concatenation over k of the sequence d(k)"""
    if d.op == 'list' and len(d.args) == 1:
        return X.gen(n, k, d.args[0])
    if d.op == 'gseq':   # guarded: gseq(guard, seq)
        g, s = d.args
        if s.op == 'list' and len(s.args) == 1:
            return X.gen(n, k, s.args[0], g)
        return X.gen(n, k, mk('chunk', s), g)
    if d.op == 'list' and not d.args:
        return mk('list')
    return X.gen(n, k, mk('chunk', d))


def append_delta(N, phi):
    """sequence appended to phi, or None"""
    if N is phi:
        return mk('list')
    if N.op == 'cat' and N.args[0] is phi:
        return X.cat(*N.args[1:])
    if N.op == 'ite':
        a = append_delta(N.args[1], phi)
        b = append_delta(N.args[2], phi)
        if a is None or b is None or (a.op == 'list' and not a.args and b.op == 'list' and not b.args):
            return None
        c = N.args[0]
        if b.op == 'list' and not b.args:
            if a.op == 'gseq':
                return mk('gseq', X.and_(c, a.args[0]), a.args[1])
            return mk('gseq', c, a)
        if a.op == 'list' and not a.args:
            if b.op == 'gseq':
                return mk('gseq', X.and_(X.not_(c), b.args[0]), b.args[1])
            return mk('gseq', X.not_(c), b)
        if a.op == 'list' and b.op == 'list' and len(a.args) == len(b.args):
            return mk('list', *[X.ite(c, x, y) for x, y in zip(a.args, b.args)])
        return X.ite(c, a, b)
    return None


def str_delta(N, phi):
    if N is phi:
        return X.strlit('')
    if N.op == 'scat' and N.args[0] is phi:
        return X.strcat(*N.args[1:])
    if N.op == 'ite':
        a = str_delta(N.args[1], phi)
        b = str_delta(N.args[2], phi)
        if a is None or b is None or (a is b):
            return None
        return X.ite(N.args[0], a, b)
    return None


def num_delta(N, phi):
    if N is phi:
        return ZERO
    if N.op == 'poly':
        d = dict(N.args[0])
        c = d.pop(((phi, 1),), None)
        if c != 1:
            return None
        r = X.from_poly(d)
        return None if phi in r.free else r
    if N.op == 'ite' and phi not in N.args[0].free:
        a = num_delta(N.args[1], phi)
        b = num_delta(N.args[2], phi)
        if a is None or b is None:
            return None
        return X.ite(N.args[0], a, b)
    return None


def vec_delta(N, phi):
    if N.op == 'vadd' and phi in N.args:
        r = [x for x in N.args if x is not phi]
        if any(phi in x.free for x in r):
            return None
        return r[0] if len(r) == 1 else mk('vadd', *r)
    return None


def bool_delta(N, phi):
    if N.op == 'or' and phi in N.args:
        r = X.or_(*[x for x in N.args if x is not phi])
        return ('or', r) if phi not in r.free else None
    if N.op == 'and' and phi in N.args:
        r = X.and_(*[x for x in N.args if x is not phi])
        return ('and', r) if phi not in r.free else None
    return None


def max_delta(N, phi):
    if N.op != 'ite':
        return None
    c, a, b = N.args
    if b is phi and phi not in a.free:
        if c is X.lt(phi, a) or c is X.le(phi, a):
            return ('maxall', a)
        if c is X.lt(a, phi) or c is X.le(a, phi):
            return ('minall', a)
    if a is phi and phi not in b.free:
        if c is X.lt(phi, b) or c is X.le(phi, b):
            return ('minall', b)
        if c is X.lt(b, phi) or c is X.le(b, phi):
            return ('maxall', b)
    return None


X.BINDERS.update({'vsum', 'lprodall', 'lastif', 'rowgen', 'exists'})


def mat_rows(I):
    if I.op == 'dynmat':
        return I.args[0]
    if I.op == 'mat':
        return num(I.args[0])
    return mk('rows', I)


def scatter_of(N, phi):
    """updates [(guard, index, value)] if N is phi with element updates"""
    if N is phi:
        return []
    if N.op == 'arr' and N.args[0] is phi:
        return [(TRUE, j, v) for j, v in N.args[1]]
    if N.op == 'ite':
        a = scatter_of(N.args[1], phi)
        b = scatter_of(N.args[2], phi)
        if a is None or b is None:
            return None
        c = N.args[0]
        if len(a) == 1 and len(b) == 1 and a[0][1] is b[0][1]:
            if a[0][0] is TRUE and b[0][0] is TRUE:
                return [(TRUE, a[0][1], X.ite(c, a[0][2], b[0][2]))]
            ga, gb = X.and_(c, a[0][0]), X.and_(X.not_(c), b[0][0])
            return [(X.or_(ga, gb), a[0][1], X.ite(c, a[0][2], b[0][2]))]
        return [(X.and_(c, g), j, v) for g, j, v in a] + [(X.and_(X.not_(c), g), j, v) for g, j, v in b]
    return None
