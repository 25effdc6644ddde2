"""C08-C10: which covariance is asked for, how it is labelled, and how it is normalised and reported."""
import math
import re
from . import common as C
from . import harness as H
from . import solvers as S
from .common import R, X, IT, Broken

mk, num = X.mk, X.num
TWOPI = 2 * math.pi


def attached(r):
    """covariance events whose result is the covariance of the returned result"""
    t = X.fld(r.value, 'covariance')
    ids = [x.args[0] for x in X.subterms(t) if x.op == 'covres']
    return [e for e in r.covs if any(X.intval(i) == e.nev for i in ids)], t


def registered(r, V, which='exit'):
    """block key -> (values at exit, declared size, locations) of every registered block of the main problem"""
    out = {}
    s = r.main
    for ev in r.residuals:
        for asg in S.if_instances(V, ev):
            V.memo = {}
            for i, b in enumerate(ev.blocks):
                k = V.canon(V.eval(b))
                if k in out:
                    continue
                st = s.exit_store if which == 'exit' else s.entry_store
                v = V.eval(r.block_value(b, st))
                out[k] = (v, ev.dims[1][i] if ev.dims else None, C.loc(ev))
    return out


ROT = re.compile(r'^(r|q|a|w|aa|rot|angle|axis|angle_axis|angleaxis|rotation|orientation)_?([xyz])$')
TRA = re.compile(r'^(t|p|pos|position|trans|translation)?_?([xyz])$')


class Want:
    """candidate meanings of a parameter: (text, value test, label test)"""

    def __init__(self, what, test, label):
        self.what, self.test, self.label = what, test, label


def iso_wants(V, prefix, iso, what, idx=None):
    out = []

    def pre(lab):
        if not lab.startswith(prefix):
            return None
        rest = lab[len(prefix):].lstrip('_ -')
        if idx is not None:
            m = re.match(r'(\d+)', rest)
            if not m or int(m.group(1)) != idx:
                return None
            rest = rest[m.end():]
        return rest.lstrip('_ -')

    for T in (iso, S.inv(iso)):
        v = R.logR(T.R)
        th = math.sqrt(sum(x * x for x in v))
        for i, ch in enumerate('xyz'):
            alts = [v[i]] + ([v[i] * (1 + s * TWOPI / th) for s in (-1, 1)] if th > 1e-9 else [])
            out.append(Want('%s rotation %s' % (what, ch), lambda x, alts=alts: any(V.same(x, a) for a in alts),
                            lambda lab, ch=ch: _suffix(ROT, pre(lab), ch)))
            out.append(Want('%s translation %s' % (what, ch), lambda x, t=T.t[i]: V.same(x, t),
                            lambda lab, ch=ch: _suffix(TRA, pre(lab), ch)))
    return out


def _suffix(rx, rest, ch):
    m = rx.match(rest) if rest is not None else None
    return bool(m and m.group(2) == ch)


def wants(r, V, A, B):
    s = r.spec
    out = []
    if s.key == 'intrinsic':
        for n, v in list(zip(('fx', 'fy', 'cx', 'cy'), B.intr('intrinsics'))) + \
                list(zip(('k1', 'k2', 'p1', 'p2', 'k3'), B.vec(5, 'distortions'))):
            out.append(Want(n, lambda x, v=v: V.same(x, v), lambda lab, n=n: lab.split('_')[-1] == n))
        for i in range(B.n('target_transforms')):
            out += iso_wants(V, 'pose', B.iso('target_transforms', i), 'pose %d' % i, i)
    elif s.key == 'circle':
        for n, f in (('x', 'x_center'), ('y', 'y_center')):
            out.append(Want(n, lambda x, v=B.num(f): V.same(x, v), lambda lab, n=n: lab == n))
        rad = B.num('radius')
        out.append(Want('radius', lambda x: V.same(x, rad) or V.same(x * x, rad), lambda lab: lab[:1] == 'r'))
    else:
        for n, g in s.est.items():
            if g.endswith('[]'):
                for i in range(B.n(n)):
                    out += iso_wants(V, n, B.iso(n, i), '%s[%d]' % (n, i), i)
            else:
                out += iso_wants(V, n, B.iso(n), n)
    return out


def defaults_hook(c, r, db):
    d = C.string_defaults(db, X.strip_type(r.f['p'][0]['t']), S.P)
    sp = r.spec.rspec()
    base = sp.values

    def values(V, k):
        if k in d:
            return d[k]
        return base(V, k) if base else None

    def sizes(V, k):
        return d.get(k + '#n')
    sp.values, sp.sizes = values, sizes
    return sp


def c08(c):
    c.explain = ('Every covariance computed for a result: the label map is evaluated as a value term (default label '
                 'initialisers included), and each label must name the quantity that sits at the same position of the '
                 'registered parameter block, identified by value against the returned result.')
    db = C.dbm.get('opt')
    for r in S.each(c, db):
        if not r.spec.cov:
            continue
        cov, t = attached(r)
        if not cov:
            # nothing opaque in the value and no covariance requested anywhere: the member is returned as constructed
            never = not r.covs and not any(x.op in ('ucall', 'lib', 'out', 'after', 'trip', 'in') for x in X.subterms(t))
            (c.bad if t.op == 'undef' or (t.op == 'fld' and not r.covs) or never else c.unres)(
                'attached', r.where, 'result.covariance is not the covariance computed for the problem (%s)' % X.show(t)[:120])
            continue
        for ev in cov:
            labels(c, r, ev, db)
    c.minimum = 30


def cov_args(V, ev):
    """(block keys or None, label map entries, masks, options)"""
    a = list(ev.args[1:])
    vs = [V.eval(x) for x in a]
    blocks = None
    if isinstance(vs[0], list):
        blocks = [V.canon(x) for x in vs[0]]
        vs = vs[1:]
    return blocks, vs[0], vs[1:]


def labels(c, r, ev, db):
    sp = defaults_hook(c, r, db)
    old = r.spec.rspec
    r.spec.rspec = lambda lo=None: sp
    try:
        for seed, res in S.runs_over(r, S.nvals(c), lambda V, A: label_items(r, V, A, ev)):
            w = '%s:%s' % (r.where, ev.line)
            if isinstance(res, Exception):
                c.unres('labels', w, str(res))
                continue
            for st, rule, text, wit in res:
                if st == 'ok':
                    c.ok(rule, w, text)
                elif st == 'bad':
                    c.bad(rule, w, text, dict(valuation=seed, **(wit or {})))
                else:
                    c.unres(rule, w, text)
    finally:
        r.spec.rspec = old


def label_items(r, V, A, ev):
    out = []
    reg = registered(r, V)
    V.memo = {}
    blocks, names, _ = cov_args(V, ev)
    if not isinstance(names, R.MapV) or names.base is not None:
        raise R.NoEval('label map not known')
    B = S.Acc(V, V.eval(r.value))
    W = wants(r, V, A, B)
    keys = {V.canon(k): v for k, (kk, v) in names.d.items() for k in [kk]}
    if not reg:
        return out
    for b in (blocks if blocks is not None else sorted(reg)):
        if b not in reg:
            continue    # e.g. a camera without observations: the request raises CovarianceException (C10)
        val, dim, where = reg[b]
        vals = V.seq(val)
        dim = dim if dim is not None else len(vals)
        vals = [V.num(x) for x in vals[:dim]]
        if b not in keys:
            out.append(('bad', 'pairing', 'the parameter block %s has no labels' % pretty(b), None))
            continue
        labs = [V.tostr(x) if not isinstance(x, str) else x for x in V.seq(keys[b])]
        if len(labs) != dim:
            out.append(('bad', 'length', 'block %s has %d parameters but %d labels' % (pretty(b), dim, len(labs)), None))
            continue
        for j, (x, lab) in enumerate(zip(vals, labs)):
            m = [w for w in W if w.test(x)]
            if not m:
                out.append(('unres', 'meaning', 'parameter %d of %s is not part of the result' % (j, pretty(b)), None))
            elif any(w.label(lab) for w in m):
                out.append(('ok', 'label', '%s[%d] labelled %s is %s' % (pretty(b), j, lab, m[0].what), None))
            else:
                out.append(('bad', 'label', 'parameter %d of block %s is the %s but is labelled "%s"' %
                            (j, pretty(b), m[0].what, lab), None))
    return out


def pretty(b):
    return re.sub(r'#\d+', '', b.replace('ptr:', ''))


# --------------------------------------------------------------------------- covariance_analysis
UC = re.compile(r'^u?call\((?:ceres::)?(?:Problem|Covariance|ceres::Problem|ceres::Covariance)::(\w+),')


def last_arg(k):
    """last argument of a key 'f(a,b,c)'"""
    depth, cut = 0, None
    body = k[:-1]
    for i in range(len(body) - 1, -1, -1):
        ch = body[i]
        if ch in ')]}':
            depth += 1
        elif ch in '([{':
            if depth == 0:
                cut = i
                break
            depth -= 1
        elif ch == ',' and depth == 0:
            cut = i
            break
    return body[cut + 1:]


class CovSpec(R.Spec):
    """domain of the covariance functions: block sizes, label lists, masks, solver answers, symmetric matrices"""

    def __init__(self, blocks='parameter_blocks', names='param_names', masks='param_masks', matrix=None, faults=True):
        super().__init__(values=self._values, sizes=self._sizes, lo=0, hi=2)
        self.b, self.nm, self.mk_, self.matrix, self.faults = blocks, names, masks, matrix, faults

    def bsize(self, V, b):
        return V.spec.integer(V, 'bs|' + b, 1, 3)

    def fault(self, V, k, p=0.12):
        return self.faults and V.h('fault|' + k) < p

    def _values(self, V, k):
        m = UC.match(k)
        if m:
            n = m.group(1)
            if n == 'ParameterBlockSize':
                return self.bsize(V, last_arg(k))
            if n == 'HasParameterBlock':
                return not self.fault(V, 'has' + last_arg(k))
            if n == 'Compute' or n == 'GetCovarianceMatrix':
                return not self.fault(V, n)
            if n == 'NumParameterBlocks':
                return None
        if k.endswith(']'):
            m = re.search(r'\[(\d+),(\d+)\]$', k)
            if m and (k.startswith('out(ceres::Covariance::GetCovarianceMatrix') or
                      self.matrix and k[:m.start()] == self.matrix):
                return self.entry(V, k[:m.start()][:40], int(m.group(1)), int(m.group(2)))
            if k.startswith(self.mk_ + '['):
                return V.spec.integer(V, 'mask|' + k, 0, 4)
        return None

    def matrix_dim(self, V, k):
        n = V.spec.integer(V, 'dim|' + k[:-5], 0, 4)
        return n + 1 if k.endswith('.cols') and self.fault(V, 'square', 0.25) else n

    def entry(self, V, key, i, j):
        def var(i):
            u = V.h('var|%d' % i)
            return 0.0 if u < 0.15 else 0.2 + 5 * u
        if i == j:
            return var(i)
        if var(i) == 0 or var(j) == 0:
            return 0.0
        i, j = min(i, j), max(i, j)
        return (2 * V.h('rho|%d|%d' % (i, j)) - 1) * math.sqrt(var(i) * var(j))

    def _sizes(self, V, k):
        if self.matrix and k in (self.matrix + '.rows', self.matrix + '.cols'):
            return self.matrix_dim(V, k)
        if k == self.nm:
            n = V.spec.size(V, self.b)
            return n + 1 if self.fault(V, 'nnames') else n
        if k.startswith(self.nm + '[') and k.endswith(']'):
            n = self.bsize(V, k[len(self.nm) + 1:-1])
            return n + 1 if self.fault(V, 'nlab' + k, 0.1) else n
        return None

    def has(self, V, m, k):
        if m.key == self.nm:
            return not self.fault(V, 'hasname' + V.canon(k))
        return super().has(V, m, k)


def thrown(V, throws):
    """types thrown under this valuation"""
    out = []
    for st, ty, loc in throws:
        if all(V.bool(V.eval(c)) for c, k in st.pc):
            out.append(str(ty).split('::')[-1])
    return out


def want_matrix(V, sp, n, at):
    """(covariance matrix, correlation matrix) of the entries at(i,j)"""
    cov = [[at(i, j) for j in range(n)] for i in range(n)]
    cor = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                cor[i][j] = math.sqrt(cov[i][i])
            else:
                s = math.sqrt(cov[i][i]) * math.sqrt(cov[j][j])
                cor[i][j] = cov[i][j] / s if s > 0 else 0.0
    return cov, cor


def mat_of(V, v, n):
    if n == 0:
        return []
    return [[V.num(V.sel(v, (i, j))) for j in range(n)] for i in range(n)]


def close(a, b):
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


def result_diff(V, res, cov, cor, names, part):
    """first difference between a CovarianceResult value and the expected one"""
    n = len(cov)
    f = lambda x: V.fld(res, x)
    if 'matrix' in part:
        for what, fld, want in (('covariance_matrix', 'covariance_matrix', cov), ('correlation_matrix', 'correlation_matrix', cor)):
            got = mat_of(V, f(fld), n)
            for i in range(n):
                for j in range(n):
                    if not close(got[i][j], want[i][j]):
                        return '%s(%d,%d) is %.6g, expected %.6g' % (what, i, j, got[i][j], want[i][j])
    if 'named' in part:
        def entries(fld):
            out = []
            for p in V.seq(f(fld)):
                nm = V.fld(p, 'names')
                a, b = (nm[0], nm[1]) if isinstance(nm, (list, tuple)) else (V.fld(nm, 'first'), V.fld(nm, 'second'))
                out.append((tuple(sorted((V.tostr(a), V.tostr(b)))), V.num(V.fld(p, 'value'))))
            return sorted(out)
        ws = sorted((tuple(sorted((names[i], ''))), cor[i][i]) for i in range(n))
        wc = sorted((tuple(sorted((names[i], names[j]))), cor[i][j]) for i in range(n) for j in range(i + 1, n))
        wv = sorted((tuple(sorted((names[i], names[j]))), cov[i][j]) for i in range(n) for j in range(i + 1, n))
        for fld, w in (('standard_deviations', ws), ('correlation_coeffs', wc), ('covariances', wv)):
            g = entries(fld)
            if len(g) != len(w):
                return '%s has %d entries, expected %d' % (fld, len(g), len(w))
            for x, y in zip(g, w):
                if x[0] != y[0]:
                    return '%s names %s where %s is expected' % (fld, x[0], y[0])
                if not close(x[1], y[1]):
                    return '%s of %s is %.6g, expected %.6g' % (fld, x[0], x[1], y[1])
    return None


_cf = {}


def cov_functions(c):
    """analysed covariance functions: (kind, f, I, value)"""
    if 'x' in _cf:
        fs = _cf['x']
    else:
        db = C.dbm.get('opt')
        fs = []
        for n in ('computeCorrelationsFromCovariance', 'computeCovarianceResults', 'computeCovariance'):
            l = db.named('rct_optimizations::' + n)
            if not l:
                if n == 'computeCovariance':
                    raise C.Missing('computeCovariance not found')
                continue
            for f in l:
                I = IT.Interp(db)
                try:
                    v, st = I.run(f, args=[C.typed(arg_name(i, p), X.strip_type(p['t'])) for i, p in enumerate(f['p'])])
                except IT.Unsupported as e:
                    v, st = e, None
                fs.append((n, f, I, v))
        _cf['x'] = fs
    for n, f, I, v in fs:
        c.analysed(f)
        for u in I.visited:
            c.analysed(u)
    return fs


def arg_name(i, p):
    t = p['t']
    if 'Problem' in t:
        return 'problem'
    if 'Options' in t:
        return 'options'
    if 'Matrix' in t:
        return 'M'
    if 'map<' in t:
        return 'param_masks' if 'vector<int' in t else 'param_names'
    if 'vector<' in t and 'double' in t:
        return 'parameter_blocks'
    if 'basic_string' in t:
        return 'parameter_names'
    return p['n'] or 'a%d' % i


def out_cov(v):
    return [x for x in X.subterms(v) if x.op == 'out' and x.args[0] == 'ceres::Covariance::GetCovarianceMatrix']


def near_seeds(I, v, m):
    """valuations with sizes near the whole numbers the code compares with"""
    ks = [k for k in R.compared([v] + [p for t in I.throws for p, _ in t[0].pc]) if 3 <= k <= 40 and k == int(k)]
    return [(k, '%d~%d' % (s, k)) for k in ks[:3] for s in range(m)]


def scenario(c, n, f, I, v, seed, faults, near=None):
    """(expected failure?, thrown types, difference or None) of one valuation"""
    pn = [arg_name(i, p) for i, p in enumerate(f['p'])]
    if n != 'computeCovariance':
        sp = CovSpec(matrix='M', faults=faults)
        sp.near = near
        if n == 'computeCovarianceResults':
            sp.sizes = lambda V, k: sp.matrix_dim(V, 'M.rows') if k == 'parameter_names' else sp._sizes(V, k)

        def one():
            V = R.Valuation('c%s' % seed, sp)
            if H.PROBE is not None:
                return H.PROBE.at(V, I, f)
            r, cc = sp.matrix_dim(V, 'M.rows'), sp.matrix_dim(V, 'M.cols')
            th = thrown(V, I.throws)
            if r != cc:
                return True, th, None
            V.memo = {}
            cov, cor = want_matrix(V, sp, r, lambda i, j: sp.entry(V, 'M', i, j))
            x = V.eval(v)
            if n == 'computeCorrelationsFromCovariance':
                got = mat_of(V, x, r)
                for i in range(r):
                    for j in range(r):
                        if not close(got[i][j], cor[i][j]):
                            return False, th, ('entry (%d,%d) is %.6g, expected %.6g (%s)' % (
                                i, j, got[i][j], cor[i][j], 'standard deviation' if i == j else 'correlation'))
                return False, th, None
            names = ['<parameter_names[%d]>' % i for i in range(r)]
            return False, th, result_diff(V, x, cov, cor, names, ('matrix', 'named'))
        return R.with_restart(one)
    blk = mk('in', 'parameter_blocks')
    if 'parameter_blocks' not in pn:
        outs = [x for x in X.subterms(v) if x.op == 'out' and x.args[0] == 'ceres::Problem::GetParameterBlocks']
        if not outs:
            raise R.NoEval('the blocks of the problem are not requested')
        blk = outs[0]
    oc = out_cov(v)
    if not oc:
        raise R.NoEval('no covariance matrix is taken from the solver')

    def one():
        V = R.Valuation('c%s' % seed, None)
        sp = CovSpec(blocks='?', faults=faults)
        sp.near = near
        V.spec = sp
        bo = V.eval(blk)
        sp.b = bo.key
        sp.alias = lambda k: sp.b if k.startswith('ucall(ceres::Problem::NumParameterBlocks') else k
        nb = sp.size(V, sp.b)
        if H.PROBE is not None:
            return H.PROBE.at(V, I, f)
        bs = [V.canon(V.sel(bo, i)) for i in range(nb)]
        fail = False
        labels, idx, off = [], [], 0
        named = 'param_names' in pn
        own = 'parameter_blocks' not in pn      # blocks taken from the problem itself
        if named:
            fail |= sp._sizes(V, 'param_names') != nb
        for i, b in enumerate(bs):
            n_ = sp.bsize(V, b)
            if named:
                no = C.typed('param_names', None)
                hit = sp.has(V, R.Obj('param_names'), V.sel(bo, i))
                fail |= not hit
                ls = sp.size(V, 'param_names[%s]' % b)
                fail |= hit and ls != n_
                lab = ['<param_names[%s][%d]>' % (b, j) for j in range(n_)]
            else:
                lab = ['block%d_element%d' % (i, j) for j in range(n_)]
            fail |= sp.fault(V, 'has' + b)
            hm = sp.has(V, R.Obj('param_masks'), V.sel(bo, i))
            ms = [sp._values(V, 'param_masks[%s][%d]' % (b, j)) for j in range(sp.size(V, 'param_masks[%s]' % b))] if hm else []
            for j in range(n_):
                if j not in ms:
                    idx.append(off + j)
                    labels.append(lab[j])
            off += n_
        fail |= sp.fault(V, 'Compute') or sp.fault(V, 'GetCovarianceMatrix')
        th = thrown(V, I.throws)
        if fail:
            return True, th, None
        V.memo = {}
        # the matrix must come from a Covariance computed for exactly these blocks of this problem
        for o in oc:
            want = V.canon(bo)
            lists = [V.canon(V.eval(a)) for x in (o,) + tuple(y for y in X.subterms(o.args[2]) if y.op == 'after')
                     for a in x.args if isinstance(a, X.T) and (a.op in ('in', 'out', 'gen', 'cat', 'list', 'fill') or 'vector' in str(X.TY.get(a)))
                     and not a.op == 'ptr']
            lists = [l for l in lists if l != 'options' and l != 'problem']
            bl = ['[%s]' % ','.join(bs), want]
            if any(l not in bl for l in lists if l.startswith('[') or l in ('parameter_blocks',)):
                return False, th, 'the covariance is computed for other blocks (%s) than the requested ones' % lists[:2]
        V.memo = {}
        cov, cor = want_matrix(V, sp, len(idx), lambda i, j: sp.entry(V, '', idx[i], idx[j]))
        x = V.eval(v)
        return False, th, result_diff(V, x, cov, cor, labels, ('matrix', 'named'))
    return R.with_restart(one)


def overload(f):
    return '%s(%s)' % (f['n'].split('::')[-1], ', '.join(arg_name(i, p) for i, p in enumerate(f['p'])))


def c09(c):
    c.explain = ('computeCorrelationsFromCovariance, computeCovarianceResults and all computeCovariance overloads are '
                 'summarised as value terms over the solver\'s covariance; under pseudo-random block sizes, masks and '
                 'symmetric matrices with zero variances the terms must equal the specified tangent-space matrix, its '
                 'normalisation, and the named entries. Every optimize() asks after the solve, for the solved problem.')
    N = 30 if c.tier == 'quick' else 200
    for n, f, I, v in cov_functions(c):
        w = '%s %s' % (C.rel(f['file']), overload(f))
        if isinstance(v, Exception):
            c.unres('value', w, str(v))
            continue
        for k, s in [(None, s) for s in range(N)] + near_seeds(I, v, 6):
            try:
                fail, th, d = scenario(c, n, f, I, v, s, False, k) or (True, None, None)
            except C.INTERNAL as e:
                if C.os.environ.get('RCT_DEBUG'):
                    C.traceback.print_exc()
                c.unres('value', w, '%s %s' % (type(e).__name__, e))
                continue
            if d:
                c.bad('value', w, d, dict(valuation=s))
            elif not fail:
                c.ok('value', w, 'valuation %s' % s)
    for r in S.each(c):
        if not r.spec.cov or r.main is None:
            continue
        cov, t = attached(r)
        for ev in cov:
            w = '%s:%s' % (r.where, ev.line)
            c.check(ev.problem is r.main.problem, 'problem', w, 'result.covariance is computed for the problem that is solved')
            c.check(ev.seq > r.main.seq, 'order', w, 'the covariance is computed after the solve')
    c.minimum = 60


def c10(c):
    c.explain = ('The throw conditions of the covariance functions are evaluated under pseudo-random arguments and solver '
                 'answers (wrong counts, missing labels, wrong label lengths, unknown blocks, failing Compute or '
                 'GetCovarianceMatrix, non-square matrices): CovarianceException is thrown exactly when the request cannot be '
                 'answered. The threshold filter is compared with its specification.')
    N = 60 if c.tier == 'quick' else 400
    for n, f, I, v in cov_functions(c):
        w = '%s %s' % (C.rel(f['file']), overload(f))
        if isinstance(v, Exception):
            c.unres('throws', w, str(v))
            continue
        for k, s in [(None, s) for s in range(N)] + near_seeds(I, v, 10):
            try:
                fail, th, d = scenario(c, n, f, I, v, s, True, k)
            except C.INTERNAL as e:
                c.unres('throws', w, '%s %s' % (type(e).__name__, e))
                continue
            if fail and not th:
                c.bad('unanswerable', w, 'a request that cannot be answered returns a result', dict(valuation=s))
            elif fail and 'CovarianceException' not in th:
                c.bad('unanswerable', w, 'a request that cannot be answered raises %s instead of CovarianceException' % th[0],
                      dict(valuation=s))
            elif not fail and th:
                c.bad('answerable', w, 'a request that can be answered raises %s' % th[0], dict(valuation=s))
            else:
                c.ok('throws', w, 'valuation %s: %s' % (s, 'raises' if fail else 'returns'))
    threshold(c)
    c.minimum = 60


def threshold(c):
    db = C.dbm.get('opt')
    fs = db.named('rct_optimizations::CovarianceResult::getCorrelationCoeffOutsideThreshold')
    if not fs:
        c.unres('threshold', 'covariance_types.h', 'getCorrelationCoeffOutsideThreshold not found')
        return
    f = fs[0]
    c.analysed(f)
    w = C.fwhere(f)
    with c.guard('threshold', w):
        I = IT.Interp(db)
        v, st = I.run(f, args=[C.typed('threshold', 'double')])
        for s in range(20 if c.tier == 'quick' else 100):
            def one():
                sp = R.Spec(hi=5)
                V = R.Valuation('t%d' % s, sp)
                sp.values = lambda V, k: 0.7 * V.h(k) if k == 'threshold' else (
                    2 * V.h(k) - 1 if k.endswith('.value') else None)
                q = V.seq(V.fld(V.eval(C.typed('this', f['c'])), 'correlation_coeffs'))
                th = V.num(R.Obj('threshold'))
                want = sorted((x for x in q if abs(V.num(V.fld(x, 'value'))) > th), key=lambda x: -abs(V.num(V.fld(x, 'value'))))
                got = V.seq(V.eval(v))
                return [V.canon(x) for x in got], [V.canon(x) for x in want]
            g, wn = R.with_restart(one)
            c.check(g == wn, 'threshold', w, 'valuation %s: coefficients outside the threshold, largest first' % s,
                    dict(code=g, spec=wn))
