"""C06: lifetime, address stability, dimensions and ownership of what is handed to ceres::Problem (typestate over the
allocation, registration, growth, scope-exit, solve and delete events of each solver entry point)."""
import itertools
import re
from . import common as C, harness as H, solvers as S
from .common import R, X, IT

mk, num = X.mk, X.num
STABLE = ('std::deque', 'std::list', 'std::map', 'std::unordered_map', 'std::set')


def flat(b):
    if b.op == 'ite':
        return flat(b.args[1]) + flat(b.args[2])
    return [b]


def same_path(p, q):
    """equal up to loop indices"""
    return len(p) == len(q) and all(s[0] == t[0] and (s == t or s[0] == 'i') for s, t in zip(p, q))


arr_size, type_at = IT.arr_size, IT.type_at


def iscost(I, t):
    b = (t or '').split('<')[0]
    return b.startswith('ceres::') and b.endswith('CostFunction')


class An:
    """events of one function that builds a problem"""

    def __init__(self, name, where, I, spec):
        self.name, self.where, self.I, self.spec = name, where, I, spec
        self.ev = I.events
        self.res = [e for e in self.ev if e.name == 'residual']
        self.by_problem = {}
        for e in self.res:
            self.by_problem.setdefault(e.problem, []).append(e)

    def at(self, e):
        return '%s:%s %s' % (C.rel(e.file), e.line, self.name)

    def last_use(self, p):
        us = [e for e in self.ev if e.name in ('residual', 'solve', 'covariance', 'paramblock', 'setmanifold', 'setconstant', 'setvariable')
              and getattr(e, 'problem', None) is p]
        return max(us, key=lambda e: e.seq) if us else None

    def valuations(self, n):
        for s in range(n):
            sp = self.spec.rspec() if self.spec else R.Spec(lo=0, hi=4)
            yield R.Valuation('m%d' % s, sp)


def alive(c, a):
    I = a.I
    for p, evs in a.by_problem.items():
        last = a.last_use(p)
        bad = set()
        n = 0
        for e in evs:
            for b in e.blocks:
                for q in flat(b):
                    if q.op != 'ptr':
                        c.unres('lifetime', a.at(e), 'block address not resolved: ' + X.show(q)[:120])
                        continue
                    root, path = q.args[0], q.args[1]
                    info = I.rootinfo.get(root, {})
                    n += 1
                    dead = I.dead_roots.get(root)
                    if dead is not None and dead < last.seq:
                        if (root, 'd') not in bad:
                            bad.add((root, 'd'))
                            c.bad('lifetime', a.at(e), 'the parameter block in %s (declared at line %s) goes out of scope before the problem '
                                  'is last used (%s, line %s)' % (info.get('name'), info.get('line'), last.name, last.line))
                        continue
                    if info.get('kind') == 'temp':
                        if (root, 't') not in bad:
                            bad.add((root, 't'))
                            c.unres('lifetime', a.at(e), 'the parameter block lives in a temporary object')
                        continue
                    for d in a.ev:
                        if d.name == 'delete' and d.ptr.op == 'ptr' and d.ptr.args[0] == root and e.seq < d.seq < last.seq:
                            bad.add((root, 'x'))
                            c.bad('lifetime', a.at(e), 'the parameter block is deleted (line %s) before the problem is last used' % d.line)
                    n_ = stable(c, a, e, root, path, last, bad)
        if not bad:
            c.ok('lifetime', a.where, '%d parameter blocks of problem %s outlive its last use (%s, line %s) at a fixed address' %
                 (n, X.show(p), last.name, last.line))


def stable(c, a, e, root, path, last, bad):
    I = a.I
    for k in range(len(path) + 1):
        pre = path[:k]
        for g in a.ev:
            if g.name != 'grow' or g.target.op != 'ptr' or g.target.args[0] != root or not same_path(g.target.args[1], pre):
                continue
            if k == len(path) or path[k][0] != 'i':
                continue
            ty = X.strip_type(getattr(g, 'ty', '') or type_at(I, root, pre) or '')
            how = getattr(g, 'how', '')
            if ty.startswith(STABLE) and how in ('push_back', 'push_front', 'emplace_back', 'insert', 'emplace', ''):
                continue
            kind = None
            if e.seq < g.seq < last.seq:
                kind = 'after it was registered'
            elif g.seq < e.seq:
                outer = {x for x, _ in g.loops} & {x for x, _ in e.loops}
                born = {x for x, *_ in [(y[0],) if isinstance(y, tuple) else (y,) for y in I.rootinfo.get(root, {}).get('loops', ())]}
                if outer - born:
                    kind = 'in a later iteration of the loop that registers it'
            if not kind:
                continue
            key = (root, tuple(pre), g.line)
            if key in bad:
                continue
            rs = [r for r in a.ev if r.name == 'reserve' and r.target.op == 'ptr' and r.target.args[0] == root and
                  same_path(r.target.args[1], pre) and r.seq < g.seq and not ({x for x, _ in r.loops} & {x for x, _ in g.loops})]
            if rs and how in ('push_back', 'emplace_back', 'resize', 'insert', ''):
                v = enough(a, rs[-1], root, pre)
                if v is True:
                    continue
                if v is None:
                    bad.add(key)
                    c.unres('stability', a.at(g), 'the container of a parameter block grows (%s) after a reservation of unknown sufficiency' % kind)
                    continue
            bad.add(key)
            c.bad('stability', a.at(g), 'the container %s holding the parameter block registered at line %s is resized (%s) %s; the registered '
                  'address may dangle' % (I.rootinfo.get(root, {}).get('name'), e.line, how or 'push', kind))


def enough(a, r, root, pre):
    """is the reserved capacity at least the final size?"""
    s = [e for e in a.ev if e.name == 'solve']
    if not s:
        return None
    old = a.I.st
    n = 0
    for V in a.valuations(12):
        try:
            def one():
                V.memo = {}
                a.I.st = S._state(old, s[-1].entry_store)
                v = a.I.read(IT.LV(root, tuple(pre)))
                return V.num(V.eval(r.n)), V.int(V.size(V.eval(v)))
            x, y = R.with_restart(one)
            if x < y:
                return False
            n += 1
        except C.INTERNAL:
            continue
        finally:
            a.I.st = old
    return True if n else None


def index0(path):
    if path and path[-1][0] == 'i':
        return X.intval(path[-1][1]), path[:-1]
    return 0, path


def dims(c, a):
    I = a.I
    seen = {}
    for e in a.res:
        w = a.at(e)
        if not e.dims or not isinstance(e.dims[1], tuple) or e.dims[0] is None:
            c.unres('dimensions', w, 'dimensions of the cost function are not known')
            continue
        nres, bs = e.dims
        bad = False
        if any(b.op == 'blockseq' for b in e.blocks):
            c.unres('dimensions', w, 'parameter blocks are passed as a list of unknown length')
            continue
        if len(bs) != len(e.blocks):
            c.bad('dimensions', w, 'the cost function declares %d parameter blocks, %d are registered' % (len(bs), len(e.blocks)))
            continue
        for b, n in zip(e.blocks, bs):
            for q in flat(b):
                if q.op != 'ptr':
                    continue
                i0, base = index0(q.args[1])
                t = type_at(I, q.args[0], base)
                _, size = arr_size(t) if t else (None, None)
                if size is None and t and X.strip_type(t) in ('double', 'const double'):
                    size = 1
                if size is None:
                    size = dyn_size(a, q.args[0], base)
                if i0 is None or size is None:
                    c.unres('dimensions', w, 'size of the storage of a parameter block (%s) is not known' % (t,))
                    bad = True
                elif i0 + n > size:
                    bad = True
                    c.bad('dimensions', w, 'a parameter block of %d values starts at element %d of storage with %d' % (n, i0, size))
                for (r2, p2), (i2, n2, l2) in list(seen.items()):
                    if r2 == q.args[0] and p2 == base and i0 is not None and i2 is not None and e.problem is l2[1]:
                        if i0 == i2 and n != n2:
                            bad = True
                            c.bad('dimensions', w, 'the same parameter block is registered with %d values here and %d at line %s' % (n, n2, l2[0]))
                        elif i0 != i2 and i0 < i2 + n2 and i2 < i0 + n:
                            bad = True
                            c.bad('dimensions', w, 'the parameter block overlaps the one registered at line %s' % l2[0])
                seen[(q.args[0], base)] = (i0, n, (e.line, e.problem))
        if e.res is None or e.res.op != 'evalres':
            c.unres('dimensions', w, 'residual function not analysable')
            continue
        v = e.res.args[0]
        m = X.intval(X.size(v))
        if m is not None and m > nres:
            bad = True
            c.bad('dimensions', w, 'the residual function writes %d residuals, %d are declared' % (m, nres))
        beyond = written(v, nres)
        if beyond:
            bad = True
            c.bad('dimensions', w, 'the residual function writes entries %s, %d residuals are declared' % (sorted(beyond), nres))
        ops = {x.op for x in X.subterms(v)}
        if 'unwritten' in ops or m is not None and m < nres:
            k = sorted({X.intval(x.args[0]) for x in X.subterms(v) if x.op == 'unwritten'})
            bad = True
            c.bad('dimensions', w, 'the residual function declares %d residuals but leaves entries %s unwritten' % (nres, k))
        for x in X.subterms(v):
            if x.op == 'oob' or x.op == 'sel' and X.intval(x.args[1]) is not None and x.args[0].op == 'list' and \
                    X.intval(x.args[1]) >= len(x.args[0].args):
                bad = True
                c.bad('dimensions', w, 'the residual function reads beyond a parameter block: ' + X.show(x)[:160])
                break
        for b, n in zip(e.blocks, bs):
            used = set()
            whole = False
            for x in X.subterms(v):
                if x.op == 'sel' and x.args[0].op == 'blkval' and x.args[0].args[0] is b:
                    i = X.intval(x.args[1])
                    used.add(i)
                    if i is None:
                        whole = True
            if not whole and used and max(used) >= n:
                bad = True
                c.bad('dimensions', w, 'the residual function reads element %d of a parameter block of %d' % (max(used), n))
            elif not whole and used and len(used) < n:
                c.bad('dimensions', w, 'the residual function never reads elements %s of a declared parameter block of %d values' %
                      (sorted(set(range(n)) - used), n))
                bad = True
        if not bad:
            c.ok('dimensions', w, 'declared (%d residuals, blocks %s) = written/read by the functor, storage large enough' % (nres, list(bs)))


def written(v, n):
    """constant indices beyond n that an array term stores to"""
    if v.op == 'ite':
        return written(v.args[1], n) | written(v.args[2], n)
    if v.op == 'arr':
        return {X.intval(i) for i, _ in v.args[1] if X.intval(i) is not None and X.intval(i) >= n} | written(v.args[0], n)
    return set()


def inrange(c, a):
    """elements of vectors that hold parameter blocks exist"""
    I = a.I
    for e in a.res:
        s = [x for x in a.ev if x.name == 'solve' and x.problem is e.problem]
        if not s:
            continue
        for b in e.blocks:
            for q in flat(b):
                if q.op != 'ptr':
                    continue
                for k, st in enumerate(q.args[1]):
                    if st[0] != 'i':
                        continue
                    pre = q.args[1][:k]
                    t = type_at(I, q.args[0], pre)
                    if not t or not X.strip_type(t).startswith(('std::vector<', 'std::deque<')):
                        continue
                    old = I.st
                    n, bad = 0, None
                    for V in a.valuations(10):
                        try:
                            def one():
                                V.memo = {}
                                I.st = S._state(old, s[0].entry_store)
                                N = V.int(V.size(V.eval(I.read(IT.LV(q.args[0], tuple(pre))))))
                                out = []
                                for asg in V.instances(e):
                                    out.append((V.int(V.eval(st[1])), N))
                                return out
                            for i, N in R.with_restart(one):
                                n += 1
                                if not 0 <= i < N:
                                    bad = (i, N)
                        except C.INTERNAL:
                            continue
                        finally:
                            I.st = old
                    if bad:
                        c.bad('bounds', a.at(e), 'the parameter block is element %d of %s, which has %d elements' % (
                            bad[0], I.rootinfo.get(q.args[0], {}).get('name'), bad[1]))
                    elif n:
                        c.ok('bounds', a.at(e), 'the parameter block is an existing element of %s [%d instances]' % (
                            I.rootinfo.get(q.args[0], {}).get('name'), n))
                    else:
                        c.unres('bounds', a.at(e), 'index or size of the container not evaluable')


def dyn_size(a, root, base):
    s = [e for e in a.ev if e.name == 'solve']
    if not s:
        return None
    old = a.I.st
    try:
        a.I.st = S._state(old, s[-1].entry_store)
        return X.intval(X.size(a.I.read(IT.LV(root, tuple(base)))))
    except C.INTERNAL:
        return None
    finally:
        a.I.st = old


def root_of(t):
    return {q.args[0] for q in flat(t) if q.op == 'ptr' and not q.args[1]} if t is not None and hasattr(t, 'op') else set()


def owners(a, root, skip=None):
    """events that take (+1) ownership of the object: registration with a problem, wrapping in a cost function, delete"""
    out = []
    for e in a.ev:
        if e.name == 'residual' and (root in root_of(e.cost) or e.loss is not None and root in root_of(e.loss)):
            out.append((e, 'registered'))
        elif e.name == 'delete' and root in root_of(e.ptr):
            out.append((e, 'deleted'))
        elif e.name == 'own' and root in root_of(e.ptr):
            out.append((e, 'owned by a smart pointer'))
        elif e.name == 'disown' and root in root_of(e.ptr):
            out.append((e, 'released'))
    return out


def literal(cnd):
    if cnd.op == 'not':
        return cnd.args[0], False
    return cnd, True


def atoms_of(cnd, acc):
    if cnd.op in ('and', 'or'):
        for x in cnd.args:
            atoms_of(x, acc)
    elif cnd.op == 'not':
        atoms_of(cnd.args[0], acc)
    else:
        acc.add(cnd)


def truth(cnd, env):
    if cnd is X.TRUE:
        return True
    if cnd is X.FALSE:
        return False
    if cnd.op == 'and':
        return all(truth(x, env) for x in cnd.args)
    if cnd.op == 'or':
        return any(truth(x, env) for x in cnd.args)
    if cnd.op == 'not':
        return not truth(cnd.args[0], env)
    return env[cnd]


WEIGHT = {'registered': 1, 'deleted': 1, 'owned by a smart pointer': 1, 'released': -1, 'wrapped': 1}


def once(a, new, uses):
    """number of owners is one on every path after the allocation. True, None or a description"""
    # per-instance count under concrete sizes
    cnt_bad = None
    n = 0
    for V in a.valuations(10):
        try:
            def one():
                V.memo = {}
                inst = [dict(x) for x in V.instances(new)]
                us = [([dict(x) for x in V.instances(u)], kind) for u, kind in uses]
                res = []
                ks = [k for k, _ in new.loops]
                for x in inst:
                    t = 0
                    for lst, kind in us:
                        t += WEIGHT[kind] * sum(all(y.get(k) == x.get(k) for k in ks) for y in lst)
                    res.append(t)
                return res
            r = R.with_restart(one)
            n += len(r)
            for t in r:
                if t != 1:
                    cnt_bad = t
        except C.INTERNAL:
            continue
    if cnt_bad is not None:
        return 'is owned %d times' % cnt_bad if cnt_bad > 0 else 'is neither registered nor freed'
    # all outcomes of the conditions between allocation and hand-over
    base = {p[0] for p in new.pc}
    same = all([k for k, _ in u.loops] == [k for k, _ in new.loops] for u, _ in uses)
    if not same:
        return True if n else None
    ats = set()
    for u, _ in uses:
        for p in u.pc:
            if p[0] not in base:
                atoms_of(p[0], ats)
    ats = sorted(ats, key=lambda t: t.id)
    if len(ats) > 6:
        return True if n else None
    for vals in itertools.product((True, False), repeat=len(ats)):
        env = dict(zip(ats, vals))
        t = 0
        for u, kind in uses:
            if all(truth(p[0], env) for p in u.pc if p[0] not in base):
                t += WEIGHT[kind]
        if t != 1:
            if len(ats) == 1:
                return ('is owned %d times' % t if t > 0 else 'is neither registered nor freed') + ' when %s%s' % (
                    '' if vals[0] else 'not ', X.show(ats[0])[:160])
            return None
    return True


def ownership(c, a):
    I = a.I
    news = [e for e in a.ev if e.name == 'new']
    functors = {}
    for e in news:
        if iscost(I, e.type):
            v = e_value(I, e.root)
            f = X.fld(v, 'functor') if v is not None else None
            for r in root_of(f) if f is not None else ():
                functors.setdefault(r, []).append(e)
    for e in a.res:
        for q in flat(e.cost):
            if q.op != 'ptr':
                c.unres('ownership', a.at(e), 'cost function object not resolved')
                continue
            k = I.rootinfo.get(q.args[0], {}).get('kind')
            if k in ('local', 'temp', 'param', 'capture'):
                c.bad('ownership', a.at(e), 'a cost function with automatic storage is handed to the problem, which deletes it')
        if e.functor is not None and e.functor.op == 'ptr' and I.rootinfo.get(e.functor.args[0], {}).get('kind') in ('local', 'param'):
            c.bad('ownership', a.at(e), 'the cost functor has automatic storage but is deleted by the cost function')
    for e in news:
        if iscost(I, e.type):
            uses = owners(a, e.root)
            what = 'the cost function allocated here'
        elif e.root in functors or any(x.functor is not None and e.root in root_of(x.functor) for x in a.res):
            uses = [(x, 'wrapped') for x in functors.get(e.root, [])] + \
                [u for u in owners(a, e.root)]
            what = 'the cost functor allocated here'
        elif e.type and 'Functor' in e.type or e.type and 'Cost' in e.type:
            uses = owners(a, e.root)
            what = 'the object allocated here'
        else:
            continue
        v = once(a, e, uses)
        if v is True:
            c.ok('ownership', a.at(e), '%s has exactly one owner on every path (%s)' % (
                what, ', '.join('%s line %s' % (k, u.line) for u, k in uses)))
        elif v is None:
            c.unres('ownership', a.at(e), what + ': paths not decided')
        else:
            c.bad('ownership', a.at(e), '%s %s' % (what, v))


def e_value(I, root):
    for e in I.events:
        if e.name == 'residual' and root in root_of(e.cost) and e.costval is not None:
            return e.costval
    return I.st.store.get(root) if I.st is not None else None


def c06(c):
    c.explain = ('Typestate analysis of everything handed to ceres::Problem in every solver entry point (loops summarised, '
                 'helpers and the nested seed solves inlined). Rules: the object holding each registered parameter block is '
                 'alive until the last use of the problem and no vector holding one is resized between registration and that '
                 'use (later loop iterations included) unless enough capacity is reserved; declared residual and block sizes '
                 'equal what the residual function writes and reads and fit the storage; each allocated cost function and '
                 'functor has exactly one owner on every path, exceptional ones included.')
    c.minimum = 20
    db = C.dbm.get('opt')
    fs = S.functions(db)
    done = set()
    an = []
    for r in S.each(c):
        done.add(r.spec.ptype)
        an.append(An(r.name, r.where, r.I, r.spec))
    for ty, f in fs.items():
        if ty in done:
            continue
        with c.guard('analysis', C.fwhere(f)):
            fn = H.Fn(c, db, f, intercept={'rct_optimizations::computeCovariance': S.cov_event})
            if fn.evs('residual'):
                an.append(An('optimize(%s)' % ty, fn.where, fn.I, None))
    for a in an:
        for g in (alive, inrange, dims, ownership):
            with c.guard(g.__name__, a.where):
                g(c, a)
