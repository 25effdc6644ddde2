"""Obligation bookkeeping, evidence, known findings and exit codes shared by all checks."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

from engine import db as dbm, interp as IT, models as MD, rnd as R, terms as X   # noqa: E402

REPO = dbm.REPO
Broken = dbm.Broken
Missing = dbm.Missing


def rel(p):
    return os.path.relpath(p, REPO) if p and p.startswith(REPO) else p


class Ctx:
    """one run of one property's check"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = []           # dicts
        self.functions = {}     # analysed function -> file:line
        self.notes = []
        self.assume = []
        self.explain = ''
        self.t0 = time.time()
        self.minimum = 1

    # -- recording
    def _add(self, status, rule, where, text, **kw):
        self.obl.append(dict(status=status, rule=rule, where=where, text=text, **kw))

    def ok(self, rule, where, text=''):
        self._add('discharged', rule, where, text)

    def bad(self, rule, where, text, witness=None):
        self._add('refuted', rule, where, text, witness=witness)

    def unres(self, rule, where, text):
        self._add('unresolved', rule, where, text)

    def check(self, cond, rule, where, text, witness=None):
        if cond:
            self.ok(rule, where, text)
        else:
            self.bad(rule, where, text, witness)
        return cond

    def analysed(self, f):
        if isinstance(f, dict):
            self.functions[f['f']] = '%s:%s' % (rel(f['tu']) if not f.get('file') else rel(f['file']), f.get('l', '?'))
        else:
            self.functions[str(f)] = ''

    def equal(self, rule, where, code, want, text, **kw):
        """obligation: two value terms are equal"""
        try:
            v, d = R.compare(code, want, **kw)
        except (IT.Unsupported, R.NoEval) as e:
            v, d = 'unknown', str(e)
        if v == 'equal':
            self.ok(rule, where, text + ' [%s]' % d)
        elif v == 'different':
            self.bad(rule, where, '%s: code computes %s' % (text, X.show(code)[:300]), witness=dict(d, spec_term=X.show(want)[:300]))
        else:
            self.unres(rule, where, '%s: %s' % (text, d))
        return v

    def guard(self, rule, where):
        return _Guard(self, rule, where)

    # -- finishing
    def finish(self, level='other'):
        known = load_known()
        viol, found = [], []
        seen = set()
        for o in self.obl:
            if o['status'] != 'refuted':
                continue
            k = '%s|%s' % (o['rule'], o['where'])
            if k in seen:
                continue
            seen.add(k)
            m = [e for e in known if e['property'] == self.pid and e['rule'] == o['rule'] and
                 e['where'] in o['where'] and (not e.get('text') or e['text'] in o['text'])]
            if m:
                o['status'] = 'known'
                found.append((o, m[0]))
            else:
                viol.append(o)
        nd = sum(o['status'] == 'discharged' for o in self.obl)
        unres = [o for o in self.obl if o['status'] == 'unresolved']
        rules = {}
        for o in self.obl:
            r = rules.setdefault(o['rule'], {})
            r[o['status']] = r.get(o['status'], 0) + 1
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(explanation=self.explain,
                                obligations=len(self.obl), discharged=nd, refuted=len(viol), known=len(found),
                                unresolved=len(unres), rules=rules,
                                functions_analysed=len(self.functions),
                                functions=sorted('%s (%s)' % x for x in self.functions.items())[:200],
                                samples=[dict(rule=o['rule'], where=o['where'], what=o['text'][:400])
                                         for o in self.obl if o['status'] == 'discharged'][:12],
                                unresolved_list=[dict(rule=o['rule'], where=o['where'], why=o['text'][:400]) for o in unres][:40],
                                notes=self.notes[:40]),
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 3), violations=len(viol))
        d = os.environ.get('RCT_EVID') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d refuted, %d known, %d unresolved; %d functions analysed' %
              (self.pid, len(self.obl), nd, len(viol), len(found), len(unres), len(self.functions)))
        shown = set()
        for o in unres:
            k = (o['rule'], o['where'])
            if k in shown or len(shown) > 20:
                continue
            shown.add(k)
            print('  unresolved [%s] %s: %s' % (o['rule'], o['where'], o['text'][:300]))
        done = set()
        for o, e in found:
            k = (e['rule'], e['where'])
            if k not in done:
                done.add(k)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        if viol:
            rp = os.path.join(d, self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for o in viol:
                    f.write('[%s] %s\n    %s\n' % (o['rule'], o['where'], o['text']))
                    if o.get('witness'):
                        f.write('    witness valuation: %s\n' % (json.dumps(o['witness'], default=str),))
            for o in viol:
                print('  refuted [%s] %s: %s' % (o['rule'], o['where'], o['text'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not self.obl:
            print('%s: analysis broken: nothing was analysed' % self.pid)
            return 2
        if nd + len(found) < self.minimum:
            print('%s: undecided: only %d obligations could be decided (usually at least %d); see unresolved_list in the evidence' %
                  (self.pid, nd, self.minimum))
        return 0


class _Guard:
    """turns analysis failures into unresolved obligations"""

    def __init__(self, c, rule, where):
        self.c, self.rule, self.where = c, rule, where

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            return False
        if issubclass(t, (IT.Unsupported, R.NoEval, R.Restart, RecursionError, IT.Dead, KeyError, IndexError, TypeError,
                          ValueError, AttributeError, AssertionError)):
            if os.environ.get('RCT_DEBUG'):
                traceback.print_exception(t, v, tb)
            self.c.unres(self.rule, self.where, '%s: %s' % (t.__name__, v))
            return True
        return False


INTERNAL = (IT.Unsupported, R.NoEval, R.Restart, RecursionError, IT.Dead, KeyError, IndexError, TypeError, ValueError,
            AttributeError, AssertionError)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def loc(ev):
    return '%s:%s' % (rel(ev.file), ev.line)


def fwhere(f):
    return '%s %s' % (rel(f.get('file') or f['tu']), short(f))


def short(f):
    return f['f'].split(' : ')[0] if ' : ' in f['f'] else f['f']


def typed(name, ty):
    t = X.mk('in', name)
    X.TY[t] = ty
    return t


def member_default(db, rectype, field):
    """value term of the default member initialiser of rectype::field (None: there is none)"""
    rec = db.records.get(X.strip_type(rectype))
    if rec is None:
        return None
    fl = [x for x in rec['fields'] if x['n'] == field]
    if not fl or 'i' not in fl[0]:
        return None
    I = IT.Interp(db)
    I.enter(dict(f='default initialiser', n='default initialiser', p=[], file=rec.get('file', ''), tu=db.tus[0], l=fl[0]['l'],
                 c=rectype, k='fn'), None)
    r = I.newroot('temp', 'default', fl[0]['t'])
    I.init_at(IT.LV(r, ()), fl[0]['i'], fl[0]['t'])
    return I.read(IT.LV(r, ()))


def string_defaults(db, rectype, path):
    """leaf key -> string, for all std::string (array/vector) members of a record with a default initialiser"""
    out = {}
    rec = db.records.get(X.strip_type(rectype))
    for fl in rec['fields'] if rec else ():
        if 'basic_string' not in fl['t']:
            continue
        try:
            t = member_default(db, rectype, fl['n'])
            v = R.Valuation('d').eval(t) if t is not None else None
        except INTERNAL:
            continue
        k = '%s.%s' % (path, fl['n'])
        if isinstance(v, str):
            out[k] = v
        elif isinstance(v, list) and all(isinstance(s, str) for s in v):
            out[k + '#n'] = len(v)
            for i, s in enumerate(v):
                out['%s[%d]' % (k, i)] = s
    return out


class Budget:
    """processor time the probing passes of one check may use"""

    def __init__(self, seconds):
        self.left, self.t = seconds, None

    def __enter__(self):
        self.t = time.process_time()

    def __exit__(self, *a):
        self.left -= time.process_time() - self.t


probing = Budget(60)


def event_terms(e):
    """the data terms of an event"""
    out = []

    def walk(v):
        if isinstance(v, X.T):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x)
    for n, v in e.__dict__.items():
        if n != 'pc':
            walk(v)
    return out
