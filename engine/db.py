"""Source discovery, fresh extraction of translation units from the current /repo tree, and the function database."""
import os, sys, json, glob, hashlib, subprocess, concurrent.futures as cf, time
from . import terms as X

REPO = os.environ.get('RCT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
TOOL = os.path.join(BUILD, 'rct-extract')
RES = '/usr/lib/llvm-18/lib/clang/18'


class Broken(Exception):
    """the analysis itself cannot be carried out (error exit, neither pass nor violation)"""


class Missing(Broken):
    """a construct the rule starts from is not there under its name (renamed or merged): undecided, not an alarm"""


def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], capture_output=True, text=True)
    if not os.path.exists(TOOL):
        raise Broken('cannot build rct-extract: ' + r.stderr[-2000:])


def incs():
    return ['-I%s/rct_optimizations/include' % REPO, '-I%s/rct_common/include' % REPO,
            '-I%s/rct_image_tools/include' % REPO, '-I%s/rct_ros_tools/include' % REPO,
            '-I/usr/include/eigen3', '-I/usr/include/opencv4']


STUBS = ['-I' + os.path.join(VERIF, 'stubs')]


def sources(group):
    g = lambda p: sorted(glob.glob(os.path.join(REPO, p), recursive=True))
    if group == 'opt':
        fs = g('rct_optimizations/src/rct_optimizations/**/*.cpp')
        return [f for f in fs if not f.endswith('dh_chain_kinematic_calibration.cpp')]
    if group == 'kin':
        return g('rct_optimizations/src/rct_optimizations/**/dh_chain_kinematic_calibration.cpp')
    if group == 'img':
        return g('rct_image_tools/src/rct_image_tools/**/*.cpp')
    if group == 'ros':
        return g('rct_ros_tools/src/*.cpp')
    if group == 'tools':
        return g('rct_examples/src/tools/*.cpp')
    if group.startswith('tu:'):
        return [os.path.join(VERIF, 'tu', group[3:])]
    raise Broken('unknown source group ' + group)


NEEDS_STUBS = {'kin', 'ros', 'tools', 'tu:lp.cpp'}

_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root in (REPO, os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'tu')):
            for dp, dn, fn in sorted(os.walk(root)):
                dn[:] = sorted(d for d in dn if d not in ('.git', 'build', '.build'))
                for f in sorted(fn):
                    if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.cxx', '.hh', '.inl')):
                        p = os.path.join(dp, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        h.update(open(TOOL, 'rb').read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def extract(src, stubs):
    """extraction result is keyed by the content of every source below /repo, so a stale one is never used"""
    key = hashlib.sha256((tree_hash() + src + str(stubs)).encode()).hexdigest()[:32]
    cdir = os.path.join(BUILD, 'cache')
    os.makedirs(cdir, exist_ok=True)
    cp = os.path.join(cdir, key + '.json')
    if os.path.exists(cp):
        try:
            return json.load(open(cp))
        except Exception:
            pass
    args = [TOOL, src, REPO + ',' + os.path.join(VERIF, 'tu'), '--', '-std=c++17', '-DNDEBUG'] + \
        (STUBS if stubs else []) + incs() + ['-w', '-resource-dir', RES]
    r = subprocess.run(args, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('extraction of %s failed:\n%s' % (src, r.stderr[-3000:]))
    tmp = cp + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        f.write(r.stdout)
    os.replace(tmp, cp)
    return json.loads(r.stdout)


class DB:
    def __init__(self):
        self.funcs = {}       # fid -> function (first definition), tagged with 'tu'
        self.by_tu = {}       # (tu, fid) -> function (internal linkage)
        self.byname = {}      # qualified name -> [function]
        self.records = {}     # type string -> record
        self.rec_tu = {}      # (tu, type string) -> record (anonymous classes of several units share a name)
        self.globals = {}     # qualified name -> global
        self.tus = []
        self.overriders = {}  # fid of overridden -> [functions]

    def load(self, groups):
        ensure_tool()
        jobs = []
        for g in groups:
            ss = sources(g)
            if not ss:
                raise Broken('no sources for group ' + g)
            for s in ss:
                jobs.append((s, g in NEEDS_STUBS))
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: extract(*j), jobs))
        for (s, _), d in zip(jobs, res):
            self.add(s, d)
        prune_cache()
        return self

    def add(self, src, d):
        self.tus.append(src)
        for r in d['records']:
            self.records.setdefault(r['n'], r)
            self.rec_tu[(src, r['n'])] = r
            X.RECORDS.setdefault(r['n'], r)
        for g in d['globals']:
            k = g['n']
            if k not in self.globals or ('i' in g and 'i' not in self.globals[k]):
                g['tu'] = src
                self.globals[k] = g
        for f in d['functions']:
            f['tu'] = src
            self.by_tu[(src, f['f'])] = f
            if f['f'] not in self.funcs:
                self.funcs[f['f']] = f
                self.byname.setdefault(f['n'], []).append(f)
            elif f.get('internal'):
                self.byname.setdefault(f['n'], []).append(f)
            for o in f.get('ov', []):
                self.overriders.setdefault(o, []).append(f)

    def find(self, fid, tu=None):
        f = self.by_tu.get((tu, fid))
        if f is not None:
            return f
        f = self.funcs.get(fid)
        if f is not None and f.get('internal') and tu is not None and f['tu'] != tu:
            return None
        return f

    def funcs_of(self, cls, name, tu):
        """member functions of a class (internal linkage classes are looked up in their own translation unit)"""
        out = [f for (t, _), f in self.by_tu.items() if t == tu and f.get('c') == cls and
               (f['n'].split('<')[0].split('::')[-1] == name or f['n'].endswith('::' + name) or '::' + name + '<' in f['n'])]
        if not out:
            out = [f for f in self.funcs.values() if f.get('c') == cls and not f.get('internal') and
                   ('::' + name) in f['n']]
        return out

    def ctors(self, cls, tu, n):
        """constructors of a class with n parameters, those of the given translation unit first"""
        out = [f for (t, _), f in self.by_tu.items() if t == tu and f.get('ctor') and X.strip_type(f['c']) == cls and len(f['p']) == n]
        return out or [f for f in self.funcs.values() if f.get('ctor') and not f.get('internal') and
                       X.strip_type(f['c']) == cls and len(f['p']) == n]

    def record(self, t, tu=None):
        return self.rec_tu.get((tu, t)) or self.records.get(t)

    def named(self, qn):
        return self.byname.get(qn, [])


def prune_cache():
    cdir = os.path.join(BUILD, 'cache')
    try:
        fs = [os.path.join(cdir, f) for f in os.listdir(cdir)]
        if len(fs) > 400:
            fs.sort(key=os.path.getmtime)
            for f in fs[:-200]:
                os.unlink(f)
    except OSError:
        pass


_dbs = {}


def get(*groups):
    k = tuple(sorted(groups))
    if k not in _dbs:
        _dbs[k] = DB().load(list(k))
    return _dbs[k]
