"""Runs the extractor over translation units of /repo and loads the facts."""
import os, sys, json, gzip, hashlib, subprocess, concurrent.futures as cf, pickle, tempfile, re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('KX_REPO', '/repo').rstrip('/')
BUILD = os.path.join(VERIF, 'build')
KX = os.path.join(BUILD, 'kx')
DEFS = ['-DKAMINPAR_ENABLE_TIMERS', '-DKAMINPAR_ENABLE_TIMER_BARRIERS', '-DKAMINPAR_ENABLE_THP',
        '-DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING', '-DKAMINPAR_COMPRESSION_INTERVAL_ENCODING',
        '-DKAMINPAR_SPARSEHASH_FOUND', '-DKAMINPAR_USES_GROWT']
class AnalysisBroken(Exception):
    pass

MPI_INC = '/usr/lib/x86_64-linux-gnu/openmpi/include'
BASE = ['-std=c++20', '-w', '-msse4.1', '-mcx16', '-ferror-limit=50', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-isystem', MPI_INC]
PCH = os.path.join(BUILD, 'pre.pch')

def flags(extra=(), pch=False):
    return BASE + (['-include-pch', PCH] if pch and os.path.exists(PCH) else []) + [
            '-isystem', os.path.join(VERIF, 'stub'), '-I' + REPO, '-I' + REPO + '/apps', '-isystem', REPO + '/external/growt',
            ] + DEFS + list(extra)

def ensure_tool():
    src = os.path.join(HERE, 'kx.cc')
    if os.path.exists(KX) and os.path.getmtime(KX) >= os.path.getmtime(src):
        return
    if os.path.exists(KX):
        # binaries copied along with the sources keep working if the content is what they were built from
        try:
            if open(KX + '.src').read() == hashlib.sha256(open(src, 'rb').read()).hexdigest():
                return
        except OSError:
            pass
    r = subprocess.run(['bash', os.path.join(HERE, 'build.sh'), KX], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the extractor: ' + r.stderr[-2000:])
    open(KX + '.src', 'w').write(hashlib.sha256(open(src, 'rb').read()).hexdigest())

def ensure_pch():
    src = os.path.join(VERIF, 'stub', 'pre.h')
    h = hashlib.sha256(open(src, 'rb').read() + repr(BASE).encode() + src.encode()).hexdigest()
    try:
        if os.path.exists(PCH) and open(PCH + '.src').read() == h: return
    except OSError:
        pass
    tmp = PCH + '.%d' % os.getpid()
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['clang++', '-x', 'c++-header'] + BASE + [src, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot precompile the third-party headers: ' + r.stderr[-2000:])
    os.replace(tmp, PCH)
    open(PCH + '.src', 'w').write(h)

_base = None
_fh = {}
def file_hash(p):
    h = _fh.get(p)
    if h is None:
        try: h = hashlib.sha256(open(p, 'rb').read()).hexdigest()
        except OSError: h = 'missing'
        _fh[p] = h
    return h

def base_hash():
    """everything an extraction depends on besides the files it reads: the extractor, the stubs, which files exist"""
    global _base
    if _base is None:
        h = hashlib.sha256()
        for root in (REPO + '/kaminpar-common', REPO + '/kaminpar-shm', REPO + '/kaminpar-dist', REPO + '/kaminpar-mpi',
                     REPO + '/kaminpar-cli', REPO + '/apps', REPO + '/examples'):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs): h.update(os.path.join(d, f).encode())
        for root in (VERIF + '/stub',):   # probe units are tracked by the files they read
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs): h.update((os.path.join(d, f) + file_hash(os.path.join(d, f))).encode())
        h.update(file_hash(os.path.join(HERE, 'kx.cc')).encode())
        _base = h.hexdigest()
    return _base

def cache_dir():
    d = os.environ.get('KX_CACHE', os.path.join(BUILD, 'cache'))
    os.makedirs(d, exist_ok=True)
    return d

def deps_key(key, deps):
    h = hashlib.sha256()
    for d in deps: h.update((d + file_hash(d)).encode())
    return os.path.join(cache_dir(), key + '.' + h.hexdigest()[:24] + '.gz')

def run_tu(path, extra=(), files=None, max_inst=0, cfg=True):
    """path: absolute path of the unit. Returns path of the (compressed) JSON-lines file. An earlier extraction is used again only if every
    file it read has the same content as now."""
    key = hashlib.sha256(repr((base_hash(), path, tuple(extra), files, max_inst, cfg, REPO, DEFS)).encode()).hexdigest()[:32]
    dp = os.path.join(cache_dir(), key + '.deps')
    known = []
    try: known = json.load(open(dp))
    except (OSError, ValueError): pass
    for deps in known:
        out = deps_key(key, deps)
        if os.path.exists(out): return out, ''
    tmp = os.path.join(cache_dir(), '%s.%d.tmp' % (key, os.getpid()))
    cmd = [KX, '--root=' + REPO + '/', '--root2=' + VERIF + '/probe/', '--out=' + tmp]
    if files: cmd.append('--files=' + files)
    if max_inst: cmd.append('--max-inst=%d' % max_inst)
    if not cfg: cmd.append('--no-cfg')
    cmd += [e for e in extra if e.startswith('--map=')]
    cmd += [path, '--'] + flags([e for e in extra if not e.startswith('--map=')], pch=True)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(tmp):
        return None, r.stderr[-3000:]
    data = open(tmp, 'rb').read()
    os.remove(tmp)
    deps = []
    i = data.rfind(b'\nD\t')
    if i >= 0:
        deps = json.loads(data[i + 3:data.index(b'\n', i + 1)])
        cwd = os.getcwd()
        deps = sorted({os.path.normpath(os.path.join(cwd, d)) for d in deps})
        deps = [d for d in deps if d.startswith(REPO + '/') or d.startswith(VERIF + '/')]
    if path not in deps: deps = sorted(deps + [path])
    out = deps_key(key, deps)
    z = out + '.%d' % os.getpid()
    with gzip.open(z, 'wb', 1) as fh: fh.write(data)
    os.replace(z, out)
    if deps not in known:
        z = dp + '.%d' % os.getpid()
        json.dump(([deps] + known)[:6], open(z, 'w'))
        os.replace(z, dp)
    return out, r.stderr[-3000:]

def walk(n):
    """pre-order over a node (not into lambda bodies)"""
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        yield x
        c = x.get('c')
        if c:
            st.extend(reversed(c))

def _resolve(n, S):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(x); continue
        if not isinstance(x, dict):
            continue
        for a in ('t', 'st', 'fn', 'u', 'q', 'm', 'ta', 'fid', 'it'):
            v = x.get(a)
            if type(v) is int:
                x[a] = S[v]
        c = x.get('c')
        if c: st.extend(c)
        for a in ('caps', 'init', 'def', 'e', 'inits', 'p', 'fields'):
            v = x.get(a)
            if isinstance(v, (list, dict)): st.append(v)

MAIN = 'c:@F@main#I#**C#'     # every program has one; they are different functions

class Program:
    """merged facts of several units, first definition wins (an instantiated body wins over a template pattern)"""
    def __init__(self):
        self.fns = {}      # usr -> fn
        self.recs = {}
        self.enums = {}
        self.vars = {}
        self.units = []
        self.dropped = []
        self.broken = set()   # units that were taken although they do not compile
    def add(self, path, out, strict):
        """returns False if the unit does not parse"""
        idx = len(self.units)
        S = []
        ended = errors = False
        fns = self.fns
        new = {}     # owner of lambdas (function or enclosing lambda) -> is it new?
        pend = {}
        recs, enums, vars_, lam = [], [], [], {}
        with gzip.open(out, 'rt', encoding='utf-8') as fh:
            for line in fh:
                t = line[0]
                if t == 'S':
                    S.extend(json.loads(line[2:]))
                elif t == 'F':
                    tag, u, inf, js = line.split('\t', 3)
                    if u == MAIN: u = '%s@%s' % (u, path)
                    dep = tag[1] == '1'
                    old = fns.get(u)
                    if u in pend or (old is not None and not (old.get('dep') and not dep)):
                        new.setdefault(u, False); continue
                    o = json.loads(js)
                    _resolve(o.get('b'), S); _resolve(o.get('inits'), S); _resolve(o.get('p'), S)
                    o['unit'] = idx
                    new[u] = True; pend[u] = o
                elif t == 'L':
                    tag, u, inf, js = line.split('\t', 3)
                    if inf == MAIN: inf = '%s@%s' % (inf, path)
                    if not new.get(inf):
                        new.setdefault(u, False); continue
                    o = json.loads(js)
                    _resolve(o.get('b'), S); _resolve(o.get('inits'), S); _resolve(o.get('p'), S)
                    o['unit'] = idx
                    o['lu'] = u
                    o['po'] = inf
                    o['u'] = '%d|%s|%s' % (idx, u, ','.join(p['t'] if isinstance(p['t'], str) else S[p['t']] for p in o['p']))
                    new[u] = True
                    pend[o['u']] = o
                elif t == 'D': pass
                else:
                    o = json.loads(line[2:])
                    k = o['kind']
                    if k == 'rec': _resolve(o.get('fields'), S); recs.append(o)
                    elif k == 'enum': enums.append(o)
                    elif k == 'var':
                        if 'init' in o: _resolve(o['init'], S)
                        vars_.append(o)
                    elif k == 'end':
                        ended = True; errors = o['errors']
        if not ended:
            raise AnalysisBroken('extractor output for %s is incomplete' % path)
        if errors and strict:
            return False
        if errors: self.broken.add(idx)
        self.units.append(path)
        self.fns.update(pend)
        for r in recs: self.recs.setdefault(r['u'], r)
        for e in enums: self.enums.setdefault(e['q'], e)
        for v in vars_: self.vars.setdefault(v['q'], v)
        return True
    def finish(self):
        # lambda lookup: (unit, lambda id) -> list of bodies
        self.lambdas = {}
        for f in self.fns.values():
            if f.get('lambda'):
                self.lambdas.setdefault((f['unit'], f['lu']), []).append(f)
        for f in self.fns.values():
            if f.get('lambda'):
                # the function (or enclosing lambda) a lambda is written in
                p = self.lambdas.get((f['unit'], f['po'])) or [self.fns.get(f['po'])]
                if p[0] is not None: f['pf'] = p[0]
        self.byq = {}
        for f in self.fns.values():
            if not f.get('lambda'):
                self.byq.setdefault(f['q'], []).append(f)
        return self

def load(units, extra=(), files=None, max_inst=0, cfg=True, jobs=None, allow_errors=()):
    """units: repo-relative (or absolute) paths."""
    with cf.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(ensure_tool), ex.submit(ensure_pch)]: f.result()
    paths = []
    for u in units:
        p = u if os.path.isabs(u) else os.path.join(REPO, u)
        if not os.path.exists(p):
            raise AnalysisBroken('unit %s is gone' % u)
        paths.append(p)
    jobs = jobs or min(8, os.cpu_count() or 4)
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda p: run_tu(p, tuple(extra), files, max_inst, cfg), paths))
    prog = Program()
    for i, (p, (o, err)) in enumerate(zip(paths, outs)):
        if o is None:
            raise AnalysisBroken('extractor failed on %s: %s' % (p, err))
        if not prog.add(p, o, not any(p.endswith(a) for a in allow_errors)):
            prog.dropped.append((p, err))
    if len(prog.dropped) > max(2, len(paths) // 20) or len(prog.dropped) == len(paths):
        raise AnalysisBroken('%d of %d units do not parse: %s' % (len(prog.dropped), len(paths), prog.dropped[0]))
    return prog.finish()

def all_units(*dirs):
    res = []
    for d in dirs:
        for r, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.cc'):
                    res.append(os.path.relpath(os.path.join(r, f), REPO))
    return res

if __name__ == '__main__':
    import time
    t = time.time()
    us = all_units(*sys.argv[1:])
    us = [u for u in us]
    p = load(us, allow_errors=('.cc',))
    print(len(us), 'units', len(p.fns), 'functions', len(p.recs), 'records', len(p.enums), 'enums', time.time() - t, 's')
