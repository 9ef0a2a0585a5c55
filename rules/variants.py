"""The tree type-checks under every documented build option.

Every translation unit is type-checked (nothing is generated or run) under combinations of the options that CMakeLists.txt
defines; every option occurs switched on in one combination and switched off in another. A combination of a unit is checked
again only if a file that the unit reads has changed.
"""
from kit import *
import facts as _facts
import hashlib, subprocess

ON = ['KAMINPAR_ENABLE_TIMERS', 'KAMINPAR_ENABLE_TIMER_BARRIERS', 'KAMINPAR_ENABLE_THP', 'KAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING',
      'KAMINPAR_COMPRESSION_INTERVAL_ENCODING', 'KAMINPAR_SPARSEHASH_FOUND', 'KAMINPAR_USES_GROWT']
D = lambda *o: tuple('-D' + x for x in o)
VAR = {
    'default': D(*ON),
    'wide': D(*ON, 'KAMINPAR_64BIT_NODE_IDS', 'KAMINPAR_64BIT_EDGE_IDS', 'KAMINPAR_64BIT_WEIGHTS', 'KAMINPAR_64BIT_LOCAL_WEIGHTS', 'KAMINPAR_ENABLE_STATISTICS',
              'KAMINPAR_ENABLE_HEAP_PROFILING', 'KAMINPAR_ENABLE_PAGE_PROFILING', 'KAMINPAR_EXPERIMENTAL'),
    'bare': D('KASSERT_ASSERTION_LEVEL=-1'),
    'codec': D(*ON, 'KAMINPAR_64BIT_EDGE_IDS', 'KAMINPAR_COMPRESSION_STREAMVBYTE_ENCODING', 'KAMINPAR_COMPRESSION_FAST_DECODING') + ('-mbmi2',),
}
DEEP = {
    'node ids': D(*ON, 'KAMINPAR_64BIT_NODE_IDS'),
    'edge ids': D(*ON, 'KAMINPAR_64BIT_EDGE_IDS'),
    'weights': D(*ON, 'KAMINPAR_64BIT_WEIGHTS'),
    'statistics': D(*ON, 'KAMINPAR_ENABLE_STATISTICS'),
    'heap': D(*ON, 'KAMINPAR_ENABLE_HEAP_PROFILING'),
    'experimental': D(*ON, 'KAMINPAR_EXPERIMENTAL'),
    'run length': D(*ON, 'KAMINPAR_COMPRESSION_RUN_LENGTH_ENCODING'),
    'no timers': D(*[o for o in ON if 'TIMER' not in o]),
    'no growt': D(*[o for o in ON if 'GROWT' not in o]),
    'light assertions': D(*ON, 'KASSERT_ASSERTION_LEVEL=10'),
}
MTK = D(*ON, 'KAMINPAR_HAVE_MTKAHYPAR_LIB', 'KAMINPAR_64BIT_WEIGHTS')
HANDLED = re.compile(r'KAMINPAR_[A-Z0-9_]+')

def units():
    return all_units('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'kaminpar-mpi', 'kaminpar-cli', 'apps')

def check(u, name, opts):
    """[] or the errors of one unit under one combination of options"""
    path = os.path.join(_facts.REPO, u)
    key = 'v' + hashlib.sha256(repr((base_hash(), path, opts, 'v2')).encode()).hexdigest()[:31]
    dp = os.path.join(cache_dir(), key + '.deps')
    known = []
    try: known = json.load(open(dp))
    except (OSError, ValueError): pass
    for deps in known:
        o = deps_key(key, deps)[:-3] + '.res'
        if os.path.exists(o):
            return json.load(open(o))
    mf = os.path.join(cache_dir(), '%s.%d.d' % (key, os.getpid()))
    pch = [] if any('KASSERT' in x or 'mbmi2' in x for x in opts) else ['-include-pch', PCH]
    cmd = ['clang++', '-fsyntax-only', '-MD', '-MF', mf] + BASE + pch + ['-isystem', os.path.join(VERIF, 'stub'), '-I' + _facts.REPO, '-I' + _facts.REPO + '/apps',
           '-isystem', _facts.REPO + '/external/growt'] + list(opts) + [path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    errs = []
    for l in r.stderr.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (fatal )?error: (.*)', l)
        if m: errs.append((os.path.relpath(m.group(1), _facts.REPO), int(m.group(2)), m.group(4)))
    if r.returncode and not errs: errs = [(u, 0, r.stderr[-300:])]
    try: t = open(mf).read()
    except OSError: t = ''
    deps = sorted({os.path.normpath(d) for d in t.replace('\\\n', ' ').split()[1:]})
    deps = [d for d in deps if d.startswith(_facts.REPO + '/') or d.startswith(VERIF + '/stub')]
    if os.path.exists(mf): os.remove(mf)
    if path not in deps: deps.append(path)
    o = deps_key(key, deps)[:-3] + '.res'
    z = o + '.%d' % os.getpid()
    json.dump(errs, open(z, 'w')); os.replace(z, o)
    if deps not in known:
        z = dp + '.%d' % os.getpid()
        json.dump(([deps] + known)[:6], open(z, 'w')); os.replace(z, dp)
    return errs

def jobs(tier):
    us = units()
    js = [(u, n, o) for n, o in VAR.items() for u in us]
    if tier == 'thorough': js += [(u, n, o) for n, o in DEEP.items() for u in us]
    js += [(u, 'mtkahypar', MTK) for u in us if 'KAMINPAR_HAVE_MTKAHYPAR_LIB' in open(os.path.join(_facts.REPO, u), errors='replace').read() or 'mtkahypar' in u]
    return js

def run(tier):
    res = Result()
    ensure_tool(); ensure_pch()
    base_hash()
    js = jobs(tier)
    with cf.ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        rs = list(ex.map(lambda j: check(*j), js))
    bad = {}
    for (u, n, o), errs in zip(js, rs):
        if not errs: res.ok('%s type-checks with %s' % (u, n)); continue
        f, l, m = errs[0]
        key = '%s|%s' % (f, re.sub(r"\W+", ' ', m)[:80].strip())
        res.bad(key, '%s:%s' % (f, l), '%s does not type-check with the options "%s" (%s): %s' % (u, n, ' '.join(x for x in o if x not in VAR['default'])[:160], m[:200]))
    # every option that CMakeLists.txt can define is switched in one of the combinations
    try: cm = open(os.path.join(_facts.REPO, 'CMakeLists.txt')).read()
    except OSError: cm = ''
    defs = set(re.findall(r'-D(KAMINPAR_[A-Z0-9_]+)', cm))
    have = {x[2:] for v in list(VAR.values()) + list(DEEP.values()) + [MTK] for x in v if x.startswith('-D')}
    for d in sorted(defs - have): res.skip('option %s is in no combination' % d)
    res.info = {'units': len(units()), 'combinations': len({n for _, n, _ in js}), 'type_checks': len(js)}
    return res
