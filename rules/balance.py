"""Every timing / profiling region that is opened is closed on every path, and vice versa.

Per function, the set of open regions is propagated over the control-flow graph (stack of regions; branches over
conditions that the function never changes are kept apart). A function whose paths all have the same non-neutral
effect hands that effect to its direct callers; it is reported if it has none, is virtual or is a lambda.
"""
from kit import *
from pathfx import PathFX

OPS = {  # qualified callee -> (kind, delta)
    'kaminpar::Timer::start_timer': ('timer', +1),
    'kaminpar::Timer::stop_timer': ('timer', -1),
    'kaminpar::Timer::disable': ('timers disabled', +1),
    'kaminpar::Timer::enable': ('timers disabled', -1),
    'kaminpar::heap_profiler::HeapProfiler::start_profile': ('heap profile', +1),
    'kaminpar::heap_profiler::HeapProfiler::stop_profile': ('heap profile', -1),
}
RESET = 'kaminpar::Timer::reset'
IMPL = ('kaminpar::Timer::', 'kaminpar::timer::', 'kaminpar::heap_profiler::')
UNITS_SKIP = ('apps/benchmarks/',)

EXTRA = ('-DKAMINPAR_ENABLE_HEAP_PROFILING',)

def units():
    return [u for u in all_units('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'kaminpar-mpi', 'kaminpar-cli', 'apps')
            if not u.startswith(UNITS_SKIP)]

class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.summ = {}
        self.active = set()
        self.callers = {}
        self.opfn = set()
        for f in prog.fns.values():
            for n in nodes(f):
                if n['k'] in CALLS and n.get('u'):
                    self.callers.setdefault(n['u'], set()).add(f['u'])
                    if callee(n) in OPS: self.opfn.add(f['u'])
        # functions that can reach an operation through direct calls
        self.rel = set(self.opfn)
        work = list(self.opfn)
        while work:
            u = work.pop()
            for c in self.callers.get(u, ()):
                if c not in self.rel: self.rel.add(c); work.append(c)
        self.reports = []

    def impl(self, fn):
        return fn['q'].startswith(IMPL)

    def effect(self, n):
        """ops of one call: list of (kind, delta)"""
        if n['k'] not in CALLS: return ()
        c = callee(n)
        if c in OPS: return (OPS[c],)
        if c == RESET: return (('reset', 0),)
        u = n.get('u')
        if u in self.rel and u in self.prog.fns and not n.get('virt'):
            f = self.prog.fns[u]
            if self.impl(f) or 'cfg' not in f: return ()
            return self.summary(f)
        return ()

    def summary(self, fn):
        u = fn['u']
        if u in self.summ: return self.summ[u]
        if u in self.active: return ()
        self.active.add(u)
        r = self.analyse(fn)
        self.active.discard(u)
        self.summ[u] = r
        return r

    def analyse(self, fn):
        idx, _ = index(fn)
        stable = stable_pred(fn)
        eff = {}
        for n in nodes(fn):
            e = self.effect(n)
            if e: eff[n['i']] = e
        if not eff: return ()
        roots = {}
        def transfer(n, s):
            ops = eff.get(n['i'])
            if not ops: return (s,)
            st, closed, asm = s
            for kind, d in ops:
                if kind == 'reset':
                    # the root region was closed and is restarted
                    roots.setdefault(n['i'], set()).add(sum(1 for c in closed if c[0] == 'timer'))
                    if sum(1 for c in closed if c[0] == 'timer') == 1 and not any(x[0] == 'timer' for x in st):
                        closed = tuple(c for c in closed if c[0] != 'timer')
                elif d > 0:
                    if len(st) < 16: st = st + ((kind, n['i']),)
                else:
                    for j in range(len(st) - 1, -1, -1):
                        if st[j][0] == kind:
                            st = st[:j] + st[j + 1:]
                            break
                    else:
                        if len(closed) < 6: closed = closed + ((kind, n['i']),)
            return ((st, closed, asm),)
        def edge(blk, i, s):
            lit = branch_literal(fn, blk, i, stable, self.prog)
            if lit is None: return s
            st, closed, asm = s
            if (lit[0], not lit[1]) in asm: return None
            if lit in asm: return s
            return (st, closed, asm | {lit})
        widen = lambda s: (s[0], s[1], frozenset())
        _, ex = forward(fn, ((), (), frozenset()), transfer, edge, limit=256, widen=widen)
        for i, cnt in roots.items():
            if len(cnt) > 1 and 1 in cnt: self.reports.append((fn, 'root', 'timer', idx[i]))
        effects = {}
        for st, closed, _ in ex:
            e = tuple((k, -1) for k, _ in closed) + tuple((k, +1) for k, _ in st)
            effects.setdefault(e, (st, closed))
        if not effects: return ()
        if set(effects) == {()}: return ()
        if len(effects) == 1:
            (e, w), = effects.items()
            if not fn.get('lambda') and not fn.get('virt') and fn['n'] != 'main' and (self.callers.get(fn['u'], set()) - {fn['u']}):
                return e
        for e, (st, closed) in effects.items():
            for k, i in st: self.reports.append((fn, 'open', k, idx[i]))
            for k, i in closed: self.reports.append((fn, 'close', k, idx[i]))
        return ()

IMPLS = [  # class, member that designates the innermost open region, open, close
    ('kaminpar::Timer', 'current', 'start_timer', 'stop_timer'),
    ('kaminpar::heap_profiler::HeapProfiler', 'currentNode', 'start_profile', 'stop_profile'),
]

def check_impl(prog, res):
    """the region stack itself: opening descends by one, closing ascends by one, under the same gate"""
    for cls, cur, opn, cls_ in IMPLS:
        def classify(fn, n):
            a = assigned(n)
            if a is None: return None
            a = strip(a)
            if a['k'] == 'Mem' and a['n'] == cur and text(a).startswith('this.'):
                rhs = strip(n['c'][1]) if len(n['c']) > 1 else None
                if rhs is not None and rhs['k'] == 'Mem' and rhs['n'] == 'parent': return 'up'
                return 'down'
            if a['k'] == 'Mem' and a['n'] == 'start' and 'TimerTreeNode' in a.get('q', ''): return 'stamp'
            if a['k'] == 'Mem' and a['n'] == 'elapsed' and 'TimerTreeNode' in a.get('q', ''): return 'account'
            return None
        inl = lambda f, n, f2: f2.get('cls') == cls
        fx = PathFX(prog, classify, inl, ordered=True)
        gates = {}
        for name, want in ((opn, 'down'), (cls_, 'up')):
            fs = [f for f in prog.byq.get(cls + '::' + name, ()) if 'cfg' in f]
            if not fs: raise AnalysisBroken('%s::%s not found' % (cls, name))
            for f in fs:
                eff = fx.effects(f)
                zero = [l for l, c in eff if not any(x in ('up', 'down') for x in c)]
                one = []
                for l, c in eff:
                    mv = [x for x in c if x in ('up', 'down')]
                    if not mv: continue
                    one.append(l)
                    if mv != [want]:
                        res.bad('%s::%s|moves' % (cls, name), '%s:%d' % (f['f'], f['l']), '%s::%s does not move exactly one region %s on some path (%s)' % (cls, name, want, mv)); break
                    if cls == 'kaminpar::Timer':
                        if want == 'down' and c.count('stamp') != 1 or want == 'up' and (c.count('account') != 1 or c.index('account') > c.index('up')):
                            res.bad('%s::%s|time' % (cls, name), '%s:%d' % (f['f'], f['l']), '%s::%s does not record the time of the region it %s exactly once on some path' % (cls, name, 'opens' if want == 'down' else 'closes')); break
                else:
                    if not one:
                        res.bad('%s::%s|never' % (cls, name), '%s:%d' % (f['f'], f['l']), '%s::%s never moves the current region' % (cls, name))
                    else:
                        res.ok('%s::%s: one step %s per call' % (cls, name, want))
                Z = frozenset.intersection(*zero) if zero else None
                N = frozenset.intersection(*one) if one else frozenset()
                if Z is None: g = frozenset()
                else: g = frozenset(l for l in Z if (l[0], not l[1]) in N)
                gates.setdefault(name, set()).add(g)
                if zero and not g:
                    res.bad('%s::%s|gate' % (cls, name), '%s:%d' % (f['f'], f['l']), '%s::%s leaves the region stack alone on a path that does not depend on profiling being disabled' % (cls, name))
        if gates[opn] != gates[cls_]:
            res.bad('%s|gates differ' % cls, fs[0]['f'], 'opening a region in %s is gated by %s but closing it by %s' % (cls, sorted(map(sorted, gates[opn])), sorted(map(sorted, gates[cls_]))))
        else:
            res.ok('%s: opening and closing are gated by the same condition %s' % (cls, sorted(map(sorted, gates[opn]))))
    # RAII wrappers
    def calls(name): return lambda fn, n: name if n['k'] in CALLS and short(callee(n)) == name else None
    for q, name in (('kaminpar::timer::ScopedTimer::~ScopedTimer', 'stop_timer'), ('kaminpar::Timer::start_scoped_timer', 'start_timer'), ('kaminpar::timer::TimedScope::operator+', 'start_scoped_timer'),
                    ('kaminpar::heap_profiler::ScopedHeapProfiler::~ScopedHeapProfiler', 'stop_profile'), ('kaminpar::heap_profiler::ScopedHeapProfiler::ScopedHeapProfiler', 'start_profile')):
        fs = [f for f in prog.byq.get(q, ()) if 'cfg' in f]
        if not fs:
            res.skip(q + ' not instantiated'); continue
        def inl(f, n, f2): return f2.get('cls') == f.get('cls') and short(callee(n)) != name
        for f in fs[:6]:
            eff = PathFX(prog, calls(name), inl).effects(f)
            bad = [(l, c) for l, c in eff if dict(c).get(name, 0) != 1 and not any(t in ('this._timer',) for t, v in l)]
            if bad: res.bad(q + '|once', '%s:%d' % (f['f'], f['l']), '%s does not call %s exactly once on every path' % (q, name))
            else: res.ok('%s calls %s exactly once' % (q, name))

def check_nesting(prog, res):
    """where switching off is counted, switching on takes back one step of the count"""
    for cls in ('kaminpar::Timer', 'kaminpar::heap_profiler::HeapProfiler'):
        fs = {f['n']: f for f in prog.fns.values() if f.get('cls') == cls and f['n'] in ('enable', 'disable') and f.get('b')}
        if len(fs) != 2: continue
        def writes(f):
            for n in nodes(f):
                if n['k'] == 'Un' and n.get('op') in ('++', '--', 'p++', 'p--') or n['k'] == 'CAssign' or n['k'] == 'Bin' and n.get('op') in ASSIGN:
                    l = strip(n['c'][0])
                    if isinstance(l, dict) and l['k'] == 'Mem' and 'n' in l:
                        yield l['n'], n, n.get('op') not in ('=',) or any(x['k'] == 'Mem' and x.get('n') == l['n'] for x in walk(n['c'][1]))
        counted = {m for m, n, rel in writes(fs['disable']) if rel}
        for m, n, rel in writes(fs['enable']):
            if m not in counted: continue
            if rel: res.ok('%s::enable takes back one step' % cls)
            else: res.bad('%s|enable' % cls, at(fs['enable'], n), '%s: switching on once undoes every earlier switching off, regions in between are opened and closed under different conditions' % cls)

def run(tier):
    res = Result()
    prog = load(units(), extra=EXTRA)
    eng = Engine(prog)
    nf = 0; scoped = 0
    for fn in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'])):
        if eng.impl(fn) or 'cfg' not in fn: continue
        nf += 1
        eng.summary(fn)
    check_impl(prog, res)
    check_nesting(prog, res)
    bad = {(f['f'], n.get('l'), k) for f, _, k, n in eng.reports}
    done = set()
    nsites = 0
    for fn in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'])):
        if eng.impl(fn): continue
        for n in nodes(fn):
            if n['k'] not in CALLS: continue
            c = callee(n)
            if c == 'kaminpar::Timer::start_scoped_timer': scoped += 1
            if c in OPS:
                nsites += 1
                k0 = (fn['f'], n.get('l'), OPS[c][0])
                if k0 in done or k0 in bad: continue
                done.add(k0)
                res.ok('%s %s in %s: matched on every path' % (at(fn, n), short(c), fn['q']))
    for fn, what, kind, n in eng.reports:
        if what == 'root':
            res.bad('%s|root' % fn['q'], at(fn, n), 'the root region is restarted in %s, but on some path to this point another region was closed instead of it' % fn['q'])
        elif what == 'open':
            res.bad('%s|%s|left open' % (fn['q'], kind), at(fn, n), '%s region opened in %s is still open on a path to its end' % (kind, fn['q']))
        else:
            res.bad('%s|%s|not open' % (fn['q'], kind), at(fn, n), '%s region is closed in %s on a path on which it is not open' % (kind, fn['q']))
    res.info = {'units': len(prog.units), 'functions': nf, 'sites': nsites, 'scoped_sites': scoped}
    return res
