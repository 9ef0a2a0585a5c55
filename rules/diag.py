"""Diagnostics only observe.

Diagnostic code is what the assertion, debug and statistics macros expand to (their operands included), what is guarded by kDebug or
kStatistics, and what is compiled for assertions only. The tree is analysed with all of it switched on. A location that
diagnostic code writes must be read by diagnostic code only; diagnostic code does not leave the function or the loop.
"""
from kit import *
from effects import *
import hashlib
import facts as _facts

DIAGM = {'KASSERT', 'THROWING_KASSERT', 'DBG', 'DBGC', 'DBGX', 'DBG0', 'IFDBG', 'IF_DBG', 'IF_DBGX', 'IF_DBG0', 'STATS', 'STATSC', 'LOG_STATS', 'IFSTATS', 'IFSTATSC', 'IF_STATS', 'IF_STATSC', 'RECORD', 'RECORD_DATA_STRUCT', 'RECORD_LOCAL_DATA_STRUCT', 'IF_HEAP_PROFILING'}
FLAGS = {'kDebug', 'kStatistics', 'kHeapProfiling'}
KFLAGS = frozenset(FLAGS)
OVL = [('kaminpar-common/logger.h', [('static constexpr bool kDebug = value', 'static constexpr bool kDebug = (value, true)'), ('constexpr static bool kStatistics = value', 'constexpr static bool kStatistics = (value, true)')])]

def overlay():
    """compiles the tree with all diagnostics on, without touching it"""
    roots, tag = [], hashlib.sha256()
    d = os.path.join(_facts.BUILD, 'overlay'); os.makedirs(d, exist_ok=True)
    for f, subst in OVL:
        p = os.path.join(_facts.REPO, f); s = open(p).read()
        for a, b in subst:
            if a not in s: raise AnalysisBroken('cannot switch the diagnostics on: %s' % a)
            s = s.replace(a, b)
        tag.update((p + s).encode())
        roots.append((p, s))
    t = tag.hexdigest()[:16]
    res = []
    for i, (p, s) in enumerate(roots):
        q = os.path.join(d, '%s.%d.h' % (t, i))
        if not os.path.exists(q):
            open(q + '.tmp%d' % os.getpid(), 'w').write(s); os.replace(q + '.tmp%d' % os.getpid(), q)
        res.append('--map=%s=%s' % (p, q))
    return res

def units():
    return all_units('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'kaminpar-mpi')

_lines = {}
def assert_lines(f):
    """lines of a file that are compiled for assertions only"""
    if f not in _lines:
        out, st = set(), []
        try: src = open(os.path.join(_facts.REPO, f), errors='replace').read().split('\n')
        except OSError: src = []
        for i, l in enumerate(src, 1):
            t = l.strip()
            if re.match(r'#\s*if', t): st.append('KASSERT_ENABLED' in t or 'KASSERT_ASSERTION_LEVEL' in t)
            elif re.match(r'#\s*(else|elif)', t) and st: st[-1] = False
            elif re.match(r'#\s*endif', t) and st: st.pop()
            elif any(st): out.add(i)
        _lines[f] = out
    return _lines[f]

class Diag:
    def __init__(self, prog, flags=frozenset()):
        self.prog = prog
        self.flags = flags  # members that switch diagnostics on at run time
        self.ids = {}       # fn u -> ids of diagnostic nodes
        self.fns = set()    # functions (lambdas) that are diagnostic as a whole
        self.roots = {}     # fn u -> outermost diagnostic nodes
        todo = [f for f in prog.fns.values() if not f.get('dep')]
        lam = [f for f in todo if f.get('lambda')]
        for f in todo: self.mark(f)
        # lambdas written within diagnostic code
        ch = True
        while ch:
            ch = False
            for f in todo:
                whole = f['u'] in self.fns
                for x in nodes(f):
                    if x['k'] == 'Lambda' and (whole or x.get('i') in self.ids[f['u']]):
                        for b in lambda_bodies(prog, f, x):
                            if b['u'] not in self.fns: self.fns.add(b['u']); ch = True
        self.closure(todo)

    def mark(self, f):
        ids, rts = set(), []
        def is_diag(n):
            m = n.get('m')
            if m and m.split('>')[0].lstrip('@') in DIAGM: return True
            return n.get('l') in assert_lines(n.get('f') or f['f'])
        def go(n, d, fl):
            if not isinstance(n, dict): return
            here = d or is_diag(n)
            if here and not d: rts.append(n)
            if here and 'i' in n: ids.add(n['i'])
            if n['k'] == 'If' and not here and n['c'][1] is not None:
                isf = lambda x: x['k'] == 'DRef' and x['n'] in FLAGS or x['k'] == 'Mem' and x.get('q') in self.flags
                t = [x for x in walk(n['c'][1]) if isf(x)]
                neg = any(x['k'] == 'Un' and x['op'] == '!' and any(isf(y) for y in walk(x)) for x in walk(n['c'][1]))
                ids.update(x['i'] for x in t if 'i' in x)
                for i, c in enumerate(n['c']):
                    dd = bool(t) and (i == 2 and not neg or i == 3 and neg)
                    if dd and c is not None: rts.append(c)
                    go(c, dd, fl)
                return
            for c in n.get('c') or (): go(c, here, fl)
            for c in n.get('caps') or ():
                if isinstance(c, dict) and 'init' in c: go(c['init'], here, fl)
        for r in [f.get('b')] + [i.get('e') for i in f.get('inits', ())]: go(r, False, f)
        self.ids[f['u']] = ids
        self.roots[f['u']] = rts

    def diag(self, f, n):
        return f['u'] in self.fns or n.get('i') in self.ids[f['u']]

    def closure(self, todo):
        """functions called from diagnostic code only"""
        callers = {}
        for f in todo:
            for x in nodes(f):
                u = x.get('u')
                if u and (x['k'] in CALLS or x['k'] in ('DRef', 'Mem')):
                    callers.setdefault(u, []).append((f, x))
        # the same function in several units or instantiations: judged by name and place
        self.callers = callers
        by = {}
        for f in todo:
            if not f.get('lambda'): by.setdefault((f['f'], f['l'], f['q']), []).append(f)
        ch = True
        while ch:
            ch = False
            for k, fs in by.items():
                if fs[0]['u'] in self.fns: continue
                if any(f.get('virt') or f.get('ctor') or f.get('dtor') or f['n'].startswith('operator') or f['n'].startswith('~') for f in fs): continue
                cs = [c for f in fs for c in callers.get(f['u'], ())]
                cs = [(g, x) for g, x in cs if g['u'] not in {f['u'] for f in fs}]
                if not cs: continue
                if all(self.diag(g, x) for g, x in cs):
                    st = list(fs)
                    while st:
                        f = st.pop()
                        self.fns.add(f['u'])
                        for x in nodes(f):
                            if x['k'] == 'Lambda':
                                for b in lambda_bodies(self.prog, f, x):
                                    if b['u'] not in self.fns: st.append(b)
                    ch = True
        # never called: not part of any run
        self.dead = {f['u'] for f in todo if not f.get('lambda') and not callers.get(f['u']) and f.get('cls') and not f.get('virt') and not f.get('ctor')
                     and not f['n'].startswith(('operator', '~'))}

def run_time_flags(prog, dg):
    """members that only diagnostic code ever switches"""
    dw, nw = set(), set()
    for f in prog.fns.values():
        if f.get('dep'): continue
        for x in nodes(f):
            a = assigned(x)
            if a is None: continue
            a = strip(a)
            if a['k'] == 'Mem' and a.get('t') == 'bool': (dw if dg.diag(f, x) else nw).add(a.get('q'))
    return frozenset(dw - nw)

POISON = re.compile(r'kInvalid')

class Values:
    """values computed by diagnostic expressions must end in diagnostic code"""
    def __init__(self, prog, dg, res):
        self.prog, self.dg, self.res = prog, dg, res
        self.uses, self.lams = {}, {}       # (unit, d) -> reads
        for f in prog.fns.values():
            if f.get('dep'): continue
            for x in nodes(f):
                if x['k'] == 'Lambda':
                    for b in lambda_bodies(prog, f, x): self.lams[b['u']] = (f, x)
                if x['k'] == 'DRef' and x.get('dk') not in ('func', 'enum', 'global'): self.uses.setdefault((f['unit'], x.get('d')), []).append((f, x))
        self.seen, self.n = set(), 0

    def run(self):
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or f['u'] in self.dg.fns or f['u'] in self.dg.dead: continue
            idx, par = index(f)
            for r in self.dg.roots[f['u']]:
                p = par.get(r.get('i'))
                if r['k'] in ('If', 'Compound', 'Do', 'While', 'For', 'RFor', 'Decl', 'Null', 'Var', 'Return') or (r.get('t') or 'void') == 'void': continue
                if p is None or p['k'] in ('Compound', 'For', 'RFor', 'While', 'If', 'Case', 'Default', 'Label'): continue
                self.n += 1
                k = (f['f'], r.get('l'))
                if self.flow(f, r, k): self.res.ok('%s:%s the value of %s ends in diagnostic code' % (k + ((r.get('m') or 'diagnostic code').split('>')[0],)))

    def bad(self, f, x, k, how):
        self.res.bad('%s|value' % f['q'], at(f, x), 'a value that only diagnostic code at %s:%s computes %s in %s' % (k + (how, f['q'])))
        return False

    def var(self, unit, d, k):
        if (unit, d) in self.seen: return True
        self.seen.add((unit, d))
        ok = True
        for g, y in self.uses.get((unit, d), ()):
            if self.dg.diag(g, y) or g['u'] in self.dg.dead: continue
            idx, par = index(g)
            p = par.get(y.get('i'))
            if p is not None and (assigned(p) is y): continue
            if not self.flow(g, y, k): ok = False
        return ok

    def flow(self, f, x, k, pos=None):
        """where the value of x goes; pos: position within the pair it is part of"""
        idx, par = index(f)
        y, p = x, par.get(x.get('i'))
        while p is not None:
            q = p['k']
            if self.dg.diag(f, p): return True
            if q == 'Var':
                if p.get('binds'):
                    if pos is None or pos >= len(p['binds']): return True
                    return self.var(f['unit'], p['binds'][pos]['d'], k)
                if pos is not None: return True
                return self.var(f['unit'], p.get('d'), k)
            if q in ('If', 'While', 'For', 'Do', 'Switch', 'Cond'):
                if q == 'Cond' and y is not p['c'][0]: y, p = p, par.get(p.get('i')); continue
                if y is (p['c'][1] if q in ('If', 'For') else p['c'][0]) or q == 'Do' and y is p['c'][-1]: return self.bad(f, x, k, 'decides') if pos is None else True
                return True
            if q == 'Compound' or q == 'Decl': return True
            if q == 'Return':
                ok = True
                if f.get('lambda'):
                    # handed out by the call that runs the lambda
                    g, n = self.lams.get(f['u'], (None, None))
                    if g is None: return True
                    gi, gp = index(g)
                    c = gp.get(n.get('i'))
                    while c is not None and c['k'] in ('Cast', 'Ctor', 'Paren'): c = gp.get(c.get('i'))
                    cs = [(g, c)]
                    if c is not None and c['k'] == 'Var':
                        cs = []
                        for h, z in self.uses.get((g['unit'], c.get('d')), ()):
                            hp = index(h)[1]; w = hp.get(z.get('i'))
                            while w is not None and w['k'] in ('Cast', 'Ctor', 'Paren'): w = hp.get(w.get('i'))
                            cs.append((h, w))
                    ok = True
                    for g, c in cs:
                        if c is None or c['k'] not in CALLS or ('l', c['i'], g['u'], pos) in self.seen: continue
                        self.seen.add(('l', c['i'], g['u'], pos))
                        t = (x.get('t') or '').replace('const ', '') if pos is None else 'std::pair<'
                        if (c.get('t') or '').replace('const ', '').startswith(t) and not self.dg.diag(g, c) and not self.flow(g, c, k, pos): ok = False
                    return ok
                if f.get('virt') and pos is None and not self.dg.diag(f, p): return self.bad(f, x, k, 'is part of the result')
                for g, c in self.dg.callers.get(f['u'], ()):
                    if c['k'] in CALLS and not self.dg.diag(g, c) and g['u'] not in self.dg.dead and ('r', f['u'], c['i'], g['u']) not in self.seen:
                        self.seen.add(('r', f['u'], c['i'], g['u']))
                        if not self.flow(g, c, k, pos): ok = False
                return ok
            if q in CALLS and short(callee(p)) in ('make_pair', 'make_tuple', 'tie') or q in ('Ctor', 'InitList') and re.match(r'(const )?std::(pair|tuple)<', p.get('t') or '') and len([c for c in p.get('c') or () if c is not None]) > 1:
                cs = args(p) if q in CALLS else [c for c in p['c'] if c is not None]
                i = next((j for j, c in enumerate(cs) if c is y), None)
                if i is None: return True
                pos, y, p = i, p, par.get(p.get('i')); continue
            if q in ('Cast', 'Un', 'Bin', 'DefInit', 'InitList', 'OpCall', 'Paren') or q == 'Ctor' and (len(p.get('c') or ()) == 1):
                a = assigned(p)
                if a is not None:
                    if a is y: return True
                    a = strip(a)
                    if a['k'] == 'DRef' and a.get('dk') in ('var', 'parm') and not (a.get('t') or '').endswith('&'):
                        y2, p2 = p, par.get(p.get('i'))
                        return self.var(f['unit'], a.get('d'), k)
                    if a['k'] == 'Mem': return self.bad(f, x, k, 'is stored in %s' % short(a.get('q') or a['n']))
                    return True
                y, p = p, par.get(p.get('i')); continue
            if q in CALLS and p['k'] != 'OpCall':
                g = fn_of(self.prog, p)
                i = next((j for j, c in enumerate(args(p)) if c is y), None)
                if g is None or i is None or i >= len(g['p']) or pos is not None: self.res.skip('%s passes a diagnostic value to %s' % (at(f, p), callee(p))); return True
                return self.var(g['unit'], g['p'][i].get('d'), k)
            return True
        return True

def run(tier):
    res = Result()
    prog = load(units(), extra=overlay(), allow_errors=('parallel_compressed_graph_builder.cc',))
    dg = Diag(prog)
    fl = run_time_flags(prog, dg)
    if fl: dg = Diag(prog, fl)
    ef = Effects(prog); ef.diagfns = dg.fns
    reads = {}      # field or local -> places outside diagnostics that read it
    ndiag = 0
    ownerless = ('kaminpar::logger::', 'kaminpar::Timer', 'kaminpar::heap_profiler', 'kaminpar::timer', 'kaminpar::Logger', 'kaminpar::DBGContext')
    for f in prog.fns.values():
        if f.get('dep') or f['u'] in dg.fns or f['u'] in dg.dead: continue
        if f.get('cls', '').startswith(ownerless): continue
        idx, par = index(f)
        for x in nodes(f):
            if x.get('i') in dg.ids[f['u']]: continue
            if x['k'] == 'Mem' and not x.get('fn') or x['k'] == 'DRef' and x.get('dk') not in ('func', 'enum'):
                # not a read if it is only overwritten or counted up as a statement of its own
                p = par.get(x.get('i')); y = x
                while p is not None and (p['k'] == 'Sub' and p['c'][0] is y or p['k'] == 'OpCall' and p['op'] == '[]' and p['c'][0] is y or p['k'] == 'Cast'): y, p = p, par.get(p.get('i'))
                if p is not None and assigned(p) is y: continue
                if p is not None and p['k'] == 'MCall' and p['c'][0] is y and short(callee(p)) in ('clear', 'resize', 'reserve', 'emplace_back', 'push_back', 'store', 'reset'): continue
                if x['k'] == 'Mem' and 'operator' in f['n'] and 'Stat' in f.get('cls', '') and (x.get('q') or '').startswith(f['cls']): continue      # combines statistics
                if p is not None and p['k'] == 'Mem' and p['c'][0] is y and not p.get('fn'): continue     # a more specific member is meant
                key = ('F', x.get('q')) if x['k'] == 'Mem' else ('L', f['unit'], x.get('d')) if x.get('dk') not in ('global', 'slocal') else ('G', x.get('q') or x['n'])
                reads.setdefault(key, (f, x))
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep'): continue
        if f['u'] in dg.fns and f.get('lambda'): continue
        if f['u'] not in dg.fns and not dg.roots[f['u']]: continue
        if f.get('cls', '').startswith(ownerless): continue
        whole = f['u'] in dg.fns
        for r in ([f['b']] if whole and f.get('b') else dg.roots[f['u']]):
            inner = set()
            decl = set()
            ns = []
            def collect(g, root):
                for x in walk(root):
                    ns.append((g, x))
                    if x['k'] == 'Var': decl.add(x.get('d')); decl.update(b['d'] for b in x.get('binds') or ())
                    if x['k'] == 'Lambda':
                        for b in lambda_bodies(prog, g, x)[:1]: collect(b, b['b'])
            collect(f, r)
            k0 = (f['f'], r.get('l'), r.get('m'))
            wr = []
            for g, x in ns:
                if x['k'] in CALLS and callee(x).startswith('std::fill') and POISON.search(text(args(x)[-1], consts=False)): continue     # poisons memory for the assertions
                for (b, fl), s in ef.sites(g, [x]): wr.append((b, fl, s, g))
            bad = False
            for b, fl, s, g in wr:
                if b[0] in ('C',) or whole and b[0] == 'P': continue
                if b[0] == 'L' and (b[1] in decl): continue
                if fl.startswith(ownerless) or b[0] == 'G' and b[1].startswith(ownerless): continue
                if b[0] == 'U': continue
                if b[0] == 'L' and fl and fl.split('::')[-1] : pass
                if fl: key = ('F', fl)
                elif b[0] == 'L': key = ('L', f['unit'], b[1])
                elif b[0] == 'P':
                    e = [p for p in prog.fns[b[2]]['p']][b[1]] if b[2] in prog.fns else {}
                    key = ('L', prog.fns[b[2]]['unit'] if b[2] in prog.fns else 0, e.get('d'))
                elif b[0] == 'G': key = ('G', b[1])
                else: continue
                if b[0] == 'G' and b[1].startswith('singleton '): reads.setdefault(key, (f, {'l': 0, 'n': b[1]}))
                if key not in reads: continue
                h, y = reads[key]
                bad = True
                res.bad('%s|%s' % (f['q'], fl or y.get('n')), '%s:%s' % (g['f'], s.get('l')), 'diagnostic code in %s changes %s, which is read at %s:%s' % (f['q'], fl or (b[1] if b[0] == 'G' else y.get('n')), h['f'], y.get('l')))
            # leaving
            stack = [(r, 0, 0)] if not whole else []
            while stack:
                x, loop, sw = stack.pop()
                if not isinstance(x, dict): continue
                k = x['k']
                if k == 'Return' or k == 'Throw' or k == 'Break' and not loop or k == 'Continue' and loop != 1 or k == 'Goto':
                    if not (x.get('m') or '').startswith('KASSERT'):
                        bad = True
                        res.bad('%s|%s' % (f['q'], k.lower()), '%s:%s' % (f['f'], x.get('l')), 'diagnostic code in %s changes the control flow (%s)' % (f['q'], k.lower()))
                nl = 1 if k in ('For', 'RFor', 'While', 'Do') else 2 if k == 'Switch' and not loop else loop
                for c in x.get('c') or (): stack.append((c, nl, 0))
            if not bad and k0 not in seen:
                seen.add(k0)
                res.ok('%s:%s %s only observes' % (f['f'], r.get('l'), (r.get('m') or 'guarded block').split('>')[0]) if wr or len(seen) % 400 == 1 else None)
    if len(seen) < 100: raise AnalysisBroken('no diagnostics found')
    Values(prog, dg, res).run()
    res.info = {'units': len(prog.units), 'diagnostic_sites': len(seen), 'diagnostic_functions': len(dg.fns)}
    return res
