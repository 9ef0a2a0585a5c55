"""Randomness comes from the seeded generator only.

 source   no entropy source (random devices, C library generators, clocks, process or thread identity) feeds anything but time measurement
 engine   every engine is seeded with a value that stems from the seed before numbers are drawn from it
 reset    setting the seed stores it and resets all state of every existing generator; new generators start from it
 entry    the programs set the seed given on the command line before they partition
"""
from kit import *
from effects import *

BANNED = re.compile(r'^(std::|::)?(rand|srand|random|srandom|drand48|lrand48|mrand48|rand_r|time|clock|clock_gettime|gettimeofday|getpid|gettid|getppid|times|sched_getcpu|getrandom|getentropy|arc4random|__rdtsc|gethostname|gethostid|pthread_self)$|^std::random_device|^std::this_thread::get_id$|^std::chrono::.*::now$|^std::(_V2::)?(chrono::)?.*_clock::now$|^MPI_Wtime$|^omp_get_wtime$')
ENGINE = re.compile(r'(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine|philox_engine)')
DRAWS = ('shuffle', 'sample', 'generate_canonical')
TIMEOWN = ('kaminpar::Timer', 'kaminpar::timer', 'kaminpar::heap_profiler')

def units():
    return all_units('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'kaminpar-mpi', 'kaminpar-cli', 'apps')

def leaves(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict): continue
        yield x
        if x['k'] == 'Mem' and not x.get('fn'): continue     # the member is meant, not the object around it
        st.extend(x.get('c') or ())

class Rand:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.ef = Effects(prog)
        self.callers = {}
        self.lamowner = {}
        for f in prog.fns.values():
            if f.get('dep'): continue
            for n in nodes(f):
                if n['k'] in CALLS and n.get('u'): self.callers.setdefault(n['u'], []).append((f, n))
                if n['k'] == 'Lambda':
                    for b in lambda_bodies(prog, f, n): self.lamowner[b['u']] = f

    # ---------------------------------------------------------------- seeds
    def seedy(self, f, n, depth=0, seen=None):
        """does the value stem from the seed?"""
        seen = seen or set()
        if n is None or depth > 8: return False
        for x in leaves(n):
            if x['k'] == 'DRef':
                q = x.get('q') or ''
                if q.endswith('Random::_seed'): return True
                if x.get('dk') in ('func', 'enum', 'global', 'slocal'): continue
                e = self.ef.decl.get((f['unit'], x.get('d')))
                if e is None or (f['unit'], x['d']) in seen: continue
                s2 = seen | {(f['unit'], x['d'])}
                kind, v, i, owner = e
                if kind == 'p':
                    cs = self.callers.get(owner['u'], ())
                    if not cs:
                        if 'seed' in x['n']: return True
                        continue
                    rs = []
                    for g, c in cs:
                        a = args(c) if c['k'] != 'OpCall' else c['c'][1:]
                        rs.append(i < len(a) and self.seedy(g, a[i], depth + 1, s2))
                    if rs and all(rs): return True
                elif kind == 'v':
                    if self.bound(owner, x['d']): return True
                    for c in v.get('c') or ():
                        if self.seedy(owner, c, depth + 1, s2): return True
            if x['k'] == 'Mem' and not x.get('fn') and self.field_bound(x.get('q')): return True
            if x['k'] in CALLS:
                if callee(x).endswith('Random::get_seed'): return True
                # drawn from a generator that is seeded itself
                if 'Random::' in callee(x) and short(callee(x)) in ('random_index', 'random_bool', 'generator', 'instance'): return True
        return False

    def option_target(self, n):
        """the variable an option named seed is bound to"""
        if n['k'] == 'MCall' and short(callee(n)) == 'add_option':
            a = args(n)
            if len(a) > 1 and a[0] is not None and any(x['k'] == 'Str' and 'seed' in x['v'].split(',')[-1].split('-') for x in walk(a[0])): return strip(a[1])
    def options(self):
        if not hasattr(self, '_opt'):
            self._opt = ([], set())
            for f in self.prog.fns.values():
                if f.get('dep'): continue
                for n in nodes(f):
                    t = self.option_target(n)
                    if t is not None:
                        if t['k'] == 'Mem': self._opt[1].add(t.get('q'))
                        elif t['k'] == 'DRef': self._opt[0].append((f['unit'], t['d']))
        return self._opt
    def bound(self, f, d): return (f['unit'], d) in self.options()[0]
    def field_bound(self, q): return q in self.options()[1]

    # ---------------------------------------------------------------- rules
    def sources(self):
        res = self.res
        for f in self.prog.fns.values():
            if f.get('dep'): continue
            for n in nodes(f):
                if n['k'] not in CALLS and not (n['k'] == 'Var' and 'random_device' in (n.get('t') or '')): continue
                q = callee(n) if n['k'] != 'Var' else 'std::random_device'
                if not BANNED.match(q): continue
                if q == 'std::clock' or 'now' in short(q) or 'time' in short(q).lower():
                    if f.get('cls', '').startswith(TIMEOWN) or f['q'].startswith(TIMEOWN): continue
                    if self.only_measured(f, n):
                        res.ok('%s: %s is used to measure a duration only' % (at(f, n), q)); continue
                if self.stopwatch(f): continue
                res.bad('%s|%s' % (f['q'], q), at(f, n), '%s uses %s: results no longer depend on the seed alone' % (f['q'], q))
        res.ok('no entropy source in %d functions' % len(self.prog.fns))

    def identity(self):
        """addresses and thread numbers decide nothing; generators live in the registry only"""
        res = self.res
        n1 = n2 = 0
        def subscript(f, x, depth=0):
            """the value is used to select an element only"""
            idx, par = index(f)
            y, p = x, par.get(x.get('i'))
            while p is not None:
                if p['k'] == 'Sub' and p['c'][1] is y or p['k'] == 'OpCall' and p['op'] == '[]' and p['c'][1] is y: return True
                if p['k'] == 'MCall' and short(callee(p)) == 'at' and args(p)[:1] == [y]: return True
                if (p.get('m') or '').startswith('KASSERT'): return True
                if p['k'] == 'Var' and depth < 4:
                    us = [(g, z) for g in self.around(f) for z in nodes(g) if z['k'] == 'DRef' and z.get('d') == p.get('d')]
                    return all(subscript(g, z, depth + 1) for g, z in us)
                if p['k'] == 'Return' and depth < 4:
                    return all(g.get('dep') or subscript(g, c, depth + 1) for g, c in self.callers.get(f['u'], ())) and not f.get('lambda')
                if p['k'] in ('Cast', 'Ctor', 'Paren', 'DefInit') or p['k'] == 'Bin' and p['op'] in ('*', '+', '%'): y, p = p, par.get(p.get('i')); continue
                return False
            return False
        for f in self.prog.fns.values():
            if f.get('dep'): continue
            own = f.get('cls') == 'kaminpar::Random'
            quiet = f.get('cls', '').startswith(TIMEOWN) or f['q'].startswith(TIMEOWN)
            for n in nodes(f):
                if n['k'] == 'Cast' and n.get('cast') == 'PointerToIntegral' and not quiet:
                    res.bad('%s|address' % f['q'], at(f, n), '%s computes with the address %s: results no longer depend on the seed alone' % (f['q'], text(n)[:80]))
                elif n['k'] in CALLS and callee(n) == 'std::hash::operator()' and re.search(r'std@S@hash>#\*', n.get('u') or '') and not quiet:
                    res.bad('%s|address' % f['q'], at(f, n), '%s hashes an address' % f['q'])
                elif n['k'] in CALLS and short(callee(n)) in ('current_thread_index', 'thread_num', 'omp_get_thread_num'):
                    n1 += 1
                    if own and f['n'] in ('Random', 'reinit', 'create_instance', 'reseed'): continue
                    if not subscript(f, n): res.bad('%s|thread' % f['q'], at(f, n), '%s uses the number of the thread for more than selecting its own data' % f['q'])
                elif n['k'] == 'Ctor' and callee(n) == 'kaminpar::Random::Random' and not n.get('copy') and not n.get('move') and not own:
                    res.bad('%s|own' % f['q'], at(f, n), '%s creates a generator of its own, which setting the seed does not reset' % f['q'])
                elif n['k'] == 'Var' and re.search(r'kaminpar::Random(?=[,>\s\[]|$)(?!\s*[&*])', n.get('t') or '') and not own:
                    res.bad('%s|own' % f['q'], at(f, n), '%s creates a generator of its own, which setting the seed does not reset' % f['q'])
                elif n['k'] in CALLS and callee(n) == 'std::make_unique' and 'unique_ptr<kaminpar::Random' in (n.get('t') or ''):
                    n2 += 1
                    if not own: res.bad('%s|own' % f['q'], at(f, n), '%s creates a generator of its own, which setting the seed does not reset' % f['q'])
                # state that no reset reaches
                if own and n['k'] == 'Var' and n.get('static') and not (n.get('t') or '').startswith('const ') and not (n.get('t') or '').endswith('&'):
                    res.bad('%s|static' % f['q'], at(f, n), '%s keeps %s, which setting the seed does not reset' % (f['q'], n['n']))
        for u, r in self.prog.recs.items():
            for fl in r.get('fields', ()):
                if re.search(r'kaminpar::Random(?=[,>\s\[]|$)(?!\s*[&*])', fl['t']) and 'N@kaminpar@S@Random' not in u:
                    res.bad('%s|own' % fl['n'], '%s:%s' % (r.get('f'), fl.get('l')), 'member %s is a generator of its own, which setting the seed does not reset' % fl['n'])
        res.ok('%d uses of thread numbers, no address in any computation, generators created in the registry only' % n1)

    def around(self, f):
        out = [f]
        for n in nodes(f):
            if n['k'] == 'Lambda': out += lambda_bodies(self.prog, f, n)
        return out

    def precomputed(self):
        """what is drawn ahead is drawn completely, from the generator that is reseeded"""
        res = self.res
        arr = {}
        for r in self.prog.recs.values():
            for fl in r.get('fields', ()):
                m = re.match(r'std::array<\w+, (\d+)>$', fl['t'])
                if m and fl['n'] == '_random_bools': arr[fl['n']] = m.group(1)
        for f in self.prog.fns.values():
            if f.get('cls') != 'kaminpar::Random' or f.get('dep'): continue
            for n in nodes(f):
                a = assigned(n)
                if a is None or n['k'] == 'Un': continue
                a = strip(a)
                base = a['c'][0] if a['k'] == 'Sub' or a['k'] == 'OpCall' and a['op'] == '[]' else None
                if base is None or strip(base)['k'] != 'Mem' or strip(base)['n'] not in arr: continue
                name = strip(base)['n']
                loop = next((x for x in ancestors(f, n) if x['k'] in ('For', 'While', 'RFor')), None)
                if loop is None or loop['k'] != 'For': res.skip('%s: how %s is filled' % (at(f, n), name)); continue
                v = next((x for x in walk(loop['c'][0]) if x['k'] == 'Var'), None) if loop['c'][0] is not None else None
                c = strip(loop['c'][1]) if loop['c'][1] is not None else None
                if v is None or c is None or c['k'] not in ('Bin', 'OpCall') or not v.get('c'): res.skip('%s: how %s is filled' % (at(f, n), name)); continue
                lo = text(v['c'][0]); hi = next((text(x) for x in c['c'] if not any(y['k'] == 'DRef' and y.get('d') == v.get('d') for y in walk(x))), None)
                cvs = [strip(x).get('cv', strip(x).get('v')) for x in c['c']]
                if strip(v['c'][0])['k'] != 'Int' and 'cv' not in strip(v['c'][0]) or str(strip(v['c'][0]).get('cv', strip(v['c'][0]).get('v'))) != '0':
                    res.bad('precompute|%s' % name, at(f, n), '%s does not draw all of %s again: starts at %s' % (f['q'], name, lo)); continue
                if arr[name] in [str(x) for x in cvs] and c['op'] in ('<', '!=', '>') or re.search(r'%s.*\.size\(\)\)?$' % name, hi or ''): res.ok('%s fills all of %s' % (f['q'], name))
                elif any(isinstance(x, int) or isinstance(x, str) and x.isdigit() for x in cvs): res.bad('precompute|%s' % name, at(f, n), '%s does not draw all of %s again: ends at %s' % (f['q'], name, hi))
                else: res.skip('%s: up to where %s is filled' % (at(f, n), name))

    def external(self):
        """libraries with generators of their own are given the seed before they compute"""
        for f in self.prog.fns.values():
            if f.get('dep'): continue
            seeds = [n for n in nodes(f) if n['k'] in CALLS and callee(n) == 'mt_kahypar_set_seed']
            runs = [n for n in nodes(f) if n['k'] in CALLS and callee(n) in ('mt_kahypar_partition', 'mt_kahypar_improve_partition')]
            for n in seeds:
                if self.seedy(f, args(n)[0]): self.res.ok('%s passes the seed to Mt-KaHyPar' % f['q'])
                else: self.res.bad('%s|external' % f['q'], at(f, n), '%s seeds Mt-KaHyPar with %s, which does not stem from the seed' % (f['q'], text(args(n)[0])[:80]))
            for n in runs:
                g = f
                if not seeds:
                    if any(x['k'] in CALLS and callee(x) == 'mt_kahypar_set_seed' for h in self.prog.fns.values() if h['f'] == f['f'] for x in nodes(h)): self.res.skip('%s: where Mt-KaHyPar is seeded' % at(f, n))
                    else: self.res.bad('%s|external' % f['q'], at(f, n), '%s runs Mt-KaHyPar without giving it the seed' % f['q'])
                elif any(s['i'] < n['i'] and not [x for x in ancestors(f, s) if x['k'] in ('If', 'Cond', 'Switch') and x not in ancestors(f, n)] for s in seeds): self.res.ok('%s seeds Mt-KaHyPar first' % f['q'])
                else: self.res.bad('%s|external' % f['q'], at(f, n), '%s does not always seed Mt-KaHyPar before it runs it' % f['q'])

    def stopwatch(self, f):
        return f.get('cls', '').startswith(TIMEOWN)

    def only_measured(self, f, n):
        """the time point only enters differences of time points that decide nothing"""
        idx, par = index(f)
        def use(x):
            y = x; p = par.get(y.get('i'))
            while p is not None:
                if p['k'] in ('OpCall', 'Bin') and p['op'] == '-': return self.dur(f, p)
                if p['k'] == 'Var':
                    us = [z for z in nodes(f) if z['k'] == 'DRef' and z.get('d') == p.get('d')]
                    return bool(us) and all(use(z) for z in us)
                if p['k'] in ('Cast', 'Ctor') or p['k'] == 'DefInit': y, p = p, par.get(p.get('i')); continue
                if p['k'] in CALLS and callee(p).endswith(('log', 'print')): return True
                return False
            return False
        return use(n)
    def dur(self, f, n):
        idx, par = index(f)
        y = n; p = par.get(y.get('i'))
        while p is not None:
            if p['k'] in ('If', 'While', 'For', 'Do', 'Cond', 'Switch', 'Return'): return p['k'] == 'Compound'
            if assigned(p) is not None: return True
            if p['k'] == 'Var':
                for z in nodes(f):
                    if z['k'] == 'DRef' and z.get('d') == p.get('d'):
                        w = z
                        while w is not None and w['k'] not in ('If', 'While', 'For', 'Do', 'Cond', 'Switch', 'Compound'):
                            if w['k'] == 'Bin' and w['op'] in ('<', '>', '<=', '>=', '==', '!='): return False
                            w = par.get(w.get('i'))
                return True
            if p['k'] == 'Compound': return True
            y, p = p, par.get(p.get('i'))
        return True

    def engines(self):
        res = self.res
        seen = set()
        for f in self.prog.fns.values():
            if f.get('dep'): continue
            for n in nodes(f):
                k = (f['f'], n.get('l'))
                if n['k'] == 'Ctor' and ENGINE.search(callee(n)) and not n.get('copy') and not n.get('move'):
                    a = [x for x in args(n) if x is not None]
                    if not a or a[0]['k'] == 'DefArg' or all(strip(x)['k'] in ('Int',) or 'cv' in strip(x) for x in a):
                        if (k, 'd') in seen: continue
                        seen.add((k, 'd'))
                        if self.reseeded(f, n): res.ok('%s:%s engine is seeded before use' % k); continue
                        res.bad('%s|engine' % f['q'], at(f, n), '%s creates a generator that is not seeded with the seed' % f['q'])
                    elif not self.seedy(f, a[0]):
                        res.bad('%s|engine' % f['q'], at(f, n), '%s seeds a generator with %s, which does not stem from the seed' % (f['q'], text(a[0])[:120]))
                    elif k not in seen:
                        seen.add(k); res.ok('%s:%s engine is seeded with %s' % (k + (text(a[0])[:80],)))
                if n['k'] == 'MCall' and short(callee(n)) == 'seed' and ENGINE.search(callee(n)):
                    if not args(n) or not self.seedy(f, args(n)[0]):
                        res.bad('%s|seed' % f['q'], at(f, n), '%s reseeds a generator with %s, which does not stem from the seed' % (f['q'], ', '.join(text(x)[:80] for x in args(n))))
                    elif (k, 's') not in seen: seen.add((k, 's')); res.ok('%s:%s reseeds with %s' % (k + (text(args(n)[0])[:80],)))
                # draws
                g = None
                if n['k'] == 'OpCall' and n['op'] == '()' and 'distribution' in callee(n) and len(n['c']) > 1: g = n['c'][1]
                if n['k'] == 'Call' and callee(n) in ('std::shuffle', 'std::sample') and args(n): g = args(n)[-1]
                if n['k'] == 'OpCall' and n['op'] == '()' and ENGINE.search(callee(n)): g = n['c'][0]
                if n['k'] == 'Call' and callee(n) == 'std::random_shuffle':
                    res.bad('%s|random_shuffle' % f['q'], at(f, n), '%s shuffles with an unseeded generator' % f['q'])
                if g is None: continue
                if (k, 'draw') in seen: continue
                seen.add((k, 'draw'))
                v = self.seeded(f, g, n)
                if v: res.ok('%s:%s draws from a seeded engine' % k)
                elif v is None: res.skip('%s:%s generator %s' % (k + (text(g)[:60],)))
                else: res.bad('%s|draw' % f['q'], at(f, n), '%s draws from %s, which is not seeded' % (f['q'], text(g)[:80]))

    def reseeded(self, f, ctor):
        """a default-constructed local or member that is seeded in the same function before it is used"""
        idx, par = index(f)
        p = par.get(ctor.get('i'))
        while p is not None and p['k'] in ('DefInit', 'Cast', 'Ctor'): p = par.get(p.get('i'))
        if p is None or p['k'] != 'Var': return False
        first = None
        for z in sorted((z for z in nodes(f) if z['k'] == 'DRef' and z.get('d') == p.get('d')), key=lambda z: z['i']):
            q = par.get(z['i'])
            return q is not None and q['k'] == 'MCall' and short(callee(q)) == 'seed' and q['c'][0] is not None and strip(q['c'][0]) is z
        return False

    def seeded(self, f, g, site, depth=0):
        g = strip(g)
        while g['k'] == 'MCall' and short(callee(g)) in ('local', 'generator') and g['c'][0] is not None:
            if 'Random::generator' in callee(g): return True
            g = strip(g['c'][0])
        if g['k'] == 'Mem':
            return True if (g.get('q') or '').startswith('kaminpar::Random::') else None
        if g['k'] == 'OpCall' and g['op'] in ('*',): return None
        if g['k'] != 'DRef': return None
        # seeded before in the same function, unconditionally
        idx, par = index(f)
        for z in nodes(f):
            if z['k'] == 'MCall' and short(callee(z)) == 'seed' and z['c'][0] is not None and strip(z['c'][0]).get('d') == g.get('d') and strip(z['c'][0])['k'] == 'DRef' and z['i'] < site['i']:
                p = par.get(z['i'])
                if p is not None and p['k'] == 'Compound': return True
        e = self.ef.decl.get((f['unit'], g.get('d')))
        if e is None: return None
        kind, v, i, owner = e
        if kind == 'v':
            t = v.get('t') or ''
            if t.endswith('&'):
                return self.seeded(owner, v['c'][0], site, depth + 1) if v.get('c') and v['c'][0] and depth < 5 else None
            if 'enumerable_thread_specific' in t: return self.ets(f, g, owner, v)
            return True         # judged where it is created
        if kind == 'p':
            cs = self.callers.get(owner['u'], ())
            if not cs or depth > 4: return None
            rs = []
            for h, c in cs:
                a = args(c) if c['k'] != 'OpCall' else c['c'][1:]
                rs.append(self.seeded(h, a[i], c, depth + 1) if i < len(a) and a[i] is not None else None)
            return False if False in rs else None if None in rs else True
        return None
    def ets(self, f, g, owner, v):
        if any(x['k'] == 'Lambda' for c in v.get('c') or () if c for x in walk(c)): return True     # the initialiser is judged where the engine is created
        return False

    def reset(self):
        res, prog = self.res, self.prog
        R = [f for f in prog.fns.values() if f.get('cls') == 'kaminpar::Random' and not f.get('lambda') and not f.get('dep')]
        by = lambda n: next((f for f in R if f['n'] == n and 'b' in f), None)
        reinit, reseed, create, inst = by('reinit'), by('reseed'), by('create_instance'), by('instance')
        ctor = next((f for f in R if f['n'] == 'Random' and f.get('inits') and not any((p.get('t') or '').startswith(('const kaminpar::Random', 'kaminpar::Random')) for p in f['p'])), None)
        if reseed is None:
            res.skip('Random::reseed not found'); return
        # the seed is stored, unconditionally
        idx, par = index(reseed)
        w = [n for n in nodes(reseed) if assigned(n) is not None and text(assigned(n), consts=False).endswith('_seed') and strip(assigned(n)).get('dk') == 'global']
        p0 = reseed['p'][0]['d'] if reseed['p'] else None
        val = lambda n: any(x['k'] == 'DRef' and x.get('d') == p0 for x in walk(n)) or any(x['k'] == 'DRef' and (x.get('q') or '').endswith('Random::_seed') for x in walk(n))
        top = lambda n: (par.get(n['i']) or {}).get('i') == reseed['b'].get('i') or par.get(n['i']) is reseed['b']
        if not w: res.bad('reseed|seed', at(reseed, reseed), 'Random::reseed does not store the seed: generators created later start from another one')
        elif not any(top(n) and strip(n['c'][-1])['k'] == 'DRef' and strip(n['c'][-1]).get('d') == p0 for n in w): res.bad('reseed|seed', at(reseed, w[0]), 'Random::reseed does not always store the given seed')
        else: res.ok('Random::reseed stores the seed')
        # all instances are reset
        calls = [n for f2, n in self.ef.body_nodes(reseed) if n['k'] == 'MCall' and reinit is not None and n.get('u') == reinit['u']]
        if not calls: res.bad('reseed|instances', at(reseed, reseed), 'Random::reseed does not reset the existing generators')
        for c in calls:
            loops = [a for a in ancestors(reseed, c) if a['k'] in ('RFor', 'For', 'While')]
            conds = [a for a in ancestors(reseed, c) if a['k'] in ('If', 'Cond', 'Switch')]
            a0 = args(c)[0] if args(c) else None
            jumps = [n for n in nodes(reseed) if n['k'] in ('Break', 'Return', 'Continue')]
            if a0 is not None and not val(a0): res.bad('reseed|value', at(reseed, c), 'Random::reseed resets the generators with %s instead of the seed' % text(a0))
            elif loops and loops[-1]['k'] == 'RFor' and '_instances' in text(loops[-1]['c'][2], consts=False) and not conds and not jumps and loops[-1]['c'][2] is not None and strip(loops[-1]['c'][2])['k'] in ('DRef', 'Mem'):
                res.ok('Random::reseed resets every generator')
            elif conds or jumps: res.bad('reseed|instances', at(reseed, c), 'Random::reseed does not reset every existing generator (guarded by a condition)')
            elif loops and loops[-1]['k'] == 'For':
                t = text(loops[-1]['c'][1], consts=False) if loops[-1]['c'][1] is not None else ''
                i0 = [text(v['c'][0]) for v in walk(loops[-1]['c'][0]) if v['k'] == 'Var' and v.get('c')] if loops[-1]['c'][0] is not None else []
                if re.search(r'_instances\.size\(\)\)?$', t) and '- 1' not in t and (i0[:1] == ['0']) or 'end()' in t: res.ok('Random::reseed resets every generator')
                else: res.bad('reseed|instances', at(reseed, c), 'Random::reseed does not reset every existing generator: %s' % t)
            elif not loops: res.skip('reseed: how the instances are visited')
        # what is reset
        if reinit is not None and ctor is not None:
            written = set(fl for b, fl in self.ef.summary(reinit) if b == ('this',))
            for f in R:
                if f in (reinit, ctor) or f['n'] in ('Random', 'operator=', 'create_instance'): continue
                for b, fl in self.ef.summary(f):
                    if b == ('this',) and fl not in written:
                        res.bad('reinit|' + short(fl), at(reinit, reinit), 'reseeding does not reset %s, which %s changes' % (short(fl), short(f['q'])))
                    elif b == ('this',): res.ok('%s: %s is reset by reseeding' % (f['n'], short(fl)))
            # the engine is seeded before anything is drawn from it, on every path, with the same value as at creation
            for f, what in ((reinit, 'reset'),):
                evs = []
                self.order(f, evs)
                firsts = [e for e in evs]
                i = next((j for j, e in enumerate(firsts) if e[0] == 'seed'), None)
                d = next((j for j, e in enumerate(firsts) if e[0] == 'draw'), None)
                if i is None: res.bad('reinit|engine', at(f, f), 'reseeding does not seed the engine again')
                elif d is not None and d < i: res.bad('reinit|order', at(f, f), 'numbers are drawn from the engine before it is seeded again')
                elif firsts[i][1]: res.bad('reinit|cond', at(f, f), 'the engine is seeded again under a condition only')
                else: res.ok('reseeding seeds the engine before drawing from it')
        if create is not None:
            pushes = [n for n in nodes(create) if n['k'] == 'MCall' and short(callee(n)) in ('push_back', 'emplace_back', 'insert', 'push_front', 'emplace') and '_instances' in text(n['c'][0], consts=False)]
            if pushes and not any(a['k'] in ('If', 'Cond') for a in ancestors(create, pushes[0])): res.ok('every generator is registered for reseeding')
            else: res.bad('create|register', at(create, create), 'a new generator is not registered, so that setting the seed does not reset it')
        # nobody else resets the generators, or with another value
        for f in prog.fns.values():
            if f.get('dep') or f.get('cls') == 'kaminpar::Random': continue
            for n in nodes(f):
                if n['k'] in CALLS and callee(n) == 'kaminpar::Random::reseed':
                    a = args(n)
                    a0 = strip(a[0]) if a else None
                    if a0 is not None and a0['k'] == 'DRef' and f.get('p') and a0.get('d') == f['p'][0].get('d') and not [x for x in nodes(f) if assigned(x) is not None and strip(assigned(x)).get('d') == a0['d'] and strip(assigned(x))['k'] == 'DRef']:
                        idx, par = index(f)
                        if any(x['k'] in ('If', 'Cond', 'Switch') for x in ancestors(f, n)): res.bad('%s|guard' % f['q'], at(f, n), '%s sets the seed under a condition only' % f['q'])
                        else: res.ok('%s passes the seed on' % f['q'])
                    elif a0 is not None and self.seedy(f, a0): res.ok('%s passes the seed on' % f['q'])
                    else: res.bad('%s|reseed' % f['q'], at(f, n), '%s sets the seed to %s' % (f['q'], text(a0)))
        for q in ('kaminpar::KaMinPar::reseed', 'kaminpar::dKaMinPar::reseed'):
            for f in prog.byq.get(q, []):
                if not any(n['k'] in CALLS and callee(n).endswith('Random::reseed') for _, n in self.ef.body_nodes(f)): res.bad('%s|noreseed' % q, at(f, f), '%s does not set the seed' % q)

    def order(self, f, evs, cond=False, depth=0):
        idx, par = index(f)
        for n in sorted(nodes(f), key=lambda n: n.get('i', 0), reverse=False):
            c = cond or any(a['k'] in ('If', 'Cond', 'Switch') for a in ancestors(f, n))
            if n['k'] == 'OpCall' and n['op'] == '=' and '_generator' in text(n['c'][0], consts=False): evs.append(('seed', c))
            elif n['k'] == 'MCall' and short(callee(n)) == 'seed' and ENGINE.search(callee(n)): evs.append(('seed', c))
            elif n['k'] == 'OpCall' and n['op'] == '()' and ('distribution' in callee(n) or ENGINE.search(callee(n))): evs.append(('draw', c))
            elif n['k'] in CALLS and depth < 3:
                g = fn_of(self.prog, n)
                if g is not None and g.get('cls') == 'kaminpar::Random' and g is not f: self.order(g, evs, c, depth + 1)

    def entry(self):
        res, prog = self.res, self.prog
        for f in prog.fns.values():
            if f['n'] != 'main' or 'cfg' not in f: continue
            rs = [n for n in nodes(f) if n['k'] in CALLS and callee(n).endswith('KaMinPar::reseed')]
            comp = [n for n in nodes(f) if n['k'] in CALLS and self.computes(n)]
            opt = any('"' in '"' and x['k'] == 'Str' and 'seed' in x['v'].split(',')[-1].split('-') for g, x in self.reach_strings(f))
            if not opt: continue
            if not comp: continue
            if not rs:
                res.bad('%s|main' % f['f'], at(f, f), 'the program takes a seed but never sets it'); continue
            bad = [n for n in rs if not self.seedy(f, args(n)[0])]
            if bad:
                res.bad('%s|main' % f['f'], at(f, bad[0]), 'the program sets the seed to %s instead of the seed given' % text(args(bad[0])[0])); continue
            def tr(n, s): return (True,) if n in rs else (s,)
            ids = {n['i'] for n in rs}
            ent, _ = forward(f, False, lambda n, s: (True,) if n['i'] in ids else (s,))
            bl = blocks(f); okc = True
            cid = {n['i'] for n in comp}
            for b, states in ent.items():
                st = set(states)
                for e in bl[b]['e']:
                    if e in ids: st = {True}
                    if e in cid and False in st: okc = False
            if okc: res.ok('%s sets the seed before partitioning' % f['f'])
            else: res.bad('%s|order' % f['f'], at(f, comp[0]), 'the program partitions before the seed is set on some path')

    def computes(self, n, depth=0):
        if short(callee(n)) == 'compute_partition': return True
        g = fn_of(self.prog, n)
        if g is None or depth > 4 or not g['f'].startswith('apps/'): return False
        return any(x['k'] in CALLS and self.computes(x, depth + 1) for _, x in self.ef.body_nodes(g))

    def reach_strings(self, f, depth=0, seen=None):
        seen = seen if seen is not None else set()
        if f['u'] in seen or depth > 3: return
        seen.add(f['u'])
        for g, n in self.ef.body_nodes(f):
            if n['k'] == 'Str': yield g, n
            if n['k'] in CALLS:
                h = fn_of(self.prog, n)
                if h is not None and h['f'] == f['f']: yield from self.reach_strings(h, depth + 1, seen)

def run(tier):
    res = Result()
    prog = load(units())
    r = Rand(prog, res)
    r.sources(); r.engines(); r.reset(); r.identity(); r.precomputed()
    us = [u for u in units() if not u.startswith('apps') and 'mt_kahypar_' in open(os.path.join(REPO, u), errors='replace').read()]
    if us:
        x = Rand(load(us, extra=['-DKAMINPAR_HAVE_MTKAHYPAR_LIB', '-DKAMINPAR_64BIT_WEIGHTS'], allow_errors=('.cc',)), res)
        x.engines(); x.sources(); x.identity(); x.external()
    # every program has a main function of its own: they must not be merged
    for u in all_units('apps'):
        if not re.search(r'\bmain\s*\(', open(os.path.join(REPO, u)).read()): continue
        one = load([u], allow_errors=('.cc',))
        Rand(one, res).entry()
    res.info = {'units': len(prog.units), 'functions': len(prog.fns)}
    return res
