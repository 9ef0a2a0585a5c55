"""Every process takes part in every collective operation: no collective is reached under control that depends on process-local values."""
from kit import *
sys.setrecursionlimit(20000)

REDUCED = {'allreduce', 'bcast', 'allgather', 'allgatherv', 'Allreduce', 'Bcast', 'Allgather', 'Allgatherv', 'build_distribution_from_local_count', 'build_counts_from_value', 'build_displs_from_value', 'inplace_sparse_allreduce'}
LOCALRES = {'reduce', 'reduce_single', 'gather', 'gatherv', 'scatter', 'scatterv', 'scan', 'exscan', 'alltoall', 'alltoallv', 'reduce_scatter', 'Reduce', 'Gather', 'Gatherv', 'Scatter', 'Scatterv', 'Scan', 'Exscan', 'Alltoall', 'Alltoallv', 'Reduce_scatter', 'gather_statistics', 'gather_statistics_str', 'perform_binary_reduction'}
COLL = REDUCED | LOCALRES | {'barrier', 'Barrier', 'Comm_split', 'Comm_dup', 'Finalize', 'Init', 'Init_thread', 'sequentially', 'sparse_alltoall_get'}
P2PRES = {'recv', 'probe', 'probe_recv', 'Recv', 'Probe', 'Get_count', 'get_count', 'Comm_rank', 'get_comm_rank', 'get_comm_info', 'Test', 'Iprobe'}
GRAPHS = re.compile(r'::(Abstract)?Distributed(CSR|Compressed|Partitioned)?Graph$|::GhostNodeMapper$|::CompactGhostNodeMapping$')
UNIFORM = {'global_n', 'global_m', 'global_total_node_weight', 'global_total_edge_weight', 'global_max_node_weight', 'communicator', 'k', 'block_weight', 'block_weights', 'blocks', 'pfor_blocks', 'node_distribution', 'edge_distribution', 'number_of_colors', 'color_sorted', 'initialized', 'graph', 'underlying_graph', 'reified', 'concretize', 'compressed_graph', 'csr_graph', 'is_compressed', 'find_owner_of_global_node', 'compute_reduction', 'compute_edge_weights_on_local_and_ghost_nodes'}
UNISIZE = {'get_color_sizes'}     # containers of the graph that have the same size everywhere (one element per color)
LOCALFN = {'random_index', 'random_bool', 'shuffle', 'now', 'hardware_concurrency', 'this_thread', 'local', 'sched_getcpu'}
NONE = frozenset()

WRAP = ('kaminpar::parallel::Atomic', 'kaminpar::NoinitVector', 'kaminpar::StaticArray', 'kaminpar::ScalableVector', 'kaminpar::VectorEts', 'kaminpar::ScalableNoinitVector', 'kaminpar::ID', 'kaminpar::CompactStaticArray', 'kaminpar::MaxSizeVector', 'kaminpar::NoinitAllocator', 'kaminpar::AlignedAllocator', 'kaminpar::parallel::aligned', 'kaminpar::CacheAlignedVector')
def opaque(t):
    """objects of the program (and what holds them): what is local about them is local in their members"""
    if not t: return False
    t = t.replace('const ', '')
    if 'kaminpar::' not in t: return False
    for m in re.finditer(r'kaminpar::[A-Za-z_:]+', t):
        if m.group(0).startswith(WRAP): continue
        l = m.group(0).rsplit('::', 1)[-1]
        if l.endswith(('ID', 'Weight')): continue
        return True
    return False

def cap(s):
    if len(s) <= 6: return frozenset(s)
    l = sorted(s, key=str)
    return frozenset([x for x in l if x[0] == 'L'][:2] + [x for x in l if x[0] != 'L'][:40])

class Sum:
    def __init__(self):
        self.ret, self.sret, self.outs, self.stores, self.events, self.comm = NONE, NONE, {}, {}, {}, False
    def ev(self, labels, site, what, own):
        k = (site, what, own)
        self.events[k] = cap(self.events.get(k, NONE) | labels)

class Env(dict):
    pass

class Coll:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.memo, self.busy = {}, set()
        self.want_roots = False
        self.raw = False      # the messages themselves are process-local (analysis of the communication layer)
        self.ov = {}
        for f in prog.fns.values():
            for o in f.get('ov') or (): self.ov.setdefault(o, []).append(f)
        self.seqmemo = {}
        self.cleanF = set()
        self.ncoll = 0
        self.sites = set()

    # ------------------------------------------------------------ what is a collective
    def prim(self, n):
        """name of the collective primitive a call stands for"""
        q = callee(n)
        s = short(q)
        if '(anon)' in q: return None
        if '::debug::validate' in q or s.startswith('ASSERT_'): return 'check ' + s
        if q.startswith('MPI_') and s[4:] in COLL: return s[4:].lower()
        if q.startswith('kaminpar::mpi::') and (s in COLL or s.startswith(('sparse_alltoall', 'inplace_sparse', 'sparse_allreduce'))): return s
        if q.startswith(('kaminpar::mpi::graph::', 'kaminpar::dist::mpi::graph::')): return s
        return None

    def targets(self, n):
        f = fn_of(self.prog, n)
        if n.get('virt') and n.get('u'):
            res, todo = [], [n['u']]
            while todo:
                u = todo.pop()
                g = self.prog.fns.get(u)
                if g is not None and g.get('b') and g not in res: res.append(g)
                todo += [h['u'] for h in self.ov.get(u, ())]
            return res
        return [f] if f is not None and f.get('b') else []

    def analysed(self, g):
        return '::debug::validate' not in g['q'] and not short(g['q']).startswith('ASSERT_') and g['f'].startswith(('kaminpar-dist/', 'kaminpar-mpi/grid_topology', 'apps/')) and not (g.get('cls') and GRAPHS.search(g['cls']) and short(g['q']) in UNIFORM) and not g['f'].endswith(('logger.h', 'logger.cc'))

    # ------------------------------------------------------------ sequence of collectives (for branches that do the same)
    def seq(self, f, n, depth=0):
        if n is None or depth > 12: return ''
        out = []
        st = [n]
        def rec(x):
            if not isinstance(x, dict): return
            if x['k'] in ('If', 'For', 'While', 'Do', 'RFor', 'Switch', 'Cond'):
                s = []
                for c in x.get('c') or ():
                    a = len(out); rec(c); s.append(''.join(out[a:])); del out[a:]
                if any(s): out.append('(%s)' % '|'.join(s))
                return
            if x['k'] == 'Lambda':
                for b in lambda_bodies(self.prog, f, x)[:1]: out.append(self.seq(b, b.get('b'), depth + 1))
                return
            for c in x.get('c') or (): rec(c)
            if x['k'] in CALLS:
                p = self.prim(x)
                if p:
                    a = args(x)
                    t = (a[0].get('t') or '').replace('const ', '') if a and isinstance(a[0], dict) else ''
                    out.append(p + (' ' + t.rsplit('::', 1)[-1] if '::mpi::tag::' in t else '') + ';')
                else:
                    for g in self.targets(x)[:1]:
                        if self.analysed(g): out.append(self.fseq(g, depth + 1))
        rec(n)
        return ''.join(out)

    def fseq(self, g, depth=0):
        if g['u'] in self.seqmemo: return self.seqmemo[g['u']]
        self.seqmemo[g['u']] = ''
        self.seqmemo[g['u']] = s = self.seq(g, g.get('b'), depth)
        return s

    # ------------------------------------------------------------ abstract interpretation
    def summary(self, g):
        u = g['u']
        if u in self.memo: return self.memo[u]
        s = self.memo[u] = Sum()
        env = Env()
        for i, p in enumerate(g.get('p') or ()):
            if p.get('d') is not None: env[p['d']] = frozenset([('P', i)])
        ctx = Ctx(self, g, s, [p.get('d') for p in g.get('p') or ()])
        for it in g.get('inits') or ():
            if isinstance(it.get('e'), dict):
                v = ctx.ev(it['e'], env, NONE)
                if it.get('n') and g.get('cls'): ctx.store(('F', g['cls'] + '::' + it['n']), v, env, NONE, True)
        if g.get('b'): ctx.st(g['b'], env, NONE)
        for i, p in enumerate(g.get('p') or ()):
            if p.get('d') is not None and (p['t'].endswith('&') or p['t'].endswith('*')) and not p['t'].startswith('const '):
                v = env.get(p['d'], NONE)
                if v != frozenset([('P', i)]): s.outs[i] = v
                if ('#', p['d']) in env: s.outs[('#', i)] = env[('#', p['d'])]
        return s

class Ctx:
    def __init__(self, an, g, s, params):
        self.an, self.g, self.s, self.params = an, g, s, params
        self.f = g            # function whose tree is walked (a lambda body at times)
        self.lams = {}        # local lambda variables
        self.last = None      # last call of a function of the program, labels under which it returns
        self.alias = {}       # local references: key of what they refer to
        self.depth = 0
        self.comms = {}       # communicator -> what its processes have in common
        self.par = None
        self.rets = []        # stack of return collectors for lambdas

    def L(self, n, what): return frozenset([('L', '%s (%s:%s)' % (what, self.f['f'], n.get('l')))])

    # -- places
    def place(self, n, env):
        """(key, whole) of an lvalue"""
        whole = True
        while True:
            n = strip(n)
            if n is None: return None, False
            k = n['k']
            if k == 'DRef':
                if n.get('dk') in ('global', 'slocal'): return ('G', n.get('q') or n['n']), whole
                if n.get('d') in self.alias: return self.alias[n['d']], False
                return n.get('d'), whole
            if k == 'Mem' and not n.get('fn'):
                b = n['c'][0] if n.get('c') else None
                if b is None or strip(b)['k'] == 'This': return ('F', n.get('q') or n['n']), whole
                whole = False; n = b; continue
            if k == 'Sub' or k == 'OpCall' and n['op'] == '[]': whole = False; n = n['c'][0]; continue
            if k == 'OpCall' and n['op'] in ('*', '->') or k == 'Un' and n['op'] in ('*', '&', '++', '--'):
                n = n['c'][0]; continue
            if k in ('CAssign',) or k == 'Bin' and n['op'] in ('+', '-', '='): n = n['c'][0]; continue
            if k == 'MCall' and n['c'][0] is not None and short(callee(n)) in ('begin', 'end', 'data', 'front', 'back', 'at', 'get', 'local', 'value'):
                if short(callee(n)) in ('front', 'back', 'at'): whole = False
                n = n['c'][0]; continue
            return None, False

    def read(self, key, env):
        if key in env: return env[key]
        if isinstance(key, tuple) and key[0] in 'FG': return frozenset([key])
        return NONE

    def store(self, key, v, env, pc, whole, size=False):
        if key is None: return
        v = v | pc
        if isinstance(key, tuple):
            self.s.stores[key] = cap(self.s.stores.get(key, NONE) | v)
        env[key] = cap(v if whole else self.read(key, env) | v)
        if whole or size:
            z = self.zkey(key)
            if isinstance(key, tuple): self.s.stores[z] = cap(self.s.stores.get(z, NONE) | v)
            env[z] = cap(v if whole else self.read(z, env) | v)

    def zkey(self, key):
        """the size of a container, apart from its elements"""
        return (key[0], key[1] + '#') if isinstance(key, tuple) else ('#', key)

    def special(self, key, e, env, pc):
        """whether a variable holds a special value (none, invalid) is decided where a function returns one"""
        if key is None or isinstance(key, tuple): return
        x = strip(e)
        env.pop(('S', key), None)
        if x['k'] in CALLS and self.last is not None and self.last[0] is x: env[('S', key)] = self.last[1] | pc
        elif 'cv' in x: env[('S', key)] = pc

    def clean(self, n, env):
        key, whole = self.place(n, env)
        if key is None: return
        env[key] = NONE
        if isinstance(key, tuple): self.an.cleanF.add(key)

    # -- events
    def event(self, n, pc, what):
        self.an.sites.add((self.f['f'], n.get('l'), what))
        self.s.comm = True
        if self.par is not None: self.s.ev(frozenset([('L', 'the iterations of the parallel loop at %s' % self.par)]), '%s:%s' % (self.f['f'], n.get('l')), what, self.owner())
        if pc and self.comms:
            for a in args(n):
                if isinstance(a, dict) and strip(a)['k'] in ('DRef', 'Mem'):
                    key, whole = self.place(a, {})
                    if whole and key in self.comms: pc = pc - self.comms[key]
        if pc: self.s.ev(pc, '%s:%s' % (self.f['f'], n.get('l')), what, self.owner())

    def owner(self):
        f = self.g
        return f.get('q') or f['f']

    # -- expressions: labels
    def evs(self, ns, env, pc):
        v = NONE
        for n in ns:
            if isinstance(n, dict): v |= self.ev(n, env, pc)
        return v

    def ev(self, n, env, pc):
        if not isinstance(n, dict): return NONE
        k = n['k']
        if 'cv' in n and k not in CALLS: return NONE
        if k in ('DRef', 'Mem') and not n.get('fn') and not self.an.raw and opaque(n.get('t')):
            if k == 'Mem': self.evs([x for x in n.get('c') or () if isinstance(x, dict)], env, pc)
            return NONE
        if k == 'DRef':
            if n.get('dk') in ('func', 'enum'): return NONE
            if n.get('dk') in ('global', 'slocal'): return self.read(('G', n.get('q') or n['n']), env)
            if n.get('d') in self.alias: return self.read(self.alias[n['d']], env) | self.read(n.get('d'), env)
            return self.read(n.get('d'), env)
        if k == 'Mem' and not n.get('fn'):
            b = n['c'][0] if n.get('c') else None
            if b is None or strip(b)['k'] == 'This': return self.read(('F', n.get('q') or n['n']), env)
            return self.ev(b, env, pc)
        if k in ('Int', 'Float', 'Char', 'Bool', 'Str', 'Null', 'This', 'SizeOf'): return NONE
        if k == 'Lambda': return NONE
        if k == 'Bin' and n['op'] in ('&&', '||'):
            a = self.ev(n['c'][0], env, pc)
            return a | self.ev(n['c'][1], env, pc | a)
        if k == 'Cond':
            a = self.ev(n['c'][0], env, pc)
            c = strip(n['c'][0])
            if 'cv' in c:
                return self.ev(n['c'][1] if c['cv'] not in ('0', 'false') else n['c'][2], env, pc)
            same = a and self.an.seq(self.f, n['c'][1]) == self.an.seq(self.f, n['c'][2])
            p2 = pc if same else pc | a
            return a | self.ev(n['c'][1], env, p2) | self.ev(n['c'][2], env, p2)
        if k == 'Bin' and n['op'] in ('==', '!='):
            for a, b in ((n['c'][0], n['c'][1]), (n['c'][1], n['c'][0])):
                x, y = strip(a), strip(b)
                if ('cv' in y or y['k'] == 'DRef' and re.match(r'kInvalid', y['n'])) and x['k'] == 'DRef' and ('S', x.get('d')) in env: return env[('S', x['d'])]
        if k == 'Bin' and n['op'] == '=':
            v = self.ev(n['c'][1], env, pc)
            key, whole = self.place(n['c'][0], env)
            self.special(key, n['c'][1], env, pc)
            self.evs([x for x in walk(n['c'][0]) if x['k'] in CALLS][:0], env, pc)
            self.store(key, v, env, pc, whole)
            return v
        if k == 'CAssign':
            v = self.ev(n['c'][1], env, pc) | self.ev(n['c'][0], env, pc)
            key, whole = self.place(n['c'][0], env)
            self.store(key, v, env, pc, whole)
            return v
        if k == 'Un' and n['op'] in ('++', '--'):
            v = self.ev(n['c'][0], env, pc)
            key, whole = self.place(n['c'][0], env)
            self.store(key, v, env, pc, whole)
            return v
        if k == 'Atomic':
            v = self.evs(n.get('c') or (), env, pc)
            if n.get('c') and 'load' not in n['op']:
                key, whole = self.place(n['c'][0], env)
                self.store(key, v, env, pc, False)
            return v
        if k in CALLS: return self.call(n, env, pc)
        if k in ('Var', 'Decl', 'Compound', 'If', 'For', 'While', 'Do', 'RFor', 'Return', 'Switch'):
            self.st(n, env, pc); return NONE
        return self.evs(n.get('c') or (), env, pc)

    def lam(self, l, env, pc, params=NONE):
        """walks the body of a lambda in the current environment; labels of what it returns"""
        if self.depth > 14: return NONE
        bodies = lambda_bodies(self.an.prog, self.f, l)
        r = NONE
        for b in bodies[:1]:
            if b.get('b') is None: continue
            for c in l.get('caps') or ():
                if c.get('initcap') and c.get('init'): env[c['d']] = self.ev(c['init'], env, pc)
            for p in b.get('p') or ():
                if p.get('d') is not None: env[p['d']] = params
            f0, self.f = self.f, b
            self.depth += 1; self.rets.append([NONE])
            self.st(b['b'], env, pc)
            r |= self.rets.pop()[0]
            self.depth -= 1; self.f = f0
        return r

    def call(self, n, env, pc):
        an, q, s = self.an, callee(n), short(callee(n))
        # a local lambda
        if n['k'] == 'OpCall' and n['op'] == '()':
            o = strip(n['c'][0])
            if o['k'] == 'Lambda': 
                vs = self.evs(n['c'][1:], env, pc)
                return self.lam(o, env, pc, vs)
            if o['k'] == 'DRef' and o.get('d') in self.lams:
                vs = self.evs(n['c'][1:], env, pc)
                return self.lam(self.lams[o['d']], env, pc, vs)
        ar = list(args(n))
        o = obj(n) if n['k'] == 'MCall' else None
        p = an.prim(n)
        if n['k'] == 'OpCall' and n['op'] == '=' :
            v = self.ev(n['c'][1], env, pc)
            key, whole = self.place(n['c'][0], env)
            self.store(key, v, env, pc, whole); return v
        if n['k'] == 'OpCall' and n['op'] in ('+=', '-=', '|=', '&=', '++', '--', '*=', '^='):
            v = self.evs(n['c'], env, pc)
            key, whole = self.place(n['c'][0], env)
            self.store(key, v, env, pc, whole); return v
        lams = [strip(a) for a in ar if isinstance(a, dict) and strip(a)['k'] == 'Lambda']
        lams += [self.lams[strip(a)['d']] for a in ar if isinstance(a, dict) and strip(a)['k'] == 'DRef' and strip(a).get('d') in self.lams]
        isl = [isinstance(a, dict) and (strip(a)['k'] == 'Lambda' or strip(a)['k'] == 'DRef' and strip(a).get('d') in self.lams) for a in ar]
        vals = [NONE if x else self.ev(a, env, pc) for a, x in zip(ar, isl)]
        ov = self.ev(o, env, pc) if o is not None else NONE
        allv = ov.union(*vals) if vals else ov
        # --- messages
        if p:
            self.event(n, pc, p)
            if an.want_roots and p.split('_')[-1] in ('bcast', 'reduce', 'gather', 'gatherv', 'scatter', 'scatterv') and len(ar) >= 3:
                w = 'root of ' + p
                an.sites.add((self.f['f'], n.get('l'), w))
                if vals[-2]: self.s.ev(vals[-2], '%s:%s' % (self.f['f'], n.get('l')), w, self.owner())
            if p == 'comm_split' and len(ar) == 4 and strip(ar[3])['k'] == 'Un':
                key, _ = self.place(ar[3], env)
                self.comms[key] = frozenset(vals[1])
            lv = self.L(n, 'received data')
            for l in lams: self.lam(l, env, pc | lv if not p.startswith('sequentially') else pc, lv)
            if s in REDUCED or s[4:] in REDUCED:
                outs = ar[1:] if s.startswith(('allreduce', 'allgather', 'MPI_All', 'inplace')) else ar
                if s == 'MPI_Bcast' or s == 'bcast': outs = ar[:1]
                if s.startswith('inplace'): outs = ar[:1]
                for a in outs:
                    if isinstance(a, dict) and a.get('k') not in ('Int',): self.clean(a, env) if self.isbuf(a, n, ar.index(a)) else None
                return NONE
            for a in ar:
                if isinstance(a, dict):
                    key, whole = self.place(a, env)
                    if key is not None and (len(ar) < 3 or a is not ar[-2]) and self.isbuf(a, n, ar.index(a)) and p in LOCALRES | {x.lower() for x in LOCALRES} and ar.index(a) >= 1: self.store(key, lv, env, pc, False)
            return lv if p not in ('barrier',) else NONE
        if q.startswith('kaminpar::mpi::') and s in P2PRES or q.startswith('MPI_') and s[4:] in P2PRES:
            lv = self.L(n, 'rank of the process' if 'rank' in s or 'info' in s else 'received data')
            for a in ar:
                if isinstance(a, dict) and strip(a)['k'] == 'Un' and strip(a)['op'] == '&': self.store(*self.two(strip(a)['c'][0], env, lv), env, pc, False)
            return lv
        cls = q.rsplit('::', 1)[0] if '::' in q else ''
        graph = bool(n['k'] == 'MCall' and GRAPHS.search(cls))
        if graph and s not in UNIFORM:
            t = [g for g in an.targets(n) if an.fseq(g)]
            lv = self.L(n, 'local part of the graph: %s()' % s)
            par0 = self.par
            if s.startswith('pfor'): self.par = '%s:%s' % (self.f['f'], n.get('l'))
            for l in lams: self.lam(l, env, pc | lv, lv)
            self.par = par0
            for g in t: self.apply(g, n, vals, env, pc, ar)
            return allv | lv
        if q.startswith('kaminpar::Random::') or s in LOCALFN and q.startswith(('std::', 'kaminpar::')) :
            lv = self.L(n, 'random number' if 'Random' in q else s)
            for l in lams: self.lam(l, env, pc | lv, lv)
            return allv | lv
        # --- lambdas run once per element of what they are applied to
        r = NONE
        loop = s.startswith(('pfor', 'parallel_', 'for_each', 'adjacent', 'neighbors', 'transform', 'sort', 'parallel_for'))
        par0 = self.par
        if s.startswith(('parallel_', 'pfor')): self.par = '%s:%s' % (self.f['f'], n.get('l'))
        for l in lams: r |= self.lam(l, env, pc | allv if loop else pc | ov, allv)
        self.par = par0
        # --- functions of the program
        ts = [g for g in an.targets(n) if an.analysed(g)]
        if ts:
            for g in ts: r |= self.apply(g, n, vals, env, pc, ar, o)
            return r | ov
        if n['k'] == 'MCall' and s in ('size', 'empty') and not ar and o is not None:
            key, whole = self.place(o, env)
            if key is not None and whole and not isinstance(key, str):
                z = self.zkey(key)
                if z in env or isinstance(key, tuple): return self.read(z, env)
        # --- anything else: the result depends on the arguments
        if n['k'] == 'MCall' and o is not None and not n.get('cst') and not q.startswith('kaminpar::dist'):
            key, whole = self.place(o, env)
            fn = fn_of(an.prog, n)
            if key is not None and (fn is None and s in ('push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'push', 'assign', 'add', 'set', 'store', 'fetch_add', 'erase', 'append', 'swap') or fn is not None and not fn.get('cst') and fn.get('b') and s not in ('begin', 'end', 'data', 'front', 'back', 'local', 'entries', 'get', 'at')):
                v = frozenset().union(*vals) if vals else NONE
                if s == 'assign' and len(ar) == 2 and isinstance(ar[0], dict) and strip(ar[0])['k'] == 'MCall' and short(callee(strip(ar[0]))) in ('begin', 'cbegin'):
                    k2, w2 = self.place(ar[0], env)
                    self.store(key, v, env, pc, False)
                    zv = (self.read(self.zkey(k2), env) if k2 is not None else v) | pc
                    if isinstance(key, tuple): self.s.stores[self.zkey(key)] = cap(self.s.stores.get(self.zkey(key), NONE) | zv)
                    env[self.zkey(key)] = zv
                elif (v | pc): self.store(key, v, env, pc, False, True)
        if n['k'] == 'Call':
            for a in ar:
                if not isinstance(a, dict): continue
                a = strip(a)
                if a['k'] == 'MCall' and short(callee(a)) in ('begin', 'data') or a['k'] == 'Un' and a['op'] == '&':
                    key, _ = self.place(a, env)
                    if key is not None and (allv | pc) and s in ('prefix_sum', 'copy', 'fill', 'iota', 'transform', 'exclusive_scan', 'inclusive_scan', 'swap'): self.store(key, allv, env, pc, False)
        return allv | r

    def two(self, n, env, v):
        key, whole = self.place(n, env)
        return key, v

    def isbuf(self, a, n, i):
        t = strip(a)
        if t['k'] == 'Un' and t['op'] == '&': return True
        if t['k'] == 'MCall' and short(callee(t)) in ('data', 'begin'): return True
        if t['k'] == 'DRef' and (('*' in (t.get('t') or '')) or callee(n).startswith('kaminpar::mpi') and i == 1): return True
        if t['k'] == 'Mem' and callee(n).startswith('kaminpar::mpi') and i == 1: return True
        if t['k'] in ('Sub', 'OpCall') and callee(n).startswith('kaminpar::mpi') and i == 1: return True
        return False

    def subst(self, labels, vals):
        out = set()
        for l in labels:
            if l[0] == 'P': out |= vals[l[1]] if l[1] < len(vals) else NONE
            else: out.add(l)
        return cap(out)

    def apply(self, g, n, vals, env, pc, ar, o=None):
        s = self.an.summary(g)
        if n['k'] == 'OpCall' and g.get('cls'): vals, ar = vals[1:], ar[1:]
        for (site, what, own), ev in list(s.events.items()):
            # a requirement on the arguments; what is local in the callee is reported there
            inst = [l for l in ev if l[0] == 'P']
            if inst:
                lab = self.subst(inst, vals)
                if lab: self.s.ev(lab, '%s:%s' % (self.f['f'], n.get('l')), what.split(' (in ')[0] + ' (in ' + short(own) + ', ' + site + ')', self.owner())
        if s.comm:
            self.event(n, pc, 'call of ' + short(g['q']) + '()' if not pc else self.first(g))
        for i, v in s.outs.items():
            if isinstance(i, tuple):
                if i[1] < len(ar) and isinstance(ar[i[1]], dict):
                    key, whole = self.place(ar[i[1]], env)
                    if key is not None:
                        z, v2 = self.zkey(key), self.subst(v, vals) | pc
                        if isinstance(key, tuple): self.s.stores[z] = cap(self.s.stores.get(z, NONE) | v2)
                        env[z] = cap(self.read(z, env) | v2)
                continue
            if i < len(ar) and isinstance(ar[i], dict):
                key, whole = self.place(ar[i], env)
                v2 = self.subst(v, vals)
                if key is not None:
                    z0 = env.get(self.zkey(key)); zs = self.s.stores.get(self.zkey(key))
                    self.store(key, v2, env, pc, ('P', i) not in v)
                    if z0 is None: env.pop(self.zkey(key), None)
                    else: env[self.zkey(key)] = z0
                    if isinstance(key, tuple):
                        if zs is None: self.s.stores.pop(self.zkey(key), None)
                        else: self.s.stores[self.zkey(key)] = zs
        for key, v in s.stores.items():
            v2 = self.subst(v, vals)
            self.s.stores[key] = cap(self.s.stores.get(key, NONE) | v2 | pc)
        self.last = (n, self.subst(s.sret, vals))
        return self.subst(s.ret, vals)

    def first(self, g):
        return 'collective operations of ' + short(g['q']) + '()'

    # -- statements: returns labels under which control may leave (return, break)
    def st(self, n, env, pc):
        if not isinstance(n, dict): return NONE, NONE
        k = n['k']
        if k == 'Compound':
            r = b = NONE
            for x in n.get('c') or ():
                r2, b2 = self.st(x, env, pc | r | b)
                r |= r2; b |= b2
            return r, b
        if k == 'Decl':
            r = b = NONE
            for v in n['c']: self.st(v, env, pc)
            return NONE, NONE
        if k == 'Var':
            init = n['c'][0] if n.get('c') else None
            if init is not None and strip(init)['k'] == 'Lambda': self.lams[n['d']] = strip(init); return NONE, NONE
            v = self.ev(init, env, pc) if init is not None else NONE
            if n.get('binds'):
                for bd in n['binds']: env[bd['d']] = v
                if init is not None and strip(init)['k'] == 'Call' and short(callee(strip(init))) == 'get_comm_info':
                    env[n['binds'][0]['d']] = NONE
            else:
                env[n['d']] = v
                if init is not None: env[('#', n['d'])] = NONE if strip(init)['k'] == 'MCall' and short(callee(strip(init))) in UNISIZE else v
                if init is not None: self.special(n['d'], init, env, pc)
            if init is not None and (n.get('t') or '').endswith('&') and not (n.get('t') or '').startswith('const ') and 'd' in n and not n.get('binds') and strip(init)['k'] != 'Lambda':
                key, whole = self.place(init, env)
                if key is not None and key != n['d']: self.alias[n['d']] = key
            return NONE, NONE
        if k == 'If':
            if n['c'][0] is not None: self.st(n['c'][0], env, pc)
            c = n['c'][1]
            a = self.ev(c, env, pc)
            cv = strip(c).get('cv') if c is not None else None
            th, el = n['c'][2], n['c'][3] if len(n['c']) > 3 else None
            if cv is not None:
                x = th if cv not in ('0', 'false') else el
                return self.st(x, env, pc) if x is not None else (NONE, NONE)
            pe = pc | a
            if a:
                s1, s2 = self.an.seq(self.f, th), self.an.seq(self.f, el)
                if s1 and s1 == s2: pe = pc
            e1, e2 = Env(env), Env(env)
            r1, b1 = self.st(th, e1, pe)
            r2, b2 = self.st(el, e2, pe) if el is not None else (NONE, NONE)
            for e in (e1, e2):
                for key, v in e.items():
                    old = env.get(key)
                    if v != old: pass
            self.join(env, e1, e2, self.ends(th), self.ends(el), a)
            r, b = r1 | r2, b1 | b2
            if a:
                h1, h2 = self.leaves(th), self.leaves(el)
                if h1[0] != h2[0] or (h1[0] and False): r |= a
                if h1[1] != h2[1]: b |= a
            return r, b
        if k in ('For', 'While', 'Do', 'RFor'):
            if k == 'For':
                if n['c'][0] is not None: self.st(n['c'][0], env, pc)
                cond, inc, body = n['c'][1], n['c'][2], n['c'][3]
            elif k == 'While': cond, inc, body = n['c'][0], None, n['c'][1]
            elif k == 'Do': cond, inc, body = n['c'][1], None, n['c'][0]
            else:
                if n['c'][0] is not None: self.st(n['c'][0], env, pc)
                cond, inc, body = n['c'][2], None, n['c'][3]
            r = b = NONE
            for it in range(4):
                before = dict(env)
                ne = len(self.s.events)
                a = self.ev(cond, env, pc | b) if cond is not None and k != 'Do' else NONE
                if k == 'RFor':
                    v = n['c'][1]
                    if v is not None:
                        if v.get('binds'):
                            for bd in v['binds']: env[bd['d']] = a
                        elif 'd' in v: env[v['d']] = a
                r2, b2 = self.st(body, env, pc | a | r | b)
                if k == 'Do' and cond is not None: a = self.ev(cond, env, pc | b2)
                if inc is not None: self.ev(inc, env, pc | a)
                r |= r2; b |= b2 | (a if k == 'Do' else NONE)
                for key, v in before.items(): env[key] = cap(env.get(key, NONE) | v)
                if dict(env) == before: break
            return r, NONE
        if k == 'Switch':
            a = self.ev(n['c'][0], env, pc)
            r, b = self.st(n['c'][1], env, pc | a)
            return r, NONE
        if k in ('Case', 'Default', 'Label'):
            return self.st(n['c'][-1], env, pc)
        if k == 'Return':
            v = self.ev(n['c'][0], env, pc) if n.get('c') and n['c'][0] is not None else NONE
            if self.rets: self.rets[-1][0] |= v | pc
            else:
                self.s.ret = cap(self.s.ret | v | pc)
                e = strip(n['c'][0]) if n.get('c') and n['c'][0] is not None else None
                w = NONE
                if e is not None and e['k'] == 'Cond': w = self.ev(e['c'][0], env, pc)
                elif e is not None and e['k'] in CALLS: w = v
                self.s.sret = cap(self.s.sret | w | pc)
            return NONE, NONE
        if k in ('Break', 'Continue'): return NONE, NONE
        if k == 'Try':
            return self.st(n['c'][0], env, pc)
        self.ev(n, env, pc)
        return NONE, NONE

    def join(self, env, e1, e2, end1, end2, a):
        keys = set(e1) | set(e2)
        for key in keys:
            d = self.read(key, env) if isinstance(key, tuple) else env.get(key, NONE)
            v1, v2 = e1.get(key, d), e2.get(key, d)
            if end1 and not end2: v = v2
            elif end2 and not end1: v = v1
            else: v = v1 | v2
            env[key] = v

    def ends(self, n):
        """control does not continue behind the statement"""
        if n is None: return False
        k = n['k']
        if k == 'Compound': return any(self.ends(x) for x in n.get('c') or () if isinstance(x, dict))
        if k in ('Return', 'Break', 'Continue', 'Throw'): return True
        if k in CALLS and n.get('noret'): return True
        if k == 'If': return len(n['c']) > 3 and n['c'][3] is not None and self.ends(n['c'][2]) and self.ends(n['c'][3])
        return False

    def leaves(self, n):
        """(may return, may break or continue) ignoring nested loops and lambdas"""
        r = b = False
        if n is None: return r, b
        st = [(n, 0)]
        while st:
            x, lp = st.pop()
            if not isinstance(x, dict) or x['k'] == 'Lambda': continue
            if x['k'] == 'Return': r = True
            if x['k'] in ('Break', 'Continue') and not lp: b = True
            inner = lp or x['k'] in ('For', 'While', 'Do', 'RFor', 'Switch')
            for c in x.get('c') or (): st.append((c, inner))
        return r, b

def units():
    return [os.path.join(VERIF, 'probe', 'mpi.cc')] + all_units('kaminpar-dist', 'kaminpar-mpi') + ['apps/io/dist_io.cc', 'apps/io/dist_metis_parser.cc', 'apps/io/dist_parhip_parser.cc', 'apps/io/dist_skagen.cc']

def run(tier):
    res = Result()
    us = [u for u in units() if os.path.exists(os.path.join(REPO, u))]
    prog = load(us, allow_errors=('.cc',))
    an = Coll(prog, res)
    jobs = [g for g in sorted(prog.fns.values(), key=lambda g: (g['f'], g['l'], g['u'])) if not g.get('dep') and not g.get('lambda') and g.get('b') and an.analysed(g)]
    check(an, jobs, res)
    layer(prog, res)
    for app in ['apps/dKaMinPar.cc']:
        p2 = load([app], allow_errors=('.cc',))
        a2 = Coll(p2, res)
        check(a2, [g for g in p2.fns.values() if g['f'] == app and not g.get('dep') and not g.get('lambda') and g.get('b')], res, an)
    return res

def layer(prog, res):
    """within the communication layer the messages that are handed in are what differs between the processes"""
    an = Coll(prog, res)
    an.raw = True
    an.analysed = lambda g: g['f'].startswith('kaminpar-mpi/')
    bad = {}
    for g in sorted(prog.fns.values(), key=lambda g: (g['f'], g['l'], g['u'])):
        if g.get('dep') or g.get('lambda') or not g['f'].startswith('kaminpar-mpi/') or not g.get('b'): continue
        s, env = Sum(), Env()
        for p in g.get('p') or ():
            t = p['t'].replace('const ', '')
            if p.get('d') is not None: env[p['d']] = frozenset([('L', 'the messages in %s' % p['n'])]) if ('<' in t or t.endswith('*') and 'ompi_' not in t) and 'lambda' not in t else NONE
        c = Ctx(an, g, s, [])
        c.st(g['b'], env, NONE)
        for (site, what, own), labels in s.events.items():
            w = {l[1] for l in labels if l[0] == 'L'}
            if w: bad.setdefault((own, site, what), set()).update(w)
    for f, l, what in sorted(an.sites, key=str):
        if not any(b[1] == '%s:%s' % (f, l) for b in bad): res.ok('%s:%s %s (communication layer)' % (f, l, what))
    for (own, site, what), why in sorted(bad.items()):
        res.bad('%s|%s' % (own, what.split(' (')[0]), site, '%s is reached under control that depends on process-local values: %s' % (what, '; '.join(sorted(why)[:3])))

def check(an, jobs, res, base=None):
    for g in jobs: an.summary(g)
    # fields: local if something local is stored, unless the field is the target of a reduction
    ft = {}
    for s in an.memo.values():
        for key, v in s.stores.items(): ft.setdefault(key, set()).update(v)
    if base is not None:
        for key, v in base.ft.items(): ft.setdefault(key, set()).update(v)
        an.cleanF |= base.cleanF
    taint = {}
    ch = True
    while ch:
        ch = False
        for key, v in ft.items():
            if key in taint or key in an.cleanF: continue
            for l in v:
                if l[0] == 'L': taint[key] = l; ch = True; break
                if l[0] in 'FG' and l in taint: taint[key] = taint[l]; ch = True; break
    an.ft, an.taint = ft, taint
    bad = {}
    for g in jobs:
        s = an.memo[g['u']]
        for (site, what, own), labels in s.events.items():
            why = [l[1] for l in labels if l[0] == 'L'] + ['%s, set from %s' % (l[1].rsplit('::', 1)[-1], taint[l][1]) for l in labels if l in taint]
            if why: bad.setdefault((own, site, what), set()).update(why)
    for f, l, what in sorted(an.sites, key=str): 
        if not any(b[1] == '%s:%s' % (f, l) for b in bad): res.ok('%s:%s %s' % (f, l, what))
    for (own, site, what), why in sorted(bad.items()):
        res.bad('%s|%s' % (own, what.split(' (')[0]), site, '%s is reached under control that depends on process-local values: %s' % (what, '; '.join(sorted(why)[:3])))
