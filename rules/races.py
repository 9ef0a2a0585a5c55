"""Bodies of parallel loops and tasks change shared variables only atomically, under a lock or in thread-local copies."""
from kit import *

PAR = {'parallel_for', 'parallel_for_each', 'parallel_reduce', 'parallel_scan', 'parallel_deterministic_reduce', 'parallel_invoke', 'run', 'execute', 'parallel_chunked_iteration'}
GROW = {'push_back', 'emplace_back', 'pop_back', 'insert', 'emplace', 'erase', 'clear', 'resize', 'reserve', 'assign', 'push', 'pop', 'swap', 'push_front', 'emplace_front', 'pop_front', 'append', 'shrink_to_fit', 'insert_or_assign', 'try_emplace', 'merge', 'extract'}
SAFE = re.compile(r'(^|[ :<])(std::atomic|parallel::Atomic|kaminpar::parallel::Atomic|tbb::detail::d[12]::(concurrent_|enumerable_thread_specific|combinable|spin_mutex|queuing_mutex|task_group)|std::mutex|growt|ConcurrentFlatMap)')
LOCK = re.compile(r'lock_guard|scoped_lock|unique_lock|shared_lock')

class Races:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.memo = {}
        self.tasks = {}

    # ------------------------------------------------------------ which code runs in parallel
    def launchers(self):
        """function -> parameters it calls from the iterations of a parallel loop of its own"""
        out = {}
        for f, call, b in self.direct_bodies():
            own = {p.get('d'): (i, g) for g in self.outer(f) for i, p in enumerate(g['p']) if p.get('d') is not None}
            for u in self.inner(b):
                for x in nodes(self.prog.fns[u]) if u in self.prog.fns else ():
                    if x['k'] == 'OpCall' and x['op'] == '()' and x['c'][0] is not None and strip(x['c'][0])['k'] == 'DRef':
                        e = own.get(strip(x['c'][0]).get('d'))
                        if e is not None and e[1]['unit'] == f['unit']: out.setdefault(e[1]['u'], set()).add(e[0])
        return out

    def outer(self, f):
        out = [f]
        while f.get('lambda') and f.get('pf') is not None: f = f['pf']; out.append(f)
        return out

    def bodies(self):
        yield from self.direct_bodies()
        prog = self.prog
        la = self.launchers()
        self.nlaunch = la
        for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not in_tree(f['f']): continue
            for n in nodes(f):
                if n['k'] not in ('Call', 'MCall'): continue
                g = fn_of(prog, n)
                if g is None or g['u'] not in la or short(callee(n)).startswith(('pfor_', 'parallel_iterate')): continue
                ar = args(n)
                for i in sorted(la[g['u']]):
                    if i < len(ar) and ar[i] is not None and strip(ar[i])['k'] == 'Lambda':
                        for b in lambda_bodies(prog, f, strip(ar[i])): yield f, n, b

    def direct_bodies(self):
        """(launching function, call, lambda bodies)"""
        prog = self.prog
        for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not in_tree(f['f']): continue
            for n in nodes(f):
                if n['k'] not in ('Call', 'MCall'): continue
                s = short(callee(n))
                if not (s in PAR and callee(n).startswith(('tbb', 'oneapi', 'kaminpar')) or s.startswith('pfor_') or s.startswith('parallel_iterate')): continue
                if s in ('run', 'execute') and 'task' not in callee(n): continue
                if s == 'execute': continue          # arena: one thread enters
                for a in args(n):
                    l = strip(a)
                    while l['k'] == 'DRef' and l.get('d') is not None:
                        v = self.var(f, l['d'])
                        if v is None or not v.get('c') or v['c'][0] is None: break
                        l = strip(v['c'][0])
                    if l['k'] == 'Lambda':
                        for b in lambda_bodies(prog, f, l):
                            if s == 'run': self.tasks[b['u']] = (f, n, l)
                            yield f, n, b

    def var(self, f, d):
        m = f.get('_vars')
        if m is None: m = f['_vars'] = {n['d']: n for n in nodes(f) if n['k'] == 'Var'}
        return m.get(d)

    # ------------------------------------------------------------ what a body writes
    def decls(self, f):
        """variable -> (node or parameter, function that declares it)"""
        if not hasattr(self, '_decl'):
            self._decl = {}
            for g in self.prog.fns.values():
                for p in g.get('p') or ():
                    if 'd' in p: self._decl[(g['unit'], p['d'])] = ('p', p, g)
                for x in nodes(g):
                    if x['k'] == 'Var' and 'd' in x:
                        self._decl[(g['unit'], x['d'])] = ('v', x, g)
                        for bd in x.get('binds') or (): self._decl[(g['unit'], bd['d'])] = ('b', x, g)
                    if x['k'] in ('RFor', 'RangeFor'):
                        for y in x.get('c') or ():
                            if isinstance(y, dict) and y['k'] in ('Var', 'Decl'):
                                for v in walk(y):
                                    if v['k'] == 'Var': self._decl[(g['unit'], v['d'])] = ('r', v, g, x)
                    for c in x.get('caps') or ():
                        if isinstance(c, dict) and c.get('initcap'): self._decl.setdefault((g['unit'], c['d']), ('v', {'t': '', 'c': [c.get('init')], 'n': c['n']}, g))
        return self._decl

    def where(self, f, n, inside, depth=0):
        """(owner, path): owner 'own' (declared by the body), 'tls', ('P', function, i), 'this', ('G', name), ('shared', name), '?'; path: fields and indices from the root"""
        path = []
        while isinstance(n, dict) and depth < 40:
            depth += 1
            n = strip(n)
            k = n['k']
            if k == 'Mem' and not n.get('fn'):
                path.append(('.', n.get('q') or n['n'], n))
                if not n.get('c') or n['c'][0] is None: return 'this', path[::-1]
                n = n['c'][0]
            elif k == 'Sub': path.append(('[', n['c'][1], n)); n = n['c'][0]
            elif k == 'OpCall' and n['op'] == '[]': path.append(('[', n['c'][1] if len(n['c']) > 1 else None, n)); n = n['c'][0]
            elif k == 'OpCall' and n['op'] in ('*', '->') or k == 'Un' and n['op'] in ('*', '&', '++', '--'):
                if k == 'Un' and n['op'] == '*': path.append(('*', None, n))
                n = n['c'][0]
            elif k in ('CAssign',) or k == 'Bin' and n['op'] == '=': n = n['c'][0]
            elif k == 'Bin' and n['op'] in ('+', '-'): path.append(('[', n['c'][1], n)); n = n['c'][0]
            elif k == 'This': return 'this', path[::-1]
            elif k == 'DRef':
                dk = n.get('dk')
                if dk in ('global', 'slocal'): return ('G', n.get('q') or n['n']), path[::-1]
                if dk in ('func', 'enum'): return 'own', path[::-1]
                e = self.decls(f).get((f['unit'], n.get('d')))
                if e is None: return '?', path[::-1]
                kind, v, g = e[:3]
                t = v.get('t') or ''
                mine = g['u'] in inside
                if v.get('tls') : return 'tls', path[::-1]
                if v.get('static'): return ('G', n['n']), path[::-1]
                if kind == 'p':
                    if not mine: return ('P', g['u'], [p.get('d') for p in g['p']].index(n['d'])) if False else ('shared', n['n']), path[::-1]
                    if t.endswith('&') or t.endswith('*'): return ('P', g['u'], [p.get('d') for p in g['p']].index(n['d'])), path[::-1]
                    return 'own', path[::-1]
                if kind == 'r':
                    if mine and not ('&' in t or t.endswith('*')): return 'own', path[::-1]
                    if not mine: return ('shared', n['n']), path[::-1]
                    path.append(('[', None, n))
                    rng = [y for y in e[3].get('c') or () if isinstance(y, dict) and y['k'] not in ('Var', 'Decl')]
                    return 'iter', path[::-1]
                ref = '&' in t if kind == 'b' else (t.endswith('&') or t.endswith('*'))
                if not ref:
                    if not mine: return ('shared', n['n']), path[::-1]
                    return 'own', path[::-1]
                if not v.get('c') or v['c'][0] is None: return ('own' if mine else ('shared', n['n'])), path[::-1]
                if t.endswith('*') and not path: return ('own' if mine else ('shared', n['n'])), path[::-1]
                # the object a reference stands for
                n = v['c'][0]
                if kind == 'b': path.append(('[', None, n)) if False else None
                f = g
            elif k in CALLS:
                s = short(callee(n))
                if s in ('local', 'local_buffer', 'get_local') or 'enumerable_thread_specific' in callee(n) or 'combinable' in callee(n):
                    # the copy of the thread that runs this code: outside of the body, one copy for all iterations
                    return ('tls' if f['u'] in inside else ('shared', text(n))), path[::-1]
                g = getter(self.prog, n)
                if k == 'MCall' and n['c'][0] is not None:
                    if g is not None and strip(g)['k'] == 'Mem':
                        path.append(('.', strip(g).get('q') or '', n)); n = n['c'][0]; continue
                    if s in ('front', 'back', 'data', 'begin', 'end', 'get', 'value', 'at', 'first', 'second'):
                        a = args(n)
                        if s in ('front', 'back', 'at', 'begin', 'end'): path.append(('[', a[0] if a else None, n))
                        n = n['c'][0]; continue
                if k == 'Call' and callee(n).startswith('std::') and n.get('c') and s in ('get', 'move', 'forward', 'ref'): n = n['c'][0]; continue
                return '?', path[::-1]
            else: return '?', path[::-1]
        return '?', path[::-1]

    def leads_out(self, w, path):
        """what a thread-local object refers to is shared"""
        if w == 'tls':
            for p in path[:-1]:
                if p[0] == '.' and (self.ftype(p[1]) or '').endswith(('&', '*')): return ('shared', p[1].rsplit('::', 1)[-1])
        return w

    def locked(self, fn, n):
        """a lock is held: a guard object declared earlier in an enclosing block"""
        idx, par = index(fn)
        c = n
        for p in ancestors(fn, n):
            if p['k'] in ('Compound', 'Block'):
                for x in p.get('c') or ():
                    if x is c: break
                    if not isinstance(x, dict): continue
                    for y in ([x] if x['k'] != 'Decl' else x.get('c') or ()):
                        if isinstance(y, dict) and y['k'] == 'Var' and LOCK.search(y.get('t') or ''): return True
                        if isinstance(y, dict) and y['k'] == 'MCall' and short(callee(y)) in ('lock',): return True
            c = p
        return False

    def guarded(self, fn, n):
        """under a condition that only one thread passes"""
        c = n
        for p in ancestors(fn, n):
            if p['k'] == 'If' and c is p['c'][2] and p['c'][1] is not None:
                for x in walk(p['c'][1]):
                    if x['k'] == 'Atomic' and 'compare' in x['op'] or x['k'] in CALLS and (short(callee(x)).startswith(('compare_exchange', 'try_lock', 'exchange', 'test_and_set', 'lock', 'fetch_')) ): return True
            c = p
        return False

    def lamvar(self, f, d):
        """(function, lambda) of a local lambda variable"""
        e = self.decls(f).get((f['unit'], d.get('d')))
        if e is None or e[0] != 'v' or not e[1].get('c') or e[1]['c'][0] is None: return None
        l = strip(e[1]['c'][0])
        return (e[2], l) if l['k'] == 'Lambda' else None

    def same_inst(self, b, call):
        """a generic lambda: the body whose parameter types fit the arguments"""
        ar = [strip(x) if x is not None else None for x in call['c'][1:]]
        if len(ar) != len(b['p']): return False
        bare = lambda t: (t or '').replace('const ', '').rstrip('&* ').strip()
        return all(a is None or bare(a.get('t')) == bare(p['t']) for a, p in zip(ar, b['p']))

    def writes(self, f, inside):
        """[(owner, path, kind, node, fn)] of the direct writes in f and the lambdas it contains"""
        inside = inside | {f['u']}
        out = []
        for n in nodes(f):
            k = n['k']
            if k == 'Lambda':
                for b in lambda_bodies(self.prog, f, n)[:1]: out += self.writes(b, inside)
                continue
            t = self.torn(f, n, inside)
            if t is not None:
                out.append((self.leads_out(*t), t[1], 'torn', n, f)); continue
            a = assigned(n)
            if a is not None:
                if k == 'OpCall' and SAFE.search((strip(a).get('t') or '')): continue
                rmw = k in ('CAssign', 'Un') or k == 'OpCall' and n['op'] != '='
                w, pth = self.where(f, a, inside)
                out.append((self.leads_out(w, pth), pth, 'rmw' if rmw else 'set', n, f))
                continue
            if k == 'MCall' and n['c'][0] is not None and short(callee(n)) in GROW and callee(n).startswith(('std::', 'kaminpar::')) and not n.get('cst'):
                o = strip(n['c'][0])
                t = o.get('t') or ''
                if SAFE.search(t) or SAFE.search(callee(n)) or 'concurrent' in callee(n): continue
                if fn_of(self.prog, n) is None and not callee(n).startswith('std::'): continue
                if callee(n).startswith('std::'): out.append((*self.where(f, n['c'][0], inside), 'grow', n, f)); continue
            if k == 'OpCall' and n['op'] == '()' and strip(n['c'][0])['k'] == 'DRef':
                l = self.lamvar(f, strip(n['c'][0]))
                if l is not None:
                    for b in lambda_bodies(self.prog, l[0], l[1]):
                        if b['u'] in inside or b['u'] != n.get('u', b['u']) and len(lambda_bodies(self.prog, l[0], l[1])) > 1 and not self.same_inst(b, n): continue
                        for w, pth, kind, m, h in self.writes(b, inside):
                            if isinstance(w, tuple) and w[0] == 'P' and w[1] == b['u']:
                                ar = n['c'][1:]
                                if w[2] >= len(ar) or ar[w[2]] is None: continue
                                w, p0 = self.where(f, ar[w[2]], inside)
                                pth = p0 + pth
                            out.append((self.leads_out(w, pth), pth, kind, m, h))
                        break
                    continue
            if k in CALLS:
                g = fn_of(self.prog, n)
                if g is None or not g.get('b') or g.get('lambda'): continue
                for base, pth, kind, ix in self.summary(g):
                    ar = args(n) if k != 'OpCall' else (n['c'] if not g.get('cls') else n['c'][1:])
                    if base == 'this':
                        if k == 'Ctor' or g.get('ctor'): continue
                        o = obj(n) if k == 'MCall' else n['c'][0] if k == 'OpCall' else None
                        if o is None: w, p0 = 'this', []
                        else: w, p0 = self.where(f, o, inside)
                    elif base[0] == 'P':
                        if base[1] >= len(ar) or ar[base[1]] is None: continue
                        w, p0 = self.where(f, ar[base[1]], inside)
                    else: w, p0 = base, []
                    p1 = p0 + [('.', q, n) for q in pth]
                    if ix is not None:
                        if ix[0] == 'param':
                            if any(j >= len(ar) or ar[j] is None for j in ix[1]): continue
                            p1.append(('[', [ar[j] for j in ix[1]], n))
                        else: p1.append(('[', ix, n))
                    out.append((self.leads_out(w, p1), p1, kind, n, f))
        return out

    # ------------------------------------------------------------ updates made of a separate load and store
    def store(self, f, n, inside):
        """(owner, path, value) of a node that stores a value"""
        k, lv = n['k'], None
        if (k == 'Bin' or k == 'OpCall') and n['op'] == '=' and len(n['c']) > 1: lv, v = n['c'][:2]
        elif k == 'Atomic' and 'store' in n['op']: lv, v = n['c'][:2]
        elif k == 'MCall' and short(callee(n)) == 'store' and SAFE.search((strip(n['c'][0]) if n['c'][0] else {}).get('t') or '') and args(n): lv, v = n['c'][0], args(n)[0]
        elif k == 'MCall':
            g = fn_of(self.prog, n)
            if g is None or not g.get('b') or g.get('lambda'): return None
            for base, fl, ix, j in self.setter(g):
                ar = args(n)
                if j >= len(ar) or any(i >= len(ar) for i in ix or ()): continue
                w, p0 = self.target(f, n, base, ar, inside)
                if w is None: continue
                return w, p0 + [('.', q, n) for q in fl] + ([('[', [ar[i] for i in ix], n)] if ix is not None else []), ar[j]
            return None
        if lv is None or v is None: return None
        w, path = self.where(f, lv, inside)
        return w, path, v

    def target(self, f, n, base, ar, inside):
        if base == 'this':
            o = obj(n) if n['k'] == 'MCall' else None
            return ('this', []) if o is None else self.where(f, o, inside)
        return self.where(f, ar[base[1]], inside) if base[1] < len(ar) and ar[base[1]] is not None else (None, [])

    def setter(self, g):
        """what a function sets to the value of one of its parameters: (base, fields, parameters of the index, parameter of the value)"""
        m = self.__dict__.setdefault('_set', {})
        if g['u'] in m: return m[g['u']]
        m[g['u']] = []
        out = []
        ds = [p.get('d') for p in g['p']]
        for n in nodes(g):
            if n['k'] not in ('Bin', 'OpCall', 'Atomic'): continue
            st = self.store(g, n, frozenset((g['u'],)))
            if st is None: continue
            w, path, v = st
            v = strip(v)
            if v['k'] != 'DRef' or v.get('d') not in ds: continue
            if not (w == 'this' or isinstance(w, tuple) and w[0] == 'P'): continue
            ix = self.own_index(g, path)
            if ix == 'no': continue
            out.append((w if w == 'this' else ('P', w[2]), tuple(p[1] for p in path if p[0] == '.'), ix, ds.index(v['d'])))
        m[g['u']] = out
        return out

    def own_index(self, g, path):
        """None: no element, 'no': an element that its parameters do not name, else the parameters that name the element"""
        ds = [p.get('d') for p in g['p']]
        el = [p for p in path if p[0] == '[']
        if not el: return None
        if len(el) > 1: return 'no'
        es = el[0][1] if isinstance(el[0][1], list) else [el[0][1]]
        es = [strip(e) if isinstance(e, dict) else None for e in es]
        if all(e is not None and e['k'] == 'DRef' and e.get('d') in ds for e in es): return tuple(ds.index(e['d']) for e in es)
        return 'no'

    def loads(self, f, e, inside, depth=0):
        """[(owner, path)] of what an expression reads, through local variables and functions that return what they read"""
        out = []
        if depth > 8 or e is None: return out
        for x in [strip(e)]:
            k = x['k']
            if k == 'Lambda': continue
            if k == 'DRef' and x.get('dk') == 'var' or k == 'DRef' and x.get('dk') == 'bind':
                d = self.decls(f).get((f['unit'], x.get('d')))
                if d is not None and d[0] == 'v' and not (d[1].get('t') or '').endswith('&') and not SAFE.search(d[1].get('t') or '') and d[2]['u'] in inside:
                    if d[1].get('c'): out += self.loads(d[2], d[1]['c'][0], inside, depth + 1)
                    for y in nodes(d[2]):
                        if y['k'] == 'Bin' and y['op'] == '=' and strip(y['c'][0])['k'] == 'DRef' and strip(y['c'][0]).get('d') == x.get('d'): out += self.loads(d[2], y['c'][1], inside, depth + 1)
                    continue
            if k == 'Atomic':
                if 'load' in x['op']: out.append(self.where(f, x['c'][0], inside))
                continue
            if k == 'MCall' and x['c'][0] is not None and (short(callee(x)) == 'load' or 'operator ' in callee(x)) and SAFE.search((strip(x['c'][0]).get('t') or '')):
                out.append(self.where(f, x['c'][0], inside)); continue
            if k in ('Mem', 'DRef', 'Sub') or k == 'OpCall' and x['op'] == '[]': out.append(self.where(f, x, inside)); continue
            if k in ('MCall', 'Call') and not x.get('ind'):
                g = fn_of(self.prog, x)
                if g is not None and g.get('b') and not g.get('lambda'):
                    r = [y for y in nodes(g) if y['k'] == 'Return' and y.get('c') and y['c'][0] is not None]
                    if len(r) == 1:
                        ar = args(x)
                        for w, path in self.loads(g, r[0]['c'][0], frozenset((g['u'],)), depth + 4):
                            ix = self.own_index(g, path)
                            if ix == 'no' or any(i >= len(ar) for i in ix or ()): continue
                            if w == 'this' or isinstance(w, tuple) and w[0] == 'P': w, p0 = self.target(f, x, w if w == 'this' else ('P', w[2]), ar, inside)
                            elif isinstance(w, tuple) and w[0] == 'G': p0 = []
                            else: continue
                            if w is not None: out.append((w, p0 + [p for p in path if p[0] == '.'] + ([('[', [ar[i] for i in ix], x)] if ix is not None else [])))
                    continue
            for y in x.get('c') or ():
                if isinstance(y, dict): out += self.loads(f, y, inside, depth)
        return out

    def place(self, w, path):
        def t(e): return ','.join(t(x) for x in e) if isinstance(e, list) else text(strip(e)) if isinstance(e, dict) else str(e)
        return (w, tuple(p[1] for p in path if p[0] == '.'), tuple(t(p[1]) for p in path if p[0] == '['))

    def torn(self, f, n, inside):
        """(owner, path) of a store of a value that is computed from what was read there before"""
        st = self.store(f, n, inside)
        if st is None or st[0] in ('own', 'tls', '?', 'iter'): return None
        w, path, v = st
        key = self.place(w, path)
        same = lambda e: any(self.place(*l) == key for l in self.loads(f, e, inside))
        if same(v): return w, path
        tv = text(strip(v))
        for p in ancestors(f, n):
            c = {'If': p['c'][1], 'While': p['c'][0], 'Cond': p['c'][0]}.get(p['k']) if p['k'] in ('If', 'While', 'Cond') else None
            if c is None: continue
            for x in walk(c):
                # keeps the larger or smaller of two values
                if x['k'] == 'Bin' and x['op'] in ('<', '>', '<=', '>='):
                    for a, b in (x['c'], x['c'][::-1]):
                        if text(strip(a)) == tv and same(b): return w, path
        # takes what it found free: reports failure if it was not
        if not f.get('lambda'):
            rets = [x for x in nodes(f) if x['k'] == 'Return' and x.get('c') and x['c'][0] is not None and strip(x['c'][0])['k'] == 'Bool']
            vals = {strip(x['c'][0]).get('v') for x in rets}
            if len(vals) == 2:
                for x in nodes(f):
                    if x['k'] == 'If' and x['c'][1] is not None and any(y['k'] == 'Return' for br in x['c'][2:4] if br is not None for y in walk(br)) and same(x['c'][1]): return w, path
        return None

    def summary(self, g):
        """unsynchronised changes a function makes to what it does not own: (base, fields, kind, index)
        index: None (no element), ('param', j): the element a parameter names, 'dep': an element found through data"""
        u = g['u']
        if u in self.memo: return self.memo[u]
        self.memo[u] = frozenset()
        res = set()
        for w, path, kind, n, f in self.writes(g, frozenset()):
            if self.locked(f, n) or self.guarded(f, n): continue
            if kind != 'torn' and self.atomic(path, kind): continue
            el = [p for p in path if p[0] == '[']
            ix = None
            if el:
                if kind == 'set' or len(el) > 1: continue
                if isinstance(el[0][1], tuple): ix = el[0][1] if el[0][1][0] != 'arg' else self.param_index(g, el[0][1][1], f)
                elif el[0][1] is None: continue
                else: ix = self.param_index(g, el[0][1], f)
                if ix is None: continue
            fl = tuple(p[1] for p in path if p[0] == '.')
            if len(fl) > 4: continue
            if w == 'this': res.add(('this', fl, kind, ix))
            elif isinstance(w, tuple) and w[0] == 'P' and w[1] == u and (fl or el or any(p[0] == '*' for p in path) or self.isref(g, w[2])): res.add((('P', w[2]), fl, kind, ix))
            elif isinstance(w, tuple) and w[0] == 'G': res.add((w, fl, kind, ix))
        self.memo[u] = frozenset(res)
        return self.memo[u]

    def param_index(self, g, e, f):
        """('param', js): an index made of parameters of g; ('dep',): one found through data; None: unknown"""
        es = e if isinstance(e, list) else [e]
        js, dep = set(), False
        def leaf(e, f, depth):
            nonlocal dep
            if depth > 10 or e is None: return
            e = strip(e)
            if 'cv' in e: return
            k = e['k']
            if k == 'DRef':
                for j, p in enumerate(g['p']):
                    if p.get('d') is not None and p.get('d') == e.get('d') and f['unit'] == g['unit']: js.add(j); return
                d = self.decls(f).get((f['unit'], e.get('d')))
                if d is None: return
                if d[0] == 'p':
                    if self.neighbor(d[2]): dep = True
                    return
                if d[0] == 'b':
                    if self.fromcall(d[1]): dep = True
                    return
                if d[0] == 'v' and d[1].get('c') and d[1]['c'][0] is not None: leaf(d[1]['c'][0], d[2], depth + 1)
            elif k == 'Bin' and e['op'] in ('+', '-', '*', '<<', '|') or k == 'Cond':
                for c in e.get('c') or (): leaf(c, f, depth + 1)
            elif k == 'Sub' or k == 'OpCall' and e['op'] == '[]': dep = True
            elif k in ('MCall', 'Call') and not e.get('ind'):
                a = args(e)
                if len(a) >= 2 and in_tree_fn(self.prog, e):
                    for c in a: leaf(c, f, depth + 1)
                elif len(a) >= 1: dep = True
            elif k == 'Mem': 
                if e.get('c') and e['c'][0] is not None and strip(e['c'][0])['k'] != 'This': leaf(e['c'][0], f, depth + 1)
        for e in es: leaf(e, f, 0)
        if js: return ('param', tuple(sorted(js)))
        return ('dep',) if dep else None

    def fromcall(self, v):
        return bool(v.get('c')) and v['c'][0] is not None and strip(v['c'][0])['k'] in ('MCall', 'Call', 'OpCall')

    def neighbor(self, lam):
        """the lambda runs over the neighbors of a node"""
        if not hasattr(self, '_nb'):
            self._nb = set()
            for g in self.prog.fns.values():
                for n in nodes(g):
                    if n['k'] in ('MCall', 'Call') and re.match(r'(adjacent_nodes|neighbors|adjacent)', short(callee(n))):
                        for a in args(n):
                            if isinstance(a, dict) and strip(a)['k'] == 'Lambda':
                                for b in lambda_bodies(self.prog, g, strip(a)): self._nb.add(b['u'])
        return lam['u'] in self._nb

    def atomic(self, path, kind):
        if kind != 'grow' and path and path[-1][0] == '.' and SAFE.search(self.ftype(path[-1][1]) or ''): return True
        if path and path[-1][0] == '[' and len(path) > 1 and path[-2][0] == '.' and SAFE.search(self.ftype(path[-2][1]) or ''): return True
        return False

    # ------------------------------------------------------------ indices that belong to the iteration
    def bound(self, f, e, body, depth=0):
        """True: the expression is tied to the iteration (a different value in every iteration), False: found through data, None: unknown"""
        if depth > 12 or e is None: return None
        if isinstance(e, list):
            vs = [self.bound(f, x, body, depth + 1) for x in e]
            return True if True in vs else None if None in vs else False if False in vs else 'const'
        e = strip(e)
        k = e['k']
        if k == 'DRef':
            if e.get('dk') in ('global', 'enum', 'func', 'slocal') or 'cv' in e: return 'const'
            d = self.decls(f).get((f['unit'], e.get('d')))
            if d is None: return None
            kind, v, g = d[:3]
            if kind == 'p':
                if g['u'] == body['u']: return True
                return (False if self.neighbor(g) else None) if g['u'] in self.inner(body) else 'const'
            if g['u'] not in self.inner(body):
                t = self.tasks.get(body['u'])
                if t is not None and any(c.get('d') == e.get('d') and not c.get('ref') for c in t[2].get('caps') or ()) and self.loop_of(t[0], t[1], e.get('d')) is not None: return True
                return 'const'
            if kind == 'b' and self.fromcall(v): return False
            if kind in ('b', 'r'): return None
            if not v.get('c') or v['c'][0] is None: return None
            return self.bound(g, v['c'][0], body, depth + 1)
        if k in ('Int', 'Char', 'Bool', 'SizeOf', 'This', 'Float', 'Null') or 'cv' in e: return 'const'
        if k == 'Mem':
            if e.get('c') and e['c'][0] is not None and strip(e['c'][0])['k'] != 'This': return self.bound(f, e['c'][0], body, depth + 1)
            return 'const'
        if k in ('Bin', 'CAssign', 'Un', 'Cond'):
            vs = [self.bound(f, c, body, depth + 1) for c in e.get('c') or () if c is not None]
            if k == 'Bin' and e['op'] in ('/', '%', '>>', '&', '&&', '||', '<', '>', '<=', '>=', '==', '!='): return False if True in vs or False in vs else None if None in vs else 'const'
            if True in vs: return True
            if None in vs: return None
            return False if False in vs else 'const'
        if k == 'Atomic': return True          # a ticket
        if k == 'Sub' or k == 'OpCall' and e['op'] == '[]':
            i = self.bound(f, e['c'][1] if len(e['c']) > 1 else None, body, depth + 1)
            return 'const' if i == 'const' else None if i is None else False
        if k in ('MCall', 'Call', 'OpCall'):
            s = short(callee(e))
            if s.startswith(('fetch_', 'exchange')) : return True
            if k == 'MCall' and e['c'][0] is not None and not args(e):
                return self.bound(f, e['c'][0], body, depth + 1) if strip(e['c'][0])['k'] != 'This' else 'const'
            vs = [self.bound(f, a, body, depth + 1) for a in args(e) if a is not None]
            if len(vs) >= 2: return True if True in vs else None if None in vs else False if False in vs else 'const'
            if not vs: return 'const'
            return 'const' if vs[0] == 'const' else None if vs[0] is None else False
        return None

    def claimed(self, f, n, el, body):
        """only done if what a map says about the element is the value of the iteration: the elements of the iterations are disjoint"""
        ds = {x.get('d') for p in el for e in (p[1] if isinstance(p[1], list) else [p[1]]) if isinstance(e, dict) for x in walk(e) if x['k'] == 'DRef'} - {None}
        def init(e):
            e = strip(e)
            if e['k'] == 'DRef':
                d = self.decls(f).get((f['unit'], e.get('d')))
                if d is not None and d[0] == 'v' and d[1].get('c') and d[1]['c'][0] is not None: return strip(d[1]['c'][0])
            return e
        def holds(e, pos):
            e = strip(e)
            if e['k'] == 'Un' and e['op'] == '!': return holds(e['c'][0], not pos)
            if e['k'] == 'Bin' and e['op'] == ('&&' if pos else '||'): return any(holds(x, pos) for x in e['c'])
            if e['k'] == 'Bin' and e['op'] == ('==' if pos else '!='):
                for a, b in (e['c'], e['c'][::-1]):
                    a = init(a)
                    if a['k'] in ('MCall', 'Call', 'Sub', 'OpCall') and any(y['k'] == 'DRef' and y.get('d') in ds for y in walk(a)) and self.bound(f, b, body) is True: return True
            return False
        c = n
        for p in ancestors(f, n):
            if p['k'] == 'If' and p['c'][1] is not None and (c is p['c'][2] and holds(p['c'][1], True) or c is p['c'][3] and holds(p['c'][1], False)): return True
            if p['k'] in ('Compound', 'Block'):
                for x in p.get('c') or ():
                    if x is c: break
                    if isinstance(x, dict) and x['k'] == 'If' and x['c'][1] is not None and x['c'][2] is not None and x['c'][3] is None and any(y['k'] in ('Return', 'Continue', 'Break') for y in walk(x['c'][2])) and holds(x['c'][1], False): return True
            c = p
        return False

    def loop_of(self, f, call, d):
        """the loop around a call in whose head or body a variable is declared"""
        for p in ancestors(f, call):
            if p['k'] in ('For', 'While', 'Do', 'RFor', 'RangeFor') and any(x['k'] == 'Var' and x.get('d') == d for x in walk(p)): return p
        return None

    def captured(self, f, call, l):
        """a task that outlives the iteration that starts it refers to nothing of that iteration"""
        for c in l.get('caps') or ():
            if not c.get('d') or c.get('initcap'): continue
            p = self.loop_of(f, call, c['d'])
            if p is None: continue
            if any(x['k'] == 'MCall' and short(callee(x)) in ('wait', 'run_and_wait') for x in walk(p)): continue
            if c.get('ref'): self.res.bad('%s|%s' % (self.owner(f), c['n']), at(f, call), 'a task started in a loop refers to %s of the iteration that starts it; the task may run after that iteration' % c['n'])
            else: self.res.ok('%s:%s task owns its %s' % (f['f'], call.get('l'), c['n']))

    def isref(self, g, i):
        return g['p'][i]['t'].endswith('&')

    def ftype(self, q):
        if not hasattr(self, '_ft'):
            self._ft = {}
            for r in self.prog.recs.values():
                for x in r['fields']: self._ft.setdefault(r['q'] + '::' + x['n'], x['t'])
        return self._ft.get(q)

    # ------------------------------------------------------------ verdicts
    def check(self):
        res, seen, ok = self.res, set(), set()
        for f, call, b in self.bodies():
            inv = short(callee(call)) == 'parallel_invoke'
            if inv: continue
            t = self.tasks.get(b['u'])
            if t is not None and (b['u'], 'cap') not in seen:
                seen.add((b['u'], 'cap'))
                self.captured(*t)
            for w, path, kind, n, g in self.writes(b, frozenset()):
                if w in ('own', 'tls', '?', 'iter'): continue
                if isinstance(w, tuple) and w[0] == 'P': continue
                el = [p for p in path if p[0] == '[']
                if kind != 'torn' and self.atomic(path, kind): continue
                lv = strip(assigned(n)) if assigned(n) is not None else None
                if kind != 'torn' and lv is not None and SAFE.search(lv.get('t') or ''): continue
                name = '.'.join(p[1].rsplit('::', 1)[-1] for p in path if p[0] == '.') or (w[1] if isinstance(w, tuple) else 'this')
                key = '%s|%s' % (b['q'] if not b.get('lambda') else self.owner(f), name)
                loc = (g['f'], n.get('l'), name, kind)
                if loc in seen: continue
                seen.add(loc)
                if self.locked(g, n) or self.guarded(g, n): res.ok('%s:%s: %s under a lock' % (g['f'], n.get('l'), name)); continue
                how = 'through ' + short(callee(n)) if n['k'] in CALLS and assigned(n) is None and short(callee(n)) not in GROW else ''
                if not el:
                    what = {'grow': 'changes the size of', 'rmw': 'updates', 'set': 'writes', 'torn': 'load and then store'}[kind]
                    res.bad(key, at(g, n), 'the iterations of a parallel loop (%s:%s) %s the shared %s without synchronisation %s' % (f['f'], call.get('l'), what.replace('changes', 'change').replace('updates', 'update').replace('writes', 'write'), name, how)); continue
                vs = [self.bound(g, p[1], b) if not isinstance(p[1], tuple) else False for p in el if p[1] is not None]
                if all(v == 'const' for v in vs) and vs:
                    if len(el) == 1 and kind != 'grow' or kind in ('grow', 'rmw', 'torn'): res.bad(key, at(g, n), 'every iteration of a parallel loop (%s:%s) changes the same element of %s %s' % (f['f'], call.get('l'), name, how)); continue
                if kind in ('rmw', 'grow', 'torn') and False in vs and True not in vs:
                    if self.claimed(g, n, el, b): res.ok('%s:%s %s: element of the iteration' % (g['f'], n.get('l'), name)); continue
                    res.bad(key, at(g, n), 'iterations of a parallel loop (%s:%s) %s an element of %s that is found through data and may be shared, without synchronisation %s' % (f['f'], call.get('l'), {'rmw': 'update', 'torn': 'load and then store', 'grow': 'grow'}[kind], name, how)); continue
                if None in vs and True not in vs: res.skip('%s:%s %s' % (g['f'], n.get('l'), text(n)[:80])); continue
                res.ok('%s:%s %s' % (g['f'], n.get('l'), name))

    def owner(self, f):
        while f.get('lambda'):
            p = f.get('pf')
            if p is None: break
            f = p
        return f.get('q') or f['f']

    def inner(self, b):
        out = {b['u']}
        for n in nodes(b):
            if n['k'] == 'Lambda':
                for c in lambda_bodies(self.prog, b, n): out |= self.inner(c)
        return out

def in_tree_fn(prog, n):
    g = fn_of(prog, n)
    return g is not None and in_tree(g['f'])

def in_tree(f):
    return f.startswith(('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'apps', 'include')) or f.startswith('probe/')

def units():
    probe = [os.path.join(VERIF, 'probe', f) for f in sorted(os.listdir(os.path.join(VERIF, 'probe'))) if f.endswith('.cc')]
    return probe + all_units('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'apps')

def run(tier):
    res = Result()
    prog = load(units(), allow_errors=('.cc',))
    r = Races(prog, res)
    r.check()
    return res
