"""What a function may write: locations are (base, field) with base this / L declaration / P parameter / G global / U unknown
and field the innermost named member. Calls contribute the summary of the callee, mapped to the caller's objects."""
from kit import *

# non-const members of containers and handles that hand out elements but change nothing themselves
ACCESS = {'begin', 'end', 'rbegin', 'rend', 'data', 'front', 'back', 'at', 'find', 'local', 'get', 'local_buffer', 'cbegin', 'cend', 'operator*', 'operator->',
          'operator[]', 'top', 'first', 'second', 'lower_bound', 'upper_bound', 'equal_range', 'operator()', 'combine_each', 'range', 'rdbuf', 'value', 'load', 'flush', 'key_comp', 'native_handle', 'operator bool', 'has_value', 'test', 'count', 'str', 'view', 'size', 'get_allocator'}
STREAM = re.compile(r'basic_(o|i|io|ostring|string|f|of|if)*stream|::Logger|Logger\b|ostream')
ATOMWR = ('__atomic_store', '__atomic_fetch', '__atomic_add', '__atomic_sub', '__atomic_or', '__atomic_and', '__atomic_exchange', '__atomic_compare', '__atomic_xor')

class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.decl = {}
        self.memo = {}
        self.active = set()
        self.diagfns = ()     # functions whose effects on their own object are judged by themselves
        for f in prog.fns.values():
            for i, p in enumerate(f.get('p') or ()):
                if 'd' in p: self.decl[(f['unit'], p['d'])] = ('p', p, i, f)
            for x in nodes(f):
                if x['k'] == 'Var' and 'd' in x:
                    self.decl[(f['unit'], x['d'])] = ('v', x, None, f)
                    for b in x.get('binds') or (): self.decl[(f['unit'], b['d'])] = ('b', x, None, f)
                for c in x.get('caps') or ():
                    if isinstance(c, dict) and 'init' in c and 'd' in c: self.decl.setdefault((f['unit'], c['d']), ('v', {'t': '', 'c': [c['init']], 'n': c.get('n', '')}, None, f))

    def loc(self, f, n, depth=0):
        """(base, field) of an lvalue expression (or of the object an expression denotes)"""
        field = ''
        while isinstance(n, dict) and depth < 30:
            depth += 1
            n = strip(n)
            k = n['k']
            if k == 'Mem' and not n.get('fn'):
                if not field: field = n.get('q') or '?::' + n['n']
                if not n.get('c') or n['c'][0] is None: return (('this',), field)
                n = n['c'][0]
            elif k == 'Sub' or k == 'OpCall' and n['op'] in ('[]', '*', '->') or k == 'Un' and n['op'] in ('*', '&', '++', '--') or k in ('CAssign',) or k == 'Bin' and n['op'] in ('=', '+', '-'):
                n = n['c'][0]
            elif k == 'This': return (('this',), field)
            elif k == 'DRef':
                dk = n.get('dk')
                if dk == 'slocal' or (n.get('t') or '').startswith('const '): return (('C',), field)     # memoised values, constants
                if dk == 'global': return (('G', n.get('q') or n['n']), field)
                if dk in ('func', 'enum'): return (('C',), field)
                e = self.decl.get((f['unit'], n.get('d')))
                if e is None: return (('U', n['n']), field)
                kind, v, i, owner = e
                t = v.get('t', '') or ''
                if kind == 'p':
                    return (('P', i, owner['u']), field) if t.endswith('&') or t.endswith('*') else (('L', n.get('d')), field)
                ref = t.endswith('&') or t.endswith('*') or kind == 'b' and True
                if kind == 'b': ref = '&' in t
                if not ref or not v.get('c') or v['c'][0] is None: return (('L', n.get('d')), field)
                n = v['c'][0]
            elif k in CALLS:
                g = getter(self.prog, n)
                if k == 'MCall' and n['c'][0] is not None and (short(callee(n)) in ACCESS or g is not None or True):
                    # members hand out parts of their object
                    if g is not None:
                        gf = fn_of(self.prog, n)
                        b, fl = self.loc(gf, g, depth)
                        if b == ('this',):
                            if not field: field = fl
                            n = n['c'][0]; continue
                        return (b, field or fl)
                    if short(callee(n)) in ACCESS:
                        n = n['c'][0]; continue
                if k == 'Call' and short(callee(n)) == 'instance': return (('G', 'singleton ' + callee(n)), '')
                if k == 'Call' and callee(n).startswith('std::') and n.get('c'):
                    n = n['c'][0]; continue
                return (('U', short(callee(n))), field)
            elif k == 'Cond': n = n['c'][1]
            else: return (('U', k), field)
        return (('U', '?'), field)

    def sites(self, f, ns):
        """[(location, node)] written directly by the nodes, calls included"""
        out = []
        for x in ns:
            k = x['k']
            a = assigned(x)
            if a is not None and not (k == 'OpCall' and fn_of(self.prog, x) is not None):
                out.append((self.loc(f, a), x)); continue
            if k == 'Atomic':
                if x['op'].startswith(ATOMWR):
                    out.append((self.loc(f, x['c'][0]), x))
                    if 'compare' in x['op']: out.append((self.loc(f, x['c'][1]), x))
                continue
            if k in ('New', 'Delete'): continue
            if k in CALLS: out += [(l, x) for l in self.call(f, x)]
            if k == 'RFor' or k == 'Lambda': continue
        return out

    def call(self, f, n):
        k = n['k']; q = callee(n); s = short(q)
        res = set()
        o = obj(n)
        if k == 'OpCall': o = n['c'][0] if n.get('c') else None
        an = args(n) if k != 'OpCall' else n['c'][1:]
        pk = n.get('pk', '')
        g = fn_of(self.prog, n)
        if s == 'instance': return res
        if s in ('operator[]', 'operator*', 'operator->'): return res
        if g is not None and 'b' in g and not n.get('virt'):
            for b, fl in self.summary(g):
                if b == ('this',):
                    if k == 'Ctor' or g['u'] in self.diagfns: continue
                    if o is None or strip(o)['k'] == 'This': res.add((('this',), fl)); continue
                    b2, f2 = self.loc(f, o)
                    res.add((b2, f2))       # the object of the caller is meant, not what it is made of
                elif b[0] == 'P':
                    if b[2] != g['u']: continue
                    ar = an if k != 'OpCall' or o is None or g.get('cls') else n['c']
                    if b[1] < len(ar) and ar[b[1]] is not None:
                        b2, f2 = self.loc(f, ar[b[1]])
                        res.add((b2, f2 or (fl if b2[0] not in ('L', 'P') else '')))
                else: res.add((b, fl))
            return res
        if s == 'instance': return res       # created on first use
        if k == 'OpCall' and n['op'] == '()' and 'distribution' in q and len(n['c']) > 1: res.add(self.loc(f, n['c'][1])); return res
        if k == 'OpCall' and n['op'] == '()' or n.get('ind'): return res
        if k == 'Ctor': return res
        if k in ('MCall',) and not n.get('cst') and not n.get('st') and o is not None and s not in ACCESS and q.startswith(('std::', 'tbb::', 'oneapi::', 'growt', 'kaminpar')):
            if not q.startswith(('std::basic_', 'std::ostream')) or 'basic_string::' in q: res.add(self.loc(f, o))
        if k == 'OpCall' and n['op'] == '<<' and n.get('c') and n['c'][0] is not None and STREAM.search(strip(n['c'][0]).get('t', '') or ''): return res
        if k in ('Call', 'MCall'):
            if s in ('move', 'forward', 'begin', 'end', 'get', 'data', 'getline', 'addressof', 'make_pair', 'tie', 'size') : return res
            for i, a in enumerate(an):
                if i < len(pk) and pk[i] == 'r' and a is not None and not STREAM.search((strip(a) or {}).get('t', '') or ''):
                    if strip(a)['k'] == 'Lambda': continue
                    res.add(self.loc(f, a))
            if q.startswith('std::') and s in ('sort', 'stable_sort', 'fill', 'copy', 'copy_n', 'fill_n', 'iota', 'shuffle', 'reverse', 'rotate', 'partial_sum', 'exclusive_scan', 'inclusive_scan', 'transform', 'memcpy', 'memset', 'remove', 'remove_if', 'unique', 'nth_element', 'generate'):
                for i, a in enumerate(an):
                    if a is not None and (s not in ('copy', 'copy_n', 'partial_sum', 'exclusive_scan', 'inclusive_scan', 'transform') or i == 2): res.add(self.loc(f, a))
        return res

    def body_nodes(self, f, seen=None):
        """nodes of a function and of the lambdas in it, with the function they belong to"""
        dead = set()
        for x in nodes(f):
            if x['k'] == 'Bin' and x['op'] == '&&' and x['c'][0] is not None and strip(x['c'][0]).get('cv') in ('0', 'false'):
                dead.update(y['i'] for y in walk(x['c'][1]) if 'i' in y)
        yield from ((f, x) for x in nodes(f) if x.get('i') not in dead)
        for x in list(nodes(f)):
            if x['k'] == 'Lambda' and x.get('i') not in dead:
                for b in lambda_bodies(self.prog, f, x)[:1]: yield from self.body_nodes(b)

    def summary(self, g):
        u = g['u']
        if u in self.memo: return self.memo[u]
        if u in self.active: return set()
        self.active.add(u)
        res = set()
        for f, x in self.body_nodes(g):
            for (b, fl), _ in self.sites(f, [x]):
                if b[0] in ('L', 'C'): continue
                if b[0] == 'P' and b[2] != u: b = ('U', 'λ')
                if b[0] == 'U': continue
                res.add((b, fl))
        self.active.discard(u)
        self.memo[u] = res
        return res
