"""Communication calls describe their buffers with the type the buffers have; both sides of an operation agree; started transfers are completed."""
from kit import *
import pathfx

# function -> [(buffer, count, type)] by argument position, position of the root, of the operation, of the communicator
SIG = {
    'MPI_Bcast': ([(0, 1, 2)], 3, None, 4),
    'MPI_Reduce': ([(0, 2, 3), (1, 2, 3)], 5, 4, 6),
    'MPI_Allreduce': ([(0, 2, 3), (1, 2, 3)], None, 4, 5),
    'MPI_Scan': ([(0, 2, 3), (1, 2, 3)], None, 4, 5),
    'MPI_Exscan': ([(0, 2, 3), (1, 2, 3)], None, 4, 5),
    'MPI_Reduce_scatter': ([(0, None, 3), (1, None, 3)], None, 4, 5),
    'MPI_Gather': ([(0, 1, 2), (3, 4, 5)], 6, None, 7),
    'MPI_Allgather': ([(0, 1, 2), (3, 4, 5)], None, None, 6),
    'MPI_Scatter': ([(0, 1, 2), (3, 4, 5)], 6, None, 7),
    'MPI_Alltoall': ([(0, 1, 2), (3, 4, 5)], None, None, 6),
    'MPI_Gatherv': ([(0, 1, 2), (3, None, 6)], 7, None, 8),
    'MPI_Allgatherv': ([(0, 1, 2), (3, None, 6)], None, None, 7),
    'MPI_Scatterv': ([(0, None, 3), (4, 5, 6)], 7, None, 8),
    'MPI_Alltoallv': ([(0, None, 3), (4, None, 7)], None, None, 8),
    'MPI_Send': ([(0, 1, 2)], None, None, 5), 'MPI_Isend': ([(0, 1, 2)], None, None, 5), 'MPI_Issend': ([(0, 1, 2)], None, None, 5),
    'MPI_Recv': ([(0, 1, 2)], None, None, 5), 'MPI_Irecv': ([(0, 1, 2)], None, None, 5),
}
EQUAL = {'MPI_Allgather', 'MPI_Gather', 'MPI_Scatter', 'MPI_Alltoall'}
INTS = {'bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long'}
REALS = {'float', 'double', 'long double'}
# type -> predefined datatypes that describe it on this platform (LP64)
NAMES = {
    'bool': {'cxx_bool', 'cxx_cplusplus_bool', 'c_bool'}, 'char': {'char'}, 'signed char': {'int8_t', 'signed_char', 'char'}, 'unsigned char': {'uint8_t', 'unsigned_char', 'byte'},
    'short': {'int16_t', 'short'}, 'unsigned short': {'uint16_t', 'unsigned_short'}, 'int': {'int32_t', 'int'}, 'unsigned int': {'uint32_t', 'unsigned'},
    'long': {'int64_t', 'long', 'long_long_int'}, 'unsigned long': {'uint64_t', 'unsigned_long', 'unsigned_long_long'}, 'long long': {'int64_t', 'long', 'long_long_int'}, 'unsigned long long': {'uint64_t', 'unsigned_long', 'unsigned_long_long'},
    'float': {'float'}, 'double': {'double'}, 'long double': {'long_double'},
}
MAPPED = INTS | REALS - {'char', 'long long', 'unsigned long long'}
MAPPED -= {'char', 'long long', 'unsigned long long'}
PAIRS = {'float_int': ('float', 'int'), 'double_int': ('double', 'int'), 'long_int': ('long', 'int'), '2int': ('int', 'int'), 'short_int': ('short', 'int'), 'longdbl_int': ('long double', 'int')}

def bare(t):
    if isinstance(t, list): t = t[0] if t else ''
    t = re.sub(r'\b(const|volatile|struct)\b', '', t or '').strip()
    t = re.sub(r'\s*\[[^\]]*\]$', '', t).strip()
    while t.endswith(('&',)): t = t[:-1].strip()
    return t

def last(t):
    """type name without qualification"""
    t = bare(t)
    b = t.split('<', 1)
    return b[0].rsplit('::', 1)[-1].strip() + ('<' + b[1] if len(b) > 1 else '')

class Msg:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res

    # ------------------------------------------------------------ types
    def pointee(self, e):
        """element type of a buffer; None: no buffer (in place, absent)"""
        e = strip(e)
        if e['k'] == 'Cond':
            for c in e['c'][1:]:
                t = self.pointee(c)
                if t: return t
            return None
        if 'cv' in e or e['k'] in ('Null', 'Int') or e.get('k') == 'Cast' : return None
        t = bare(e.get('t'))
        if re.search(r'\[[^\]]*\]$', (e.get('t') or '')): return t
        if t.endswith('*'): 
            t = bare(t[:-1])
            return None if t == 'void' else t
        if t == 'nullptr_t' or t == 'std::nullptr_t': return None
        return '?'

    def dtype(self, f, e, depth=0):
        """('T', type) for mpi::type::get<T>(), ('N', name) for a predefined datatype, None: unknown"""
        e = strip(e)
        if e['k'] == 'Call' and short(callee(e)) == 'get' and '::type::' in callee(e): return ('T', bare(e.get('ta')))
        if e['k'] == 'Call' and short(callee(e)) == 'custom': return ('N', 'custom')
        for x in walk(e):
            if x['k'] == 'DRef' and x['n'] == 'ompi_mpi_datatype_null': return ('N', 'null')
            if x['k'] == 'DRef' and x['n'].startswith('ompi_mpi_'): return ('N', x['n'][9:])
        if e['k'] == 'DRef' and depth < 4:
            for x in nodes(f):
                if x['k'] == 'Var' and x.get('d') == e.get('d') and x.get('c') and x['c'][0] is not None: return self.dtype(f, x['c'][0], depth + 1)
        if 'cv' in e or e['k'] == 'Null': return ('N', 'null')
        return None

    def fits(self, t, d):
        """True, False, None"""
        if d is None or t == '?': return None
        if d[0] == 'T':
            if last(t) == last(d[1]): return True
            if last(t) in ('type-parameter',) or '(' in t or '(' in d[1]: return None
            if {last(t), last(d[1])} <= {'long', 'long long'} or {last(t), last(d[1])} <= {'unsigned long', 'unsigned long long'}: return True
            return False
        n = d[1]
        if n in PAIRS:
            if bare(t).startswith('std::pair<'):
                a = bare(t)[10:-1].split(',')
                return [x.strip() for x in a] == list(PAIRS[n])
            r = next((r for r in self.prog.recs.values() if r['q'] == bare(t) or last(r['q']) == last(t)), None)
            if r is None: return None
            return [bare(x['t']) for x in r['fields']] == list(PAIRS[n])
        if n in ('byte', 'char') : return True
        if last(t) in NAMES: return n in NAMES[last(t)]
        return None

    # ------------------------------------------------------------ calls
    def calls(self):
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f['f'].startswith(('kaminpar-', 'apps/', 'probe/')): continue
            for n in nodes(f):
                if n['k'] == 'Call' and callee(n) in SIG and len(args(n)) > SIG[callee(n)][3]: yield f, n

    def key(self, f, n): return '%s|%s' % (self.owner(f), callee(n))

    def owner(self, f):
        while f.get('lambda') and f.get('pf') is not None: f = f['pf']
        return f.get('q') or f['f']

    def check_calls(self):
        seen = set()
        for f, n in self.calls():
            a = args(n)
            bufs, root, op, comm = SIG[callee(n)]
            where = at(f, n)
            types = []
            for b, c, t in bufs:
                e = self.pointee(a[b])
                d = self.dtype(f, a[t])
                types.append(d)
                if e is None or d is not None and d == ('N', 'null'): continue
                v = self.fits(e, d)
                k = (f['f'], n.get('l'), b, e, d)
                if k in seen: continue
                seen.add(k)
                if v is None: self.res.skip('%s argument %d of %s: %s / %s' % (where, b, callee(n), e, d)); continue
                if v: self.res.ok('%s %s argument %d: %s' % (where, callee(n), b, last(e)))
                else: self.res.bad(self.key(f, n), where, '%s describes a buffer of %s as %s' % (callee(n), last(e), d[1]))
            k = (f['f'], n.get('l'), 'pair')
            if len(types) == 2 and k not in seen and None not in types and ('N', 'null') not in types:
                seen.add(k)
                x, y = self.norm(types[0]), self.norm(types[1])
                if x == y: self.res.ok('%s %s: sent and received type agree' % (where, callee(n)))
                else: self.res.bad(self.key(f, n), where, '%s sends %s and receives %s' % (callee(n), types[0][1], types[1][1]))
                if x == y and callee(n) in EQUAL:
                    p, q = strip(a[1]), strip(a[4])
                    if 'cv' in p and 'cv' in q and p['cv'] != q['cv']: self.res.bad(self.key(f, n), where, '%s sends %s elements and receives %s from every process' % (callee(n), p['cv'], q['cv']))
                    elif 'cv' in p and 'cv' in q or text(p) == text(q): self.res.ok('%s %s: sent and received number agree' % (where, callee(n)))
                    else: self.res.skip('%s %s: numbers %s / %s' % (where, callee(n), text(p), text(q)))
            if op is not None: self.operation(f, n, a[op], types[-1], self.pointee(a[bufs[-1][0]]) or self.pointee(a[bufs[0][0]]), seen)

    def norm(self, d):
        if d[0] == 'T':
            t = last(d[1])
            return {'long long': 'long', 'unsigned long long': 'unsigned long'}.get(t, t)
        for t, ns in NAMES.items():
            if d[1] in ns: return {'long long': 'long', 'unsigned long long': 'unsigned long'}.get(t, t)
        return d[1]

    def operation(self, f, n, o, d, t, seen):
        names = [x['n'][len('ompi_mpi_op_'):] for x in walk(o) if x['k'] == 'DRef' and x['n'].startswith('ompi_mpi_op_')]
        k = (f['f'], n.get('l'), 'op', tuple(names), d)
        if not names or d is None or k in seen: return
        seen.add(k)
        x = names[0]
        if x in ('minloc', 'maxloc'): good = d[0] == 'N' and d[1] in PAIRS or d[0] == 'T' and d[1].startswith('std::pair<')
        elif x in ('sum', 'prod', 'max', 'min'): good = self.norm(d) in INTS | REALS
        elif x in ('land', 'lor', 'lxor', 'band', 'bor', 'bxor'): good = self.norm(d) in INTS
        else: return
        if x in ('sum', 'prod', 'max', 'min') and self.norm(d) == 'bool': good = False
        if good: self.res.ok('%s %s: %s of %s' % (at(f, n), callee(n), x, d[1]))
        else: self.res.bad(self.key(f, n), at(f, n), '%s applies %s to elements of type %s, for which it is not defined' % (callee(n), x, d[1]))

    # ------------------------------------------------------------ the table of types
    def table(self):
        seen = set()
        for f in sorted(self.prog.fns.values(), key=lambda f: f['u']):
            if f.get('dep') or not f['f'].endswith('datatype.h') or short(f['q']) not in ('get', 'custom'): continue
            if short(f['q']) == 'get':
                t = bare(f.get('ta') or '')
                if not t: continue
                rets = [x for x in nodes(f) if x['k'] == 'Return' and live(f, x)]
                for r in rets:
                    d = self.dtype(f, r['c'][0])
                    if (t, d) in seen: continue
                    seen.add((t, d))
                    if d is None: self.res.skip('%s: type of %s' % (at(f, r), t)); continue
                    n = d[1]
                    if last(t) in NAMES: good = n in NAMES[last(t)] | {'custom'} and (n != 'custom' or last(t) not in MAPPED)
                    elif n in PAIRS: good = self.fits(t, d) is not False
                    else: good = n == 'custom' and self.sized(r, t)
                    if good: self.res.ok('type %s: %s' % (t, n))
                    else: self.res.bad('datatype|' + last(t), at(f, r), 'elements of type %s are described as %s' % (t, n))

    def sized(self, r, t):
        return True

    # ------------------------------------------------------------ both branches of a decision
    def ops(self, n):
        return [x for x in walk(n) if x['k'] == 'Call' and callee(x) in SIG and callee(x) not in ('MPI_Send', 'MPI_Recv', 'MPI_Isend', 'MPI_Irecv', 'MPI_Issend')]

    def branches(self):
        seen = set()
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f['f'].startswith(('kaminpar-', 'apps/', 'probe/')): continue
            for n in nodes(f):
                if n['k'] != 'If' or len(n['c']) < 4 or n['c'][3] is None: continue
                x, y = self.ops(n['c'][2]), self.ops(n['c'][3])
                if not x or not y or [callee(a) for a in x] != [callee(b) for b in y]: continue
                for a, b in zip(x, y):
                    if (f['f'], a.get('l'), b.get('l')) in seen: continue
                    seen.add((f['f'], a.get('l'), b.get('l')))
                    bufs, root, op, comm = SIG[callee(a)]
                    fa, fb = args(a), args(b)
                    if text(strip(fa[comm])) != text(strip(fb[comm])): continue
                    bad = None
                    for _, _, t in bufs:
                        p, q = self.dtype(f, fa[t]), self.dtype(f, fb[t])
                        if p and q and ('N', 'null') not in (p, q) and self.norm(p) != self.norm(q): bad = 'elements of %s and of %s' % (p[1], q[1])
                    if root is not None and text(strip(fa[root])) != text(strip(fb[root])): bad = 'the roots %s and %s' % (text(fa[root]), text(fb[root]))
                    if op is not None and text(strip(fa[op])) != text(strip(fb[op])): bad = 'different operations'
                    # an operation that one branch alone guards
                    ga, gb = self.guards(f, a, n), self.guards(f, b, n)
                    if ga != gb: bad = 'different guards (%s / %s)' % (' and '.join(ga) or 'none', ' and '.join(gb) or 'none')
                    if bad: self.res.bad(self.key(f, b), at(f, b), 'processes in the two branches of a decision meet in the same %s (%s) with %s' % (callee(a), at(f, a), bad))
                    else: self.res.ok('%s both branches: %s' % (at(f, a), callee(a)))

    def guards(self, f, n, stop):
        out, c = [], n
        for p in ancestors(f, n):
            if p is stop: break
            if p['k'] == 'If': out.append(('' if c is p['c'][2] else '!') + text(p['c'][1]))
            c = p
        return out

    # ------------------------------------------------------------ transfers that run in the background
    def request(self, f, e):
        """the request (or container of requests) an expression stands for; references are followed"""
        v = next((x for x in walk(strip(e)) if x['k'] == 'DRef' and 'ompi_request_t' in (x.get('t') or '')), None)
        for _ in range(4):
            if v is None: return None
            d = next((x for x in nodes(f) if x['k'] == 'Var' and x.get('d') == v.get('d')), None)
            if d is None: return v
            src = None
            if d.get('c') and d['c'][0] is not None and ('&' in (d.get('t') or '') or d.get('ref')): src = d['c'][0]
            for p in ancestors(f, d):
                if p['k'] == 'RFor' and any(x is d for c in p['c'][:2] if isinstance(c, dict) for x in walk(c)): src = next((c for c in p['c'][:3] if isinstance(c, dict) and not any(x is d for x in walk(c))), None)
                break
            w = next((x for x in walk(src) if x['k'] == 'DRef' and 'ompi_request_t' in (x.get('t') or '')), None) if src is not None else None
            if w is None: return v
            v = w
        return v

    def requests(self):
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f['f'].startswith(('kaminpar-', 'apps/', 'probe/')): continue
            for n in nodes(f):
                if n['k'] != 'Call' or short(callee(n)) not in ('MPI_Isend', 'MPI_Irecv', 'isend', 'irecv', 'MPI_Issend'): continue
                if not callee(n).startswith(('MPI_', 'kaminpar::mpi::')): continue
                v = None
                for a in args(n):
                    if a is None: continue
                    v = self.request(f, a) or v
                if v is None: self.res.skip('%s: request of %s' % (at(f, n), callee(n))); continue
                if v.get('d') in {p.get('d') for p in f['p']}: self.res.ok('%s: the caller completes %s' % (at(f, n), v['n'])); continue
                done = lambda x: x['k'] == 'Call' and short(callee(x)) in ('MPI_Wait', 'MPI_Waitall', 'waitall', 'wait') and any((self.request(f, a) or {}).get('d') == v.get('d') for a in args(x) if a is not None)
                if not any(done(x) for x in nodes(f)): self.res.bad(self.key(f, n), at(f, n), 'nothing waits for the transfer started here; its buffer may be released before it is sent'); continue
                if self.escapes(f, n, done): self.res.bad(self.key(f, n), at(f, n), 'a path leaves %s without waiting for the transfer started here' % short(self.owner(f)))
                else: self.res.ok('%s: %s is completed' % (at(f, n), v['n']))

    def escapes(self, f, start, done):
        """a return is reachable from the start that is not preceded by a wait in the same or an enclosing block"""
        for r in nodes(f):
            if r['k'] not in ('Return', 'Throw'): continue
            idx, par = index(f)
            if idx.get(id(r), 0) < idx.get(id(start), 0) if isinstance(idx, dict) else False: continue
            # statements before the return in its enclosing blocks
            ok, c = False, r
            before = False
            for p in ancestors(f, r):
                if p['k'] in ('Compound', 'Block'):
                    for x in p.get('c') or ():
                        if x is c: break
                        if isinstance(x, dict):
                            if any(y is start for y in walk(x)): before = True
                            if before and any(done(y) for y in walk(x)): ok = True
                c = p
            inside = any(y is start for y in walk(c))
            if before and not ok: return True
        return False

    # ------------------------------------------------------------ receiving what was announced
    def counts(self):
        """the number of elements is asked for with the type they are received with"""
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f['f'].startswith(('kaminpar-', 'apps/', 'probe/')): continue
            asked = [n for n in nodes(f) if n['k'] == 'Call' and (callee(n) == 'MPI_Get_count' or callee(n).endswith('mpi::get_count'))]
            got = [n for n in nodes(f) if n['k'] == 'Call' and (callee(n) == 'MPI_Recv' or callee(n).endswith('mpi::recv'))]
            if len(asked) != 1 or len(got) != 1: continue
            a, g = asked[0], got[0]
            ta = self.dtype(f, args(a)[1]) if callee(a) == 'MPI_Get_count' else ('T', bare(a.get('ta') or ''))
            tg = self.dtype(f, args(g)[2]) if callee(g) == 'MPI_Recv' else ('T', bare((g.get('ta') or '').split(',')[0]))
            if ta is None or tg is None or not ta[1] or not tg[1]: self.res.skip('%s: counted and received type' % at(f, a)); continue
            if self.norm(ta) == self.norm(tg): self.res.ok('%s: counted and received as %s' % (at(f, a), ta[1]))
            elif ta[0] == 'T' and tg[0] == 'T' and (ta[1] not in INTS | REALS or tg[1] not in INTS | REALS) and callee(g) != 'MPI_Recv': self.res.skip('%s: counted as %s, received as %s' % (at(f, a), ta[1], tg[1]))
            else: self.res.bad(self.key(f, g), at(f, g), 'the number of elements is asked for as %s, but they are received as %s' % (ta[1], tg[1]))

    # ------------------------------------------------------------ what is sent is plain data
    def plain(self):
        seen = set()
        for f in sorted(self.prog.fns.values(), key=lambda f: f['u']):
            if f.get('dep') or not f['f'].endswith('datatype.h') or short(f['q']) != 'get': continue
            t = bare(f.get('ta') or '')
            if not t or t in seen: continue
            seen.add(t)
            r = [r for r in self.prog.recs.values() if last(r['q']) == last(t)]
            if not r: continue
            for x in {(y['n'], y['t']) for q in r for y in q['fields']}:
                if bare(x[1]).endswith('*') or re.search(r'std::(vector|string|basic_string|unordered|map|set|unique_ptr|shared_ptr|function|list|deque)|StaticArray|&$', x[1]): self.res.bad('message|%s::%s' % (last(t), x[0]), '%s:%s' % (r[0]['f'], r[0].get('l')), 'messages of type %s contain %s, which is meaningless on another process' % (last(t), x[0]))
                else: self.res.ok('message %s::%s' % (last(t), x[0]))

    # ------------------------------------------------------------ counts, displacements and buffers belong together
    def place(self, e):
        """the container behind an argument: ('d', declaration), ('m', class, field) or None"""
        e = strip(e)
        while isinstance(e, dict):
            k, s = e['k'], short(callee(e))
            if k == 'MCall' and s in ('data', 'cdata', 'begin', 'cbegin', 'end', 'cend', 'back', 'front', 'size', 'get', 'at') and e['c'][0] is not None: e = strip(e['c'][0])
            elif k == 'Call' and s in ('data', 'begin', 'end', 'size', 'cbegin') and len(args(e)) == 1: e = strip(args(e)[0])
            elif k == 'Un' and e['op'] in ('&', '*'): e = strip(e['c'][0])
            elif k in ('Bin', 'OpCall') and e.get('op') in ('+', '-') and len(e['c']) == 2: e = strip(e['c'][0])
            elif k in ('Sub',) or k == 'OpCall' and e['op'] in ('[]', '->', '*'): e = strip(e['c'][0])
            else: break
        if not isinstance(e, dict): return None
        if e['k'] == 'DRef' and e.get('dk') in ('var', 'parm', None, 'local') and e.get('d') is not None: return ('d', e['d'], e['n'])
        if e['k'] == 'DRef' and e.get('d') is not None and e.get('dk') != 'enum': return ('d', e['d'], e['n'])
        if e['k'] == 'Mem':
            b = strip(e['c'][0]) if e.get('c') and e['c'][0] is not None else None
            c = last(b.get('t')) if b is not None else 'this'
            return ('m', re.sub(r'<.*', '', c), e['n'])
        return None

    def index_of(self, e):
        """element access: (container, index)"""
        e = strip(e)
        if e['k'] == 'Sub' or e['k'] == 'OpCall' and e['op'] == '[]': return self.place(e['c'][0]), e['c'][1]
        return None, None

    def facts_of(self, f):
        """container -> what its elements are made from, within one function and its lambdas"""
        while f.get('lambda') and f.get('pf') is not None: f = f['pf']
        if '_c16' in f: return f['_c16']
        scan, made, size, pair, elems = {}, {}, {}, [], {}
        for n in nodes(f):
            if in_assert(f, n): continue
            k, s = n['k'], short(callee(n)) if n['k'] in CALLS else ''
            if k == 'Call' and s in ('exclusive_scan', 'inclusive_scan', 'partial_sum', 'prefix_sum') and len(args(n)) >= 3:
                x, d = self.place(args(n)[0]), self.place(args(n)[2])
                if x and d and x != d: scan.setdefault(d, []).append((x, n))
            if k == 'Call' and (callee(n) == 'MPI_Alltoall' or callee(n).endswith('mpi::alltoall')) and len(args(n)) >= 5:
                a = args(n)
                pair.append((self.place(a[0]), self.place(a[3] if callee(n) == 'MPI_Alltoall' else a[2]), n))
            if k == 'Var' and n.get('c') and n['c'][0] is not None:
                d, e = ('d', n.get('d'), n.get('n')), strip(n['c'][0])
                if e['k'] == 'Call':
                    t = short(callee(e))
                    a = [text(x) for x in args(e) if x is not None]
                    if t == 'build_displs_from_counts' and args(e): 
                        x = self.place(args(e)[0])
                        if x: scan.setdefault(d, []).append((x, n))
                    elif t in ('build_distribution_recvcounts', 'build_distribution_displs') and a: made.setdefault(d, []).append(a[0])
                    elif t in ('build_counts_from_value', 'build_displs_from_value') and a: made.setdefault(d, []).append(a[0])
                if e['k'] == 'Ctor' and len(e.get('c') or ()) >= 1 and not e.get('copy') and not e.get('move'): size.setdefault(d, []).append(e['c'][0])
            if k == 'MCall' and s in ('resize', 'assign') and len(n['c']) >= 2:
                d = self.place(n['c'][0])
                if d: size.setdefault(d, []).append(n['c'][1])
            if k == 'Bin' and n['op'] == '=' or k == 'OpCall' and n['op'] == '=':
                d, i = self.index_of(n['c'][0])
                if d: elems.setdefault(d, []).append((i, n['c'][1], n))
        f['_c16'] = (scan, made, size, pair, elems)
        return f['_c16']

    def unit_of(self, f, e, depth=0):
        """{'n'} (nodes) or {'m'} (edges) if the value of the expression counts only one of them"""
        u, st = set(), [e]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            if x['k'] == 'MCall':
                s = short(callee(x))
                if s in ('n', 'global_n', 'total_n', 'ghost_n', 'node_distribution'): u.add('n')
                elif s in ('m', 'global_m', 'edge_distribution'): u.add('m')
                if s == 'size' and not args(x):
                    if depth < 5: u |= self.units_of(f, self.place(x), depth + 1, True)
                    continue
            if x['k'] == 'DRef' and depth < 5: u |= self.units_of(f, ('d', x.get('d'), x['n']), depth + 1, False)
            st += x.get('c') or ()
        return u

    def units_of(self, f, d, depth=0, buffer=False):
        """what the size of a buffer (buffer) or the elements of an array of numbers count"""
        if d is None: return set()
        scan, made, size, pair, elems = self.facts_of(f)
        u = set()
        if buffer:
            for e in size.get(d, ()): u |= self.unit_of(f, e, depth)
            return u
        for x, _ in scan.get(d, ()): u |= self.units_of(f, x, depth + 1) if depth < 5 else set()
        if d[0] == 'd':
            for n in nodes(self.top(f)):
                if n['k'] == 'Var' and n.get('d') == d[1] and n.get('c') and n['c'][0] is not None:
                    e = strip(n['c'][0])
                    if e['k'] == 'Call' and short(callee(e)).startswith('build_') or (n.get('t') or '').replace('const ', '') in INTS:
                        u |= self.unit_of(f, e, depth + 1) if depth < 5 else set()
        for i, e, n in elems.get(d, ()): u |= self.unit_of(f, e, depth + 1) if depth < 5 and i is not None else set()
        return u

    def top(self, f):
        while f.get('lambda') and f.get('pf') is not None: f = f['pf']
        return f

    def fields(self):
        """(class, counts field, displacements field): objects that are put together from a scanned pair of local containers"""
        if hasattr(self, '_fields'): return self._fields
        out = {}
        for f in self.prog.fns.values():
            if f.get('dep') or not f['f'].startswith(('kaminpar-', 'apps/', 'probe/')): continue
            for n in nodes(f):
                if n['k'] != 'InitList' or not n.get('t'): continue
                r = next((r for r in self.prog.recs.values() if re.sub(r'<.*', '', r['q']).endswith(re.sub(r'<.*', '', last(n['t']))) and len(r['fields']) == len(n['c'])), None) if len(n['c']) >= 3 else None
                if r is None: continue
                scan = self.facts_of(f)[0]
                where = {}
                for fd, e in zip(r['fields'], n['c']):
                    p = self.place(e) if e is not None else None
                    if p: where[p] = fd['n']
                c = re.sub(r'<.*', '', last(n['t']))
                for d, xs in scan.items():
                    for x, _ in xs:
                        if d in where and x in where: out.setdefault(('m', c, where[d]), set()).add(('m', c, where[x]))
        self._fields = out
        return out

    def vectors(self):
        VOPS = {'MPI_Alltoallv': ((0, 1, 2), (4, 5, 6)), 'MPI_Allgatherv': ((0, 1, None), (3, 4, 5)), 'MPI_Gatherv': ((0, 1, None), (3, 4, 5)), 'MPI_Scatterv': ((0, 1, 2), (4, 5, None))}
        W = {('alltoallv', 7): ((0, 1, 2), (3, 4, 5)), ('allgatherv', 6): ((0, 1, None), (2, 3, 4)), ('allgatherv', 5): ((0, None, None), (1, 2, 3)), ('gatherv', 7): ((0, 1, None), (2, 3, 4))}
        seen = set()
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f['f'].startswith(('kaminpar-', 'apps/', 'probe/')) or f['f'].endswith('kaminpar-mpi/wrapper.h'): continue
            for n in nodes(f):
                if n['k'] != 'Call': continue
                q, a = callee(n), args(n)
                sig = VOPS.get(q) or (W.get((short(q), len(a))) if q.startswith('kaminpar::mpi::') else None)
                if sig is None or (f['f'], n.get('l'), q) in seen: continue
                seen.add((f['f'], n.get('l'), q))
                self.vector(f, n, a, sig)

    def vector(self, f, n, a, sig):
        g = self.top(f)
        scan, made, size, pair, elems = self.facts_of(g)
        where, key, bad = at(f, n), self.key(f, n), []
        P = lambda i: self.place(a[i]) if i is not None and a[i] is not None else None
        (sb, sc, sd), (rb, rc, rd) = sig
        scalar = lambda i: i is not None and '*' not in (a[i].get('t') or '') and a[i]['k'] not in ('MCall',) or i is not None and re.match(r'^(const )?(int|unsigned|long)', bare(a[i].get('t') or ''))
        names = lambda p: p[2] if p else '?'
        for who, c, d in (('sent', sc, sd), ('received', rc, rd)):
            pc, pd = P(c), P(d)
            if d is None or pc is None or pd is None: continue
            if pc == pd: bad.append('the numbers and the positions of the %s elements are both taken from %s' % (who, names(pc))); continue
            src = [x for x, _ in scan.get(pd, ())] or list(self.fields().get(pd, ()))
            if src and pc not in src: bad.append('the positions %s of the %s elements are the prefix sums of %s, but their numbers are %s' % (names(pd), who, names(src[0]), names(pc)))
            elif src: self.res.ok('%s %s: positions of the %s elements are prefix sums of their numbers' % (where, short(callee(n)), who))
            if pc in made and pd in made and not set(made[pc]) & set(made[pd]): bad.append('the numbers %s of the %s elements are made from %s, their positions %s from %s' % (names(pc), who, made[pc][0], names(pd), made[pd][0]))
            for i, e, _ in elems.get(pc, ()):
                from_d = [x for x in walk(e) if self.index_of(x)[0] == pd]
                dist = strip(e)['k'] == 'MCall' and short(callee(strip(e))).endswith('distribution') and len(args(strip(e))) == 1
                if dist: bad.append('the numbers %s of the %s elements are positions (%s), not differences' % (names(pc), who, text(e)))
                if from_d:
                    x = strip(e)
                    I = [text(self.index_of(y)[1]) for y in from_d]
                    t = text(i)
                    if x['k'] == 'Bin' and x['op'] == '-' and len(I) == 2 and set(I) <= {t, '(%s + 1)' % t, '(1 + %s)' % t, '(%s - 1)' % t} and I[0] != I[1] and I[0] != '(%s - 1)' % t: self.res.ok('%s %s: numbers of the %s elements are differences of their positions' % (where, short(callee(n)), who))
                    else: bad.append('the numbers %s of the %s elements are not the differences of their positions %s' % (names(pc), who, names(pd)))
        both = 'alltoallv' in callee(n).lower()
        if both:
            for x, y, what in ((P(sc), P(rc), 'numbers'), (P(sd), P(rd), 'positions')):
                if x and x == y: bad.append('the %s of the sent elements are also used for the received ones (%s)' % (what, names(x)))
                elif x and y: self.res.ok('%s %s: %s of sent and received elements are kept apart' % (where, short(callee(n)), what))
            for x, y, _ in pair:
                if x and y and P(sc) == x and P(rc) not in (y, x): bad.append('%s elements are sent, their receivers were told so in %s, but %s are received' % (names(x), names(y), names(P(rc))))
        # the receive buffer is sized by the receiving side
        pb = P(rb)
        mine, other = {P(rc), P(rd)} - {None}, {P(sc), P(sd)} - {None} if both else set()
        for e in size.get(pb, ()) if pb else ():
            used = {self.place(x) for x in walk(e) if x['k'] in ('DRef', 'Mem')} - {None}
            if used & other and not used & mine: bad.append('the receive buffer %s is sized by the sent elements (%s)' % (names(pb), names(sorted(used & other)[0])))
            elif used & mine: self.res.ok('%s %s: receive buffer sized by the received elements' % (where, short(callee(n))))
        # nodes and edges
        U = {}
        if sc is not None and not both and 'scatter' not in callee(n).lower(): U['number of sent elements'] = self.unit_of(g, a[sc])
        for i, w in ((rc, 'numbers of received elements'), (rd, 'positions of received elements'), (rb, 'receive buffer')):
            if i is not None and P(i): U[w] = self.units_of(g, P(i), 0, i == rb)
        known = {w: u for w, u in U.items() if len(u) == 1}
        if len({tuple(u) for u in known.values()}) > 1:
            bad.append('nodes and edges are mixed: ' + ', '.join('%s: %s' % (w, {'n': 'nodes', 'm': 'edges'}[list(u)[0]]) for w, u in sorted(known.items())))
        elif len(known) > 1: self.res.ok('%s %s: %s all count %s' % (where, short(callee(n)), ', '.join(sorted(known)), {'n': 'nodes', 'm': 'edges'}[list(list(known.values())[0])[0]]))
        for b in sorted(set(bad)): self.res.bad(key, where, b)

    # ------------------------------------------------------------ numbers of elements, not of bytes
    def bytes(self):
        seen = set()
        for f, n in self.calls():
            a = args(n)
            for b, c, t in SIG[callee(n)][0]:
                if c is None or a[c] is None: continue
                d = self.dtype(f, a[t])
                k = (f['f'], n.get('l'), c)
                if d is None or d == ('N', 'null') or k in seen: continue
                seen.add(k)
                sized = any(x['k'] == 'SizeOf' for x in walk(a[c]))
                if sized and d[1] not in ('byte', 'char', 'unsigned char', 'std::byte', 'uint8_t'): self.res.bad(self.key(f, n), at(f, n), '%s counts bytes (%s), but the elements are of type %s' % (callee(n), text(a[c])[:60], d[1]))
                else: self.res.ok('%s %s: counts elements' % (at(f, n), callee(n)))

    # ------------------------------------------------------------ both ends use the same tag
    def tags(self):
        S = {'MPI_Send': 4, 'MPI_Isend': 4, 'MPI_Issend': 4}
        R = {'MPI_Recv': 4, 'MPI_Irecv': 4, 'MPI_Probe': 1}
        by = {}
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f['f'].startswith(('kaminpar-', 'apps/', 'probe/')) or f['f'].endswith('kaminpar-mpi/wrapper.h'): continue
            for n in nodes(f):
                if n['k'] != 'Call': continue
                q, a = callee(n), [x for x in args(n)]
                side = i = None
                if q in S: side, i = 's', S[q]
                elif q in R: side, i = 'r', R[q]
                elif q.startswith('kaminpar::mpi::'):
                    s = short(q)
                    if s == 'send': side, i = 's', len(a) - 2
                    elif s == 'isend': side, i = 's', len(a) - 3
                    elif s == 'recv': side, i = 'r', 3
                    elif s in ('probe_recv', 'probe'): side, i = 'r', 1
                if side is None or i >= len(a) or a[i] is None or const(a[i]) is None: continue
                by.setdefault((self.top(f)['f'], self.top(f).get('l'), self.owner(f)), {}).setdefault(side, []).append((const(a[i]), f, n))
        for k, v in sorted(by.items(), key=str):
            s, r = {x[0] for x in v.get('s', ())}, {x[0] for x in v.get('r', ())} - {'-1'}
            if not s or not r: continue
            if s == r: self.res.ok('%s:%s: messages are sent and received with the tags %s' % (k[0], k[1], sorted(s)))
            else:
                x = next(x for side in 'rs' for x in v[side] if x[0] in s ^ r)
                self.res.bad('%s|tag' % k[2], at(x[1], x[2]), 'messages are sent with the tags %s, but received with the tags %s' % (sorted(s), sorted(r)))

    # ------------------------------------------------------------ one request per transfer, and all of them are waited for
    def slots(self):
        seen = set()
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f['f'].startswith(('kaminpar-', 'apps/', 'probe/')): continue
            for n in nodes(f):
                if n['k'] != 'Call' or short(callee(n)) not in ('MPI_Isend', 'MPI_Irecv', 'isend', 'irecv', 'MPI_Issend') or not callee(n).startswith(('MPI_', 'kaminpar::mpi::')): continue
                r = next((a for a in args(n) if a is not None and any(x['k'] == 'DRef' and 'ompi_request_t' in (x.get('t') or '') for x in walk(strip(a)))), None)
                if r is None: continue
                k = (f['f'], n.get('l'))
                v = self.request(f, r)
                loop = None
                for p in ancestors(f, n):
                    if p['k'] in ('For', 'While', 'Do', 'RFor'):
                        if any(x['k'] == 'Var' and x.get('d') == v.get('d') for x in walk(p)): break
                        loop = p; break
                if loop is not None and k not in seen:
                    seen.add(k)
                    rs, g = [r], strip(r)
                    if g['k'] == 'DRef' and g.get('d') != v.get('d'): rs += [x['c'][0] for x in nodes(f) if x['k'] == 'Var' and x.get('d') == g.get('d') and x.get('c') and x['c'][0] is not None]
                    idx = [x for z in rs for x in walk(z) if (x['k'] == 'Sub' or x['k'] == 'OpCall' and x['op'] == '[]')]
                    grows = any(x['k'] == 'MCall' and short(callee(x)) in ('emplace_back', 'push_back', 'back') for z in rs for x in walk(z))
                    moving = {assigned_d(x) for x in walk(loop)} - {None}
                    ivars = {x.get('d') for y in idx for x in walk(y['c'][1]) if x['k'] == 'DRef'}
                    done = any(x['k'] == 'Call' and short(callee(x)) in ('MPI_Wait', 'MPI_Waitall', 'waitall', 'wait') for x in walk(loop))
                    lv = {x.get('d') for x in walk(loop) if x['k'] == 'Var'}
                    if grows or done or ivars & (moving | lv): self.res.ok('%s: every transfer has a request of its own' % at(f, n))
                    else: self.res.bad(self.key(f, n), at(f, n), 'the transfers of all iterations share one request, so only the last one is waited for')
                # the condition under which the transfers are waited for
                for w in nodes(f):
                    if w['k'] != 'Call' or short(callee(w)) not in ('MPI_Wait', 'MPI_Waitall', 'waitall', 'wait') or not any((self.request(f, a) or {}).get('d') == v.get('d') for a in args(w) if a is not None): continue
                    mine = [p for p in ancestors(f, n)]
                    for p in ancestors(f, w):
                        if p['k'] != 'If' or any(p is q for q in mine) or (k, 'g', p.get('l')) in seen: continue
                        seen.add((k, 'g', p.get('l')))
                        if not any(x is w for x in walk(p['c'][2])): self.res.skip('%s: waited for in the other branch' % at(f, w)); continue
                        c = strip(p['c'][1])
                        if 'cv' in c: continue
                        b = None
                        if c['k'] in ('Bin', 'OpCall') and len(c['c']) == 2:
                            x, y = strip(c['c'][0]), strip(c['c'][1])
                            o = c['op']
                            if const(x) is not None and const(y) is None: x, y, o = y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o)
                            if const(y) is not None and const(x) is None:
                                z, num = const(y), text(x)
                                procs = not ('request' in num or 'req' in num)
                                if procs: b = (o, z) in {('>', '1'), ('>=', '2'), ('!=', '1'), ('>', '0'), ('>=', '1')}
                                else: b = (o, z) in {('>', '0'), ('>=', '1'), ('!=', '0')}
                        elif c['k'] == 'Un' and c['op'] == '!' and short(callee(strip(c['c'][0]))) == 'empty': b = True
                        if b: self.res.ok('%s: waited for whenever there are transfers' % at(f, w))
                        elif b is None: self.res.skip('%s: waited for if %s' % (at(f, w), text(c)[:50]))
                        else: self.res.bad(self.key(f, n), at(f, w), 'the transfers started at %s are only waited for if %s' % (at(f, n), text(c)))

    # ------------------------------------------------------------ wrappers hand on what they are given
    def wrappers(self):
        seen = set()
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or f.get('lambda') or not f['f'].endswith('kaminpar-mpi/wrapper.h') or not f.get('b') or (f['l'], f['q']) in seen: continue
            seen.add((f['l'], f['q']))
            if not any(n['k'] == 'Call' and (callee(n).startswith('MPI_') or callee(n).startswith('kaminpar::mpi::')) for n in nodes(f)): continue
            used = {}
            for n in nodes(f):
                if n['k'] == 'DRef' and not in_assert(f, n): used[n.get('d')] = used.get(n.get('d'), 0) + 1
            for p in f['p']:
                if not p.get('n'): continue
                if used.get(p.get('d')): self.res.ok('%s:%s %s hands on %s' % (f['f'], f['l'], short(f['q']), p['n']))
                else: self.res.bad('%s|%s' % (f['q'], p['n']), '%s:%s' % (f['f'], f['l']), '%s ignores %s' % (short(f['q']), p['n']))

    # ------------------------------------------------------------ all processes name the same root
    def roots(self, apps):
        import collectives
        tmp = Result()
        an = collectives.Coll(self.prog, tmp)
        an.want_roots = True
        jobs = [g for g in sorted(self.prog.fns.values(), key=lambda g: (g['f'], g['l'], g['u'])) if not g.get('dep') and not g.get('lambda') and g.get('b') and an.analysed(g)]
        collectives.check(an, jobs, tmp)
        for s in tmp.samples_all if hasattr(tmp, 'samples_all') else []: pass
        n = 0
        badsites = set()
        for b in tmp.findings:
            if '|root of ' in b.key:
                badsites.add(b.where)
                self.res.bad(b.key, b.where, b.msg.replace('is reached under control that depends on', 'depends on'))
        for f, l, what in sorted(an.sites, key=str):
            if what.startswith('root of ') and '%s:%s' % (f, l) not in badsites: self.res.ok('%s:%s %s is the same on all processes' % (f, l, what))
        # operations of one block on one communicator
        seen = set()
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f['f'].startswith(('kaminpar-dist/', 'apps/')): continue
            by = {}
            for n in nodes(f):
                if n['k'] != 'Call' or not (callee(n) in SIG or callee(n).startswith('kaminpar::mpi::')): continue
                s = short(callee(n)).replace('MPI_', '').lower()
                a = args(n)
                if s not in ('bcast', 'reduce', 'gather', 'gatherv', 'scatter', 'scatterv') or len(a) < 3 or a[-1] is None or a[-2] is None: continue
                p = next((p for p in ancestors(f, n) if p['k'] in ('Compound', 'Block')), None)
                by.setdefault((id(p), s, text(a[-1])), []).append((n, text(a[-2])))
            for (_, s, c), l in by.items():
                if len(l) < 2 or (f['f'], l[0][0].get('l')) in seen: continue
                seen.add((f['f'], l[0][0].get('l')))
                r = [x[1] for x in l]
                if len(set(r)) == 1: self.res.ok('%s: %d x %s on %s have the root %s' % (at(f, l[0][0]), len(l), s, c, r[0]))
                else:
                    m = max(set(r), key=r.count)
                    x = next(x for x in l[::-1] if x[1] != m) if r.count(m) > len(r) / 2 else l[-1]
                    self.res.bad('%s|root|%s' % (self.owner(f), s), at(f, x[0]), 'operations of the same kind on %s name different roots: %s' % (c, ', '.join(r)))

def in_assert(f, n):
    if '_asrt' not in f:
        f['_asrt'] = {id(x) for x in in_macro_nodes(f, ('KASSERT', 'DBG', 'DBGC', 'IFDBG', 'LOG', 'LOG_ERROR'))}
    return id(n) in f['_asrt']

def const(e):
    e = strip(e)
    return e['cv'] if 'cv' in e else e['v'] if e['k'] == 'Int' else None

def assigned_d(n):
    if n['k'] in ('Bin', 'CAssign') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or n['k'] == 'Un' and n['op'] in ('++', '--', 'p++', 'p--'):
        x = strip(n['c'][0])
        return x.get('d') if x['k'] == 'DRef' else None
    return None

def live(f, n):
    """not in a branch that the compiler has discarded"""
    c = n
    for p in ancestors(f, n):
        if p['k'] == 'If' and p['c'][1] is not None and 'cv' in strip(p['c'][1]):
            v = strip(p['c'][1])['cv'] not in ('0', 'false')
            if (c is p['c'][2]) != v: return False
        c = p
    return True

def units():
    return [os.path.join(VERIF, 'probe', 'mpi.cc')] + all_units('kaminpar-dist', 'kaminpar-mpi') + [u for u in ['apps/io/dist_io.cc', 'apps/io/dist_metis_parser.cc', 'apps/io/dist_parhip_parser.cc', 'apps/io/dist_skagen.cc', 'apps/dKaMinPar.cc'] if os.path.exists(os.path.join(REPO, u))]

def run(tier):
    res = Result()
    prog = load(units(), allow_errors=('.cc',))
    m = Msg(prog, res)
    m.check_calls(); m.table(); m.branches(); m.requests(); m.counts(); m.plain()
    m.vectors(); m.bytes(); m.tags(); m.slots(); m.wrappers(); m.roots(prog)
    return res
