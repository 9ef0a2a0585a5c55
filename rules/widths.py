"""64-bit quantities (edge IDs, weights, cuts, gains) keep their width; sums start wide enough; node x block products are computed in 64 bits.

The units are analysed under an overlay of the public headers in which the 64-bit quantities have types of their own: edge IDs are
`unsigned long long`, weights `long long` (instead of uint64_t and int64_t, which on LP64 are the `long` types of std::size_t and
std::ptrdiff_t). The type checker then tells a narrowed weight or edge ID from a narrowed size, through every template.
"""
from kit import *
import facts as _facts
import hashlib

U, W = 'unsigned long long', 'long long'
SHM = ('kaminpar-shm/kaminpar.h', {'EdgeID': U, 'NodeWeight': W, 'EdgeWeight': W, 'UnsignedNodeWeight': U, 'UnsignedEdgeWeight': U})
DIST = ('kaminpar-dist/dkaminpar.h', {'GlobalEdgeID': U, 'GlobalNodeWeight': W, 'GlobalEdgeWeight': W, 'BlockWeight': W})
FLAGS_SHM = ('-DKAMINPAR_64BIT_EDGE_IDS', '-DKAMINPAR_64BIT_WEIGHTS')
FLAGS_DIST = ('-DKAMINPAR_64BIT_EDGE_IDS',)

def overlay(hs):
    d = os.path.join(_facts.BUILD, 'overlay'); os.makedirs(d, exist_ok=True)
    r, missing = [], []
    for f, ts in hs:
        p = os.path.join(_facts.REPO, f); s = open(p).read()
        for n, t in ts.items():
            s, k = re.subn(r'(using\s+%s\s*=\s*)(?:std::)?u?int64_t\s*;' % n, lambda m: m.group(1) + t + ';', s)
            if not k: missing.append('%s: no 64-bit definition of %s' % (f, n))
        q = os.path.join(d, 'w%s.h' % hashlib.sha256((p + s).encode()).hexdigest()[:16])
        if not os.path.exists(q):
            open(q + '.tmp%d' % os.getpid(), 'w').write(s); os.replace(q + '.tmp%d' % os.getpid(), q)
        r.append('--map=%s=%s' % (p, q))
    return tuple(r), missing

def units_shm():
    return [os.path.join(VERIF, 'probe', f) for f in ('gain_caches.cc', 'graphs_shm.cc')] + all_units('kaminpar-common', 'kaminpar-shm', 'kaminpar-cli') + [u for u in all_units('apps') if 'dist' not in u and 'dKaMinPar' not in u and 'benchmarks' not in u]

def units_dist():
    return [os.path.join(VERIF, 'probe', 'graphs_dist.cc')] + all_units('kaminpar-dist', 'kaminpar-mpi') + [u for u in all_units('apps') if ('dist' in u or 'dKaMinPar' in u) and 'benchmarks' not in u]

def extra_shm(): return FLAGS_SHM + overlay([SHM])[0]
def extra_dist(): return FLAGS_DIST + overlay([SHM, DIST])[0]

BITS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
        'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}

def bare(t):
    if isinstance(t, list): t = t[0] if t else ''
    t = re.sub(r'\b(const|volatile)\b', '', t or '').strip()
    while t.endswith('&'): t = t[:-1].strip()
    m = re.fullmatch(r'(?:std::atomic|kaminpar::parallel::Atomic|parallel::Atomic)<(.*)>', t)
    return m.group(1).strip() if m else t

def signed(t): return not t.startswith('unsigned') and t != 'bool'

def idents(n):
    return [x['n'] for x in walk(n) if x['k'] in ('DRef', 'Mem') and x.get('n')] + [short(callee(x)) for x in walk(n) if x['k'] in CALLS]

def element(t):
    """element type of an iterator or container"""
    t = bare(t)
    if t.endswith('*'): return bare(t[:-1])
    m = re.match(r'(?:__gnu_cxx::__normal_iterator<(?:const )?(.*?) ?\*,|(?:\w+::)*\w*<(?:const )?([^<>,]*(?:<[^<>]*>)?)[,>])', t)
    return bare(m.group(1) or m.group(2)) if m else ''

class Widths:
    def __init__(self, prog, res, tag, wide):
        self.prog, self.res, self.tag, self.wide = prog, res, tag, wide
        self.seen = set()
        self.fns = [f for f in prog.fns.values() if not f.get('dep')]
        self.scans = None
        self.dual = self.dual_arrays()
        self.generic = self.generic_sites()

    def say(self, f, n, kind, msg):
        k = (f['f'], n.get('l'), kind, text(n)[:80])
        if k in self.seen: return
        self.seen.add(k)
        if msg is None: self.res.ok('%s %s: %s' % (at(f, n), kind, text(n)[:60]))
        else: self.res.bad('%s:%s:%s:%s' % (kind, f['f'], short(f['q']), text(n)[:60]), at(f, n), msg)

    # arrays of edge IDs whose elements also hold node IDs or counts: a value read from them need not be an edge ID
    def arr(self, e):
        e = strip(e)
        if e['k'] in ('Sub',) or e['k'] == 'OpCall' and e['op'] == '[]':
            b = strip(e['c'][0])
            while b['k'] == 'Un' and b['op'] in ('*', '&'): b = strip(b['c'][0])
            if b['k'] == 'MCall' and short(callee(b)) in ('data', 'begin') and b['c'][0] is not None: b = strip(b['c'][0])
            if b['k'] in ('DRef', 'Mem'): return b['n']
        return None
    def dual_arrays(self):
        r = set()
        for f in self.fns:
            for n in nodes(f):
                v = None
                if n['k'] == 'CAssign' or n['k'] == 'Bin' and n['op'] == '=': l, v = n['c'][0], n['c'][1]
                elif n['k'] == 'Un' and n['op'] in ('++', 'p++'): l = n['c'][0]
                elif n['k'] == 'OpCall' and n['op'] in ('=',) and len(n['c']) == 2: l, v = n['c']
                elif n['k'] in ('Atomic', 'Call') and 'atomic' in (callee(n) or n.get('op') or '') and n.get('c'):
                    l = strip(n['c'][0])
                    if l['k'] == 'Un' and l['op'] == '&': l = l['c'][0]
                    v = n['c'][1] if len(n['c']) > 1 else None
                else: continue
                if l is None: continue
                a = self.arr(l)
                if a is None: continue
                if v is None: r.add((f['f'], a)); continue
                s = strip(v)
                t = bare(s.get('t'))
                if BITS.get(t, 64) < 64 and 'cv' not in s or self.degree(f, s): r.add((f['f'], a))
        return r

    # ... until a prefix sum turns the counts into positions
    def offsets(self, f, e, a):
        if self.scans is None:
            self.scans = []
            for g in self.fns:
                for n in nodes(g):
                    if n['k'] in ('Call', 'MCall') and short(callee(n)) in ('prefix_sum', 'exclusive_scan', 'inclusive_scan', 'partial_sum') and n.get('l'):
                        for x in args(n):
                            x = strip(x)
                            while x['k'] == 'MCall' and x['c'][0] is not None or x['k'] in ('Bin', 'OpCall') and x['op'] in '+-': x = strip(x['c'][0])
                            if x['k'] in ('DRef', 'Mem'): self.scans.append((g['f'], x['n'], g['l'], n['l']))
        return any(s[0] == f['f'] and s[1] == a and s[2] <= f['l'] and s[3] < e.get('l', 0) and not any(g['f'] == f['f'] and s[3] < g['l'] <= e['l'] and not g.get('lambda') for g in self.fns) for s in self.scans)

    # a narrowing whose types differ between instantiations: the width is a parameter of the code
    def generic_sites(self):
        d = {}
        for f in self.fns:
            if not f.get('ta') and not f.get('pf') and '<' not in (f.get('cls') or ''): pass
            for n in nodes(f):
                if n.get('it') and 'cv' not in n: d.setdefault((f['f'], n.get('l'), text(n)[:80], n['k']), set()).add((bare(n.get('t')), bare(n['it'])))
                elif n['k'] == 'Cast' and n.get('c'): d.setdefault((f['f'], n.get('l'), text(n)[:80], n['k']), set()).add((bare(n['c'][0].get('t')), bare(n.get('t'))))
                elif n['k'] == 'CAssign': d.setdefault((f['f'], n.get('l'), text(n)[:80], n['k']), set()).add((bare(n['c'][1].get('t')), bare(n['c'][0].get('t'))))
        return {k for k, v in d.items() if len({t for s, t in v}) > 1 or len({s for s, t in v if BITS.get(s, 0) > 1}) > 2}

    def local(self, f, d):
        """initial value of a variable that is never assigned"""
        if '_loc' not in f:
            f['_loc'] = {x['d']: x['c'][0] for x in nodes(f) if x['k'] == 'Var' and x.get('c') and x['c'][0] and 'd' in x}
            for x in nodes(f):
                a = assigned(x)
                a = strip(a) if a else None
                if a is not None and a['k'] == 'DRef': f['_loc'].pop(a.get('d'), None)
        return f['_loc'].get(d)

    def degree(self, f, e, depth=0):
        """number of edges between two positions of an array of edge IDs: a degree"""
        e = strip(e)
        if e['k'] == 'DRef' and depth < 4:
            i = self.local(f, e.get('d'))
            if i is not None and self.degree(f, i, depth + 1): return True
        if e['k'] in ('MCall', 'Call', 'OpCall', 'DRef', 'Mem') :
            n = e.get('n') or short(callee(e))
            if e['k'] == 'OpCall' and e['op'] == '()': n = strip(e['c'][0]).get('n') or n
            if re.search(r'(^|_)deg(ree)?s?($|_)|degree|bucket_size', n or ''): return True
        if e['k'] == 'Bin' and e['op'] == '-':
            a, b = (strip(x) for x in e['c'])
            return all('cv' not in x for x in (a, b))
        if e['k'] in ('MCall', 'Call') and short(callee(e)) in ('max_difference',): return True
        return False

    def fits(self, f, e, to):
        """the value of e is known to fit into the narrower type: reason or None"""
        e = strip(e)
        k = e['k']
        if self.degree(f, e): return 'degree'
        if k == 'Bin' and e['op'] == '&':
            for x in e['c']:
                if x.get('cv', '').lstrip('-').isdigit() and 0 <= int(x['cv']) < 2 ** BITS[to]: return 'masked'
        if k == 'Bin' and e['op'] in ('|',) and all('cv' in x or self.fits(f, x, to) for x in e['c']): return 'masked'
        if k == 'Bin' and e['op'] == '%' and 'cv' in e['c'][1]: return 'remainder'
        if k == 'Bin' and e['op'] == '*' and any(self.degree(f, x) for x in e['c']) and any(re.search('width|align|bytes', ' '.join(idents(x))) for x in e['c']): return 'bytes per degree'
        if k == 'Cond' : 
            rs = [self.fits(f, x, to) or (BITS.get(bare(strip(x).get('t')), 64) <= BITS[to] and 'narrow') for x in e['c'][1:]]
            if all(rs): return rs[0]
        if k in ('Call', 'MCall'):
            n = short(callee(e))
            if n in ('min', 'clamp'):
                lim = 2 ** (BITS[to] - (1 if signed(to) else 0))
                for x in args(e):
                    x0 = x if 'cv' in x else strip(x)
                    if x0.get('cv', '').lstrip('-').isdigit() and abs(int(x0['cv'])) < lim: return 'bounded by a constant'
            if n in ('allreduce', 'allreduce_max', 'reduce', 'reduce_single', 'bcast', 'max', 'min', 'max_element') and not any('ompi_mpi_op_sum' in text(x) for x in args(e)):
                xs = [strip(x) for x in args(e) if bare(strip(x).get('t')) in BITS and 'cv' not in x]
                if xs and all(BITS[bare(x.get('t'))] <= BITS[to] for x in xs): return 'extremum of narrow values'
            if n in ('num_nodes', 'n', 'total_n') : return 'number of nodes'
        a = self.arr(e)
        if a is not None and (f['f'], a) in self.dual and not self.offsets(f, e, a) and signed(bare(e.get('t'))) is False: return 'array that also holds counts'
        return None

    def conversion(self, f, n, src, to, kind, value):
        if src not in self.wide or to not in BITS or BITS[to] == 1: return
        if BITS[to] >= 64: self.say(f, n, kind, None); return
        if f['f'].endswith('asserting_cast.h'): self.say(f, n, kind, None); return
        why = self.fits(f, value, to)
        if not why and (f['f'], n.get('l'), text(n)[:80], n['k']) in self.generic: why = 'width chosen by the instantiation'
        if not why and self.tag == 'dist' and src == U and to == 'int': why = 'message count or total of unit weights'
        if why: self.say(f, n, kind, None); return
        self.say(f, n, kind, '%s `%s` loses bits: it is converted from %s to %s' % ('edge ID' if src == U else 'weight', text(value)[:80], 'a 64-bit type', to))

    def conversions(self):
        for f in self.fns:
            for n in nodes(f):
                if n.get('it') and 'cv' not in n: self.conversion(f, n, bare(n.get('t')), bare(n['it']), 'conversion', n)
                if n['k'] == 'Cast' and n.get('c') and 'cv' not in n: self.conversion(f, n, bare(n['c'][0].get('t')), bare(n.get('t')), 'cast', n['c'][0])
                if n['k'] == 'CAssign' and n['op'] in ('+=', '-=', '*=', '|='):
                    self.conversion(f, n, bare(n['c'][1].get('t')), bare(n['c'][0].get('t')), 'update', n['c'][1])

    # ------------------------------------------------------------ sums
    SUMS = {'std::accumulate': 2, 'std::reduce': 2, 'std::exclusive_scan': 3, 'kaminpar::parallel::accumulate': 2, 'std::transform_reduce': 2}
    def sums(self):
        for f in self.fns:
            for n in nodes(f):
                if n['k'] == 'Call' and callee(n) in self.SUMS: self.sum_call(f, n)
                elif n['k'] == 'CAssign' and n['op'] == '+=' or n['k'] == 'Bin' and n['op'] == '=' and strip(n['c'][1])['k'] == 'Bin' and strip(n['c'][1])['op'] == '+' and text(n['c'][0]) in [text(x) for x in strip(n['c'][1])['c']]:
                    self.degree_sum(f, n)

    def sum_call(self, f, n):
        a = args(n)
        i = self.SUMS[callee(n)]
        if len(a) <= i:
            if callee(n) == 'kaminpar::parallel::accumulate' and len(a) == 2: self.say(f, n, 'sum', None)   # element type of the container
            return
        to = bare(a[i].get('it') or a[i].get('t'))
        if a[i].get('it') is None and callee(n) == 'kaminpar::parallel::accumulate' and len(a) == 3: self.say(f, n, 'sum', None); return
        el = element(a[0].get('t'))
        if len(a) > i + 1:     # with an operation: its result
            op = strip(a[-1])
            el = bare(op.get('rt') or '')
            for b in lambda_bodies(self.prog, f, op) if op['k'] == 'Lambda' and 'fid' in op else ():
                for x in nodes(b):
                    if x['k'] == 'Return' and x.get('c') and x['c'][0]: el = bare(x['c'][0].get('it') or x['c'][0].get('t'))
            if el == to: self.say(f, n, 'sum', None); return
        if to not in BITS or el not in BITS: return
        if len(a) > i + 1 and el in ('long', 'unsigned long'): return   # sizes of containers; edge IDs and weights are `long long` here
        bad = BITS[el] > BITS[to] or BITS[el] == BITS[to] and not signed(el) and signed(to)
        self.say(f, n, 'sum', '%s sums up values of type %s in type %s, the type of its initial value' % (short(callee(n)), el, to) if bad else None)

    def degree_sum(self, f, n):
        l, r = n['c'][0], n['c'][1]
        to = bare(l.get('t'))
        if to not in BITS: return
        e = strip(r)
        if n['k'] == 'Bin':
            o = [x for x in e['c'] if text(x) != text(l)]
            if len(o) != 1: return
            e = strip(o[0])
        if not self.named_degree(f, e): return
        self.say(f, n, 'sum of degrees', 'sums up degrees in `%s` of type %s: the sum is a number of edges' % (text(l), to) if BITS[to] < 64 else None)

    def named_degree(self, f, e, depth=0):
        e = strip(e)
        if e['k'] == 'DRef' and depth < 4:
            i = self.local(f, e.get('d'))
            return i is not None and self.named_degree(f, i, depth + 1)
        if e['k'] == 'MCall': return short(callee(e)) == 'degree'
        if e['k'] == 'Bin' and e['op'] == '-': return all(bare(strip(x).get('t')) == U and self.arr(x) is not None for x in e['c'])
        return False

    # ------------------------------------------------------------ sizes of tables
    def products(self):
        for f in self.fns:
            for n in nodes(f):
                if n['k'] != 'Bin' or n['op'] != '*' or 'cv' in n: continue
                t = bare(n.get('t'))
                if t not in ('unsigned int', 'unsigned long', 'unsigned long long'): continue
                fs = [strip(x) for x in n['c']]
                if any('cv' in x or bare(x.get('t')) == 'bool' for x in fs): continue
                ts = [bare(x.get('t')) for x in n['c']]
                if BITS[t] == 64:
                    if all(BITS.get(bare(x.get('t')), 0) in (32, 64) for x in fs): self.say(f, n, 'product', None)
                    continue
                if not all(x == 'unsigned int' for x in ts): continue
                p = n
                par = index(f)[1]
                while p.get('it') is None:
                    q = par.get(p['i'])
                    if q is not None and q['k'] == 'Bin' and q['op'] in ('+', '-') and bare(q.get('t')) == t: p = q
                    else: break
                q = par.get(p['i'])
                wide = BITS.get(bare(p.get('it')), 0) == 64 or q is not None and (q['k'] == 'Sub' and q['c'][1] is p or q['k'] == 'Cast' and BITS.get(bare(q.get('t')), 0) == 64)
                if not wide: continue
                if any(re.search('width|align|byte', ' '.join(idents(x))) for x in fs): continue
                self.say(f, n, 'product', 'the product `%s` is computed in 32 bits and then used as a 64-bit size or position' % text(n)[:80])

    # a sum over the whole local graph that is kept in the type of one weight and widened afterwards
    def widened(self):
        for f in self.fns:
            for n in nodes(f):
                if n['k'] in ('MCall', 'Call') and short(callee(n)) in ('combine', 'accumulate', 'reduce') and bare(n.get('t')) in BITS and 'plus' in ' '.join(text(x) + str(strip(x).get('t')) for x in args(n)):
                    self.say(f, n, 'widened sum', 'the sum is computed in type %s and only then widened to 64 bits' % bare(n['t']) if n.get('it') and bare(n['t']) == 'int' and BITS.get(bare(n['it']), 0) == 64 else None)

    # ------------------------------------------------------------ sums over all processes
    def reductions(self):
        for f in self.fns:
            for n in nodes(f):
                if n['k'] != 'Call' or not n.get('c'): continue
                q = callee(n)
                if not (q.startswith('kaminpar::mpi::') or q in ('MPI_Allreduce', 'MPI_Reduce', 'MPI_Exscan', 'MPI_Scan')): continue
                if f['f'].startswith('kaminpar-mpi'): continue
                a = args(n)
                if not any('ompi_mpi_op_sum' in text(x) for x in a): continue
                if q.startswith('MPI_'):
                    b = a[1] if a[0].get('cv') or 'Null' in a[0]['k'] or 'ompi' in text(a[0]) or text(a[0]).startswith('(void') else a[0]
                    b = strip(b)
                    el = bare(re.sub(r'\*$', '', bare(b.get('t'))).strip())
                    names = ' '.join(idents(b))
                else:
                    b = strip(a[0])
                    el = bare(a[0].get('it') or b.get('t'))
                    if el not in BITS: el = bare(re.sub(r'\*$', '', el).strip()) if el.endswith('*') else element(el)
                    names = ' '.join(idents(b))
                    if n.get('it') and BITS.get(bare(n.get('t')), 64) < BITS.get(bare(n['it']), 0) and bare(n.get('t')) in BITS and BITS[bare(n['t'])] >= 32:
                        self.say(f, n, 'global sum', 'the sum over all processes is computed in type %s and only then widened to 64 bits' % bare(n['t'])); continue
                if el not in BITS: continue
                bad = el == 'int' and re.search(r'weight|gain|cut\b|_cut|cut_', names)
                self.say(f, n, 'global sum', 'weights summed over all processes are kept in the 32-bit type of local weights: `%s`' % names if bad else None)

def run(tier):
    res = Result()
    for tag, us, ex in (('shm', units_shm(), extra_shm()), ('dist', units_dist(), extra_dist())):
        prog = load(us, extra=ex, allow_errors=('.cc',))
        w = Widths(prog, res, tag, {U, W})
        w.conversions(); w.sums(); w.products(); w.widened()
        if tag == 'dist': w.reductions()
        res.info[tag] = '%d functions in %d units' % (len(w.fns), len(us))
    for f, ts in (SHM, DIST):
        for m in overlay([(f, ts)])[1]: res.skip(m)
    return res
