"""Graph handles answer as the graph they wrap; the queries of one graph agree with each other.

forwarding: every member of a wrapper that the wrapped class offers under the same name and number of parameters returns,
on every path, the result of exactly that member of the wrapped object for the same arguments.
definitions: the queries of each graph class (sizes, ranges, degrees, buckets, ownership, local and global IDs, adjacency
loops) are evaluated symbolically down to the arrays they read and compared with their definition in terms of each other.
"""
import itertools
from kit import *
from vn import *

SHM, DIST = 'kaminpar::shm::', 'kaminpar::dist::'
WRAP = {SHM + 'Graph': (SHM + 'CSRGraph', SHM + 'CompressedGraph'), SHM + 'GraphDelegate': (SHM + 'Graph', SHM + 'CSRGraph', SHM + 'CompressedGraph'),
        DIST + 'DistributedGraph': (DIST + 'DistributedCSRGraph', DIST + 'DistributedCompressedGraph'), DIST + 'DistributedPartitionedGraph': (DIST + 'DistributedGraph',)}
CONCRETE = (SHM + 'CSRGraph', SHM + 'CompressedGraph', DIST + 'DistributedCSRGraph', DIST + 'DistributedCompressedGraph')
FINAL = set(CONCRETE) | {SHM + 'GenericPartitionedGraph', SHM + 'DeltaPartitionedGraph', SHM + 'Graph', DIST + 'DistributedGraph', DIST + 'DistributedPartitionedGraph', SHM + 'GraphDelegate',
                         'kaminpar::CompressedNeighborhoods'}

def units():
    return [os.path.join(VERIF, 'probe', 'graphs_shm.cc'), os.path.join(VERIF, 'probe', 'graphs_dist.cc')] + [u for u in all_units('kaminpar-shm/datastructures', 'kaminpar-dist/datastructures') if 'graph' in u]

class Facade:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.by = {}
        self.lin = {}      # normal forms are shared by all evaluations
        for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('lambda') or f.get('dep') or 'b' not in f or not f.get('cls'): continue
            self.by.setdefault((f['cls'], f['n'], len(f['p'])), []).append(f)

    # ------------------------------------------------------------ forwarding
    def forwarding(self):
        # what each class answers, by name and number of parameters
        offers = {}
        for c, n, k in self.by: offers.setdefault(c, set()).add((n, k))
        for w, inner in WRAP.items():
            own = {x for x in ('graph', 'reified', 'concretize', 'csr_graph', 'compressed_graph', 'underlying_graph')}
            for (c, n, k), fs in sorted(self.by.items()):
                if c != w or n in own or n == c.rsplit('::', 1)[-1] or n.startswith(('~', 'operator')): continue
                if not any((n, k) in offers.get(i, ()) for i in inner): continue
                lines = {}
                for f in fs: lines.setdefault((f['f'], f['l'], f.get('cst')), []).append(f)
                for fl in lines.values():
                    for f in fl: self.forward(w, f)

    def forward(self, w, f):
        res, n = self.res, f['n']
        # members of the wrapper itself are looked into, the wrapped object is opaque
        vn = VN(self.prog, inline=lambda g, d: g.get('cls') == w and g['n'] not in ('reified',), devirt=[w])
        try: ps = vn.paths(f)
        except TooComplex: res.skip('%s: too many paths' % f['q']); return
        want = tuple('$%d' % i for i in range(len(f['p'])))
        key = '%s/%d' % (f['q'], len(f['p']))
        if not ps: res.bad(key, at(f, f), '%s never returns' % f['q']); return
        void = f.get('ret', f.get('t', '')).startswith('void') if f.get('ret') or f.get('t') else None
        for r, s in ps:
            calls = [e for e in s.eff if e.kind == 'call' and short(e.target) not in ('reified', 'get', 'operator->', 'operator*')]
            others = [e for e in s.eff if e.kind != 'call']
            hits = [e for e in calls if short(e.target) == n and e.target != f['q'] and tuple(map(str, e.val)) == want]
            loops = [e for e in hits if any(c[0] in ('loop', 'for each') for c in e.ctx)]
            if len(hits) != 1 or loops or any(e for e in calls if e not in hits):
                wrong = [e for e in calls if e not in hits]
                if len(hits) == 1 and not loops and wrong and not others:
                    # further calls: only if the result is not that of the forwarded call
                    if str(r) == '' or self.result(r, hits[0]): res.ok('%s forwards' % f['q']); continue
                what = '%s(%s)' % (short(wrong[0].target), ', '.join(map(str, wrong[0].val))) if wrong else 'nothing' if not hits else '%s repeatedly' % n
                res.bad(key, at(f, f), '%s(%s) of the wrapper asks the wrapped graph for %s' % (n, ', '.join(want), what)); return
            if others:
                res.bad(key, at(f, f), '%s of the wrapper changes %s' % (n, others[0].target)); return
            if str(r) != '' and not self.result(r, hits[0]):
                res.bad(key, at(f, f), '%s of the wrapper returns %s instead of the answer of the wrapped graph' % (n, r)); return
            conds = [t for t, v in s.lits]
            if conds and len(ps) > 1 and str(r) != '' and not self.result(r, hits[0]):
                res.bad(key, at(f, f), '%s answers differently if %s' % (n, conds[0])); return
        if not f.get('void') and all(str(r) == '' for r, s in ps) and f.get('rt', 'void') not in ('void',):
            res.bad(key, at(f, f), '%s of the wrapper returns nothing' % n); return
        res.ok('%s/%d forwards to the same query' % (f['q'], len(f['p'])))

    def result(self, r, e):
        return str(r) == '%s.%s(%s)' % (e.op, short(e.target), ', '.join(map(str, e.val)))

    def dispatch(self):
        """reified(l1, l2) applies l1 to an uncompressed, l2 to a compressed graph"""
        for w in (SHM + 'Graph', DIST + 'DistributedGraph'):
            fs = self.by.get((w, 'reified', 2), [])
            if not fs: self.res.skip('%s::reified is not instantiated' % w)
            for f in fs:
                ids = [p['d'] for p in f['p']]
                seen = {}
                for n in nodes(f):
                    if n['k'] == 'OpCall' and n['op'] == '()' or n.get('ind'):
                        c = strip(n['c'][0])
                        if c['k'] == 'DRef' and c.get('d') in ids and len(n['c']) > 1:
                            t = strip(n['c'][1]).get('t') or ''
                            ty = n['c'][1].get('t') or t
                            if t: seen.setdefault(ids.index(c['d']), set()).add('Compressed' if 'CompressedGraph' in ty else 'CSR' if 'CSRGraph' in ty else ty)
                key = '%s|reified' % w
                if seen.get(0, set()) - {'CSR'} or seen.get(1, set()) - {'Compressed'}: self.res.bad(key, at(f, f), 'reified hands a graph to the function for the other representation (%s)' % seen)
                elif set(seen) == {0, 1}: self.res.ok('%s::reified distinguishes the representations' % w)
                else: self.res.skip('%s: reified' % w)

    # ------------------------------------------------------------ definitions
    def rows(self, cls, name, argv=(), cst=None):
        """[(literals, value)] of a query, down to the fields of the object"""
        fs = [f for f in self.by.get((cls, name, len(argv)), []) if not f.get('ctor')]
        if not fs: return None
        f = next((g for g in fs if g.get('cst')), fs[0])
        vn = self.vn = VN(self.prog, inline=lambda g, d: g.get('cls') in FINAL, devirt=FINAL, maxdepth=8)
        vn.lin = self.lin
        vn.split_conditions = True
        self.last = f
        try: return [(s.lits, str(r)) for r, s in vn.paths(f, names=list(argv))]
        except TooComplex: return None

    def boolean(self, rows):
        out = []
        for l, v in rows:
            if v in ('true', 'false', '0', '1'): out.append((l, 'true' if v in ('true', '1') else 'false'))
            else:
                t, pos = (v[1:], False) if v.startswith('!') else (v, True)
                out.append((l | {(t, True)}, 'true' if pos else 'false')); out.append((l | {(t, False)}, 'false' if pos else 'true'))
        return out

    def same(self, a, b):
        """the two sets of rows give the same value under every assignment of the conditions; None: undecided"""
        atoms = sorted({t for rs in (a, b) for l, _ in rs for t, _ in l})
        if len(atoms) > 10: return None
        def val(rs, asg):
            vs = {v for l, v in rs if all(asg[t] == x for t, x in l)}
            return vs
        for bits in itertools.product((False, True), repeat=len(atoms)):
            asg = dict(zip(atoms, bits))
            if val(a, asg) != val(b, asg): return False
        return True

    def define(self, cls, name, argv, want, bool_=False):
        """want: rows or a plain value; None if the parts of the definition are not available"""
        rows = self.rows(cls, name, argv)
        if rows is None or want is None: self.res.skip('%s::%s' % (cls, name)); return
        f = self.last
        if isinstance(want, str): want = [(frozenset(), want)]
        if bool_: rows, want = self.boolean(rows), self.boolean(want)
        eq = self.same(rows, want)
        if eq is None: self.res.skip('%s::%s: too many conditions' % (cls, name))
        elif eq: self.res.ok('%s::%s = %s' % (cls, name, want[0][1]))
        else: self.res.bad('%s::%s/%d' % (cls, name, len(argv)), at(f, f), '%s(%s) answers %s, not %s' % (name, ', '.join(argv), self.show(rows), self.show(want)))

    def show(self, rows):
        return ' or '.join(v + (' if ' + ' and '.join(('' if x else 'not ') + t for t, x in sorted(l)) if l else '') for l, v in rows[:3])

    def one(self, cls, name, argv=()):
        r = self.rows(cls, name, argv)
        return r[0][1] if r and len(r) == 1 and not r[0][0] else None

    def field(self, cls, *types):
        for r in self.prog.recs.values():
            if r['q'] == cls and not r.get('dep'):
                fs = [x['n'] for x in r['fields'] if any(t in x['t'] for t in types)]
                if len(fs) == 1: return 'this.' + fs[0]
        return None

    def definitions(self):
        A = VN(self.prog)
        A.lin = self.lin
        add = lambda a, b, s=1: None if a is None or b is None else A.add(a, b, s)
        lt = lambda a, b: A.cmp('<', a, b)
        iota = lambda a, b: None if a is None or b is None else 'kaminpar::IotaRange{%s, %s}' % (a, b)
        def cond(c, x, y):
            if c[0] is None or x is None or y is None: return None
            return [(frozenset({(c[0], c[1])}), x), (frozenset({(c[0], not c[1])}), y)]
        for c in CONCRETE:
            D = c.startswith(DIST)
            n, m = self.one(c, 'n'), self.one(c, 'm')
            first = self.one(c, 'first_node_in_bucket', ('$0',))
            nxt = self.one(c, 'first_node_in_bucket', ('(1 + $0)',))
            self.define(c, 'first_invalid_node_in_bucket', ('$0',), nxt)
            self.define(c, 'bucket_size', ('$0',), add(nxt, first, -1))
            self.define(c, 'nodes', (), iota('0', n))
            self.define(c, 'edges', (), iota('0', m))
            # permutation: one array
            perm = self.one(c, 'map_original_node', ('$0',))
            pbase = perm[:-len('[$0]')] if perm and perm.endswith('[$0]') else None
            if pbase:
                self.define(c, 'permuted', (), [(frozenset({('(%s._size == 0)' % pbase, True)}), 'false'), (frozenset({('(%s._size == 0)' % pbase, False)}), 'true')], True)
                if (c, 'take_raw_permutation', 0) in self.by: self.define(c, 'take_raw_permutation', (), pbase)
                self.setter(c, 'set_permutation', 1, pbase)
            # weights
            wrows, w = self.rows(c, 'is_node_weighted'), self.one(c, 'raw_node_weights')
            if w is None: w = self.one(c, 'node_weights')
            if wrows and w: self.define(c, 'node_weight', ('$0',), self.given(wrows, w + '[$0]', '1'))
            if (c, 'edge_weight', 1) in self.by:
                wrows, w = self.rows(c, 'is_edge_weighted'), self.one(c, 'raw_edge_weights')
                if wrows and w: self.define(c, 'edge_weight', ('$0',), self.given(wrows, w + '[$0]', '1'))
            # adjacency arrays
            e0 = self.one(c, 'raw_nodes') if 'CSR' in c else None
            tgt, wgt = self.one(c, 'raw_edges') if 'CSR' in c else None, self.one(c, 'raw_edge_weights') if 'CSR' in c else None
            if e0:
                a, b = e0 + '[$0]', e0 + '[(1 + $0)]'
                if (c, 'first_edge', 1) in self.by:
                    self.define(c, 'first_edge', ('$0',), a); self.define(c, 'first_invalid_edge', ('$0',), b)
                if (c, 'incident_edges', 1) in self.by: self.define(c, 'incident_edges', ('$0',), iota(a, b))
                self.define(c, 'degree', ('$0',), add(b, a, -1))
                if (c, 'edge_target', 1) in self.by: self.define(c, 'edge_target', ('$0',), tgt + '[$0]')
                self.define(c, 'n', (), add(e0 + '._size', '-1')) if not D else None
                self.define(c, 'm', (), tgt + '._size') if not D else None
                self.adjacency(c, a, b, tgt, wgt, A)
            for f, upto in (('pfor_nodes', n), ('pfor_edges', m), ('pfor_nodes_range', n), ('pfor_all_nodes', self.one(c, 'total_n') if D else None), ('pfor_all_nodes_range', self.one(c, 'total_n') if D else None)):
                if upto and (c, f, 1) in self.by and not (f == 'pfor_edges' and 'Compressed' in c): self.ploop(c, f, '0', upto)
            if D:
                self.ploop(c, 'pfor_ghost_nodes', n, self.one(c, 'total_n'))
                self.distributed(c, A, add, lt, iota, cond, n)
        for c in (SHM + 'GenericPartitionedGraph', DIST + 'DistributedPartitionedGraph'):
            k = self.one(c, 'k')
            self.define(c, 'blocks', (), iota('0', k))
            if k and (c, 'pfor_blocks', 1) in self.by: self.ploop(c, 'pfor_blocks', '0', k)
            p = self.one(c, 'raw_partition') or self.one(c, 'partition')
            if p: self.define(c, 'block', ('$0',), p + '[$0]')
            b = self.one(c, 'raw_block_weights') or self.one(c, 'block_weights')
            if b: self.define(c, 'block_weight', ('$0',), b + '[$0]')
        self.delta()

    def given(self, crows, x, y):
        return [(l, x if v == 'true' else y) for l, v in self.boolean(crows)]

    def setter(self, c, name, k, base):
        for f in self.by.get((c, name, k), []):
            vn = VN(self.prog, devirt=FINAL)
            for r, s in vn.paths(f):
                w = [e for e in s.eff if e.kind == 'call' and short(e.target) == 'operator=' and str(e.val[0]) == base and str(e.val[1]) == '$0' or e.kind == 'call' and short(e.target) == 'operator=' and str(e.op) == base and str(e.val[0]) == '$0' or e.kind == 'w' and e.target == base and e.val == '$0']
                if w: self.res.ok('%s::%s stores what is read' % (c, name))
                else: self.res.bad('%s::%s' % (c, name), at(f, f), '%s does not store its argument in %s, where it is looked up' % (name, base))

    def ploop(self, c, name, lo, hi):
        for f in self.by.get((c, name, 1), []):
            vn = VN(self.prog, inline=lambda g, d: g.get('cls') in FINAL, devirt=FINAL, maxdepth=8)
            for r, s in vn.paths(f):
                ps = [e for e in s.eff if e.kind == 'call' and short(e.target) == 'parallel_for']
                if len(ps) != 1: self.res.skip('%s::%s' % (c, name)); continue
                v = [str(x) for x in ps[0].val]
                if len(v) == 3: got = tuple(v)
                else:
                    m = re.fullmatch(r'tbb::detail::d1::blocked_range\{(.*)\}', v[0])
                    parts = self.split(m.group(1)) if m else []
                    got = (parts[0], parts[1], v[1]) if len(parts) >= 2 else None
                if got is None: self.res.skip('%s::%s' % (c, name))
                elif got == (lo, hi, '$0') or got[:2] == (lo, hi) and got[2] == '<lambda>': self.res.ok('%s::%s visits [%s, %s)' % (c, name, lo, hi))
                else: self.res.bad('%s::%s' % (c, name), at(f, f), '%s visits [%s, %s) instead of [%s, %s)' % (name, got[0], got[1], lo, hi))

    def split(self, t):
        out, d, cur = [], 0, ''
        for ch in t:
            if ch in '([{': d += 1
            if ch in ')]}': d -= 1
            if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
            else: cur += ch
        return out + [cur.strip()]

    def adjacency(self, c, a, b, tgt, wgt, A):
        wrows = self.boolean(self.rows(c, 'is_edge_weighted') or [])
        for name, k in (('adjacent_nodes', 2), ('adjacent_nodes', 3), ('neighbors', 2), ('neighbors', 3), ('pfor_adjacent_nodes', 4)):
            for f in self.by.get((c, name, k), []):
                vn = VN(self.prog, inline=lambda g, d: g.get('cls') in FINAL, devirt=FINAL, maxdepth=8)
                vn.split_conditions = True
                try: ps = vn.paths(f)
                except TooComplex: self.res.skip('%s::%s' % (c, name)); continue
                fn = '$%d' % (k - 1)
                key = '%s::%s/%d' % (c, name, k)
                visits = []
                for r, s in ps:
                    for e in s.eff:
                        if e.kind == 'call' and short(e.target).startswith('operator()') and (str(e.op) == fn or name == 'pfor_adjacent_nodes' and re.fullmatch('λ0', str(e.op))): visits.append((e, s))
                if not visits: self.res.skip(key + ': no visit of the caller recognised'); continue
                end = b
                if k > 2:
                    deg = vn.add(b, a, -1)
                    end = {vn.add('std::min(%s, %s)' % p, a) for p in ((deg, '$1'), ('$1', deg))}
                else: end = {b}
                okay = True
                every = end
                for e, s in visits:
                    v = [str(x) for x in e.val]
                    end = every
                    if k > 2:
                        # the smaller one of both may have been found by a comparison
                        for (t, x), yes, no in ((vn.cmp('<', deg, '$1'), b, vn.add(a, '$1')), (vn.cmp('<', '$1', deg), vn.add(a, '$1'), b)):
                            if (t, x) in e.lits: end = end | {yes}
                            if (t, not x) in e.lits: end = end | {no}
                    if name == 'neighbors':
                        if v[0] != '' and re.fullmatch(r'φ\d+:\w+', v[0]): ev, v = v[0], v[1:]
                        else: self.res.bad(key, at(f, e.node), '%s hands on %s instead of the edge' % (name, v[0])); okay = False; break
                    m = re.fullmatch(re.escape(tgt) + r'\[(φ\d+:\w+)\]', v[0])
                    if not m: self.res.bad(key, at(f, e.node), '%s hands on %s instead of the neighbor' % (name, v[0])); okay = False; break
                    var = m.group(1)
                    if name == 'neighbors' and ev != var: self.res.bad(key, at(f, e.node), '%s hands on an edge and a neighbor that do not belong together' % name); okay = False; break
                    # range
                    lp = [x for x in e.ctx if x[0] == 'loop']
                    if len(lp) != 1: self.res.skip(key + ': loop'); okay = None; break
                    init = dict(lp[0][2]).get(var.split(':')[1]) if len(lp[0]) > 2 else None
                    if name == 'pfor_adjacent_nodes':
                        br = [x for x in e.ctx if x[0] == 'λ' and short(x[1]) == 'parallel_for']
                        m2 = re.fullmatch(r'tbb::detail::d1::blocked_range\{(.*)\}', br[0][3][0]) if br else None
                        parts = self.split(m2.group(1)) if m2 else []
                        if len(parts) < 2: self.res.skip(key + ': range'); okay = None; break
                        if parts[0] != a or parts[1] not in end: self.res.bad(key, at(f, f), '%s visits the edges [%s, %s)' % (name, parts[0], parts[1])); okay = False; break
                        lo, his = 'λ0.begin()', {'λ0.end()'}
                    else: lo, his = a, end
                    if init is None: self.res.skip(key + ': start'); okay = None; break
                    bounds = {vn.cmp('<', var, h) for h in his} | {vn.cmp('!=', var, h) for h in his}
                    if init != lo: self.res.bad(key, at(f, e.node), '%s starts at %s instead of %s' % (name, init, lo)); okay = False; break
                    if not (bounds & set(e.lits)):
                        mine = [t for t, x in e.lits if var in t]
                        if mine: self.res.bad(key, at(f, e.node), '%s visits edges while %s, not up to %s' % (name, ' and '.join(mine), sorted(his)[0])); okay = False; break
                        self.res.skip(key + ': end'); okay = None; break
                    # weight
                    if len(v) > 1:
                        st = [x for x in wrows if all(y in e.lits for y in x[0])]
                        kinds = {x[1] for x in st}
                        want = {'true': '%s[%s]' % (wgt, var), 'false': '1'}
                        if len(kinds) == 1 and v[1] != want[kinds.pop()]:
                            self.res.bad(key, at(f, e.node), '%s hands on the edge weight %s' % (name, v[1])); okay = False; break
                        if not kinds and not st and v[1] not in want.values(): self.res.skip(key + ': weight')
                if okay: self.res.ok('%s visits exactly the edges of the node' % key)

    def distributed(self, c, A, add, lt, iota, cond, n):
        ghost = self.one(c, 'ghost_n')
        tot = add(n, ghost)
        self.define(c, 'total_n', (), tot)
        nd, ed = self.one(c, 'node_distribution'), self.one(c, 'edge_distribution')
        if nd and ed:
            self.define(c, 'node_distribution', ('$0',), nd + '[$0]'); self.define(c, 'edge_distribution', ('$0',), ed + '[$0]')
            self.define(c, 'offset_n', ('$0',), nd + '[$0]'); self.define(c, 'offset_m', ('$0',), ed + '[$0]')
            self.define(c, 'n', ('$0',), add(nd + '[(1 + $0)]', nd + '[$0]', -1)); self.define(c, 'm', ('$0',), add(ed + '[(1 + $0)]', ed + '[$0]', -1))
        off = self.one(c, 'offset_n')
        if None in (n, ghost, off): self.res.skip(c + ': sizes'); return
        own = lt('$0', n)
        B = lambda t: [(frozenset({(t[0], t[1])}), 'true'), (frozenset({(t[0], not t[1])}), 'false')]
        notB = lambda t: [(frozenset({(t[0], t[1])}), 'false'), (frozenset({(t[0], not t[1])}), 'true')]
        self.define(c, 'is_owned_node', ('$0',), B(own), True)
        self.define(c, 'is_ghost_node', ('$0',), notB(own), True)
        self.define(c, 'contains_local_node', ('$0',), B(lt('$0', tot)), True)
        lo, hi = A.cmp('<', '$0', off), lt('$0', add(off, n))
        inr = frozenset({(lo[0], not lo[1]), (hi[0], hi[1])})
        def in_range(x, y):
            return [(inr, x), (frozenset({(lo[0], lo[1])}), y), (frozenset({(lo[0], not lo[1]), (hi[0], not hi[1])}), y)]
        self.define(c, 'is_owned_global_node', ('$0',), in_range('true', 'false'), True)
        self.define(c, 'nodes', ('$0', '$1'), iota('$0', '$1'))
        self.define(c, 'ghost_nodes', (), iota(n, tot)); self.define(c, 'all_nodes', (), iota('0', tot))
        g = add('$0', n, -1)
        mp = self.field(c, 'GhostNodeMapping')
        if 'Compressed' in c and mp:
            gl, gg, go = mp + '.ghost_to_global(%s)' % g, mp + '.global_to_ghost($0)', mp + '.ghost_owner(%s)' % g
            self.define(c, 'local_to_global_node', ('$0',), cond(own, add('$0', off), gl))
            self.define(c, 'global_to_local_node', ('$0',), in_range(add('$0', off, -1), gg))
            self.define(c, 'ghost_owner', ('$0',), go)
            has = (mp + '.contains_global_as_ghost($0)', True)
            self.define(c, 'contains_global_node', ('$0',), [(inr, 'true')] + [(l | {has}, 'true') for l, v in in_range('', '')[1:]] + [(l | {(has[0], False)}, 'false') for l, v in in_range('', '')[1:]], True)
        else:
            r = self.rows(c, 'ghost_owner', ('$0',))
            if r and len(r) == 1:
                if r[0][1].endswith('[%s]' % g): self.res.ok('%s::ghost_owner' % c)
                else: self.res.bad('%s::ghost_owner/1' % c, at(self.last, self.last), 'ghost_owner looks at %s instead of the entry of ghost node %s' % (r[0][1], g))
            r = self.rows(c, 'local_to_global_node', ('$0',))
            if r:
                f = self.last
                okk = len(r) == 2
                for l, v in r:
                    if (own[0], own[1]) in l: okk &= v == add('$0', off)
                    elif (own[0], not own[1]) in l: okk &= v.endswith('[%s]' % g)
                    else: okk = False
                if okk: self.res.ok('%s::local_to_global_node' % c)
                else: self.res.bad('%s::local_to_global_node/1' % c, at(f, f), 'local_to_global_node answers ' + self.show(r))
            r = self.rows(c, 'global_to_local_node', ('$0',))
            if r:
                f = self.last
                okk = True
                for l, v in r:
                    if inr <= l: okk &= v == add('$0', off, -1)
                    else: okk &= v != add('$0', off, -1) and 'find' in v and '$0' in v and not v.startswith('(')
                if okk and any(inr <= l for l, v in r): self.res.ok('%s::global_to_local_node' % c)
                else: self.res.bad('%s::global_to_local_node/1' % c, at(f, f), 'global_to_local_node answers ' + self.show(r))
        their = self.rows(c, 'global_to_local_node', (add('$0', nd + '[$1]'),)) if nd else None
        self.define(c, 'map_remote_node', ('$0', '$1'), their)
        cs = self.one(c, 'get_color_sizes')
        if cs:
            self.define(c, 'color_size', ('$0',), add(cs + '[(1 + $0)]', cs + '[$0]', -1))
            self.define(c, 'number_of_colors', (), add(cs + '._size', '-1'))
            self.define(c, 'color_sorted', (), [(frozenset({('(%s._size == 0)' % cs, True)}), 'false'), (frozenset({('(%s._size == 0)' % cs, False)}), 'true')], True)
            self.setter(c, 'set_color_sorted', 1, cs)
        self.construct(c, n, off, nd, ed)

    def construct(self, c, n, off, nd, ed):
        """what the constructor records fits the arrays it takes"""
        for (k, name, np), fs in self.by.items():
            if k != c or name != c.rsplit('::', 1)[-1] or np < 5: continue
            for f in fs:
                if any(i.get('deleg') for i in f.get('inits') or ()): continue
                vn = VN(self.prog, devirt=FINAL, inline=lambda g, d: g.get('cls') == c and g['n'] == 'communicator')
                vn.ctor_inits = True
                try: ps = vn.paths(f)
                except TooComplex: continue
                for r, s in ps:
                    for acc, arr, last in (('offset_n', nd, 0), ('offset_m', ed, 0), ('global_n', nd, 1), ('global_m', ed, 1)):
                        fld = self.one(c, acc)
                        if fld is None or arr is None or not re.fullmatch(r'this\.\w+', fld): continue
                        src = str(s.env.get(arr, arr))
                        got = str(s.env.get(fld, ''))
                        ok = {src + '.back()', arr + '.back()'} if last else None
                        good = got in ok if last else re.fullmatch('(%s|%s)%s' % (re.escape(src), re.escape(arr), r'\[kaminpar::mpi::get_comm_rank\(.*\)\]'), got)
                        if good: self.res.ok('%s of a new %s' % (acc, c))
                        elif got == '': self.res.bad('%s|%s' % (c, acc), at(f, f), 'a new graph does not record its %s' % acc)
                        elif any(x in got for x in ('[', 'back()')): self.res.bad('%s|%s' % (c, acc), at(f, f), '%s of a new graph is %s' % (acc, got))
                        else: self.res.skip('%s|%s: %s' % (c, acc, got))

    def delta(self):
        c = SHM + 'DeltaPartitionedGraph'
        r = self.rows(c, 'block_weight', ('$0',))
        if r is None: self.res.skip(c); return
        f = self.last
        if len(r) == 1 and len(VN(self.prog).linof(r[0][1])) and r[0][1].count('[$0]') + r[0][1].count('($0)') == 2 and ' + ' in r[0][1] and ' - ' not in r[0][1] and not r[0][1].startswith('(-'): self.res.ok(c + '::block_weight is the weight in the underlying partition plus the change')
        else: self.res.bad(c + '::block_weight/1', at(f, f), 'block_weight of a delta partition answers ' + self.show(r))
        r = self.rows(c, 'block', ('$0',))
        if r and len(r) == 2:
            f = self.last
            vs = sorted(v for l, v in r)
            base = [(l, v) for l, v in r if '_p_graph' in v or v.endswith('.block($0)') or v.endswith('_partition[$0]') and 'delta' not in v]
            own = [(l, v) for l, v in r if 'get_if_contained' in v]
            if len(base) == 1 and len(own) == 1:
                absent = [x for t, x in base[0][0] if '==' in t and 'get_if_contained($0)' in t]
                if absent == [True] and '$0' in base[0][1] and 'get_if_contained($0)' in own[0][1]: self.res.ok(c + '::block')
                elif absent == [False]: self.res.bad(c + '::block/1', at(f, f), 'block answers the underlying assignment although the node was moved')
                else: self.res.skip(c + '::block: ' + self.show(r))
            else: self.res.skip(c + '::block: ' + self.show(r))

def compressed(F, c):
    """a compressed graph answers as the compressed neighborhoods it holds"""
    inner, res = 'kaminpar::CompressedNeighborhoods', F.res
    fld = F.field(c, 'CompressedNeighborhoods')
    if not fld: res.skip(c + ': compressed neighborhoods'); return
    for (k, name, np), fs in sorted(F.by.items()):
        if k != c or np > 1 or (inner, name, np) not in F.by or name == 'memory_space' or fs[0].get('ctor') or name.startswith(('~', 'operator')): continue
        if 'void' in (fs[0].get('rt') or ''): continue
        argv = ('$0',)[:np]
        a, b = F.rows(inner, name, argv), F.rows(c, name, argv)
        if not a or not b: res.skip('%s::%s' % (c, name)); continue
        f = F.last
        sub = lambda t: re.sub(r'\bthis\b', fld, t)
        a = [(frozenset((sub(t), x) for t, x in l), sub(v)) for l, v in a]
        norm = lambda rs: [(frozenset((re.sub(r'#[\d.]+', '#', t), x) for t, x in l), re.sub(r'#[\d.]+', '#', v)) for l, v in rs]
        if any(v == '' or v == 'void' for l, v in b): continue
        eq = F.same(norm(a), norm(b))
        if eq is None: res.skip('%s::%s' % (c, name))
        elif eq: res.ok('%s::%s is that of the neighborhoods' % (c, name))
        else: res.bad('%s::%s/%d' % (c, name, np), at(f, f), '%s answers %s, the compressed neighborhoods %s' % (name, F.show(b), F.show(a)))

def stopping(prog, res):
    """a visitor of neighbors that answers true ends the visit"""
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if 'b' not in f or f.get('dep') or not any(f['f'].endswith(x) for x in ('_graph.h', 'compressed_neighborhoods.h')): continue
        vs = {}
        for n in nodes(f):
            if n['k'] == 'Var' and n.get('c') and n['c'][0] is not None and n['t'].replace('const ', '') == 'bool':
                e = strip(n['c'][0])
                if e['k'] == 'OpCall' and e.get('op') == '()': vs[n['d']] = n
        for n in nodes(f):
            if n['k'] != 'If' or n['c'][1] is None: continue
            c, pos = strip(n['c'][1]), True
            while c['k'] == 'Un' and c.get('op') == '!': c, pos = strip(c['c'][0]), not pos
            direct = c['k'] == 'OpCall' and c.get('op') == '()' and (c.get('t') or '') == 'bool'
            if not (direct or c['k'] == 'DRef' and c.get('d') in vs): continue
            def leaves(b):
                b = [b] if b is not None else []
                while len(b) == 1 and b[0]['k'] == 'Compound': b = [x for x in b[0].get('c') or () if x is not None]
                return bool(b) and b[-1]['k'] in ('Return', 'Break')
            then, els = leaves(n['c'][2]), len(n['c']) > 3 and leaves(n['c'][3])
            if then == els: continue
            key = (f['f'], n['l'])
            if key in seen: continue
            seen.add(key)
            if then == pos: res.ok('%s:%s: a visitor that answers true ends the visit' % key)
            else: res.bad('%s|stop' % (f['q'] or '%s:%s' % (f['f'], f['l'])), at(f, n), 'the visit of neighbors ends when the visitor answers false')

class Resize(VN):
    """arrays that are cut off and extended again change the number of nodes that is computed from their size"""
    nodes = None          # (array, size) the number of nodes is computed from
    def call(self, n, st):
        out = super().call(n, st)
        name = short(callee(n))
        if name in ('restrict', 'unrestrict') and self.nodes:
            for t, s in out:
                e = s.eff[-1] if s.eff else None
                if e is None or e.kind != 'call' or short(e.target) != name or e.op != self.nodes[0]: continue
                s.env[self.nodes[1]] = str(e.val[0]) if name == 'restrict' else self.nodes[1] + "'"
        return out

class Recorded:
    """what a graph records about itself (sizes of degree buckets, weights, degrees) is what its arrays say"""
    def __init__(self, fac, c):
        self.F, self.c, self.res = fac, c, fac.res
        one = fac.one
        self.n, self.m = one(c, 'n'), one(c, 'm')
        b = one(c, 'first_node_in_bucket', ('$0',))
        self.b = b[:-4] if b and b.endswith('[$0]') else None
        self.nb = one(c, 'number_of_buckets')
        self.sorted = one(c, 'sorted')
        self.w = one(c, 'raw_node_weights') or one(c, 'node_weights')
        self.ew = one(c, 'raw_edge_weights') if (c, 'raw_edge_weights', 0) in fac.by else None
        if self.ew is None and (c, 'edge_weights', 0) in fac.by: self.ew = one(c, 'edge_weights')
        self.tot = {q: one(c, q) for q in ('total_node_weight', 'max_node_weight', 'total_edge_weight', 'max_degree')}
        self.e0 = one(c, 'raw_nodes') if 'CSR' in c else None
        self.sz = None
        if self.n:
            m = re.search(r'(this[\w.]*)\.(_size|_num_values)\b', self.n)
            if m: self.sz = (m.group(1), m.group(0))

    def say(self, key, good, where, ok, bad):
        if good: self.res.ok(ok)
        else: self.res.bad('%s|%s' % (self.c, key), where, bad)

    def paths(self, f, ctor=False, keep=()):
        vn = Resize(self.F.prog, inline=lambda g, d: g.get('cls') in FINAL and g['n'] not in keep, devirt=FINAL, maxdepth=8)
        vn.nodes = self.sz
        vn.split_conditions = True
        vn.ctor_inits = ctor
        self.vn = vn
        try: return vn.paths(f)
        except TooComplex: self.res.skip('%s: too many paths' % f['q']); return []

    def run(self):
        for q, size, total, arr in (('is_node_weighted', self.n, self.tot['total_node_weight'], self.w), ('is_edge_weighted', self.m, self.tot['total_edge_weight'], self.ew)):
            rows = self.F.rows(self.c, q)
            if not rows or not size or not total: continue
            f, A = self.F.last, VN(self.F.prog)
            rows = self.F.boolean(rows)
            eq, lt = A.cmp('==', size, total), A.cmp('<', size, total)
            sets = [[(frozenset({(t, b)}), 'false' if b == x else 'true') for b in (True, False)] for t, x in ((eq[0], eq[1]), (lt[0], not lt[1]), ('(%s._size == 0)' % arr, True))]
            atoms = {t for l, v in rows for t, x in l}
            if any(self.F.same(rows, x) for x in sets): self.res.ok('%s::%s' % (self.c, q))
            elif len(atoms) == 1 and (total in str(atoms) and size.strip('()') in str(atoms) or atoms & {x[0][0] and next(iter(x[0][0]))[0] for x in sets}): self.res.bad('%s|%s' % (self.c, q), at(f, f), '%s answers %s' % (q, self.F.show(rows)))
            else: self.res.skip('%s::%s' % (self.c, q))
        if None in (self.n, self.b, self.nb): self.res.skip(self.c + ': sizes of degree buckets'); return
        for (k, name, np), fs in sorted(self.F.by.items()):
            if k != self.c: continue
            for f in fs[:1]:
                ctor = bool(f.get('ctor')) and name == k.rsplit('::', 1)[-1]
                if ctor or name.startswith('~'): continue
                if name in ('remove_isolated_nodes', 'integrate_isolated_nodes'): self.isolated(f, name); continue
                own = {strip(x['c'][0]).get('n') for x in nodes(f) if x['k'] in ('Bin', 'OpCall') and x.get('op') in ('=', '+=') and x.get('c') and strip(x['c'][0])['k'] == 'Mem'}
                if self.nb.rsplit('.', 1)[-1] in own: self.buckets(f)
                if any(t and t.rsplit('.', 1)[-1] in own for t in self.tot.values()): self.totals(f)
            if name == k.rsplit('::', 1)[-1]:
                for f in fs:
                    if f.get('ctor') not in ('copy', 'move') and not any(i.get('deleg') for i in f.get('inits') or ()) and f.get('b') and not f['b'].get('imp'): self.totals(f, True)

    # -------------------------------------------------------- degree buckets
    def buckets(self, f):
        A = self.vn = VN(self.F.prog)
        loc, res, b = at(f, f), self.res, re.escape(self.b)
        for r, s in self.paths(f, keep=('degree',)):
            lits = dict(s.lits)
            direct = [e for e in s.eff if e.kind == 'w' and re.fullmatch(b + r'\[(.*)\]', str(e.target)) and not e.ctx and e.op == '=']
            nbs = [e for e in s.eff if e.kind == 'w' and e.target == self.nb]
            counts = [e for e in s.eff if e.kind == 'w' and e.op == '+=' and 'degree_bucket(' in str(e.target)]
            if lits.get(self.sorted) is False:
                # one bucket with all nodes
                if len(direct) == 1:
                    e = direct[0]
                    self.say('unsorted', e.target == self.b + '[1]' and str(e.val) == self.n, at(f, e.node), '%s: one bucket holds all nodes' % self.c,
                             'the only degree bucket of an unsorted graph ends at %s[%s] = %s instead of the number of nodes in %s[1]' % (self.b, e.target[len(self.b) + 1:-1], e.val, self.b))
                else: res.skip('%s: unsorted graph' % f['q'])
                if len(nbs) == 1: self.say('unsorted count', str(nbs[0].val) == '1', at(f, nbs[0].node), '%s: one bucket' % self.c, 'an unsorted graph claims to have %s degree buckets, not one' % nbs[0].val)
            elif lits.get(self.sorted) is True:
                self.count(f, s, counts)
                if len(nbs) == 1:
                    v = str(nbs[0].val)
                    m = re.fullmatch(r'std::distance\(%s\.begin\(\), (.*)\.base\(\)\)' % b, v)
                    x = str(s.env.get(m.group(1), m.group(1))) if m else ''
                    plus = re.fullmatch(r'\+\((std::find_if\(.*\)), (\d+)\)', x)
                    if m and (plus or x.startswith('std::find_if(')):
                        k = int(plus.group(2)) if plus else 0
                        self.say('number of buckets', k == 1, at(f, nbs[0].node), '%s: the last bucket with nodes is the last one' % self.c, 'the number of degree buckets is off by %d' % (1 - k))
                    else: res.skip('%s: number of buckets %s' % (f['q'], v[:80]))
            else: continue
            ps = [e for e in s.eff if e.kind == 'call' and short(e.target) in ('partial_sum', 'inclusive_scan') and str(e.val[0]).startswith(self.b + '.')]
            for e in ps:
                v = [str(x) for x in e.val]
                self.say('prefix sum', len(v) >= 3 and v[0] == v[2] and v[1] == self.b + '.end()', at(f, e.node), '%s: bucket sizes become offsets' % self.c, 'the sizes of the degree buckets are summed up over [%s, %s) into %s' % tuple(v[:3]))

    def count(self, f, s, counts):
        """every node counts in the bucket of its degree, one behind the start of the bucket"""
        res, A = self.res, self.vn
        for e in counts:
            m = re.match(r'(.*)\[((?:[^\[\]]|\[[^\[\]]*\])*)\]$', str(e.target))
            idx = m.group(2) if m else ''
            # what does not depend on degree_bucket is the offset
            dm = re.search(r'[\w:()]*degree_bucket\(', idx)
            vs = set(re.findall(r'φ\d+:\w+|λ\d+', idx))
            if not dm or len(vs) != 1 or str(e.val) != '1': res.skip('%s: counting %s' % (f['q'], idx[:80])); continue
            var = vs.pop()
            q = re.search(r'(?:kaminpar::)(?:[\w]+::|\(anon\)::)*degree_bucket', idx)
            q = q.group(0) if q else 'degree_bucket'
            rows = self.F.rows(self.c, 'degree', (var,))
            degs = {'this.degree(%s)' % var} | {v for l, v in rows or ()}
            offs = [k for k in range(-2, 4) if idx in {A.add(str(k), '%s(%s)' % (q, d)) if k else '%s(%s)' % (q, d) for d in degs}]
            lps = [x for x in e.ctx if x[0] in ('loop', 'λ')]
            # from the array of counts to the offsets
            shift = None
            arr = m.group(1)
            for x in s.eff:
                if x.kind == 'w' and x.op == '+=' and str(x.target).startswith(self.b + '[') and x is not e:
                    ti = str(x.target)[len(self.b) + 1:-1]
                    vm = re.fullmatch(r'[^\[]*\[(.*)\]', str(x.val))
                    if vm:
                        d = A.add(ti, vm.group(1), -1)
                        shift = int(d) if re.fullmatch(r'-?\d+', d) else None
                if x.kind == 'call' and short(x.target) in ('copy', 'move', 'copy_n') and str(x.val[-1]) == self.b + '.begin()' and str(x.val[0]).endswith('.begin()'): shift = 0
            if arr == self.b: shift = 0
            if shift is None: res.skip('%s: counts are taken over' % f['q']); continue
            if not offs: res.bad('%s|count' % self.c, at(f, e.node), 'a node counts in the bucket %s, which is not that of its degree' % idx); continue
            self.say('count', shift + offs[0] == 1, at(f, e.node), '%s: a node counts in the bucket of its degree' % self.c, 'bucket sizes are recorded %d entries behind the start of their bucket instead of one' % (shift + offs[0]))
            # all nodes
            for x in lps:
                if x[0] != 'λ' or short(x[1]) != 'parallel_for': continue
                v = list(map(str, x[3]))
                mm = re.fullmatch(r'tbb::detail::d1::blocked_range\{(.*)\}', v[0])
                parts = self.F.split(mm.group(1)) if mm else v[:2] if len(v) == 3 else []
                if len(parts) >= 2: self.say('count range', parts[0] == '0' and parts[1] == self.n, at(f, e.node), '%s: all nodes are counted' % self.c, 'degree buckets count the nodes [%s, %s) only' % tuple(parts[:2]))

    # -------------------------------------------------------- isolated nodes
    def isolated(self, f, name):
        res, rm = self.res, name == 'remove_isolated_nodes'
        if not self.sz: res.skip(f['q']); return
        for r, s in self.paths(f):
            lits = dict(s.lits)
            if rm and lits.get('($0 == 0)') is True: continue
            A = self.vn
            new = A.add(self.n, '$0', -1) if rm else self.n.replace(self.sz[1], self.sz[1] + "'")
            change = '$0' if rm else A.add(new, self.n, -1)
            cut = [e for e in s.eff if e.kind == 'call' and short(e.target) == ('restrict' if rm else 'unrestrict')]
            last = max([s.eff.index(e) for e in cut], default=-1)
            arrays = {e.op for e in cut}
            if self.sz[0] not in arrays: res.bad('%s|%s' % (self.c, name), at(f, f), '%s leaves the node array as it is' % name); continue
            if rm:
                for e in cut:
                    want = A.add(new, '1') if e.op == self.sz[0] else new if e.op == self.w else None
                    if want: self.say('%s %s' % (name, e.op), str(e.val[0]) == want, at(f, e.node), '%s: %s keeps the entries of the other nodes' % (self.c, e.op), '%s is cut off at %s instead of %s' % (e.op, e.val[0], want))
            empty = lits.get('(%s._size == 0)' % self.w)
            if self.w not in arrays and empty is not True: res.bad('%s|%s weights' % (self.c, name), at(f, f), '%s leaves the node weights as they are' % name)
            # weights again
            for q in ('total_node_weight', 'max_node_weight'):
                t = self.tot[q]
                ws = [e for e in s.eff if e.kind == 'w' and e.target == t]
                if not ws or s.eff.index(ws[-1]) < last: res.bad('%s|%s %s' % (self.c, name, q), at(f, f), '%s does not compute the %s anew' % (name, q.replace('_', ' ')))
                else: self.weight(f, q, str(ws[-1].val), empty, ws[-1].node, new, {})
            # buckets
            bw = [e for e in s.eff if e.kind == 'w' and str(e.target).startswith(self.b + '[')]
            if not bw: res.skip('%s: buckets' % f['q'])
            for e in bw:
                idx = str(e.target)[len(self.b) + 1:-1]
                vs = set(re.findall(r'φ\d+:\w+', idx))
                val = str(e.val)
                if e.op == '=':
                    cur = '%s[%s]' % (self.b, idx)
                    d = A.add(val, cur, -1)
                    val = A.add('0', d, -1) if rm else d
                    op = '-=' if rm else '+='
                else: op = e.op
                self.say(name + ' change', op == ('-=' if rm else '+=') and val == change, at(f, e.node), '%s: bucket boundaries move by the isolated nodes' % self.c, '%s changes the boundaries of degree buckets by %s %s instead of %s' % (name, e.op, e.val, change))
                lp = [x for x in e.ctx if x[0] == 'loop']
                if len(vs) != 1 or len(lp) != 1: continue
                var = vs.pop()
                init = dict(lp[0][2]).get(var.split(':')[1]) if len(lp[0]) > 2 else None
                off = A.add(idx, var, -1)
                if init is None or not re.fullmatch(r'-?\d+', off): continue
                lo, hi = A.add(init, off), A.add(self.b + '.size()', off, -1)
                end = {A.cmp('<', var, hi), A.cmp('!=', var, hi)}
                mine = [t for t, x in e.lits if var in t]
                self.say(name + ' buckets', lo == '1' and bool(end & set(e.lits)), at(f, e.node), '%s: all boundaries behind the first bucket move' % self.c, '%s moves the boundaries from %s on while %s' % (name, lo, ' and '.join(mine)))
            for k, old, now in ((1, 1, '0'), (0, 0, '1')):
                if rm != (k == 1): continue
                c = lits.get('(%s == %d)' % (self.nb, old))
                ws = [e for e in s.eff if e.kind == 'w' and e.target == self.nb]
                if c is True: self.say(name + ' number', bool(ws) and str(ws[-1].val) == now, at(f, ws[-1].node if ws else f), '%s: only isolated nodes' % self.c, '%s: a graph with %d degree buckets has %s afterwards, not %s' % (name, old, ws[-1].val if ws else old, now))
                elif c is False: self.say(name + ' number', not ws, at(f, f), '%s: number of buckets stays' % self.c, '%s changes the number of degree buckets' % name)

    # -------------------------------------------------------- weights and degrees
    def weight(self, f, q, v, empty, node, n, alias, env={}):
        """the value v recorded for q if the array of weights is empty or not"""
        res, c = self.res, self.c
        arr = self.ew if q == 'total_edge_weight' else self.w
        size = self.m if q == 'total_edge_weight' else n
        key, what = q, q.replace('_', ' ')
        if arr is None or size is None: return
        def base(t):
            t = alias.get(t, t)
            return t
        if q == 'max_degree':
            m = re.fullmatch(r'(?:kaminpar::)?(?:parallel::)?max_difference\((.*)\)', v)
            if m and self.e0:
                a = self.F.split(m.group(1))
                good = len(a) == 1 and base(a[0]) == self.e0 or len(a) == 2 and [base(x.rsplit('.', 1)[0]) + '.' + x.rsplit('.', 1)[-1] for x in a] == [self.e0 + '.begin()', self.e0 + '.end()']
                self.say(key, good, at(f, node), '%s: the maximum degree is that of all nodes' % c, 'the maximum degree is taken from %s only' % ', '.join(a))
            elif v == '0' or re.search(r'\.degree\(\d*\)|\[\d+\]', v): res.bad('%s|%s' % (c, key), at(f, node), 'the maximum degree is recorded as %s' % v)
            return
        m = re.fullmatch(r'\*?([\w:]*(accumulate|reduce|max_element))\((.*)\)', v)
        if m:
            fn, a = m.group(2), self.F.split(m.group(3))
            mx = fn == 'max_element'
            if empty is True: return
            self.say(key + ' operation', mx == (q == 'max_node_weight'), at(f, node), '%s: %s' % (c, what), 'the %s is recorded as %s' % (what, v[:100]))
            if not mx:
                init = [x for x in a if re.fullmatch(r'-?\d+', x)]
                if len(a) in (2, 3) and init: self.say(key + ' start', init == ['0'], at(f, node), '%s: sum starts at 0' % c, 'the %s starts at %s' % (what, init[0]))
            rest = [x for x in a if not re.fullmatch(r'-?\d+', x)]
            if len(rest) == 1: good = base(rest[0]) == arr if re.fullmatch(r'[\w.$]+', rest[0]) else None
            elif len(rest) == 2:
                bs = [base(x[:-8]) if x.endswith('.begin()') else base(x[:-6]) if x.endswith('.end()') else None for x in rest]
                if rest[0].endswith('.begin()') and rest[1].endswith('.end()'): good = bs == [arr, arr]
                else:
                    pm = re.fullmatch(r'\+\((.*)\.begin\(\), (.*)\)', rest[1])
                    good = None
                    if pm and rest[0].endswith('.begin()'): good = bs[0] == arr and base(pm.group(1)) == arr and (pm.group(2) in (size, str(env.get(size))) or (None if re.search(r'\w\(', pm.group(2)) else False))
                    if good is None and (rest[0].startswith('+(') or re.match(r'-\(', rest[1])): good = False
            else: good = None
            if good is None: res.skip('%s: %s %s' % (f['q'], what, v[:60]))
            else: self.say(key + ' range', good, at(f, node), '%s: the %s is that of all of them' % (c, what), 'the %s is computed from %s' % (what, ', '.join(rest)))
            return
        plain = re.fullmatch(r"\(?[-+$\w. ']*\)?", v) is not None
        if empty is True and plain:
            want = '1' if q == 'max_node_weight' else size
            self.say(key + ' unweighted', v == want or v == str(env.get(want)), at(f, node), '%s: %s of an unweighted graph' % (c, what), 'the %s of an unweighted graph is recorded as %s, not %s' % (what, v, want))
        elif empty is False and plain and (v in ('0', '1') or v in (self.n, self.m, str(env.get(self.n)), str(env.get(self.m)))): res.bad('%s|%s weighted' % (c, key), at(f, node), 'the %s of a weighted graph is recorded as %s' % (what, v))

    def totals(self, f, ctor=False):
        res = self.res
        for r, s in self.paths(f, ctor):
            lits = dict(s.lits)
            alias = {str(v): k for k, v in s.env.items() if ctor and re.fullmatch(r'this\.\w+', str(k)) and re.fullmatch(r'\$\d+', str(v))}
            for q, t in self.tot.items():
                if t is None or not re.fullmatch(r'this\.\w+', t): continue
                ws = [e for e in s.eff if e.kind == 'w' and e.target == t and e.op == '=']
                v = str(s.env.get(t, ''))
                if not ws or v == '' or v.startswith('φ'): continue
                node = ws[-1].node
                # taken from another graph
                o = re.match(r'(\*{0,2}[A-Za-z_$][\w#]*(?:\.\d+)?)((?:\._?[a-z]\w*(?:\(\))?)+)$', v)
                if o and not v.startswith('this.') and v not in alias:
                    rest = o.group(2)
                    names = {'.%s()' % q} | {(self.F.one(k, q) or 'this.?')[4:] for k in CONCRETE}
                    if any(rest.endswith(x) for x in names): res.ok('%s: %s is taken over from the other graph' % (self.c, q))
                    else: res.bad('%s|%s copied' % (self.c, q), at(f, node), 'the %s of the new graph is %s of the other one' % (q.replace('_', ' '), rest[1:]))
                    continue
                arr = self.ew if q == 'total_edge_weight' else self.w
                empty = None
                for a in [arr] + [x for x, y in alias.items() if y == arr]: empty = lits.get('(%s._size == 0)' % a, empty)
                self.weight(f, q, v, empty, node, self.n, alias, s.env)
            # degrees become offsets
            for e in s.eff:
                if not ctor or not self.e0 or e.kind != 'w' or e.op != '=' or not str(e.target).startswith(self.e0 + '['): continue
                idx, v = str(e.target)[len(self.e0) + 1:-1], str(e.val)
                vs = set(re.findall(r'φ\d+:\w+|λ\d+', idx))
                ps = [x for x in s.eff if x.kind == 'call' and short(x.target) in ('prefix_sum', 'partial_sum', 'inclusive_scan') and str(x.val[0]) == self.e0 + '.begin()' and str(x.val[2]) == self.e0 + '.begin()']
                if len(vs) != 1 or not ps: continue
                var = vs.pop()
                if not re.fullmatch(r'.*\.degree\(%s\)' % re.escape(var), v) and not re.fullmatch(r'\((\S+)\[\(1 \+ %s\)\] - \1\[%s\]\)' % (re.escape(var), re.escape(var)), v): continue
                self.say('offsets', idx == '(1 + %s)' % var, at(f, e.node), '%s: edges of a node start behind those of its predecessor' % self.c, 'the degree of node %s is recorded at %s before it is summed up' % (var, idx))
            # sums and maxima over all processes
            for q in ('total_node_weight', 'max_node_weight', 'total_edge_weight'):
                g = self.F.one(self.c, 'global_' + q) if self.c.startswith(DIST) else None
                if not g or not self.tot[q] or not any(e.kind == 'w' and e.target == g for e in s.eff): continue
                node = [e for e in s.eff if e.kind == 'w' and e.target == g][-1].node
                m = re.fullmatch(r'[\w:]*allreduce\((.*)\)', str(s.env.get(g, '')))
                a = self.F.split(m.group(1)) if m else []
                op = re.search(r'op_(\w+)|MPI_(\w+)', a[1]) if len(a) == 3 else None
                if not op: res.skip('%s: global %s' % (f['q'], q)); continue
                op, want = (op.group(1) or op.group(2)).lower(), 'max' if q.startswith('max') else 'sum'
                loc = str(s.env.get(self.tot[q], self.tot[q]))
                self.say('global ' + q, op == want and a[0] in (loc, self.tot[q]), at(f, node), '%s: the global %s' % (self.c, q.replace('_', ' ')), 'the global %s is the %s of %s over all processes' % (q.replace('_', ' '), op, a[0]))
            # both or none
            pair = [self.tot[q] for q in ('total_node_weight', 'max_node_weight')]
            if not ctor and all(pair):
                have = [any(e.kind == 'w' and e.target == t for e in s.eff) for t in pair]
                if have[0] != have[1]: res.bad('%s|%s pair' % (self.c, f['n']), at(f, f), '%s records the %s node weight anew, but not the %s one' % (f['n'], *(('total', 'maximum') if have[0] else ('maximum', 'total'))))

def evaluate(t, x):
    """the value of a term in one number"""
    t = re.sub(r'[\w:]*floor_log2\(', 'fl(', t).replace('$0', 'x').replace('[', '(').replace(']', ')').replace('!(', 'not (')
    if not re.fullmatch(r'[-+*<>=!&|x\d\s(),fl]|(?:[-+*<>=!&|\d\s()]|x|fl|not|,)*', t): return None
    try: return eval(t, {'__builtins__': {}}, {'x': x, 'fl': lambda v: v.bit_length() - 1})
    except Exception: return None

def degree_buckets(prog, res):
    """bucket 0 holds degree 0, bucket i > 0 the degrees from 2^(i-1) to 2^i - 1"""
    for name, want in (('degree_bucket', lambda d: d.bit_length()), ('lowest_degree_in_bucket', lambda b: (1 << b) >> 1)):
        for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'])):
            if f['n'] != name or 'b' not in f or f.get('dep') or len(f['p']) != 1: continue
            vn = VN(prog); vn.split_conditions = True
            try: rows = [(s.lits, str(r)) for r, s in vn.paths(f)]
            except TooComplex: res.skip(f['q']); continue
            wrong = None
            for x in list(range(0, 31)) if name != 'degree_bucket' else list(range(0, 70)) + [255, 256, 1023, 1024, (1 << 31) - 1, 1 << 31]:
                vals = []
                for l, v in rows:
                    cs = [evaluate(t, x) for t, b in l]
                    if None in cs: vals = None; break
                    if all(bool(c) == b for c, (t, b) in zip(cs, l)): vals.append(evaluate(v, x))
                if not vals or None in vals: wrong = ''; break
                if any(v != want(x) for v in vals): wrong = '%s(%d) is %s instead of %d' % (name, x, vals[0], want(x)); break
            if wrong == '': res.skip('%s: %s' % (f['q'], rows[:2]))
            elif wrong: res.bad(f['q'], at(f, f), wrong)
            else: res.ok('%s: buckets of powers of two' % f['q'])

def run(tier):
    res = Result()
    prog = load(units())
    degree_buckets(prog, res); stopping(prog, res)
    F = Facade(prog, res)
    F.forwarding(); F.dispatch(); F.definitions()
    for c in CONCRETE:
        Recorded(F, c).run()
        if 'Compressed' in c: compressed(F, c)
    res.info = {'units': len(prog.units), 'functions': len(prog.fns)}
    return res
