"""Gain caches report the connections of the current assignment.

For every gain cache class: where conn(node, block) reads on a path, move(node, from, to) has subtracted (added) the weight
of the edge from (to) the entry of every neighbour on the compatible paths, and initialisation has added up the weights of
all edges; gains are differences of two connections; gains() offers every block but the current one; clients pair every
change of the assignment with a move of the cache.
"""
from kit import *
from vn import *

N = lambda s: re.sub(r'φ\d+', 'φ', re.sub(r'#\d+(?:\.\d+)*', '', str(s)))

def units():
    return [os.path.join(VERIF, 'probe', 'gain_caches.cc')] + all_units('kaminpar-shm/refinement')

def split_idx(path):
    if not path.endswith(']'): return None, None
    d = 0
    for i in range(len(path) - 1, -1, -1):
        if path[i] == ']': d += 1
        elif path[i] == '[':
            d -= 1
            if d == 0: return path[:i], path[i + 1:-1]
    return None, None

def compatible(a, b):
    return not any((t, not v) in b for t, v in a)

TABLE = 'CompactHashMap'

class Cache:
    def __init__(self, prog, cls, ms):
        self.prog, self.cls, self.ms = prog, cls, ms
    def vn(self):
        def inline(g, d):
            if 'refinement/gains/' not in g['f'] or not g.get('cls'): return False
            # locks are opaque
            return not any(n['k'] == 'Atomic' and ('compare_exchange' in n['op'] or 'store' in n['op']) for n in nodes(g))
        v = VN(self.prog, inline=inline, maxdepth=10, maxstates=4000)
        v.split_conditions = v.objvals = v.constglobals = v.localwrites = True
        return v

def loc(vn, t):
    """canonical text of a memory location or of a value read from one"""
    t = str(t)
    b, i = split_idx(t)
    if b is not None and (b.startswith('(') or b.endswith(')')): t = '*' + vn.add(b, i)
    t = re.sub(r'\.get_if_contained\((.*)\)$', r'[\1]', t)
    return N(t)

def zero(t): return '0' if str(t) in ('', 'ZeroInit()', '{}', 'false') or re.fullmatch(r'.*\{\}', str(t)) else str(t)

def calls_in(e): return e.kind == 'call'

class Rule:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.seen = set()

    def classes(self):
        d = {}
        for f in self.prog.fns.values():
            if f.get('cls') and not f.get('dep') and not f.get('lambda') and 'refinement/gains/' in f['f'] and 'b' in f:
                d.setdefault(f['clst'], {}).setdefault(f['n'], []).append(f)
        return {c: ms for c, ms in sorted(d.items()) if 'conn' in ms and 'move' in ms}

    def emit(self, key, where, bad, good):
        if bad: self.res.bad(key, where, bad)
        else: self.res.ok(good)

    # ------------------------------------------------------------ values
    def accumulators(self, vn, s, t, node):
        """a sum over the neighbours of `node` with a block: φ:x -> CONN(P, node, block)"""
        d = dict(vn.linof(str(t)))
        out = {}
        for a, c in d.items():
            b = a
            m = re.fullmatch(r'(?:φ\d+:)?([a-z]\w*(?:#[\d.]*\d)?(?:\.\w+)?)', a)
            if m:
                ws = [e for e in s.eff if e.kind == 'w' and N(e.target) == N(m.group(1)) and not (e.op == '=' and not e.ctx)]
                if ws and all(e.op == '+=' and e.val == 'λ1' and e.ctx and e.ctx[-1][0] == 'λ' and short(e.ctx[-1][1]) == 'adjacent_nodes' and e.ctx[-1][3][0] == node for e in ws):
                    bs = set()
                    for e in ws:
                        for l, v in e.lits:
                            m2 = re.fullmatch(r'\((.*) == (.*)\)', l)
                            if v and m2 and any(re.fullmatch(r'(.*)\.block\(λ0\)', x) for x in m2.groups()):
                                x, y = m2.groups()
                                if not re.fullmatch(r'(.*)\.block\(λ0\)', x): x, y = y, x
                                bs.add('CONN(%s,%s,%s)' % (N(x).rsplit('.block', 1)[0], N(node), N(y)))
                    if len(ws) == 1 and len(bs) == 1: b = bs.pop()
                    else: b = 'SUM?' + a
            out[b] = out.get(b, 0) + c
        return {N(a): c for a, c in out.items() if c}

    def value(self, vn, s, t, node):
        t = zero(t)
        r = {}
        for a, c in self.accumulators(vn, s, t, node).items():
            a = loc(vn, a)
            if zero(a) == '0': continue
            r[a] = r.get(a, 0) + c
        return {a: c for a, c in r.items() if c}

    def conn(self, vn, C, node, blk):
        """[(linear form, literals)] of conn(node, block) on its paths"""
        f = C['conn'][0]
        keep = vn.applied
        ps = vn.paths(f, names=[node, blk])
        vn.applied = keep
        return [(self.value(vn, s, r, node), {(N(t), v) for t, v in s.lits}) for r, s in ps]

    def tables(self, s, form, e=None):
        """replace what for_each of a table handed over by lookups in it"""
        out = {}
        for a, c in form.items():
            m = re.fullmatch(r'λ1′*', a)
            if m and e is not None:
                for t in reversed(e.ctx):
                    if t[0] == 'λ' and short(t[1]) == 'for_each': a = '%s.get(λ0%s)' % (N(t[2]), a[2:]); break
            m = re.fullmatch(r'(.*)\.get\(([^()]*)\)', a)
            if m:
                # a buffer that is left empty by everyone and not filled on this path
                if '.local()' in m.group(1) and any(short(x.target) == 'clear' and N(x.op) == m.group(1) for x in s.eff if x.kind == 'call') and not any(short(x.target) == 'set' and N(x.op) == m.group(1) for x in s.eff if x.kind == 'call'): continue
                for x in s.eff:
                    if x.kind == 'call' and short(x.target) == 'set' and N(x.op) == m.group(1) and len(x.val) == 2 and x.ctx and x.ctx[-1][0] == 'λ' and short(x.ctx[-1][1]) == 'for_each' and [re.sub('′', '', str(v)) for v in x.val] == ['λ0', 'λ1'] and not any('λ' in t for t, v in x.lits):
                        a = '%s.get(%s)' % (N(x.ctx[-1][2]), m.group(2)); break
            out[a] = out.get(a, 0) + c
        return {a: c for a, c in out.items() if c}

    def diff(self, a, b):
        d = dict(a)
        for k, c in b.items(): d[k] = d.get(k, 0) - c
        return {k: c for k, c in d.items() if c}

    # ------------------------------------------------------------ updates of one neighbour
    def updates(self, vn, effs):
        """[(location, amount, effect)]"""
        out = []
        for e in effs:
            if e.kind == 'w' and e.op in ('+=', '-='):
                b, i = split_idx(e.target)
                if b is None and not e.target.startswith('*'): continue
                out.append((loc(vn, e.target), vn.add('0', e.val, 1 if e.op == '+=' else -1), e))
            elif e.kind == 'call' and short(e.target) in ('increase_by', 'decrease_by') and len(e.val) == 2:
                out.append((N('%s.get(%s)' % (e.op, e.val[0])), vn.add('0', str(e.val[1]), 1 if short(e.target)[0] == 'i' else -1), e))
        return out
    def base(self, l):
        m = re.search(r'this(\._?\w+)+?(?=\[|\.data\(\)|\.get)', l)
        return m.group(0) if m else l

    def move(self, name, C):
        f = C['move'][0]
        where = '%s:%s' % (f['f'], f['l'])
        vn = Cache(self.prog, None, None).vn()
        ps = vn.paths(f)
        adj = [a for a in vn.applied if short(a[0][-1][1]) == 'adjacent_nodes']
        qs = {b: self.conn(vn, C, 'λ0', b) for b in ('$1', '$2')}
        stored = any(not a.startswith('CONN') for q, l in qs['$1'] for a in q)
        if not stored:
            ups = [u for ctx, lam, base, outs in vn.applied for v, s in outs for u in self.updates(vn, s.eff[base:])]
            self.emit(name + '|move', where, None, '%s computes connections from the graph, move() has nothing to update' % name); return
        bases = {self.base(a) for b in qs for q, l in qs[b] for a in q}
        mine = [a for a in adj if a[0][-1][3] and a[0][-1][3][0] == '$0' and any(self.base(u[0]) in bases for v, s in a[3] for u in self.updates(vn, s.eff[a[2]:]))]
        if not mine:
            self.res.bad(name + '|move', where, '%s: move() does not update the connections of the neighbours' % name); return
        if len({id(a[1].node) for a in mine}) != 1:
            self.res.bad(name + '|move', where, '%s: move() updates the neighbours %d times' % (name, len(mine))); return
        own = set()
        for ctx, lam, base, outs in mine:
            for v, s in outs:
                L = {(N(t), x) for t, x in s.lits}
                ups = [u for u in self.updates(vn, s.eff[base:]) if self.base(u[0]) in bases]
                net = {}
                for l, a, e in ups: net.setdefault(l, []).append(a); own.add(self.base(l))
                for what, b, amt in (('left', '$1', vn.add('0', 'λ1', -1)), ('entered', '$2', 'λ1')):
                    comp = [(q, l) for q, l in qs[b] if compatible(l, L)]
                    hit = [l for l in net if any(l in q for q, _ in comp)]
                    if not comp: continue
                    bad = None
                    if not hit:
                        if any(self.base(a) in own or not own for q, _ in comp for a in q): bad = '%s: move() does not update what conn() reads for the block that was %s (writes %s)' % (name, what, ', '.join(sorted(net))[:200] or 'nothing')
                    elif len(hit) > 1 or [N(x) for x in net[hit[0]]] != [N(amt)]: bad = '%s: move() changes the connection of a neighbour to the block that was %s by %s instead of %s' % (name, what, ', '.join(net[hit[0]]), amt)
                    else:
                        for q, l in comp:
                            if q.get(hit[0]) != 1 and not any(t.startswith('(nullptr == ') and x for t, x in l): bad = '%s: conn() does not always read the entry that move() updates for the block that was %s' % (name, what)
                    self.emit('%s|move|%s' % (name, what), '%s:%s' % (f['f'], ups[0][2].node.get('l') if ups else f['l']), bad, '%s: move() updates the connection of every neighbour to the block that was %s' % (name, what))
                extra = [l for l in net if not any(l in q for b in qs for q, _ in qs[b])]
                if extra: self.res.bad('%s|move|other' % name, where, '%s: move() also changes %s' % (name, extra[0][:120]))
        return own

    # ------------------------------------------------------------ initialisation
    def init(self, name, C, bases, wd):
        """everything initialize() computes by visiting edges: connections and weighted degrees are sums over all edges, starting at zero"""
        if not C.get('initialize'): return
        f = C['initialize'][0]
        where = '%s:%s' % (f['f'], f['l'])
        ms = []
        for n in nodes(f):
            g = fn_of(self.prog, n) if n['k'] == 'MCall' else None
            if g is not None and g.get('clst') == f['clst'] and g not in ms: ms.append(g)
        if self.visits(f, deep=False) or not any(self.visits(g) for g in ms): self.res.skip('%s: initialize() has another shape' % name); return
        bad, n, found = {}, 0, {'connections': 0, 'degrees': 0}
        if wd is None: found.pop('degrees')
        clean = {'connections': False, 'degrees': False}
        for g in ms:
            vn = Cache(self.prog, None, None).vn()
            try: ps = vn.paths(g)
            except TooComplex: self.res.skip('%s: %s() too complex' % (name, g['n'])); return
            per = {}
            for ctx, lam, base, outs in vn.applied:
                if short(ctx[-1][1]) != 'adjacent_nodes' or not ctx[-1][3]: continue
                node = str(ctx[-1][3][0])
                ups = [u for v, s in outs for u in self.updates(vn, s.eff[base:])]
                kinds = {'connections': any(self.base(u[0]) in bases for u in ups), 'degrees': wd is not None and any(u[0].startswith(wd + '[') for u in ups)}
                if not any(kinds.values()): continue
                pr = '\u2032' * (len([c for c in ctx if c[0] == '\u03bb']) - 1)
                v_, w_ = '\u03bb0' + pr, '\u03bb1' + pr
                g0 = self.block_of(outs, base, v_)
                for v, s in outs:
                    L = {(N(t), x) for t, x in s.lits}
                    U = self.updates(vn, s.eff[base:])
                    if kinds['connections']:
                        found['connections'] += 1
                        mine = [u for u in U if self.base(u[0]) in bases]
                        q = self.conn(vn, C, node, g0) if g0 else []
                        comp = [a for a, l in q if compatible(l, L)]
                        if not mine: bad['skip'] = '%s: initialisation leaves out some edges' % name
                        elif len(mine) > 1 or N(mine[0][1]) != N(w_): bad['amount'] = '%s: initialisation adds %s for an edge' % (name, ', '.join(u[1] for u in mine)[:80])
                        elif not g0 or comp and not any(mine[0][0] in a for a in comp): bad['where'] = '%s: initialisation does not add the weight of an edge to the connection to the block of the neighbor (%s)' % (name, mine[0][0][:120])
                        n += 1
                    if kinds['degrees']:
                        found['degrees'] += 1
                        mine = [u for u in U if u[0].startswith(wd + '[')]
                        if not mine: bad['deg-skip'] = '%s: the weighted degree leaves out some edges' % name
                        elif len(mine) > 1 or N(mine[0][1]) != N(w_) or mine[0][0] != N('%s[%s]' % (wd, node)): bad['degree'] = '%s: the weighted degree of a node changes by %s at %s' % (name, mine[0][1], mine[0][0][:80])
                        n += 1
            ends = {'connections': [], 'degrees': []}
            for r, s in ps:
                for kind, pre in (('connections', tuple(bases)), ('degrees', (wd,) if wd else ())):
                    if not pre: continue
                    seen, reset = {}, clean[kind]
                    for e in s.eff:
                        t = loc(vn, e.target) if e.kind == 'w' else ''
                        adj = [c for c in e.ctx if c[0] == '\u03bb' and short(c[1]) == 'adjacent_nodes']
                        for l, a, _ in self.updates(vn, [e]):
                            if (self.base(l) in pre if kind == 'connections' else l.startswith(pre[0] + '[')):
                                if not adj: bad[kind + '|other'] = '%s: initialisation adds something else to the %s' % (name, kind); continue
                                k = (tuple(N(x) for c in e.ctx for x in c[1:2]), e.node.get('i'))
                                seen.setdefault(k, 0); seen[k] += 1
                                if not reset: bad[kind + '|reset'] = '%s: initialisation does not start with empty %s' % (name, kind)
                        if e.kind == 'w' and e.op == '=' and str(e.val) in ('0', '{}', 'ZeroInit()') and any(t.startswith(p + '[') or t.startswith('*(' + p) for p in pre):
                            reset = True
                            if kind == 'connections':
                                pf = [c for c in e.ctx if c[0] == '\u03bb' and short(c[1]) == 'parallel_for']
                                if pf and len(pf[-1][3]) >= 2 and str(pf[-1][3][0]) != '0': bad['reset'] = '%s: initialisation does not empty all connections' % name
                                hi = N(pf[-1][3][1]) if pf and len(pf[-1][3]) >= 2 else ''
                                d = vn.linof(str(pf[-1][3][1])) if hi else {}
                                if hi and '' in d and d[''] < 0: bad['reset'] = '%s: initialisation does not empty the last connections' % name
                        if e.kind == 'call' and short(e.target) in ('fill', 'fill_n', 'assign', 'memset', 'clear') and any(p in N(e.op) + N(e.val) for p in pre): reset = True
                    ends[kind].append(reset)
            for k in ends: clean[k] = bool(ends[k]) and all(ends[k])
        for kind, c in found.items():
            if not c: bad[kind] = '%s: initialize() does not compute the %s' % (name, {'connections': 'connections', 'degrees': 'weighted degrees'}[kind])
        for k, m in sorted(bad.items()): self.res.bad('%s|init|%s' % (name, k), where, m)
        if not bad: self.res.ok('%s: initialize() sums up all edges (%d updates)' % (name, n))
    def visits(self, g, deep=True, depth=0, seen=None):
        seen = set() if seen is None else seen
        if g['u'] in seen or depth > 6: return False
        seen.add(g['u'])
        for n in nodes(g):
            if n['k'] == 'MCall' and short(callee(n) or '') == 'adjacent_nodes': return True
            if n['k'] == 'Lambda' and any(self.visits(b, deep, depth + 1, set()) for b in lambda_bodies(self.prog, g, n)): return True
            if deep and n['k'] == 'MCall':
                h = fn_of(self.prog, n)
                if h is not None and h.get('clst') == g.get('clst') or h is not None and 'refinement/gains/' in h['f']:
                    if self.visits(h, deep, depth + 1, seen): return True
        return False
    def block_of(self, outs, base, v):
        """the value p_graph.block(v) as it appears in the effects"""
        for _, s in outs:
            for e in s.eff[base:]:
                if e.kind == 'call' and short(e.target) == 'block' and [str(x) for x in e.val] == [v]: return '%s.block(%s)' % (e.op, v)
        return None

    def entries(self, name, C):
        """different node-block pairs have different entries"""
        vn = Cache(self.prog, None, None).vn()
        f = C['conn'][0]
        for q, l in self.conn(vn, C, '$0', '$1'):
            for a in q:
                b, i = split_idx(a)
                if b is None or '.get(' in a or 'CONN' in a: continue
                i0 = i[1:-1] if i.startswith('(') and i.endswith(')') else i
                terms, d, cur = [], 0, ''
                for ch in i0:
                    if ch in '([{': d += 1
                    if ch in ')]}': d -= 1
                    if ch == '+' and d == 0: terms.append(cur.strip()); cur = ''
                    else: cur += ch
                terms.append(cur.strip())
                rest = [t for t in terms if t != '$1']
                bad = None
                if len(rest) != len(terms) - 1: bad = 'is not moved by the number of the block'
                for t in rest:
                    m = re.fullmatch(r'\((.*) \* (.*)\)', t)
                    if m and '$0' in t and not any(re.fullmatch(r'[\w.]*\._k', x) for x in m.groups()): bad = 'is %s entries wide' % (m.group(2) if '$0' in m.group(1) else m.group(1))
                if not any('$0' in t for t in rest): bad = 'does not depend on the node'
                self.emit('%s|entries' % name, '%s:%s' % (f['f'], f['l']), bad and '%s: the row of a node in the table of connections %s' % (name, bad), '%s: one entry per node and block' % name)

    def clears(self, name, C):
        """clear() of a delta cache empties everything move() writes"""
        if not C.get('clear'): return
        def own(n):
            n = strip(n)
            return n['n'] if n['k'] == 'Mem' and (not n.get('c') or n['c'][0] is None or strip(n['c'][0])['k'] == 'This') else None
        wr = set()
        def scan(g, depth=0):
            for n in nodes(g):
                if n['k'] == 'Lambda':
                    for b in lambda_bodies(self.prog, g, n): scan(b, depth)
                if n['k'] == 'OpCall' and n['op'] == '[]' and own(n['c'][0]) and not (n.get('t') or '').startswith('const') and not n.get('cst'): wr.add((own(n['c'][0]), (strip(n['c'][0]).get('t') or '')))
                if n['k'] == 'MCall' and depth < 4 and fn_of(self.prog, n) is not None and fn_of(self.prog, n).get('clst') == g.get('clst'): scan(fn_of(self.prog, n), depth + 1)
        scan(C['move'][0])
        wr = {w for w, t in wr if not t.startswith('const')}
        f = C['clear'][0]
        for w in sorted(wr):
            def transfer(n, s):
                if n['k'] == 'MCall' and short(callee(n) or '') in ('clear', 'reset', 'erase', 'swap') and n['c'][0] is not None and own(n['c'][0]) == w: return [True]
                if n['k'] == 'OpCall' and n['op'] == '=' and own(n['c'][0]) == w: return [True]
                if n['k'] == 'MCall' and fn_of(self.prog, n) is not None and fn_of(self.prog, n).get('clst') == f['clst']:
                    _, o = forward(fn_of(self.prog, n), s, transfer)
                    return o or [s]
                return [s]
            _, out = forward(f, False, transfer)
            self.emit('%s|clear|%s' % (name, w), '%s:%s' % (f['f'], f['l']), '%s: clear() does not empty %s, which move() fills' % (name, w) if False in out else None, '%s: clear() empties %s' % (name, w))

    def gain(self, name, C):
        for f in C.get('gain', ()):
            where = '%s:%s' % (f['f'], f['l'])
            pair = 'pair' in f['p'][-1]['t']
            vn = Cache(self.prog, None, None).vn()
            ps = vn.paths(f)
            q1 = [self.conn(vn, C, '$0', b) for b in (('$2.first', '$2.second') if pair else ('$2',))]
            q0 = self.conn(vn, C, '$0', '$1')
            bad = None
            n = 0
            for r, s in ps:
                rs = [r] if not pair else None
                if pair:
                    m = re.fullmatch(r'(?:std::pair|.*)?\{(.*)\}', str(r))
                    rs = self.split_args(m.group(1)) if m else []
                    if len(rs) != 2: self.res.skip('%s: gain() of a pair: %s' % (name, N(r)[:60])); continue
                L = {(N(t), x) for t, x in s.lits}
                for i, rr in enumerate(rs):
                    v = self.value(vn, s, rr, '$0')
                    if pair: v = {re.sub(r',\w+\.(first|second)\)$', r',$2.\1)', k): c for k, c in v.items()}
                    for a, la in q1[i]:
                        for b, lb in q0:
                            if not (compatible(la, L) and compatible(lb, L) and compatible(la, lb)): continue
                            n += 1
                            if v != self.diff(a, b) and os.environ.get('DBG'): print('DBG', name, v, a, b, [x for x in la|lb|L])
                            if v != self.diff(a, b): bad = '%s: gain() is %s instead of the connection to the target minus the connection to the current block' % (name, self.show(v))
            if n: self.emit('%s|gain%s' % (name, '|pair' if pair else ''), where, bad, '%s: gain() is the difference of two connections%s' % (name, ' (pair)' if pair else ''))
            else: self.res.skip('%s: gain()' % name)
    def show(self, v): return ' '.join('%s%s' % ('+' if c == 1 else '-' if c == -1 else '%+d*' % c, a) for a, c in sorted(v.items()))[:200] or '0'
    def split_args(self, t):
        out, d, cur = [], 0, ''
        for ch in t:
            if ch in '([{': d += 1
            if ch in ')]}': d -= 1
            if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
            else: cur += ch
        return out + [cur.strip()]

    def border(self, name, C):
        wd = None
        for f in C.get('is_border_node', ()):
            where = '%s:%s' % (f['f'], f['l'])
            vn = Cache(self.prog, None, None).vn()
            bad = None; n = 0
            for r, s in vn.paths(f):
                r = str(r)
                m = re.fullmatch(r'φ\d+:([\w.]+)', r)
                if m:
                    ws = [e for e in s.eff if e.kind == 'w' and N(e.target) == m.group(1) and e.ctx]
                    n += 1
                    for e in ws:
                        l = [t for t, v in e.lits if not v and 'block(λ0)' in t and '$1' in t]
                        if e.val != 'true' or not l: bad = '%s: is_border_node() decides %s under another condition than a neighbour in another block' % (name, e.val)
                    if not ws: bad = '%s: is_border_node() never becomes true' % name
                    continue
                m = re.fullmatch(r'(!?)\((.*) == (.*)\)', r)
                if not m: self.res.skip('%s: is_border_node(): %s' % (name, N(r)[:60])); continue
                if m.group(1) != '!': bad = '%s: is_border_node() holds if all neighbours are in the same block' % name
                L = {(N(t), x) for t, x in s.lits}
                for q, l in self.conn(vn, C, '$0', '$1'):
                    if not compatible(l, L): continue
                    n += 1
                    t = [N(loc(vn, zero(x))) for x in (m.group(2), m.group(3))]
                    q0 = list(q)[0] if len(q) == 1 else '0'
                    if q0 not in t: bad = '%s: is_border_node() does not compare with the connection to the block of the node' % name
                    else:
                        o = t[1 - t.index(q0)]
                        m3 = re.search(r'this\.[\w.]+\[\$0\]', o)
                        if not m3 or o == q0: bad = '%s: is_border_node() compares with %s' % (name, o[:80])
                        else: wd = m3.group(0)[:-4]
            if n: self.emit('%s|border' % name, where, bad, '%s: is_border_node() compares the weighted degree with the connection to the own block' % name)
        return wd

    def gains(self, name, C):
        for f in C.get('gains', ()):
            where = '%s:%s' % (f['f'], f['l'])
            vn = Cache(self.prog, None, None).vn()
            ps = vn.paths(f)
            n = 0
            bad = {}
            q0 = self.conn(vn, C, '$0', '$1')
            cache = {}
            exact = not any(n['cv'] == '0' for n in nodes(f) if n.get('n') == 'kIteratesExactGains' and 'cv' in n)
            for r, s in ps:
                for i, e in enumerate(s.eff):
                    o = e.op if e.kind == 'call' and short(e.target) == 'set' and '.local()' in str(e.op) else None
                    if e.kind == 'w' and e.op == '+=' and e.ctx and e.ctx[-1][0] == 'λ' and short(e.ctx[-1][1]) == 'adjacent_nodes' and split_idx(e.target)[0] and 'λ' in split_idx(e.target)[1] and not split_idx(e.target)[0].startswith('this'): o = split_idx(e.target)[0]
                    if o is not None and not any(x.kind == 'call' and short(x.target) == 'clear' and str(x.op) == str(o) for x in s.eff[i:]): bad['left'] = '%s: gains() leaves entries behind in %s, the next query finds them' % (name, N(o)[:60])
                cs = [e for e in s.eff if e.kind == 'call' and str(e.op) == '$2' and len(e.val) == 2]
                PL = {(N(t), x) for t, x in s.lits}
                if not cs:
                    if any(compatible(l, PL) and q and not all(a.startswith('SUM') for a in q) for q, l in q0) and not any(x == 'ZeroInit' for x in ()):
                        if not self.empty_ok(PL): bad['none'] = '%s: gains() offers no block on a path' % name
                    continue
                for e in cs:
                    to = N(e.val[0])
                    if not isinstance(e.val[1], LamV) or not getattr(e.val[1], 'results', None): self.res.skip('%s: gains() hands over %s' % (name, e.val[1])); continue
                    # λ names of nested iterations stay distinct; conn() is evaluated with the block text
                    if to not in cache: cache[to] = self.conn(vn, C, '$0', str(e.val[0]))
                    EL = {(N(t), x) for t, x in e.lits}
                    for rv, rl in e.val[1].results:
                        RL = EL | {(N(t), x) for t, x in rl}
                        v = self.tables(s, self.value(vn, s, rv, '$0'), e)
                        v = self.ratings(vn, s, v, to)
                        okany, any_ = False, False
                        for a, la in cache[to]:
                            if not compatible(la, RL): continue
                            for b, lb in q0:
                                if not compatible(lb, RL) or not compatible(la, lb): continue
                                any_ = True
                                if v == (self.diff(a, b) if exact else a): okany = True
                                else: bad['value'] = '%s: gains() hands over %s instead of the connection to the target%s' % (name, self.show(v), ' minus the connection to the current block' if exact else '')
                        n += any_
                    # coverage
                    if not any(not x and {'$1', to} == set(self.eqs(t)) for t, x in EL): bad['own'] = '%s: gains() also offers the current block' % name
                    for t, x in EL:
                        if to not in t or to in ('0',): continue
                        if {'$1', to} == set(self.eqs(t)): continue
                        if t.startswith('(nullptr == ') or '.end()' in t: continue
                        m = re.fullmatch(r'\[(.*) > 0\]', t)
                        raw = [y for y, _ in list(e.lits) if N(y) == t]
                        if m and x:
                            g1 = re.fullmatch(r'\[(.*) > 0\]', raw[0]).group(1)
                            d = vn.linof(g1)
                            d = {N(a): c for a, c in d.items()}
                            if loc(vn, m.group(1)) in {a for q, l in cache[to] for a in q}: continue
                            if d.get(to) == -1 and '' not in d and len(d) == 2 and all(c in (1, -1) for c in d.values()): continue
                        bad['all'] = '%s: gains() skips blocks depending on %s' % (name, t[:100])
                    for c in e.ctx:
                        if c[0] == 'loop' and len(c) > 2 and any(v != '0' for k, v in c[2]): bad['start'] = '%s: gains() does not start with the first block' % name
            for k, m in sorted(bad.items()): self.res.bad('%s|gains|%s' % (name, k), where, m)
            if not bad:
                if n: self.res.ok('%s: gains() offers every block but the current one with its gain' % name)
                else: self.res.skip('%s: gains()' % name)
    def eqs(self, t):
        m = re.fullmatch(r'\((.*) == (.*)\)', t)
        return m.groups() if m else ()
    def empty_ok(self, L): return False
    def ratings(self, vn, s, v, to):
        """entries of a rating map that sums up the weights of the edges by block"""
        acc = {}
        for e in s.eff:
            if e.kind == 'w' and e.op == '+=' and e.ctx and e.ctx[-1][0] == 'λ' and short(e.ctx[-1][1]) == 'adjacent_nodes' and re.fullmatch(r'λ1′*', e.val):
                b, i = split_idx(e.target)
                m = re.fullmatch(r'(.*)\.block\(λ0′*\)', str(i))
                if m: acc[N(b)] = (N(m.group(1)), e.ctx[-1][3][0])
        out = {}
        for a, c in v.items():
            b, i = split_idx(a)
            m = re.fullmatch(r'each\((.*)\.entries\(\)\)\.1', a)
            if b in acc: a = 'CONN(%s,%s,%s)' % (acc[b][0], acc[b][1], i)
            elif m and m.group(1) in acc: a = 'CONN(%s,%s,%s)' % (*acc[m.group(1)], to)
            out[a] = out.get(a, 0) + c
        return {a: c for a, c in out.items() if c}

# ---------------------------------------------------------------- clients
class Clients:
    """every change of an assignment is followed (or preceded) by the same move of the gain cache that tracks it"""
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.sum = {}
    def kind(self, n):
        """('S' set | 'T' conditional set | 'M' cache move | 'I' initialise | 'C' clear of a delta | 'D' clear of a delta cache, delta?)"""
        if n['k'] != 'MCall': return None
        q = callee(n) or ''
        c, m = q.rsplit('::', 2)[-2:] if q.count('::') >= 2 else ('', '')
        if c == 'GenericPartitionedGraph' and m == 'set_block': return 'S', False
        if c == 'GenericPartitionedGraph' and m == 'move': return 'T', False
        if c == 'DeltaPartitionedGraph' and m == 'set_block': return 'S', True
        if c == 'DeltaPartitionedGraph' and m == 'clear': return 'C', True
        if c.endswith('GainCache'):
            d = c.endswith('DeltaGainCache')
            if m == 'move': return 'M', d
            if m == 'initialize': return 'I', d
            if m == 'clear' and d: return 'D', True
        return None
    def renames(self, fn):
        d = fn.get('_ren')
        if d is not None: return d
        d = fn['_ren'] = {}
        w = {text(a) for a in (assigned(n) for n in nodes(fn)) if a is not None}
        for n in nodes(fn):
            if n['k'] == 'Var' and n.get('c') and len(n['c']) == 1 and n['c'][0] is not None and n['n'] not in w:
                e = strip(n['c'][0])
                if e['k'] in ('DRef', 'Mem', 'Sub') or e['k'] == 'OpCall' and e['op'] == '[]': d[n['d']] = text(e, d)
        return d
    def run(self, fn, stack=()):
        """pending changes at the exits: set of frozensets of (kind, delta, node, block)"""
        u = fn['u'], fn.get('lambda') and fn['l'], fn['unit'] if fn.get('lambda') else ''
        if u in self.sum: return self.sum[u]
        if u in stack or not fn.get('cfg'): return {frozenset()}
        ren = self.renames(fn)
        T = lambda n: text(n, ren)
        params = [p['n'] for p in fn['p']]
        decl = {n['d']: n for n in nodes(fn) if n['k'] == 'Var'}
        st = stable_pred(fn)
        where = '%s:%s' % (fn['f'], fn['l'])
        def kill(s, name):
            return frozenset(x for x in s if x[0] == 'B' and x[1] != name or x[0] != 'B' and not any(re.search(r'\b%s\b' % re.escape(name), y or '') for y in x[2:4]))
        def add(s, kind, d, a, b):
            other = {'S': 'M', 'M': 'S', 'C': 'D', 'D': 'C'}[kind]
            if (other, d, a, b) in s: return s - {(other, d, a, b)}
            return s | {(kind, d, a, b)}
        def transfer(n, s):
            if n['k'] == 'Decl' or n['k'] == 'Var':
                for v in ([n] if n['k'] == 'Var' else [x for x in n.get('c') or () if x and x['k'] == 'Var']):
                    s = kill(s, v['n'])
                    e = strip(v['c'][0]) if v.get('c') and v['c'][0] is not None else None
                    if e is not None and e['k'] == 'MCall' and short(callee(e)) == 'block' and args(e):
                        s = s | {('B', v['n'], ('X', T(args(e)[0])) in {(x[0], x[2]) for x in s})}
                return [s]
            if n['k'] == 'Lambda':
                outs = [s]
                for b in lambda_bodies(self.prog, fn, n):
                    r = self.run(b, stack + (u,))
                    outs = [o2 for o in outs for o2 in ({o} | {frozenset(o | {(x[0], x[1], '*', '*') for x in rr}) for rr in r})] if r != {frozenset()} else outs
                return outs
            k = self.kind(n)
            if k is None:
                if n['k'] in ('Call', 'MCall'):
                    g = fn_of(self.prog, n)
                    self.pairing(fn, n)
                    if g is not None and g['f'] == fn['f'] and g is not fn and self.local(g):
                        r = self.run(g, stack + (u,))
                        sub = dict(zip([p['n'] for p in g['p']], [T(a) for a in args(n)]))
                        outs = set()
                        for rr in r:
                            o = s
                            for x in sorted(rr, key=str):
                                if x[0] in ('S', 'M', 'C', 'D'): o = add(o, x[0], x[1], sub.get(x[2], x[2]), sub.get(x[3], x[3]))
                            outs.add(o)
                        return outs
                return [s]
            kd, d = k
            pend = {x[0] for x in s}
            if d and ({'C', 'D'} & pend) and (kd in 'SM' or kd in pend): self.report('%s|clear' % short(fn['q']), '%s:%s' % (fn['f'], n.get('l')), '%s() clears the changes of %s' % (short(fn['q']), 'the partition but not those of the gain cache' if 'C' in pend else 'the gain cache but not those of the partition'))
            A = args(n)
            if kd == 'S':
                a, b = T(A[0]), T(A[1])
                return [add(s, 'S', d, a, b) | {('X', d, a, '')}]
            if kd == 'M':
                a, f, b = (T(x) for x in A[:3])
                late = self.late(fn, A[1], s, a)
                key = '%s|from' % fn['q'].rsplit('::', 1)[-1]
                if late: self.report(key, '%s:%s' % (fn['f'], n.get('l')), 'the gain cache is told to move %s from a block that is read after the move' % a)
                if f == b: self.report(key, '%s:%s' % (fn['f'], n.get('l')), 'the gain cache is told to move %s to its own block' % a)
                return [add(s, 'M', d, a, b)]
            if kd == 'I': return [frozenset(x for x in s if not (x[0] in 'SM' and x[1] == d))]
            if kd in 'CD':
                s = frozenset(x for x in s if not (x[0] in 'SMX' and x[1]))
                return [add(s, kd, True, '', '')]
            return [s]
        def edge(blk, i, s):
            if len(blk['s']) != 2 or 'tc' not in blk: return s
            idx, _ = index(fn)
            n = idx.get(blk['tc'])
            pos = i == 0
            n = strip(n) if n else None
            while n is not None:
                if n['k'] == 'Un' and n['op'] == '!': pos = not pos; n = strip(n['c'][0])
                elif n['k'] == 'DRef' and n.get('d') in decl and decl[n['d']].get('c') and n['n'] not in {text(a) for a in (assigned(x) for x in nodes(fn)) if a is not None}: n = strip(decl[n['d']]['c'][0])
                else: break
            if n is None: return s
            k = self.kind(n)
            if k and k[0] == 'T':
                a, b = T(args(n)[0]), T(args(n)[2])
                if pos and not any(x[0] == 'X' and x[2] == a for x in s): return add(s, 'S', k[1], a, b) | {('X', k[1], a, '')}
                return s
            # no cache to inform
            e = n
            if n['k'] in ('Bin', 'OpCall') and n.get('op') in ('==', '!=') and len(n['c']) == 2 and 'nullptr' in (T(n['c'][0]), T(n['c'][1])):
                e = [x for x in n['c'] if T(x) != 'nullptr']
                e = strip(e[0]) if e else n
                if n['op'] == '==': pos = not pos
            if not pos and 'GainCache<' in (e.get('t') or '') and e.get('t', '').endswith(('*', '*const')): return frozenset(x for x in s if x[0] != 'S' or x[1])
            return s
        try: _, out = forward(fn, frozenset(), transfer, edge, limit=300)
        except AnalysisBroken: self.res.skip('%s: no fixpoint' % fn['q']); out = {frozenset()}
        r = {frozenset(x for x in s if x[0] in ('S', 'M', 'C', 'D')) for s in out} or {frozenset()}
        self.sum[u] = r
        return r
    def late(self, fn, e, s, node):
        e = strip(e)
        if e['k'] == 'MCall' and short(callee(e)) == 'block': return any(x[0] == 'X' and x[2] == node for x in s)
        return e['k'] == 'DRef' and ('B', e['n'], True) in s
    def report(self, key, where, msg):
        self.res.bad('clients|' + key, where, msg)
    def local(self, g):
        return any(self.kind(n) for n in nodes(g)) or True
    def pairing(self, fn, n):
        """a graph and a gain cache that are handed over together belong together"""
        ts = [(a.get('t') or '') for a in args(n) if a is not None]
        g = {('DeltaPartitionedGraph' in t.split('<')[0]) for t in ts if re.match(r'(const )?kaminpar::shm::(Delta|Generic)PartitionedGraph', t)}
        c = {t.split('<')[0].endswith('DeltaGainCache') for t in ts if re.match(r'(const )?kaminpar::shm::\w*GainCache<', t)}
        if len(g) != 1 or len(c) != 1: return
        if g != c: self.report('%s|pair' % short(callee(n) or ''), '%s:%s' % (fn['f'], n.get('l')), '%s is handed a partition and a gain cache that do not belong together' % short(callee(n) or ''))
        else: self.res.ok('%s: partition and gain cache belong together' % short(callee(n) or ''))
    def main(self):
        files = {f['f'] for f in self.prog.fns.values() if not f['f'].count('refinement/gains/') and 'refinement/' in f['f'] and any((self.kind(n) or ' ')[0] in 'MI' for n in nodes(f))}
        called = {}
        fns = [f for f in list(self.prog.fns.values()) if f['f'] in files and not f.get('dep')]
        for f in fns:
            for n in nodes(f):
                if n['k'] in ('Call', 'MCall') and n.get('u'): called.setdefault(n['u'], set()).add(f['u'])
        for f in fns:
            if f.get('lambda'): continue
            r = self.run(f)
            left = {x for s in r for x in s}
            own = any(self.kind(n) for n in nodes(f)) or any(self.kind(n) for l in nodes(f) if l['k'] == 'Lambda' for b in lambda_bodies(self.prog, f, l) for n in nodes(b))
            if not own and not left: continue
            both = any({'S', 'M'} <= {x[0] for x in s if x[1] == d} for s in r for d in (False, True))
            if left and called.get(f['u']) and not both: continue     # judged at the callers
            w = '%s:%s' % (f['f'], f['l'])
            if left:
                for x in sorted(left, key=str):
                    what = {'S': 'changes the block of a node (%s to %s) without telling the gain cache the same move', 'M': 'moves a node (%s to %s) in the gain cache without changing its block', 'C': 'clears the changes of the partition but not those of the gain cache%s%s', 'D': 'clears the changes of the gain cache but not those of the partition%s%s'}[x[0]] % (x[2], x[3])
                    self.report('%s|%s' % (short(f['q']), x[0]), w, '%s() %s' % (short(f['q']), what))
            else: self.res.ok('%s: every change of the assignment reaches the gain cache' % f['q'])

def run(tier):
    res = Result()
    prog = load(units(), allow_errors=('.cc',))
    r = Rule(prog, res)
    for cls, C in r.classes().items():
        name = re.sub(r'kaminpar::shm::|kaminpar::', '', cls)
        try:
            own = r.move(name, C)
            r.gain(name, C)
            wd = r.border(name, C)
            r.gains(name, C)
            if own: r.init(name, C, own, wd)
            r.clears(name, C)
            r.entries(name, C)
        except TooComplex: res.skip(name + ': too complex')
    Clients(prog, res).main()
    import gainstore
    gainstore.Store(prog, res).main()
    return res
