"""Block and cluster weights follow the assignment.

structures: on every path of set_block / move / move_block_weight the recorded weights change by exactly the weight of
the node, from its old to its new block, and not at all if the move is rejected; the initial weights sum up every node.
clients: a node enters another cluster only after its weight was moved there; wherever a reassignment is accompanied by
changes of per-block weights, what is added to one block is taken from another.
"""
from kit import *
from vn import *

def units():
    return all_units('kaminpar-shm', 'kaminpar-dist')

N = lambda s: re.sub(r'φ\d+', 'φ', re.sub(r'#[\d.]+', '', str(s)))

def split_idx(path):
    """'a.b[i]' -> ('a.b', 'i')"""
    if not path.endswith(']'): return None, None
    d = 0
    for i in range(len(path) - 1, -1, -1):
        if path[i] == ']': d += 1
        elif path[i] == '[':
            d -= 1
            if d == 0: return path[:i], path[i + 1:-1]
    return None, None

def compatible(a, b):
    return not any((t, not v) in b for t, v in a)

def writes(vn, s):
    """compound and plain writes to array elements, with set_block_weight(b, block_weight(b) + x) as one of them"""
    out = []
    for e in s.eff:
        if e.kind == 'w':
            base, i = split_idx(e.target)
            if base is not None: out.append((e, base, i, e.op, e.val))
            elif e.target == 'λ0' and e.ctx and e.ctx[-1][0] == 'λ' and short(e.ctx[-1][1]) in ('update', 'insert_or_update') and len(e.ctx[-1][3]) >= 3:
                # growt tables: the keys are shifted by one
                key, amount = e.ctx[-1][3][0], e.ctx[-1][3][-1]
                out.append((e, e.ctx[-1][2] + '.table', vn.add(key, '-1'), e.op, amount if e.val == 'λ1' else e.val))
        elif e.kind == 'cas':
            base, i = split_idx(e.target)
            if base is not None: out.append((e, base, i, '+=', vn.add(e.val, e.op, -1)))
        elif e.kind == 'call' and short(e.target) == 'set_block_weight' and len(e.val) == 2:
            b, v = map(str, e.val)
            lin = dict(vn.linof(v))
            k = [a for a in lin if a.endswith('.block_weight(%s)' % b) and lin[a] == 1]
            if k:
                del lin[k[0]]
                out.append((e, str(e.op) + '.block_weight()', b, '+=', vn.mklin(lin)))
        elif e.kind == 'call' and short(e.target) in ('increase_block_weight', 'decrease_block_weight') and len(e.val) == 2:
            out.append((e, str(e.op) + '.block_weight()', str(e.val[0]), '+=' if 'inc' in e.target else '-=', str(e.val[1])))
    return out

def net(vn, ws):
    t = '0'
    for _, base, i, op, v in ws:
        if op == '+=': t = vn.add(t, v)
        elif op == '-=': t = vn.add(t, v, -1)
    return t

def structures(prog, res, handled):
    classes = {}
    for f in prog.fns.values():
        if f.get('cls') and not f.get('dep') and not f.get('lambda') and f['n'] in ('set_block', 'block', 'block_weight', 'move', 'move_block_weight', 'init_block_weights_par', 'init_block_weights_seq', 'init_block_weights', 'clear'):
            classes.setdefault(f['clst'], {}).setdefault(f['n'], []).append(f)
    n = 0
    for cls, ms in sorted(classes.items()):
        if not all(k in ms for k in ('set_block', 'block', 'block_weight')): continue
        n += 1; handled.add(cls)
        sc = short(ms['block'][0]['cls'])
        P = lambda f, **kw: VN(prog, inline=lambda g, d: bool(g.get('cls')) and g['clst'] == f['clst'] or 'DynamicMapBase' in (g.get('cls') or '') or 'DynamicFlatMap' in (g.get('cls') or ''), **kw)
        try:
            vn = P(ms['block'][0]); bps = vn.paths(ms['block'][0]); olds = {N(r) for r, s in bps}
            vnb = P(ms['block_weight'][0]); bw = vnb.paths(ms['block_weight'][0])
        except TooComplex:
            res.skip(cls + ': block() or block_weight() too complex'); continue
        wterms = set()
        for r, s in bw:
            for a in vnb.linof(str(r)):
                b, i = split_idx(a)
                if b is not None and i == '$0': wterms.add(b)
        if not wterms:
            res.skip(cls + ': weights not found'); continue
        for f in ms['set_block']:
            upd = (f.get('ta') or ['true'])[0] == 'true'
            vn = P(f)
            try: ps = vn.paths(f)
            except TooComplex: res.skip('%s::set_block too complex' % sc); continue
            for r, s in ps:
                k = '%s::set_block|%s' % (sc, 'weights' if upd else 'no weights')
                where = '%s:%s' % (f['f'], f['l'])
                ws = [w for w in writes(vn, s) if w[1] in wterms]
                # the block read afterwards is the new one
                pw = [e for e in s.eff if e.kind == 'w' and split_idx(e.target)[1] == '$0' and split_idx(e.target)[0] not in wterms]
                if not pw or pw[-1].op != '=' or pw[-1].val != '$1':
                    res.bad(k + '|assignment', where, '%s::set_block does not store the new block of the node' % sc); continue
                if not upd:
                    if ws: res.bad(k + '|weights', where, '%s::set_block<false> changes block weights' % sc)
                    else: res.ok('%s: set_block<false> leaves the weights alone' % sc)
                    continue
                here = {N(x) for x, t in bps if compatible({(N(a), b) for a, b in t.lits}, {(N(a), b) for a, b in s.lits})}
                d = {}
                for e, base, i, op, v in ws:
                    d[N(i)] = vn.add(d.get(N(i), '0'), v, 1 if op == '+=' else -1) if op in ('+=', '-=') else '?'
                new = d.pop('$1', None)
                inv = any('kInvalidBlockID' in t and b and any(o in N(t) for o in olds) for t, b in s.lits)
                nw = lambda t: bool(re.fullmatch(r'[\w.*]*\bnode_weight\(\$0\)', t or ''))
                if not nw(new):
                    res.bad(k + '|new', where, '%s::set_block adds %s to the new block instead of the weight of the node' % (sc, new)); continue
                if inv:
                    if d: res.bad(k + '|unassigned', where, '%s::set_block takes weight from %s although the node was unassigned' % (sc, sorted(d)))
                    else: res.ok('%s: assigning an unassigned node adds its weight to the new block' % sc)
                elif len(d) != 1 or set(d) != here or list(d.values())[0] != vn.add('0', new, -1):
                    res.bad(k + '|old', where, '%s::set_block does not take the weight of the node from the block it was in before (changes: %s)' % (sc, d))
                else:
                    res.ok('%s: set_block moves the weight of the node from its old to its new block' % sc)
        for nm, pos in (('move_block_weight', (0, 1, 2, 3)), ('move', (1, 2, None, 3))):
            for f in ms.get(nm, ()):
                transfer(prog, res, f, P(f), pos, sc, wterms, node=nm == 'move')
        for nm in ('init_block_weights_par', 'init_block_weights_seq', 'init_block_weights'):
            for f in ms.get(nm, ()):
                vn = VN(prog, inline=lambda g, d: bool(g.get('cls')) and (g['clst'] == f['clst'] or short(g['cls']) == 'GraphDelegate') and g['n'] in ('block', 'k', 'pfor_nodes', 'pfor_blocks'))
                where = '%s:%s' % (f['f'], f['l'])
                try: ps = vn.paths(f)
                except TooComplex: res.skip(nm + ' too complex'); continue
                for r, s in ps:
                    acc = []
                    for e in s.eff:
                        if e.kind == 'w' and e.op == '+=' and 'node_weight(' in e.val: acc.append((e, e.val))
                        elif e.kind == 'w' and e.op == '=' and 'node_weight(' in str(e.val) and vn.linof(str(e.val)).get(e.target) == 1: acc.append((e, vn.add(str(e.val), e.target, -1)))
                    if len({e.target for e, _ in acc}) != 1:
                        res.bad('%s::%s|sum' % (sc, nm), where, '%s: the weight of every node is added to %d places' % (nm, len(acc))); continue
                    e, amount = acc[0]
                    m = re.fullmatch(r'[\w.]*\bnode_weight\((.*)\)', amount)
                    if not m: res.bad('%s::%s|sum' % (sc, nm), where, '%s: %s is added for every node' % (nm, N(amount))); continue
                    _, i = split_idx(e.target)
                    u = m.group(1)
                    if not i or not (i.endswith('_partition[%s]' % u) or i.endswith('block(%s)' % u)):
                        res.bad('%s::%s|block' % (sc, nm), where, '%s adds the weight of %s to block %s' % (nm, u, i)); continue
                    guarded = any('kInvalidBlockID' in t and i in t and not b for t, b in e.lits)
                    if sc.startswith('Generic') and not guarded:
                        res.bad('%s::%s|unassigned' % (sc, nm), where, '%s adds the weight of nodes that belong to no block' % nm); continue
                    # (comparisons of the node itself are loop bounds)
                    extra = [t for t, b in e.lits if 'kInvalidBlockID' not in t and '.end()' not in t and u in t
                             and not (t.startswith('[') and abs(vn.linof(t[1:-5]).get(u, 0)) == 1 and sum(u in a for a in vn.linof(t[1:-5])) == 1)]
                    if extra:
                        res.bad('%s::%s|all' % (sc, nm), where, '%s counts nodes only if %s' % (nm, extra[0])); continue
                    res.ok('%s: %s adds every node to its block' % (sc, nm))
        for f in ms.get('clear', ()):
            vn = P(f)
            t = ' '.join('%s %s %s' % (e.target, e.op, e.val) for r, s in vn.paths(f) for e in s.eff)
            for w in sorted(wterms):
                if w.startswith('this._p_graph') or 'p_graph' in w: continue
                if w not in t: res.bad('%s::clear|%s' % (sc, w), '%s:%s' % (f['f'], f['l']), '%s::clear keeps the weights of the discarded moves' % sc)
                else: res.ok('%s: clear resets the weights' % sc)
    return n

def transfer(prog, res, f, vn, pos, sc, wterms, node=False, limited=True):
    """a function that moves weight from one cluster to another if it fits, and says whether it did"""
    where = '%s:%s' % (f['f'], f['l'])
    k = '%s::%s' % (sc, f['n'])
    try: ps = vn.paths(f)
    except TooComplex: res.skip(k + ' too complex'); return
    old, new = '$%d' % pos[0], '$%d' % pos[1]
    mx = '$%d' % pos[3]
    for r, s in ps:
        ws = [w for w in writes(vn, s) if wterms is None or w[1] in wterms]
        if wterms is None:
            ws = [(e, base, m[0], op, v) for e, base, i, op, v in ws for m in [re.findall(r'\$\d', i)] if len(set(m)) == 1 and m[0] in (old, new)]
        d = {}
        for e, base, i, op, v in ws:
            if op not in ('+=', '-='): continue
            d[i] = vn.add(d.get(i, '0'), v, 1 if op == '+=' else -1)
        d = {a: b for a, b in d.items() if b != '0'}
        r = str(r)
        if r == 'false':
            if d: res.bad(k + '|rejected', where, '%s: a rejected move changes weights (%s)' % (k, d))
            elif node and any(e.kind == 'w' and split_idx(e.target)[1] == '$0' for e in s.eff): res.bad(k + '|rejected', where, '%s: a rejected move reassigns the node' % k)
            else: res.ok('%s: a rejected move changes nothing' % k)
            continue
        if r != 'true':
            res.skip('%s: result %s' % (k, r[:60])); continue
        add = d.get(new)
        want = '$%d' % pos[2] if pos[2] is not None else None
        if add is None or d.get(old) != vn.add('0', add, -1) or len(d) != 2 or (want and add != want) or (want is None and not re.search(r'node_weight\(\$0\)$', add)):
            if old == new or not ws: pass
            res.bad(k + '|moved', where, '%s: an accepted move changes the weights by %s' % (k, {N(a): N(b) for a, b in d.items()})); continue
        if node and not any(e.kind == 'w' and split_idx(e.target)[1] == '$0' and e.op == '=' and e.val == new for e in s.eff):
            res.bad(k + '|assignment', where, '%s: an accepted move does not store the new block' % k); continue
        if limited:
            ok = False
            for e, base, i, op, v in ws:
                if i != new: continue
                for t, b in e.lits | s.lits:
                    m = re.fullmatch(r'\[(.*) > 0\]', t)
                    if not m or b: continue
                    lin = dict(vn.linof(m.group(1)))
                    # current + delta - max > 0 is false
                    for a, c in vn.linof(add).items(): lin[a] = lin.get(a, 0) - c
                    lin[mx] = lin.get(mx, 0) + 1
                    lin = {a: c for a, c in lin.items() if c}
                    cur = [a for a, c in lin.items() if c == 1]
                    if len(lin) == 1 and cur and (e.kind != 'cas' or cur[0] == str(e.op)): ok = True
            if not ok:
                res.bad(k + '|limit', where, '%s: a move is accepted without the new weight having been compared with the limit' % k); continue
        res.ok('%s: an accepted move shifts the weight and respects the limit' % k)

MOVE = ('derived_move_node',)
SHIFT = ('derived_move_cluster_weight',)

def deep_calls(prog, f, names, seen=None):
    for n in nodes(f):
        if n['k'] in CALLS and short(callee(n)) in names: return True
        if n['k'] == 'Lambda':
            for b in lambda_bodies(prog, f, n)[:1]:
                if deep_calls(prog, b, names): return True
    return False

def plain_partitions(prog, res, handled):
    """classes that keep a partition and block weights side by side"""
    n = 0
    rec = {r['q']: r for r in prog.recs.values()}
    def has(q, seen=()):
        r = rec.get(q)
        if r is None or q in seen: return set()
        out = {x['n'] for x in r.get('fields', ())}
        for b in r.get('bases', ()): out |= has(b if isinstance(b, str) else b.get('q', ''), seen + (q,))
        return out
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if not f.get('cls') or f.get('dep') or f.get('lambda') or f.get('clst') in handled: continue
        if not {'_partition', '_block_weights'} <= has(f['cls']): continue
        vn = VN(prog, inline=lambda g, d: bool(g.get('cls')) and g['n'] in ('other_block',))
        try: ps = vn.paths(f)
        except TooComplex: res.skip('%s: too complex' % f['q']); continue
        for r, s in ps:
            for e in s.eff:
                base, u = split_idx(e.target) if e.kind == 'w' else (None, None)
                if base != 'this._partition' or e.op != '=' or 'kInvalidBlockID' in str(e.val): continue
                n += 1
                where = '%s:%s' % (e.fn['f'], e.node.get('l'))
                ok = [x for x in s.eff if x.kind == 'w' and x.target == 'this._block_weights[%s]' % e.val and x.op == '+=' and re.search(r'node_weight\(%s\)$' % re.escape(u), x.val) and x.lits == e.lits]
                if ok: res.ok('%s: the weight of the block follows the assignment' % f['q'])
                else: res.bad('%s|partition' % f['q'], where, '%s: node %s is put into block %s whose weight does not grow by the weight of the node' % (f['q'], N(u), N(e.val)))
    return n

def clusterings(prog, res):
    cand = {}
    for f in prog.fns.values():
        if f.get('dep') or f.get('lambda') or not deep_calls(prog, f, MOVE): continue
        cand[f['u']] = f
    called = set()
    for f in prog.fns.values():
        if f.get('dep'): continue
        for n in nodes(f):
            if n['k'] in CALLS and n.get('u') in cand: called.add(n['u'])
    callers = {f['u']: f for f in prog.fns.values() if not f.get('dep') and not f.get('lambda') and f['u'] not in cand
               and any(n['k'] in CALLS and n.get('u') in cand for g in fns_deep(prog, f) for n in nodes(g))}
    n = 0
    seen = set()
    for f in sorted(list(cand.values()) + list(callers.values()), key=lambda f: (f['f'], f['l'], f['u'])):
        ta = f.get('clst', '') + str(f.get('ta'))
        vn = VN(prog, inline=lambda g, d: g['u'] in cand)
        try: ps = vn.paths(f)
        except TooComplex: res.skip('%s: too complex' % f['q']); continue
        for r, s in ps:
            for j, e in enumerate(s.eff):
                if e.kind != 'call' or short(e.target) not in MOVE: continue
                u, c = N(e.val[0]), N(e.val[1])
                where = '%s:%s' % (e.fn['f'], e.node.get('l'))
                key = '%s|%s' % (e.fn['q'], 'moves')
                if 'derived_cluster(%s)' % u in c:
                    if (where, 'r') not in seen: seen.add((where, 'r')); res.ok('%s: renames the cluster of the node' % f['q'])
                    continue
                prev = [x for x in s.eff[:j] if x.kind == 'call' and short(x.target) in SHIFT and N(x.val[1]) == c and compatible(x.lits, e.lits)]
                if not prev:
                    res.bad(key + '|without weight', where, '%s: node %s enters cluster %s but no weight is moved there before' % (f['q'], u, c)); continue
                x = prev[-1]
                txt = '%s.%s(%s)' % (x.op, short(x.target), ', '.join(map(str, x.val)))
                truth = [b for t, b in e.lits if t == txt]
                if not (truth and truth[0]) and not (not truth and uses_assert(prog, x.fn, x)):
                    res.bad(key + '|rejected', where, '%s: node %s enters cluster %s although moving its weight may have been rejected' % (f['q'], u, c)); continue
                old, w = N(x.val[0]), N(x.val[2])
                if 'max_cluster_weight(%s)' % c not in N(x.val[3]):
                    res.bad(key + '|limit', where, '%s: the limit used for cluster %s is %s' % (f['q'], c, N(x.val[3]))); continue
                if f['u'] in called and (re.match(r'\$\d', old) or re.match(r'\$\d', w)): continue
                okold = 'cluster(%s)' % u in old or old == u and any(N(t) in ('(%s == this.derived_cluster(%s))' % (u, u), '(this.derived_cluster(%s) == %s)' % (u, u)) for t, b in e.lits if b) or re.match(r'\$\d', old)
                okw = w.endswith('node_weight(%s)' % u) or 'cluster_weight(%s)' % old in w or re.match(r'\$\d', w)
                if not okold: res.bad(key + '|old', where, '%s: the weight of node %s is taken from %s, not from its cluster' % (f['q'], u, old))
                elif not okw: res.bad(key + '|amount', where, '%s: the weight moved with node %s is %s' % (f['q'], u, w))
                else:
                    n += 1
                    if (where, txt) not in seen: seen.add((where, txt)); res.ok('%s: the weight of the node moves with it' % f['q'])
    # implementations
    done = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f['n'] == 'move_cluster_weight' and not f.get('dep') and f['u'] not in done:
            done.add(f['u'])
            if any(f2['u'] != f['u'] and f2['f'] == f['f'] and f2['l'] == f['l'] and f2['u'] in done for f2 in ()): continue
            ps = f.get('p')
            calls = [x for x in nodes(f) if x['k'] in CALLS and short(callee(x)) == 'move_block_weight']
            if calls:
                a = [strip(y) for y in args(calls[0])]
                names = [y.get('n') for y in a]
                if names == [p['n'] for p in ps[:4]]: res.ok('%s forwards to the partition' % f['q'])
                else: res.bad(f['q'] + '|forward', '%s:%s' % (f['f'], f['l']), '%s hands %s to move_block_weight' % (f['q'], names))
                continue
            transfer(prog, res, f, VN(prog, inline=lambda g, d: g.get('cls') == f.get('cls')), (0, 1, 2, 3), short(f['cls']), None, limited='GlobalLP' not in f['q'])
    return n

def fns_deep(prog, f):
    yield f
    for n in nodes(f):
        if n['k'] == 'Lambda':
            for b in lambda_bodies(prog, f, n)[:1]: yield from fns_deep(prog, b)

def uses_assert(prog, f, x):
    """the result of the shift is stored in a variable that an assertion looks at"""
    for g in fns_deep(prog, f):
        idx, par = index(g)
        if idx.get(x.node.get('i')) is not x.node: continue
        p = par.get(x.node['i'])
        if p is None or p['k'] != 'Var': return False
        for h in fns_deep(prog, f):
            for y in nodes(h):
                if y['k'] == 'DRef' and y.get('n') == p['n'] and 'KASSERT' in (y.get('m') or ''): return True
    return False

def plus_of(g):
    return [w for w in g if w[3] == '+=' and not w[4].startswith('-') and not w[4].startswith('(-')]

def arr(base):
    return re.split(r'[.\[\]()#]', N(base))[-1].strip('_') or N(base)

def conservation(prog, res):
    transferred = set()
    """what a path adds to the weight of one block it takes from another"""
    n = 0
    seen = set()
    work = []
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or f.get('lambda') or (f['f'], f['l']) in seen: continue
        if short(f.get('cls') or '') in ('GenericPartitionedGraph', 'DeltaPartitionedGraph', 'DistributedPartitionedGraph'): continue
        src = False
        for g in fns_deep(prog, f):
            for x in nodes(g):
                if x['k'] in ('CAssign', 'Atomic') or x['k'] in CALLS and short(callee(x)) in ('set_block_weight', 'increase_block_weight', 'decrease_block_weight'):
                    src = True; break
            if src: break
        if not src: continue
        seen.add((f['f'], f['l']))
        vn = VN(prog, inline=lambda g, d: False)
        try: ps = vn.paths(f)
        except (TooComplex, RecursionError):
            res.skip('%s: too complex for the conservation rule' % f['q']); continue
        for r, s in ps:
            ws = [w for w in writes(vn, s) if re.search(r'weight', w[1]) and w[3] in ('+=', '-=') and not re.search(r'edge', w[1])]
            groups = {}
            for w in ws: groups.setdefault((w[1], w[0].ctx), []).append(w)
            for (base, ctx), g in groups.items():
                ip, im = [{N(x[2]) for x in g if (x in plus_of(g)) == t} for t in (True, False)]
                if ip - im and im - ip: transferred.add(arr(base))
            work.append((f, vn, r, s, groups))
    for f, vn, r, s, groups in work:
            sets = [e for e in s.eff if e.kind == 'call' and short(e.target) == 'set_block' and len(e.val) == 2]
            for (base, ctx), g in groups.items():
                plus = plus_of(g)
                for w in plus:
                    for x in g:
                        if x not in plus and N(x[2]) == N(w[2]) and x[0].lits == w[0].lits and vn.add(w[4], x[4], 1 if x[3] == '+=' else -1) == '0':
                            res.bad('%s|%s|undone' % (f['q'], N(base)), '%s:%s' % (x[0].fn['f'], x[0].node.get('l')), '%s: weight is added to and taken from the same block %s' % (f['q'], N(w[2])))
                minus = [w for w in g if w not in plus]
                for w in g:
                    c = [x for x in g if compatible(x[0].lits, w[0].lits) and (x[0].lits <= w[0].lits or w[0].lits <= x[0].lits)]
                    uniq = {id(x[0].node): x for x in c}
                    c = list(uniq.values())
                    mixed = any(x in plus for x in c) and any(x in minus for x in c)
                    withset = [e for e in sets if e.ctx == ctx and compatible(e.lits, w[0].lits) and N(e.val[1]) == N(w[2])]
                    everm = {N(x[2]) for x in plus} - {N(x[2]) for x in minus} and {N(x[2]) for x in minus} - {N(x[2]) for x in plus}
                    # the other side of the transfer is missing altogether
                    if not everm and not withset and (arr(base) in transferred or base.endswith('.block_weight()')) and '[%s]' % w[2] not in w[4]:
                        withset = base.endswith('.block_weight()') or any(e.ctx == ctx and compatible(e.lits, w[0].lits) for e in sets)
                    if not everm and not withset: continue
                    where = '%s:%s' % (w[0].fn['f'], w[0].node.get('l'))
                    t = net(vn, c)
                    key = '%s|%s|%s' % (f['q'], N(base), where.split(':')[0])
                    n += 1
                    if t != '0':
                        res.bad(key, where, '%s: the weights in %s change by %s in total when weight is moved between blocks' % (f['q'], N(base), N(t)))
                    elif (where, key) not in seen:
                        seen.add((where, key)); res.ok('%s: changes of %s cancel out' % (f['q'], N(base)))
    return n

# ---- what a class that keeps weights says about them

def methods(prog, *names):
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or f.get('lambda') or not f.get('cls') or 'b' not in f or f['n'] not in names: continue
        if not f['f'].startswith('kaminpar-'): continue
        k = (f['f'], f['l'], f.get('clst'))
        if k in seen: continue
        seen.add(k); yield f

def table_changes(s):
    """(table, key, what happens to a value that is there, value if there is none) for the operations on concurrent tables"""
    out = []
    for j, e in enumerate(s.eff):
        if e.kind != 'call' or short(e.target) not in ('insert', 'update', 'insert_or_update', 'insert_or_assign', 'insert_or_increment') or 'growt' not in str(e.target): continue
        a = tuple(map(str, e.val))
        nm = short(e.target)
        upd = None
        if nm in ('update', 'insert_or_update'):
            for x in s.eff[j + 1:]:
                if x.kind == 'w' and x.target == 'λ0' and x.ctx and x.ctx[-1][0] == 'λ' and x.ctx[-1][1] == e.target and tuple(map(str, x.ctx[-1][3])) == a:
                    upd = (x.op, a[-1] if x.val == 'λ1' else str(x.val)); break
        out.append((e, nm, a[0], a[1] if nm != 'update' else None, upd))
    return out

def holders(prog, res):
    """setting, reading and changing one recorded weight"""
    n = 0
    def say(f, what, r):
        nonlocal n
        if r is None: n += 1; res.ok('%s: %s' % (f['q'], what))
        else: res.bad('%s|%s' % (f['q'], what), '%s:%s' % (f['f'], f['l']), '%s: %s' % (f['q'], r))
    for f in methods(prog, 'init_cluster_weight', 'set_block_weight', 'change_cluster_weight', 'increase_block_weight', 'decrease_block_weight', 'cluster_weight', 'block_weight'):
        vn = VN(prog, inline=lambda g, d: bool(g.get('cls')) and g.get('clst') == f.get('clst') and g['n'] not in ('block',))
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q']); continue
        nm = f['n']
        for r, s in ps:
            if nm in ('cluster_weight', 'block_weight'):
                t = str(r)
                if re.fullmatch(r'this\.[\w.]*\[[^\[\]]*\$0[^\[\]]*\]', t) or re.match(r'this\.[\w.]*(\.local\(\))?\.find\(', t) or re.fullmatch(r'this\.[\w.]*\.(block|cluster)_weight\(\$0\)', t): say(f, 'reads the recorded weight', None)
                elif re.fullmatch(r'this\.[\w.]*\[[^\[\]]*\]', t): say(f, 'reads the recorded weight', 'answers %s' % t)
                continue
            want = {'init_cluster_weight': '=', 'set_block_weight': '=', 'decrease_block_weight': '-='}.get(nm, '+=')
            ws = [(e.target, e.op, str(e.val)) for e in s.eff if e.kind == 'w' and split_idx(e.target)[0] and 'weight' in split_idx(e.target)[0].lower() and not e.ctx]
            tc = table_changes(s)
            fw = [e for e in s.eff if e.kind == 'call' and short(e.target) in ('set_block_weight', 'init_cluster_weight', 'increase_block_weight', 'decrease_block_weight', 'change_cluster_weight')]
            if not ws and not tc: continue
            bad = None
            for t, op, v in ws:
                if '$0' not in split_idx(t)[1]: bad = 'the weight at %s is changed' % N(t)
                elif op == '=' and want in ('+=', '-='):
                    d = vn.add(v, t, -1)
                    if d != ('$1' if want == '+=' else vn.add('0', '$1', -1)): bad = 'the weight becomes %s' % N(v)
                elif op != want: bad = 'the weight is changed by %s %s' % (op, N(v))
                elif v != '$1': bad = 'the weight is changed by %s %s' % (op, N(v))
            for e, kind, key, ins, upd in tc:
                if '$0' not in key: bad = 'the weight at %s is changed' % N(key)
                elif want == '=' and ins != '$1': bad = 'the weight is set to %s' % N(ins)
                elif want == '+=' and (ins not in ('$1', None) or upd and upd != ('+=', '$1')): bad = 'the weight is changed by %s' % N(upd or ins)
            say(f, {'=': 'sets', '+=': 'adds to', '-=': 'takes from'}[want] + ' the recorded weight', bad)
    for f in methods(prog, 'initial_cluster_weight'):
        vn = VN(prog)
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q']); continue
        for r, s in ps:
            t = str(r)
            if 'derived_' in t: continue
            m = re.fullmatch(r'this\.[\w.]*\.?(node_weight|block_weight)\((.*)\)', t)
            if m and '$0' in m.group(2): say(f, 'a cluster starts with the weight of its node', None)
            elif not re.search(r'weight', t) or m: say(f, 'a cluster starts with the weight of its node', 'a cluster starts with weight %s' % N(t))
            else: res.skip('%s: %s' % (f['q'], t))
    return n

def tables(prog, res):
    """a table entry that is made holds what an update of an entry with 0 would give"""
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or f.get('lambda') or 'b' not in f or not f['f'].startswith('kaminpar-dist/'): continue
        if not deep_calls(prog, f, ('insert_or_update',)): continue
        vn = VN(prog, maxstates=600)
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q'] + ': tables'); continue
        for r, s in ps:
            groups = {}
            for e, kind, key, ins, upd in table_changes(s):
                if kind != 'insert_or_update' or upd is None: continue
                where = '%s:%s' % (e.fn['f'], e.node.get('l')); k = '%s|%s' % (f['q'], 'table')
                val = {'+=': upd[1], '-=': vn.add('0', upd[1], -1), '=': None}.get(upd[0])
                once = (where, key, ins, upd)
                if val is None:
                    if upd[0] == '=' and 'weight' in str(e.op).lower() and 'weight' in str(upd[1]).lower() and once not in seen:
                        seen.add(once); res.bad(k, where, '%s: a second change of the same entry replaces the first one' % f['q'])
                    continue
                groups.setdefault((str(e.op), e.ctx), []).append((key, val, where))
                if once in seen: continue
                seen.add(once)
                if vn.add(val, ins, -1) == '0': res.ok('%s: a new entry is what an update makes of it' % f['q'])
                else: res.bad(k, where, '%s: the first change of an entry records %s, later ones add %s' % (f['q'], N(ins), N(val)))
            # changes that a node makes: its cluster gains the weight, another one loses it
            for (tab, ctx), g in groups.items():
                for key, val, where in g:
                    m = re.fullmatch(r'(\(-)?(.*node_weight\((.*?)\))\)?', val)
                    if not m: continue
                    u, neg = m.group(3), bool(m.group(1))
                    mine = bool(re.search(r'\bcluster\(%s\)' % re.escape(u), key))
                    once = (where, 'sign', mine, neg)
                    if once in seen: continue
                    seen.add(once)
                    if mine != neg: res.ok('%s: the cluster of the node gains its weight, the other one loses it' % f['q'])
                    else: res.bad('%s|sign' % f['q'], where, '%s: the entry of %s changes by %s' % (f['q'], N(key), N(val)))

def changes(prog, res):
    """weights that are changed by hand where a node is put into another cluster"""
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or f.get('lambda') or 'b' not in f or not f['f'].startswith('kaminpar-'): continue
        if not deep_calls(prog, f, ('change_cluster_weight',)): continue
        vn = VN(prog, maxstates=800)
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q'] + ': changes'); continue
        for r, s in ps:
            ch = [e for e in s.eff if e.kind == 'call' and short(e.target) == 'change_cluster_weight']
            mv = [e for e in s.eff if e.kind == 'call' and short(e.target) in ('move_node', 'derived_move_node')]
            for e in ch:
                x, amt = N(e.val[0]), N(e.val[1])
                where = '%s:%s' % (e.fn['f'], e.node.get('l')); k = '%s|change' % f['q']
                near = [q for q in mv if q.ctx == e.ctx]
                m = re.fullmatch(r'(\(-)?(.*node_weight\((.*)\))\)?', amt)
                if near and m:
                    if m.group(1): u = m.group(3)[:-1] if m.group(3).endswith(')') and m.group(3).count(')') > m.group(3).count('(') else m.group(3)
                    else: u = m.group(3)
                    c = [N(q.val[1]) for q in near if N(q.val[0]) == u]
                    if not c: continue
                    neg = bool(m.group(1))
                    old = bool(re.search(r'\bcluster\(%s\)' % re.escape(u), x))
                    once = (where, x, amt)
                    if once in seen: continue
                    seen.add(once)
                    if x == c[0] and not neg or old and neg: res.ok('%s: the weight of the node changes clusters with it' % f['q'])
                    else: res.bad(k, where, '%s: cluster %s changes by %s when node %s moves to %s' % (f['q'], x, amt, u, c[0]))
            # replies: the owner's weight, asked for with the same messages
            rep = {split_idx(w.target.rsplit('.', 1)[0])[0]: w for w in s.eff if w.kind == 'w' and '[' in w.target and re.search(r'\bcluster_weight\(', str(w.val)) and not w.target.startswith('this')}
            rep = {b.split('[')[0]: w for b, w in rep.items() if b}
            if not rep: continue
            for e in ch:
                x, amt = str(e.val[0]), str(e.val[1])
                where = '%s:%s' % (e.fn['f'], e.node.get('l')); k = '%s|reply' % f['q']
                root = x.split('[')[0]
                lin = vn.linof(amt)
                own = [a for a in lin if re.search(r'\bcluster_weight\(', a)]
                once = (where, N(amt))
                if once in seen: continue
                if root in rep:
                    seen.add(once)
                    if own: res.skip(k); continue
                    if len(lin) == 1 and list(lin.values()) == [1] and list(lin)[0].split('[')[0] == root: res.ok('%s: the change asked for is added' % f['q'])
                    elif len(lin) == 1 and list(lin)[0].split('[')[0] == root: res.bad(k, where, '%s: the change asked for by another process is recorded as %s' % (f['q'], N(amt)))
                elif '[' in x and '#' in root:
                    seen.add(once)
                    own = [a for a in lin if re.fullmatch(r'[\w.]*\bcluster_weight\(%s\)' % re.escape(x), a)]
                    if own and all(lin[a] == -1 for a in own): res.ok('%s: the weight becomes the one that the owner records' % f['q'])
                    elif own or len(lin) != 1 or 'cluster_weight(' in amt: res.skip(k)
                    else: res.bad(k, where, "%s: the owner's weight of a cluster is applied as a change of %s" % (f['q'], N(amt)))

def starts(prog, res):
    """clusters start with the weights of their nodes, all of them"""
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or f.get('lambda') or 'b' not in f or not f['f'].startswith('kaminpar-') or f['n'] in ('derived_init_cluster_weight', 'init_cluster_weight'): continue
        if not deep_calls(prog, f, ('derived_init_cluster_weight', 'init_cluster_weight')): continue
        vn = VN(prog, maxstates=600)
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q'] + ': initial weights'); continue
        for r, s in ps:
            for e in s.eff:
                if e.kind != 'call' or short(e.target) not in ('derived_init_cluster_weight', 'init_cluster_weight') or len(e.val) < 2: continue
                c, v = N(e.val[0]), N(e.val[1])
                where = '%s:%s' % (e.fn['f'], e.node.get('l'))
                lo = None
                if e.ctx and e.ctx[-1][0] == 'λ' and short(e.ctx[-1][1]) == 'parallel_for' and len(e.ctx[-1][3]) >= 3: lo = str(e.ctx[-1][3][0])
                once = (where, c, v, lo, f.get('clst'))
                if once in seen: continue
                seen.add(once)
                if 'weight' not in v: res.bad('%s|start' % f['q'], where, '%s: cluster %s starts with weight %s' % (f['q'], c, v))
                elif lo is not None and re.fullmatch(r'\d+', lo) and lo != '0': res.bad('%s|start range' % f['q'], where, '%s: the clusters before %s get no weight' % (f['q'], lo))
                else: res.ok('%s: clusters start with the weight of their node' % f['q'])
    for f in methods(prog, 'reassign_cluster_weights'):
        vn = VN(prog, maxstates=400); vn.localwrites = True
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q']); continue
        for r, s in ps:
            ws = [e for e in s.eff if e.kind == 'w' and split_idx(e.target)[0]]
            if not ws: continue
            k = '%s|renumber' % f['q']; where = '%s:%s' % (f['f'], f['l'])
            mv = [e for e in ws if '$0[' in split_idx(e.target)[1]]
            if not mv: res.bad(k, where, '%s: the weights are not stored under the new numbers of the clusters (%s)' % (f['q'], N(ws[-1].target))); continue
            e = mv[-1]
            u = re.search(r'\$0\[(.*)\]', split_idx(e.target)[1]).group(1)
            b, i = split_idx(str(e.val))
            if b is None or i != u: res.bad(k, where, '%s: the new weight of a cluster is %s' % (f['q'], N(e.val))); continue
            if e.op not in ('=', '+='): res.bad(k, where, '%s: the new weight of a cluster is changed by %s' % (f['q'], e.op)); continue
            j = s.eff.index(e)
            nb = split_idx(e.target)[0]
            took = [x for x in s.eff[j + 1:] if x.kind == 'call' and short(x.target) in ('operator=', 'swap', 'std::swap') and b in [str(y) for y in x.val] + [str(x.op)] or x.kind == 'w' and x.target == b]
            if took: res.ok('%s: the weights are kept under the new numbers' % f['q'])
            else: res.bad(k, where, '%s: the weights under the new numbers are thrown away' % f['q'])

def leaders(prog, res):
    """clusterings that keep leader and weight of a cluster side by side"""
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or f.get('lambda') or 'b' not in f or not f.get('cls') or not f['f'].startswith('kaminpar-'): continue
        if not any(n['k'] == 'Mem' and n.get('n') == 'leader' for n in nodes(f)): continue
        vn = VN(prog, maxstates=600)
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q'] + ': leaders'); continue
        for r, s in ps:
            def fld(e, nm):
                m = re.fullmatch(r'(.*)\[(.*)\]\.%s' % nm, e.target) if e.kind == 'w' else None
                return (m.group(1), m.group(2)) if m else None
            L = [(e, fld(e, 'leader')) for e in s.eff if fld(e, 'leader')]
            Wt = [(e, fld(e, 'weight')) for e in s.eff if fld(e, 'weight')]
            for e, (a, u) in L:
                c = str(e.val)
                where = '%s:%s' % (e.fn['f'], e.node.get('l')); k = '%s|leader' % f['q']
                w = [x for x, (b, i) in Wt if b == a and i == c and x.ctx == e.ctx]
                once = (where, N(c == u), tuple(N(x.val) for x in w))
                if once in seen: continue
                seen.add(once)
                if c == u:
                    others = [x for x, (b, i) in Wt if b == a and x.op == '+=' and x.ctx == e.ctx]
                    if others: res.bad(k, where, '%s: node %s stays in its cluster, but its weight is added to %s' % (f['q'], N(u), N(others[0].target))); continue
                    if w and w[-1].op == '=':
                        v = str(w[-1].val)
                        if re.search(r'node_weight\(%s\)|\$\d+\[%s\]|weights?\[%s\]|\$\d+$|total_node_weight' % ((re.escape(u),) * 3), v): res.ok('%s: a cluster starts with the weight of its node' % f['q'])
                        else: res.bad(k, where, '%s: the cluster of node %s starts with weight %s' % (f['q'], N(u), N(v)))
                    continue
                good = [x for x in w if x.op == '+=' and (re.search(r'node_weight\(%s\)$' % re.escape(u), str(x.val)) or re.fullmatch(r'\$\d+', str(x.val)))]
                if good: res.ok('%s: the cluster gains the weight of the node' % f['q'])
                else: res.bad(k, where, '%s: node %s joins cluster %s, whose weight changes by %s' % (f['q'], N(u), N(c), [N(x.val) for x in w]))

def totals(prog, res):
    """the weights computed from an assignment count all nodes and fill in all blocks"""
    for f in methods(prog, 'init_block_weights_par', 'init_block_weights_seq', 'init_block_weights'):
        vn = VN(prog, inline=lambda g, d: bool(g.get('cls')) and (g['clst'] == f['clst'] or short(g['cls']) == 'GraphDelegate') and g['n'] in ('block', 'k', 'n', 'total_n', 'nodes', 'pfor_nodes', 'pfor_blocks'))
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q'] + ': ranges'); continue
        where = '%s:%s' % (f['f'], f['l']); k = f['q'] + '|range'
        def bounds(c):
            if c[0] == 'for each':
                return ('0', 'n()') if str(c[1]).endswith('nodes()') else ('0', 'k') if str(c[1]).endswith('blocks()') else None
            if c[0] != 'λ': return None
            a = [str(x) for x in c[3]]
            if short(c[1]) == 'pfor_nodes' and len(a) == 1: return '0', 'n()'
            m = re.fullmatch(r'tbb::detail::d1::blocked_range\{(.*), (.*?), \d+\}', a[0]) if a else None
            if m: return m.group(1), m.group(2)
            if len(a) == 3: return a[0], a[1]
            return None
        for r, s in ps:
            for e in s.eff:
                if e.kind != 'w' or not split_idx(e.target)[0]: continue
                fin = split_idx(e.target)[0].startswith('this.') and 'weight' in split_idx(e.target)[0]
                per = 'node_weight(' in str(e.val)
                if not (fin or per): continue
                for c in e.ctx:
                    b = bounds(c)
                    if b is None: continue
                    want = r'(this[\w.]*\.)?_?n(\(\))?' if per else r'(this[\w.]*\.)?_?k(\(\))?'
                    if b[0] == '0' and re.fullmatch(want, b[1]): res.ok('%s: all %s' % (f['q'], 'nodes' if per else 'blocks'))
                    elif re.fullmatch(r'\d+', b[0]) and b[0] != '0' or re.search(r'total_n\(\)|ghost_n\(\)', b[1]) or re.fullmatch(r'\(-\d+ \+ .*\)', b[1]): res.bad(k, where, '%s: the %s from %s to %s are counted' % (f['q'], 'nodes' if per else 'blocks', N(b[0]), N(b[1])))
                    else: res.skip('%s: %s' % (k, b))
                if fin and not per:
                    if e.op != '=': res.bad(f['q'] + '|stored', where, '%s: the sum is not stored but applied by %s' % (f['q'], e.op))
                    else:
                        red = [x for x in s.eff if x.kind == 'call' and short(x.target) == 'allreduce']
                        if not red: res.ok('%s: the sum is stored' % f['q']); continue
                        a = [str(x) for x in red[-1].val]
                        op = [x for x in a if 'op' in x and 'mpi' in x.lower()]
                        src = split_idx(str(e.val))[0]
                        if op and 'sum' not in op[0].lower(): res.bad(f['q'] + '|global', where, '%s: the weights of the processes are combined by %s' % (f['q'], op[0]))
                        elif src and a[1].startswith(src) : res.ok('%s: the sum over all processes is stored' % f['q'])
                        elif src and a[0].startswith(src) and not a[0] == a[1]: res.bad(f['q'] + '|global', where, '%s: only the nodes of this process are counted' % f['q'])
                        else: res.skip(f['q'] + ': ' + N(e.val))
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or not f.get('ctor') or 'b' not in f or not re.search(r'PartitionedGraph', f.get('cls') or '') or not f['p'] or not f['f'].startswith('kaminpar-'): continue
        sib = [g['n'] for g in prog.fns.values() if g.get('clst') == f.get('clst') and g['n'].startswith('init_block_weights')]
        if not sib or len(f['p']) == 1 and 'PartitionedGraph' in f['p'][0]['t']: continue
        given = any(re.search(r'StaticArray<(.*Weight|int|long)>', p['t']) and 'weight' in p['n'] for p in f['p'])
        vn = VN(prog)
        try: ps = vn.paths(f)
        except TooComplex: res.skip(f['q']); continue
        did = [any(e.kind == 'call' and short(e.target) in sib for e in s.eff) for r, s in ps]
        dele = any(i.get('e') is not None and (i.get('n') is None) and re.search('PartitionedGraph', str((i.get('e') or {}).get('t', ''))) and (i['e'].get('k') in ('Ctor', 'Construct')) for i in f.get('inits') or ())
        if all(did) and did: res.ok('%s: weights computed' % f['q'])
        elif any(did): res.bad('%s|constructor' % f['q'], '%s:%s' % (f['f'], f['l']), '%s: the block weights are computed on some paths only' % f['q'])
        elif not given and not dele: res.bad('%s|constructor' % f['q'], '%s:%s' % (f['f'], f['l']), '%s: the block weights of the partition are not computed' % f['q'])
        else: res.ok('%s: weights handed in' % f['q'])

EXTRA = (holders, tables, changes, starts, leaders, totals)

def run(tier):
    res = Result()
    prog = load(units())
    handled = set()
    a = structures(prog, res, handled)
    d = plain_partitions(prog, res, handled)
    b = clusterings(prog, res)
    c = conservation(prog, res)
    for x in EXTRA: x(prog, res)
    if not a or not b: raise AnalysisBroken('the partition data structures or the clustering moves are gone')
    res.info = {'units': len(prog.units), 'partition_structures': a, 'plain_partitions': d, 'node_moves': b, 'weight_transfers': c}
    return res
