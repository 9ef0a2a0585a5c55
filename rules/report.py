"""The reported cut, imbalance and feasibility are those of the partition that is handed out.

metrics: the functions that measure a partition add up exactly what they name, over all nodes or blocks;
labels: what is printed behind "cut=", "Imbalance:" ... is the result of that measurement;
facade: every node of the caller gets the block of the very partition whose cut is returned, through the permutation of a
rearranged graph and with the isolated nodes that were set aside.
"""
from kit import *
from iters import *

def units():
    return all_units('kaminpar-shm', 'kaminpar-dist')

FLOAT = re.compile(r'\b(float|double)\b')

def vn_of(prog, f, inl=None):
    vn = VN(prog, inline=inl or (lambda g, d: ('::metrics::' in g['q'] or '(anon)' in g['q']) and not g.get('cls') and g['n'] not in METRICS), maxstates=2000)
    vn.localwrites = True; vn.split_conditions = True
    return vn, vn.paths(f, names=[p['n'] or '$%d' % i for i, p in enumerate(f['p'])])

METRICS = {'edge_cut', 'edge_cut_seq', 'local_edge_cut', 'imbalance', 'total_overload', 'is_balanced', 'is_feasible', 'num_imbalanced_blocks', 'imbalance_l1', 'imbalance_l2'}

def accumulators(vn, r, s):
    """{written target: [effects]} of what the result is made of"""
    acc = {}
    seen = set()
    for e in s.eff:
        if e.kind == 'w': acc.setdefault(e.target, []).append(e)
    return acc

def strip_half(r):
    m = re.fullmatch(r'\((.*) / 2\)', r)
    return (m.group(1), True) if m else (r, False)

def reduced(x):
    """the thread-local copies or the variable behind an expression: (name, how)"""
    m = re.fullmatch(r'(\S+)\.combine\((.*)\)', x)
    if m: return m.group(1) + '.local()', 'ets'
    m = re.fullmatch(r'φ\d+:(\w+)', x)
    if m: return m.group(1), 'var'
    return None, None

def cut_fn(prog, res, f, where, tag):
    k = '%s|%s' % (f['q'].split('::', 1)[1], ','.join(short(x) for x in (f.get('ta') or ())[1:2]))
    try: vn, ps = vn_of(prog, f, lambda g, d: ('::metrics::' in g['q'] or '(anon)' in g['q']) and not g.get('cls') and g['n'] != 'edge_cut' or g['n'] == 'reified')
    except TooComplex: res.skip(k + ': too complex'); return
    delegates = False
    for r, s in ps:
        r = str(r)
        m = re.fullmatch(r'(\S+)\.reified\(<lambda>\)', r)
        inner = [vs for c, lam, b, sts in vn.applied for vs in sts if len(c) == 1 and short(c[0][1]) == 'reified']
        if m or inner and not any(e.kind == 'w' for e in s.eff):
            want = {'%s(%s, λ0)' % (f['q'], f['p'][0]['n']), 'kaminpar::shm::metrics::edge_cut(%s, λ0)' % f['p'][0]['n']}
            got = {str(v) for v, _ in inner}
            if got and not got <= want and all(re.fullmatch(r'[\w:]+\(.*\)', g) for g in got): res.bad(k + '|graph', where, '%s measures %s' % (f['n'], sorted(got)[0]))
            else: res.ok('%s measures the represented graph' % f['n'])
            continue
        x, half = strip_half(r)
        parts = call_parts(x)
        glob = False
        if parts and short(parts[0]) == 'allreduce':
            glob = True
            if 'sum' not in x: res.bad(k + '|sum', where, '%s does not add up the cut edges of all processes' % f['n']); continue
            x = parts[1][0]
            x2, h2 = strip_half(x)
            if h2: res.bad(k + '|half', where, '%s halves the number of cut edges of each process, although the two directions of an edge may be on different processes' % f['n']); continue
            if half and re.fullmatch(r'[\w:]*local_edge_cut\(%s\)' % f['p'][0]['n'], x):
                res.ok('%s adds up the cut edges of all processes, counted once per direction, and halves the sum' % f['n']); continue
        name, how = reduced(x)
        if name is None:
            p = call_parts(x)
            if p and short(p[0]) == f['n'] and not half and p[1][0] == f['p'][0]['n'] and len(p[1]) == 2 and f['p'][0]['n'] in p[1][1]: res.ok('%s measures the represented graph' % f['n']); continue
            if p and short(p[0]) in METRICS: res.bad(k + '|result', where, '%s returns %s' % (f['n'], r[:80])); continue
            res.skip('%s: result %s' % (k, r[:80])); continue
        ws = [e for e in s.eff if e.kind == 'w' and (e.target == name or how == 'ets' and e.target.startswith(name[:-8]) or how == 'var' and re.fullmatch(re.escape(name) + r'#[\d.]+', e.target))]
        if how == 'ets' and "{}" not in r and 'plus' not in r: res.skip('%s: combined by %s' % (k, r[:80])); continue
        if not ws: res.bad(k + '|none', where, '%s adds nothing up' % f['n']); continue
        n = 0
        once = False
        verdict = None
        for e in ws:
            if e.op not in ('+=',):
                if e.op == '=' and re.search(r'^\(?.*φ\d+:%s' % (name if how == 'var' else ''), str(e.val)): verdict = 'skip'
                else: verdict = ('op', '%s applies %s %s' % (f['n'], e.op, e.val))
                break
            if e.val == '0': continue
            lv = iters(vn, e)
            adj = [i for i in lv if i.kind == 'adjacent']
            if len(adj) != 1 or any(i.kind in ('?', 'λ', 'while') for i in lv): verdict = 'skip'; break
            v, w, u = adj[0].elem, adj[0].weight, adj[0].over[1]
            outer = [i for i in lv if i is not adj[0]]
            us = [i for i in outer if i.elem == u]
            if not us: verdict = ('node', '%s visits the neighbours of %s' % (f['n'], u)); break
            g = nodes_of(us[0])
            if g is False: verdict = ('all', '%s leaves out nodes (it visits %s to %s)' % (f['n'], us[0].lo, us[0].hi)); break
            if g is None: verdict = 'skip'; break
            if len(outer) > 1: verdict = ('twice', '%s counts edges once per iteration of another loop' % f['n']); break
            if e.val != w:
                verdict = ('weight', '%s adds %s for a cut edge instead of its weight' % (f['n'], re.sub(r'#[\d.]+', '', e.val))) if w not in e.val or re.fullmatch(r'\(-?\d+ \* %s\)|-%s|\(.*%s [+-] \d+\)|\(-?\d+ \+ %s\)' % (w, w, w, w), e.val) else 'skip'
                if verdict: break
            blocks = {re.sub(r'^\S*\bblock\((.*)\)$', r'\1', a) for t, b in e.lits if not b for m in [re.fullmatch(r'\((\S*\bblock\(.*\)) == (\S*\bblock\(.*\))\)', t)] if m for a in m.groups()}
            pos = [t for t, b in e.lits if b and re.fullmatch(r'\((\S*\bblock\(.*\)) == (\S*\bblock\(.*\))\)', t)]
            if pos: verdict = ('cut', '%s counts edges inside a block' % f['n']); break
            if blocks != {u, v}:
                verdict = ('cut', '%s counts edges without comparing the blocks of both end points' % f['n']) if not blocks or len(blocks) == 2 else 'skip'
                break
            for t, b in e.lits:
                if re.match(r'\(\S*\bblock\(', t): continue
                m = re.fullmatch(r'\[(.*) > 0\]', t)
                lin = vn.linof(m.group(1)) if m else {}
                if m and set(lin) - {''} == {u, v}: once = True; continue
                if us[0].elem in lin and abs(lin[us[0].elem]) == 1 and not (set(lin) & {v, w}): continue        # loop bounds
                if '.end()' in t or 'degree(' in t and v not in t and w not in t: continue
                if v in t or w in t or re.search(r'(?<!\w)%s(?!\w)' % re.escape(u), t):
                    verdict = ('edges', '%s counts an edge only if %s' % (f['n'], re.sub(r'#[\d.]+|φ\d+:', '', t))); break
            if verdict: break
            n += 1
        if verdict == 'skip': res.skip(k + ': shape not recognised'); continue
        if verdict: res.bad('%s|%s' % (k, verdict[0]), where, verdict[1]); continue
        if not n: res.bad(k + '|none', where, '%s adds nothing up' % f['n']); continue
        local = f['n'] == 'local_edge_cut'
        if half != (not once and not local):
            res.bad(k + '|half', where, '%s %s' % (f['n'], 'halves the weight of the cut edges although it counts each of them once' if half else 'counts every cut edge twice')); continue
        if glob and once: res.skip(k + ': global IDs'); continue
        res.ok('%s adds the weight of every edge between different blocks, %s' % (f['n'], 'per direction, and halves the sum' if half else 'per direction' if local else 'once'))

OVER = re.compile(r'\[\((.*)\) > 0\]$')

def bound_lit(vn, t, u):
    """a comparison of the element itself with something that does not depend on it"""
    m = re.fullmatch(r'\[(.*) > 0\]', t)
    lin = vn.linof(m.group(1)) if m else {}
    return abs(lin.get(u, 0)) == 1 and not any(u in a for a in lin if a != u)

def overload_terms(lin):
    """block b of  weight(b) - limit(b), or None"""
    pos = [a for a, c in lin.items() if c == 1 and re.search(r'\bblock_weight\(', a)]
    neg = [a for a, c in lin.items() if c == -1 and re.search(r'max_block_weight\(', a)]
    if len(pos) == 1 and len(neg) == 1 and not re.search('unrelaxed|total_max|perfect', neg[0]):
        b1 = re.search(r'block_weight\((.*)\)$', pos[0]).group(1); b2 = re.search(r'max_block_weight\((.*)\)$', neg[0]).group(1)
        rest = {a: c for a, c in lin.items() if a not in (pos[0], neg[0])}
        return b1, b2, rest
    return None

def over_lit(vn, t, b):
    """(block, verdict) of a condition about the overload of a block: 'over' = weight > limit, 'fits' = weight <= limit; 'strict' variants are off by one"""
    m = re.fullmatch(r'\[(.*) > 0\]', t)
    if not m: return None
    lin = vn.linof(m.group(1))
    for sign, yes, no in ((1, 'over', 'fits'), (-1, 'room', 'full')):
        o = overload_terms({a: c * sign for a, c in lin.items()})
        if o is None: continue
        b1, b2, rest = o
        if b1 != b2: return (b1, 'other')
        if rest: 
            c = rest.pop('', 0)
            if rest: return (b1, 'term')
            # sign=1: W - L + c > 0 ;  sign=-1: L - W + c > 0, i.e. W - L - c < 0
            c = c * 1
            if sign == 1: return (b1, {(1, True): 'full', (1, False): 'room'}.get((c, b), 'term'))
            return (b1, {(-1, True): 'fits', (-1, False): 'over'}.get((-c, b), 'term')) if c != 1 else (b1, 'fits' if b else 'over')
        return (b1, yes if b else no)
    return None

def balanced_fn(prog, res, f, where):
    """true iff every block weighs at most its limit"""
    k = '%s|balanced' % f['q'].split('::', 1)[1]
    try: vn, ps = vn_of(prog, f, lambda g, d: ('::metrics::' in g['q'] or '(anon)' in g['q']) and not g.get('cls') and g['n'] in ('is_balanced', 'is_feasible') or '(anon)' in g['q'] and not g.get('cls'))
    except TooComplex: res.skip(k); return
    for r, s in ps:
        r = str(r)
        quants = [(short(c[-1][1]), c[-1], sts) for c, lam, b, sts in vn.applied if short(c[-1][1]) in ('all_of', 'any_of', 'none_of')]
        p = call_parts(r.lstrip('!'))
        if p and short(p[0]) in ('all_of', 'any_of', 'none_of') and len(quants) == 1:
            q, ctx, sts = quants[0]
            a = [str(x) for x in ctx[3]]
            m = re.fullmatch(r'(.*)\._?begin(\(\))?', a[0]), re.fullmatch(r'(.*)\._?end(\(\))?', a[1])
            sp = span(m[0].group(1)) if m[0] and m[1] and m[0].group(1) == m[1].group(1) else None
            if sp is None and not (m[0] and re.search(r'blocks\(\)$', m[0].group(1))): res.skip(k + ': range ' + a[0][:60]); continue
            if sp and blocks_of(It('range', '', sp[0], sp[1])) is False: res.bad(k + '|all', where, '%s leaves out blocks' % f['n']); continue
            vals = []
            for v, x in sts:
                v = str(v)
                if v in ('true', 'false'):
                    new = [(t, b) for t, b in x.lits if over_lit(vn, t, b)]
                    others = [t for t, b in x.lits if 'λ0' in t and not over_lit(vn, t, b)]
                    if len(new) != 1 or others: vals.append((None, None)); continue
                    t, b = new[0]
                    vals.append(over_lit(vn, t, b if v == 'true' else not b))
                else:
                    vals.append(over_lit(vn, v.lstrip('!'), not v.startswith('!')) or (None, None))
            kinds = {x[1] for x in vals}
            neg = r.startswith('!')
            want = 'fits' if (q == 'all_of') != neg and q == 'all_of' else 'over'
            good = (q, neg) in (('all_of', False), ('none_of', False), ('any_of', True))
            if None in kinds: res.skip(k + ': ' + str(vals)[:60]); continue
            if kinds != {want} or not good: res.bad(k + '|limit', where, '%s does not test whether every block weighs at most its own limit' % f['n']); continue
            res.ok('%s: every block weighs at most its limit' % f['n']); continue
        m = re.fullmatch(r'\((.*) == 0\)', r)
        if m and re.fullmatch(r'[\w:]*num_imbalanced_blocks\((\w+), (\w+)\)', m.group(1)): res.ok('%s: no block is above its limit' % f['n']); continue
        if re.search(r'num_imbalanced_blocks\(|total_overload\(|imbalance_l[12]\(', r):
            if re.fullmatch(r'\([\w:]*(total_overload|imbalance_l[12])\(.*\) == 0\)|!?\[[\w:]*(num_imbalanced_blocks|total_overload)\(.*\) > 0\]', r) and (r.startswith('!') or '==' in r): res.ok('%s: no overload' % f['n']); continue
            res.bad(k + '|count', where, '%s returns %s' % (f['n'], r[:80])); continue
        if r in ('true', 'false'):
            # a loop that gives up at the first overloaded block
            ls = [over_lit(vn, t, b) for t, b in s.lits if over_lit(vn, t, b)]
            if r == 'false' and len(ls) == 1 and ls[0][1] == 'over' or r == 'true' and all(x[1] == 'fits' for x in ls): res.ok('%s: %s' % (f['n'], r))
            elif ls: res.bad(k + '|limit', where, '%s answers %s for a block that %s' % (f['n'], r, ls[0][1]))
            else: res.skip(k + ': ' + r)
            continue
        res.skip('%s: result %s' % (k, r[:80]))

def sum_fn(prog, res, f, where, what):
    """total_overload, imbalance_l1 / l2, num_imbalanced_blocks: what every overloaded block adds"""
    k = '%s|%s' % (f['q'].split('::', 1)[1], what)
    try: vn, ps = vn_of(prog, f)
    except TooComplex: res.skip(k); return
    acc = {}
    for r, s in ps:
        r = str(r)
        for e in s.eff:
            if e.kind == 'w' and not e.target.startswith('this'): acc.setdefault(re.sub(r'#.*', '', e.target), {})[(e.op, str(e.val), e.lits, e.ctx)] = e
    rs = {re.sub(r'φ\d+:', 'φ:', str(r)) for r, s in ps}
    cands = [n for n in acc if any('φ:%s' % n in r for r in rs)]
    if len(cands) != 1: res.skip('%s: result %s' % (k, sorted(rs)[0][:60])); return
    n = cands[0]
    root = any(r.startswith('sqrt(') for r in rs)
    if (what == 'l2') != root: res.bad(k + '|root', where, '%s %s the square root' % (f['n'], 'takes' if root else 'does not take')); return
    ok = 0
    for (op, val, lits, ctx), e in acc[n].items():
        lv = iters(vn, e)
        bl = [i for i in lv if blocks_of(i)]
        if op != '+=': res.skip(k + ': ' + op); return
        if val == '0': continue
        if any(blocks_of(i) is False for i in lv): res.bad(k + '|all', where, '%s leaves out blocks' % f['n']); return
        if len(lv) != 1 or not bl: res.skip(k + ': loops'); return
        b = bl[0].elem
        guards = [over_lit(vn, t, v) for t, v in lits if over_lit(vn, t, v)]
        if any(g[0] != b or g[1] not in ('over', 'full') for g in guards): res.bad(k + '|guard', where, '%s counts a block only if it is "%s"' % (f['n'], guards[0][1])); return
        extra = [t for t, v in lits if b in t and not over_lit(vn, t, v) and not bound_lit(vn, t, b)]
        if extra: res.bad(k + '|guard', where, '%s counts a block only if %s' % (f['n'], extra[0][:80])); return
        def over(v):
            p = call_parts(v)
            clipped = False
            if p and short(p[0]) == 'max' and len(p[1]) == 2 and '0' in p[1]:
                v = [x for x in p[1] if x != '0'][0] if p[1].count('0') == 1 else '0'; clipped = True
            o = overload_terms(vn.linof(v))
            return o and o[0] == o[1] == b and not o[2], clipped
        if what == 'count':
            if val != '1' or [g[1] for g in guards] != ['over']: res.bad(k + '|count', where, '%s adds %s per block%s' % (f['n'], val, '' if guards else ' unconditionally')); return
            ok += 1; continue
        v = val
        if what == 'l2':
            lin = vn.linof(v)
            m = re.fullmatch(r'\((.*)\)', v)
            half = v[1:-1]
            mid = (len(half) - 3) // 2
            if half[mid:mid + 3] == ' * ' and half[:mid] == half[mid + 3:]: v = half[:mid]
            elif call_parts(v) and short(call_parts(v)[0]) == 'pow' and call_parts(v)[1][1] == '2': v = call_parts(v)[1][0]
            else: res.bad(k + '|square', where, '%s adds %s' % (f['n'], v[:80])); return
        o, clipped = over(v)
        if not o: res.bad(k + '|value', where, '%s adds %s for a block' % (f['n'], v[:120])); return
        if not clipped and not guards and what != 'l2': res.bad(k + '|negative', where, '%s takes the free room of blocks below their limit off the overload of others' % f['n']); return
        if what == 'l2' and not clipped and not guards: res.bad(k + '|negative', where, '%s counts blocks below their limit' % f['n']); return
        ok += 1
    if ok: res.ok('%s adds up the weight of every block above its limit' % f['n'])
    else: res.bad(k + '|none', where, '%s adds nothing up' % f['n'])

def imbalance_fn(prog, res, f, where):
    k = '%s|imbalance' % f['q'].split('::', 1)[1]
    try: vn, ps = vn_of(prog, f)
    except TooComplex: res.skip(k); return
    # the quotient inside ceil() is one of real numbers
    for x in [x for x in nodes(f) if x['k'] == 'Call' and short(callee(x)) == 'ceil']:
        a = x['c'][-1]
        while a is not None and a['k'] in ('Cast', 'Paren', 'ICast') and a.get('c'): a = a['c'][0]
        if a is not None and a['k'] == 'Bin' and a['op'] == '/' and not FLOAT.search(a.get('t', '')):
            res.bad(k + '|real', where, '%s rounds up the result of an integer division' % f['n']); return
    for r, s in ps:
        r = str(r)
        ws = [e for e in s.eff if e.kind == 'w' and e.op == '=']
        if not ws: 
            res.skip('%s: %s' % (k, r[:60])); continue
        e = ws[-1]
        lv = iters(vn, e)
        if any(blocks_of(i) is False for i in lv): res.bad(k + '|all', where, '%s leaves out blocks' % f['n']); continue
        if len(lv) != 1 or not blocks_of(lv[0]): res.skip(k + ': loops'); continue
        b = lv[0].elem
        v = str(e.val)
        p = call_parts(v)
        if p and short(p[0]) == 'min': res.bad(k + '|max', where, '%s takes the minimum over all blocks' % f['n']); continue
        if not (p and short(p[0]) == 'max'): res.skip('%s: %s' % (k, v[:60])); continue
        q = [x for x in p[1] if not x.startswith('φ')]
        if len(q) != 1: res.skip(k + ': ' + v[:60]); continue
        lin = dict(vn.linof(q[0]))
        c = lin.pop('', 0)
        if len(lin) != 1: res.skip(k + ': ' + q[0][:60]); continue
        (t, co), = lin.items()
        m = re.fullmatch(r'\((.*) / (.*)\)', t)
        i = t.find(' / ceil(')
        if i < 0: res.bad(k + '|quotient', where, '%s compares %s' % (f['n'], t[:100])); continue
        num, den = t[1:i], t[i + 3:-1]
        i2 = den.rfind(' / ')
        tot, kk = den[len('ceil(('):i2], den[i2 + 3:-2]
        bad = None
        if num != [x for x in [num] if re.fullmatch(r'\S*\bblock_weight\(%s\)' % re.escape(b), x)][0:1][0] if re.fullmatch(r'\S*\bblock_weight\(%s\)' % re.escape(b), num) else True: bad = 'divides %s' % num[:60]
        elif c != -1 or co != 1: bad = 'reports %s' % q[0][:80]
        elif 'allreduce' in tot and ('sum' not in tot or 'total_node_weight' not in tot): bad = 'relates the blocks to %s' % tot[:80]
        elif not re.search(r'total_node_weight\(\)', tot): bad = 'relates the blocks to %s' % tot[:80]
        elif '::dist::' in f['q'] and 'allreduce' not in tot and 'global_total' not in tot: bad = 'relates the blocks to the nodes of one process'
        elif not re.search(r'\bk(\(\))?$|_k$', kk): bad = 'divides by %s' % kk
        if bad: res.bad(k + '|formula', where, '%s %s' % (f['n'], bad)); continue
        if not re.fullmatch(r'φ\d+:\w+', [x for x in p[1] if x != q[0]][0]): res.skip(k); continue
        res.ok('%s: heaviest block relative to ceil(total / k), minus one' % f['n'])

def metrics(prog, res):
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: (f['q'], str(f.get('ta')))):
        if '::metrics::' not in f['q'] or f.get('lambda') or f.get('dep') or f.get('cls') or 'b' not in f: continue
        where = '%s:%s' % (f['f'], f['l'])
        nm = f['n']
        if nm in ('edge_cut', 'edge_cut_seq', 'local_edge_cut'): cut_fn(prog, res, f, where, nm); n += 1
        elif nm == 'imbalance': imbalance_fn(prog, res, f, where); n += 1
        elif nm in ('is_balanced', 'is_feasible') and len(f['p']) == 2: balanced_fn(prog, res, f, where); n += 1
        elif nm == 'total_overload': sum_fn(prog, res, f, where, 'l1'); n += 1
        elif nm == 'imbalance_l1': sum_fn(prog, res, f, where, 'l1'); n += 1
        elif nm == 'imbalance_l2': sum_fn(prog, res, f, where, 'l2'); n += 1
        elif nm == 'num_imbalanced_blocks': sum_fn(prog, res, f, where, 'count'); n += 1
    return n

# ---------------------------------------------------------------- labels

LABELS = [(re.compile(r'\b(edge[ _])?cut\s*[:=]\s*$', re.I), ('edge_cut', 'edge_cut_seq'), 'cut'), (re.compile(r'\bimbalance\s*[:=]\s*$', re.I), ('imbalance',), 'imbalance'),
          (re.compile(r'\bfeasible\s*[:=]\s*$', re.I), ('is_feasible', 'is_balanced', 'total_overload', 'num_imbalanced_blocks'), 'feasible')]

def metric_of(prog, f, n, decls, depth=0):
    """the measurement an operand is the result of: (name, text of the partition)"""
    n = strip(n)
    while n is not None and depth < 6:
        depth += 1
        if n['k'] in CALLS and '::metrics::' in callee(n): return short(callee(n)), text(args(n)[0]) if args(n) else ''
        if n['k'] == 'DRef' and n.get('d') in decls and not decls[n['d']].get('written'):
            v = decls[n['d']]
            if not v.get('c') or v['c'][0] is None: return None
            n = strip(v['c'][0]); continue
        if n['k'] == 'Bin' and n['op'] in ('&&', '<', '<=', '>', '>=', '==', '!='):
            a = metric_of(prog, f, n['c'][0], decls, depth)
            return a or metric_of(prog, f, n['c'][1], decls, depth)
        return None
    return None

def labels(prog, res):
    done = set()
    for f in prog.fns.values():
        if f.get('dep') or '/benchmarks/' in f['f']: continue
        decls = {}
        for x in nodes(f):
            if x['k'] == 'Var' and 'd' in x: decls[x['d']] = x
        pf = f
        while pf.get('pf') is not None and isinstance(pf.get('pf'), dict):
            pf = pf['pf']
            for x in nodes(pf):
                if x['k'] == 'Var' and 'd' in x: decls.setdefault(x['d'], x)
        for x in nodes(f):
            if not (x['k'] == 'OpCall' and x['op'] == '<<'): continue
            a, b = x['c'][0], x['c'][1]
            la = strip(a)
            if la is None or la['k'] != 'OpCall' or la['op'] != '<<': continue
            lit = strip(la['c'][1])
            if lit is None or lit['k'] != 'Str': continue
            for rx, names, what in LABELS:
                if not rx.search(lit['v']): continue
                key = (f['f'], x.get('l'), x.get('col'), what)
                if key in done: continue
                done.add(key)
                bb = strip(b)
                swapped = False
                if bb['k'] == 'Cond':
                    yes, no = strip(bb['c'][1]), strip(bb['c'][2])
                    c = strip(bb['c'][0])
                    neg = False
                    while c['k'] == 'Un' and c['op'] == '!': c = strip(c['c'][0]); neg = not neg
                    if yes['k'] == 'Str' and no['k'] == 'Str' and what == 'feasible':
                        swapped = ('no' in yes['v'].lower()) != neg
                    bb = c
                m = metric_of(prog, f, bb, decls)
                where = '%s:%s' % (f['f'], x.get('l', f['l']))
                if m is None: continue
                if m[0] not in names and not ('/refinement/' in f['f'] and m[0].startswith('imbalance_l')): res.bad('%s|%s|%s' % (f['q'], what, 'label'), where, '%s prints the result of %s as %s' % (f['n'], m[0], what))
                elif swapped: res.bad('%s|%s|%s' % (f['q'], what, 'swapped'), where, '%s prints "no" for a feasible partition' % f['n'])
                else: res.ok('%s: %s is the result of %s(%s)' % (f['n'], what, m[0], m[1]))
        # "Feasible: yes" belongs to the feasible branch
        for x in nodes(f):
            if x['k'] != 'If': continue
            c, th, el = (x['c'] + [None, None])[:3]
            c = strip(c)
            neg = False
            while c is not None and c['k'] == 'Un' and c['op'] == '!': c = strip(c['c'][0]); neg = not neg
            m = metric_of(prog, f, c, decls) if c is not None else None
            if not m or m[0] not in ('is_feasible', 'is_balanced'): continue
            for part, truth in ((th, not neg), (el, neg)):
                for s in [y for y in (walk(part) if part else ()) if y['k'] == 'Str' and re.search(r'feasible', y['v'], re.I)]:
                    says = None if not re.search(r'\b(yes|no)\b', s['v'], re.I) else bool(re.search(r'\byes\b', s['v'], re.I))
                    if says is None: continue
                    if says != truth: res.bad('%s|feasible|branch' % f['q'], '%s:%s' % (f['f'], x.get('l', f['l'])), '%s says "%s" where the partition is %sfeasible' % (f['n'], s['v'].strip(), '' if truth else 'in'))
                    else: res.ok('%s: "%s" where the partition is %sfeasible' % (f['n'], s['v'].strip(), '' if truth else 'in'))

# ---------------------------------------------------------------- facade

def facade(prog, res):
    n = 0
    for f in prog.fns.values():
        if f.get('lambda') or f.get('dep') or f['n'] != 'compute_partition' or 'b' not in f: continue
        where = '%s:%s' % (f['f'], f['l'])
        ps0 = [p['n'] for p in f['p']]
        k = '%s(%s)' % (f['q'].replace('kaminpar::', ''), ', '.join(ps0))
        out = f['p'][-1]['n']
        vn = VN(prog, maxstates=4000, inline=lambda g, d: '(anon)' in g['q'] and not g.get('cls') and 'print' not in g['n'])
        vn.localwrites = vn.split_conditions = True
        try: ps = vn.paths(f, names=ps0)
        except TooComplex: res.skip(k + ': too complex'); continue
        for r, s in ps:
            r = str(r)
            m = re.fullmatch(r'this\.compute_partition\((.*)\)', r)
            if m:
                fw = call_parts(r)[1] if call_parts(r) else None
                if fw and fw[-1] != out: res.bad(k + '|out', where, '%s writes the blocks somewhere else' % k)
                else: res.ok('%s passes the output of the caller on' % k)
                continue
            p = call_parts(r)
            if not p or short(p[0]) not in METRICS | {'edge_cut'}: 
                res.skip('%s: returns %s' % (k, r[:80])); continue
            if short(p[0]) != 'edge_cut': res.bad(k + '|cut', where, '%s returns %s' % (k, short(p[0]))); continue
            ws = [e for e in s.eff if e.kind == 'w' and re.match(r'%s(#[\d.]+)?\[' % re.escape(out), e.target)]
            if not ws: res.bad(k + '|nothing', where, '%s hands out no blocks on a path' % k); continue
            permuted = dict((t, b) for t, b in s.lits if t.endswith('.permuted()'))
            pt = list(permuted.values())[0] if len(permuted) == 1 else None
            for e in ws:
                lv = iters(vn, e)
                idx = re.fullmatch(r'%s(?:#[\d.]+)?\[(.*)\]' % re.escape(out), e.target).group(1)
                if len(lv) != 1 or lv[0].elem is None: res.skip(k + ': loop around the output'); continue
                u = lv[0].elem
                g = nodes_of(lv[0])
                if g is False: res.bad(k + '|all', where, '%s hands out the blocks of only some nodes' % k); continue
                if g is None and not re.search(r'\bn\(\)|size\(\)|_size', lv[0].hi or ''): res.bad(k + '|all', where, '%s hands out the blocks of [%s, %s)' % (k, lv[0].lo, lv[0].hi)); continue
                if g is None: res.skip('%s: %s' % (k, lv[0])); continue
                m = re.fullmatch(r'(.*)\.block\((.*)\)', str(e.val))
                if not m: res.skip('%s: block is %s' % (k, e.val)); continue
                src = m.group(2)
                mapped = re.fullmatch(r'.*map_original_node\((.*)\)', src)
                here = dict((t, b) for t, b in e.lits if t.endswith('.permuted()'))
                perm = list(here.values())[0] if len(here) == 1 else pt
                if idx == u and (mapped and mapped.group(1) == u and perm is not False or src == u and perm is False): 
                    res.ok('%s: node u gets the block of %s' % (k, 'its new number' if mapped else 'u'))
                elif idx == u and src == u and perm is True: res.bad(k + '|permuted', where, '%s hands out the blocks of a rearranged graph in the order of the rearranged graph' % k)
                elif idx == u and src == u and perm is None: res.bad(k + '|permuted', where, '%s does not look at the permutation of the graph' % k)
                elif idx == u and mapped and perm is False: res.bad(k + '|permuted', where, '%s uses the permutation of a graph that was not rearranged' % k)
                elif 'map_original_node' in idx: res.bad(k + '|permuted', where, '%s uses the permutation the wrong way round' % k)
                else: res.bad(k + '|node', where, '%s: node %s gets the block of %s' % (k, idx, src))
            # the partition that is measured is the one that was handed out, complete
        # order on the control flow graph: nothing replaces the partition after its blocks were handed out
        later = after_output(prog, f, out)
        if later is not None:
            if later: res.bad(k + '|later', '%s:%s' % (f['f'], later[0].get('l', f['l'])), '%s changes the partition after its blocks were handed out' % k)
            else: res.ok('%s: the partition is not changed after its blocks were handed out' % k)
        n += 1
    return n

def after_output(prog, f, out):
    """the assignments to a partition that can follow the calls whose lambdas write the output; None: no such call"""
    outs, asn = set(), {}
    for x in nodes(f):
        if x['k'] in CALLS:
            for a in args(x):
                a = strip(a)
                if a is None or a['k'] != 'Lambda': continue
                for lb in lambda_bodies(prog, f, a):
                    for y in nodes(lb):
                        t = assigned(y)
                        if t is not None and (root(t) or {}).get('n') == out: outs.add(x['i'])
        if x['k'] == 'OpCall' and x['op'] == '=' and strip(x['c'][0])['k'] == 'DRef' and 'PartitionedGraph' in (strip(x['c'][0]).get('t') or ''): asn[x['i']] = x
    if not outs: return None
    return order(f, outs, asn)

def order(f, first, second):
    from collections import deque
    bs = blocks(f)
    res = []
    where = {}
    for bid, b in bs.items():
        for i, el in enumerate(b.get('e') or ()): where.setdefault(el if not isinstance(el, dict) else el.get('i'), (bid, i))
    for a in first:
        if a not in where: continue
        bid, i = where[a]
        seen, q = set(), deque([(bid, i + 1)])
        while q:
            b, j = q.popleft()
            for el in (bs[b].get('e') or ())[j:]:
                ii = el if not isinstance(el, dict) else el.get('i')
                if ii in second: res.append(second[ii])
            for t in bs[b].get('s') or ():
                if t is not None and t not in seen and t in bs: seen.add(t); q.append((t, 0))
    return res

def isolated(prog, res):
    """nodes that are set aside come back: what remove_isolated_nodes takes off, integrate_isolated_nodes puts back"""
    by = {}
    for f in prog.fns.values():
        if f.get('cls') and f['n'] in ('remove_isolated_nodes', 'integrate_isolated_nodes') and 'b' in f and not f.get('dep'): by.setdefault(f['cls'], {})[f['n']] = f
    for cls, ms in sorted(by.items()):
        if len(ms) != 2: continue
        rm, ig = ms['remove_isolated_nodes'], ms['integrate_isolated_nodes']
        where = '%s:%s' % (ig['f'], ig['l'])
        k = short(cls)
        def fx(f):
            vn = VN(prog); vn.localwrites = vn.split_conditions = True
            out = []
            for r, s in vn.paths(f, names=[p['n'] for p in f['p']]): out.append((vn, str(r), s))
            return out
        try: a, b = fx(rm), fx(ig)
        except TooComplex: res.skip(k); continue
        if all(not s.eff and not str(r) for _, r, s in a): continue
        # arrays
        cut = {str(e.op) for _, _, s in a for e in s.eff if e.kind == 'call' and short(e.target) == 'restrict'}
        back = [{str(e.op) for e in s.eff if e.kind == 'call' and short(e.target) == 'unrestrict'} for _, _, s in b]
        if not cut: res.skip(k + ': nothing is restricted'); continue
        for x in sorted(cut):
            if any(x not in bb for bb in back): res.bad(k + '|unrestrict ' + x, where, '%s cuts %s off but does not put it back' % (k, x))
            else: res.ok('%s: %s is restored' % (k, x))
        # scalars that both recompute or change
        def deltas(ps):
            d = {}
            for vn, r, s in ps:
                for e in s.eff:
                    if e.kind == 'w' and e.target.startswith('this.'):
                        d.setdefault(re.sub(r'φ\d+:\w+', 'φ', e.target), set()).add((e.op, re.sub(r'φ\d+:\w+', 'φ', str(e.val))))
            return d
        da, db = deltas(a), deltas(b)
        for t in sorted(set(da) | set(db)):
            x, y = da.get(t), db.get(t)
            if x is None or y is None: res.bad(k + '|' + t, where, '%s changes %s only when isolated nodes are %s' % (k, t, 'put back' if x is None else 'set aside')); continue
            ox, oy = {o for o, _ in x}, {o for o, _ in y}
            if ox == {'-='} and oy == {'+='} or ox == {'+='} and oy == {'-='} or ox == oy == {'='}: res.ok('%s: %s changes back' % (k, t))
            else: res.bad(k + '|' + t, where, '%s: %s is changed by %s and then by %s' % (k, t, sorted(x), sorted(y)))
        # recomputed in both
        ca = {e.target for _, _, s in a for e in s.eff if e.kind == 'call' and e.target.startswith('kaminpar') and 'update_' in e.target}
        cb = [{e.target for e in s.eff if e.kind == 'call'} for _, _, s in b]
        for c in sorted(ca):
            if any(c not in x for x in cb): res.bad(k + '|' + short(c), where, '%s is not called after isolated nodes are put back' % short(c))
            else: res.ok('%s: %s after isolated nodes are put back' % (k, short(c)))
        # the node count is taken before and after
        for vn, r, s in b:
            if not r: continue
            idx = [i for i, e in enumerate(s.eff) if e.kind == 'call' and short(e.target) == 'unrestrict']
            if idx: res.ok('%s: number of nodes that came back' % k)

def restorable(prog, res):
    """unrestrict() gives back the size a container was given, whether or not it was cut before: whoever sets the size sets
    the size that is given back, too"""
    by = {}
    for f in prog.fns.values():
        if f.get('cls') and 'b' in f: by.setdefault(f['cls'], []).append(f)
    done = set()
    for cls, ms in sorted(by.items()):
        un = [f for f in ms if f['n'] == 'unrestrict' and not f['p']]
        if not un or not any(f['n'] == 'restrict' for f in ms): continue
        def fx(f):
            vn = VN(prog); vn.localwrites = vn.split_conditions = True; vn.ctor_inits = True
            out = []
            for r, s in vn.paths(f, names=[p['n'] or '$%d' % i for i, p in enumerate(f['p'])]):
                d = {k: str(v) for k, v in s.env.items() if k.startswith('this.')} if f.get('inits') else {}
                for e in s.eff:
                    if e.kind == 'w' and e.target.startswith('this.') and e.op in ('=', 'init'): d[e.target] = str(e.val)
                out.append(d)
            return out
        try: ps = fx(un[0])
        except TooComplex: continue
        if len(ps) != 1 or len(ps[0]) != 1: continue
        (size, saved), = ps[0].items()
        if not saved.startswith('this.'): continue
        for f in ms:
            if f['n'] in ('restrict', 'unrestrict') or f.get('lambda'): continue
            site = (f['f'], f['l'])
            if site in done: continue
            try: ps = fx(f)
            except TooComplex: res.skip('%s: %s' % (short(cls), f['n'])); continue
            w = [d for d in ps if size in d]
            if not w: continue
            done.add(site)
            bad = [d for d in w if saved not in d or d[saved] not in (d[size], size) and d[saved] != re.sub(r'%s$' % size[4:], saved[4:], d[size])]
            if bad: res.bad('%s|%s|%s' % (re.sub('<.*', '', cls), f['n'], ','.join(p['t'] for p in f['p'])), '%s:%s' % site, '%s sets %s to %s but what unrestrict() gives back (%s) stays %s' % (f['n'], size, bad[0][size], saved, bad[0].get(saved, 'as it was')))
            else: res.ok('%s: what unrestrict() gives back is set by %s' % (re.sub('<.*', '', cls), f['n']))

def assign(prog, res):
    for f in prog.fns.values():
        if f['n'] != 'assign_isolated_nodes' or f.get('dep') or 'b' not in f: continue
        where = '%s:%s' % (f['f'], f['l'])
        vn = VN(prog); vn.localwrites = vn.split_conditions = True
        names = [p['n'] for p in f['p']]
        pg, num = names[0], names[1]
        try: ps = vn.paths(f, names=names)
        except TooComplex: res.skip('assign_isolated_nodes'); continue
        got = {}
        for r, s in ps:
            for e in s.eff:
                m = re.fullmatch(r'partition(?:#[\d.]+)?\[(.*)\]', e.target) if e.kind == 'w' else None
                if not m: continue
                lv = iters(vn, e)
                lv = [i for i in lv if i.elem == m.group(1)]
                if len(lv) != 1 or lv[0].kind != 'range': res.skip('assign_isolated_nodes: ' + e.target); continue
                m2 = re.fullmatch(r'(.*)\.block\((.*)\)', str(e.val))
                got[('old' if m2 else 'new', lv[0].lo, lv[0].hi)] = m2.group(2) == lv[0].elem if m2 else True
        olds = [g for g in got if g[0] == 'old']; news = [g for g in got if g[0] == 'new']
        if len(olds) != 1 or len(news) != 1: res.skip('assign_isolated_nodes: %d/%d loops' % (len(olds), len(news))); continue
        o, n = olds[0], news[0]
        lin = vn.linof(o[2])
        if not got[o]: res.bad('assign_isolated_nodes|copy', where, 'assign_isolated_nodes gives nodes the blocks of other nodes')
        elif o[1] != '0' or n[1] != o[2] or lin.get(num) != -1 or not any(a.endswith('n()') and c == 1 for a, c in lin.items()) or lin.get(''): res.bad('assign_isolated_nodes|range', where, 'assign_isolated_nodes keeps the blocks of [%s, %s) and appends [%s, %s)' % (o[1], o[2], n[1], n[2]))
        elif vn.add(n[2], num, -1) != o[2]: res.bad('assign_isolated_nodes|end', where, 'assign_isolated_nodes appends up to %s' % n[2])
        else: res.ok('assign_isolated_nodes: the nodes before keep their blocks, all isolated ones get one')

def run(tier):
    res = Result()
    prog = load(units())
    nm = metrics(prog, res)
    labels(prog, res)
    nf = facade(prog, res)
    isolated(prog, res)
    restorable(prog, res)
    assign(prog, res)
    res.info = {'metric functions': nm, 'compute_partition overloads': nf}
    if nm < 8: raise AnalysisBroken('only %d metric functions found' % nm)
    return res
