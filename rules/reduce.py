"""Parallel reductions, scans and loop splitters give the sequential result.

bodies: a body of tbb::parallel_reduce adds every element of its range once to what it has so far, joins with the operation
it accumulates with, and a split-off body starts from the neutral element with the same inputs;
callers: the range covers all elements, and the result is combined with the initial value;
scan: the running total starts at the value handed in, grows by every element, and only the final pass stores it;
combine: thread-local copies are joined by a symmetric operation, the one they were filled with;
sites: prefix sums run over one array, in place or into an array with room for one more value;
splitters: consecutive ranges meet, every element is visited once.
"""
from kit import *
from iters import *

def units():
    return all_units('kaminpar-shm', 'kaminpar-dist')

def in_tree(f):
    return f.startswith(('kaminpar-', 'apps/'))

PHI = r'φ\d+:(\w+)'
def vn_paths(prog, f, inits=False):
    vn = VN(prog, maxstates=600); vn.localwrites = vn.split_conditions = True; vn.ctor_inits = inits
    return vn, vn.paths(f, names=[p['n'] or '$%d' % i for i, p in enumerate(f['p'])])

def strip_b(t):
    t = str(t)
    while len(t) > 1 and t[0] == '{' and t[-1] == '}': t = t[1:-1]
    return t

def update(e, var):
    """(operation, operand) of a write that continues the value of var"""
    v = str(e.val)
    if e.op == '+=' : return '+', v
    m = re.fullmatch(r'std::(max|min)\((.*)\)', v)
    if e.op == '=' and m:
        a = call_parts(v)[1]
        if len(a) == 2 and var in a:
            return m.group(1), a[1] if a[0] == var else a[0]
    if e.op == '=':
        return None, v
    return None, v

def element(t, i):
    """offset of the element of the input that t is, relative to the loop index i, or None"""
    m = re.fullmatch(r'this\.\w+\[(.*)\]', t)
    if m: return idx_off(m.group(1), i)
    off = 0
    m = re.fullmatch(r'\*(.*)', t)
    if not m: return None
    return ptr_off(m.group(1), i)

def idx_off(t, i):
    if t == i: return 0
    m = re.fullmatch(r'\((-?\d+) \+ (.*)\)', t)
    if m and m.group(2) == i: return int(m.group(1))
    m = re.fullmatch(r'\((.*) \+ (-?\d+)\)', t)
    if m and m.group(1) == i: return int(m.group(2))
    return None

def ptr_off(t, i):
    p = None
    if t.startswith('+('):
        p = call_parts('f' + t[1:])
    elif t.startswith('('):
        m = re.fullmatch(r'\((.*)\)', t)
        parts = m.group(1).split(' + ')
        if len(parts) == 2: p = ('f', parts)
    if not p or len(p[1]) != 2: return None
    a, b = p[1]
    if re.fullmatch(r'-?\d+', b):
        o = ptr_off(a, i)
        return None if o is None else o + int(b)
    if re.fullmatch(r'[\w.#]+', a) or a in ('first', 'begin'): return idx_off(b, i)
    if re.fullmatch(r'[\w.#]+', b): return idx_off(a, i)
    return None

def bodies(prog, res):
    by, decl = {}, {}
    for r in prog.recs.values(): decl.setdefault((r['f'], r['q']), set()).add(r['l'])
    for f in prog.fns.values():
        if f.get('dep') or not f.get('cls') or f.get('lambda') or 'b' not in f or not in_tree(f['f']): continue
        ls = [l for l in decl.get((f['f'], f['cls']), ()) if l <= f['l']]
        by.setdefault((f['f'], f['cls'], max(ls) if ls else 0), []).append(f)
    n = 0
    for ct, ms in sorted(by.items()):
        split = [f for f in ms if f.get('ctor') and len(f['p']) == 2 and f['p'][1]['t'].endswith('split')]
        join = [f for f in ms if f['n'] == 'join' and len(f['p']) == 1]
        run = [f for f in ms if f['n'] == 'operator()' and len(f['p']) == 1 and 'blocked_range' in f['p'][0]['t']]
        if not split or not join or not run: continue
        n += 1
        split, join, run = split[0], join[0], run[0]
        owner = re.sub(r'\(\)::.*', '', run['q']).rsplit('::', 1)[-1]
        key = '%s/%s' % (owner, ','.join(i['n'] for i in split.get('inits') or () if i.get('n') and i.get('w')))
        where = lambda f: '%s:%s' % (f['f'], f['l'])
        try:
            vj, pj = vn_paths(prog, join)
            vr, pr = vn_paths(prog, run)
            vs, ps = vn_paths(prog, split, True)
        except TooComplex: res.skip(key); continue
        y = join['p'][0]['n']
        # ---- join
        ops, field = set(), None
        for r, s in pj:
            w = [e for e in s.eff if e.kind == 'w' and e.target.startswith('this.')]
            if not w:
                ops.add('nothing'); continue
            for e in w:
                field = e.target[5:]
                o, v = update(e, e.target)
                if o is None:
                    m = re.fullmatch(r'\((.*) \+ (.*)\)', v)
                    if m and {m.group(1), m.group(2)} == {e.target, y + '.' + field}: o, v = '+', y + '.' + field
                    elif v == y + '.' + field and not s.lits: o = 'nothing'
                ops.add(o if v == '%s.%s' % (y, field) else 'other:' + v)
        if 'nothing' in ops or field is None:
            res.bad(key + '|join', where(join), 'join() of the reduction in %s drops one of the parts' % owner); continue
        if len(ops) != 1 or any(o is None or o.startswith('other') for o in ops):
            if any(o and o.startswith('other:') and y + '.' + field not in o for o in ops): res.bad(key + '|join', where(join), 'join() of the reduction in %s does not combine with the result of the other part' % owner)
            else: res.skip(key + ': join ' + str(ops))
            jop = None
        else:
            jop = ops.pop(); res.ok('%s: join() combines with %s' % (owner, jop))
        # ---- split
        for r, s in ps:
            x = split['p'][0]['n']
            for k, v in sorted(s.env.items()):
                if not k.startswith('this.'): continue
                v = strip_b(v)
                if k[5:] == field:
                    if v == '%s.%s' % (x, field) and jop == '+' : res.bad(key + '|split', where(split), 'a split-off part of the sum in %s starts with what the other part has already, which is counted twice' % owner)
                    elif jop == '+' and re.fullmatch(r'-?\d+', v) and int(v) != 0: res.bad(key + '|split', where(split), 'a part of the sum in %s starts at %s' % (owner, v))
                    elif jop == 'max' and re.fullmatch(r'-?\d+', v) and int(v) > 0: res.bad(key + '|split', where(split), 'a part of the maximum in %s starts at %s' % (owner, v))
                    else: res.ok('%s: a split-off part starts from the neutral element' % owner)
                elif v == '%s.%s' % (x, k[5:]): res.ok('%s: a split-off part has the same %s' % (owner, k[5:]))
                elif x + '.' in v: res.bad(key + '|split ' + k, where(split), 'a split-off part of %s takes %s from %s' % (owner, k[5:], v))
                else: res.skip(key + ': ' + k)
        # ---- operator()
        rng = run['p'][0]['n']
        tgt = 'this.' + str(field)
        for r, s in pr:
            ws = [e for e in s.eff if e.kind == 'w']
            fin = [e for e in ws if e.target == tgt and not any(c[0] == 'loop' for c in e.ctx)]
            loops = {}
            for e in ws:
                ls = [c for c in e.ctx if c[0] == 'loop' and len(c) > 2]
                if len(ls) == 1 and len(e.ctx) == 1: loops.setdefault(ls[0][1], []).append((e, dict(ls[0][2])))
            if len(loops) != 1: res.skip('%s: operator()' % key); continue
            es = list(loops.values())[0]
            ini = es[0][1]
            acc = None
            if fin:
                m = re.fullmatch(PHI, str(fin[-1].val))
                if m: acc = m.group(1)
            elif any(e.target == tgt for e, _ in es): acc = tgt
            if acc is None:
                if not fin: res.bad(key + '|result', where(run), 'the part of the reduction in %s is not kept' % owner)
                else: res.skip('%s: result %s' % (key, fin[-1].val))
                continue
            if acc != tgt:
                st = strip_b(ini.get(acc, '?'))
                if st == tgt: res.ok('%s: continues from the result of earlier ranges' % owner)
                elif st == '?': res.skip(key + ': start')
                else: res.bad(key + '|start', where(run), 'a body of the reduction in %s that runs over several ranges forgets the earlier ones: it starts from %s' % (owner, st)); continue
            # index
            idx = [v for v, i0 in ini.items() if i0.startswith(rng + '.') or i0.endswith(rng + '.begin()') or '%s.begin()' % rng in i0]
            if len(idx) != 1: res.skip(key + ': index'); continue
            i = idx[0]
            ups = [e for e, _ in es if e.target.split('#')[0] == (acc if acc != tgt else tgt)]
            steps = [e for e, _ in es if e.target.split('#')[0] == i]
            lit = [l for e in ups for l in e.lits]
            phi = [t for t in {a for l in lit for a in re.findall(r'φ\d+:%s\b' % i, l[0])}]
            if len(phi) != 1 or not ups: res.skip(key + ': loop'); continue
            hi = set(bounds_of(vr, lit, phi[0]))
            lo = ini[i]
            if hi == {rng + '.end()'} and lo == rng + '.begin()': res.ok('%s: all of the range' % owner)
            elif all(re.fullmatch(r'\(?(-?\d+ \+ )?%s\.end\(\)\)?' % rng, h) for h in hi) and re.fullmatch(r'\(?(-?\d+ \+ )?%s\.begin\(\)\)?' % rng, lo): res.bad(key + '|range', where(run), 'the reduction in %s visits [%s, %s) of every range' % (owner, lo, ', '.join(hi)))
            else: res.skip(key + ': range %s %s' % (lo, hi))
            if len(steps) != 1 or steps[0].op != '+=' or str(steps[0].val) != '1': res.skip(key + ': step')
            if len(ups) != 1 or any(l[0] for l in ups[0].lits if phi[0] not in l[0]): res.skip(key + ': conditional update'); continue
            o, v = update(ups[0], 'φ')
            if ups[0].op == '=':
                pv = [a for a in re.findall(r'φ\d+:%s\b' % re.escape(acc), str(ups[0].val))] if acc != tgt else [tgt]
                o, v = update(ups[0], pv[0]) if pv else (None, str(ups[0].val))
            if o is None: res.skip(key + ': update %s' % ups[0].val); continue
            if jop and o != jop: res.bad(key + '|op', where(run), 'the reduction in %s accumulates with %s and joins with %s' % (owner, o, jop))
            elif jop: res.ok('%s: accumulates and joins with %s' % (owner, o))
            want = {'accumulate': '+', 'max_element': 'max', 'max_difference': 'max'}.get(owner)
            if want and o != want: res.bad(key + '|kind', where(run), '%s combines elements with %s' % (owner, o))
            el = v
            m = re.fullmatch(r'this\.\w*op\w*\((.*)\)', el)
            if m: el = m.group(1)
            if owner == 'max_difference':
                m = re.fullmatch(r'\((.*) - (.*)\)', el)
                if not m: 
                    m = re.fullmatch(r'\(-(.*) \+ (.*)\)', el)
                    ab = (m.group(2), m.group(1)) if m else None
                else: ab = m.groups()
                o2 = tuple(element(x, phi[0]) for x in ab) if ab else (None,)
                if o2 == (1, 0): res.ok('max_difference: difference of neighbours')
                elif None in o2: res.skip(key + ': element ' + el)
                else: res.bad(key + '|element', where(run), 'max_difference compares elements at offsets %s and %s' % o2)
            else:
                k = element(el, phi[0])
                if k == 0: res.ok('%s: every element once' % owner)
                elif k is None: res.skip(key + ': element ' + el)
                else: res.bad(key + '|element', where(run), '%s visits the element at offset %d' % (owner, k))
    return n

def callers(prog, res):
    seen = {}
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or f.get('lambda') or 'b' not in f or not in_tree(f['f']): continue
        if not any(n['k'] in CALLS and short(callee(n) or '') == 'parallel_reduce' for n in nodes(f)): continue
        if seen.get((f['f'], f['l']), 0) >= 2: continue
        seen[f['f'], f['l']] = seen.get((f['f'], f['l']), 0) + 1
        where = '%s:%s' % (f['f'], f['l'])
        try: vn, ps = vn_paths(prog, f)
        except TooComplex: res.skip(f['q']); continue
        P = [p['n'] for p in f['p']]
        key = '%s/%d' % (f['q'], len(P))
        whole = {'std::distance(%s, %s)' % (P[0], P[1]) if len(P) > 1 else '', P[0] + '._size', P[0] + '.size()', '(-%s + %s)' % (P[0], P[1]) if len(P) > 1 else ''}
        for r, s in ps:
            calls = [e for e in s.eff if e.kind == 'call' and short(e.target) == 'parallel_reduce']
            for e in calls:
                sp = span(str(e.val[0]))
                if not sp: res.skip(key + ': range'); continue
                lo, hi = sp
                less = -1 if f['n'] == 'max_difference' else 0
                t = dict(vn.linof(hi)); c = t.pop('', t.pop(None, 0)) if ('' in t or None in t) else 0
                m = re.fullmatch(r'\((-?\d+) \+ (.*)\)', hi)
                base, c = (m.group(2), int(m.group(1))) if m else (hi, 0)
                if base not in whole: res.skip(key + ': length ' + hi); continue
                if lo == '0' and c == less: res.ok('%s: all elements' % key)
                else: res.bad(key + '|length', where, '%s reduces the range [%s, %s)' % (f['q'], lo, hi))
            if not calls: continue
            ans = re.findall(r'[\w#.]+\._ans', str(r))
            init = P[2] if f['n'] == 'accumulate' and len(P) >= 3 else P[1] if f['n'] == 'accumulate' else None
            want = ' + '
            if not ans: res.bad(key + '|result', where, '%s does not return what it has summed up but %s' % (f['q'], r)) if str(r) and 'ans' not in str(r) and '#' not in str(r) else res.skip(key + ': result')
            elif init is None: res.ok(key) if str(r) == ans[0] else res.bad(key + '|result', where, '%s returns %s' % (f['q'], r))
            else:
                t = dict(vn.linof(str(r)))
                if t == {ans[0]: 1, init: 1}: res.ok('%s: initial value plus sum' % key)
                else: res.bad(key + '|result', where, '%s returns %s, not the initial value plus the sum' % (f['q'], r))

def scans(prog, res):
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or 'b' not in f or not in_tree(f['f']): continue
        for n in nodes(f):
            if n['k'] not in CALLS or short(callee(n) or '') != 'parallel_scan': continue
            if (f['f'], n['l']) in seen or len([k for k in seen if k == (f['f'], n['l'])]): continue
            seen.add((f['f'], n['l']))
            key = f['q']; where = '%s:%s' % (f['f'], n['l'])
            lams = [x for a in args(n) for x in walk(a) if x['k'] == 'Lambda']
            bs = [b for l in lams for b in lambda_bodies(prog, f, l)]
            scan = [b for b in bs if len(b['p']) == 3]; comb = [b for b in bs if len(b['p']) == 2]
            if len(scan) != 1 or len(comb) != 1: res.skip(key + ': lambdas'); continue
            try:
                _, pc = vn_paths(prog, comb[0]); vs, ps = vn_paths(prog, scan[0]); vf, pf = vn_paths(prog, f)
            except TooComplex: res.skip(key); continue
            a, b = (p['n'] for p in comb[0]['p'])
            for r, s in pc:
                if str(r) in ('(%s + %s)' % (a, b), '(%s + %s)' % (b, a)): res.ok(key + ': parts are added up')
                elif re.fullmatch(r'operator\+.*|.*::operator\+\(%s, %s\)|\+\(%s, %s\)' % (a, b, a, b), str(r)): res.ok(key + ': parts are added up')
                elif a not in str(r) or b not in str(r): res.bad(key + '|combine', where, 'the total of two parts of the scan in %s is %s' % (key, r))
                else: res.skip(key + ': combine %s' % r)
            R, S, F = (p['n'] for p in scan[0]['p'])
            stored = {}
            for r, s in ps:
                ws = [e for e in s.eff if e.kind == 'w' and any(c[0] == 'loop' and len(c) > 2 for c in e.ctx)]
                m = re.fullmatch(PHI, str(r))
                if not m: res.skip(key + ': result %s' % r) if str(r) != S else res.bad(key + '|total', where, 'a range of the scan in %s hands on the value it was given, without its own elements' % key); continue
                acc = m.group(1)
                ini = dict([c for e in ws for c in e.ctx if c[0] == 'loop' and len(c) > 2][0][2]) if ws else {}
                if ini.get(acc) != S:
                    if acc in ini: res.bad(key + '|start', where, 'a range of the scan in %s starts from %s instead of the sum of what precedes it' % (key, ini[acc]))
                    else: res.skip(key + ': start')
                else: res.ok(key + ': starts from the sum of what precedes')
                idx = [v for v, i0 in ini.items() if R + '.begin()' in i0]
                if len(idx) != 1: res.skip(key + ': index'); continue
                adds = [e for e in ws if e.target.split('#')[0] == acc]
                phis = {x for e in ws for l in e.lits for x in re.findall(r'φ\d+:%s\b' % idx[0], l[0])}
                if len(phis) != 1 or not adds: res.skip(key + ': loop'); continue
                i = phis.pop()
                hi = {h for e in adds for h in bounds_of(vs, e.lits, i)}
                if hi == {R + '.end()'} and ini[idx[0]] == R + '.begin()': res.ok(key + ': the whole range')
                elif hi and all(R + '.end()' in h for h in hi): res.bad(key + '|range', where, 'the scan in %s visits [%s, %s) of every range' % (key, ini[idx[0]], ', '.join(hi)))
                else: res.skip(key + ': range')
                if any(any(F == l[0] for l in e.lits) for e in adds) and {b for e in adds for t, b in e.lits if t == F} != {True, False}: res.bad(key + '|pass', where, 'the scan in %s adds elements up in one of the passes only' % key)
                offs = {ptr_off(str(e.val)[1:], i) if e.op == '+=' and str(e.val).startswith('*') else None for e in adds}
                if offs == {0}: res.ok(key + ': every element')
                elif None in offs: res.skip(key + ': element')
                else: res.bad(key + '|element', where, 'the scan in %s adds the element at offset %s' % (key, offs))
                for e in ws:
                    m = re.fullmatch(r'\*(.*)', e.target)
                    if not m: continue
                    o = ptr_off(re.sub(r'#[\d.]+', '', m.group(1)), i)
                    t = [b for l, b in e.lits if l == F]
                    if t == [False] : res.bad(key + '|store', where, 'the scan in %s stores totals in the preliminary pass' % key); continue
                    if not t:
                        res.bad(key + '|store', where, 'the scan in %s stores totals in the preliminary pass, too, before what precedes is known' % key); continue
                    if o not in (0, None): res.bad(key + '|offset', where, 'the scan in %s stores the total of an element at offset %d' % (key, o)); continue
                    v = str(e.val); tm = dict(vs.linof(v))
                    has = [x for x in tm if x.startswith('*')]
                    if o == 0 and len(has) == 1 and len(tm) == 2 and all(c == 1 for c in tm.values()): res.ok(key + ': stores the inclusive sum'); stored[True] = 1
                    elif not has and re.fullmatch(PHI, v): res.bad(key + '|inclusive', where, 'the scan in %s stores the sum without the element itself' % key)
                    else: res.skip(key + ': stores ' + v)
            if not stored: res.skip(key + ': nothing stored')
            for r, s in pf:
                for e in s.eff:
                    if e.kind == 'call' and short(e.target) == 'parallel_scan':
                        sp = span(str(e.val[0])); P = [p['n'] for p in f['p']]
                        if not sp: res.skip(key + ': range')
                        elif sp == ('0', 'std::distance(%s, %s)' % (P[0], P[1])): res.ok(key + ': all elements')
                        elif 'std::distance' in sp[1]: res.bad(key + '|length', where, '%s scans [%s, %s)' % (key, sp[0], sp[1]))
                        else: res.skip(key + ': length')
                        z = str(e.val[1])
                        if z in ('ZeroInit()', '0', '{}', '0L') or re.fullmatch(r'[\w:<>]+(\{\}|\(\))', z): res.ok(key + ': starts from zero')
                        elif re.fullmatch(r'\d+', z): res.bad(key + '|identity', where, '%s starts from %s' % (key, z))

SYM = {'plus', 'multiplies', 'bit_or', 'bit_and', 'bit_xor', 'logical_or', 'logical_and'}
def combines(prog, res):
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or 'b' not in f or not in_tree(f['f']): continue
        todo = []
        for n in nodes(f):
            if n['k'] != 'MCall' or short(callee(n) or '') != 'combine': continue
            o = obj(n); t = str((strip(o) if o else {}).get('t', ''))
            if not re.search(r'enumerable_thread_specific|combinable|vector_ets', t + (callee(n) or '')): continue
            if (f['f'], n['l'], text(o)) in seen: continue
            seen.add((f['f'], n['l'], text(o)))
            todo.append((n, o))
        if not todo: continue
        where0 = f['f']
        ops = {}
        for n, o in todo:
            key = '%s|%s' % (f['q'], text(o)); where = '%s:%s' % (f['f'], n['l'])
            a = args(n)
            lam = [x for x in walk(a[0]) if x['k'] == 'Lambda'] if a else []
            op = None
            if lam:
                for b in lambda_bodies(prog, f, lam[0]):
                    if len(b['p']) != 2: continue
                    vn = VN(prog, maxstates=200); vn.localwrites = True
                    try: ps = vn.paths(b, names=['«0»', '«1»'])
                    except TooComplex: res.skip(key); continue
                    if b['cls'] and 'vector_ets' in f['q']:
                        w = [e for r, s in ps for e in s.eff if e.kind == 'w' and '[' in e.target]
                        good = [e for e in w if any(c[0] == 'loop' for c in e.ctx)]
                        for e in good:
                            i = re.search(r'\[(.*)\]$', e.target).group(1)
                            hi = bounds_of(vn, e.lits, i)
                            m = re.fullmatch(r'.*\((.*), (.*)\)', str(e.val))
                            if m and {m.group(1), m.group(2)} == {'«0»[%s]' % i, '«1»[%s]' % i} and len(hi) == 1 and hi[0].endswith('_size') and any(dict(c[2]).get(i.split(':')[-1]) == '0' for c in e.ctx if c[0] == 'loop' and len(c) > 2): res.ok('vector_ets: combined element by element')
                            elif m and ('«0»[%s]' % i not in str(e.val) or '«1»[%s]' % i not in str(e.val)): res.bad(key + '|elements', where, 'element %s of the result is %s' % (i, e.val))
                            elif m and len(hi) == 1 and any(dict(c[2]).get(i.split(':')[-1]) not in ('0', None) for c in e.ctx if c[0] == 'loop' and len(c) > 2): res.bad(key + '|elements', where, 'the first elements are not combined')
                            else: res.skip(key + ': %s' % e.val)
                        continue
                    for r, s in ps:
                        t = str(r)
                        sw = t.replace('«0»', '«x»').replace('«1»', '«0»').replace('«x»', '«1»')
                        if '«0»' not in t or '«1»' not in t:
                            if not s.lits: res.bad(key + '|op', where, 'the thread-local results are combined to %s' % t.replace('«0»', 'a').replace('«1»', 'b'))
                            else: res.skip(key + ': ' + t)
                        elif re.fullmatch(r'\((«0» \+ «1»|«1» \+ «0»)\)', t): op = '+'; res.ok(key)
                        elif re.fullmatch(r'std::(max|min)\(.*\)', t): op = t[5:8]; res.ok(key)
                        elif vnorm(t) == vnorm(sw): res.ok(key)
                        elif re.fullmatch(r'\(«[01]» - «[01]»\)|\(-«[01]» \+ «[01]»\)', t): res.bad(key + '|op', where, 'thread-local results are subtracted from each other')
                        else: res.skip(key + ': ' + t)
            elif a:
                m = re.search(r'std::(\w+)', str(strip(a[0]).get('t', '')) or text(a[0])) or re.search(r'std::(\w+)', text(a[0]))
                g = m.group(1) if m else None
                if g in SYM: res.ok(key); op = '+' if g == 'plus' else None
                elif g in ('minus', 'divides', 'modulus', 'less', 'greater'): res.bad(key + '|op', where, 'thread-local results are combined with std::%s' % g)
                else: res.skip(key + ': ' + text(a[0])[:60])
            if op: ops[text(o)] = (op, where, key)
        if not ops: continue
        try: vn, ps = vn_paths(prog, f)
        except TooComplex: res.skip(f['q'] + ': how the thread-local results are made'); continue
        got = {}
        for r, s in ps:
            for e in s.eff:
                if e.kind != 'w': continue
                m = re.match(r'([\w.>-]+?)(?:#[\d.]+)?\.local\(\)', e.target)
                if m: got.setdefault(m.group(1).replace('this.', '').replace('this->', ''), set()).add((e.op, str(e.val)))
        for x, (op, where, key) in ops.items():
            nm = x.replace('this.', '').replace('this->', '')
            w = got.get(nm) or local_writes(prog, f, nm)
            if not w: continue
            bad = [(o, v) for o, v in w if op == '+' and (o in ('|=', '&=') or o == '=' and re.match(r'std::(max|min)', v)) or op in ('max', 'min') and o in ('+=', '-=')]
            if bad: res.bad(key + '|fill', where, 'the thread-local results of %s are combined with %s but made with %s %s' % (nm, op, bad[0][0], bad[0][1][:60]))
            else: res.ok(key + ': filled and combined with ' + op)

def merges(prog, res):
    """loops over the thread-local copies: a total takes in every copy, none replaces what the ones before it added"""
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or 'b' not in f or not in_tree(f['f']): continue
        for n in nodes(f):
            if n['k'] != 'RFor' or len(n['c']) < 4 or n['c'][2] is None or n['c'][1] is None: continue
            r = strip(n['c'][2]); t = str(r.get('t', ''))
            if not re.search(r'enumerable_thread_specific<|combinable<', t) or 'flattened' in t: continue
            tops = t.split('<')[0]
            if not re.search(r'enumerable_thread_specific|combinable', tops): continue
            if (f['f'], n['l']) in seen: continue
            seen.add((f['f'], n['l']))
            own = {x['n'] for x in walk(n['c'][1]) if x['k'] == 'Var'}
            for x in walk(n['c'][1]): own |= {b['n'] if isinstance(b, dict) else b for b in (x.get('binds') or ())}
            body, st = [], [n['c'][3]]
            while st:
                b = st.pop()
                if b is None: continue
                for x in walk(b):
                    body.append(x)
                    if x['k'] == 'Lambda': st += [g['b'] for g in lambda_bodies(prog, f, x) if 'b' in g]
            inside, grown = set(), True
            for x in body:
                if x['k'] == 'Var': inside.add(x['n'])
                if x['k'] == 'Lambda':
                    for g in lambda_bodies(prog, f, x): inside |= {q['n'] for q in g['p']}
            copies = set(own)                      # the copy itself and what is made of its values
            while grown:
                grown = False
                for x in body:
                    if x['k'] in ('Var', 'RFor') and x.get('c'):
                        v = x if x['k'] == 'Var' else None
                        src = (x['c'][0],) if v else (x['c'][2],)
                        names = [v['n']] if v else [y['n'] for y in walk(x['c'][1]) if y['k'] == 'Var'] if x['c'][1] else []
                        for nm in names:
                            if nm in copies: continue
                            if any(y['k'] == 'DRef' and y.get('n') in copies for z in src if z is not None for y in walk(z)): copies.add(nm); grown = True
            root = text(r)
            fill = fills(prog, f, root)
            conds = [c for x in body if x['k'] == 'If' and x['c'][1] is not None for c in [text(x['c'][1])]]
            for x in body:
                if x['k'] not in ('Bin', 'CAssign', 'OpCall') or x.get('op') not in ('=', '+=', '-=', '|=', '&=') or not x.get('c') or len(x['c']) < 2 or x['c'][0] is None or x['c'][1] is None: continue
                tgt, val = strip(x['c'][0]), x['c'][1]
                names = [y.get('n') for y in walk(tgt) if y['k'] == 'DRef']
                base = tgt
                while base['k'] in ('Sub', 'OpCall', 'Mem', 'Un') and base.get('c') and base['c'][0] is not None and strip(base['c'][0])['k'] != 'This': base = strip(base['c'][0])
                bn = base.get('n')
                if bn in own or bn in inside or base['k'] not in ('DRef', 'Mem', 'This'): continue
                vals = {y.get('n') for y in walk(val) if y['k'] == 'DRef'}
                if not vals & copies: continue
                key = '%s|%s' % (f['q'] or '%s' % f['f'], text(tgt)); where = '%s:%s' % (f['f'], x['l'])
                if set(names) - {bn} & copies: continue       # an element chosen by the copy
                tx = text(tgt)
                if x['op'] == '=':
                    vt = text(val)
                    has = lambda c: re.search(r'(?<![\w.])%s(?![\w])' % re.escape(tx), c)
                    if has(vt) or any(has(c) for c in conds) or any(y['k'] in ('Break', 'Return') for y in body):
                        op = re.search(r'\b(max|min)\b', vt)
                        res.ok(key); op = op.group(1) if op else None
                    else:
                        pos = [y.get('n') for y in walk(tgt) if y['k'] == 'Un' and y.get('op') in ('++', '--')]
                        if any(y['k'] == 'Un' and y.get('op') in ('++', '--') for y in walk(tgt)): continue
                        idx = set(names) - {bn}
                        adv = any(y['k'] == 'Un' and y.get('op') in ('++', '--') and y.get('c') and strip(y['c'][0]).get('n') in idx - inside for y in body)
                        if adv: continue                     # a position that moves on with every copy
                        res.bad(key + '|last', where, '%s is set to the value of each thread-local copy in turn: only the last one counts' % tx)
                        continue
                elif x['op'] == '+=':
                    op = '+'; res.ok(key)
                    again = outlives(prog, f, n, r)
                    if again and not emptied(prog, f, root, own): res.bad(key + '|again', where, 'the thread-local copies %s are added to %s %s, but are never emptied' % (root, tx, again))
                    elif again: res.ok(key + ': emptied before they are used again')
                else: continue
                if fill and op:
                    bad = [o for o in fill if (op == '+') != (o == '+')]
                    if bad and len(fill) == 1: res.bad(key + '|fill', where, 'the copies are made with %s but put together with %s' % (bad[0], op))
            # an element-wise loop starts at the first element
            for x in body:
                if x['k'] != 'For' or not x.get('c') or x['c'][0] is None: continue
                v = [y for y in walk(x['c'][0]) if y['k'] == 'Var' and y.get('c') and y['c'][0] is not None]
                if len(v) != 1: continue
                i0 = strip(v[0]['c'][0])
                while i0['k'] in ('Cast', 'InitList', 'Ctor') and len(i0.get('c') or ()) == 1 and i0['c'][0] is not None: i0 = strip(i0['c'][0])
                if i0['k'] != 'Int': continue
                hit = any(y['k'] in ('Bin', 'CAssign', 'OpCall') and y.get('op') == '+=' and v[0]['n'] in {z.get('n') for z in walk(y['c'][0]) if z['k'] == 'DRef'} for y in walk(x['c'][-1]) if y.get('c') and y['c'][0] is not None) if x['c'][-1] is not None else False
                if not hit: continue
                key = '%s|%s' % (f['q'] or f['f'], root)
                if str(i0['v']) == '0': res.ok(key + ': all elements')
                else: res.bad(key + '|first', '%s:%s' % (f['f'], x['l']), 'the elements before %s of the copies are left out' % i0['v'])

def outlives(prog, f, loop, r):
    """why the thread-local copies are put together more than once"""
    if r['k'] == 'Mem': return 'on every call'
    if r['k'] != 'DRef': return None
    def down(x, loops):
        if x is loop: return loops
        for c in x.get('c') or ():
            if c is None: continue
            got = down(c, loops + [x] if x['k'] in ('For', 'RFor', 'While', 'Do') else loops)
            if got is not None: return got
        return None
    for l in down(f['b'], []) or []:
        if not any(x['k'] == 'Var' and x.get('d') == r.get('d') for x in walk(l)): return 'in every round of a loop'
    return None

def emptied(prog, f, root, own):
    rt = re.sub(r'^this(\.|->)', '', root)
    same = lambda e: re.sub(r'^this(\.|->)', '', text(strip(e))) == rt
    for g in prog.fns.values():
        if g['f'] != f['f'] or 'b' not in g: continue
        for n in nodes(g):
            if n['k'] == 'MCall' and obj(n) is not None and same(obj(n)) and short(callee(n) or '') not in ('local', 'begin', 'end', 'size', 'combine', 'combine_each', 'empty', 'range'): return True
            if n['k'] == 'MCall' and obj(n) is not None and same(obj(n)) and short(callee(n) or '') in ('combine_each', 'range'): return True
            if n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and n.get('c') and n['c'][0] is not None:
                e = strip(n['c'][0])
                if e['k'] == 'MCall' and short(callee(e) or '') == 'local' and same(obj(e)): return True
                if same(e) and not any(x['k'] == 'DRef' and x.get('dk') in ('parm', 'bind') for x in walk(n['c'][1])): return True
            if n['k'] == 'RFor' and n['c'][2] is not None and same(n['c'][2]):
                vs = {x['n'] for x in walk(n['c'][1]) if x['k'] == 'Var'}
                for x in walk(n['c'][3]):
                    if x['k'] in ('Bin', 'OpCall') and x.get('op') == '=' and x['c'][0] is not None and any(y['k'] == 'DRef' and y.get('n') in vs for y in walk(x['c'][0])): return True
                    if x['k'] in ('MCall', 'Call') and any(y['k'] == 'DRef' and y.get('n') in vs for y in walk(x)) and short(callee(x) or '') not in ('size', 'begin', 'end', 'empty', 'operator[]'): return True
    return False

def fills(prog, f, root):
    """operations the values of the thread-local copies are made with ('+', 'max', 'min')"""
    out = set()
    for o, v in local_writes(prog, f, re.sub(r'^this(\.|->)', '', root)):
        if o == '+=': out.add('+')
        elif o == '=':
            m = re.match(r'(?:std::)?(max|min)\(', v)
            out.add(m.group(1) if m else '?')
        else: out.add('?')
    return set() if '?' in out else out

def local_writes(prog, f, nm):
    """how the thread-local copies are changed in f and the lambdas in it"""
    out, fs = set(), []
    st = [g for g in prog.fns.values() if g.get('cls') and g.get('clst') == f.get('clst') and 'b' in g and not g.get('dep') and not g.get('lambda')] if f.get('cls') and not f.get('lambda') else [f]
    if f not in st: st.append(f)
    while st:
        g = st.pop(); fs.append(g)
        for n in nodes(g):
            if n['k'] == 'Lambda': st += [b for b in lambda_bodies(prog, g, n) if b not in fs and b not in st]
    def is_local(e):
        e = strip(e)
        return e['k'] == 'MCall' and short(callee(e) or '') == 'local' and re.sub(r'this(\.|->)', '', text(obj(e))) == nm
    ds = set()
    for g in fs:
        for n in nodes(g):
            if n['k'] == 'Var' and str(n.get('t', '')).endswith('&') and n.get('c') and n['c'][0] is not None and is_local(n['c'][0]): ds.add((g['u'], n['d'])); ds.add(n['n'])
    for g in fs:
        for n in nodes(g):
            if n['k'] not in ('Bin', 'CAssign', 'Un', 'OpCall') or not n.get('c') or n['c'][0] is None: continue
            e = strip(n['c'][0])
            if not (is_local(e) or e['k'] == 'DRef' and e.get('n') in ds): continue
            if n.get('op') in ('++', '--'): out.add(('+=', '1'))
            elif n.get('op') in ('+=', '-=', '|=', '&='): out.add((n['op'], text(n['c'][1])))
            elif n.get('op') == '=': out.add(('=', text(n['c'][1])))
    return out

def vnorm(t):
    return ''.join(sorted(t))

def sites(prog, res):
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if 'b' not in f or not in_tree(f['f']): continue
        for n in nodes(f):
            if n['k'] not in CALLS or short(callee(n) or '') not in ('prefix_sum', 'exclusive_scan', 'inclusive_scan', 'partial_sum', 'aligned_prefix_sum'): continue
            if (f['f'], n['l']) in seen: continue
            nm = short(callee(n)); a = args(n)
            if len(a) < 3: continue
            seen.add((f['f'], n['l']))
            P = [part(x) for x in a[:3]]
            key = '%s|%s(%s)' % (f['q'], nm, ', '.join(text(x) for x in a[:3])); where = '%s:%s' % (f['f'], n['l'])
            if P[0] is None or P[1] is None: res.skip(key); continue
            if P[0][0] != P[1][0]: res.bad(key + '|ends', where, '%s runs from %s to %s' % (nm, text(a[0]), text(a[1]))); continue
            if P[0][1] != 'begin' : res.skip(key); continue
            res.ok('%s: one array' % key)
            if nm == 'aligned_prefix_sum' or P[2] is None: continue
            if P[2][0] == P[0][0]:
                if P[2][1:] != P[0][1:]: res.bad(key + '|shift', where, '%s writes its own input, shifted, while other threads read it' % nm)
                else: res.ok('%s: in place' % key)
            elif nm == 'prefix_sum':
                size = {}
                for v in nodes(f):
                    if v['k'] == 'Var' and v.get('c') and v['c'][0] is not None:
                        c = strip(v['c'][0])
                        if c['k'] == 'Ctor' and args(c): size[v['n']] = strip_b(text(args(c)[0])).strip('()')
                x, y = size.get(P[0][0]), size.get(P[2][0])
                if x and y and P[0][1:] == ('begin', '') and P[1][1:] == ('end', '') and P[2][2] == '+1':
                    if re.sub(r'[() ]', '', y) in (x.replace(' ', '') + '+1', '1+' + x.replace(' ', '')): res.ok('%s: room for the total' % key)
                    elif x == y: res.bad(key + '|room', where, 'the last sum is stored behind the end of %s' % P[2][0])

def part(e):
    """(container, begin|end, offset) of an iterator expression"""
    off = ''
    e = strip(e)
    while e['k'] in ('Ctor', 'Init') and len([c for c in e.get('c') or () if c]) == 1: e = strip(e['c'][0])
    if e['k'] in ('Bin', 'OpCall') and e.get('op') in ('+', '-') and len(e['c']) == 2:
        off = e['op'] + text(e['c'][1]); e = strip(e['c'][0])
        while e['k'] in ('Bin', 'OpCall') and e.get('op') in ('+', '-') and len(e['c']) == 2: off = e['op'] + text(e['c'][1]) + off; e = strip(e['c'][0])
        while e['k'] in ('Ctor', 'Init') and len([c for c in e.get('c') or () if c]) == 1: e = strip(e['c'][0])
    if e['k'] == 'MCall' and short(callee(e) or '') in ('begin', 'end', 'cbegin', 'cend'):
        return text(obj(e)), short(callee(e)).lstrip('c'), off
    if e['k'] == 'Call' and short(callee(e) or '') in ('begin', 'end') and args(e): return text(args(e)[0]), short(callee(e)), off
    return None

def splitters(prog, res):
    n = 0
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f.get('dep') or f.get('lambda') or 'b' not in f or not in_tree(f['f']) or f['n'] not in ('compute_local_range', 'deterministic_for', 'chunked_for', 'aligned_prefix_sum', 'find_in_distribution') or (f['f'], f['l']) in seen: continue
        seen.add((f['f'], f['l'])); n += 1
        where = '%s:%s' % (f['f'], f['l'])
        try: vn, ps = vn_paths(prog, f)
        except TooComplex: res.skip(f['n']); continue
        P = [p['n'] for p in f['p']]
        if f['n'] == 'compute_local_range': local_range(res, vn, ps, P, where)
        elif f['n'] == 'find_in_distribution':
            for r, s in ps:
                v, d = P
                ok = '(-1 + std::distance(%s.begin(), std::upper_bound(+(%s.begin(), 1), %s.end(), %s)))' % (d, d, d, v)
                t = str(r)
                if t == ok or t == ok.replace('+(%s.begin(), 1)' % d, '%s.begin()' % d): res.ok('find_in_distribution: the range that contains the value')
                elif 'std::lower_bound' in t: res.bad('find_in_distribution|bound', where, 'a value that starts a range is found in the range before it')
                elif 'std::upper_bound' in t and not t.startswith('(-1 + std::distance'): res.bad('find_in_distribution|offset', where, 'find_in_distribution returns %s' % t)
                else: res.skip('find_in_distribution')
        elif f['n'] == 'deterministic_for':
            lo, hi, lam = P
            N = {'(-%s + %s)' % (lo, hi), '(%s - %s)' % (hi, lo)}
            for r, s in ps:
                pf = [e for e in s.eff if e.kind == 'call' and short(e.target) == 'parallel_for']
                cl = [e for e in s.eff if e.kind == 'call' and short(e.target) == 'compute_local_range']
                go = [e for e in s.eff if e.kind == 'call' and e.op == lam]
                if len(pf) != 1 or len(cl) != 1 or len(go) != 1: res.skip('deterministic_for'); continue
                b, e_ = str(pf[0].val[0]), str(pf[0].val[1])
                a = [str(x) for x in cl[0].val]
                g = [str(x) for x in go[0].val]
                c = 'compute_local_range(%s)' % ', '.join(a)
                chk = [('all ranks', b == '0' and a[1] == e_ and a[2] == 'λ0'), ('all elements', a[0] in N),
                       ('first element', dict(vn.linof(g[0])) == {lo: 1, 'kaminpar::math::' + c + '.0': 1}), ('last element', dict(vn.linof(g[1])) == {lo: 1, 'kaminpar::math::' + c + '.1': 1}),
                       ('rank', g[2] == 'λ0'), ('number of ranges', str(r) == e_)]
                if not re.search(re.escape(c), g[0] + g[1]): res.skip('deterministic_for: ranges'); continue
                for what, ok in chk:
                    if ok: res.ok('deterministic_for: ' + what)
                    else: res.bad('deterministic_for|' + what, where, 'deterministic_for: %s: ranges %s of [%s, %s), called with (%s), returns %s' % (what, c, b, e_, ', '.join(g), r))
        elif f['n'] == 'chunked_for':
            buf, lam = P
            for r, s in ps:
                tot = [e for e in s.eff if e.kind == 'w' and 'total' in e.target]
                if tot:
                    e = tot[0]
                    if e.op == '+=' and str(e.val).endswith('.size()') and len(e.ctx) == 1 and e.ctx[0] == ('for each', buf) and not e.lits: res.ok('chunked_for: total size')
                    else: res.skip('chunked_for: total')
                go = [e for e in s.eff if e.kind == 'call' and e.op == lam]
                for e in go:
                    m = re.fullmatch(re.escape(buf) + r'\[φ\d+:(\w+)\]\[\((?:-φ\d+:(\w+) \+ φ\d+:(\w+)|φ\d+:(\w+) - φ\d+:(\w+))\)\]', str(e.val[0]))
                    if not m: res.skip('chunked_for: element ' + str(e.val[0])); continue
                    cb = m.group(1); off = m.group(2) or m.group(5); cur = m.group(3) or m.group(4)
                    res.ok('chunked_for: element')
                    ad = [x for x in s.eff if x.kind == 'w' and x.target.split('#')[0] == cur and x.ctx == e.ctx]
                    if len(ad) == 1 and ad[0].op == '+=' and str(ad[0].val) == '1' and {l for l in ad[0].lits} <= {l for l in e.lits} | set(ad[0].lits): res.ok('chunked_for: one step per element')
                    else: res.bad('chunked_for|step', where, 'chunked_for moves on by %s per element' % [str(x.val) for x in ad])
                    for x in s.eff:
                        if x.kind == 'w' and x.target.split('#')[0] == off:
                            v = str(x.val)
                            m2 = re.fullmatch(re.escape(buf) + r'\[(.*)\]\.size\(\)', v)
                            if m2 and re.fullmatch(r'φ\d+:' + cb, m2.group(1)) or re.fullmatch(r'φ\d+:\w*size\w*', v): res.ok('chunked_for: the offset grows by the buffer that is left')
                            elif m2: res.bad('chunked_for|offset', where, 'chunked_for leaves a buffer and moves its offset on by the size of %s' % v)
                            else: res.skip('chunked_for: offset')
        elif f['n'] == 'aligned_prefix_sum':
            for r, s in ps:
                adds = [e for e in s.eff if e.kind == 'w' and re.match(r'\*\+?\(', e.target) and e.op == '+=' and 'prefix' in str(e.val)]
                for e in adds:
                    lo = [dict(c[2]) for c in e.ctx if c[0] == 'loop' and len(c) > 2]
                    i = re.search(r'φ\d+:\w+', e.target)
                    hi = bounds_of(vn, e.lits, i.group(0)) if i else []
                    if not lo or not hi: res.skip('aligned_prefix_sum: offsets'); continue
                    l = lo[-1].get(i.group(0).split(':')[1])
                    if l == '(1 + λ0)' and hi[0] == '(1 + λ1)' and re.search(r'\[λ2\]$', str(e.val)): res.ok('aligned_prefix_sum: every part is shifted by what precedes it')
                    elif re.search(r'\[λ2\]$', str(e.val)) and re.fullmatch(r'\(?(-?\d+ \+ )?λ0\)?', str(l)): res.bad('aligned_prefix_sum|shift', where, 'aligned_prefix_sum shifts (%s .. %s) of every part' % (l, hi[0]))
                    else: res.skip('aligned_prefix_sum: shift')
                for e in s.eff:
                    if e.kind == 'w' and e.op == '=' and re.match(r'prefix_sums?(#[\d.]+)?\[φ\d+:(\w+)\]$', e.target):
                        c = re.search(r'\[(.*)\]$', e.target).group(1)
                        v = str(e.val)
                        if re.search(r'prefix_sums?(#[\d.]+)?\[\(-1 \+ %s\)\]' % c, v): res.ok('aligned_prefix_sum: parts build on each other')
                        elif 'prefix_sums' not in v: res.bad('aligned_prefix_sum|carry', where, 'aligned_prefix_sum forgets what precedes the previous part')
                        else: res.skip('aligned_prefix_sum: carry')
    return n

def local_range(res, vn, ps, P, where):
    n, size, rank = P
    ch, rem = '(%s / %s)' % (n, size), '(%s %% %s)' % (n, size)
    prod = {'(%s * %s)' % (ch, rank), '(%s * %s)' % (rank, ch)}
    for r, s in ps:
        p = call_parts(str(r))
        if not p or len(p[1]) != 2: res.skip('compute_local_range'); continue
        a, b = p[1]
        m = call_parts(b)
        if m and m[0] == 'std::min' and n in m[1]: b = [x for x in m[1] if x != n][0]
        first = [bl for t, bl in s.lits if t == '[(%s - %s) > 0]' % (rem, rank)]
        if len(first) != 1:
            off = [dict(vn.linof(m.group(1))) for t, bl in s.lits for m in [re.fullmatch(r'\[(.*) > 0\]', t)] if m]
            if off and any(abs(d.get(rem, 0)) == 1 and d.get(rank, 0) == -d[rem] and (len(d) == 3 or d == {rank: 1, rem: -1}) for d in off): res.bad('compute_local_range|case', where, 'the rank at which the longer ranges end is off by one: %s' % [t for t, bl in s.lits])
            else: res.skip('compute_local_range: case')
            continue
        mn = {'std::min(%s, %s)' % (rank, rem), 'std::min(%s, %s)' % (rem, rank)}
        def canon(t):
            d = {}
            for k, c in dict(vn.linof(t)).items():
                k = 'rank*chunk' if k in prod else 'chunk' if k == ch else ('rank' if first[0] else 'rem') if k in mn else 'rank' if k == rank else 'rem' if k == rem else k
                d[k] = d.get(k, 0) + c
            return {k: c for k, c in d.items() if c}
        A, B = canon(a), canon(b)
        one = [k for k in list(A) + list(B) if k not in ('rank*chunk', 'chunk', 'rank', 'rem') and not (k in ('', None, 1, '1'))]
        if one: res.skip('compute_local_range: %s' % one); continue
        wantA = {'rank*chunk': 1, ('rank' if first[0] else 'rem'): 1}
        if A != wantA: res.bad('compute_local_range|from', where, 'the range of a rank starts at %s' % a); continue
        D = {k: B.get(k, 0) - A.get(k, 0) for k in set(A) | set(B)}; D = {k: c for k, c in D.items() if c}
        const = [c for k, c in D.items() if k not in ('rank*chunk', 'chunk', 'rank', 'rem')]
        if {k: c for k, c in D.items() if k in ('rank*chunk', 'chunk', 'rank', 'rem')} == {'chunk': 1} and const == ([1] if first[0] else []): res.ok('compute_local_range: a range ends where the next one starts')
        else: res.bad('compute_local_range|to', where, 'the range of a rank %s the remainder ends at %s, not where the next one starts' % ('below' if first[0] else 'beyond', b))

def run(tier):
    res = Result()
    prog = load(units())
    nb = bodies(prog, res)
    callers(prog, res)
    scans(prog, res)
    combines(prog, res)
    merges(prog, res)
    sites(prog, res)
    ns = splitters(prog, res)
    res.info = {'reduction bodies': nb, 'splitting functions': ns}
    if nb < 3: raise AnalysisBroken('only %d reduction bodies found' % nb)
    return res
