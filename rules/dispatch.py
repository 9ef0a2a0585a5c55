"""Every switch over a configuration enum gives each value an arm of its own.

Per switch over an enum of the repository: every enumerator has a live arm; no arm runs on into another; two enumerators
never select the same effects; no two arms are exchanged (the identifiers of the selected code fit the enumerators).
Per comparison with such a value: the code it guards, or the flag it is stored in, does not carry the name of another
value of the enum instead of the compared one; two branches over different values of the same setting do not select the
same code; no value is compared twice in a chain. A value handed to a function does not contradict the function's name.
"""
from kit import *
from enumflow import *
from similar import swap_better, tokens

NOT_CONFIG = ('kaminpar::logger::',)

def units():
    return [u for u in all_units('kaminpar-shm', 'kaminpar-dist', 'kaminpar-common', 'apps') if not u.startswith('apps/benchmarks/')]

def arm(fn, bs):
    idx, _ = index(fn)
    bl = blocks(fn)
    sig, ids = set(), set()
    for b in bs:
        for e in bl[b]['e']:
            n = idx.get(e)
            if n is None: continue
            if n['k'] in CALLS + ('New', 'Return', 'CAssign') or n['k'] == 'Bin' and n.get('op') == '=' or 'n' in n:
                t = n.get('ret') or n.get('t') or ''
                sig.add((n['k'], text(n), t if n['k'] in CALLS + ('New',) else ''))
                if n['k'] in CALLS:
                    ids.add(short(callee(n)))
                    for w in re.findall(r'[A-Za-z_]\w*', ' '.join(x for x in (t, callee(n)) if x)):
                        ids.add(w)
                elif n['k'] in ('DRef', 'Mem') and 'n' in n: ids.add(n['n'])
        if bl[b].get('nr'): sig.add(('noreturn', '', ''))
    return sig, ids

# ---------------------------------------------------------------- comparisons with enumerators
def words(s):
    """the words of an identifier, in order, without plural endings"""
    s = s.rsplit('::', 1)[-1]
    s = re.sub(r'([a-z0-9])([A-Z])', r'\1 \2', s)
    s = re.sub(r'([A-Z]+)([A-Z][a-z])', r'\1 \2', s)
    return [x[:-1] if len(x) > 4 and x.endswith('s') else x for x in (y.lower() for y in re.split(r'[^A-Za-z0-9]+', s)) if x]

def compared(n):
    """(text of the setting, enumerator, equal?) of a comparison"""
    n = strip(n)
    if not isinstance(n, dict) or n.get('op') not in ('==', '!=') or n['k'] not in ('Bin', 'OpCall') or len(n.get('c') or ()) != 2: return None
    a, b = n['c']
    for x, y in ((a, b), (b, a)):
        q = enum_const(y)
        if q and not enum_const(x): return text(strip(x)), q, n['op'] == '=='
    return None

def selected(n):
    """{setting: values} for which the condition can hold because a comparison for equality holds; None: not of this form"""
    n = strip(n)
    if not isinstance(n, dict): return None
    if n['k'] == 'Paren' and n.get('c'): return selected(n['c'][0])
    c = compared(n)
    if c: return {c[0]: {c[1]}} if c[2] else None
    if n['k'] == 'Bin' and n.get('op') in ('&&', '||'):
        l, r = (selected(x) for x in n['c'])
        if n['op'] == '&&':
            if l and r: return {k: (l[k] & r[k] if k in l and k in r else l.get(k) or r.get(k)) for k in set(l) | set(r)}
            return l or r
        if l and r: return {k: l[k] | r[k] for k in set(l) & set(r)} or None
    return None

def identifiers(n, en):
    """names used in a piece of code; the values of the enum itself do not count"""
    ids = set()
    for x in walk(n):
        if x['k'] in CALLS + ('New',):
            for w in re.findall(r'[\w:]+', ' '.join(y for y in (callee(x), x.get('ta')) if y)):
                if 'std::' in w or '__' in w: continue
                ids |= set(w.split('::')[-2:])
        elif x['k'] in ('DRef', 'Mem') and 'n' in x:
            if x.get('dk') == 'enum': continue
            ids.add(x['n'])
        elif x['k'] == 'Var' and 'n' in x: ids.add(x['n'])
    return ids

def spells(i, q):
    """the identifier contains all words of the enumerator, one after another"""
    a, b = words(i), words(q)
    if sum(map(len, b)) < 4: return False
    return any(a[k:k + len(b)] == b for k in range(len(a) - len(b) + 1))

def named(ids, en, prog):
    """values of the enum that the identifiers spell out; of LP and HEM_LP in hem_lp only the longer one counts"""
    out = set()
    for i in ids:
        hit = ['%s::%s' % (en, x['n']) for x in prog.enums[en]['e'] if spells(i, x['n'])]
        out |= {h for h in hit if not any(g != h and len(words(g)) > len(words(h)) and spells(g, h) for g in hit)}
    return out

def comparisons(prog, res):
    done, ncmp = set(), 0
    config = {}
    def is_config(en):
        if en not in config:
            config[en] = en in prog.enums and not en.startswith(NOT_CONFIG) and len(prog.enums[en]['e']) > 1
        return config[en]
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if not f.get('b') or f['n'] == 'operator<<' or not any(n['k'] == 'DRef' and n.get('dk') == 'enum' for n in nodes(f)): continue
        _, par = index(f)
        for n in nodes(f):
            if n['k'] in ('If', 'Cond'):
                c = n['c'][1] if n['k'] == 'If' else n['c'][0]
                then = n['c'][2] if n['k'] == 'If' else n['c'][1]
                els = (n['c'][3] if len(n['c']) > 3 else None) if n['k'] == 'If' else n['c'][2]
                sel = selected(c)
                if not sel or not isinstance(then, dict): continue
                for setting, vals in sorted(sel.items()):
                    if not vals: continue
                    en = sorted(vals)[0].rsplit('::', 1)[0]
                    if not is_config(en): continue
                    where = '%s:%s' % (f['f'], n.get('l'))
                    key = '%s|%s|%s' % (f['q'], short(en), '+'.join(sorted(map(short, vals))))
                    if (where, key) in done: continue
                    done.add((where, key)); ncmp += 1
                    m = named(identifiers(then, en), en, prog)
                    name = '%s: what %s selects' % (f['q'], ' or '.join(sorted(map(short, vals))))
                    if m and not m & vals and not any(spells(short(v), p) for v in vals for p in m):
                        res.bad(key + '|names|' + short(sorted(m)[0]), where, '%s is the code of %s' % (name, short(sorted(m)[0])))
                    else: res.ok('%s does not belong to another value' % name)
                    if n['k'] != 'If': continue
                    # the rest of the chain
                    e = els
                    told = set(vals) if kids(then) or then['k'] != 'Compound' else set()
                    nch = 1
                    mine = text(then) if any(x['k'] in CALLS + ('Return', 'CAssign') for x in walk(then)) else None
                    while isinstance(e, dict) and e['k'] == 'If':
                        s2 = selected(e['c'][1])
                        v2 = s2.get(setting) if s2 and len(s2) == 1 and len(sel) == 1 else None
                        if not v2: nch = -99
                        if v2:
                            nch += 1
                            if kids(e['c'][2]) or e['c'][2]['k'] != 'Compound': told |= v2
                            if len(vals) == 1 and v2 <= vals:
                                res.bad(key + '|twice', '%s:%s' % (f['f'], e.get('l')), '%s: %s is compared twice, the second branch is dead' % (f['q'], short(sorted(v2)[0])))
                            elif mine and text(e['c'][2]) == mine and strip(c)['k'] == strip(e['c'][1])['k'] and compared(c) and compared(e['c'][1]):
                                res.bad(key + '|same as|' + '+'.join(sorted(map(short, v2))), '%s:%s' % (f['f'], e.get('l')), '%s is the same code that %s selects' % (name, ' or '.join(sorted(map(short, v2)))))
                        e = e['c'][3] if len(e['c']) > 3 else None
                    top = not (par.get(n.get('i')) or {}).get('k') == 'If'
                    if top and nch > 1 and e is None and len(sel) == 1 and not any('ostream' in (x.get('t') or '') for x in f['p']):
                        rest = [x['n'] for x in prog.enums[en]['e'] if '%s::%s' % (en, x['n']) not in told]
                        if len(rest) > 1:
                            res.bad(key + '|missing|' + '+'.join(rest), where, '%s: the selection over %s has no branch for %s' % (f['q'], short(en), ' and '.join(rest)))
                        else: res.ok('%s: the selection over %s leaves at most one value without a branch' % (f['q'], short(en)))
            elif n['k'] == 'Var' and n.get('c') and 'n' in n or n['k'] == 'Bin' and n.get('op') == '=':
                if n['k'] == 'Var': i, v = n['n'], n['c'][0]
                else:
                    l = strip(n['c'][0])
                    if not isinstance(l, dict) or l['k'] not in ('DRef', 'Mem') or 'n' not in l: continue
                    i, v = l['n'], n['c'][1]
                sel = selected(v)
                if not sel or len(sel) != 1: continue
                setting, vals = next(iter(sel.items()))
                if not vals: continue
                en = sorted(vals)[0].rsplit('::', 1)[0]
                if not is_config(en): continue
                where = '%s:%s' % (f['f'], n.get('l'))
                key = '%s|%s|%s' % (f['q'], i, '+'.join(sorted(map(short, vals))))
                if (where, key) in done: continue
                done.add((where, key)); ncmp += 1
                ws = set(words(i))
                allq = {'%s::%s' % (en, x['n']): set(words(x['n'])) for x in prog.enums[en]['e']}
                told = {w for w in ws if len(w) > 3 and any(w in t for t in allq.values()) and not all(w in t for t in allq.values())}
                if not told: res.ok(); continue
                fit = {q for q, t in allq.items() if told & t}
                wrong = sorted(q for q in vals if q not in fit)
                if wrong: res.bad(key + '|flag', where, '%s: %s holds for %s, its name speaks of %s' % (f['q'], i, short(wrong[0]), ' and '.join(sorted(map(short, fit)))))
                else: res.ok('%s: %s holds for %s' % (f['q'], i, ' and '.join(sorted(map(short, vals)))))
            elif n['k'] == 'Call':
                # a value handed to a function (also through a nested call) does not contradict the function's name
                for x in args(n):
                    stack = [strip(x)]
                    while stack:
                        y = stack.pop()
                        if not isinstance(y, dict): continue
                        q = enum_const(y)
                        if q:
                            en = q.rsplit('::', 1)[0]
                            if not is_config(en): continue
                            allq = {'%s::%s' % (en, e['n']): set(words(e['n'])) for e in prog.enums[en]['e']}
                            ws = {w for w in words(callee(n)) if len(w) > 3}
                            told = {w for w in ws if any(w in t for t in allq.values()) and not all(w in t for t in allq.values())}
                            if not told: continue
                            where = '%s:%s' % (f['f'], n.get('l')); key = '%s|%s|%s' % (f['q'], short(callee(n)), short(q))
                            if (where, key) in done: continue
                            done.add((where, key)); ncmp += 1
                            if not told & allq.get(q, told):
                                res.bad(key + '|argument', where, '%s: %s is given %s' % (f['q'], short(callee(n)), short(q)))
                            else: res.ok('%s: %s is given %s' % (f['q'], short(callee(n)), short(q)))
                        elif y['k'] == 'Call': stack += [strip(z) for z in args(y)]
    return ncmp

def selections(prog, res):
    """per setting: every value but one (the one that changes nothing) is asked for somewhere"""
    use, loose = {}, set()
    for f in prog.fns.values():
        if not f.get('b') or f['n'] == 'operator<<' or 'context_io' in f['f'] or 'presets' in f['f']: continue
        for n in nodes(f):
            c = compared(n)
            if c: use.setdefault(c[1].rsplit('::', 1)[0], set()).add(c[1])
            elif n['k'] in ('Bin', 'OpCall') and n.get('op') in ('<', '>', '<=', '>='):
                for x in kids(n):
                    if enum_const(x): loose.add(enum_const(x).rsplit('::', 1)[0])
        for b, cond, targets, default in switches(f):
            ens = {q.rsplit('::', 1)[0] for q in targets if isinstance(q, str)}
            for q in targets:
                if isinstance(q, str): use.setdefault(q.rsplit('::', 1)[0], set()).add(q)
            if default is not None and 'lbl' in blocks(f)[default] and not blocks(f)[default].get('nr'): loose |= ens
    num = 0
    for en, qs in sorted(use.items()):
        if en not in prog.enums or en.startswith(NOT_CONFIG) or en in loose or len(prog.enums[en]['e']) < 2: continue
        if not re.match(r'kaminpar::(shm|dist)::(io::)?\w+$', en): continue
        num += 1
        free = [x['n'] for x in prog.enums[en]['e'] if '%s::%s' % (en, x['n']) not in qs]
        if len(free) > 1: res.bad('%s|no selection|%s' % (en, '+'.join(free)), short(en), '%s: nothing tells %s apart' % (en, ' from '.join(free)))
        else: res.ok('%s: each value is told apart from the others' % en)
    return num

def run(tier):
    res = Result()
    prog = load(units())
    done = set(); nsw = 0
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if 'cfg' not in f or f['n'] == 'operator<<': continue
        for b, cond, targets, default in switches(f):
            qs = [q for q in targets if isinstance(q, str) and q.rsplit('::', 1)[0] in prog.enums]
            if not qs: continue
            en = qs[0].rsplit('::', 1)[0]
            if en.startswith(NOT_CONFIG): continue
            idx, _ = index(f)
            key = (f['q'], text(cond))
            where = '%s:%s' % (f['f'], cond.get('l'))
            if (where, key) in done: continue
            done.add((where, key)); nsw += 1
            all_q = ['%s::%s' % (en, x['n']) for x in prog.enums[en]['e']]
            R = {q: reachable(f, s, (b['id'],)) for q, s in targets.items() if q in all_q}
            rd = reachable(f, default, (b['id'],)) if default is not None else None
            explicit = default is not None and 'lbl' in blocks(f)[default]
            common = set.intersection(*R.values()) if len(R) > 1 else set()
            if rd is not None and explicit: common &= rd
            dead_default = rd is not None and explicit and any(blocks(f)[x].get('nr') for x in rd - common) and not any(
                (idx.get(e) or {}).get('k') in CALLS and not callee(idx[e]).startswith('__builtin') for x in rd - common for e in blocks(f)[x]['e'])
            name = '%s: switch over %s' % (f['q'], short(en))
            for q in all_q:
                k = '%s|%s|%s' % (f['q'], short(en), short(q))
                if q not in targets:
                    if not explicit or dead_default:
                        res.bad(k + '|no arm', where, '%s: %s has no arm' % (name, short(q)))
                    continue
                hit = [p for p, s in targets.items() if p != q and s != targets[q] and s in R[q] and p in all_q]
                if hit:
                    res.bad(k + '|falls through', where, '%s: the arm of %s runs on into the arm of %s' % (name, short(q), short(hit[0])))
                    continue
                mine = arm(f, R[q] - common)
                same = [p for p in R if p != q and arm(f, R[p] - common)[0] == mine[0]]
                if same:
                    if short(same[0]) < short(q):
                        res.bad(k + '|same as|' + short(same[0]), where, '%s: %s selects the same effects as %s' % (name, short(q), short(same[0])))
                    continue
                m = named(set().union(*[identifiers(idx[e], en) for x in R[q] - common for e in blocks(f)[x]['e'] if e in idx] or [set()]), en, prog)
                if m and q not in m and not any(spells(short(q), p) for p in m):
                    res.bad(k + '|names|' + short(sorted(m)[0]), where, '%s: the arm of %s is the code of %s' % (name, short(q), short(sorted(m)[0])))
                    continue
                res.ok('%s: %s has an arm of its own' % (name, short(q)))
            items = [(q, sorted(arm(f, R[q] - common)[1])) for q in all_q if q in R]
            cnt = {}
            for _, ids in items:
                for i in ids: cnt[i] = cnt.get(i, 0) + 1
            items = [(q, [i for i in ids if cnt[i] == 1]) for q, ids in items]
            sw = swap_better([x for x in items if x[1]], 0.15)
            if sw:
                res.bad('%s|%s|exchanged|%s' % (f['q'], short(en), short(sw[0])), where, '%s: the arms of %s and %s are exchanged' % (name, short(sw[0]), short(sw[1])))
            else:
                res.ok('%s: no two arms fit better exchanged' % name)
    ncmp = comparisons(prog, res)
    nset = selections(prog, res)
    res.info = {'units': len(prog.units), 'switches': nsw, 'comparisons and handed values': ncmp, 'settings': nset}
    return res
