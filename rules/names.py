"""Names of configuration values: the table that accepts a name and the printer that writes it agree.

Per enum: every name is bound once; every enumerator is accepted under some name; the printed name of an enumerator is
accepted and denotes that enumerator; two enumerators never print alike; names are not swapped (no exchange of two names
would fit the identifiers of the enumerators better).
"""
from kit import *
from enumflow import *
from similar import swap_better

def units():
    us = ['kaminpar-shm/context_io.cc', 'kaminpar-dist/context_io.cc', 'apps/io/shm_io.cc', 'apps/dKaMinPar.cc', 'apps/tools/shm_graph_attach_weights_tool.cc']
    return [u for u in us if os.path.exists(os.path.join(REPO, u))]

def map_enum(fn):
    m = re.match(r'(?:const )?std::(?:unordered_)?map<(?:std::(?:__cxx11::)?basic_string<char>|std::string|std::basic_string_view<char>|std::string_view), ([\w:()]+)', fn.get('ret', ''))
    return m.group(1) if m else None

def literal(n):
    n = strip(n)
    while isinstance(n, dict) and n['k'] in ('Ctor', 'OpCall', 'Call') and n.get('c'):
        n = strip(n['c'][0])
    if isinstance(n, dict) and n['k'] == 'Str': return n['v']
    return None

def pairs(prog, fn):
    """(name, enumerator, node) bound by a table function; helpers it calls are followed"""
    seen = set()
    def go(f):
        if f['u'] in seen: return
        seen.add(f['u'])
        for n in nodes(f):
            c = [x for x in (n.get('c') or ()) if isinstance(x, dict)]
            if n['k'] in ('Ctor', 'InitList', 'Call') and len(c) == 2 and enum_const(c[1]) and literal(c[0]) is not None:
                yield literal(c[0]), enum_const(c[1]), n, f
            elif n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and len(c) == 2 and enum_const(c[1]):
                l = strip(c[0])
                if l['k'] == 'OpCall' and l['op'] == '[]' and literal(l['c'][1]) is not None:
                    yield literal(l['c'][1]), enum_const(c[1]), n, f
            elif n['k'] == 'MCall' and len(c) == 3 and enum_const(c[2]) and literal(c[1]) is not None:
                yield literal(c[1]), enum_const(c[2]), n, f
            if n['k'] in CALLS:
                g = fn_of(prog, n)
                if g is not None and g['f'] == fn['f']: yield from go(g)
    out, used = [], set()
    for name, e, n, f in go(fn):
        # nested constructors repeat a pair: one per source position
        if n['k'] == 'Ctor' and any(x is not n and x['k'] in ('Ctor', 'InitList') and len(kids(x)) == 2 and enum_const(kids(x)[1]) and literal(kids(x)[0]) is not None for x in walk(n)):
            continue
        out.append((name, e, at(f, n)))
    return out

def printed(prog, fn, pidx, value, depth=0):
    """names that the printer can write for one enumerator"""
    idx, _ = index(fn)
    d = fn['p'][pidx]['d']
    tracked = lambda n: isinstance(n, dict) and n['k'] == 'DRef' and n.get('d') == d
    res = set()
    bl = blocks(fn)
    live = select(fn, tracked, value)
    for b in live:
        for e in bl[b]['e']:
            n = idx.get(e)
            if n is None: continue
            if n['k'] == 'Str':
                res.add(n['v'])
            elif n['k'] in ('Call', 'OpCall', 'MCall') and depth < 3:
                g = fn_of(prog, n)
                if g is not None and g is not fn and 'cfg' in g:
                    for j, a in enumerate(args(n)):
                        if j < len(g['p']) and tracked(strip(a)):
                            res |= printed(prog, g, j, value, depth + 1)
    return res

def run(tier):
    res = Result()
    prog = load(units())
    tables, printers = {}, {}
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'])):
        if f.get('lambda') or 'cfg' not in f or not f['f'].startswith(('kaminpar-', 'apps/')): continue
        e = map_enum(f)
        if e and e in prog.enums:
            tables.setdefault(e, []).append(f)
        if f['n'] == 'operator<<' and len(f['p']) == 2:
            e = enum_of_type(f['p'][1]['t'])
            if e in prog.enums: printers.setdefault(e, []).append(f)
    nnames = 0
    acc = {}
    for e, fs in sorted(tables.items()):
        enumerators = ['%s::%s' % (e, x['n']) for x in prog.enums[e]['e']]
        full = {}
        for f in fs:
            ps = pairs(prog, f)
            if not ps:
                res.skip('%s: table of unrecognised shape' % f['q']); continue
            d = {}
            for name, q, where in ps:
                nnames += 1
                if name in d:
                    res.bad('%s|%s|bound twice' % (f['q'], name), where, 'the name "%s" is bound to %s and to %s' % (name, short(d[name]), short(q)))
                else:
                    d[name] = q
                    if full.get(name, q) != q:
                        res.bad('%s|%s|tables disagree' % (e, name), where, 'the name "%s" denotes %s here but %s in another table' % (name, short(q), short(full[name])))
                    else:
                        res.ok('%s: "%s" denotes %s only' % (f['q'], name, short(q)))
                    full.setdefault(name, q)
            sw = swap_better([(q, [name]) for name, q in d.items()])
            if sw:
                a, b = sw
                res.bad('%s|swapped|%s' % (f['q'], short(a)), '%s:%d' % (f['f'], f['l']), 'the names of %s and %s are exchanged' % (short(a), short(b)))
        acc[e] = full
        big = max((len(set(q for _, q, _ in pairs(prog, f))) for f in fs), default=0)
        missing = [q for q in enumerators if q not in full.values()]
        if full:
            for q in missing:
                res.bad('%s|%s|not accepted' % (e, short(q)), '%s:%d' % (fs[0]['f'], fs[0]['l']), 'no name is accepted for %s' % q)
    for e, fs in sorted(printers.items()):
        for f in fs:
            seen = {}
            for x in prog.enums[e]['e']:
                q = '%s::%s' % (e, x['n'])
                s = {t for t in printed(prog, f, 1, q)}
                where = '%s:%d' % (f['f'], f['l'])
                if len(s) != 1:
                    if not s or any(t.startswith('<') for t in s): 
                        res.bad('%s|%s|not printed' % (e, x['n']), where, '%s has no printed name (%s)' % (q, sorted(s)))
                    else:
                        res.skip('%s: printed name of %s not a single literal: %s' % (f['q'], q, sorted(s)))
                    continue
                s, = s
                if s.startswith('<'):
                    res.bad('%s|%s|not printed' % (e, x['n']), where, '%s is printed as %s' % (q, s)); continue
                if s in seen:
                    res.bad('%s|%s|printed like' % (e, x['n']), where, '%s and %s are both printed as "%s"' % (seen[s], q, s)); continue
                seen[s] = q
                if e in acc and acc[e]:
                    if s not in acc[e]:
                        res.bad('%s|%s|printed, not accepted' % (e, x['n']), where, '%s is printed as "%s", which is not an accepted name' % (q, s)); continue
                    if acc[e][s] != q:
                        res.bad('%s|%s|printed, denotes other' % (e, x['n']), where, '%s is printed as "%s", which denotes %s when it is read' % (q, s, short(acc[e][s]))); continue
                res.ok('%s prints "%s"%s' % (q, s, ', which is read back as the same value' if e in acc else ''))
            sw = swap_better([(q, [s]) for s, q in seen.items()])
            if sw:
                res.bad('%s|printed swapped|%s' % (e, short(sw[0])), '%s:%d' % (f['f'], f['l']), 'the printed names of %s and %s are exchanged' % (short(sw[0]), short(sw[1])))
    res.info = {'units': len(prog.units), 'tables': sum(map(len, tables.values())), 'printers': sum(map(len, printers.values())), 'names': nnames}
    return res
