"""Objects are complete: every constructor gives every scalar field a value, copies, moves and swaps cover every field."""
from kit import *

def dirs():
    return ('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'kaminpar-mpi', 'kaminpar-cli', 'apps')

def units():
    probe = [os.path.join(VERIF, 'probe', f) for f in sorted(os.listdir(os.path.join(VERIF, 'probe'))) if f.endswith('.cc')]
    return probe + all_units(*dirs())

PRIM = {'bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double',
        '__int128', 'unsigned __int128'}

class Construct:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.must = {}
    def scalar(self, t):
        t = t.replace('volatile ', '').replace('(anonymous namespace)', '(anon)')
        return t in PRIM or t.endswith('*') or t.endswith('*const') or t in self.prog.enums

    # fields of *this that a function certainly assigns
    def assigned_fields(self, fn, stack=()):
        u = fn['u']
        if u in self.must: return self.must[u]
        if u in stack or not fn.get('cfg'): return frozenset()
        q = fn['cls'] + '::'
        def own(e):
            e = strip(e)
            if e['k'] == 'Mem' and (not e.get('c') or e['c'][0] is None or strip(e['c'][0])['k'] == 'This') : return e['q']
            return None
        def transfer(n, s):
            k = n['k']
            if k == 'Bin' and n['op'] == '=' or k == 'OpCall' and n['op'] == '=':
                f = own(n['c'][0])
                if f: return [s | {f}]
            if k in ('MCall', 'Call', 'OpCall'):
                g = fn_of(self.prog, n)
                add = set()
                if k == 'MCall' and (n['c'][0] is None or strip(n['c'][0])['k'] == 'This') and g is not None and g is not fn and g.get('cls'):
                    add |= self.assigned_fields(g, stack + (u,))
                # handed out by reference: std::tie, swap, exchange, read(...), MPI_Comm_rank(&x)
                for a, byref in zip(args(n), self.refs(n)):
                    e = strip(a)
                    if e['k'] == 'Un' and e['op'] == '&': e = strip(e['c'][0]); byref = True
                    f = own(e)
                    if f and byref: add.add(f)
                # lambda run at once
                for a in args(n):
                    l = strip(a)
                    if l['k'] == 'Lambda':
                        for b in lambda_bodies(self.prog, fn, l): add |= self.lambda_assigned(b, fn, stack + (u,))
                if k == 'OpCall' and n['op'] == '()' or k == 'Call' and n.get('ind'):
                    l = strip(n['c'][0])
                    if l['k'] == 'Lambda':
                        for b in lambda_bodies(self.prog, fn, l): add |= self.lambda_assigned(b, fn, stack + (u,))
                if add: return [s | add]
            return [s]
        # one state per point: intersection
        g = fn['cfg']; bl = blocks(fn); idx, _ = index(fn)
        entry = {b: None for b in bl}
        entry[g['entry']] = frozenset()
        work = [g['entry']]; out = None
        while work:
            b = work.pop()
            s = entry[b]
            thrown = False
            for e in bl[b]['e']:
                n = idx.get(e)
                if n is not None:
                    if n['k'] == 'Throw': thrown = True
                    s = frozenset(transfer(n, s)[0])
            if thrown: continue
            if b == g['exit']: out = s; continue
            if bl[b].get('nr'): continue
            for t in bl[b]['s']:
                if t is None: continue
                ns = s if entry[t] is None else entry[t] & s
                if ns != entry[t]: entry[t] = ns; work.append(t)
        r = out if out is not None else frozenset()
        # bodies of loops are taken to run
        for n in nodes(fn):
            if n['k'] in ('For', 'While', 'RangeFor') : r = r | self.straight(n['c'][-1], own)
        if not stack: self.must[u] = r
        return r
    def straight(self, n, own):
        """fields assigned on every way through a statement"""
        if not isinstance(n, dict): return frozenset()
        k = n['k']
        if k in ('Compound', 'Block', 'Case', 'Default', 'Attributed', 'Label', 'Cleanups'):
            r = frozenset()
            for c in n.get('c') or (): r |= self.straight(c, own)
            return r
        if k == 'If': return self.straight(n['c'][2], own) & self.straight(n['c'][3], own) if n['c'][3] else frozenset()
        if k in ('Bin', 'OpCall') and n.get('op') == '=':
            f = own(n['c'][0])
            return frozenset((f,)) if f else frozenset()
        return frozenset()
    def lambda_assigned(self, b, fn, stack):
        if 'cls' not in b: b = dict(b, cls=fn['cls'])
        return self.assigned_fields(b, stack)
    def refs(self, n):
        pk = n.get('pk') or ''
        a = args(n)
        return [(pk[i] if i < len(pk) else 'v') in 'r' for i in range(len(a))]

    def run(self):
        self.fields()
        self.special()
        self.locals()

    # ------------------------------------------------------------ constructors
    def fields(self):
        prog, res = self.prog, self.res
        ctors, writers, readers = {}, {}, {}
        inctor = {}          # bodies of lambdas inside constructors
        for f in prog.fns.values():
            if f.get('dep') or not in_tree(f['f']): continue
            if f.get('ctor') and not f.get('lambda'):
                ctors.setdefault(f['clst'], []).append(f)
                st = [f]
                while st:
                    g = st.pop()
                    for n in nodes(g):
                        if n['k'] == 'Lambda':
                            for b in lambda_bodies(prog, g, n):
                                if b['u'] not in inctor: inctor[b['u']] = f; st.append(b)
        for f in prog.fns.values():
            if f.get('dep') or not in_tree(f['f']): continue
            wr = set()
            for n in nodes(f):
                if n['k'] == 'Bin' and n['op'] == '=' or n['k'] == 'OpCall' and n['op'] == '=':
                    e = strip(n['c'][0])
                    if e['k'] == 'Mem' and e.get('q'): writers.setdefault(e['q'], set()).add(f['u']); wr.add(id(e))
                if n['k'] == 'Un' and n['op'] == '&':
                    e = strip(n['c'][0])
                    if e['k'] == 'Mem' and e.get('q'): writers.setdefault(e['q'], set()).add(f['u'])
                if n['k'] in CALLS and 'r' in (n.get('pk') or ''):
                    for a, r in zip(args(n), self.refs(n)):
                        e = strip(a)
                        if r and e['k'] == 'Mem' and e.get('q'): writers.setdefault(e['q'], set()).add(f['u'])
            for n in nodes(f):
                if n['k'] == 'Mem' and n.get('q') and id(n) not in wr: readers.setdefault(n['q'], f)
        deferred = {}
        for r in sorted(prog.recs.values(), key=lambda r: (r['f'], r['l'], r['t'])):
            if r.get('dep') or not in_tree(r['f']): continue
            sc = [x for x in r['fields'] if self.scalar(x['t']) and 'init' not in x and not x.get('static')]
            cs = [c for c in ctors.get(r['t'], []) if not any(i.get('deleg') for i in c.get('inits') or ()) and (c.get('cfg') or c.get('inits'))]
            if not sc or not cs: continue
            have = {}
            for c in cs:
                h = {i['n'] for i in c.get('inits') or () if 'n' in i and i.get('e') is not None and not (i['e']['k'] == 'Ctor' and not i['e'].get('c') and not i.get('w'))}
                if c.get('cfg'): h |= {q.rsplit('::', 1)[-1] for q in self.assigned_fields(c) if q.rsplit('::', 1)[0] == r['q']}
                # a constructor that replaces the whole object
                have[c['u']] = h
            for x in sc:
                q = r['q'] + '::' + x['n']
                without = [c for c in cs if x['n'] not in have[c['u']]]
                for c in cs:
                    if c not in without: res.ok('%s:%s initialises %s' % (c['f'], c['l'], q))
                if not without: continue
                if q not in readers: continue
                # objects created empty and replaced by a complete one later
                empty = lambda c: not c['p'] and not any(i.get('w') for i in c.get('inits') or ()) and not any(x['k'] not in ('Compound', 'Block', 'Empty') for x in walk(c.get('b')))
                if any(empty(c) for c in without) and any(prog.fns[u]['n'] == 'operator=' for u in writers.get(q, ()) if u in prog.fns): without = [c for c in without if not empty(c)]
                if not without: continue
                c = without[0]
                name = q
                if len(without) < len(cs) and not all(k.get('ctor') in ('copy', 'move') for k in cs if k not in without):
                    res.bad(name, at(c, c), 'this constructor of %s leaves %s without a value, other constructors give it one' % (r['q'], x['n'])); continue
                ws = [prog.fns[u] for u in writers.get(q, ()) if u in prog.fns and not prog.fns[u].get('ctor') and u not in inctor]
                whole = [f for f in ws if q in self.assigned_fields(f) or f.get('cls') != r['q'] or f.get('lambda')]
                if not ws: res.bad(name, at(c, c), 'no constructor of %s gives %s a value, and nothing else does before it is read (%s)' % (r['q'], x['n'], readers[q]['q']))
                elif not whole: res.bad(name, at(c, c), '%s has no value after construction, and %s gives it one on some paths only' % (q, ', '.join(sorted({f['n'] for f in ws}))))
                elif self.reset_only(r, q, without, whole): res.bad(name, at(c, c), 'this constructor gives a value to everything that %s sets anew, but not to %s' % (whole[0]['q'], q))
                else:
                    res.ok('%s is set by %s before use' % (q, whole[0]['q']))
                    deferred.setdefault(r['t'], []).append((q, {c['u'] for c in without}))
        self.clients(deferred)
        self.plain(ctors, readers)

    def reset_only(self, r, q, ctors, setups):
        """the set-up functions only start over what every constructor has set up already"""
        for f in setups:
            if f.get('cls') != r['q'] or f.get('lambda'): return False
            others = {x for x in self.assigned_fields(f) if x.rsplit('::', 1)[0] == r['q']} - {q}
            if not others: return False
            for c in ctors:
                if not c.get('inits') or not others <= {r['q'] + '::' + i['n'] for i in c['inits'] if 'n' in i and i.get('w')}: return False
        return True

    def clients(self, deferred):
        """objects that have to be set up after construction: local ones are, before anything reads the value"""
        prog, res = self.prog, self.res
        seen = set()
        for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f.get('cfg') or not in_tree(f['f']) or self.cut(f): continue
            for n in nodes(f):
                if n['k'] != 'Var' or n['t'] not in deferred or not n.get('c') or n['c'][0] is None: continue
                e = strip(n['c'][0])
                if e['k'] != 'Ctor': continue
                for q, cs in deferred[n['t']]:
                    if e.get('u') not in cs or (f['f'], n['l'], q) in seen: continue
                    seen.add((f['f'], n['l'], q))
                    ex, have = self.flow(f, n['d'], q, ())
                    if ex is not None: res.bad('%s|%s|%s' % (f['q'] or at(f, n), n['n'], q), ex, '%s is used before %s has a value' % (n['n'], q))
                    else: res.ok('%s in %s: %s is set before use' % (n['n'], f['q'], q))

    def cut(self, f):
        """part of a source file that does not compile: its statements are not all there"""
        return f.get('unit') in self.prog.broken and f['f'].endswith('.cc')

    def plain(self, ctors, readers):
        """local objects of a class without constructors: what has no initial value is given one before it is read"""
        prog, res = self.prog, self.res
        todo = {}
        for r in prog.recs.values():
            if r.get('dep') or not in_tree(r['f']) or r['t'] in ctors: continue
            sc = [r['q'] + '::' + x['n'] for x in r['fields'] if self.scalar(x['t']) and 'init' not in x and not x.get('static')]
            # two programs may each have one of the same name in their unnamed namespaces
            if sc: todo.setdefault(r['t'], []).append((r['f'], [q for q in sc if q in readers]))
        seen = set()
        for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f.get('cfg') or not in_tree(f['f']) or self.cut(f): continue
            for n in nodes(f):
                if n['k'] != 'Var' or n['t'] not in todo or n.get('static') or n.get('tls'): continue
                if n.get('c') and n['c'][0] is not None:
                    e = strip(n['c'][0])
                    if e['k'] != 'Ctor' or e.get('c') or e.get('zero') or e.get('list'): continue
                rs = todo[n['t']]
                for q in [x for rf, qs in rs if len(rs) == 1 and '(anonymous' not in n['t'] or rf == f['f'] for x in qs]:
                    if (f['f'], n['l'], q) in seen: continue
                    seen.add((f['f'], n['l'], q))
                    ex, have = self.flow(f, n['d'], q, ())
                    if ex is not None: res.bad('%s|%s|%s' % (f['q'] or at(f, n), n['n'], q), ex, '%s is used before %s has a value' % (n['n'], q))
                    else: res.ok('%s in %s: %s is set before use' % (n['n'], f['q'], q))

    def flow(self, fn, d, q, stack):
        """(where field q of the object (variable d, or *this) may be read before it is given a value, is it certainly given one)"""
        key = (fn['u'], d, q)
        if not hasattr(self, 'flows'): self.flows = {}
        if key in self.flows: return self.flows[key]
        if key in stack or not fn.get('cfg') or len(stack) > 12: return None, False
        idx, par = index(fn)
        def is_obj(e):
            if e is None: return d is None
            e = strip(e)
            if e['k'] == 'Un' and e['op'] in ('&', '*'): e = strip(e['c'][0])
            return e['k'] == 'This' if d is None else e['k'] == 'DRef' and e.get('d') == d
        where = []
        def transfer(n, s):
            k = n['k']
            if s: return s
            if k in ('Bin', 'OpCall') and n.get('op') == '=':
                l = strip(n['c'][0])
                if l['k'] == 'Mem' and l.get('q') == q and is_obj((l.get('c') or [None])[0]): return True
                if is_obj(l): return True
            if k == 'Mem' and n.get('q') == q and is_obj((n.get('c') or [None])[0]):
                p, c = par.get(n.get('i')), n
                while p is not None and p['k'] == 'Cast': p, c = par.get(p['i']), p
                if p is not None and p['k'] in ('Bin', 'OpCall') and p.get('op') == '=' and p['c'][0] is c: return s
                if p is not None and p['k'] == 'Un' and p['op'] == '&': return True
                if p is not None and p['k'] in CALLS:
                    # an option sets its variable only if it is given
                    if maybe_option(p, c): return s
                    for a, r in zip(args(p), self.refs(p)):
                        if a is c and r: return True
                where.append(at(fn, n)); return True
            if k == 'OpCall' and n['op'] == '()' and n['c'][0] is not None and strip(n['c'][0])['k'] == 'Lambda':
                # run on the spot
                for b in lambda_bodies(self.prog, fn, strip(n['c'][0])):
                    ex, have = self.flow(b, d, q, stack + (key,))
                    if ex is not None: where.append(at(fn, n)); return True
                    if have: return True
            if k in CALLS:
                g = fn_of(self.prog, n)
                if g is None or g is fn: return s
                if k == 'MCall' and is_obj(n['c'][0]) and not g.get('lambda'):
                    ex, have = self.flow(g, None, q, stack + (key,))
                    if ex is not None: where.append(at(fn, n)); return True
                    if have: return True
                for a, p in zip(args(n), g['p']):
                    if is_obj(a) and d is not None and strip(a)['k'] in ('DRef', 'Un'):
                        ex, have = self.flow(g, p['d'], q, stack + (key,))
                        if ex is not None: where.append(at(fn, n)); return True
                        if have: return True
            if k == 'MCall':
                o = option_step(n, lambda a: strip(a)['k'] == 'Mem' and strip(a).get('q') == q and is_obj((strip(a).get('c') or [None])[0]))
                if o == 1: where.append(at(fn, n))
                if o: return True
            if k == 'Lambda':
                # run here or later: what it does counts only if the value is there by then
                for b in lambda_bodies(self.prog, fn, n):
                    ex, have = self.flow(b, d, q, stack + (key,))
                    if have and ex is None: return True
            return s
        g = fn['cfg']; bl = blocks(fn)
        entry = {b: None for b in bl}; entry[g['entry']] = False
        # a variable: from its declaration on
        work = [g['entry']]; out = None
        while work:
            b = work.pop(); s = entry[b]; thrown = False
            for e in bl[b]['e']:
                n = idx.get(e)
                if n is None: continue
                if n['k'] == 'Throw': thrown = True
                s = transfer(n, s)
            if thrown or bl[b].get('nr'): continue
            if b == g['exit']: out = s; continue
            for t in bl[b]['s']:
                if t is None: continue
                ns = s if entry[t] is None else entry[t] and s
                if ns != entry[t]: entry[t] = ns; work.append(t)
        r = (where[0] if where else None, bool(out))
        if len(stack) == 0 or not stack: self.flows[key] = r
        return r

    # ------------------------------------------------------------ copies, moves, swaps
    def special(self):
        prog, res = self.prog, self.res
        recs = {r['t']: r for r in prog.recs.values()}
        seen = set()
        for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or f.get('lambda') or not f.get('cls') or not in_tree(f['f']): continue
            r = recs.get(f['clst'])
            if r is None or not r['fields'] or len(f['p']) != 1 or f['p'][0]['t'].replace('const ', '').rstrip('& ') != f['clst']: continue
            if not (f.get('ctor') in ('copy', 'move') or f['n'] in ('operator=', 'swap')): continue
            key0 = (f['f'], f['l'])
            if key0 in seen: continue
            seen.add(key0)
            pd = f['p'][0]['d']
            def of_other(n):
                return n['k'] == 'Mem' and n.get('c') and n['c'][0] is not None and strip(n['c'][0])['k'] == 'DRef' and strip(n['c'][0]).get('d') == pd
            def of_this(n):
                return n['k'] == 'Mem' and (not n.get('c') or n['c'][0] is None or strip(n['c'][0])['k'] == 'This')
            pairs = {}       # own field -> fields of the other object it is set from
            allf = whole = False
            for i in f.get('inits') or ():
                if 'n' in i and i.get('e') is not None: pairs.setdefault(i['n'], set()).update(n['n'] for n in walk(i['e']) if of_other(n))
                if i.get('deleg'): whole = True
            for n in nodes(f):
                own = set(); oth = set()
                if n['k'] in ('Bin', 'CAssign', 'OpCall') and assigned(n) is not None and len(n['c']) > 1:
                    l = strip(n['c'][0])
                    if of_this(l): own.add(l['n'])
                    if l['k'] == 'Un' and l['op'] == '*' and strip(l['c'][0])['k'] == 'This': whole |= any(x['k'] == 'DRef' and x.get('d') == pd for x in walk(n['c'][1]))
                    if l['k'] == 'Sub' and of_this(strip(l['c'][0])): own.add(strip(l['c'][0])['n'])
                    oth |= {x['n'] for x in walk(n['c'][1]) if of_other(x)}
                elif n['k'] in ('Call', 'MCall'):
                    sub = [strip(a) for a in args(n)] + ([strip(n['c'][0])] if n['k'] == 'MCall' and n['c'][0] is not None else [])
                    for a in sub:
                        if a['k'] == 'This' or a['k'] == 'DRef' and a.get('d') == pd: whole |= True if n['k'] != 'MCall' or a is not sub[-1] else whole
                        if of_this(a): own.add(a['n'])
                        oth |= {x['n'] for x in walk(a) if of_other(x)}
                    if n['k'] == 'MCall' and of_other(sub[-1]): oth.add(sub[-1]['n'])
                for o in own: pairs.setdefault(o, set()).update(oth)
            for x in r['fields']:
                if x.get('static') or 'mutex' in x['t']: continue
                src = pairs.get(x['n'])
                key = '%s::%s|%s' % (f['q'], f.get('ctor') or ('move' if '&&' in f['p'][0]['t'] else 'copy'), x['n'])
                if src is not None and x['n'] in src: res.ok('%s:%s takes over %s' % (f['f'], f['l'], x['n']))
                elif src: res.bad(key, at(f, f), '%s sets %s from %s of the other object' % (f['q'], x['n'], ', '.join(sorted(src))))
                elif whole: res.ok('%s:%s takes over the whole object' % (f['f'], f['l']))
                else: res.bad(key, at(f, f), '%s does not take over %s' % (f['q'], x['n']))

    # ------------------------------------------------------------ local variables
    def locals(self):
        prog, res = self.prog, self.res
        seen = set()
        for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or not f.get('cfg') or not in_tree(f['f']) or self.cut(f): continue
            vs = {}
            for n in nodes(f):
                if n['k'] == 'Var' and not n.get('c') and not n.get('static') and not n.get('tls') and self.scalar(n['t']): vs[n['d']] = n
            if not vs: continue
            k = (f['f'], f['l'], tuple(sorted(v['n'] for v in vs.values())))
            if k in seen: continue
            seen.add(k)
            idx, par = index(f)
            g = f['cfg']; bl = blocks(f)
            stable = stable_pred(f)
            def is_read(n):
                """0: only named (address, target of an assignment), 1: read, 2: given a value"""
                p, c = par.get(n.get('i')), n
                while p is not None and p['k'] == 'Cast': p, c = par.get(p['i']), p
                if p is None: return 1
                if p['k'] == 'Bin' and p['op'] == '=' and p['c'][0] is c: return 0
                if p['k'] == 'Un' and p['op'] == '&': return 2
                if p['k'] in CALLS:
                    if maybe_option(p, c): return 0
                    for a, r in zip(args(p), self.refs(p)):
                        if a is c and r: return 2
                    if p['k'] == 'OpCall' and p['op'] in ('>>', '='): return 2
                if p['k'] == 'Lambda': return 2
                if p['k'] == 'Var': return 2 if '&' in p['t'] else 1
                if p['k'] in ('InitList',): return 2
                return 1
            bad = {}
            def transfer(n, s):
                have, lits = s
                if n['k'] == 'Bin' and n['op'] == '=':
                    l = strip(n['c'][0])
                    if l['k'] == 'DRef' and l.get('d') in vs: return [(have | {l['d']}, lits)]
                if n['k'] == 'DRef' and n.get('d') in vs:
                    m = is_read(n)
                    if m == 2: return [(have | {n['d']}, lits)]
                    if m == 1 and n['d'] not in have and ('asked', n['d']) not in have: bad.setdefault(n['d'], n)
                if n['k'] == 'MCall':
                    for d in vs:
                        o = option_step(n, lambda a: strip(a)['k'] == 'DRef' and strip(a).get('d') == d)
                        if o == 1 and d not in have: bad.setdefault(d, n)
                        if o: return [(have | {('asked', d) if short(callee(n)) == 'required' else d}, lits)]
                if n['k'] == 'Lambda' and not callback(n, par):
                    caps = {c.get('d') for c in n.get('caps') or () if isinstance(c, dict)} & set(vs)
                    if caps: return [(have | caps, lits)]
                return [s]
            inits = {n['d']: n['c'][0] for n in nodes(f) if n['k'] == 'Var' and n['t'].startswith('const ') and len(n.get('c') or ()) == 1 and n['c'][0]}
            def loop(blk):
                """is the branch at the end of this block the condition of a loop?"""
                n = idx.get(blk.get('tc'))
                while n is not None:
                    p = par.get(n.get('i'))
                    if p is None: return False
                    if p['k'] in ('For', 'While', 'RangeFor', 'Do'): return p['k'] != 'Do'
                    if p['k'] not in ('Bin', 'Cast', 'Un'): return False
                    n = p
                return False
            loops = {b['id'] for b in bl.values() if len(b['s']) == 2 and loop(b)}
            def literal(blk, i):
                n = strip(idx.get(blk.get('tc'))) if 'tc' in blk else None
                # the last operand decides at the end of a chain of && or ||
                while n is not None and n['k'] == 'Bin' and n['op'] in ('&&', '||'): n = strip(n['c'][1])
                if n is not None and n['k'] == 'DRef' and n.get('d') in inits and len(blk['s']) == 2 and stable(inits[n['d']]):
                    return canon_literal(text(inits[n['d']]), i == 0)
                if n is not None and len(blk['s']) == 2 and n is not strip(idx.get(blk.get('tc'))): return canon_literal(text(n), i == 0) if stable(n) else None
                return branch_literal(f, blk, i, stable)
            def edge(blk, i, s):
                have, lits = s
                if blk['id'] in loops:
                    # the body of a loop is taken to run at least once
                    mark = ('loop', blk['id'])
                    if i == 0: return (have, lits | {mark})
                    return s if mark in lits else None
                lit = literal(blk, i)
                if lit is None: return s
                if (lit[0], not lit[1]) in lits: return None
                return (have, lits | {lit}) if len(lits) < 8 else s
            try: forward(f, (frozenset(), frozenset()), transfer, edge, limit=300, widen=lambda s: (s[0], frozenset()))
            except AnalysisBroken: res.skip('local variables of ' + f['q']); continue
            for d, v in vs.items():
                if d in bad: res.bad('%s|%s' % (f['q'] or at(f, f), v['n']), at(f, bad[d]), '%s may be read before it has a value' % v['n'])
                else: res.ok('%s in %s has a value whenever it is read' % (v['n'], f['q']))

def maybe_option(call, arg):
    """the call makes arg the variable of a command-line option: parsing leaves it alone if the option is not given"""
    return short(callee(call)) in ('add_option', 'add_flag') and any(a is arg for a in args(call))

def option_step(n, is_var):
    """1: the option of the variable reads it as its default, 2: the option has a default or must be given"""
    if n['k'] != 'MCall' or short(callee(n)) not in ('required', 'default_val', 'capture_default_str'): return 0
    m = n
    while m is not None and m['k'] in ('MCall', 'Cast'):
        if m['k'] == 'MCall' and short(callee(m)) in ('add_option', 'add_flag'):
            if not any(a is not None and is_var(a) for a in args(m)): return 0
            return 1 if short(callee(n)) == 'capture_default_str' else 2
        m = m['c'][0]
    return 0

def callback(n, par):
    """a lambda that is run only if its command-line option is given"""
    p, c = par.get(n.get('i')), n
    while p is not None and p['k'] in ('Cast', 'Ctor', 'Temp', 'Bind'): p, c = par.get(p['i']), p
    return p is not None and p['k'] in CALLS and short(callee(p)) in ('add_option_function', 'add_flag_function', 'add_flag_callback', 'each')

def in_tree(f):
    return f.startswith(dirs()) or f.startswith('include')

def run(tier):
    res = Result()
    prog = load(units(), allow_errors=('.cc',))
    Construct(prog, res).run()
    return res
