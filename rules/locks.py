"""Compare-and-swap updates, spin locks, ownership claims and mutexes: nothing is lost, everything is released, guarded data is changed under its lock."""
from kit import *

LOCKT = re.compile(r'^(const )?(std::(lock_guard|unique_lock|scoped_lock|shared_lock)\b|tbb::detail::d\d::(unique_)?(scoped_lock|rw_scoped_lock)|tbb::.*scoped_lock)')
MUTEXT = re.compile(r'^(std::(recursive_|shared_|timed_)?mutex|tbb::detail::d\d::\w*mutex)\b')
ACQ, REL = {1, 2, 4, 5}, {3, 4, 5}
NAMES = {'memory_order_relaxed': 0, 'relaxed': 0, 'memory_order_consume': 1, 'consume': 1, 'memory_order_acquire': 2, 'acquire': 2, 'memory_order_release': 3, 'release': 3, 'memory_order_acq_rel': 4, 'acq_rel': 4, 'memory_order_seq_cst': 5, 'seq_cst': 5}
# single-threaded phases: nothing runs in parallel when these are called (set-up, seeding, reporting)
QUIET = re.compile(r'(^|::)(Random::(reseed|get_seed|Random|reinit)|Timer::(annotate|tree|reset|print_\w+|elapsed_seconds)|HeapProfiler::(record_data_struct|reset|enable|disable|print_\w+|set_\w+|get_\w+|peak_\w+|alloc_\w+))$')
OWN = ('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'apps', 'probe/')

def deref(n):
    n = strip(n)
    return strip(n['c'][0]) if n['k'] == 'Un' and n['op'] == '&' else n

def leaf(n):
    """the operand a branch of a short-circuit condition is decided by, and whether it is negated"""
    pos = True
    n = strip(n)
    while n is not None:
        if n['k'] == 'Un' and n['op'] == '!': pos = not pos; n = strip(n['c'][0])
        elif n['k'] == 'Bin' and n['op'] in ('&&', '||'): n = strip(n['c'][1])
        elif n['k'] == 'Bin' and n['op'] in ('==', '!=') and strip(n['c'][1])['k'] == 'Bool':
            if (n['op'] == '==') != (strip(n['c'][1]).get('v') in ('true', '1')): pos = not pos
            n = strip(n['c'][0])
        else: break
    return n, pos

class Cas:
    """one compare-and-swap: pointer (lvalue), variable with the expected value, desired value"""
    def __init__(self, n):
        self.n = n
        if n['k'] == 'Atomic':
            self.loc, e, self.des = deref(n['c'][0]), deref(n['c'][1]), n['c'][2]
            self.ord = n.get('ord')
        else:
            a = args(n)
            self.loc, e, self.des = strip(n['c'][0]), strip(a[0]), a[1]
            o = [NAMES.get(short((strip(x).get('q') or strip(x).get('n') or '')), 5) for x in a[2:] if x is not None and strip(x)['k'] == 'DRef']
            self.ord = o[0] if o else 5
        self.exp = e if e['k'] == 'DRef' else None

def cval(n):
    n = strip(n)
    if 'cv' in n: return n['cv']
    if n['k'] in ('Int', 'Bool'): return {'true': '1', 'false': '0'}.get(n['v'], n['v'])
    if n['k'] == 'InitList' and not n.get('c'): return '0'
    return None

def is_cas(n):
    return n['k'] == 'Atomic' and 'compare_exchange' in n['op'] or n['k'] == 'MCall' and short(callee(n)).startswith('compare_exchange') and len(args(n)) >= 2

class Locks:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.fns = sorted((f for f in prog.fns.values() if not f.get('dep') and f['f'].startswith(OWN) and f.get('b')), key=lambda f: (f['f'], f['l'], f['u']))
        self.parents = {}

    def name(self, f):
        while f.get('lambda') and f.get('pf') is not None: f = f['pf']
        return re.sub(r'kaminpar::|shm::|dist::', '', f['q'].split('(')[0])

    def renames(self, fn):
        """references and constants that stand for another expression"""
        d = fn.get('_lren')
        if d is not None: return d
        d = fn['_lren'] = {}
        w = {text(a) for a in (assigned(n) for n in nodes(fn)) if a is not None}
        for n in nodes(fn):
            if n['k'] == 'Var' and n.get('c') and n['c'][0] is not None and (n.get('t') or '').endswith('&'):
                e = strip(n['c'][0])
                if e['k'] in ('DRef', 'Mem', 'Sub') or e['k'] == 'OpCall' and e['op'] == '[]': d[n['d']] = text(e, d)
        return d

    # ------------------------------------------------------------ reads of a location
    def reads(self, fn, e, P, T, depth=0):
        """the expression reads location P (directly, through a load or through a getter)"""
        for x in walk(e):
            if x['k'] in ('DRef', 'Mem', 'Sub', 'OpCall') and T(x) == P: return True
            if x['k'] in ('MCall', 'Call') and depth < 2:
                g = fn_of(self.prog, x)
                if g is not None and g.get('b'):
                    rs = [y['c'][0] for y in walk(g['b']) if y['k'] == 'Return' and y.get('c') and y['c'][0]]
                    sub = {p['d']: T(a) for p, a in zip(g['p'], args(x)) if a is not None and 'd' in p}
                    o = obj(x)
                    if o is not None and strip(o)['k'] != 'This': continue
                    T2 = lambda n: text(n, sub)
                    if any(self.reads(g, r, P, T2, depth + 1) for r in rs): return True
        return False

    def const(self, fn, e):
        e = strip(e)
        return not any(x['k'] in ('DRef', 'Mem', 'MCall', 'Call', 'Sub', 'OpCall', 'Atomic') and 'cv' not in x and x.get('dk') not in ('enum',) and not (x['k'] == 'DRef' and x.get('dk') == 'global') and not (x['k'] == 'Call' and callee(x).startswith('std::numeric_limits')) and not x.get('cexpr') for x in walk(e)) or cval(e) is not None

    # ------------------------------------------------------------ compare-and-swap
    def cas(self, fn):
        sites = [n for n in nodes(fn) if is_cas(n)]
        if not sites or not fn.get('cfg'): return
        ren = self.renames(fn)
        T = lambda n: text(n, ren)
        idx, par = index(fn)
        C = {n['i']: Cas(n) for n in sites}
        name = self.name(fn)
        for P in sorted({T(c.loc) for c in C.values()}):
            group = {i: c for i, c in C.items() if T(c.loc) == P}
            Es = {c.exp.get('d') for c in group.values() if c.exp is not None}
            if len(Es) != 1 or None in Es: self.res.skip('%s: expected value of %s' % (name, P)); continue
            self.cas_group(fn, name, P, group, Es.pop(), T)

    def cas_group(self, fn, name, P, group, E, T):
        idx, par = index(fn)
        ren = self.renames(fn)
        decls = {n['d']: n for n in nodes(fn) if n['k'] == 'Var'}
        # variables that make up the location
        pv = {x.get('d') for c in group.values() for x in walk(c.loc) if x['k'] == 'DRef'} - {None}
        for d in list(pv):
            if d in ren and decls.get(d) is not None: pv |= {x.get('d') for x in walk(decls[d]['c'][0]) if x['k'] == 'DRef'} - {None}
        holders = {}                 # variables that hold the outcome
        for i in group:
            p = par.get(i)
            while p is not None and p['k'] in ('Cast', 'DefInit'): p = par.get(p['i'])
            if p is not None and p['k'] == 'Var': holders[p['d']] = i
            if p is not None and p['k'] == 'Bin' and p['op'] == '=' and strip(p['c'][0])['k'] == 'DRef': holders[strip(p['c'][0])['d']] = i
        used = {}
        atcall = {}
        leaves, again = [], []
        vars_of = lambda n: {x.get('d') for x in walk(n) if x['k'] == 'DRef' and x.get('dk') not in ('enum', 'func', 'global')} - {None}
        # state: (pend, fresh, derived, stale, checked, lockfree, attempt)
        def setvar(s, d, e, n):
            pend, fresh, der, stale, chk, free, att = s
            if d in pv and d != E: pend, att, fresh = None, 0, 'none'
            if d == E:
                if e is None: fresh = 'none'
                elif self.reads(fn, e, P, T): fresh = 'load'
                elif self.const(fn, e): fresh = 'const'
                elif vars_of(e) & der and False: fresh = 'load'
                else: fresh = 'other'
                return (pend, fresh, frozenset(), stale | der, False, None, att)
            if d in holders: return s
            m = vars_of(e) if e is not None else set()
            if E in m or m & der: return (pend, fresh, der | {d}, stale - {d}, chk, free, att)
            if m & stale and d not in m: return (pend, fresh, der - {d}, stale | {d}, chk, free, att)
            return (pend, fresh, der - {d}, stale - {d}, chk, free, att)
        def transfer(n, s):
            if n['k'] == 'Decl':
                for v in n.get('c') or ():
                    if v and v['k'] == 'Var': s = setvar(s, v['d'], v['c'][0] if v.get('c') else None, v)
                return [s]
            if n['k'] == 'Var': return [setvar(s, n['d'], n['c'][0] if n.get('c') else None, n)]
            a = assigned(n)
            if a is not None and strip(a)['k'] == 'DRef':
                d = strip(a).get('d')
                if n['k'] == 'Bin' or n['k'] == 'OpCall' and n['op'] == '=': return [setvar(s, d, n['c'][1], n)]
                if d == E: return [s[:1] + ('other',) + s[2:]]
                if d in pv: return [(None, 'none', frozenset(), s[3] | s[2], False, None, 0)]
                return [s]
            if n.get('i') in group:
                pend, fresh, der, stale, chk, free, att = s
                atcall.setdefault(n['i'], set()).add((fresh, bool((vars_of(group[n['i']].des)) & stale), chk, free, att))
                if pend == 'ok': again.append(n)
                return [(('unk', n['i']), fresh, der, stale, chk, free, att)]
            return [s]
        def known(s, ok, i):
            pend, fresh, der, stale, chk, free, att = s
            used[i] = True
            if ok: return ('ok', fresh, der, stale, chk, free, att)
            return (('fail', fresh), 'garbage' if fresh in ('const', 'garbage') else 'load', frozenset(), stale | der, False, None, 1)
        def edge(blk, i, s):
            if len(blk['s']) != 2 or 'tc' not in blk: return s
            n = idx.get(blk['tc'])
            if n is None: return s
            n, sg = leaf(n)
            pos = (i == 0) == sg
            site = n['i'] if n.get('i') in group else holders.get(n.get('d')) if n['k'] == 'DRef' else None
            pend = s[0]
            if site is not None:
                if isinstance(pend, tuple) and pend[0] == 'unk': return known(s, pos, pend[1])
                if pend == 'ok' and site is not None: return s if pos else None
                if isinstance(pend, tuple) and pend[0] == 'fail' and n['k'] == 'DRef': return None if pos else s
                return s
            m = vars_of(n)
            if E in m or m & s[2]:
                free = s[5]
                if isinstance(pend, tuple) and pend[0] == 'unk': used[pend[1]] = True; pend = None    # told from the value that was found
                b = n
                if b['k'] == 'Bin' and b['op'] in ('==', '!=') and text(b['c'][1]) == '0':
                    if b['op'] == '==': pos = not pos
                    b = strip(b['c'][0])
                if b['k'] == 'Bin' and b['op'] == '&' and cval(b['c'][1]) is not None: free = None if pos else cval(b['c'][1])
                # the same value cannot pass a test and fail it
                return (pend if not (isinstance(pend, tuple) and pend[0] == 'fail') else ('fail', 'checked'), s[1], s[2], s[3], True, free, s[6])
            return s
        try: _, out = forward(fn, (None, 'none', frozenset(), frozenset(), False, None, 0), transfer, edge, limit=2000)
        except AnalysisBroken: self.res.skip('%s: no fixpoint' % name); return
        for i, c in group.items():
            n = c.n
            where = at(fn, n)
            key = '%s|cas|%s' % (name, re.sub(r'[^\w.\[\]]', '', T(c.des))[:30])
            p = par.get(i)
            while p is not None and p['k'] in ('Cast', 'DefInit') and (p.get('t') or '') != 'void': p = par.get(p['i'])
            returned = p is not None and (p['k'] == 'Return' or p['k'] in ('Un', 'Bin') and any(a['k'] == 'Return' for a in ancestors(fn, p))) or any(x['k'] == 'Return' and x.get('c') and x['c'][0] and any(y['k'] == 'DRef' and holders.get(y.get('d')) == i for y in walk(x['c'][0])) for x in nodes(fn))
            if i not in used and not returned and i in atcall:
                self.res.bad(key + '|ignored', where, '%s(): the compare-and-swap of %s may fail, but its outcome is not tested' % (name, P)); continue
            st = atcall.get(i, ())
            if not st: continue
            errs = []
            fr = {x[0] for x in st}
            if fr & {'none', 'other'}: errs.append('compares with a value that was not read from %s' % P)
            if any(x[0] == 'garbage' and not x[2] for x in st): errs.append('is retried without setting the expected value again')
            if any(x[1] for x in st): errs.append('stores a value computed from an outdated value of %s' % P)
            mentions = vars_of(c.des) & ({E} | {d for d in decls if decls[d].get('c') and decls[d]['c'][0] is not None and E in vars_of(decls[d]['c'][0])})
            asg = {strip(n2['c'][0]).get('d') for n2 in nodes(fn) if n2['k'] == 'Bin' and n2['op'] == '=' and strip(n2['c'][0])['k'] == 'DRef'}
            if 'load' in fr and not mentions and not vars_of(c.des) & asg and any(x[0] == 'load' and not x[2] for x in st):
                errs.append('overwrites %s with a value that does not depend on the value it replaces' % P)
            first, retry = [x for x in st if x[4] == 0], [x for x in st if x[4] == 1]
            if first and all(x[2] for x in first) and any(not x[2] for x in retry): errs.append('is retried without repeating the test that permitted the first attempt')
            # bit lock: taken only if nobody holds it
            K = self.bit(c, fn)
            if K is not None and any(x[3] is None or not (int(x[3]) & int(K)) == int(K) for x in st): errs.append('may take a lock whose bit is already set')
            if errs:
                for e in errs: self.res.bad(key + '|' + e.split()[0] + e.split()[-1], where, '%s(): the compare-and-swap of %s %s' % (name, P, e))
            else: self.res.ok('%s: compare-and-swap of %s is tested, fresh and depends on the value it replaces' % (name, P))
        key = '%s|loop|%s' % (name, P)
        where = at(fn, next(iter(group.values())).n)
        if again: self.res.bad(key + '|again', at(fn, again[0]), '%s(): the compare-and-swap of %s is repeated although it succeeded' % (name, P))
        else: self.res.ok('%s: no second exchange of %s after a successful one' % (name, P))
        gives = any(isinstance(s[0], tuple) and s[0][0] == 'fail' and s[0][1] == 'load' for s in out)
        if gives: self.res.bad(key + '|lost', where, '%s(): gives up the update of %s when another thread interferes' % (name, P))
        else: self.res.ok('%s: a failed exchange of %s is retried or its condition is tested again' % (name, P))

    def bit(self, c, f=None):
        """the constant bit a lock sets: desired = expected | K"""
        d = strip(c.des)
        if d['k'] == 'DRef' and f is not None:
            v = [x for x in nodes(f) if x['k'] == 'Var' and x.get('d') == d.get('d')]
            if v and v[0].get('c') and v[0]['c'][0] is not None: d = strip(v[0]['c'][0])
        if d['k'] == 'Bin' and d['op'] in ('|', '+', '^'):
            l, r = strip(d['c'][0]), strip(d['c'][1])
            for a, b in ((l, r), (r, l)):
                if a['k'] == 'DRef' and c.exp is not None and a.get('d') == c.exp.get('d') and cval(b) is not None:
                    v = int(cval(b))
                    if d['op'] == '|' and (v and v & (v - 1) == 0 or v < 0): return cval(b)
        return None

    # ------------------------------------------------------------ bit locks
    def field_at(self, fn, n):
        """(class, field, index text) of this.F[param]"""
        n = strip(n)
        if n['k'] == 'Sub' or n['k'] == 'OpCall' and n['op'] == '[]':
            b = strip(n['c'][0])
            if b['k'] == 'Mem' and (not b.get('c') or b['c'][0] is None or strip(b['c'][0])['k'] == 'This'): return fn.get('cls'), b['n'], text(n['c'][1])
        return None

    def bit_locks(self):
        """(class type, field) -> (K, lock methods, unlock methods)"""
        prog = self.prog
        self.L, self.U = {}, {}
        fam = {}
        for f in self.fns:
            if f.get('lambda') or not f.get('cls'): continue
            for n in nodes(f):
                if is_cas(n):
                    c = Cas(n)
                    K = self.bit(c, f)
                    w = self.field_at(f, c.loc)
                    if K is not None and w is not None:
                        fam.setdefault((f['cls'], w[1]), (int(K), c, f))
                        self.L[f['u']] = (f['cls'], w[1])
        self.fam = fam
        for f in self.fns:
            if f.get('lambda') or not f.get('cls'): continue
            for n in nodes(f):
                if n['k'] == 'Atomic' and 'store' in n['op'] or n['k'] == 'Atomic' and 'fetch_and' in n['op']:
                    w = self.field_at(f, deref(n['c'][0]))
                    if w is None or (f['cls'], w[1]) not in fam or f['u'] in self.L: continue
                    if len(f['p']) != 1 or w[2] != f['p'][0]['n']: continue
                    self.U[f['u']] = (f['cls'], w[1])
                    self.unlock(f, n, fam[(f['cls'], w[1])][0])
        for (cls, F), (K, c, f) in sorted(fam.items(), key=lambda x: str(x[0])):
            nm = self.name(f)
            if c.ord is not None and c.ord not in ACQ: self.res.bad('%s|acquire' % nm, at(f, c.n), '%s() takes the lock without acquire order: what the previous holder wrote may not be visible' % nm)
            else: self.res.ok('%s: lock is taken with acquire order' % nm)
            if not any(u == (cls, F) for u in self.U.values()): self.res.bad('%s|nounlock' % nm, at(f, c.n), '%s() takes a lock in %s, but nothing releases it' % (nm, F))

    def unlock(self, f, n, K):
        nm = self.name(f)
        if n.get('ord') is not None and n['ord'] not in REL: self.res.bad('%s|release' % nm, at(f, n), '%s() releases the lock without release order: the next holder may not see what was written under it' % nm)
        else: self.res.ok('%s: lock is released with release order' % nm)
        v = strip(n['c'][1])
        M = None
        if v['k'] == 'DRef':
            d = [x for x in nodes(f) if x['k'] == 'Var' and x.get('d') == v.get('d')]
            if d and d[0].get('c'): v = strip(d[0]['c'][0])
        if 'fetch_and' in n['op'] and cval(v) is not None: M = int(cval(v))
        elif v['k'] == 'Bin' and v['op'] == '&':
            for x in v['c']:
                if cval(x) is not None: M = int(cval(x))
        elif v['k'] == 'Bin' and v['op'] in ('-', '^') and cval(v['c'][1]) is not None: M = ~int(cval(v['c'][1]))
        elif v['k'] == 'Bin' and v['op'] == '&': M = None
        else:
            ok = cval(v) is None and not any(self.field_at(f, x) for x in walk(v))
            self.res.skip('%s: released value %s' % (nm, text(v)[:60])) if ok else self.res.bad('%s|unmask' % nm, at(f, n), '%s() stores the value back without clearing the lock bit' % nm)
            return
        if M is None: self.res.skip('%s: mask' % nm)
        elif M & K: self.res.bad('%s|unmask' % nm, at(f, n), '%s() does not clear the lock bit' % nm)
        elif (M | K) & (abs(K) * 2 - 1) != abs(K) * 2 - 1 and (M & (abs(K) - 1)) != abs(K) - 1: self.res.bad('%s|unmask' % nm, at(f, n), '%s() clears more than the lock bit' % nm)
        else: self.res.ok('%s: clears the lock bit and nothing else' % nm)

    def masked(self):
        """values stored next to a lock bit are read without the bit"""
        for f in self.fns:
            cls = f.get('cls') or f.get('clst')
            o = f
            while o.get('lambda') and o.get('pf') is not None: o = o['pf']
            if o['u'] in self.L or o['u'] in self.U: continue
            fs = {F: k[0] for (c, F), k in self.fam.items() if c == o.get('cls')}
            if not fs: continue
            idx, par = index(f)
            for n in nodes(f):
                w = self.field_at(o, n)
                if w is None or w[1] not in fs: continue
                K = fs[w[1]]
                p, c = par.get(n['i']), n
                how = None
                while p is not None:
                    if assigned(p) is not None and strip(assigned(p)) is strip(c): how = 'write'; break
                    if p['k'] == 'Bin' and p['op'] == '&' and any(cval(x) is not None for x in p['c']):
                        m = [int(cval(x)) for x in p['c'] if cval(x) is not None]
                        how = 'lock' if m[0] & K and m[0] != K else 'ok'; break
                    if p['k'] == 'Var':
                        # every use of the variable is masked
                        us = [x for x in nodes(f) if x['k'] == 'DRef' and x.get('d') == p.get('d')]
                        how = 'ok' if us and all(self.maskuse(f, x, K) for x in us) else None; break
                    if p['k'] in ('Cast', 'DefInit') or p['k'] == 'Un' and p['op'] == '&' or p['k'] == 'Atomic' and 'load' in p['op']: c, p = p, par.get(p['i']); continue
                    if p['k'] == 'Atomic': how = 'write'
                    break
                nm = self.name(f)
                if how == 'write': continue
                if how == 'ok': self.res.ok('%s: %s is read without the lock bit' % (nm, w[1]))
                else: self.res.bad('%s|mask|%s' % (nm, w[1]), at(f, n), '%s() reads %s together with the lock bit another thread may have set' % (nm, w[1]))

    def maskuse(self, f, n, K):
        _, par = index(f)
        p = par.get(n['i'])
        while p is not None and p['k'] == 'Cast': p = par.get(p['i'])
        return p is not None and p['k'] == 'Bin' and p['op'] == '&' and any(cval(x) is not None and not int(cval(x)) & K for x in p['c'])

    # ------------------------------------------------------------ lock ... unlock
    def mutators(self, fn, n):
        """calls that change a table, in an argument lambda or directly: (callee, node)"""
        out = []
        def look(g):
            for x in nodes(g):
                if x['k'] == 'MCall' and not x.get('cst') and x['c'][0] is not None and strip(x['c'][0])['k'] in ('DRef', 'Call', 'MCall'):
                    h = fn_of(self.prog, x)
                    if h is not None and h['f'].startswith(OWN) and not h.get('cst') and 'HashMap' in callee(x).replace('HashTable', 'HashMap').replace('HashingTable', 'HashMap'): out.append((short(callee(x)), x))
        return out

    def table_ops(self, g, n):
        if n['k'] != 'MCall' or n['c'][0] is None: return None
        q = callee(n)
        if not re.search(r'Hash(ing)?(Map|Table)', q.rsplit('::', 1)[0]): return None
        h = fn_of(self.prog, n)
        if n.get('cst') or (h is not None and h.get('cst')) : return None
        if short(q) in ('get', 'for_each', 'count', 'capacity', 'size', 'find', 'max_size'): return None
        return short(q)

    def pairs(self):
        prog = self.prog
        guarded_ops = set()
        seen = []
        callers = {}
        for f in self.fns:
            o = f
            while o.get('lambda') and o.get('pf') is not None: o = o['pf']
            for n in nodes(f):
                if n['k'] in ('MCall', 'Call') and n.get('u'): callers.setdefault(n['u'], set()).add(o['u'])
        for f in self.fns:
            idx, par = index(f)
            acts = {}
            for n in nodes(f):
                if n['k'] == 'MCall' and n.get('u') in self.L: acts[n['i']] = 'L'
                if n['k'] == 'MCall' and n.get('u') in self.U: acts[n['i']] = 'U'
            nm = self.name(f)
            if acts and not f.get('cfg'): self.res.skip(nm + ': no control flow'); continue
            ren = self.renames(f)
            T = lambda n: text(n, ren)
            origin = {n['d']: n['c'][0] for n in nodes(f) if n['k'] == 'Var' and n.get('c') and n['c'][0] is not None}
            ops = []
            def tables(n):
                """table updates made by node n itself (its lambda arguments included)"""
                r = []
                q = self.table_ops(f, n)
                if q:
                    o = strip(n['c'][0])
                    if o['k'] == 'DRef' and o.get('d') in origin: o = strip(origin[o['d']])
                    if not (f.get('lambda') and o['k'] == 'DRef' and o.get('d') in {p.get('d') for p in f['p']}):    # judged where the lambda is handed over
                        r.append((q, {T(a) for a in (args(o) if o['k'] in CALLS else [])}, n))
                if n['k'] in ('MCall', 'Call', 'OpCall'):
                    for a in args(n):
                        if a is None: continue
                        l = strip(a)
                        if l['k'] != 'Lambda': continue
                        for b in lambda_bodies(prog, f, l)[:1]:
                            for x in nodes(b):
                                q = self.table_ops(b, x)
                                if not q: continue
                                o = strip(x['c'][0])
                                prm = {p.get('d') for p in b['p']}
                                if o['k'] == 'DRef' and o.get('d') in prm: r.append((q, {T(y) for y in args(n) if y is not None and strip(y)['k'] != 'Lambda'}, x))
                return r
            tn = {}
            for n in nodes(f):
                if n['k'] in ('MCall', 'Call', 'OpCall'):
                    r = tables(n)
                    if r: tn[n['i']] = r
            if not acts and not tn: continue
            if not f.get('cfg'): continue
            bad = []
            def transfer(n, s):
                if n.get('i') in acts:
                    v = T(args(n)[0])
                    if acts[n['i']] == 'L':
                        if v in s: bad.append((n, 'takes the lock of %s twice' % v, 'twice'))
                        elif s: bad.append((n, 'takes the lock of %s while it holds that of %s: two threads can wait for each other' % (v, ', '.join(sorted(s))), 'nested'))
                        return [s | {v}]
                    if v not in s: bad.append((n, 'releases the lock of %s without holding it' % v, 'unheld'))
                    return [s - {v}]
                if n.get('i') in tn:
                    for q, src, x in tn[n['i']]: ops.append((q, src, x, s))
                return [s]
            try: _, out = forward(f, frozenset(), transfer, None, limit=200)
            except AnalysisBroken: self.res.skip(nm); continue
            for n, m, k in bad: self.res.bad('%s|pair|%s' % (nm, k), at(f, n), '%s() %s' % (nm, m))
            if acts and not bad:
                left = set().union(*out) if out else set()
                if left: self.res.bad('%s|pair|left' % nm, at(f, idx[min(acts)]), '%s() returns without releasing the lock of %s on some path' % (nm, ', '.join(sorted(left))))
                else: self.res.ok('%s: every lock is released exactly once on every path' % nm)
            seen += [(f, q, src, x, s, bool(acts)) for q, src, x, s in ops]
            guarded_ops |= {q for q, src, x, s in ops if s}
        ini = {}
        def only_init(u, stack=()):
            """reached from initialisation only"""
            if u in ini: return ini[u]
            g = prog.fns.get(u)
            if g is None or u in stack: return True
            if short(g['q']) in ('initialize', 'init', 'recompute', 'recompute_all', 'clear', 'reset') or g.get('ctor'): return True
            cs = callers.get(u, set()) - {u}
            r = bool(cs) and all(only_init(c, stack + (u,)) for c in cs)
            ini[u] = r
            return r
        locked_cls = {k[0] for k in self.fam}
        for f, q, src, x, s, has in seen:
            o = f
            while o.get('lambda') and o.get('pf') is not None: o = o['pf']
            if o.get('cls') not in locked_cls or q not in guarded_ops | {'increase_by', 'decrease_by', 'insert', 'erase'}: continue
            nm = self.name(f)
            if s and (not src or src & s): self.res.ok('%s: %s() under the lock' % (nm, q)); continue
            if s: self.res.bad('%s|guard|other' % nm, at(f, x), '%s() changes the table of %s while it holds the lock of %s' % (nm, ', '.join(sorted(src)), ', '.join(sorted(s)))); continue
            if only_init(o['u']): self.res.ok('%s: %s() during initialisation' % (nm, q)); continue
            self.res.bad('%s|guard' % nm, at(f, x), '%s() changes the table of a node (%s) without holding its lock' % (nm, q))

    # ------------------------------------------------------------ ownership claims
    def claims(self):
        prog = self.prog
        claim, rel, free = {}, {}, {}
        for f in self.fns:
            if f.get('lambda') or not f.get('cls'): continue
            for n in nodes(f):
                if not is_cas(n): continue
                c = Cas(n)
                w = self.field_at(f, c.loc)
                if w is None or w[2] not in [p['n'] for p in f['p']] or self.bit(c, f) is not None or (f.get('t') or f.get('ret') or 'bool') == 'void': continue
                if strip(c.des)['k'] != 'DRef' or strip(c.des)['n'] not in [p['n'] for p in f['p']]: continue
                init = [x for x in nodes(f) if x['k'] == 'Var' and c.exp is not None and x.get('d') == c.exp.get('d')]
                cv = cval(init[0]['c'][0]) if init and init[0].get('c') and init[0]['c'][0] is not None else None
                if cv is None: continue
                ps = [p['n'] for p in f['p']]
                claim[f['u']] = (f['cls'], w[1], ps.index(w[2]), ps.index(strip(c.des)['n']), cv)
                free[(f['cls'], w[1])] = cv
                nm = self.name(f)
                if c.ord is not None and c.ord not in ACQ: self.res.bad('%s|acquire' % nm, at(f, n), '%s() claims a node without acquire order' % nm)
                else: self.res.ok('%s: claimed with acquire order' % nm)
                rs = [x for x in nodes(f) if x['k'] == 'Return' and x.get('c') and x['c'][0]]
                pol = set()
                for r in rs:
                    e = strip(r['c'][0]); p = True
                    while e['k'] == 'Un' and e['op'] == '!': p = not p; e = strip(e['c'][0])
                    if e is n or e['k'] == 'DRef': pol.add(p)
                if False in pol: self.res.bad('%s|polarity' % nm, at(f, n), '%s() reports failure when the claim succeeded' % nm)
        self.claim = claim
        fields = {v[:2] for v in claim.values()}
        for f in self.fns:
            if f.get('lambda') or not f.get('cls'): continue
            for n in nodes(f):
                if n['k'] == 'Atomic' and 'store' in n['op']:
                    w = self.field_at(f, deref(n['c'][0]))
                    if w is None or (f['cls'], w[1]) not in fields: continue
                    nm = self.name(f)
                    if n.get('ord') is not None and n['ord'] not in REL: self.res.bad('%s|release' % nm, at(f, n), '%s() gives up ownership without release order: the next owner may not see what was written' % nm)
                    else: self.res.ok('%s: ownership is given up with release order' % nm)
                    ps = [p['n'] for p in f['p']]
                    v = strip(n['c'][1])
                    if w[2] in ps and v['k'] == 'DRef' and v['n'] in ps: rel[f['u']] = (f['cls'], w[1], ps.index(w[2]), ps.index(v['n']))
        self.rel = rel
        owner = {}
        for f in self.fns:
            if f.get('lambda') or not f.get('cls') or f['u'] in rel or f['u'] in claim: continue
            for n in nodes(f):
                if n['k'] == 'Return' and n.get('c') and n['c'][0]:
                    for x in walk(n['c'][0]):
                        w = self.field_at(f, x)
                        if w and (f['cls'], w[1]) in fields and w[2] in [p['n'] for p in f['p']]: owner[f['u']] = 1
        self.owner = owner
        if not claim: return
        recorded = {}          # (class of the client, container) -> [(fn, node)]
        handed = {}            # function u -> parameter index of the callable that gets claimed nodes
        for f in self.fns:
            cl = [n for n in nodes(f) if n['k'] == 'MCall' and n.get('u') in claim]
            if not cl or not f.get('cfg'): continue
            self.claim_sites(f, cl, recorded, handed)
        # lambdas handed to such functions
        for f in self.fns:
            for n in nodes(f):
                if n['k'] in ('MCall', 'Call') and n.get('u') in handed:
                    for i in handed[n['u']]:
                        a = args(n)
                        if i >= len(a) or a[i] is None: continue
                        l = strip(a[i])
                        if l['k'] != 'Lambda': continue
                        for b in lambda_bodies(prog, f, l)[:1]:
                            if not b['p']: continue
                            v = b['p'][0]['n']
                            ok = self.records(b, v, recorded)
                            nm = self.name(f)
                            if ok: self.res.ok('%s: a claimed node is remembered' % nm)
                            else: self.res.bad('%s|claim|seed' % nm, at(b, n), '%s(): a node claimed through %s() is not remembered on every path and stays locked' % (nm, short(callee(n))))
        for (cls, cont), sites in sorted(recorded.items(), key=str): self.released(cls, cont, sites)
        self.unclaimed(recorded, handed)
        self.ids(claim)

    def records(self, b, v, recorded):
        """every path of the function puts v into a container"""
        if not b.get('cfg'): return True
        ren = self.renames(b)
        def transfer(n, s):
            r = self.recorder(b, n, v, ren)
            if r: recorded.setdefault(r, []).append((b, n)); return [True]
            return [s]
        _, out = forward(b, False, transfer)
        return False not in out

    def unclaimed(self, recorded, handed):
        """only nodes that were claimed are put into the lists of claimed nodes"""
        conts = set(recorded)
        # lists whose elements are released are lists of claimed nodes
        for f in self.fns:
            if f.get('lambda') or not f.get('cls') or not any(n['k'] == 'MCall' and n.get('u') in self.rel for g in [f] + [b for n in nodes(f) if n['k'] == 'Lambda' for b in lambda_bodies(self.prog, f, n)] for n in nodes(g)): continue
            for n in nodes(f):
                if n['k'] in ('RFor', 'RangeFor'):
                    for y in n['c']:
                        if isinstance(y, dict) and y['k'] == 'Mem' and self.loop_releases(f, n, y['n']): conts.add((f['cls'], y['n']))
        okl = set()
        for f in self.fns:
            for n in nodes(f):
                if n['k'] in ('MCall', 'Call') and n.get('u') in handed:
                    for a in args(n):
                        if a is not None and strip(a)['k'] == 'Lambda':
                            for b in lambda_bodies(self.prog, f, strip(a)): okl.add(b['u'])
        for f in self.fns:
            ren = self.renames(f)
            o = f
            while o.get('lambda') and o.get('pf') is not None: o = o['pf']
            if o.get('cls') not in {c for c, _ in conts} or not f.get('cfg'): continue
            pushes = {n['i']: (n, strip(n['c'][0])['n'], text(args(n)[0], ren)) for n in nodes(f) if n['k'] == 'MCall' and short(callee(n)) in ('push_back', 'emplace_back') and n['c'][0] is not None and strip(n['c'][0])['k'] == 'Mem' and (o['cls'], strip(n['c'][0])['n']) in conts and args(n)}
            if not pushes: continue
            nm = self.name(f)
            idx, par = index(f)
            cl = {n['i']: n for n in nodes(f) if n['k'] == 'MCall' and n.get('u') in self.claim}
            hold = {}
            for i in cl:
                p = par.get(i)
                while p is not None and p['k'] in ('Cast', 'DefInit'): p = par.get(p['i'])
                if p is not None and p['k'] == 'Var': hold[p['d']] = i
            start = frozenset({f['p'][0]['n']}) if f['u'] in okl and f['p'] else frozenset()
            bad = []
            def transfer(n, s):
                if n.get('i') in pushes and pushes[n['i']][2] not in s: bad.append(n)
                return [s]
            def edge(blk, i, s):
                if len(blk['s']) != 2 or 'tc' not in blk: return s
                n = idx.get(blk['tc'])
                if n is None: return s
                n, sg = leaf(n)
                site = n['i'] if n.get('i') in cl else hold.get(n.get('d')) if n['k'] == 'DRef' else None
                if site is None: return s
                c = cl[site]; v = text(args(c)[self.claim[c['u']][2]], ren)
                return s | {v} if (i == 0) == sg else s - {v}
            forward(f, start, transfer, edge, limit=300)
            for n in bad: self.res.bad('%s|claim|without' % nm, at(f, n), '%s() treats node %s as its own without having claimed it' % (nm, pushes[n['i']][2]))
            if not bad: self.res.ok('%s: only claimed nodes are remembered as such' % nm)

    def recorder(self, f, n, v, ren):
        if n['k'] == 'MCall' and short(callee(n)) in ('push_back', 'emplace_back', 'push', 'emplace', 'insert', 'push_front') and callee(n).startswith('std::') and n['c'][0] is not None:
            a = args(n)
            if a and a[0] is not None and text(a[0], ren) == v:
                o = f
                while o.get('lambda') and o.get('pf') is not None: o = o['pf']
                c = strip(n['c'][0])
                if c['k'] in ('Mem', 'DRef'): return (o.get('cls') or '', c['n'])
        return None

    def claim_sites(self, f, cl, recorded, handed):
        ren = self.renames(f)
        T = lambda n: text(n, ren)
        ids = {n['i']: n for n in cl}
        idx, par = index(f)
        nm = self.name(f)
        hold = {}
        for i in ids:
            p = par.get(i)
            while p is not None and p['k'] in ('Cast', 'DefInit'): p = par.get(p['i'])
            if p is not None and p['k'] == 'Var': hold[p['d']] = i
        tested = set()
        params = {p.get('d'): j for j, p in enumerate(f['p'])}
        outer = f
        while outer.get('lambda') and outer.get('pf') is not None: outer = outer['pf']
        oparams = {(outer['unit'], p.get('d')): j for j, p in enumerate(outer['p'])}
        lost = []
        def transfer(n, s):
            if n.get('i') in ids:
                if s: lost.append((n, sorted(s)))
                return [s]
            for v in s:
                if self.recorder(f, n, v, ren):
                    recorded.setdefault(self.recorder(f, n, v, ren), []).append((f, n)); s = s - {v}
                elif n['k'] in ('OpCall', 'Call') and (n.get('op') == '()' or n.get('ind')):
                    c = strip(n['c'][0]); j = oparams.get((f['unit'], c.get('d')))
                    if c['k'] == 'DRef' and j is not None and len(n['c']) > 1 and n['c'][1] is not None and T(n['c'][1]) == v:
                        handed.setdefault(outer['u'], set()).add(j); s = s - {v}
                elif n['k'] == 'MCall' and n.get('u') in self.rel and T(args(n)[self.rel[n['u']][2]]) == v: s = s - {v}
            return [s]
        def edge(blk, i, s):
            if len(blk['s']) != 2 or 'tc' not in blk: return s
            n = idx.get(blk['tc'])
            if n is None: return s
            n, sg = leaf(n)
            pos = (i == 0) == sg
            site = n['i'] if n.get('i') in ids else hold.get(n.get('d')) if n['k'] == 'DRef' else None
            if site is None: return s
            tested.add(site)
            c = claim_of(ids[site])
            return s | {T(args(ids[site])[c[2]])} if pos else s
        claim_of = lambda n: self.claim[n['u']]
        _, out = forward(f, frozenset(), transfer, edge, limit=300)
        for i, n in ids.items():
            if i not in tested:
                p = par.get(i)
                if p is not None and p['k'] == 'Return': continue
                self.res.bad('%s|claim|ignored' % nm, at(f, n), '%s() tries to claim a node and does not test whether it got it' % nm)
        left = {v for s in out for v in s}
        if lost or left: self.res.bad('%s|claim|lost' % nm, at(f, cl[0]), '%s(): a node that was claimed (%s) is neither remembered nor released on some path' % (nm, ', '.join(sorted(left or {y for _, l in lost for y in l}))))
        else: self.res.ok('%s: every claimed node is remembered' % nm)

    def release_ok(self, b, v, held=None):
        """function b releases node v on every path a holder can take"""
        ren = dict(self.renames(b))
        idx, _ = index(b)
        own = set()
        for n in nodes(b):
            if n['k'] == 'Var' and n.get('c') and n['c'][0] is not None:
                e = strip(n['c'][0])
                if e['k'] == 'MCall' and e.get('u') in self.owner: own.add(n['d'])
        def isown(n): n = strip(n); return n['k'] == 'DRef' and n.get('d') in own or n['k'] == 'MCall' and n.get('u') in self.owner
        def transfer(n, s):
            if n['k'] == 'MCall' and n.get('u') in self.rel and text(args(n)[self.rel[n['u']][2]], ren) == v: return [True]
            return [s]
        def edge(blk, i, s):
            if len(blk['s']) != 2 or 'tc' not in blk: return s
            n = idx.get(blk['tc'])
            if n is None: return s
            n, sg = leaf(n)
            pos = (i == 0) == sg
            if n is not None and n['k'] == 'Bin' and n['op'] in ('==', '!=') and (isown(n['c'][0]) or isown(n['c'][1])):
                o = n['c'][1] if isown(n['c'][0]) else n['c'][0]
                const = cval(o) is not None or strip(o).get('dk') in ('enum',)
                true = not const           # the owner is our own ID, which is none of the constants
                if n['op'] == '!=': true = not true
                if pos != true: return None
            return s
        _, out = forward(b, False, transfer, edge)
        return bool(out) and False not in out

    def released(self, cls, cont, sites):
        prog = self.prog
        cand = []
        for f in self.fns:
            if f.get('cls') != cls or f.get('lambda'): continue
            for n in nodes(f):
                if n['k'] in ('RFor', 'RangeFor', 'For', 'While'): cand.append((f, n))
        loops = []
        for f, n in cand:
            vs = [v for v in (n.get('c') or ()) if isinstance(v, dict)]
            rng = [x for y in vs if y['k'] not in ('Compound',) for x in walk(y) if x['k'] in ('Mem', 'DRef') and x['n'] == cont]
            if n['k'] in ('For', 'While'): rng = [1] if any(x['k'] == 'MCall' and x.get('u') in self.rel or x['k'] == 'OpCall' and x.get('op') == '()' for x in walk(n)) and any(x.get('n') == cont for x in walk(n)) else []
            if rng and self.loop_releases(f, n, cont): loops.append((f, n))
            elif rng: loops.append((f, None))
        nm = re.sub(r'kaminpar::|shm::|dist::', '', cls).split('<')[0]
        if not [1 for f, n in loops if n is not None]:
            self.res.bad('%s|released|%s' % (nm, cont), at(sites[0][0], sites[0][1]), '%s: the nodes claimed in %s are not released on every path' % (nm, cont)); return
        self.res.ok('%s: nodes claimed in %s are released' % (nm, cont))
        f, loop = [x for x in loops if x[1] is not None][0]
        # on every path from a claim to the end of the function
        idx, _ = index(f)
        marks = set()
        for g, n in sites:
            h = g
            while h['u'] != f['u'] and h.get('lambda') and h.get('pf') is not None:
                # the call the lambda is handed to
                h0, h = h, h['pf']
                for x in nodes(h):
                    if x['k'] in ('MCall', 'Call') and any(a is not None and strip(a)['k'] == 'Lambda' and h0['u'] in [b['u'] for b in lambda_bodies(prog, h, strip(a))] for a in args(x)):
                        if h['u'] == f['u']: marks.add(x['i'])
            if g['u'] == f['u']: marks.add(n['i'])
        cleared = []
        def transfer(n, s):
            if n.get('i') in marks: return ['dirty']
            if n['k'] == 'MCall' and short(callee(n)) == 'clear' and n['c'][0] is not None and strip(n['c'][0])['k'] in ('Mem', 'DRef') and strip(n['c'][0])['n'] == cont:
                if s == 'dirty': cleared.append(n)
                return ['cleared']
            return [s]
        def edge(blk, i, s):
            if s == 'dirty' and blk.get('t') == loop['i'] and i == 1: return 'clean'
            if len(blk['s']) != 2 or 'tc' not in blk or s != 'dirty': return s
            n = idx.get(blk['tc'])
            if n is None: return s
            n, sg = leaf(n)
            pos = (i == 0) == sg
            if n is not None and n['k'] == 'MCall' and short(callee(n)) == 'empty' and n['c'][0] is not None and strip(n['c'][0]).get('n') == cont and pos: return 'clean'
            return s
        _, out = forward(f, 'start', transfer, edge)
        key = '%s|released|%s' % (nm, cont)
        if not marks: self.res.skip('%s: where %s is filled' % (nm, cont)); return
        if 'dirty' in out: self.res.bad(key + '|path', at(f, loop), '%s() can return without releasing the nodes in %s' % (self.name(f), cont))
        elif cleared: self.res.bad(key + '|cleared', at(f, cleared[0]), '%s() forgets the nodes in %s before they are released' % (self.name(f), cont))
        else: self.res.ok('%s: %s is released on every path' % (nm, cont))
        # forgotten before the next round
        first = []
        def t2(n, s):
            if n['k'] == 'MCall' and short(callee(n)) == 'clear' and n['c'][0] is not None and strip(n['c'][0]).get('n') == cont: return ['c']
            if n.get('i') in marks: return ['d' if s in ('c', 'd') else 'D']
            return [s]
        _, out = forward(f, 's', t2)
        if out - {'c', 'd'} & out and any(x in ('D', 's') for x in out) and not all(x in ('c', 'd', 's') for x in out): self.res.bad(key + '|kept', at(f, loop), '%s() keeps released nodes in %s: the next round gives up nodes other threads own by then' % (self.name(f), cont))
        else: self.res.ok('%s: %s is emptied' % (nm, cont))

    def loop_releases(self, f, loop, cont):
        """every iteration releases its element"""
        ren = dict(self.renames(f))
        for n in nodes(f):
            if n['k'] == 'Var' and n.get('c') and n['c'][0] is not None:
                e = strip(n['c'][0])
                if (e['k'] == 'Sub' or e['k'] == 'OpCall' and e['op'] == '[]') and strip(e['c'][0]).get('n') == cont: ren[n['d']] = text(e, ren)
        var = None
        if loop['k'] in ('RFor', 'RangeFor'):
            for y in loop['c']:
                if isinstance(y, dict) and y['k'] in ('Var', 'Decl'):
                    for v in walk(y):
                        if v['k'] == 'Var' and not v['n'].startswith('__'): var = v
            if var is None: return False
        isel = lambda t: t == var['n'] if var is not None else bool(re.match(r'(this\.)?%s(\[|\.back\()' % re.escape(cont), t))
        lams = {}
        for n in nodes(f):
            if n['k'] == 'Var' and n.get('c') and n['c'][0] is not None and strip(n['c'][0])['k'] == 'Lambda': lams[n['d']] = strip(n['c'][0])
        viol = []
        def t(n, s):
            if s != 'need': return [s]
            if n['k'] == 'MCall' and n.get('u') in self.rel and isel(text(args(n)[self.rel[n['u']][2]], ren)): return ['done']
            if n['k'] == 'OpCall' and n.get('op') == '()' and strip(n['c'][0])['k'] == 'DRef' and strip(n['c'][0]).get('d') in lams and len(n['c']) > 1 and n['c'][1] is not None and isel(text(n['c'][1], ren)):
                bs = lambda_bodies(self.prog, f, lams[strip(n['c'][0])['d']])
                if bs and bs[0]['p'] and all(self.release_ok(b, b['p'][0]['n']) for b in bs): return ['done']
            if n['k'] in ('MCall', 'Call'):
                g = fn_of(self.prog, n)
                if g is not None and g.get('cls') == f.get('cls') and g.get('cfg'):
                    j = [k for k, a in enumerate(args(n)) if a is not None and isel(text(a, ren))]
                    if j and j[0] < len(g['p']) and self.release_ok(g, g['p'][j[0]]['n']): return ['done']
            return [s]
        idx, _ = index(f)
        def isown(n): return n['k'] == 'MCall' and n.get('u') in self.owner
        def edge(blk, i, s):
            if blk.get('t') == loop['i']:
                if s == 'need': viol.append(loop); return 'over'
                return 'need' if i == 0 else 'over'
            return s
        forward(f, 'out', t, edge)
        return not viol

    def ids(self, claim):
        """the ID a worker claims with is never the value that stands for a free node"""
        frees = {v[4] for v in claim.values()}
        for f in self.fns:
            for n in nodes(f):
                if n['k'] != 'MCall' or n.get('u') not in claim: continue
                a = strip(args(n)[claim[n['u']][3]])
                if a['k'] == 'Mem': self.id_field(f, n, a, frees)

    def id_field(self, f, site, mem, frees):
        o = f
        while o.get('lambda') and o.get('pf') is not None: o = o['pf']
        for g in self.fns:
            if not g.get('ctor') and not g.get('inits'): continue
            if g.get('cls') != o.get('cls'): continue
            for it in g.get('inits') or ():
                if it.get('n', it.get('m')) != mem['n'] or it.get('e') is None: continue
                e = strip(it['e'])
                if e['k'] == 'DRef' and e['n'] in [p['n'] for p in g['p']]: self.id_args(g, [p['n'] for p in g['p']].index(e['n']), frees, mem['n'])

    def id_args(self, ctor, j, frees, name):
        nm = re.sub(r'kaminpar::|shm::|dist::', '', ctor['q'].split('(')[0])
        for f in self.fns:
            for n in nodes(f):
                if n['k'] not in ('Ctor', 'New', 'Call', 'MCall'): continue
                if n['k'] == 'Ctor' and n.get('u') == ctor['u']: a = args(n)
                elif n['k'] == 'Call' and short(callee(n)) in ('make_unique', 'make_shared') and (ctor.get('cls') or '?') in str(n.get('ta') or n.get('t') or ''): a = args(n)
                else: continue
                if j >= len(a) or a[j] is None: continue
                e = strip(a[j])
                v = self.idvalue(f, e)
                where = at(f, n)
                if v == 'none': continue
                if v is None: self.res.skip('%s: ID %s' % (nm, text(e)[:50])); continue
                if v == 'const': self.res.bad('%s|id|const' % nm, where, '%s: all workers claim nodes with the same ID' % nm); continue
                if v <= max(int(x) for x in frees): self.res.bad('%s|id|free' % nm, where, '%s: the first worker gets the ID %d, which stands for a node that is free' % (nm, v))
                else: self.res.ok('%s: IDs start at %d' % (nm, v))

    def idvalue(self, f, e):
        """smallest value of a counter expression"""
        e = strip(e)
        if cval(e) is not None and e['k'] != 'DRef': return 'const'
        add, base = 0, None
        if e['k'] == 'Un' and e['op'] in ('++', 'p++') or e['k'] == 'OpCall' and e['op'] == '++': base = strip(e['c'][0]); add = 1 if self.pre(e) else 0
        elif e['k'] == 'MCall' and (short(callee(e)) in ('fetch_add',) or callee(e).endswith('operator++')): base = strip(e['c'][0]); add = 0 if short(callee(e)) == 'fetch_add' or len(args(e)) > 0 else 1
        elif e['k'] == 'Atomic' and 'fetch_add' in e['op']: base = deref(e['c'][0])
        elif e['k'] == 'Atomic' and 'add_fetch' in e['op']: base, add = deref(e['c'][0]), 1
        elif e['k'] == 'Bin' and e['op'] == '+' and cval(e['c'][1]) is not None:
            v = self.idvalue(f, e['c'][0])
            return v + int(cval(e['c'][1])) if isinstance(v, int) else v
        if base is None or base['k'] != 'DRef': return None
        g = f
        while g is not None:
            for x in nodes(g):
                if x['k'] == 'Var' and x.get('d') == base.get('d'):
                    if not x.get('c') or x['c'][0] is None: return None
                    i = [y for y in walk(x['c'][0]) if cval(y) is not None]
                    return int(cval(i[0])) + add if i else (add if not list(kids(x['c'][0])) else None)
            g = g.get('pf') if g.get('lambda') else None
        return None

    def pre(self, e):
        if e['k'] == 'Un': return e['op'] == '++'
        return len(e['c']) == 1

    # ------------------------------------------------------------ mutexes
    def guards(self):
        for f in self.fns:
            idx, par = index(f)
            for n in nodes(f):
                if n['k'] == 'Ctor' and LOCKT.search(n.get('t') or ''):
                    p = par.get(n['i'])
                    while p is not None and p['k'] in ('Cast', 'DefInit', 'InitList'): p = par.get(p['i'])
                    nm = self.name(f)
                    if p is None or p['k'] not in ('Var', 'Return', 'Lambda'): self.res.bad('%s|guard|temp' % nm, at(f, n), '%s() creates a lock guard that is destroyed at once' % nm)
                    elif p['k'] == 'Var' and not args(n): self.res.bad('%s|guard|empty' % nm, at(f, n), '%s() declares a lock guard that locks nothing' % nm)
                    elif p['k'] == 'Var' and args(n) and any(short(strip(a).get('q') or strip(a).get('n') or '') in ('defer_lock', 'try_to_lock') for a in args(n)[1:] if a is not None): self.res.skip('%s: deferred lock' % nm)
                    elif p['k'] == 'Var':
                        m = strip(args(n)[0])
                        own = m['k'] == 'DRef' and m.get('dk') in ('local', 'var') and any(x['k'] == 'Var' and x.get('d') == m.get('d') and MUTEXT.search(x.get('t') or '') and not x.get('static') for x in nodes(f))
                        if own and not f.get('lambda') and not self.captured(f, m): self.res.bad('%s|guard|local' % nm, at(f, n), '%s() locks a mutex of its own that no other thread uses' % nm)
                        else: self.res.ok('%s: guard object held to the end of its block' % nm)

    def idle(self):
        """every mutex of a class or of the program is locked somewhere"""
        used = set()
        for f in self.fns:
            for n in nodes(f):
                if n['k'] == 'Ctor' and LOCKT.search(n.get('t') or '') or n['k'] == 'MCall' and short(callee(n)) in ('lock', 'try_lock', 'acquire'):
                    for x in walk(n):
                        if x['k'] in ('Mem', 'DRef'): used.add(x['n'])
                if n['k'] == 'Return' and n.get('c') and n['c'][0] is not None and MUTEXT.search((n['c'][0].get('t') or '')): used |= {x['n'] for x in walk(n) if x['k'] in ('DRef', 'Mem')}
        decl = [(v['q'], v['f'], v['l']) for v in self.prog.vars.values() if MUTEXT.search(v.get('t') or '') and v['f'].startswith(OWN)]
        decl += [(r['q'] + '::' + x['n'], r.get('f', ''), x['l']) for r in self.prog.recs.values() if (r.get('f') or '').startswith(OWN) for x in r['fields'] if MUTEXT.search(x.get('t') or '')]
        for q, fl, l in sorted(set(decl)):
            nm = re.sub(r'kaminpar::|shm::|dist::', '', q)
            if short(q) in used: self.res.ok('%s is used' % nm)
            else: self.res.bad('%s|idle' % nm, '%s:%s' % (fl, l), 'nothing locks the mutex %s' % nm)

    def captured(self, f, m):
        for n in nodes(f):
            if n['k'] == 'Lambda':
                for b in lambda_bodies(self.prog, f, n):
                    if any(x['k'] == 'DRef' and x.get('n') == m['n'] for x in nodes(b)): return True
        return False

    def held(self, f, n):
        """mutexes (texts) locked by a guard declared before n in an enclosing block"""
        out = set()
        g = f
        while True:
            idx, par = index(g)
            c = n
            for p in ancestors(g, n):
                if p['k'] in ('Compound', 'Block'):
                    for x in p.get('c') or ():
                        if x is c: break
                        if not isinstance(x, dict): continue
                        for y in ([x] if x['k'] != 'Decl' else x.get('c') or ()):
                            if isinstance(y, dict) and y['k'] == 'Var' and LOCKT.search(y.get('t') or '') and y.get('c') and y['c'][0] is not None:
                                a = [z for z in walk(y['c'][0]) if z['k'] in ('Mem', 'DRef') and MUTEXT.search(z.get('t') or '')]
                                out |= {z['n'] for z in a}
                                # released early
                                for z in walk(p):
                                    if z['k'] == 'MCall' and short(callee(z)) in ('unlock', 'release') and z['c'][0] is not None and strip(z['c'][0]).get('n') == y['n'] and z.get('i', 0) < n.get('i', 0): out -= {q['n'] for q in a}
                c = p
            if not g.get('lambda') or g.get('pf') is None: return out
            # a lambda defined under the lock and called there
            pf = g['pf']
            nn = [x for x in nodes(pf) if x['k'] == 'Lambda' and g['u'] in [b['u'] for b in lambda_bodies(self.prog, pf, x)]]
            if not nn: return out
            g, n = pf, nn[0]

    def fields(self):
        """a field written under the mutex of its class is accessed under it everywhere"""
        mut = {}
        for f in self.fns:
            if f.get('cls'):
                for n in nodes(f):
                    if n['k'] in ('Mem', 'DRef') and MUTEXT.search(n.get('t') or ''): mut.setdefault(f['cls'], set()).add(n['n'])
        acc = {}
        callers = {}
        outer = lambda f: outer(f['pf']) if f.get('lambda') and f.get('pf') is not None else f
        hold = {}
        for f in self.fns:
            o = outer(f)
            for n in nodes(f):
                if n['k'] in ('MCall', 'Call') and n.get('u'):
                    callers.setdefault(n['u'], []).append((f, n, o))
            if o.get('cls') not in mut: continue
            idx, par = index(f)
            for n in nodes(f):
                q = n.get('q') or ''
                isf = n['k'] == 'Mem' and not n.get('fn') and (not n.get('c') or n['c'][0] is None or strip(n['c'][0])['k'] == 'This') or n['k'] == 'DRef' and n.get('dk') == 'global' and (o.get('cls') or '?').split('<')[0] in q
                if not isf or re.search(r'mutex\b', n.get('t') or '') or re.match(r'(const )?(std::atomic|kaminpar::parallel::Atomic)', n.get('t') or '') or (n.get('t') or '').startswith('const '): continue
                w = False
                c = n
                for p in ancestors(f, n):
                    a = assigned(p)
                    if a is not None and any(x is n for x in walk(a)): w = True; break
                    if p['k'] == 'MCall' and p['c'][0] is not None and any(x is n for x in walk(p['c'][0])) and not p.get('cst') and short(callee(p)) not in ('begin', 'end', 'find', 'contains', 'size', 'empty', 'back', 'front', 'at', 'data', 'get', 'count', 'elapsed'): w = True; break
                    if p['k'] in ('Compound', 'If', 'For', 'While', 'RFor', 'RangeFor'): break
                acc.setdefault((o['cls'], n['n']), []).append((f, n, w, o))
        def under(f, n, m, depth=0):
            if self.held(f, n) & m: return True
            o = outer(f)
            cs = callers.get(o['u'], [])
            if depth < 3 and cs and o.get('acc', 'private') != 'public' and all(under(g, c, m, depth + 1) for g, c, _ in cs): return True
            return False
        done = set()
        for (cls, fld), xs in sorted(acc.items(), key=str):
            m = mut[cls]
            st = [(f, n, w, o, under(f, n, m)) for f, n, w, o in xs]
            if not any(w and h for f, n, w, o, h in st): continue
            cn = re.sub(r'kaminpar::|shm::|dist::', '', cls).split('<')[0]
            for f, n, w, o, h in st:
                nm = self.name(f)
                if (nm, fld, f['l'], n.get('l')) in done: continue
                done.add((nm, fld, f['l'], n.get('l')))
                if not w and not h: continue
                if h: self.res.ok('%s: %s under the mutex' % (nm, fld)); continue
                if o.get('ctor') or o.get('dtor') or short(o['q']).startswith('~') or short(o['q'].split('(')[0]) == short(cls.split('<')[0]) or QUIET.search(re.sub(r'\(.*', '', o['q'])): continue
                self.res.bad('%s|mutex|%s' % (nm, fld), at(f, n), '%s() %s %s without the mutex that guards it elsewhere' % (nm, 'changes' if w else 'reads', fld))

    # ------------------------------------------------------------ read-modify-write split in two
    def split(self):
        """load; compute; store of the same location loses updates between the two"""
        for f in self.fns:
            o = f
            while o.get('lambda') and o.get('pf') is not None: o = o['pf']
            ren = None
            stores = []
            for n in nodes(f):
                if n['k'] == 'Atomic' and 'store' in n['op']: stores.append((n, deref(n['c'][0]), n['c'][1]))
                elif n['k'] == 'MCall' and short(callee(n)) == 'store' and ('atomic' in callee(n).lower()) and args(n): stores.append((n, strip(n['c'][0]), args(n)[0]))
                elif n['k'] == 'OpCall' and n['op'] == '=' and re.match(r'(std::atomic|kaminpar::parallel::Atomic)', strip(n['c'][0]).get('t') or ''): stores.append((n, strip(n['c'][0]), n['c'][1]))
            if not stores or o['u'] in self.U or o['u'] in self.L: continue
            ren = self.renames(f)
            T = lambda n: text(n, ren)
            vs = {n['d']: n for n in nodes(f) if n['k'] == 'Var'}
            for n, loc, val in stores:
                P = T(loc)
                es = [val] + [vs[x['d']]['c'][0] for x in walk(val) if x['k'] == 'DRef' and x.get('d') in vs and vs[x['d']].get('c') and vs[x['d']]['c'][0] is not None]
                hit = any(self.reads(f, e, P, T) for e in es)
                nm = self.name(f)
                if not hit: self.res.ok('%s: store to %s does not depend on its old value' % (nm, P[:40])); continue
                if self.held(f, n): self.res.ok('%s: update of %s under a mutex' % (nm, P[:40])); continue
                self.res.bad('%s|split|%s' % (nm, P[:40]), at(f, n), '%s() reads %s and stores a value computed from it: updates of other threads in between are lost' % (nm, P))

    # ------------------------------------------------------------ counters that hand out slots
    def slots(self):
        """a slot of a shared buffer is the one the counter handed out"""
        for f in self.fns:
            incs = {}
            idx, par = index(f)
            ren = self.renames(f)
            T = lambda n: text(n, ren)
            for n in nodes(f):
                loc = None
                if n['k'] == 'Atomic' and 'fetch_add' in n['op']: loc = deref(n['c'][0])
                elif n['k'] == 'MCall' and short(callee(n)) == 'fetch_add' and n['c'][0] is not None: loc = strip(n['c'][0])
                elif n['k'] == 'OpCall' and n['op'] == '++' and re.match(r'(std::atomic|kaminpar::parallel::Atomic)', strip(n['c'][0]).get('t') or ''): loc = strip(n['c'][0])
                elif n['k'] == 'MCall' and callee(n).endswith('operator++') and n['c'][0] is not None: loc = strip(n['c'][0])
                if loc is None: continue
                p = par.get(n['i'])
                while p is not None and p['k'] in ('Cast', 'DefInit'): p = par.get(p['i'])
                incs.setdefault(T(loc), []).append((n, p is None or p['k'] in ('Compound', 'If', 'For', 'While', 'Do')))
            for P, xs in incs.items():
                if '[' in P and False: continue
                nm = self.name(f)
                mine = {x.get('i') for n, _ in xs for x in walk(n)}
                hit = None
                for n in nodes(f):
                    ix = n['c'][1] if n['k'] == 'Sub' or n['k'] == 'OpCall' and n['op'] == '[]' and len(n['c']) > 1 else None
                    if ix is None: continue
                    for x in walk(ix):
                        if x.get('i') in mine: continue
                        if x['k'] in ('DRef', 'Mem', 'Sub', 'OpCall', 'Atomic', 'MCall') and (T(x) == P or x['k'] == 'Atomic' and 'load' in x['op'] and T(deref(x['c'][0])) == P): hit = n
                if hit is not None and self.shared(f, P): self.res.bad('%s|slot|%s' % (nm, P[:40]), at(f, hit), '%s() uses the current value of the shared counter %s as an index: another thread may have moved it on' % (nm, P))
                else: self.res.ok('%s: slots come from the increment of %s' % (nm, P[:40]))

    def shared(self, f, P): return True

def units():
    import races
    return races.units()

def run(tier):
    res = Result()
    prog = load(units(), allow_errors=('.cc',))
    r = Locks(prog, res)
    for f in r.fns: r.cas(f)
    r.bit_locks()
    r.masked()
    r.pairs()
    r.claims()
    r.guards()
    r.idle()
    r.fields()
    r.split()
    r.slots()
    return res
