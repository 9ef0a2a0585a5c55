"""Path-sensitive value numbering over the syntax tree of one function and the functions it inlines.

Every expression is mapped to a canonical text (sums in normal form, comparisons oriented, locals replaced by their
value, references by what they refer to), every path of the function to the ordered list of its effects: writes, atomic
updates and calls, each with the truth of the conditions decided before it. Loops and lambdas handed to other functions
are walked for one generic iteration: what they assign is unknown before and after, their effects carry the loop in `ctx`.
Nothing is solved; two values are the same if their texts are.
"""
from kit import *
from collections import namedtuple

class TooComplex(Exception):
    pass

E = namedtuple('E', 'kind target op val ctx lits node fn')
# kind: 'w' write (op '=' or compound), 'cas', 'call' (target: qualified name, op: object, val: tuple of arguments)

class LamV:
    def __init__(self, node, fn, env, this):
        self.node, self.fn, self.env, self.this = node, fn, env, this
    def __str__(self): return '<lambda>'
    def __repr__(self): return '<lambda>'

class St:
    __slots__ = ('env', 'lits', 'eff', 'ctx')
    def __init__(self, env, lits, eff, ctx):
        self.env, self.lits, self.eff, self.ctx = env, lits, eff, ctx
    def fork(self):
        return St(dict(self.env), self.lits, list(self.eff), self.ctx)

NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
ATOMW = {'__atomic_fetch_add': '+=', '__atomic_add_fetch': '+=', '__atomic_fetch_sub': '-=', '__atomic_sub_fetch': '-=',
         '__atomic_fetch_or': '|=', '__atomic_or_fetch': '|=', '__atomic_fetch_and': '&=', '__atomic_and_fetch': '&=',
         '__atomic_store_n': '=', '__atomic_store': '=', '__atomic_exchange_n': '='}
SKIPM = ('KASSERT', 'DBG', 'DBGC', 'DBGV', 'IFDBG', 'IF_DBG', 'LOG', 'LOG_WARNING', 'LOG_ERROR', 'LLOG', 'START_TIMER', 'STOP_TIMER', 'SCOPED_TIMER',
         'START_HEAP_PROFILER', 'STOP_HEAP_PROFILER', 'SCOPED_HEAP_PROFILER', 'RECORD', 'RECORD_DATA_STRUCT', 'RECORD_LOCAL_DATA_STRUCT', 'IF_STATS', 'IF_STATSC', 'STATS', 'TIMER_BARRIER', 'TIMED_SCOPE', 'ENABLE_HEAP_PROFILER', 'DISABLE_HEAP_PROFILER')

class VN:
    def __init__(self, prog, inline=lambda f, d: False, maxstates=300, maxdepth=6, skip=SKIPM, devirt=()):
        self.split_conditions = self.ctor_inits = False
        self.objvals = self.constglobals = self.localwrites = False     # objects named by their value; constexpr globals folded; writes to locals emitted
        self.applied = []     # (context, lambda, end states) of every generic application
        self.devirt = set(devirt)     # classes whose virtual functions are final: calls on them are resolved
        self.prog, self.inline, self.maxs, self.maxd = prog, inline, maxstates, maxdepth
        self.lin = {}
        self.stack = []
        self.uid = 0
        self.skipm = set(skip)

    # ------------------------------------------------------------ canonical values
    def linof(self, v):
        if v in self.lin: return self.lin[v]
        if re.fullmatch(r'-?\d+', v): return {'': int(v)}
        return {v: 1}
    def mklin(self, d):
        d = {a: c for a, c in d.items() if c}
        if not d: return '0'
        if len(d) == 1:
            (a, c), = d.items()
            if a == '': return str(c)
            if c == 1: return a
        parts = []
        for a in sorted(d):
            c = d[a]
            t = a if a else ''
            if a == '': t = str(abs(c))
            elif abs(c) != 1: t = '%d*%s' % (abs(c), a)
            parts.append((' - ' if c < 0 else ' + ') + t)
        s = ''.join(parts)
        s = '(' + (s[3:] if s.startswith(' + ') else '-' + s[3:]) + ')'
        self.lin[s] = d
        return s
    def add(self, a, b, sign=1):
        d = dict(self.linof(a))
        for k, c in self.linof(b).items(): d[k] = d.get(k, 0) + sign * c
        return self.mklin(d)
    def bin(self, op, a, b):
        a, b = str(a), str(b)
        if op == '+': return self.add(a, b)
        if op == '-': return self.add(a, b, -1)
        if op == '*':
            la, lb = self.linof(a), self.linof(b)
            if set(la) <= {''} or set(lb) <= {''}:
                if set(lb) <= {''}: la, lb = lb, la
                k = la.get('', 0)
                return self.mklin({x: c * k for x, c in lb.items()})
            return '(%s * %s)' % tuple(sorted((a, b)))
        if op in ('&', '|', '^'): return '(%s %s %s)' % (min(a, b), op, max(a, b))
        return '(%s %s %s)' % (a, op, b)
    def cmp(self, op, a, b):
        """canonical (text, truth) of a comparison"""
        a, b = str(a), str(b)
        if op in ('==', '!='):
            if a == b: return 'true', op == '=='
            if re.fullmatch(r'-?\d+', a) and re.fullmatch(r'-?\d+', b): return 'false', op == '=='
            if {a[:1], b[:1]} >= {'&'} and 'nullptr' in (a, b): return 'false', op == '=='
            x, y = sorted((a, b))
            if re.fullmatch(r'-?\d+', x): x, y = y, x
            return '(%s == %s)' % (x, y), op == '=='
        if op in ('>', '>='): a, b, op = b, a, SWAP[op]
        # a < b  <=>  not (b <= a); integers
        if re.fullmatch(r'-?\d+', a) and re.fullmatch(r'-?\d+', b): return 'true', (int(a) < int(b) if op == '<' else int(a) <= int(b))
        d = self.add(b, a, -1)       # b - a > 0 or >= 0
        if op == '<': return '[%s > 0]' % d, True
        n = self.add(a, b, -1)       # a <= b  <=>  not (a - b > 0)
        return '[%s > 0]' % n, False

    # ------------------------------------------------------------ memory
    def rd(self, path, st):
        if path in st.env: return st.env[path]
        if '#' in path and not any(c in path for c in '.[('): return path.split('#')[0]
        return path
    def root_kill(self, path, st):
        for k in [k for k in st.env if k.startswith(path) and k != path and k[len(path):len(path) + 1] in '.[']: del st.env[k]
    def lit(self, st, t, truth):
        if t in ('true', '1'): return st if truth else None
        if t in ('false', '0'): return None if truth else st
        if (t, not truth) in st.lits: return None
        st.lits = st.lits | {(t, truth)}
        return st
    def emit(self, st, kind, target, op, val, node):
        st.eff.append(E(kind, target, op, val, st.ctx, st.lits, node, self.stack[-1][0]))
    def write(self, st, path, op, val, node):
        local = '#' in path.split('[')[0].split('.')[0] and '[' not in path
        if not local or self.localwrites:
            self.emit(st, 'w', path, op, str(val), node)
        if op == '=':
            self.root_kill(path, st)
            st.env[path] = val
        else:
            old = str(self.rd(path, st))
            st.env[path] = self.bin(op[0], old, val) if op in ('+=', '-=', '*=', '|=', '&=', '^=') else '(%s %s %s)' % (old, op[:-1], val)

    # ------------------------------------------------------------ lvalues
    def var(self, n):
        return '%s#%s.%s' % (n['n'], self.stack[-1][2], n['d'])
    def lv(self, n, st):
        """[(path, state)]"""
        n = strip(n)
        k = n['k']
        if k == 'DRef':
            if n.get('dk') == 'global' or n.get('dk') == 'enum' or n.get('dk') == 'func':
                return [(n.get('q') or n['n'], st)]
            v = self.var0(n, st)
            r = st.env.get('ref:' + v)
            return [(r if r is not None else v, st)]
        if k == 'Mem':
            b = n['c'][0] if n.get('c') else None
            if b is None or b['k'] == 'This': return [(self.this() + '.' + n['n'], st)]
            if n.get('arrow'):
                return [(self.deref(p) + '.' + n['n'], s) for p, s in self.ev(b, st)]
            return [(p + '.' + n['n'], s) for p, s in self.lv(b, st)]
        if k == 'This': return [(self.this(), st)]
        if k == 'Sub' or k == 'OpCall' and n['op'] == '[]':
            out = []
            for p, s in self.lv(n['c'][0], st):
                for i, s2 in self.ev(n['c'][1], s): out.append(('%s[%s]' % (p, i), s2))
            return out
        if k == 'Un' and n['op'] == '*' or k == 'OpCall' and n['op'] in ('*', '->') and len(n['c']) == 1:
            return [(self.deref(p), s) for p, s in self.ev(n['c'][0], st)]
        if k == 'Un' and n['op'] in ('++', '--') or k in ('Bin', 'CAssign') and (k == 'CAssign' or n['op'] == '='):
            return [(p, s2) for p, s in self.lv(n['c'][0], st) for _, s2 in self.ev(n, s)]
        return [(str(v), s) for v, s in self.ev(n, st)]
    def var0(self, n, st):
        """nearest activation that declares the variable (lambda bodies see the enclosing ones)"""
        fr = self.stack[-1]
        while fr is not None:
            v = '%s#%s.%s' % (n['n'], fr[2], n['d'])
            if v in st.env or 'ref:' + v in st.env: return v
            fr = fr[3]
        return self.var(n)
    def this(self): return self.stack[-1][1]
    def deref(self, p):
        p = str(p)
        if p.startswith('&'): return p[1:]
        if p == 'this': return self.this()
        return '*' + p if not p.startswith('this') else p

    # ------------------------------------------------------------ expressions
    def evs(self, ns, st):
        res = [([], st)]
        for n in ns:
            nx = []
            for vs, s in res:
                if n is None:
                    nx.append((vs + [''], s)); continue
                for v, s2 in self.ev(n, s): nx.append((vs + [v], s2))
            res = nx
            self.cap(res)
        return res
    def cap(self, r):
        if len(r) > self.maxs: raise TooComplex()

    def skipped(self, n):
        m = n.get('m')
        return bool(m) and any(x in self.skipm for x in m.split('>'))

    def ev(self, n, st):
        """[(value, state)]"""
        n = strip(n)
        if n is None: return [('', st)]
        k = n['k']
        if self.skipped(n): return [('<skipped>', st)]
        if 'cv' in n and k not in ('CAssign',) and not (k == 'DRef' and n.get('dk') == 'enum') and not (k == 'DRef' and n.get('dk') == 'global' and n.get('q') and not self.constglobals):
            t = n.get('t', '')
            if t == 'bool': return [('true' if n['cv'] not in ('0',) else 'false', st)]
            return [(n['cv'], st)]
        if k in ('Int', 'Float', 'Char', 'Bool'): return [(n['v'], st)]
        if k == 'Str': return [(json.dumps(n['v']), st)]
        if k == 'Null': return [('nullptr', st)]
        if k == 'This': return [('&' + self.this() if self.this() != 'this' else 'this', st)]
        if k == 'Lambda':
            return [(LamV(n, self.stack[-1][0], self.stack[-1], self.this()), st)]
        if k in ('DRef', 'Mem', 'Sub') or k == 'Un' and n['op'] == '*' or k == 'OpCall' and n['op'] in ('[]', '*', '->') and len(n['c']) <= 2:
            if k == 'Mem' and n.get('fn'): return [(p, s) for p, s in self.lv(n, st)]
            return [(self.rd(p, s), s) for p, s in self.lv(n, st)]
        if k == 'Un' and n['op'] == '&': return [('&' + p, s) for p, s in self.lv(n['c'][0], st)]
        a = assigned(n)
        if a is not None and not (k == 'OpCall' and n.get('u') and fn_of(self.prog, n) is not None):
            out = []
            if k == 'Un' or k == 'OpCall' and n['op'] in ('++', '--'):
                for p, s in self.lv(a, st):
                    old = self.rd(p, s)
                    self.write(s, p, '+=' if '++' in n['op'] else '-=', '1', n)
                    out.append((old if n['op'].startswith('p') else s.env.get(p, p), s))
                return out
            op = n.get('op', '=')
            for v, s in self.ev(n['c'][1], st):
                for p, s2 in self.lv(a, s):
                    self.write(s2, p, op, v, n)
                    out.append((self.rd(p, s2), s2))
            return out
        if k == 'Bin' and n['op'] in ('&&', '||') or k == 'Un' and n['op'] == '!' or k == 'Cond':
            if k == 'Cond':
                out = []
                for truth, s in self.cond(n['c'][0], st):
                    out += self.ev(n['c'][1 if truth else 2], s)
                self.cap(out)
                return out
            if not self.split_conditions and not any(x['k'] in CALLS + ('Atomic',) or assigned(x) is not None for x in walk(n)):
                t, pos = self.pure_cond(n, st)
                return [(t if pos else '!' + t, st)]
            return [('true' if t else 'false', s) for t, s in self.cond(n, st)]
        if k == 'Bin' and n['op'] in ('<', '>', '<=', '>=', '==', '!=') or k == 'OpCall' and n['op'] in ('<', '>', '<=', '>=', '==', '!='):
            out = []
            for (a, b), s in self.evs(n['c'][:2], st):
                t, pos = self.cmp(n['op'], a, b)
                out.append((t if pos else {'true': 'false', 'false': 'true'}.get(t, '!' + t), s))
            return out
        if k == 'Bin' and n['op'] == ',':
            return [(v, s2) for _, s in self.ev(n['c'][0], st) for v, s2 in self.ev(n['c'][1], s)]
        if k == 'Bin':
            return [(self.bin(n['op'], a, b), s) for (a, b), s in self.evs(n['c'], st)]
        if k == 'Un':
            return [(self.bin('-', '0', v) if n['op'] == '-' else '(%s%s)' % (n['op'], v), s) for v, s in self.ev(n['c'][0], st)]
        if k == 'Atomic': return self.atomic(n, st)
        if k == 'SizeOf': return [('sizeof(%s)' % n.get('st', ''), st)]
        if k == 'DefArg': return [(n.get('cv', '<default>'), st)]
        if k in CALLS: return self.call(n, st)
        if k == 'InitList':
            return [('{' + ', '.join(map(str, vs)) + '}', s) for vs, s in self.evs(n.get('c') or [], st)]
        if k == 'New':
            return [('new %s(%s)' % (n.get('t', ''), ', '.join(map(str, vs))), s) for vs, s in self.evs(n.get('c') or [], st)]
        if k == 'Throw':
            return [('throw', s) for _, s in self.evs(n.get('c') or [], st)]
        return [(k + '(' + ', '.join(map(str, vs)) + ')', s) for vs, s in self.evs([c for c in n.get('c') or [] if c], st)]

    def pure_cond(self, n, st):
        n = strip(n)
        if n['k'] == 'Un' and n['op'] == '!':
            t, p = self.pure_cond(n['c'][0], st)
            return t, not p
        if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
            xs = []
            op = n['op']
            def flat(m):
                m = strip(m)
                if m['k'] == 'Bin' and m['op'] == op:
                    flat(m['c'][0]); flat(m['c'][1])
                else:
                    t, p = self.pure_cond(m, st); xs.append(t if p else '!' + t)
            flat(n)
            return '(' + (' %s ' % op).join(sorted(xs)) + ')', True
        (v, _), = self.ev(n, st)[:1]
        v = str(v)
        return (v[1:], False) if v.startswith('!') else (v, True)

    def cond(self, n, st):
        """[(truth, state)] with the literal recorded"""
        n = strip(n)
        if n['k'] == 'Un' and n['op'] == '!':
            return [(not t, s) for t, s in self.cond(n['c'][0], st)]
        if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
            out = []
            for t, s in self.cond(n['c'][0], st):
                if t == (n['op'] == '&&'): out += self.cond(n['c'][1], s)
                else: out.append((t, s))
            self.cap(out)
            return out
        if n['k'] == 'Decl':
            out = []
            for s, sig in self.stmt(n, st):
                v = self.rd(self.var(n['c'][-1]), s)
                out += self.split(v, s)
            return out
        out = []
        for v, s in self.ev(n, st):
            out += self.split(v, s)
        self.cap(out)
        return out
    def split(self, v, s):
        v = str(v)
        pos = True
        if v.startswith('!'): v, pos = v[1:], False
        out = []
        f = s.fork()
        for truth, x in ((True, s), (False, f)):
            r = self.lit(x, v, truth == pos)
            if r is not None: out.append((truth, r))
        return out

    def atomic(self, n, st):
        op = n['op']
        out = []
        if op in ('__atomic_load_n', '__c11_atomic_load'):
            for p, s in self.ev(n['c'][0], st):
                out.append((self.rd(self.deref(p), s), s))
            return out
        if 'compare_exchange' in op:
            for (p, e, d), s in self.evs(n['c'], st):
                path = self.deref(p); ep = self.deref(e)
                exp = self.rd(ep, s)
                if '_n' not in op: d = self.rd(self.deref(d), s)
                f = s.fork()
                self.emit(s, 'cas', path, str(exp), str(d), n)
                s.env[path] = d
                self.uid += 1
                f.env[ep] = path
                f.env.pop(path, None)
                out += [('true', s), ('false', f)]
            return out
        w = ATOMW.get(op)
        if w:
            for (p, v), s in self.evs(n['c'][:2], st):
                path = self.deref(p)
                if op == '__atomic_store': v = self.rd(self.deref(v), s)
                old = self.rd(path, s)
                self.write(s, path, w, v, n)
                out.append((old if op.startswith('__atomic_fetch') or 'exchange' in op else s.env[path], s))
            return out
        return [('%s(%s)' % (op, ', '.join(map(str, vs))), s) for vs, s in self.evs(n['c'], st)]

    # ------------------------------------------------------------ calls
    def lam_apply(self, lam, argv, st, ctx=None, node=None):
        """[(return value, state)] for every body of the lambda (the first instantiation)"""
        bs = lambda_bodies(self.prog, lam.fn, lam.node)
        if not bs or len(self.stack) > self.maxd + 4: return [('<lambda>()', st)]
        return self.enter(bs[0], argv, lam.this, st, lam.env)

    def enter(self, f, argv, this, st, parent=None, paths=None):
        self.uid += 1
        act = self.uid
        self.stack.append((f, this, act, parent))
        if len(self.stack) > 40: raise TooComplex()
        for i, p in enumerate(f.get('p') or ()):
            v = '%s#%s.%s' % (p['n'], act, p['d'])
            a = argv[i] if i < len(argv) else None
            isref = p['t'].endswith('&')
            if paths and i < len(paths) and paths[i] is not None and isref:
                st.env['ref:' + v] = paths[i]
            else:
                st.env[v] = a if a is not None else p['n']
        out = []
        try:
            for s, sig in self.stmt(f['b'], st):
                out.append((sig[1] if sig and sig[0] == 'ret' else '', s) if not sig or sig[0] != 'noret' else None)
        finally:
            self.stack.pop()
        out = [o for o in out if o is not None]
        self.cap(out)
        return out

    def call(self, n, st):
        k = n['k']
        q = callee(n)
        out = []
        # call of a local lambda
        target = n['c'][0] if (k == 'OpCall' and n['op'] == '()' or n.get('ind')) and n.get('c') else None
        if target is not None:
            for v, s in self.ev(target, st):
                for vs, s2 in self.evs(n['c'][1:], s):
                    if isinstance(v, LamV): out += self.lam_apply(v, vs, s2)
                    else:
                        if self.localwrites: self.closures(vs, s2)
                        self.emit(s2, 'call', q or str(v), str(v), tuple(vs), n)
                        out.append(('%s(%s)' % (v, ', '.join(map(str, vs))), s2))
            return out
        o = obj(n)
        f = fn_of(self.prog, n)
        if o is not None:
            os_ = [(p, s) for p, s in (self.ev(o, st) if n.get('arrow') else self.lv(o, st))]
            os_ = [(self.deref(p) if n.get('arrow') else p, s) for p, s in os_]
        else:
            os_ = [(None, st)]
        an = args(n)
        for ov, s0 in os_:
            pre = [(([], []), s0)]
            pk = n.get('pk', '')
            for i, a in enumerate(an):
                nx = []
                for (vs, ps), s in pre:
                    sa = strip(a)
                    if sa is not None and sa['k'] in ('DRef', 'Mem', 'Sub') and sa.get('dk') not in ('func', 'enum') and i < len(pk) and pk[i] in 'rc' and 'cv' not in sa:
                        for p, s2 in self.lv(sa, s): nx.append(((vs + [self.rd(p, s2)], ps + [p]), s2))
                    else:
                        for v, s2 in self.ev(a, s): nx.append(((vs + [v], ps + [None]), s2))
                pre = nx
            for (vs, ps), s in pre:
                if f is not None and 'b' in f and (not n.get('virt') or f.get('cls') in self.devirt) and len(self.stack) < self.maxd and all(f is not x[0] for x in self.stack) \
                        and (self.inline(f, len(self.stack)) or getter(self.prog, n) is not None):
                    if f.get('ctor'): pass
                    else:
                        out += self.enter(f, vs, ov if ov is not None else self.this(), s, paths=ps)
                        continue
                name = short(q)
                if self.objvals and ov is not None and '#' in str(ov): ov = str(self.rd(ov, s))
                if k == 'Ctor': t = callee(n).rsplit('::', 1)[0] + '{' + ', '.join(map(str, vs)) + '}'
                elif ov is not None: t = '%s.%s(%s)' % (ov, name, ', '.join(map(str, vs)))
                elif k == 'OpCall' : t = '%s(%s)' % (n['op'], ', '.join(map(str, vs)))
                else: t = '%s(%s)' % (q, ', '.join(map(str, vs)))
                if k != 'Ctor': self.emit(s, 'call', q, ov, tuple(vs), n)
                # lambdas handed over: one generic iteration each
                for i, v in enumerate(vs):
                    if isinstance(v, LamV):
                        s = self.generic(s, ('λ', q, str(ov), tuple(map(str, vs))), lambda x, v=v, t=t: self.lam_apply_generic(v, x, q))
                for i, v in enumerate(vs):
                    if i < len(pk) and pk[i] == 'r' and ps[i] is not None and '#' in ps[i].split('.')[0].split('[')[0]:
                        self.root_kill(ps[i], s)
                        s.env[ps[i]] = '%s→%d' % (t, i)
                if n.get('noret'): continue
                out.append((t, s))
        self.cap(out)
        return out

    def closures(self, vs, st):
        """what the nullary lambdas handed to an unknown function return"""
        for v in vs:
            if isinstance(v, LamV):
                bs = lambda_bodies(self.prog, v.fn, v.node)
                if bs and not bs[0].get('p'): v.results = [(str(r), x.lits) for r, x in self.enter(bs[0], [], v.this, st.fork(), v.env)]

    def lam_apply_generic(self, lam, st, q):
        bs = lambda_bodies(self.prog, lam.fn, lam.node)
        if not bs: return [st]
        b = bs[0]
        depth = sum(c[0] == 'λ' for c in st.ctx) if self.localwrites else 1     # nested iterations get names of their own
        argv = ['λ%d%s' % (i, '′' * (depth - 1)) for i, p in enumerate(b.get('p') or ())]
        base, ctx = len(st.eff), st.ctx
        r = self.enter(b, argv, lam.this, st, lam.env, paths=argv)
        self.applied.append((ctx, lam, base, [(v, s.fork()) for v, s in r]))
        return [s for _, s in r]

    def generic(self, st, tag, run):
        """one generic iteration: effects are kept (tagged), decisions and values are not"""
        pre_lits, pre_ctx = st.lits, st.ctx
        before = dict(st.env)
        base = len(st.eff)
        x = st.fork()
        x.ctx = st.ctx + (tag,)
        outs = run(x)
        seen, eff = set(), []
        changed = set()
        for s in outs:
            for e in s.eff[base:]:
                key = (e.kind, e.target, e.op, str(e.val), e.ctx, e.lits, id(e.node))
                if key not in seen:
                    seen.add(key); eff.append(e)
            for p, v in s.env.items():
                if p in before and before[p] is not v and before[p] != v: changed.add(p)
                elif p not in before and not p.startswith('ref:') and '#' not in p: changed.add(p)
        st.eff = st.eff[:base] + eff
        for p in changed:
            self.uid += 1
            st.env[p] = 'φ%d:%s' % (self.uid, p.split('#')[0])
        return st

    # ------------------------------------------------------------ statements
    def stmts(self, ns, st):
        live = [(st, None)]
        for n in ns:
            if n is None: continue
            nx = []
            for s, sig in live:
                if sig: nx.append((s, sig))
                else: nx += self.stmt(n, s)
            live = nx
            if len(live) > self.maxs: raise TooComplex()
        return live

    def assigned_paths(self, n, st):
        """local paths that a loop body may change"""
        out = set()
        def scan(m, fn):
            for x in walk(m):
                a = assigned(x)
                if a is not None:
                    r = strip(a)
                    while r['k'] in ('Mem', 'Sub') and r.get('c'): r = strip(r['c'][0])
                    if r['k'] == 'DRef' and r.get('dk') not in ('global', 'enum', 'func'): out.add(self.var0(r, st))
                if x['k'] in CALLS:
                    pk = x.get('pk', '')
                    for i, y in enumerate(args(x)):
                        y = strip(y)
                        if isinstance(y, dict) and y['k'] == 'DRef' and i < len(pk) and pk[i] == 'r': out.add(self.var0(y, st))
                if x['k'] == 'Atomic' and 'compare_exchange' in x['op']:
                    y = strip(x['c'][1])
                    if y['k'] == 'Un' and strip(y['c'][0])['k'] == 'DRef': out.add(self.var0(strip(y['c'][0]), st))
                if x['k'] == 'Lambda':
                    for b in lambda_bodies(self.prog, fn, x)[:1]: scan(b['b'], b)
        scan(n, self.stack[-1][0])
        return out

    def loop(self, st, tag, havoc, cond, body, inc):
        """body: function(state) -> [(state, signal)]"""
        for p in havoc:
            if p in st.env or 'ref:' + p not in st.env:
                self.uid += 1
                st.env[p] = 'φ%d:%s' % (self.uid, p.split('#')[0])
                self.root_kill(p, st)
        res = []
        pre_lits, pre_ctx = st.lits, st.ctx
        ends = []
        exits = []
        ins = [(True, st.fork())] if cond is None else self.cond(cond, st.fork())
        base = len(st.eff)
        for t, s in ins:
            if not t:
                exits.append(s); continue
            s.ctx = pre_ctx + (tag,)
            for s2, sig in body(s):
                if sig and sig[0] == 'break':
                    s2.ctx = pre_ctx; exits.append(s2)
                elif sig and sig[0] in ('ret', 'noret'):
                    s2.ctx = pre_ctx; res.append((s2, sig))
                else:
                    if inc is not None:
                        for _, s3 in self.ev(inc, s2): ends.append(s3)
                    else: ends.append(s2)
        # effects of complete iterations are seen by everything after the loop
        seen, eff, mem = set(), [], set()
        for s in ends:
            for e in s.eff[base:]:
                key = (e.kind, e.target, e.op, str(e.val), e.ctx, e.lits, id(e.node))
                if key not in seen: seen.add(key); eff.append(e)
            for p, v in s.env.items():
                if st.env.get(p) != v and '#' not in p.split('[')[0].split('.')[0] and not p.startswith('ref:'): mem.add(p)
        after = []
        for s in exits or ([] if cond is None else []):
            s.eff = s.eff[:base] + [e for e in eff if id(e.node) not in {id(x.node) for x in s.eff[base:]}] + s.eff[base:]
            after.append(s)
        if not exits and ends and tag[0] == 'for each':
            s = st.fork(); s.ctx = pre_ctx
            s.eff = s.eff[:base] + eff
            after.append(s)
        for s in after:
            for p in mem:
                self.uid += 1
                s.env[p] = 'φ%d:%s' % (self.uid, p)
            res.append((s, None))
        if len(res) > self.maxs: raise TooComplex()
        return res

    def stmt(self, n, st):
        """[(state, signal)]"""
        if n is None: return [(st, None)]
        k = n['k']
        if self.skipped(n) and k not in ('Compound',): return [(st, None)]
        if k == 'Compound': return self.stmts(n['c'], st)
        if k == 'Decl':
            live = [st]
            for v in n['c']:
                nx = []
                for s in live: nx += self.decl(v, s)
                live = nx
            return [(s, None) for s in live]
        if k == 'If':
            out = []
            pre = [st]
            if n['c'][0] is not None: pre = [s for s, _ in self.stmt(n['c'][0], st)]
            for p in pre:
                for t, s in self.cond(n['c'][1], p):
                    b = n['c'][2] if t else n['c'][3]
                    out += self.stmt(b, s) if b is not None else [(s, None)]
            return out
        if k == 'For':
            out = []
            pre = [(st, None)] if n['c'][0] is None else self.stmt(n['c'][0], st)
            for s, _ in pre:
                h = self.assigned_paths({'k': 'X', 'c': [x for x in n['c'][1:] if x]}, s)
                start = tuple(sorted((p.split('#')[0], str(s.env[p])) for p in h if p in s.env))
                out += self.loop(s, ('loop', n.get('l'), start), h, n['c'][1], lambda x: self.stmt(n['c'][3], x), n['c'][2])
            return out
        if k in ('While',):
            h = self.assigned_paths(n, st)
            return self.loop(st, ('loop', n.get('l')), h, n['c'][0], lambda x: self.stmt(n['c'][1], x), None)
        if k == 'Do':
            h = self.assigned_paths(n, st)
            out = []
            for s, sig in self.loop(st, ('loop', n.get('l')), h, None, lambda x: [(s3, ('break', None) if not t else None) for s2, g in self.stmt(n['c'][0], x) for t, s3 in ([(None, s2)] if g and g[0] in ('ret', 'noret') else [(False, s2)] if g and g[0] == 'break' else self.cond(n['c'][1], s2))], None):
                out.append((s, sig))
            return out
        if k == 'RFor':
            out = []
            pre = [(st, None)] if n['c'][0] is None else self.stmt(n['c'][0], st)
            for s, _ in pre:
                for rv, s2 in self.ev(n['c'][2], s):
                    h = self.assigned_paths(n['c'][3], s2)
                    v = n['c'][1]
                    def body(x, rv=rv, v=v):
                        if v.get('binds'):
                            for i, b in enumerate(v['binds']): x.env['%s#%s.%s' % (b['n'], self.stack[-1][2], b['d'])] = 'each(%s).%d' % (rv, i)
                        else: x.env[self.var(v)] = 'each(%s)' % rv
                        return self.stmt(n['c'][3], x)
                    out += self.loop(s2, ('for each', str(rv)), h, None, body, None)
            return out
        if k == 'Return':
            if not n.get('c') or n['c'][0] is None: return [(st, ('ret', ''))]
            return [(s, ('ret', v)) for v, s in self.ev(n['c'][0], st)]
        if k == 'Break': return [(st, ('break', None))]
        if k == 'Continue': return [(st, ('cont', None))]
        if k == 'Switch': return self.switch(n, st)
        if k == 'Try': return self.stmt(n['c'][0], st)
        if k in ('Label', 'Default'): return self.stmt(n['c'][0], st)
        if k == 'Case': return self.stmt(n['c'][1], st)
        if k == 'Empty': return [(st, None)]
        if k == 'Throw': return [(st, ('noret', None))]
        if k == 'Var': return [(s, None) for s in self.decl(n, st)]
        r = self.ev(n, st)
        if n['k'] in CALLS and n.get('noret'): return [(s, ('noret', None)) for _, s in r] or [(st, ('noret', None))]
        return [(s, None) for _, s in r]

    def switch(self, n, st):
        out = []
        body = n['c'][1].get('c') or []
        flat = []        # (labels, statement)
        for x in body:
            labs = []
            while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
                labs.append(x['c'][0] if x['k'] == 'Case' else None)
                x = x['c'][1] if x['k'] == 'Case' else x['c'][0]
            flat.append((labs, x))
        for v, s in self.ev(n['c'][0], st):
            starts = [(i, l) for i, (labs, _) in enumerate(flat) for l in labs]
            vals = []
            for i, l in starts:
                x = s.fork()
                if l is None: continue
                lt = str(self.ev(l, x.fork())[0][0]); vals.append(lt)
                t, pos = self.cmp('==', v, lt)
                y = self.lit(x, t, pos)
                if y is None: continue
                out += self.stmts([z for _, z in flat[i:]], y)
            x = s.fork(); ok = True
            for lt in vals:
                t, pos = self.cmp('==', v, lt)
                if x is not None: x = self.lit(x, t, not pos)
            if x is None: continue
            d = [i for i, l in starts if l is None]
            out += self.stmts([z for _, z in flat[d[0]:]], x) if d else [(x, None)]
        return [(s, None if sig and sig[0] == 'break' else sig) for s, sig in out]

    def decl(self, v, st):
        if v['k'] != 'Var': return [s for s, _ in self.stmt(v, st)]
        path = self.var(v)
        if not v.get('c') or v['c'][0] is None:
            st.env[path] = 'undef:' + v['n']
            return [st]
        init = v['c'][0]
        t = v.get('t', '')
        out = []
        if v.get('binds'):
            for val, s in self.ev(init, st):
                for i, b in enumerate(v['binds']): s.env['%s#%s.%s' % (b['n'], self.stack[-1][2], b['d'])] = '%s.%d' % (val, i)
                out.append(s)
            return out
        si = strip(init)
        if t.endswith('&') and not t.endswith('&&') and si is not None and (si['k'] in ('DRef', 'Mem', 'Sub') or si['k'] == 'Un' or si['k'] == 'OpCall' and si['op'] in ('[]', '*', '->')):
            for p, s in self.lv(si, st):
                s.env['ref:' + path] = p
                out.append(s)
            return out
        for val, s in self.ev(init, st):
            if isinstance(val, str) and t.endswith('&'): s.env['ref:' + path] = val
            s.env[path] = val
            out.append(s)
        return out

    # ------------------------------------------------------------ entry
    def paths(self, fn, names=None):
        """[(return value or None, state)] ; None: does not return. Parameters are called by position: $0, $1 ..."""
        self.stack = []
        st = St({}, frozenset(), [], ())
        argv = ['$%d' % i for i in range(len(fn.get('p') or ()))] if names is None else names
        self.uid += 1
        act = self.uid
        self.stack.append((fn, 'this', act, None))
        out = []
        for i, p in enumerate(fn.get('p') or ()):
            st.env['%s#%s.%s' % (p['n'], act, p['d'])] = argv[i]
            if p['t'].endswith('&'): st.env['ref:%s#%s.%s' % (p['n'], act, p['d'])] = argv[i]
        live = [st]
        if self.ctor_inits:
            for ini in fn.get('inits') or ():
                if 'n' not in ini or not ini.get('e'): continue
                nx = []
                for s in live:
                    for v, s2 in self.ev(ini['e'], s):
                        s2.env['this.' + ini['n']] = v
                        nx.append(s2)
                live = nx
        for s0 in live:
            for s, sig in self.stmt(fn['b'], s0):
                if sig and sig[0] == 'noret': continue
                out.append((sig[1] if sig and sig[0] == 'ret' else '', s))
        self.stack.pop()
        return out
