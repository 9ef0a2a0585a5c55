"""How the gain caches store connections: entries and probing of the compact hash map, widths, offsets and sizes of the
tables, and the range of nodes each table covers. The values the functions compute are taken from the source as terms
(value numbering); closed terms are decided on truth tables over small words, tables and degrees."""
from kit import *
from vn import *

class Open(Exception): pass

class Not:
    def __pow__(self, x): return int(not x)
NOT = Not()

def ceil2(x): return 0 if x <= 0 else 1 << (x - 1).bit_length()
def floor2(x): return 0 if x <= 0 else 1 << (x.bit_length() - 1)
def clog(x): return (x - 1).bit_length() if x > 0 else 0
def flog(x): return x.bit_length() - 1 if x > 0 else 0
FUN = {'ceil2': ceil2, 'floor2': floor2, 'ceil_log2': clog, 'floor_log2': flog, 'div_ceil': lambda a, b: -(-a // b) if b else 0, 'min': min, 'max': max}
OKN = set(FUN) | {'T', 'NOT', 'and', 'or', 'SHL', 'if', 'else'}

class Term:
    """a closed term as a Python function of its atoms; `atoms`: ordered list of (regex, name)"""
    def __init__(self, t, atoms, bits=64, funs={}):
        t = str(t)
        for rx, name in atoms: t = re.sub(rx, lambda m: ' ' + (m.expand(name) if '\\' in name else name) + ' ', t)
        t = re.sub(r'(?:\w+::)*(ceil2|floor2|ceil_log2|floor_log2|div_ceil|min|max)\(', r'\1(', t)
        t = re.sub(r'(?:\w+::)*(%s)\(' % '|'.join(funs or ['$^']), r'\1(', t)
        t = t.strip()
        if re.search(r'[\w\)\]]\s*\[', t): raise Open(t)
        t = t.replace('[', 'T(').replace(']', ')')
        t = re.sub(r'!(?!=)', 'NOT**', t).replace('&&', ' and ').replace('||', ' or ')
        t = re.sub(r'(?<!/)/(?!/)', '//', t)
        self.text = t
        self.names = set(re.findall(r'[A-Za-z_$]\w*', t)) - OKN - set(funs)
        if re.search(r'[^\w\s()+\-*/%&|<>=!,~$]', t) or '$' in t or 'φ' in t or 'λ' in t or '#' in t: raise Open(t)
        self.bits, self.funs = bits, funs
        if '<<' in t:
            # the shifted word keeps its width
            t = re.sub(r'<<', '@', t)
        try: self.code = compile(t, 't', 'eval')
        except SyntaxError: raise Open(t)
        self.shl = '@' in t
    def __call__(self, **env):
        m = (1 << self.bits) - 1
        g = dict(FUN, T=lambda x: int(x), NOT=NOT, **self.funs)
        miss = self.names - set(env)
        if miss: raise Open(str(miss))
        if self.shl:
            class W(int):
                def __matmul__(s, o): return W((int(s) << int(o)) & m)
                def __rshift__(s, o): return W(int(s) >> int(o))
                def __or__(s, o): return W(int(s) | int(o))
                __ror__ = __or__
                def __and__(s, o): return W(int(s) & int(o))
                __rand__ = __and__
                def __add__(s, o): return W(int(s) + int(o))
                __radd__ = __add__
                def __sub__(s, o): return W(int(s) - int(o))
                def __rsub__(s, o): return W(int(o) - int(s))
                def __neg__(s): return W(-int(s))
            env = {k: W(v) for k, v in env.items()}
        try: return int(eval(self.code, g, env))
        except Open: raise
        except Exception as e: raise Open(repr(e))

def balanced(t, i, o, c):
    d = 0
    for j in range(i, len(t)):
        if t[j] == o: d += 1
        elif t[j] == c:
            d -= 1
            if d == 0: return j
    return -1

def entry(t, name='E'):
    """entries read from the table (directly, or as the second component of the pair returned by the search) become `name`"""
    t = str(t)
    for start, o, c in (('std::pair{', '{', '}'), ('std::make_pair(', '(', ')'), ('this._data[', '[', ']')):
        while start in t:
            i = t.index(start); j = balanced(t, i + len(start) - 1, o, c)
            if j < 0: break
            if o == '[': t = t[:i] + name + t[j + 1:]; continue
            m = re.match(r'\.(0|1|first|second)\b', t[j + 1:])
            if not m: break
            t = t[:i] + (name if m.group(1) in ('1', 'second') else 'P') + t[j + 1 + m.end():]
    t = re.sub(r'\b[\w]+#[\d.]+\.(second|1)\b', name, t)
    t = re.sub(r'\b[\w]+#[\d.]+\.(first|0)\b', 'P', t)
    return t

W, KB, SIZE = 8, 3, 8
def enc(k, v): return (k << (W - KB)) | v
WORD = [(r'std::numeric_limits::digits', str(W)), (r'this\._key_bits', str(KB)), (r'this\._value_mask', str(SIZE - 1)), (r'\$0(?!\d)', 'A'), (r'\$1(?!\d)', 'B')]

class Store:
    def __init__(self, prog, res):
        self.prog, self.res, self.seen = prog, res, set()

    def emit(self, what, where, bad, good=None):
        if bad:
            if (what, where, bad) in self.seen: return
            self.seen.add((what, where, bad))
            self.res.bad('store|' + what, where, bad)
        else: self.res.ok('%s: %s' % (what, good or 'as defined'))

    def table(self, what, f, term, atoms, points, spec, say, bits=64, funs={}):
        """decides a closed term against its specification on all points"""
        where = '%s:%s' % (f['f'], f['l'])
        try:
            t = term if callable(term) else Term(term, atoms, bits, funs)
            for p in points:
                if not spec(t(**p), p): return self.emit(what, where, '%s: %s (for %s)' % (what, say, ', '.join('%s = %s' % x for x in sorted(p.items()))))
            self.emit(what, where, None)
        except Open as e: self.res.skip('%s: %s' % (what, str(e)[:100]))

    def vn(self, f, const=True):
        v = VN(self.prog, inline=lambda g, d: bool(g.get('cls')) and g.get('cls') == f.get('cls') and g.get('clst') == f.get('clst'), maxdepth=10, maxstates=4000)
        v.split_conditions = v.objvals = v.localwrites = True
        v.constglobals = const
        return v

    def methods(self, cls, names=None):
        for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
            if f.get('dep') or 'b' not in f or f.get('lambda') or not (f.get('cls') or '').endswith(cls): continue
            if names and f['n'] not in names: continue
            yield f

    # ---- the hash map
    def hashmap(self):
        done = {}
        for f in self.methods('::CompactHashMap'):
            try: ps = self.vn(f, False).paths(f)
            except TooComplex: self.res.skip(f['n'] + ': too complex'); continue
            for n in nodes(f):
                if n['k'] != 'Bin' or n['op'] != '>>': continue
                x = n['c'][0]
                while x['k'] == 'Paren' and x.get('c'): x = x['c'][0]
                if x['k'] == 'Bin' and x['op'] == '<<': self.emit('CompactHashMap: bits cut off by a shift', '%s:%s' % (f['f'], n.get('l', f['l'])), 'CompactHashMap::%s() shifts a narrow entry left and back as int: the bits above the entry are not cut off' % f['n'] if x.get('t') == 'int' else None)
            key = (f['n'], len(ps), tuple(sorted(re.sub(r'φ\d+|#[\d.]+', '', str(r)) for r, s in ps)))
            if key in done: continue
            done[key] = 1
            m = getattr(self, 'h_' + f['n'], None)
            if f.get('ctor') or f['n'] == 'CompactHashMap': m = self.h_ctor
            if m: m(f, ps)

    ENT = [dict(E=enc(k, v)) for k in range(8) for v in (1, 2, 7, 19, 31)]
    def key(self, t): return t >> (W - KB)
    def val(self, t): return t & ((1 << (W - KB)) - 1)

    def h_ctor(self, f, ps):
        for x in f.get('inits') or ():
            if x.get('n') != '_value_mask' or not x.get('e'): continue
            try: self.emit('CompactHashMap: mask of the positions', '%s:%s' % (f['f'], f['l']), None if all(self.ast(x['e'], f, a) == a - 1 for a in (1, 2, 4, 8, 64)) else 'CompactHashMap: the mask of the positions is not the size of the table minus 1')
            except (Open, KeyError, IndexError): self.res.skip('CompactHashMap: mask')

    def h_hash(self, f, ps):
        for r, s in ps: self.table('CompactHashMap: home position of a key', f, str(r), WORD, [dict(A=a) for a in range(20)], lambda v, p: v == p['A'] % SIZE, 'is not the key modulo the size')

    def h_capacity(self, f, ps):
        for r, s in ps: self.table('CompactHashMap: capacity', f, str(r), WORD, [{}], lambda v, p: v == SIZE, 'is not the size of the table')

    def h_for_each(self, f, ps):
        for r, s in ps:
            for e in s.eff:
                if e.kind != 'call' or not isinstance(e.val, tuple) or len(e.val) != 2 or 'operator()' not in str(e.target): continue
                for i, (what, fn) in enumerate((('key', self.key), ('value', self.val))):
                    self.table('CompactHashMap::for_each(): %s of an entry' % what, f, entry(e.val[i]), WORD, self.ENT, lambda v, p: v == fn(p['E']), 'is not the %s stored in the entry' % what, W)
                c = [x for x in e.ctx if x[0] == 'loop' and len(x) > 2]
                idx = re.findall(r'this\._data\[(φ\d+:(\w+))\]', str(e.val[0]))
                if c and idx:
                    start = dict(c[-1][2]).get(idx[0][1])
                    if start is not None and re.fullmatch(r'-?\d+', str(start)): self.emit('CompactHashMap::for_each(): first entry', '%s:%s' % (f['f'], f['l']), None if str(start) == '0' else 'CompactHashMap::for_each() starts at entry %s: the first entries are left out' % start)
                    at = [(re.escape(idx[0][0]), 'I')] + WORD
                    for t, b in e.lits:
                        if idx[0][0] in t and '_data' not in t:
                            self.table('CompactHashMap::for_each(): last entry', f, t, at, [dict(I=i) for i in range(SIZE)], lambda v, p: bool(v) == b, 'the loop does not visit every entry')

    def exits(self, f, s, what):
        """a search may only end at an empty entry, at the entry of the key, or where the next position is the first again"""
        pos = None
        for e in s.eff:
            m = re.match(r'this\._data\[(.*)\]$', str(e.val)) if e.kind == 'w' else None
            if m: pos = m.group(1)
        out = []
        for t, b in s.lits:
            try:
                if '_data[' in t or '.second' in t or '}.1' in t:
                    q = Term(entry(t), WORD, W)
                    if 'P' in q.names: continue
                    if 'A' not in q.names:
                        if q.names == {'E'} and b == bool(q(E=0)) and all(bool(q(**p)) != b for p in self.ENT): out.append('empty')
                    elif q.names == {'A', 'E'} and all((bool(q(A=a, **p)) == b) == (self.key(p['E']) == a) for p in self.ENT for a in range(8)): out.append('key')
                elif 'φ' in t and '$0' in t and pos:
                    q = Term(t, [(re.escape(pos), 'P')] + WORD, W)
                    if q.names == {'A', 'P'} and all((bool(q(A=a, P=p)) == b) == ((p + 1) % SIZE == a % SIZE) for a in range(SIZE) for p in range(SIZE)): out.append('wrapped')
            except Open: out.append('?')
        return out

    def h_find(self, f, ps):
        where = '%s:%s' % (f['f'], f['l'])
        for r, s in ps:
            out = self.exits(f, s, 'find')
            if out: self.emit('CompactHashMap::find(): where the search ends', where, None)
            else: self.emit('CompactHashMap::find(): where the search ends', where, 'CompactHashMap::find() can end at an entry that is neither empty nor that of the key, and before all entries were tried: %s' % '; '.join('%s%s' % ('' if b else 'not ', t) for t, b in s.lits)[:200])
            m = re.match(r'std::(?:pair\{|make_pair\()(.*)[})]$', str(r))
            if not m: self.res.skip('CompactHashMap::find(): result'); continue
            at = m.group(1).split(', this._data[')
            if len(at) != 2 or at[1] != at[0] + ']': self.res.skip('CompactHashMap::find(): components of the result'); continue
            ph = sorted(set(re.findall(r'φ\d+:(\w+)', at[0])))
            if len(ph) != 1: self.res.skip('CompactHashMap::find(): positions'); continue
            step = [(r'φ\d+:\w+', 'X')] + WORD
            self.table('CompactHashMap::find(): next position', f, at[0], step, [dict(X=x) for x in range(SIZE)], lambda v, p: v == (p['X'] + 1) % SIZE, 'is not the one after the position tried last', W)
            init = [n for n in nodes(f) if n['k'] == 'Var' and n.get('n') == ph[0]]
            try:
                q = Term(at[0], step, 64)
                start = [self.ast(n['c'][0], f, a) for n in init if n.get('c') for a in range(20)]
                if len(start) != 20: raise Open('start')
                bad = [a for a in range(20) if q(X=start[a]) != a % SIZE]
                self.emit('CompactHashMap::find(): first position', where, 'CompactHashMap::find() does not start at the home position of the key (for key %d)' % bad[0] if bad else None)
            except (Open, KeyError, IndexError, TypeError) as e: self.res.skip('CompactHashMap::find(): first position')

    def ast(self, n, f, a):
        k = n['k']
        if k == 'Int': return int(n['v'])
        if k in ('Cast', 'Paren', 'ImplicitCast'): return self.ast(n['c'][0], f, a)
        if k == 'DRef' and n.get('dk') == 'parm': return a
        if k == 'Bin' and n['op'] in '+-':
            x, y = self.ast(n['c'][0], f, a), self.ast(n['c'][1], f, a)
            return x + y if n['op'] == '+' else x - y
        if k == 'Bin' and n['op'] in ('/', '>>', '*', '<<'):
            x, y = self.ast(n['c'][0], f, a), self.ast(n['c'][1], f, a)
            return {'/': lambda: x // (y or 1), '>>': lambda: x >> y, '*': lambda: x * y, '<<': lambda: x << y}[n['op']]()
        if k == 'Bin' and n['op'] == '&': return self.ast(n['c'][0], f, a) & self.ast(n['c'][1], f, a)
        if k == 'MCall' and str(n.get('fn')).endswith('::hash'): return self.ast(n['c'][-1], f, a) % SIZE
        if k == 'Mem' and n.get('n') == '_value_mask': return SIZE - 1
        raise Open(k)

    def h_get(self, f, ps):
        where = '%s:%s' % (f['f'], f['l'])
        for r, s in ps:
            if str(r) in ('0', ''): continue
            self.table('CompactHashMap::get(): value', f, entry(r), WORD, self.ENT + [dict(E=0)], lambda v, p: v == self.val(p['E']), 'is not the value stored in the entry', W)
            out = self.exits(f, s, 'get')
            bad = not ({'key', 'empty', '?'} & set(out))
            self.emit('CompactHashMap::get(): entry of the key', where, 'CompactHashMap::get() returns the value of an entry that may belong to another key: %s' % '; '.join('%s%s' % ('' if b else 'not ', t) for t, b in s.lits)[:200] if bad else None)

    def h_increase_by(self, f, ps):
        for r, s in ps:
            ws = [e for e in s.eff if e.kind == 'w' and str(e.target).startswith('this._data[')]
            if len(ws) != 1 or ws[0].op not in ('=', None, ''): self.res.skip('CompactHashMap::increase_by(): writes'); continue
            pts = [dict(E=enc(k, v), A=k, B=b) for k in range(8) for v in (1, 3, 12) for b in (1, 2, 3, 19)] + [dict(E=0, A=k, B=b) for k in range(8) for b in (1, 7)]
            self.table('CompactHashMap::increase_by(): new entry', f, entry(ws[0].val), WORD, pts, lambda v, p: v & 255 == enc(p['A'], self.val(p['E']) + p['B']), 'is not the key with the old value plus the increase', W)

    def movable(self, h, frm, to): return h <= to or h > frm if to < frm else frm < h <= to

    def h_decrease_by(self, f, ps):
        where = '%s:%s' % (f['f'], f['l'])
        moved = {}
        opaque = False
        for r, s in ps:
            ws = [e for e in s.eff if e.kind == 'w' and str(e.target).startswith('this._data[')]
            simple = [e for e in ws if not any(c[0] == 'loop' for c in e.ctx)]
            loops = [e for e in ws if any(c[0] == 'loop' for c in e.ctx)]
            holes = [e for e in s.eff if e.kind == 'w' and any(c[0] == 'loop' for c in e.ctx) and e.target.split('#')[0] in {x for w in loops for x in re.findall(r'φ\d+:(\w+)\]$', str(w.target))}]
            # the entry is only lowered
            low = [e for e in simple if str(e.val) != '0']
            zero = [e for e in simple if str(e.val) == '0']
            if low and not loops:
                for e in low:
                    pts = [dict(E=enc(k, v), A=k, B=b) for k in range(8) for v in (4, 9, 30) for b in (1, 2, 3)]
                    self.table('CompactHashMap::decrease_by(): new entry', f, entry(e.val), WORD, pts, lambda v, p: v == p['E'] - p['B'], 'is not the key with the old value minus the decrease', W)
                    for t, b in e.lits:
                        t = entry(t)
                        try: q = Term(t, WORD, W)
                        except Open: continue
                        if not {'E', 'B'} <= q.names or 'A' in q.names: continue
                        self.table('CompactHashMap::decrease_by(): entries that stay', f, q, None, [dict(E=enc(k, v), B=v) for k in range(8) for v in (1, 2, 9)], lambda v, p: bool(v) != b, 'an entry whose value becomes 0 stays in the table')
                continue
            if not loops: continue
            # the loop: entries moved to the hole
            pos = {re.match(r'this\._data\[(.*)\]$', str(e.val)).group(1) for e in s.eff if e.kind == 'w' and any(c[0] == 'loop' for c in e.ctx) and re.match(r'this\._data\[.*cur\w*.*\]$|this\._data\[.*\]$', str(e.val)) and not str(e.target).startswith('this._data')}
            for e in loops:
                m = re.match(r'this\._data\[(.*)\]$', str(e.val)); h = re.match(r'this\._data\[(φ\d+:\w+)\]$', str(e.target))
                if not m or not h: opaque = True; continue
                q, hole = m.group(1), h.group(1)
                at = [(re.escape('this._data[' + q + ']'), 'E'), (re.escape(q), 'Q'), (re.escape(hole), 'H')] + WORD
                cond = []
                for t, b in e.lits:
                    if q not in t: continue
                    try: x = Term(t, at, W)
                    except Open: opaque = True; continue
                    if x.names <= {'E', 'Q', 'H'}: cond.append((x, b))
                    else: opaque = opaque or False
                moved.setdefault(str(len(moved)), cond)
                step = [(r'φ\d+:\w+', 'X')] + WORD
                self.table('CompactHashMap::decrease_by(): next entry', f, q, step, [dict(X=x) for x in range(SIZE)], lambda v, p: v == (p['X'] + 1) % SIZE, 'is not the one after the entry looked at last', W)
                # the hole moves along, and only then
                mine = [x for x in holes if x.lits == e.lits and str(x.val) == q]
                self.emit('CompactHashMap::decrease_by(): hole', where, None if mine else 'CompactHashMap::decrease_by() moves an entry into the hole but does not make its old position the next hole')
            for x in holes:
                if not any(x.lits == e.lits for e in loops): self.emit('CompactHashMap::decrease_by(): hole', where, 'CompactHashMap::decrease_by() treats the position of an entry it has not moved as the next hole: that entry is overwritten')
        # an entry that ends the loop without being empty needs the hole to be cleared
        for r, s in ps:
            loops = [e for e in s.eff if e.kind == 'w' and any(c[0] == 'loop' for c in e.ctx)]
            cur = [str(e.val) for e in loops if re.match(r'this\._data\[', str(e.val)) and not str(e.target).startswith('this._data')]
            cur = [c for c in cur if 'φ' in c]
            if not cur or str(r) not in ('true', '1'): continue
            if any(b and t.startswith('(' + cur[-1]) and t.endswith(' == 0)') for t, b in s.lits): continue
            zero = [e for e in s.eff if e.kind == 'w' and str(e.target).startswith('this._data[') and str(e.val) == '0' and not any(c[0] == 'loop' for c in e.ctx)]
            self.emit('CompactHashMap::decrease_by(): hole of a full table', where, None if zero else 'CompactHashMap::decrease_by() can leave a removed entry (or a second copy of a moved one) in a full table: the last hole is not cleared')
        if moved and not opaque:
            try:
                on = {}
                for home in range(SIZE):
                    for frm in range(SIZE):
                        for to in range(SIZE):
                            if frm != to: on[home, frm, to] = any(all(bool(x(E=enc(home, 1), Q=frm, H=to)) == b for x, b in c) for c in moved.values())
                # paths that leave the loop at an empty entry say nothing about the entries passed before
                bad = [(x, y) for x, y in sorted(on.items()) if y != self.movable(*x)] if any(on.values()) else []
                self.emit('CompactHashMap::decrease_by(): entries moved into the hole', where, 'CompactHashMap::decrease_by() %s an entry with home position %d from position %d into the hole at position %d: it is not found afterwards' % (('moves' if bad[0][1] else 'does not move',) + bad[0][0]) if bad else None)
            except Open as e: self.res.skip('CompactHashMap::decrease_by(): moves: %s' % str(e)[:80])
        elif opaque: self.res.skip('CompactHashMap::decrease_by(): moves')

    # ---- the caches
    D = [1, 2, 3, 7, 8, 127, 128, 255, 256, 1000, 65535, 65536, 1 << 24, (1 << 30) + 5]
    CACHE = [(r'this\.weighted_degree\((?:\$0|λ\d+|\(-1 \+ \$0\.n\(\)\))\)', 'D'), (r'(?:φ\d+:)?this\._weighted_degrees\[(?:\$0|λ\d+|\(-1 \+ \$0\.n\(\)\))\]', 'D'), (r'this\._bits_for_key', 'KB'),
             (r'(?:\$0|this\._graph|\(\*this\._graph\))\.degree\((?:\$0|λ\d+|\(-1 \+ \$0\.n\(\)\))\)', 'G'), (r'\$1\._k\b|\$1\.k\(\)|this\._k\b', 'K'), (r'this\._offsets\[\(-1 \+ \$0\.n\(\)\)\]', 'OFF')]

    def caches(self):
        fs = [f for f in sorted(self.prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])) if 'refinement/gains/' in f['f'] and f.get('cls') and not f.get('dep') and 'b' in f and not f.get('lambda')]
        done = set()
        by = {}
        for f in fs: by.setdefault(f['cls'], {}).setdefault(f['n'], f)
        for cls, ms in by.items():
            self.cls = short(cls)
            hash_ret = None
            if 'use_hash_table' in ms:
                ps = self.paths(ms['use_hash_table'])
                if ps and len(ps) == 1: hash_ret = str(ps[0][0])
            self.sizes(cls, ms)
            for n, f in sorted(ms.items()):
                if (f['f'], f['l']) in done: continue
                done.add((f['f'], f['l']))
                m = getattr(self, 'c_' + n, None)
                if m: m(f, ms, hash_ret)
                self.switch(f)

    def paths(self, f):
        try: return self.vn(f).paths(f)
        except TooComplex: return None

    def holds(self, lits, env, atoms, funs={}):
        for t, b in lits:
            try: v = Term(t, atoms, 64, funs)(**env)
            except Open: continue
            if bool(v) != b: return False
        return True

    def c_compute_entry_width(self, f, ms, hr):
        ps = self.paths(f)
        if not ps: return self.res.skip(f['n'])
        at = self.CACHE + [(r'\$1(?!\d)', 'WK')]
        what = '%s: bytes of an entry' % self.cls
        where = '%s:%s' % (f['f'], f['l'])
        try:
            for d in self.D:
                for kb in (1, 2, 5, 8, 15, 20):
                    for wk in (0, 1):
                        env = dict(D=d, KB=kb, WK=wk, K=1 << kb, G=4)
                        v = [Term(r, at)(**env) for r, s in ps if self.holds(s.lits, env, at)]
                        need = d.bit_length() + wk * kb
                        if len(v) != 1: raise Open('paths')
                        if v[0] not in (1, 2, 4, 8) or 8 * v[0] < need: return self.emit(what, where, '%s::%s() reserves %d bytes for entries of %d bits (weighted degree %d, %d bits for the block%s)' % (self.cls, f['n'], v[0], need, d, kb if wk else 0, '' if wk else ', without key'))
            self.emit(what, where, None)
        except Open as e: self.res.skip('%s: %s' % (what, str(e)[:80]))

    def c_initialize(self, f, ms, hr):
        ps = self.paths(f)
        if not ps: return self.res.skip('%s::initialize(): too complex' % self.cls)
        where = '%s:%s' % (f['f'], f['l'])
        seen = set()
        for r, s in ps:
            for e in s.eff:
                if e.kind == 'w' and e.target == 'this._bits_for_key' and str(e.val) not in seen:
                    seen.add(str(e.val))
                    self.table('%s: bits reserved for a block' % self.cls, f, str(e.val), self.CACHE, [dict(K=k) for k in range(1, 70)], lambda v, p: (1 << v) >= p['K'], 'cannot hold every block')
                if e.kind == 'call' and 'make_pair' in str(e.target) and isinstance(e.val, tuple) and len(e.val) == 2 and hr and any('prefix_sum' in str(c) for c in e.ctx):
                    key = (e.val, tuple((t, b) for t, b in e.lits if 'λ' in t))
                    if key not in seen: seen.add(key); self.layout(f, e.val[0], e.val[1], e.lits, hr, 'sizes of the tables')
                if e.kind == 'w' and re.match(r'this\._offsets\[\$0\.n\(\)\]$', str(e.target)) and hr:
                    key = (str(e.val), tuple((t, b) for t, b in e.lits if '(-1 + $0.n())' in t))
                    if key not in seen: seen.add(key); self.layout(f, None, str(e.val), e.lits, hr, 'size of the last table')
                if e.kind == 'w' and re.match(r'this\._offsets\[\(1 \+ λ\d+\)\]$', str(e.target)) and 'use_full_table' in ms and str(e.val) not in seen:
                    seen.add(str(e.val))
                    self.table('%s: sizes of the tables' % self.cls, f, str(e.val), self.CACHE, [dict(G=g, K=k) for g in range(0, 34) for k in (1, 2, 3, 5, 8, 13, 16, 64)], lambda v, p: v == p['K'] or v == 0 == p['G'] or v & (v - 1) == 0 and v >= p['G'] and v > 0, 'neither one entry per block nor a power of two with room for every neighbour')
        self.sparse_init(f, ms, ps)

    def layout(self, f, w, b, lits, hr, what):
        what = '%s: %s' % (self.cls, what); where = '%s:%s' % (f['f'], f['l'])
        rel = [(t, x) for t, x in lits if 'degree' in t]
        try:
            use = Term(hr, self.CACHE)
            tw = Term(w, self.CACHE) if w is not None else None
            tb = Term(b, self.CACHE)
            n = 0
            for d in self.D:
                for k in (2, 3, 8, 13, 200):
                    for g in (1, 2, 3, 5, 8, 9, 130, 300):
                        env = dict(D=d, K=k, G=g, KB=clog(k), OFF=1024)
                        if not self.holds(rel, env, self.CACHE): continue
                        h = use(**env); n += 1
                        need = d.bit_length() + (clog(k) if h else 0)
                        size = tb(**env) - (0 if w is not None else 1024)
                        width = tw(**env) if tw else ceil2(-(-need // 8))
                        if 8 * width < need: return self.emit(what, where, '%s::initialize() reserves entries of %d bytes where %d bits are stored (%s)' % (self.cls, width, need, env))
                        if size < width * (ceil2(g) if h else k): return self.emit(what, where, '%s::initialize() reserves %d bytes for a %s (%s)' % (self.cls, size, 'hash table with room for %d neighbours in entries of %d bytes' % (g, width) if h else 'table of %d blocks in entries of %d bytes' % (k, width), env))
            self.emit(what, where, None)
        except Open as e: self.res.skip('%s: %s' % (what, str(e)[:80]))

    def c_weighted_degree(self, f, ms, hr):
        if 'lock' not in ms: return
        for r, s in self.paths(f) or ():
            self.table('%s: weighted degree of a locked node' % self.cls, f, str(r), self.CACHE, [dict(D=x | (1 << 31)) for x in (1, 5, 1 << 20)], lambda v, p: v == p['D'] & ((1 << 31) - 1), 'contains the bit that marks locked nodes')

    def c_unlock(self, f, ms, hr):
        for r, s in self.paths(f) or ():
            for e in s.eff:
                if e.kind == 'w' and str(e.target).startswith('this._weighted_degrees['):
                    self.table('%s: weighted degree after unlock()' % self.cls, f, str(e.val), self.CACHE, [dict(D=x | (1 << 31)) for x in (1, 5, 1 << 20)], lambda v, p: v == p['D'] & ((1 << 31) - 1), 'is not the weighted degree without the bit that marks locked nodes')

    def c_use_full_table(self, f, ms, hr):
        for r, s in self.paths(f) or ():
            self.table('%s: tables with one entry per block' % self.cls, f, str(r), [(r'this\._offsets\[\$0\]', 'X'), (r'this\._offsets\[\(1 \+ \$0\)\]', 'Y')] + self.CACHE, [dict(X=x, Y=x + y, K=k) for x in (0, 7) for k in (2, 3, 8) for y in range(1, k + 1)], lambda v, p: bool(v) == (p['Y'] - p['X'] == p['K']), 'are not those of size k')

    def wide(self, f, want):
        for n in nodes(f):
            if n['k'] in ('Call', 'MCall') and short(n.get('fn') or '').endswith('compute_entry_width') and n.get('c'):
                a = n['c'][-1]
                while a['k'] in ('Cast', 'Paren') and a.get('c'): a = a['c'][0]
                v = a.get('v') if a['k'] in ('Bool', 'Int') else None
                if v is None: self.res.skip('%s::%s(): width' % (self.cls, f['n'])); continue
                v = str(v).lower() in ('1', 'true')
                self.emit('%s: width of the entries of a %s' % (self.cls, 'hash table' if want else 'table of all blocks'), '%s:%s' % (f['f'], n.get('l', f['l'])), None if v == want else '%s::%s() computes the width of entries %s their block, but its entries %s it' % (self.cls, f['n'], 'with' if v else 'without', 'hold' if want else 'do not hold'))

    def c_with_hash_table_impl(self, f, ms, hr): self.wide(f, True)
    def c_with_hash_table(self, f, ms, hr): self.wide(f, True)
    def c_with_full_table(self, f, ms, hr): self.wide(f, False)

    SZ = {'unsigned char': 1, 'std::uint8_t': 1, 'uint8_t': 1, 'unsigned short': 2, 'std::uint16_t': 2, 'uint16_t': 2, 'unsigned int': 4, 'std::uint32_t': 4, 'uint32_t': 4, 'unsigned long': 8, 'std::uint64_t': 8, 'uint64_t': 8}
    def switch(self, f):
        for sw in nodes(f):
            if sw['k'] != 'Switch': continue
            lab = None
            def walk(n):
                nonlocal lab
                if n['k'] == 'Case':
                    c = n['c'][0]
                    while c['k'] in ('Cast', 'Const', 'Paren') and c.get('c'): c = c['c'][0]
                    lab = int(c['v']) if c['k'] == 'Int' else None
                    for x in n['c'][1:]: walk(x)
                    return
                if n['k'] == 'Default': lab = None
                t = str(n.get('t') or '')
                if n['k'] in ('Call', 'MCall', 'OpCall') and lab:
                    for a in n.get('c', ()):
                        t = re.sub(r'\bconst\b', '', str(a.get('t') or '')).replace('*', '').strip()
                        if a['k'] == 'Cast' and '*' in str(a.get('t')) and t in self.SZ:
                            self.emit('%s: entries of %d bytes' % (self.cls, lab), '%s:%s' % (f['f'], n.get('l', f['l'])), None if self.SZ[t] == lab else '%s::%s() reads entries of %d bytes as %s' % (self.cls, f['n'], lab, t))
                for x in n.get('c', ()): 
                    if isinstance(x, dict): walk(x)
            walk(sw)

    # ---- grow-only arrays
    def sizes(self, cls, ms):
        f = ms.get('initialize')
        if not f: return
        ps = self.paths(f)
        if not ps: return
        back, grown = set(), set()
        for r, s in ps:
            for e in s.eff:
                if e.kind == 'call' and str(e.target).endswith('::resize'):
                    back |= set(re.findall(r'this\.(\w+)\.back\(\)', str(e.val) + str(e.op)))
            for t, b in s.lits:
                grown |= set(re.findall(r'this\.(\w+)\._size', t))
                back |= set(re.findall(r'this\.(\w+)\.back\(\)', t))
        for a in grown:
            self.emit('%s: size taken from %s' % (self.cls, a), '%s:%s' % (f['f'], f['l']), '%s::initialize() takes the size it needs from the last element of %s, which only grows: for a graph smaller than an earlier one, that element belongs to the earlier graph' % (self.cls, a) if a in back else None)

    # ---- sparse gain cache: degree buckets
    FB = {'lowest_degree_in_bucket': lambda b: 0 if b == 0 else 1 << (b - 1), 'bucket_size': lambda b: 3 + 2 * b}
    BK = [(r'φ\d+:(?:this\.)?_?bucket\w*', 'I'), (r'(?:\$0|this\._graph)\.bucket_size', 'bucket_size')]

    def c_in_sparse_part(self, f, ms, hr):
        for r, s in self.paths(f) or ():
            self.table('%s: nodes with one entry per block' % self.cls, f, str(r), [(r'\$0', 'U'), (r'this\._node_threshold', 'TH')], [dict(U=u, TH=t) for u in range(6) for t in range(6)], lambda v, p: bool(v) == (p['U'] >= p['TH']), 'are not those from the first node behind the buckets with hash tables on')

    def c_index_sparse(self, f, ms, hr):
        for r, s in self.paths(f) or ():
            at = [(r'\$0', 'U'), (r'\$1', 'B'), (r'this\._node_threshold', 'TH'), (r'this\._sparse_offset', 'S')] + self.CACHE
            self.table('%s: position of a connection' % self.cls, f, str(r), at, [dict(U=t + u, B=b, TH=t, S=x, K=k) for u in range(4) for t in (0, 5) for x in (0, 40) for k in (2, 3) for b in range(k)], lambda v, p: v == p['S'] + (p['U'] - p['TH']) * p['K'] + p['B'], 'is not in the row of the node behind the hash tables')

    def c_find_bucket(self, f, ms, hr):
        at = [(r'this\._buckets\[\(1 \+ φ\d+:\w+\)\]', 'X'), (r'\$0', 'U')]
        pts = [dict(U=u, X=x) for u in range(5) for x in range(5)]
        for r, s in self.paths(f) or ():
            for t, b in s.lits:
                if '_buckets[' in t: self.table('%s::find_bucket(): end of the search' % self.cls, f, t, at, pts, lambda v, p: (bool(v) == b) == (p['U'] < p['X']), 'is not the first bucket whose end lies behind the node')
            for e in s.eff:
                if e.kind == 'w' and '_buckets[' in str(e.val): self.table('%s::find_bucket(): steps' % self.cls, f, str(e.val), at, pts, lambda v, p: v == (p['U'] >= p['X']), 'a bucket is skipped although the node lies in it, or not skipped although it lies behind')

    def dense_size(self, ms):
        f = ms.get('index_dense')
        for r, s in (self.paths(f) or ()) if f else ():
            m = re.match(r'std::(?:make_pair\(|pair\{)', str(r))
            if not m: continue
            t = str(r)[m.end():-1]; d = 0
            for i, c in enumerate(t):
                if c in '([{': d += 1
                elif c in ')]}': d -= 1
                elif c == ',' and d == 0: return f, t[:i], t[i + 1:].strip()
        return None

    def c_index_dense(self, f, ms, hr):
        z = self.dense_size(ms)
        if not z: return self.res.skip('%s::index_dense()' % self.cls)
        self.table('%s: size of a hash table' % self.cls, f, z[2], self.BK, [dict(I=i) for i in range(1, 12)], lambda v, p: v >= 1 << p['I'] and v & (v - 1) == 0, 'no power of two above every degree of the bucket', funs=self.FB)
        try:
            sz = Term(z[2], self.BK, 64, self.FB)
            at = [(r'\$0', 'U'), (r'this\._buckets\[φ\d+:\w+\]', 'F'), (r'this\._cache_offsets\[φ\d+:\w+\]', 'O')] + self.BK
            self.table('%s: start of a hash table' % self.cls, f, z[1], at, [dict(U=fr + u, F=fr, O=o, I=i) for fr in (0, 6) for u in range(4) for o in (0, 100) for i in (1, 3)], lambda v, p: v == p['O'] + (p['U'] - p['F']) * sz(I=p['I']), 'is not that of the node in its bucket', funs=self.FB)
        except Open as e: self.res.skip('%s::index_dense(): %s' % (self.cls, str(e)[:60]))

    def sparse_init(self, f, ms, ps):
        if 'index_sparse' not in ms: return
        where = '%s:%s' % (f['f'], f['l'])
        z = self.dense_size(ms); seen = set()
        for r, s in ps:
            off = None
            init = False
            for e in s.eff:
                if e.kind != 'w': continue
                t, v = str(e.target), str(e.val)
                if re.match(r'this\._buckets\[', t): init = True
                if re.match(r'this\._buckets\[', t) and (t, v) not in seen:
                    seen.add((t, v))
                    m = re.match(r'this\._buckets\[\(1 \+ (.*)\)\]$', t)
                    if m: 
                        at = [(re.escape('this._buckets[%s]' % m.group(1)), 'X'), (re.escape(m.group(1)), 'I')] + self.BK
                        self.table('%s: ends of the buckets' % self.cls, f, v, at, [dict(X=x, I=i) for x in (0, 9) for i in range(5)], lambda y, p: y == p['X'] + self.FB['bucket_size'](p['I']), 'a bucket does not end where the next one starts', funs=self.FB)
                m = re.match(r'this\._cache_offsets\[(.*)\]$', t)
                if m and any(c[0] == 'loop' for c in e.ctx): off = m.group(1); offv = v
                if 'bucket_size(' in v and 'lowest_degree' in v and e.op == '+=' or 'lowest_degree' in v and any(c[0] == 'loop' for c in e.ctx):
                    if (t, v, off) in seen: continue
                    seen.add((t, v, off))
                    if not z or off is None: self.res.skip('%s::initialize(): offsets' % self.cls); continue
                    try:
                        own = Term(z[2], self.BK, 64, self.FB); i = Term(off, self.BK, 64, self.FB)
                        self.table('%s: space of a bucket' % self.cls, f, v, self.BK, [dict(I=i) for i in range(1, 9)], lambda y, p: y >= self.FB['bucket_size'](i(**p)) * own(I=i(**p)), 'smaller than the hash tables of its nodes', funs=self.FB)
                    except Open as x: self.res.skip('%s::initialize(): %s' % (self.cls, str(x)[:60]))
                if e.op == '+=' and '_node_threshold' in v and t != 'this._node_threshold' and v not in seen:
                    seen.add(v)
                    self.table('%s: space of the other nodes' % self.cls, f, v, [(r'φ\d+:this\._node_threshold|this\._node_threshold', 'TH'), (r'\$0\.n\(\)|this\._n\b', 'N')] + self.CACHE, [dict(TH=t, N=n, K=k) for n in (4, 9) for t in (0, 3) for k in (2, 5)], lambda y, p: y >= (p['N'] - p['TH']) * p['K'], 'smaller than one entry per node and block')
                if t == 'this._sparse_offset' and (v, 1) not in seen and ('$0.sorted()', False) not in e.lits:
                    seen.add((v, 1))
                    ok = True if re.match(r'this\._cache_offsets\[.*_bucket_threshold\]$|(φ\d+:)?\w*size\w*$', v) else False if re.fullmatch(r'\d+', v) and any(x == '$0.sorted()' for x, b in e.lits) else None
                    if ok is None: self.res.skip('%s::initialize(): offset' % self.cls)
                    else: self.emit('%s: start of the rows' % self.cls, where, None if ok else '%s::initialize() lets the rows of the other nodes start at %s: they overlap the hash tables' % (self.cls, v))
            if 'init_buckets' in ms or 'find_bucket' in ms:
                if not init: init = any(e.kind == 'call' and 'init_buckets' in str(e.target) for e in s.eff) or any('_buckets' in str(e.target) and '_cache' not in str(e.target) for e in s.eff)
                if ('init', init) not in seen:
                    seen.add(('init', init))
                    self.emit('%s: buckets of the current graph' % self.cls, where, None if init else '%s::initialize() does not copy the degree buckets of the graph: hash tables are looked up in buckets of an earlier one' % self.cls)

    def main(self):
        self.hashmap()
        self.caches()

def run(tier):
    import gains
    res = Result()
    Store(load(gains.units(), allow_errors=('.cc',)), res).main()
    return res
