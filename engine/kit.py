"""Shared helpers of the rules: syntax-tree queries, canonical text, control-flow walks, findings, evidence."""
import os, sys, json, time, re, traceback
from facts import *
import facts as _facts

# ---------------------------------------------------------------- tree helpers
def kids(n):
    return [x for x in (n.get('c') or ()) if isinstance(x, dict)]

def index(fn):
    """id -> node and id -> parent of one function (body and constructor initialisers)"""
    if '_idx' in fn:
        return fn['_idx'], fn['_par']
    idx, par = {}, {}
    roots = [fn.get('b')] + [i.get('e') for i in fn.get('inits', ())]
    for r in roots:
        st = [(r, None)]
        while st:
            x, p = st.pop()
            if not isinstance(x, dict):
                continue
            if 'i' in x:
                idx[x['i']] = x
                if p is not None:
                    par[x['i']] = p
            for c in x.get('c') or ():
                st.append((c, x))
            for cap in x.get('caps') or ():
                if isinstance(cap, dict) and 'init' in cap:
                    st.append((cap['init'], x))
    fn['_idx'], fn['_par'] = idx, par
    return idx, par

def nodes(fn):
    for r in [fn.get('b')] + [i.get('e') for i in fn.get('inits', ())]:
        if isinstance(r, dict):
            yield from walk(r)

def ancestors(fn, n):
    _, par = index(fn)
    while n is not None and n.get('i') in par:
        n = par[n['i']]
        yield n

CALLS = ('Call', 'MCall', 'OpCall', 'Ctor')

def callee(n):
    return n.get('fn') or ''

def short(q):
    """last component of a qualified name (template arguments are never part of it)"""
    return q.rsplit('::', 1)[-1]

def obj(n):
    """implicit object of a member call"""
    if n['k'] == 'MCall':
        return n['c'][0]
    return None

def args(n):
    c = n.get('c') or []
    if n['k'] == 'MCall':
        return c[1:]
    if n['k'] == 'Call' and n.get('ind'):
        return c[1:]
    return c

def strip(n):
    """look through explicit casts and single-argument copies"""
    while isinstance(n, dict):
        if n['k'] == 'Cast' and n.get('c'):
            n = n['c'][0]
        elif n['k'] == 'Ctor' and len(n.get('c') or ()) == 1 and (n.get('copy') or n.get('move')):
            n = n['c'][0]
        elif n['k'] == 'Call' and n.get('fn') in ('std::move', 'std::forward', 'std::as_const', 'asserting_cast', 'kaminpar::asserting_cast') and n.get('c'):
            n = n['c'][0]
        elif n['k'] == 'DefInit' and n.get('c'):
            n = n['c'][0]
        else:
            break
    return n

def text(n, rename=None, consts=True):
    """canonical text of an expression; explicit casts and copies are looked through"""
    n = strip(n)
    if n is None:
        return ''
    k = n['k']
    if consts and 'cv' in n and k not in ('Bool',) and not (k == 'DRef' and n.get('dk') == 'enum'):
        return n['cv']
    T = lambda x: text(x, rename, consts)
    if k == 'DRef':
        if rename is not None and n.get('d') in rename:
            return rename[n['d']]
        if n.get('dk') in ('enum', 'global') and n.get('q'):
            return n['q']
        return n['n']
    if k == 'Mem':
        b = n['c'][0] if n.get('c') else None
        if b is None or b['k'] == 'This':
            return 'this.' + n['n']
        return T(b) + '.' + n['n']
    if k == 'This': return 'this'
    if k in ('Int', 'Float', 'Char', 'Bool'): return n['v']
    if k == 'Str': return json.dumps(n['v'])
    if k == 'Null': return 'nullptr'
    if k in ('Bin', 'CAssign'): return '(' + T(n['c'][0]) + ' ' + n['op'] + ' ' + T(n['c'][1]) + ')'
    if k == 'Un': return '(' + n['op'] + T(n['c'][0]) + ')'
    if k == 'Sub': return T(n['c'][0]) + '[' + T(n['c'][1]) + ']'
    if k == 'Cond': return '(' + T(n['c'][0]) + '?' + T(n['c'][1]) + ':' + T(n['c'][2]) + ')'
    if k == 'OpCall':
        if n['op'] == '[]': return T(n['c'][0]) + '[' + T(n['c'][1]) + ']'
        if n['op'] == '()': return T(n['c'][0]) + '(' + ', '.join(T(x) for x in n['c'][1:]) + ')'
        return n['op'] + '(' + ', '.join(T(x) for x in n['c']) + ')'
    if k == 'MCall':
        o = n['c'][0]
        ot = T(o) if o else 'this'
        return ot + '.' + short(callee(n)) + '(' + ', '.join(T(x) for x in n['c'][1:]) + ')'
    if k == 'Call':
        if n.get('ind'):
            return T(n['c'][0]) + '(' + ', '.join(T(x) for x in n['c'][1:]) + ')'
        return callee(n) + '(' + ', '.join(T(x) for x in n['c']) + ')'
    if k == 'Ctor':
        return callee(n).rsplit('::', 1)[0] + '{' + ', '.join(T(x) for x in n.get('c') or ()) + '}'
    if k == 'SizeOf': return 'sizeof(' + n.get('st', '') + ')'
    if k == 'Lambda': return '<lambda>'
    if k == 'InitList': return '{' + ', '.join(T(x) for x in n['c']) + '}'
    return k + '(' + ', '.join(T(x) for x in n.get('c') or () if x) + ')'

def canon_literal(t, pos):
    """x > 0, x >= 1, x != 0, 0 < x ... are one condition for counters that never go below zero"""
    m = re.fullmatch(r'\((.*) (>|>=|<|<=|==|!=) (.*)\)', t)
    if m and m.group(1).count('(') == m.group(1).count(')'):
        a, op, b = m.groups()
        if re.fullmatch(r'-?\d+', a) and not re.fullmatch(r'-?\d+', b):
            a, b = b, a
            op = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
        if op in ('>', '!=') and b == '0' or op == '>=' and b == '1': return a, pos
        if op in ('==', '<=') and b == '0' or op == '<' and b == '1': return a, not pos
    return t, pos

def getter(prog, n):
    """expression returned by a parameterless member function that only returns an expression"""
    f = fn_of(prog, n)
    if f is None or f.get('p') or n.get('virt'): return None
    b = f['b']
    ss = [x for x in b.get('c') or () if x and x['k'] != 'Empty']
    if len(ss) == 1 and ss[0]['k'] == 'Return' and ss[0].get('c') and ss[0]['c'][0]:
        return ss[0]['c'][0]
    return None

def at(fn, n):
    return '%s:%s' % (n.get('f') or fn['f'], n.get('l', fn['l']))

def macro(n, name):
    m = n.get('m')
    return bool(m) and name in m.replace('@', '').split('>')

# ---------------------------------------------------------------- writes
ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=')

def assigned(n):
    """if n is an assignment or ++/--: the expression that is written"""
    k = n['k']
    if k == 'CAssign': return n['c'][0]
    if k == 'Bin' and n['op'] == '=': return n['c'][0]
    if k == 'Un' and n['op'] in ('++', '--', 'p++', 'p--'): return n['c'][0]
    if k == 'OpCall' and (n['op'] in ASSIGN or n['op'] in ('++', '--')): return n['c'][0]
    return None

def root(n):
    """root of an lvalue: DRef / This / other node at the bottom of member, subscript and dereference chains"""
    while isinstance(n, dict):
        n = strip(n)
        if n['k'] == 'Mem' and n.get('c'): n = n['c'][0]
        elif n['k'] == 'Sub': n = n['c'][0]
        elif n['k'] == 'Un' and n['op'] in ('*', '&', '++', '--', 'p++', 'p--'): n = n['c'][0]
        elif n['k'] == 'OpCall' and n['op'] in ('[]', '*', '->', '()'): n = n['c'][0]
        elif n['k'] == 'MCall' and n['c'][0] is not None: n = n['c'][0]
        else: break
    return n

# ---------------------------------------------------------------- control flow
def blocks(fn):
    g = fn.get('cfg')
    if not g: return None
    return {b['id']: b for b in g['b']}

def forward(fn, init, transfer, edge=None, limit=400, widen=None):
    """Forward propagation of sets of hashable states over the control-flow graph.
    transfer(node, state) -> iterable of states; edge(block, branch index, state) -> state or None.
    Returns ({block id: states at entry}, states at exit)."""
    g = fn['cfg']; bl = blocks(fn); idx, _ = index(fn)
    at_entry = {b: set() for b in bl}
    at_entry[g['entry']] = {init}
    work = [g['entry']]
    out_exit = set()
    steps = 0
    while work:
        b = work.pop()
        steps += 1
        if steps > 20000: raise AnalysisBroken('no fixpoint in ' + fn['q'])
        states = set(at_entry[b])
        blk = bl[b]
        for e in blk['e']:
            n = idx.get(e)
            if n is None: continue
            ns = set()
            for s in states:
                ns.update(transfer(n, s))
            states = ns
        if b == g['exit']:
            out_exit = states
            continue
        if blk.get('nr'):
            continue
        succ = blk['s']
        for i, t in enumerate(succ):
            if t is None: continue
            es = set()
            for s in states:
                r = s if edge is None else edge(blk, i, s)
                if r is not None: es.add(r)
            new = es - at_entry[t]
            if new:
                if widen and len(at_entry[t]) + len(new) > limit:
                    merged = {widen(s) for s in at_entry[t] | new}
                    if merged == at_entry[t]: continue
                    at_entry[t] = merged
                else:
                    at_entry[t] |= new
                work.append(t)
    return at_entry, out_exit

def branch_literal(fn, blk, i, stable, prog=None):
    """(canonical condition, truth) of the i-th edge out of a block, or None"""
    if len(blk['s']) != 2 or 'tc' not in blk: return None
    idx, _ = index(fn)
    n = idx.get(blk['tc'])
    if n is None: return None
    pos = (i == 0)
    n = strip(n)
    while True:
        if n['k'] == 'Un' and n['op'] == '!':
            pos = not pos; n = strip(n['c'][0])
        elif prog is not None and n['k'] == 'MCall' and n['c'][0] is not None and strip(n['c'][0])['k'] == 'This' and getter(prog, n) is not None:
            n = strip(getter(prog, n))
        else:
            break
    if n['k'] == 'Bin' and n['op'] == '!=':
        return ('(%s == %s)' % (text(n['c'][0]), text(n['c'][1])), not pos) if stable(n) else None
    return canon_literal(text(n), pos) if stable(n) else None

def stable_pred(fn):
    """conditions over variables the function never writes keep their value along a path"""
    w = set()
    for n in nodes(fn):
        a = assigned(n)
        if a is not None: w.add(text(a))
    def f(n):
        for x in walk(n):
            if x['k'] in ('Call', 'OpCall', 'Ctor', 'Lambda', 'New') and not (x['k'] == 'OpCall' and x['op'] in ('==', '!=')):
                return False
            if x['k'] == 'MCall' and not x.get('cst'): return False
            if x['k'] in ('DRef', 'Mem') and text(x, consts=False) in w: return False
        return True
    return f

# ---------------------------------------------------------------- call graph
def fn_of(prog, n):
    u = n.get('u')
    return prog.fns.get(u) if u else None

def lambda_bodies(prog, fn, n):
    return prog.lambdas.get((fn['unit'], n['fid']), [])

def in_macro_nodes(fn, names):
    for n in nodes(fn):
        m = n.get('m')
        if m and any(x in names for x in m.replace('@', '').split('>')):
            yield n

# ---------------------------------------------------------------- results
class Finding:
    def __init__(self, key, where, msg):
        self.key, self.where, self.msg = key, where, msg

class Result:
    def __init__(self):
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.info = {}
        self.assumptions = []
        self.undecided = []
    def ok(self, sample=None):
        self.obligations += 1; self.discharged += 1
        if sample and len(self.samples) < 12: self.samples.append(sample)
    def bad(self, key, where, msg):
        self.obligations += 1
        if any(f.key == key for f in self.findings):
            return
        self.findings.append(Finding(key, where, msg))
    def skip(self, what):
        self.undecided.append(what)
