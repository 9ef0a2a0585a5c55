"""What the loops and iteration functions around an effect run over, read off the context that vn.py records with it."""
from vn import *

class It:
    """one level: elem is the text of the element, [lo, hi) its range; over names a whole (nodes of X, neighbours of u in X)"""
    def __init__(self, kind, elem, lo=None, hi=None, over=None, ctx=None):
        self.kind, self.elem, self.lo, self.hi, self.over, self.ctx = kind, elem, lo, hi, over, ctx
    def __repr__(self): return '%s(%s in [%s,%s) %s)' % (self.kind, self.elem, self.lo, self.hi, self.over or '')

def call_parts(t):
    """'f{a, b}' or 'f(a, b)' -> (f, [a, b]) with f not containing brackets at the end"""
    m = re.match(r'^([\w:*.<>~ ]+)([({])', t)
    if not m or t[-1] not in ')}': return None
    s, d, cur, out = t[m.end():-1], 0, '', []
    for ch in s:
        if ch in '([{': d += 1
        elif ch in ')]}':
            d -= 1
            if d < 0: return None
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return m.group(1), out

def bounds_of(vn, lits, var):
    """the upper bound a loop condition puts on a variable, as text (exclusive)"""
    out = []
    for t, b in lits:
        m = re.fullmatch(r'\[(.*) > 0\]', t)
        if m and b:
            lin = dict(vn.linof(m.group(1)))
            if lin.get(var) == -1:
                del lin[var]; out.append(vn.mklin(lin))
        m = re.fullmatch(r'\((.*) == (.*)\)', t)
        if m and not b and var in (m.group(1), m.group(2)):
            out.append(m.group(2) if m.group(1) == var else m.group(1))
    return out

def span(t):
    """'blocked_range{a, b, grain}' / 'IotaRange{a, b}' -> (a, b)"""
    p = call_parts(t)
    if p and short(p[0]) in ('blocked_range', 'IotaRange') and len(p[1]) >= 2: return p[1][0], p[1][1]
    return None

def iters(vn, e, step=None):
    """levels from the outermost to the innermost; None if one of them was not recognised"""
    out = []
    ranges = {}        # name of a range object -> (lo, hi, over)
    depth = 0
    for c in e.ctx:
        if c[0] == 'for each':
            s = span(c[1])
            el = 'each(%s)' % c[1]
            if s: out.append(It('range', el, s[0], s[1], None, c))
            elif re.search(r'(?:^|[.>])(nodes|all_nodes|ghost_nodes|blocks|edges|total_nodes)\(\)$', c[1]): out.append(It(c[1].rsplit('.', 1)[-1][:-2], el, None, None, c[1].rsplit('.', 1)[0], c))
            else: out.append(It('each', el, None, None, c[1], c))
        elif c[0] == 'loop':
            if len(c) < 3: out.append(It('while', None, ctx=c)); continue
            got = False
            for var, ini in reversed(c[2]):
                phis = [t for t in {a for t, b in e.lits for a in atoms(t)} if re.fullmatch(r'φ\d+:%s' % re.escape(var), t)]
                cand = [(p, b) for p in phis for b in bounds_of(vn, e.lits, p)]
                if not cand: continue
                # several φ of the same name: nested or repeated loops; the one the effect speaks of
                use = [x for x in cand if x[0] in str(e.target) + str(e.val) + ' '.join(t for t, _ in e.lits)]
                p, hi = (use or cand)[-1]
                m = re.fullmatch(r'(.*)\.begin\(\)', ini)
                if m and hi == m.group(1) + '.end()' and m.group(1) in ranges:
                    lo, hi2, over, kind = ranges[m.group(1)]
                    out.append(It(kind, p, lo, hi2, over, c))
                else: out.append(It('range', p, ini, hi, None, c))
                got = True
                break
            if not got: out.append(It('?', None, ctx=c))
        elif c[0] == 'λ':
            q, o, a = short(c[1]), c[2], [str(x) for x in c[3]]
            el = ['λ%d%s' % (i, '′' * depth) for i in range(4)]
            names = None
            depth += 1
            if q == 'parallel_for' and len(a) >= 2 and span(a[0]):
                for nm in rnames(e, c, el[0]): ranges[nm] = span(a[0]) + (None, 'range')
                continue
            if q == 'parallel_for' and len(a) >= 3: out.append(It('range', el[0], a[0], a[1], None, c)); continue
            if q in ('pfor_nodes', 'pfor_blocks', 'pfor_edges', 'pfor_all_nodes', 'pfor_ghost_nodes'):
                two = [x for x in a if x != '<lambda>' and x]
                if len(two) >= 2 and q == 'pfor_nodes': out.append(It('range', el[0], two[0], two[1], None, c))
                else: out.append(It(q[5:], el[0], None, None, o, c))
                continue
            if q in ('pfor_nodes_range', 'pfor_all_nodes_range', 'pfor_ghost_nodes_range'):
                two = [x for x in a if x != '<lambda>' and x]
                for nm in rnames(e, c, el[0]): ranges[nm] = (two[0], two[1], None, 'range') if len(two) >= 2 else (None, None, o, q[5:-6])
                continue
            if q in ('adjacent_nodes', 'neighbors') and a: out.append(It('adjacent', el[0], None, None, (o, a[0]), c)); out[-1].weight = el[1]; continue
            if q == 'deterministic_for' and len(a) >= 3:
                ranges['det:' + el[0]] = (a[0], a[1]); out.append(It('chunk', None, a[0], a[1], None, c)); out[-1].el = el; continue
            out.append(It('λ', el[0], ctx=c, over=q))
        else: out.append(It('?', None, ctx=c))
    return out

def rnames(e, c, el):
    """the names the range a lambda was handed may have: its position, or the local copy of a by-value parameter"""
    ns = {el}
    for x in e.ctx:
        if x[0] == 'loop' and len(x) > 2:
            for var, ini in x[2]:
                m = re.fullmatch(r'(\w+#[\d.]+)\.begin\(\)', ini)
                if m: ns.add(m.group(1))
    return ns

def atoms(t):
    return set(re.findall(r'φ\d+:\w+', t))

def nodes_of(it):
    """the graph whose nodes an iteration visits, all of them; None: not known, False: not all of them"""
    if it.kind == 'nodes': return it.over
    if it.kind in ('all_nodes', 'ghost_nodes', 'edges', 'blocks'): return False
    if it.kind == 'range' and it.lo is not None:
        if it.lo != '0': return False if re.fullmatch(r'\d+', it.lo) else None
        m = re.fullmatch(r'(.*?)\.?\bn\(\)', it.hi)
        if m and not re.search(r'[+\-/ ]', it.hi): return m.group(1)
        m = re.fullmatch(r'\((-?\d+ [+-] )?(.*?)\.n\(\)( [+-] \d+)?\)', it.hi)
        if m: return False
    return None

def blocks_of(it):
    if it.kind == 'blocks': return it.over
    if it.kind == 'range' and it.lo is not None:
        if it.lo != '0': return False if re.fullmatch(r'\d+', it.lo) else None
        m = re.fullmatch(r'(.*?)\.?_?k(\(\))?', it.hi)
        if m and not re.search(r'[+\-/ ]', it.hi): return m.group(1)
        if re.fullmatch(r'\(-?\d+ \+ \S+(k|k\(\))\)', it.hi): return False
    return None
