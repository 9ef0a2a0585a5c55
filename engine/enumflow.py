"""Constant propagation of one enum value through a function: which blocks, and so which effects, a value selects."""
from kit import *

def enum_of_type(t):
    t = re.sub(r'\bconst\b|&', '', t or '').strip()
    return t

def enum_const(n):
    n = strip(n)
    if isinstance(n, dict) and n['k'] == 'DRef' and n.get('dk') == 'enum':
        return n.get('q')
    return None

def switches(fn):
    """(block, condition node, {enumerator qualified name: target}, default target)"""
    if 'cfg' not in fn: return
    idx, _ = index(fn)
    bl = blocks(fn)
    for b in fn['cfg']['b']:
        if 't' not in b: continue
        t = idx.get(b['t'])
        if t is None or t['k'] != 'Switch': continue
        cond = idx.get(b.get('tc'))
        targets, default = {}, None
        for s in b['s']:
            if s is None: continue
            lab = idx.get(bl[s].get('lbl')) if 'lbl' in bl[s] else None
            got = False
            while isinstance(lab, dict) and lab['k'] in ('Case', 'Default'):
                if lab['k'] == 'Case':
                    targets[case_value(lab)] = s
                else:
                    default = s
                got = True
                nxt = [x for x in lab.get('c') or () if isinstance(x, dict) and x['k'] in ('Case', 'Default')]
                lab = nxt[0] if nxt else None
            if not got: default = s
        yield b, cond, targets, default

def case_value(lab):
    c = lab['c'][0]
    q = enum_const(c)
    if q: return q
    return (strip(c) or {}).get('cv')

def reachable(fn, start, stop=()):
    bl = blocks(fn)
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in stop or b is None: continue
        seen.add(b)
        if bl[b].get('nr'): continue
        st.extend(bl[b]['s'])
    return seen

def select(fn, tracked, value, prog=None):
    """blocks reachable when every expression accepted by `tracked` has the given enumerator as value"""
    idx, _ = index(fn)
    bl = blocks(fn)
    seen, st = set(), [fn['cfg']['entry']]
    sw = {b['id']: (c, t, d) for b, c, t, d in switches(fn)}
    while st:
        b = st.pop()
        if b is None or b in seen: continue
        seen.add(b)
        blk = bl[b]
        if blk.get('nr'): continue
        if b in sw:
            c, t, d = sw[b]
            if c is not None and tracked(strip(c)):
                st.append(t.get(value, d)); continue
        elif len(blk['s']) == 2 and 'tc' in blk:
            c = idx.get(blk['tc'])
            r = compare(c, tracked, value)
            if r is not None:
                st.append(blk['s'][0 if r else 1]); continue
        st.extend(blk['s'])
    return seen

def compare(c, tracked, value):
    c = strip(c)
    if not isinstance(c, dict): return None
    if c['k'] == 'Un' and c['op'] == '!':
        r = compare(c['c'][0], tracked, value)
        return None if r is None else not r
    if c['k'] in ('Bin', 'OpCall') and c.get('op') in ('==', '!='):
        a, b = strip(c['c'][0]), strip(c['c'][1])
        if enum_const(a): a, b = b, a
        q = enum_const(b)
        if q and tracked(a):
            return (q == value) == (c['op'] == '==')
    return None
