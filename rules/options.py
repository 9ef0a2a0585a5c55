"""Command line options: unique names, one setting per option and one option per setting, the setting that the name says,
enumerated settings go through the name table of their own enum, every setting bound to an option is read by the program.

The functions that register options are interpreted from each program's main: group pointers, settings passed by reference
and name prefixes are followed through calls, so an option is identified by the path of the setting from the program's root.
"""
from kit import *
from similar import swap_better, score, tokens

PROGRAMS = [  # entry unit, units that register options for it
    ('apps/KaMinPar.cc', ['kaminpar-cli/kaminpar_arguments.cc']),
    ('apps/dKaMinPar.cc', ['kaminpar-cli/dkaminpar_arguments.cc']),
]
TOOLS = 'apps/tools'
ADD = ('add_option', 'add_flag', 'add_option_function', 'add_flag_function', 'add_flag_callback', 'set_config', 'set_version_flag', 'set_help_flag')
# section prefix of an option name -> part of the configuration it has to control
SECTION = {'p': ('partitioning', 'partition'), 'c': ('coarsening',), 'i': ('initial_partitioning',), 'r': ('refinement',), 'd': ('debug',)}
ANTONYMS = [('unlock', 'lock'), ('enable', 'disable'), ('enabled', 'disabled'), ('allow', 'forbid'), ('use', 'no'), ('ignore', 'respect')]
NOT_A_READ = ('kaminpar-cli/', 'kaminpar-shm/context_io', 'kaminpar-dist/context_io', 'kaminpar-shm/presets', 'kaminpar-dist/presets')

def units():
    us = [u for u in all_units('kaminpar-shm', 'kaminpar-dist', 'kaminpar-common', 'kaminpar-cli', 'apps') if not u.startswith('apps/benchmarks/')]
    return us

class Opt:
    pass

class Interp:
    """symbolic run of option registering code"""
    def __init__(self, prog, entry_unit, unit_idx):
        self.prog, self.opts, self.visited, self.unknown = prog, [], set(), []
        self.unit = unit_idx
        self.skipped = 0

    def string(self, n, env):
        """text of a name expression or None"""
        n = strip(n)
        if not isinstance(n, dict): return None
        k = n['k']
        if k == 'Str': return n['v']
        if k == 'Ctor' and n.get('c'): return self.string(n['c'][0], env)
        if k == 'DRef':
            v = env.get(n.get('d'))
            return v[1] if v and v[0] == 'str' else None
        if k in ('OpCall', 'Bin') and n.get('op') == '+':
            a, b = self.string(n['c'][0], env), self.string(n['c'][1], env)
            return a + b if a is not None and b is not None else None
        return None

    def path(self, n, env):
        """access path of an lvalue: (root key, field, ...) or None"""
        n = strip(n)
        if not isinstance(n, dict): return None
        k = n['k']
        if k == 'DRef':
            v = env.get(n.get('d'))
            if v is None:
                return (n['q'],) if n.get('dk') == 'global' and n.get('q') else (n['n'],)
            return v[1] if v[0] == 'path' else None
        if k == 'Mem':
            if not n.get('c') or n['c'][0] is None or n['c'][0]['k'] == 'This': return ('this', n['n'])
            b = self.path(n['c'][0], env)
            return b + (n['n'],) if b else None
        if k == 'Un' and n['op'] in ('*', '&'): return self.path(n['c'][0], env)
        return None

    def run(self, fn, env, depth=0):
        if depth > 8: return
        self.visited.add(fn['u'])
        idx, par = index(fn)
        alias = {}   # variable -> option, for `auto *opt = group->add_option(...)`
        for n in walk(fn['b']):
            if n['k'] == 'Var':
                init = next(iter(kids(n)), None)
                t = n.get('t', '')
                if init is not None:
                    s = self.string(init, env) if 'basic_string' in t or 'char' in t else None
                    if s is not None: env[n['d']] = ('str', s)
                    elif t.endswith('&') or t.endswith('*'):
                        p = self.path(init, env)
                        if p: env[n['d']] = ('path', p)
            if n['k'] not in ('Call', 'MCall'): continue
            q = callee(n)
            if n['k'] == 'MCall' and q.startswith('CLI::') and short(q) in ADD:
                self.add(fn, n, env, idx, par)
                continue
            g = fn_of(self.prog, n)
            if g is not None and g.get('b') and not g['f'].endswith('CLI11.h') and any('CLI::' in p['t'] for p in g['p']):
                e2 = {}
                for p, a in zip(g['p'], args(n)):
                    s = self.string(a, env)
                    if s is not None: e2[p['d']] = ('str', s); continue
                    pa = self.path(a, env)
                    if pa is not None: e2[p['d']] = ('path', pa)
                self.run(g, e2, depth + 1)

    def add(self, fn, n, env, idx, par):
        o = Opt()
        o.fn, o.node, o.where = fn, n, at(fn, n)
        a = [x for x in args(n)]
        o.raw = self.string(a[0], env) if a else None
        if o.raw is None:
            self.unknown.append('%s: name of an option is not a constant' % o.where); return
        o.names = []
        for x in o.raw.split(','):
            x = x.strip(); neg = False
            m = re.fullmatch(r'(!?)([^{]*)(?:\{(.*)\})?', x)
            if m and (m.group(1) or (m.group(3) or '').lower() in ('false', 'no', 'off', '0')): neg = True
            o.names.append((m.group(2), neg))
        o.kind = short(callee(n))
        o.path, o.mem, o.lam = None, None, None
        for x in a[1:2]:
            y = strip(x)
            if isinstance(y, dict) and y['k'] in ('Mem', 'DRef') and (y['k'] == 'Mem' or y.get('dk') in ('global', 'var', 'parm')):
                o.path, o.mem = self.path(y, env), y
            elif isinstance(y, dict):
                for z in walk(y):
                    if z['k'] == 'Lambda': o.lam = z; break
        o.env = dict(env)
        # what is chained to the registration
        o.chain = []
        cur = n
        while cur.get('i') in par:
            p = par[cur['i']]
            if p['k'] == 'MCall' and p['c'][0] is cur and callee(p).startswith('CLI::'):
                o.chain.append(p); cur = p
            else:
                break
        if cur.get('i') in par and par[cur['i']]['k'] == 'Var':
            d = par[cur['i']]['d']
            for m in nodes(fn):
                if m['k'] == 'MCall' and callee(m).startswith('CLI::'):
                    r = m
                    while r['k'] == 'MCall' and r['c'][0] is not None and callee(r).startswith('CLI::'):
                        r = strip(r['c'][0])
                    if r['k'] == 'DRef' and r.get('d') == d: o.chain.append(m)
        self.opts.append(o)

def enum_in(t, prog):
    """enum of the repository named in a type (the type itself or its element)"""
    for w in re.findall(r'[A-Za-z_(][\w:()]*', t or ''):
        if w in prog.enums: return w
        if w.startswith('kagen::') and w.split('::')[1][0].isupper(): return w
    return None

def long_name(o):
    return next((nm for nm, _ in o.names if nm.startswith('--')), o.raw)

def _uses(fn):
    """nodes that are neither part of an option's registration nor the target of an assignment"""
    if '_uses' in fn: return fn['_uses']
    out, st = [], [r for r in [fn.get('b')] + [i.get('e') for i in fn.get('inits', ())]]
    while st:
        n = st.pop()
        if not isinstance(n, dict): continue
        if n['k'] in ('MCall', 'Ctor') and callee(n).startswith('CLI::'): continue
        if n['k'] in ('Bin', 'OpCall') and n.get('op') == '=':
            l = strip(n['c'][0])
            st.extend(l.get('c') or ()); st.extend(n['c'][1:]); continue
        out.append(n)
        st.extend(n.get('c') or ())
        for cap in n.get('caps') or ():
            if isinstance(cap, dict) and isinstance(cap.get('init'), dict): st.append(cap['init'])
    fn['_uses'] = out
    return out

def used_fields(fn):
    return {n['q']: at(fn, n) for n in _uses(fn) if n['k'] == 'Mem' and n.get('q')}

def used_vars(fn):
    return {n['d'] for n in _uses(fn) if n['k'] == 'DRef' and 'd' in n}

def run(tier):
    res = Result()
    prog = load(units())
    uidx = {os.path.relpath(u, REPO) if os.path.isabs(u) else u: i for i, u in enumerate(prog.units)}
    programs = []
    mains = sorted((f for f in prog.byq.get('main', [])), key=lambda f: f['f']) if 'main' in prog.byq else []
    # several mains share one symbol: take them from the units' own facts
    entries = [e for e, _ in PROGRAMS] + sorted(u for u in uidx if u.startswith(TOOLS))
    roots = {}
    nopts = 0
    bound_fields = {}
    registering = set()
    for entry in entries:
        if entry not in uidx: 
            res.skip('%s is not analysed' % entry); continue
        sub = load([entry] + dict(PROGRAMS).get(entry, []))
        ms = [f for f in sub.fns.values() if f['q'] == 'main' and f['f'] == entry]
        if not ms:
            res.skip('%s has no main' % entry); continue
        it = Interp(sub, entry, 0)
        it.run(ms[0], {})
        registering |= it.visited
        opts = it.opts
        for u in it.unknown: res.skip(u)
        # a program may register its options twice (once to print the configuration): keep one per call site and name
        uniq, seen = [], set()
        for o in opts:
            k = (o.where, o.raw)
            if k in seen: continue
            seen.add(k); uniq.append(o)
        opts = uniq
        if entry in dict(PROGRAMS) and len(opts) < 40:
            res.skip('%s: only %d options recognised' % (entry, len(opts)))
        nopts += len(opts)
        # (1) unique names
        owner = {}
        for o in opts:
            for nm, neg in o.names:
                if nm in owner and owner[nm] is not o:
                    res.bad('%s|name|%s|%s' % (entry, nm, '/'.join(sorted((owner[nm].raw, o.raw)))), o.where, 'the option name %s is registered by "%s" and by "%s"; only one of them can be used' % (nm, owner[nm].raw, o.raw))
                else:
                    owner[nm] = o
                    res.ok('%s: %s is registered once' % (entry, nm))
        # (2) one option per setting
        seen = {}
        for o in opts:
            if o.path is None: continue
            if o.path in seen and seen[o.path] is not o:
                res.bad('%s|setting|%s' % (entry, '.'.join(o.path)), o.where, '"%s" controls %s, which is controlled by "%s" as well' % (o.raw, '.'.join(o.path), seen[o.path].raw))
            else:
                seen[o.path] = o
                res.ok()
        # (3) section
        for o in opts:
            if o.path is None: continue
            long = next((nm for nm, _ in o.names if nm.startswith('--')), None)
            m = re.match(r'--([a-z])-', long or '')
            if m and m.group(1) in SECTION:
                if not set(SECTION[m.group(1)]) & set(o.path[1:]):
                    res.bad('%s|section|%s' % (entry, long), o.where, '"%s" controls %s, which is not part of the section its name says' % (long, '.'.join(o.path)))
                else:
                    res.ok('%s: %s controls %s' % (entry, long, '.'.join(o.path)))
        # (4) enumerated settings
        for o in opts:
            if o.mem is None: continue
            e = enum_in(o.mem.get('t'), sub)
            if not e: continue
            tr = []
            for c in o.chain:
                if short(callee(c)) in ('transform', 'check') and len(c['c']) > 1:
                    for z in walk(c['c'][1]):
                        if z['k'] == 'Call':
                            te = enum_in(z.get('t'), sub)
                            if te: tr.append(te)
            if not tr:
                res.bad('%s|table|%s' % (entry, o.raw), o.where, '"%s" sets a value of %s but accepts no names' % (o.raw, short(e)))
            elif any(t != e for t in tr):
                res.bad('%s|table|%s' % (entry, o.raw), o.where, '"%s" sets a value of %s but accepts the names of %s' % (o.raw, short(e), short(tr[0])))
            else:
                res.ok('%s: %s accepts the names of %s' % (entry, o.raw, short(e)))
        # (5) settings exchanged, or bound to an unrelated free setting
        bytype = {}
        for o in opts:
            if o.path is None: continue
            bytype.setdefault((o.mem.get('t'), o.path[:-1] if len(o.path) < 4 else o.path[:3]), []).append(o)
        for (t, _), os_ in bytype.items():
            items = [('.'.join(o.path[1:]).replace('.', '_'), [nm.lstrip('-') for nm, _ in o.names]) for o in os_]
            sw = swap_better(items, 0.15)
            if sw:
                o1 = next(o for o, i in zip(os_, items) if i[0] == sw[0]); o2 = next(o for o, i in zip(os_, items) if i[0] == sw[1])
                res.bad('%s|exchanged|%s' % (entry, '/'.join(sorted((o1.raw, o2.raw)))), o1.where, '"%s" and "%s" control each other\'s setting' % (o1.raw, o2.raw))
            else:
                res.ok('%s: %d settings of type %s fit their options' % (entry, len(os_), t))
        taken = {o.path for o in opts if o.path}
        recs = {r['q']: r for r in sub.recs.values()}
        for o in opts:
            if o.path is None or o.mem['k'] != 'Mem': continue
            rec = recs.get(o.mem.get('q', '').rsplit('::', 1)[0])
            if rec is None: continue
            names = [nm.lstrip('-') for nm, _ in o.names]
            mine = score(o.path[-1], names)
            for fl in rec['fields']:
                p2 = o.path[:-1] + (fl['n'],)
                if p2 in taken or fl.get('t') != o.mem.get('t'): continue
                if score(fl['n'], names) > mine + 0.25:
                    res.bad('%s|other setting|%s' % (entry, o.raw), o.where, '"%s" controls %s although %s is the setting it names' % (o.raw, '.'.join(o.path), fl['n'])); break
            else:
                res.ok()
        # (6) polarity
        for o in opts:
            if o.path is None: continue
            if 'bool' not in (o.mem.get('t') or ''): continue
            ft = set(re.split(r'[^a-z0-9]+', o.path[-1].lower()))
            for nm, neg in o.names:
                nt = set(re.split(r'[^a-z0-9]+', nm.lower())) - {''}
                opp = any((a in ft and b in nt and a not in nt) or (b in ft and a in nt and b not in nt) for a, b in ANTONYMS)
                opp ^= bool({'no', 'dont', 'not', 'without'} & nt) and not ({'no', 'dont', 'not', 'without', 'disable', 'disabled'} & ft)
                if opp != neg:
                    res.bad('%s|polarity|%s' % (entry, nm), o.where, 'the flag %s sets %s to %s' % (nm, o.path[-1], 'false' if neg else 'true'))
                else:
                    res.ok()
        # (7) flags that set a family of settings set all of it
        for o in opts:
            if o.lam is None: continue
            long = next((nm for nm, _ in o.names if nm.startswith('--')), None)
            bodies = sub.lambdas.get((o.fn['unit'], o.lam['fid']), [])
            written, vals = set(), {}
            for b in bodies:
                for x in nodes(b):
                    w = assigned(x)
                    if w is not None:
                        p = it.path(w, o.env)
                        if p: written.add(p); vals[p] = x
            o.written = written
            m = re.fullmatch(r'--(.*)-everything', long or '')
            if m:
                stem = '--' + m.group(1) + '-'
                fam = {p.path: p for p in opts if p.path and p.kind.startswith('add_flag') and any(nm.startswith(stem) for nm, _ in p.names)}
                for p, po in sorted(fam.items()):
                    ok = p in written
                    if ok:
                        r = strip(vals[p]['c'][1]) if len(vals[p].get('c') or ()) > 1 else None
                        ok = r is not None and r['k'] == 'Bool' and r['v'] in ('true', True, '1')
                    if not ok:
                        res.bad('%s|family|%s|%s' % (entry, long, p[-1]), o.where, '%s does not switch on %s' % (long, po.raw))
                    else:
                        res.ok('%s: %s switches on %s' % (entry, long, po.raw))
        # a callback may only lack a setting if it does something else
        for o in opts:
            if o.path is not None and o.mem['k'] == 'Mem' and o.mem.get('q') and not o.mem['q'].startswith('(anon)'):
                bound_fields.setdefault(o.mem['q'], []).append((entry, o))
            elif o.path is not None and o.mem.get('dk') == 'var':
                # a variable of the program: read after the options are registered
                d = o.mem['d']
                if not any(d in used_vars(g) for g in sub.fns.values() if g['unit'] == o.fn['unit'] and g['f'] == o.fn['f']):
                    res.bad('%s|no effect|%s' % (entry, o.raw), o.where, '"%s" has no effect: its variable is not used' % o.raw)
                else: res.ok()
        # settings of the program itself
        mine = {o.mem['q'] for o in opts if o.path is not None and o.mem['k'] == 'Mem' and o.mem.get('q', '').startswith('(anon)')}
        if mine:
            got = set()
            for f in sub.fns.values():
                if f['f'] == entry: got |= {x for x in used_fields(f) if x in mine}
            for o in opts:
                if o.path is not None and o.mem['k'] == 'Mem' and o.mem['q'] in mine:
                    if o.mem['q'] not in got:
                        res.bad('%s|no effect|%s' % (entry, long_name(o)), o.where, '"%s" has no effect: its setting %s is never read' % (o.raw, o.mem['q']))
                    else: res.ok('%s: %s is read' % (entry, o.mem['q']))
        # (8) registration functions of the option modules are all reached
        for u in dict(PROGRAMS).get(entry, []):
            for f in sub.fns.values():
                if f['f'] == u and not f.get('lambda') and f['n'].startswith('create_') and any('CLI::' in p['t'] for p in f['p']):
                    if f['u'] not in it.visited:
                        res.bad('%s|not registered|%s' % (entry, f['n']), '%s:%d' % (f['f'], f['l']), 'the options of %s are never registered' % f['n'])
                    else:
                        res.ok('%s: %s is reached from main' % (entry, f['n']))
        # (10) what the options have set is neither replaced after parsing nor left unused
        main = ms[0]
        tops = kids(main['b'])
        at_parse = next((i for i, t in enumerate(tops) if any(x['k'] == 'MCall' and short(callee(x)) == 'parse' and 'CLI::' in callee(x) for x in walk(t))), None)
        if at_parse is None: res.skip('%s: parsing not recognised' % entry)
        else:
            mem = {o.mem['q'] for o in opts if o.path is not None and o.mem['k'] == 'Mem' and o.mem.get('q')}
            holders = {}
            for t in tops[:at_parse + 1]:
                for x in walk(t):
                    if x['k'] in CALLS and x.get('u') in it.visited:
                        for y in args(x):
                            y = strip(y)
                            if isinstance(y, dict) and y['k'] == 'DRef' and y.get('dk') in ('var', 'local', None) and ('Context' in (y.get('t') or '')): holders[y['d']] = y
            for t in tops[at_parse + 1:]:
                if t['k'] not in ('Bin', 'OpCall') or t.get('op') != '=': continue
                l, r = strip(t['c'][0]), t['c'][1]
                if not isinstance(l, dict): continue
                if l['k'] == 'DRef' and l.get('d') in holders:
                    if not any(x['k'] == 'DRef' and x.get('d') == l['d'] for x in walk(r)):
                        res.bad('%s|replaced|%s' % (entry, l['n']), at(main, t), 'what the options have set is replaced after the command line was read')
                elif l['k'] == 'Mem' and l.get('q') in mem:
                    if not any(x['k'] == 'Mem' and x.get('q') == l['q'] for x in walk(r)):
                        res.bad('%s|replaced|%s' % (entry, l['n']), at(main, t), 'the setting %s is replaced after the command line was read, its option has no effect' % l['n'])
                    else: res.ok()
            res.ok('%s: settings are not replaced after parsing' % entry)
            if entry in dict(PROGRAMS):
                for d, y in sorted(holders.items()):
                    if not re.search(r'kaminpar::\w+::Context$', re.sub(r'\bconst\b|&', '', y.get('t') or '').strip()): continue
                    used = False
                    for t in tops[at_parse + 1:]:
                        for x in walk(t):
                            if x['k'] in CALLS and x.get('u') not in it.visited and callee(x).startswith('kaminpar::') and any(isinstance(strip(a), dict) and strip(a).get('d') == d for a in args(x)): used = True
                    if used: res.ok('%s: the settings in %s are handed to the library' % (entry, y['n']))
                    else: res.bad('%s|not handed on|%s' % (entry, y['n']), at(main, tops[at_parse]), 'the settings that the options have set are not handed to the library')
    # (11) objects that are given settings keep them
    recs = {r['q']: r for r in prog.recs.values()}
    bare = lambda t: re.sub(r'\bconst\b|&', '', t or '').strip()
    kept = 0
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if 'inits' not in f or not f.get('cls') or not f.get('b') or f['cls'] not in recs: continue
        ps = {bare(q.get('t')): q for q in f['p'] if bare(q.get('t')).startswith('kaminpar::') and bare(q.get('t')).endswith('Context')}
        if not ps or f['cls'] in ps: continue
        for m in recs[f['cls']]['fields']:
            q = ps.get(bare(m.get('t')))
            if q is None: continue
            inis = [i['e'] for i in f['inits'] if m['n'] in (i.get('n'), i.get('m')) and isinstance(i.get('e'), dict)]
            src = inis + [n['c'][1] for n in nodes(f) if n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and isinstance(strip(n['c'][0]), dict) and strip(n['c'][0]).get('n') == m['n']]
            if not src: continue
            kept += 1
            if any(x['k'] == 'DRef' and x.get('n') == q['n'] for e in src for x in walk(e)):
                res.ok('%s keeps the settings it is given in %s' % (f['q'], m['n']))
            else:
                res.bad('%s|dropped|%s' % (f['q'], m['n']), '%s:%d' % (f['f'], f['l']), '%s does not take over the settings it is given: %s is set from something else' % (f['q'], m['n']))
    # (12) of two sections of one kind, code that carries the name of one does not read the other
    sib = {}
    for r in recs.values():
        if not r['q'].startswith('kaminpar::') or not r['q'].endswith('Context'): continue
        by = {}
        for x in r['fields']:
            if bare(x.get('t')).startswith('kaminpar::') and bare(x.get('t')).endswith('Context'): by.setdefault(bare(x['t']), []).append(x['n'])
        for t, ns in by.items():
            if len(ns) > 1:
                for a in ns: sib['%s::%s' % (r['q'], a)] = [b for b in ns if b != a]
    for f in sorted(prog.fns.values(), key=lambda f: (f['f'], f['l'], f['u'])):
        if f['f'].startswith(NOT_A_READ) or not f.get('b'): continue
        home = '_%s_' % os.path.splitext(os.path.basename(f['f']))[0]
        for q, where in sorted(used_fields(f).items()):
            if q not in sib: continue
            if any('_%s_' % b in home for b in sib[q]) and '_%s_' % short(q) not in home:
                res.bad('%s|section|%s' % (f['q'], short(q)), where, '%s reads the settings of %s instead of its own' % (f['q'], short(q)))
            else: res.ok()
    # (9) every bound setting is read
    reads, sections = {}, {}
    optional = [u for u in uidx if 'mtkahypar' in u]
    more = load(optional, extra=('-DKAMINPAR_HAVE_MTKAHYPAR_LIB',), allow_errors=('.cc',)).fns.values() if optional else []
    for f in list(prog.fns.values()) + list(more):
        if f['f'].startswith(NOT_A_READ): continue
        for q, where in used_fields(f).items():
            if q in bound_fields: reads.setdefault(q, where)
    # the sections the bound settings are in are read as well (two sections may have the same type)
    for q, os_ in list(bound_fields.items()):
        for entry, o in os_:
            m = o.mem
            while isinstance(m, dict) and m['k'] == 'Mem' and m.get('c'):
                m = strip(m['c'][0])
                if isinstance(m, dict) and m['k'] == 'Mem' and m.get('q') and not m['q'].startswith('(anon)'):
                    sections.setdefault(m['q'], []).append((entry, o))
    for f in list(prog.fns.values()) + list(more):
        if f['f'].startswith(NOT_A_READ): continue
        for q, where in used_fields(f).items():
            if q in sections: reads.setdefault(q, where)
    for q, os_ in sorted(sections.items()):
        if q in bound_fields: continue
        if q in reads: res.ok('%s is read in %s' % (q, reads[q]))
        else:
            entry, o = os_[0]
            res.bad('%s|section unused|%s' % (entry, q), o.where, 'the settings in %s, "%s" for one, have no effect: the section is never read' % (q, o.raw))
    for q, os_ in sorted(bound_fields.items()):
        if q not in reads:
            for entry, o in os_:
                res.bad('%s|no effect|%s' % (entry, long_name(o)), o.where, '"%s" has no effect: its setting %s is never read' % (o.raw, q))
        else:
            res.ok('%s is read in %s' % (q, reads[q]))
    res.info = {'units': len(prog.units), 'programs': len(entries), 'options': nopts, 'settings': len(bound_fields), 'settings kept by constructors': kept}
    return res
