"""Cross-check of two families of names that are assigned to each other: an exchange that fits better is a mix-up."""
import re

def tokens(s):
    s = s.rsplit('::', 1)[-1]
    s = re.sub(r'([a-z0-9])([A-Z])', r'\1 \2', s)
    s = re.sub(r'([A-Z]+)([A-Z][a-z])', r'\1 \2', s)
    t = [x.lower() for x in re.split(r'[^A-Za-z0-9]+', s) if x]
    r = set(t)
    for i in range(len(t)):
        for j in range(i + 2, min(len(t), i + 3) + 1):
            r.add(''.join(x[0] for x in t[i:j]))
            r.add(''.join(t[i:j]))
    r |= {x[:-1] for x in r if len(x) > 4 and x.endswith('s')}
    return r

def score(a, bs):
    A = tokens(a)
    B = set()
    for b in bs: B |= tokens(b)
    if not A: return 0.0
    sh = sum(1 for x in A & B)
    for x in A - B:
        if len(x) >= 3 and any(len(y) >= 3 and (y.startswith(x[:5]) and x.startswith(y[:5]) and min(len(x), len(y)) >= 4) for y in B): sh += 0.5
    # how much of the other side is explained matters as well: "lp" fits LP better than HEM_LP
    un = len(A | B)
    return sh / un

def swap_better(items, margin=0.2):
    """items: [(left name, [right names])]. Returns two left names whose right sides fit better exchanged, or None."""
    best = None
    for i in range(len(items)):
        for j in range(i + 1, len(items)):
            a, ra = items[i]; b, rb = items[j]
            if a == b: continue
            cur = score(a, ra) + score(b, rb)
            new = score(a, rb) + score(b, ra)
            if new > cur + margin and (best is None or new - cur > best[0]):
                best = (new - cur, a, b)
    return best[1:] if best else None
