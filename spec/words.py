"""Executable oracle for single words: class, word starts, hyphen, cmene verdict."""
from spec import morph
from spec.morph import VOW, CONS

G = morph.build()
_step = {}
def nstep(S, t):
    k = (S, t)
    r = _step.get(k)
    if r is None:
        r = _step[k] = G.step(S, t)
    return r

def hyphens(letters):
    """positions (indices into letters) of the hyphen in each reading as a stage-3 form, per tag"""
    cfg = {(s, None) for s in G.start}
    ctx = morph.START
    for i, c in enumerate(letters):
        t = morph.token(ctx, c)
        nxt = set()
        for s, h in cfg:
            cl = G.closure(G.tr.get(s, {}).get(t, ()))
            nxt |= {(d, h) for d in cl}
            for x in cl:
                if x in G.hyph:                      # the letter just read is the hyphen of this reading
                    nxt |= {(d, i) for d in G.closure({x})}
        cfg = nxt
        ctx = morph.advance(ctx, c)
    out = {}
    for s, h in cfg:
        for tg in G.tags.get(s, ()):
            if tg in ('S3_CVC', 'S3_LONG', 'X3_CVC', 'X3_LONG') and h is not None:
                out.setdefault(tg, set()).add(h)
    return out

def cmene_check(w):
    """(bad, splits, position of la/lai/doi, position of the rest); w: the word as written"""
    L = [(c.lower(), i) for i, c in enumerate(w) if c != ',']
    s = [c for c, i in L]
    best = None
    for i in range(len(s)):
        if s[i] == 'y' and s[i - 1:i] == ['y'] and (best is None or i < best[0]):
            best = (i, False, None)                   # y is not lengthened inside a name
        for m in ('la', 'lai', 'doi'):
            j = i + len(m)
            if ''.join(s[i:j]) == m and j < len(s) and (s[j] in CONS or s[j] == "'"):
                if i == 0 or s[i - 1] in VOW:
                    k = True
                elif s[i - 1] == 'y':
                    # y after a consonant (or at the start) glues: the word is bad but does not come apart
                    k = not (i == 1 or s[i - 2] in CONS)
                else:
                    continue
                if best is None or j < best[0]:
                    best = (j, k, i)
    if best is None:
        return (False, False, None, None)
    j, k, i = best
    if i is None:
        return (True, False, None, None)
    return (True, k, L[i][1], L[j][1])

def analyse(w):
    """w: word over letters (any case), apostrophe, comma and junk"""
    pos = [i for i, c in enumerate(w) if c != ',']
    letters = [w[i].lower() if w[i].isascii() else w[i] for i in pos]
    ctx, S = morph.START, G.start
    marks, cy = [], []
    inh = False
    kind = 0
    for n, c in enumerate(letters):
        t = morph.token(ctx, c)
        cons = c in CONS
        if cons and ctx[1] != '-':
            inh = True
        if n == 0 or (cons and ctx[1] == '-' and not inh):
            marks.append(pos[n])
        if cons and kind == 2:
            cy.append(pos[n])
        kind = 1 if cons else 2 if c == 'y' else 0
        S = nstep(S, t)
        ctx = morph.advance(ctx, c)
    cls, flag = morph.classify(G.tagsof(S)) if letters else ('unknown', 0)
    up = any('A' <= c <= 'Z' for c in w)
    r = dict(cls=cls, up=up)
    if cls == 'cmene':
        r['starts'] = marks[:1]
        r['cmene'] = cmene_check(w)
    elif cls == 'cmavos_cy':
        r['starts'] = marks + cy
    elif cls not in ('unknown', 'cmavos'):
        r['starts'] = marks[:len(marks) - flag]
    else:
        r['starts'] = marks
    if cls.startswith('fuivla3'):
        tg = {'fuivla3': 'S3_LONG', 'fuivla3cvc': 'S3_CVC', 'fuivla3x': 'X3_LONG', 'fuivla3xcvc': 'X3_CVC'}[cls]
        r['hyph'] = sorted(pos[i] for i in hyphens(letters).get(tg, ()))
    return r

def coverage(limit=None):
    """shortest word for every reachable (letter context, specification state)"""
    import collections
    init = (morph.START, G.start)
    par = {init: ''}
    work = collections.deque([init])
    while work:
        n = work.popleft()
        ctx, S = n
        w = par[n]
        for c in VOW + CONS + "y'":
            S2 = nstep(S, morph.token(ctx, c))
            if not S2:
                continue
            m = (morph.advance(ctx, c), S2)
            if m not in par:
                par[m] = w + c
                work.append(m)
                if limit and len(par) >= limit:
                    return par
    return par
