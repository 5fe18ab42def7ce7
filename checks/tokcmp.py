"""Compares the real tokeniser and preprocessor with the executable specification spec/lex.py."""
from checks import tok, cmavo
from spec import lex

FIELDS = dict(CMAVO=('w',), ZOI=('form', 'term', 'text'), ZO=('w',), LOhU=('w',), ZEI=('plus', 'zei', 'kids'), BU=('w',),
              BRIVLA=('w', 'k'), CMENE=('w',), BROKEN=('d',), GARBAGE=('w',))

def norm(x, eols=False, sel=None):
    """the observable part of a token (spec or real), as nested tuples"""
    if isinstance(x, str):
        return x
    f = [x['t'], x['l'], x['c']]
    for k in FIELDS.get(x['t'], ()):
        v = x.get(k)
        f.append(tuple(norm(y, eols, sel) for y in v) if k == 'kids' else v)
    if sel is not None and x['t'] == 'CMAVO':
        s = x.get('s')
        f.append(sel.get(s, s) if isinstance(s, int) else s)
    f.append(norm(x['bahe'], eols, sel) if x.get('bahe') else None)
    f += [x.get('nai') or 0, x.get('cai', -1)]
    f.append(tuple(norm(y, eols, sel) for y in x.get('ui') or ()))
    if eols:
        f.append(x.get('eols'))
    return tuple(f)

def norms(L, eols=False, sel=None):
    return [norm(x, eols, sel) for x in L if isinstance(x, str) or x['t'] != 'MARKER']

def expect(text, ref, stages=2, sel=None):
    try:
        S = lex.Scan(ref, text)
    except lex.Stop as x:
        return dict(stop=x.code)
    e = dict(toks=norms(S.toks, True, sel), bad=S.bad, pre=None)
    if not S.bad and stages > 1:
        p = lex.preprocess(S.toks)
        e['pre'] = ('ok', norms(p[1], False, sel)) if p[0] == 'ok' else p
    return e

def observe(rec, st, sel=None):
    """same shape; a crash or hang is ('signal', n)"""
    if st.startswith('signal'):
        return dict(crash=st)
    r = rec or {}
    o = dict(toks=norms(r.get('toks', []), True, sel), bad=bool(r.get('bad')), pre=None)
    if st != 'exit 0':
        o['pre'] = ('stop', int(st.split()[1]))
    elif 'pre' in r:
        o['pre'] = ('bad',) if r.get('bad2') else ('ok', norms(r['pre'], False, sel))
    return o

def agree(e, o, stages=2):
    if 'crash' in o:
        return False
    if e.get('stop') is not None:
        return o['pre'] == ('stop', e['stop'])
    if e['toks'] != o['toks'] or e['bad'] != o['bad']:
        return False
    return stages < 2 or e['pre'] == o['pre']

def _exp(ref, texts, stages, sel):
    out = []
    for x in texts:
        try:
            out.append(expect(x, ref, stages, sel))
        except RecursionError:
            out.append(None)
    return out

def compare(texts, stages=2, ref=None, sel=None):
    """list of (text, expected, observed) that disagree"""
    ref = ref or cmavo.reference()
    res = tok.run(texts, stages - 1)
    from engine import par
    n = max(1, (len(texts) + 7) // 8)
    chunks = [texts[i:i + n] for i in range(0, len(texts), n)]
    exps = []
    for r in par.pmap(lambda i: dict(v=_exp(ref, chunks[i], stages, sel)), range(len(chunks)), 8, 600):
        if 'error' in r:
            raise RuntimeError('specification: ' + str(r['error']))
        exps += r['v']
    bad = []
    for x, e, (rec, st) in zip(texts, exps, res):
        if e is None:
            continue
        o = observe(rec, st, sel)
        if not agree(e, o, stages):
            bad.append((x, e, o))
    return bad
