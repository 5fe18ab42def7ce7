"""P04: every structure word is recognised and carries its selma'o."""
import random
from engine import tree
from checks import cmavo, tokcmp, common

def selma(ref):
    d = tree.make('rpc2x_act.tab.h')
    names = sorted(set(ref.values()))
    return tree.cenum('rpc2x_act.tab.h', names)

def search(c, ref, sel):
    """concrete: words and near-words through the real scanner"""
    rnd = random.Random(common.SEED)
    inv = {v: k for k, v in sel.items()}
    C, V = 'bcdfgjklmnprstvxz', 'aeiou'
    ws = sorted(ref)
    vs = [''] + [a + m + b for a in V + 'y' for b in V + 'y' for m in ("'", '')] + list(V + 'y')
    near = [c0 + v for c0 in [''] + list(C) for v in vs if v]
    ext = [a + m + b + n + d for a in V for b in V + 'y' for d in V for m in ("'", '') for n in ("'", '')]
    near += ext + [rnd.choice(C) + e for e in ext]
    texts = [w.encode() for w in ws + sorted(set(near) - set(ws))]
    for i in range(4000):
        texts.append(' '.join(rnd.choice(ws) for _ in range(rnd.randint(1, 5))).replace("zoi", "ui").replace("la'o", "la'i").encode())
    for i in range(4000):
        texts.append(''.join(rnd.choice(ws + near[:200]) for _ in range(rnd.randint(2, 4))).replace("zoi", "ui").replace("la'o", "la'i").encode())
    bad = tokcmp.compare(texts, 1, ref, inv)
    for x, e, o in bad[:20]:
        c.failing('structure words of a text', x.decode('latin-1'), str(e['toks']), str(o.get('toks', o)), 'printf "%s\\0" | harness/tok_h.c 0' % x.decode('latin-1'))
    c.bounded.append(dict(what='tokens of the real scanner compared with the reference list', cases=len(texts), disagreements=len(bad),
                          bound='every listed word, every other form up to C V(\')V(\')V, random sequences with and without spaces'))

def check(c):
    ref = cmavo.reference()
    sel = selma(ref)
    def proof():
        p = cmavo.load()
        rows = cmavo.table_rows(p)
        n, bad = cmavo.hash_lemma(p, rows)
        c.lemma('every entry of the table is found at its hash value', n, bad)
        real = [(w, s) for w, s in rows if w]
        want = {w: sel[s] for w, s in ref.items()}
        got = {}
        bad = []
        for w, s in real:
            if w in got:
                bad.append((w, 'listed twice'))
            got[w] = s if isinstance(s, int) else s
        for w in sorted(set(want) | set(got)):
            if got.get(w, None) != want.get(w, None):
                bad.append((w, 'reference %s' % want.get(w), 'table %s' % got.get(w)))
        c.lemma('the table is the reference list of cmavo with their selma\'o', len(want), bad)
        e = cmavo.hash_safe(p)
        c.engine(e)
        e, res = cmavo.prove(p)
        c.engine(e)
        c.functions.update(['process_cmavo', 'hash_cmavo'])
        c.assumptions += ['process_cmavo is called with a word of cmavo form (the word scanner\'s postcondition, proved under P01/P02)',
                          'the reference list spec/cmavo.tsv is the specification of the vocabulary',
                          'Malloc returns fresh memory; strlen, strchr, strcmp, strcpy have their C meaning; add_token appends its argument']
    c.guarded('cmavo proof', proof)
    search(c, ref, sel)
