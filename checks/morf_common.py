"""What P01, P02 and P03 share: the morphology proof and the search for failing words."""
import os, random, subprocess
from engine import tree
from checks import common, morf_l1, morf_l2
from spec import words

MORF_ASSUME = ['the word is a NUL-terminated string of at most 65535 bytes and the caller\'s list of word starts has room for two entries per letter',
               'the DFA tables and letter maps are never written (every write in the verified functions is checked against this)',
               'the reference morphology (spec/morph.py) is the specification: brivla/cmavo/cmene rules written down independently of the automaton sources']
FUNCS = ['morf_scan', 'morf_next_state']

def numbers(mt):
    return {'unknown': 'MT_BOGUS', 'bad': 'MT_BOGUS', 'cmavos': 'MT_CMAVOS', 'cmavos_cy': 'MT_CMAVOS', 'gismu': 'MT_GISMU', 'lujvo': 'MT_LUJVO',
            'cultural': 'MT_LUJVO', 'fuivla3': 'MT_FUIVLA3', 'fuivla3cvc': 'MT_FUIVLA3_CVC', 'fuivla3x': 'MT_FUIVLA3X', 'fuivla3xcvc': 'MT_FUIVLA3X_CVC',
            'fuivla4': 'MT_FUIVLA4', 'cmene': 'MT_CMENE'}

def harness():
    d = tree.make('morf_dfa.c', 'morf_lex.c', 'morfvlex.c', 'morf_enc.c', 'bctables.c')
    x = os.path.join(tree.scratch(), 'morf_h')
    if not os.path.exists(x):
        tree.sh(['gcc', '-w', '-O1', '-g', '-fsanitize=address', '-fno-common', '-I', d, os.path.join(common.VERIF, 'harness', 'morf_h.c'), 'morf.c', 'morf_dfa.c', 'bccheck.c', '-o', x], cwd=d)
    return x

def real(words_, cult):
    """what the real scanner says, one record per word (None where it crashed)"""
    x = harness()
    out = []
    todo = list(words_)
    while todo:
        st, o, e = common.run_io([x, '1' if cult else '0'], '\n'.join(todo).encode('latin-1') + b'\n', 120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        r = o.decode('latin-1').split('\n')[:-1]
        out += r[:len(todo)]
        todo = todo[len(r):]
        if not todo:
            break
        if st == 0:
            raise RuntimeError('harness lost words')
        out.append('crash: ' + (e.decode('latin-1').split('\n') + [''] * 3)[1][:120] if e else 'crash: status %s' % st)
        todo = todo[1:]
        if sum(1 for x in out if x.startswith('crash')) > 50:
            out += ['crash: too many'] * len(todo)
            break
    return out

def expected(w, cult, mt, nm):
    a = words.analyse(w)
    m = nm[a['cls']]
    if a['cls'] == 'cultural' and not cult:
        m = 'MT_BOGUS'
    if a['up'] and m not in ('MT_BOGUS', 'MT_CMENE'):
        m = 'MT_BAD_UPPERCASE'
    elif a['cls'] == 'cultural' and a['up']:
        m = 'MT_BAD_UPPERCASE'
    r = {'type': mt[m]}
    if m != 'MT_BOGUS':
        r['starts'] = a['starts']
    if m.startswith('MT_FUIVLA3'):
        r['hyph'] = a['hyph'][-1] if a['hyph'] else None
    if m == 'MT_CMENE':
        c = a['cmene']
        r['cmene'] = [int(c[0])] + ([int(c[1])] + ([c[2], c[3]] if c[1] else []) if c[0] else [])
    return r

def parse(line):
    if line.startswith('crash'):
        return {'type': line}
    t = line.split()
    r = {'type': int(t[0])}
    rest = t[1:]
    for k, key in (('h', 'hyph'), ('c', 'cmene')):
        if k in rest:
            i = rest.index(k)
            v = [int(x) for x in rest[i + 1:]]
            r[key] = v[0] if k == 'h' else v
            rest = rest[:i]
    if rest:
        r['starts'] = [int(x) for x in rest]
    return r

ALPHA = "aeiouybcdfgjklmnprstvxz'"

def corpus(extra=()):
    rnd = random.Random(common.SEED)
    cov = [w for w in words.coverage().values() if w]
    ws = list(extra) + cov
    n = len(cov) if common.TIER == 'quick' else 6 * len(cov)
    for i in range(n):
        w = cov[i % len(cov)] + ''.join(rnd.choice(ALPHA) for _ in range(rnd.randint(1, 2)))
        ws.append(w)
    # decorated forms: capitals, commas, junk
    for i in range(20000):
        w = list(rnd.choice(cov))
        for _ in range(rnd.randint(1, 3)):
            k = rnd.randrange(len(w) + 1)
            z = rnd.randrange(4)
            if z == 0 and k < len(w): w[k] = w[k].upper()
            elif z == 1: w.insert(k, ',')
            elif z == 2 and k < len(w): w[k] = rnd.choice("hqwHQW1_-\x80\xe9")
            elif k < len(w): w[k] = w[k].upper()
        ws.append(''.join(w))
    # names around la/lai/doi
    syl = ['la', 'lai', 'doi', 'lau', "la'i", 'do', 'l', 'd', 'y', 'by', 'a', 'ta', 'mi', 'stu', 'r', 'n', ',', 'L', 'D', 'la,i', "do'i", 'yl', 'ay', "u'y"]
    for i in range(20000):
        ws.append(''.join(rnd.choice(syl) for _ in range(rnd.randint(1, 5))) + rnd.choice('bcdfklmnrst'))
    seen = set()
    return [w for w in ws if w and not (w in seen or seen.add(w))]

def search(c, keys, extra=()):
    """concrete search: real scanner against the executable specification"""
    mt = morf_l1.mtypes()
    nm = numbers(mt)
    ws = corpus(extra)
    n = bad = 0
    for cult in (1, 0):
        sub = ws if cult else ws[::3]
        for w, line in zip(sub, real(sub, cult)):
            n += 1
            e, o = expected(w, cult, mt, nm), parse(line)
            same = e['type'] == o['type'] if 'type' in keys or str(o['type']).startswith('crash') else True
            for k in keys:
                if k != 'type' and e['type'] == o['type'] and e.get(k) != o.get(k):
                    same = False
            if 'cmene' in keys and e['type'] != o['type'] and not str(o['type']).startswith('crash'):
                same = True
            if not same:
                bad += 1
                if bad <= 20:
                    c.failing('word analysis', w, str(e), str(o), 'printf %r | harness/morf_h.c %d, built with morf.c morf_dfa.c bccheck.c of the tree' % (w, cult))
    c.bounded.append(dict(what='real word scanner compared with the executable specification', bound='shortest words of every (context, specification state), random extensions, capitals, commas, junk bytes, la/lai/doi names',
                          cases=n, disagreements=bad))

class Shared:
    pass

def deduce(c, prefixes):
    """run the proof; obligations whose name carries another property's prefix are left to that property"""
    S = Shared()
    S.words = []
    prog = morf_l1.load()
    D, ev, at, bad, n = morf_l1.dfa_tables(prog)
    S.D, S.at = D, at
    c.lemma('contract of the DFA step function: defined and in range on its whole domain', n, bad)
    P = morf_l2.Product(D)
    exp, b = P.expected()
    S.words += [x[0] for x in b]
    if 'P01' in prefixes:
        c.lemma('DFA verdict is the specified class for every word (closure of %d reachable triples)' % P.size, P.size, b)
    live, out = morf_l1.prove(prog, D, at, exp, prefixes=prefixes)
    for o in out:
        if 'error' in o:
            c.undecided('morf_scan [%s]' % o['label'], o['error'] + o.get('trace', ''))
            continue
        c.obligations([x for x in o['obls'] if x[0][:3] in prefixes or not x[0].startswith('P0')])
        c.functions |= set(o['inlined'])
    c.functions |= set(FUNCS)
    c.assumptions += MORF_ASSUME
    return S
