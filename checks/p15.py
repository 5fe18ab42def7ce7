"""P15: place conversions."""
import os, random, re, itertools
from engine import tree, par
from checks import common, conv, p13
PL = conv.PLACE
SE = ['se', 'te', 've', 'xe']
BAI = ['bau', 'gau', 'bai', "ga'a", "fi'e", 'mau']

def perm(chain):
    """places of the word under x1..x5 after the conversions, the first word being the outermost"""
    p = [0, 1, 2, 3, 4, 5]
    for w in reversed(chain):
        k = PL[w]
        p[1], p[k] = p[k], p[1]
    return p

def program():
    d = tree.make('jbofihe')
    return os.path.join(d, 'jbofihe')

def dictionary(f):
    e = {}
    for w in ('broda', 'brode', 'klama'):
        for n in range(6):
            for s in 'nvqt':
                e['%s%d%s' % (w, n, s)] = '%s%d%s' % (w, n, s)
    for b in BAI:
        for p in [''] + SE:
            e[p + b] = 'G' + p + b
    with open(f, 'wb') as h:
        h.write(p13.image(sorted((k.encode(), v.encode()) for k, v in e.items())))

def case(rnd, form, ch):
    """(text, labels, glosses): ch() gives a chain"""
    sp = lambda l: ''.join(x + ' ' for x in l)
    C, D, E = ch(), ch(), ch()
    p, q, r = perm(C), perm(D), perm(E)
    if form == 0:
        o = list(range(1, 6))
        rnd.shuffle(o)
        fa = ['', 'fa', 'fe', 'fi', 'fo', 'fu']
        k = rnd.randint(0, 5)
        t = ' '.join("%s ko'a" % fa[i] for i in o[:k]) + ' ' + sp(C) + 'klama ' + ' '.join("%s ko'e" % fa[i] for i in o[k:])
        return t, [('klama', p[i]) for i in o], [('klama', p[1], 'v')]
    if form == 1:
        return 'mi %sbroda %sbrode' % (sp(C), sp(D)), [('brode', q[1])], [('broda', p[1], 'q'), ('brode', q[1], 'v')]
    if form == 2:
        return "le %sbroda be do bei ko'a cu klama" % sp(C), [('klama', 1), ('broda', p[2]), ('broda', p[3])], [('broda', p[1], 'n'), ('klama', 1, 'v')]
    if form == 3:
        b = perm(C + E)
        return "mi %ske %sbroda %sbrode ke'e" % (sp(C), sp(D), sp(E)), [('brode', b[1])], [('broda', q[1], 'q'), ('brode', b[1], 'v')]
    if form == 4:
        b = rnd.choice(BAI)
        w = rnd.choice([''] + SE)
        return 'mi %s %s do %sklama' % (w, b, sp(C)), [('klama', p[1])], [('G' + w + b,), ('klama', p[1], 'v')]
    if form == 5:
        b = perm(C + D)
        return "mi %sna'e %sklama do" % (sp(C), sp(D)), [('klama', b[1]), ('klama', b[2])], [('klama', b[1], 'v')]
    if form == 6:
        return "mi %sbroda co %sbrode do" % (sp(C), sp(D)), None, [('broda', p[1], 'v'), ('brode', q[1], 'v')]
    if form == 7:
        return "mi ke %sbroda ke'e be ko'a brode" % sp(C), [('brode', 1), ('broda', p[2])], [('broda', p[1], None), ('brode', 1, 'v')]
    if form == 8:
        # arguments linked inside, conversion outside
        b = perm(C + D)
        return "mi %ske %sbroda ke'e do" % (sp(C), sp(D)), [('broda', b[1]), ('broda', b[2])], [('broda', b[1], 'v')]
    t = "mi %sbroda je %sbrode" % (sp(C), sp(D))
    return t, None, [('broda', p[1], None), ('brode', q[1], None)]

def observed(out):
    lab = [(a, int(b)) for a, b in re.findall(r'\[(\w+?)(\d) \(\w+?\dt\):\]', out)]
    gl = []
    for x in re.findall(r"/([A-Za-z][\w']*)/", out):
        m = re.fullmatch(r'(broda|brode|klama)(\d)([nvqt])', x)
        if m:
            gl.append((m.group(1), int(m.group(2)), m.group(3)))
        elif x[0] == 'G' and x[1:] not in SE:
            gl.append((x,))
    return lab, gl

def ok(want, got, glosses=False):
    if want is None:
        return True
    if len(want) != len(got):
        return False
    return all(a == b or (len(a) == 3 and a[2] is None and len(b) == 3 and a[:2] == b[:2]) for a, b in zip(want, got))

def search(c):
    x = program()
    f = os.path.join(tree.scratch(), 'conv.dic')
    dictionary(f)
    rnd = random.Random(common.SEED)
    cs = []
    for n in range(0, 5 if common.TIER == 'quick' else 7):
        for ch in itertools.product(SE, repeat=n):
            cs.append(case(rnd, 0, lambda: list(ch)))
    for L in (9, 10, 15, 19, 20):
        for i in range(5):
            cs.append(case(rnd, 0, lambda: [rnd.choice(SE) for _ in range(L)]))
    for i in range(2500 if common.TIER == 'quick' else 25000):
        cs.append(case(rnd, 1 + i % 9, lambda: [rnd.choice(SE) for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4, 6]))]))
    def one(i):
        bad = []
        for t, L, g in cs[i::8]:
            st, o, e = common.run_io([x, '-x'], t.encode() + b'\n', 20, env=dict(os.environ, JBOFIHE_DICTIONARY=f))
            lab, gl = observed(o.decode('latin-1'))
            if st != 0 or not ok(L, lab) or not ok(g, gl):
                bad.append((t, dict(places=L, glosses=g), dict(status=st, places=lab, glosses=gl)))
        return dict(bad=bad)
    n = 0
    for r in par.pmap(one, range(8), 8, 800):
        if 'error' in r:
            raise RuntimeError('runs: ' + r['error'])
        n += len(r['bad'])
        for t, w, g in r['bad'][:4]:
            c.failing('places and glosses of a converted predicate', t, str(w), str(g), 'the text on standard input of jbofihe -x, with a dictionary that gives every place its own gloss (checks/p15.py)')
    c.bounded.append(dict(what='place labels and glosses printed by the real program compared with composed exchanges', cases=len(cs), disagreements=n, bound='all chains of up to %d conversions, random ones up to 20, ten sentence shapes' % (4 if common.TIER == 'quick' else 6)))

def check(c):
    c.guarded('conversions', lambda: conv.prove(c))
    search(c)
