"""P06: foreign-text quotations."""
import random
from checks import cmavo, tokcmp, common, p05

def texts(rnd, n):
    D = ['gy', 'x', 'zoi', "la'o", 'mi', 'zo', 'si', 'ALIEN', 'q', 'y', "lo'u", 'bu', 'gyx', 'gyy', 'g', 'djan', '12', 'w' * 70, 'd' * 300]
    out = [b'zoi', b'zoi gy', b'zoi gy gy', b'zoi gy x gy', b'zoi gy x', b'zoi zoi zoi', b'zoi zoi x zoi zoi y zoi zoi', b'zoi gy.x.gy', b'zoi\n\ngy\n a\n\n\tb gy mi', b'mi zoi gy (gy) gy', b'zoi gy 12:3 gy',
           b"la'o gy x gy", b"la'o", b"zoi gy gyx gyy g gy", b'zoi.gy.', b'zoi (x) gy a b gy zoi 1 2 1', b'ladzoi', b'lazoi gy x gy', b'zoi gy la lalas gy', b'miszoi gy', b'zoi' + b' x' * 300,
           b'zoi ' + b'x' * 20000 + b' a b c ' + b'x' * 20000 + b' mi', b'zoi g ' + b'ab ' * 5000 + b' g mi', b'zoi ' + b'q' * 64 + b' a ' + b'q' * 63 + b' ' + b'q' * 64 + b' do', b'zoi gy gy zoi gy gy mi',
           b"mi zoi gy\nfoo bar\ngy la'o gy baz gy do zoi", b'zoi gy ' + b'z' * 65535 + b' gy', b'zoi gy ' + b'z' * 65536 + b' gy', b'zo zoi gy mi gy', b'si zoi gy si gy']
    for i in range(n):
        s = []
        for _ in range(rnd.randint(1, 3)):
            s += [rnd.choice(['mi', 'broda', 'ui', 'la', 'djan', 'zo', 'ladjan', 'lalazois', '1']) for _ in range(rnd.randint(0, 2))]
            d = rnd.choice(D)
            s += [rnd.choice(['zoi', "la'o"]), d]
            s += [rnd.choice(D + ['(c c)', 'foo', '', 'q,w', 'lalalas']) for _ in range(rnd.randint(0, 5))]
            if rnd.random() < .85:
                s.append(d)
        out.append(''.join(x + rnd.choice([' ', ' ', ' ', '\n', '.', '\t', '  ', ' (x) ', '>']) for x in s).encode())
    return out

def check(c):
    ref = cmavo.reference()
    c.guarded('reader and word proofs', lambda: p05.proofs(c, lambda n: True))
    rnd = random.Random(common.SEED)
    t = texts(rnd, 8000 if common.TIER == 'quick' else 80000)
    bad = tokcmp.compare(t, 1, ref)
    p05.report(c, 'foreign quotations of a text', bad, len(t), 'hand-written cases, delimiters up to 20000 and words up to 65536 letters, random texts of up to three quotations')
