"""P07: erasures (si, sa, su)."""
import random
from checks import cmavo, tokcmp, common, p05, lists

WORDS = ['mi', 'do', 'broda', 'klama', 'djan.', 'zo si', 'zo mi', "zo djan.", "lo'u mi si le'u", "lo'u le'u", 'zoi gy a b gy', "la'o q x q", 'lu', "ni'o", 'to', "tu'e", 'li', "li'u", 'lo', 'la', 'je', 'ba', 'pu']
ERASE = ['si', 'si si', 'si si si', 'si si si si', 'sa', 'su', 'su su', 'si', 'si', 'sa']
def texts(rnd, n):
    out = [b'si', b'sa', b'su', b'su su', b'si si', b'mi si', b'mi si si', b'mi sa', b'mi sa sa do', b'sa mi', b'su mi', b'mi su su su do', b'mi do si klama si si si', b'zo si si si si mi', b"lo'u mi le'u si si si si mi",
           b'zoi gy a gy si si si si si mi', b'zoi gy a gy si mi si si si si', b"zo mi si do si si", b'lu mi su do', b"lu mi ni'o to tu'e do su su klama", b'lu mi ni\'o do su do su klama su broda', b'mi klama sa broda sa klama sa do', b'zo mi sa zo do', b"zo mi broda sa zo do", b'mi do sa ko klama',
           b"zo si mi sa zo si si si si", b'mi ' * 40 + b'si ' * 39, b'mi ' * 40 + b'si ' * 45, b'lu ' + b'mi ' * 300 + b'su do', b'broda ' + b'mi ' * 300 + b'sa klama']
    for i in range(n):
        s = [rnd.choice(ERASE if rnd.random() < .35 else WORDS) for _ in range(rnd.randint(1, 12))]
        out.append(' '.join(s).encode())
    return out

def check(c):
    ref = cmavo.reference()
    c.guarded('token list passes', lambda: lists.prove(c, ['preprocess_tokens', 'do_erasures', 'handle_si', 'handle_sa', 'handle_su']))
    c.assumptions += lists.ASSUME
    rnd = random.Random(common.SEED)
    t = texts(rnd, 12000 if common.TIER == 'quick' else 120000)
    bad = tokcmp.compare(t, 2, ref)
    p05.report(c, 'words left of a text with erasures', bad, len(t), 'hand-written cases, random texts of up to twelve words, quotations and erasures')
