"""P08: word quotations and compounds (zo, lo'u, zei)."""
import random
from checks import cmavo, tokcmp, common, p05, lists, lists2

WORDS = ['mi', 'do', 'broda', 'klama', 'djan.', 'lo', 'ba', "le'u", "ni'o", 'xagrxirma', "k", 'zoi gy a b gy', "la'o q x q", 'brydy', '1', "bo'oi"]
OPS = ['zo', 'zo', 'zei', 'zei', 'zei', "lo'u", "lo'u mi klama le'u", "lo'u zo broda zei le'u", "lo'u le'u", "lo'u djan. zoi gy a gy 'le'u", 'zo zo', 'mi zei do', 'broda zei broda zei broda']
def texts(rnd, n):
    out = [b'zo', b'zei', b"lo'u", b'zo zo', b'zo mi', b'mi zo', b'zei mi', b'mi zei', b'zei zei', b'mi zei zei', b'zei zei mi', b'mi zei zei do', b'mi zei do zei', b"lo'u mi zo le'u do", b"lo'u lo'u le'u le'u", b"le'u mi",
           b"zo lo'u mi le'u", b"zo le'u zei mi", b"mi zei lo'u do le'u", b"lo'u zoi gy a gy le'u zei lo'u lo'u le'u", b'zoi gy a b gy zei zo mi', b'zo mi zei zo do zei zo zo', b'zo zoi gy a gy', b"zo la'o gy a gy mi",
           b'mi ' + b'zei mi ' * 50, b"lo'u " + b'mi ' * 400 + b"le'u", b'mi zei do klama zei broda', b'mi zei do do zei mi', b'zo djan. zei .djan.', b"lo'u\n\nmi\n  do\nle'u", b'mi zei' + b'\n' * 5 + b'do', b'zo\n\n\nmi']
    for i in range(n):
        s = [rnd.choice(OPS if rnd.random() < .4 else WORDS) for _ in range(rnd.randint(1, 9))]
        out.append(' '.join(s).encode())
    return out

def check(c):
    ref = cmavo.reference()
    c.guarded('token list passes', lambda: lists.prove(c, ['handle_lohu', 'build_string_from_nodes', 'handle_zo', 'preprocess_tokens']))
    c.assumptions += lists.ASSUME + lists2.ASSUME
    rnd = random.Random(common.SEED)
    t = texts(rnd, 12000 if common.TIER == 'quick' else 120000)
    bad = tokcmp.compare(t, 2, ref)
    p05.report(c, 'tokens of a text with word quotations and compounds', bad, len(t), 'hand-written cases, random texts of up to nine words, quotations, zo and zei')
