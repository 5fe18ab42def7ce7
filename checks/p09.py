"""P09: letters, emphasis and attitude words."""
import random
from checks import cmavo, tokcmp, common, p05, lists, lists2

WORDS = ['mi', 'do', 'broda', 'klama', 'djan.', 'lo', 'zo mi', 'zoi gy a b gy', "lo'u mi le'u", 'mi zei do', 'brydy', 'by', 'abu', "ni'o", 'to']
OPS = ['bu', 'bu', "ba'e", "ba'e", "za'e", 'nai', 'nai', 'cai', "cu'i", 'sai', "ru'e", 'pei', 'ui', '.ui', '.oinai', "ui nai", "iu", "ga'i", "po'o", 'fu\'e', "fu'o", 'da\'o', "y", 'ju\'o', "be'u", 'xu', 'ui cai', "oi ro'o", 'ui cai nai', "ba'e bu", "bu bu"]
def texts(rnd, n):
    out = [b'bu', b"ba'e", b'ui', b'nai', b'cai', b'ui nai', b'ui mi', b'ui nai cai mi', b'mi ui', b'mi bu', b'mi bu bu', b"ba'e mi", b"mi ba'e", b"ba'e ba'e mi", b"ba'e mi bu", b'mi ui nai cai', b'mi ui cai nai', b'mi ui nai cai nai',
           b'mi nai', b'mi nai bu', b'mi cai bu', b'ui bu', b"ba'e ui", b"ui ba'e mi", b'y', b'mi y y', b'y bu', b"mi ui nai bu ui", b"fu'e ui mi fu'o", b"mi fu'e ui", b"mi da'o", b'bu mi', b"ui ui ui", b'ui cai ui nai ui cai nai mi ui ui', b"mi ui\nui\nui", b'mi ' + b'ui ' * 200, b'mi ' + b'bu ' * 50, b"ba'e " * 30 + b'mi',
           b'ui nai ' * 40 + b'mi', b"mi ja nai do", b"mi ja cai do", b"mi ba'e ui nai", b"mi ui ba'e nai", b"mi ui ba'e cai", b"mi ba'e bu"]
    for i in range(n):
        s = [rnd.choice(OPS if rnd.random() < .6 else WORDS) for _ in range(rnd.randint(1, 9))]
        out.append(' '.join(s).encode())
    return out

def suffixes(c, ref):
    """the intensity words are exactly those the attachment pass knows"""
    want = {b'cai', b'sai', b"ru'e", b"cu'i", b'pei'}
    got = {w.encode() for w, s in ref.items() if s == 'CAI'}
    return sorted(got ^ want)

def check(c):
    ref = cmavo.reference()
    c.guarded('token list passes', lambda: lists.prove(c, ['handle_bahe', 'handle_bu', 'handle_indicators', 'pair_off_indicator_suffixes', 'preprocess_tokens']))
    c.lemma("the intensity words of the language are cai, sai, ru'e, cu'i and pei", len(ref), suffixes(c, ref))
    c.assumptions += lists.ASSUME + lists2.ASSUME
    rnd = random.Random(common.SEED)
    t = texts(rnd, 12000 if common.TIER == 'quick' else 120000)
    bad = tokcmp.compare(t, 2, ref)
    p05.report(c, 'attachments of a text', bad, len(t), 'hand-written cases, random texts of up to nine words, letters, emphasis and attitude words')
