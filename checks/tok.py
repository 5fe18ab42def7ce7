"""Runs the real tokeniser/preprocessor (harness/tok_h.c) on texts."""
import os, json
from engine import tree, par
from checks import common

LINK = ('lex1 cmavotab functions categ nonterm tree translate properties conversion terms memory tenses output latex textout htmlout connect latexblk '
        'relative textblk errorscan canonluj lujvofns erasure rpc_tab rpc_full morf morf_dfa bccheck tracebk elide dictaccs stag_dfa').split()

SAN = ['lex1', 'erasure', 'functions', 'properties', 'memory', 'categ', 'morf']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:detect_stack_use_after_return=0')
def harness():
    x = os.path.join(tree.scratch(), 'tok_h')
    if os.path.exists(x):
        return x
    d = tree.make('jbofihe')
    # objects as the tree's own build made them, without main and lex2
    objs = [l for l in os.listdir(d) if l.endswith('.o') and l not in ('main.o', 'lex2.o')]
    mk = open(os.path.join(d, 'Makefile'), encoding='latin-1').read().replace('\\\n', ' ')
    want = [w for w in mk[mk.index('OBJS2 ='):].split('\n')[0].split()[2:]]
    tree.sh(['gcc', '-w'] + tree.CFLAGS + ['-Dmain=jbofihe_main', '-c', 'main.c', '-o', 'h_main.o'], cwd=d)
    # the files with the token passes are compiled with AddressSanitizer
    san = ['-O1', '-g', '-fsanitize=address']
    for m in SAN:
        if m + '.o' in want:
            tree.sh(['gcc', '-w'] + san + tree.CFLAGS + ['-c', m + '.c', '-o', 'h_%s.o' % m], cwd=d)
            want[want.index(m + '.o')] = 'h_%s.o' % m
    tree.sh(['gcc', '-w'] + san + tree.CFLAGS + ['-I', d, os.path.join(common.VERIF, 'harness', 'tok_h.c'), 'h_main.o'] +
            [w for w in want if w not in ('main.o', 'lex2.o')] + ['-o', x], cwd=d)
    return x

def run(texts, stage=1, jobs=8):
    """[(record or None, status string)]; texts are bytes without NUL"""
    x = harness()
    n = max(1, (len(texts) + jobs - 1) // jobs)
    chunks = [texts[i:i + n] for i in range(0, len(texts), n)]
    def one(i):
        st, o, e = common.run_io([x, str(stage)], b'\0'.join(chunks[i]) + b'\0', 600, env=ENV)
        return dict(out=o.decode('latin-1').split('\n')[:-1], st=st)
    res = []
    for i, r in enumerate(par.pmap(one, range(len(chunks)), jobs, 700)):
        if 'error' in r or len(r['out']) != len(chunks[i]):
            raise RuntimeError('tokeniser harness: %s, %d of %d answers' % (r.get('error'), len(r.get('out', ())), len(chunks[i])))
        for l in r['out']:
            k = l.rindex('#')
            body, st = l[:k], l[k + 1:]
            try:
                rec = json.loads(body) if body else None
            except ValueError:
                rec = None
                if body:
                    j = body + '}'
                    try:
                        rec = json.loads(j)
                    except ValueError:
                        rec = None
            res.append((rec, st))
    return res

if __name__ == '__main__':
    for t in ["coi .i la djan klama 12 (x) zo mi si lo'u broda le'u zoi gy x gy. ui nai cai", "bu", "mi (", "", "\n\nmi\n do", "lo'u broda", "ba'e mi bu"]:
        print(t, run([t.encode()])[0])
