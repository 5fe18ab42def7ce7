"""P05: words, separators, comments, positions."""
import random
from engine import par
from checks import cmavo, tokcmp, common, scan, word
VOC = "mi do le la lai doi ui coi broda klama lujvo blari'o alis djan .i ni'o ku'o la.alis. lojbo".split()

def proofs(c, keep):
    """obligations of the reader and of the word dispatcher whose name satisfies keep"""
    prog = cmavo.load()
    def one(k):
        if k == 'scan':
            e = scan.prove(prog)
            return dict(obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for o in e.obls], inlined=sorted(e.inlined))
        return word.one(prog, k)
    w = word.Word(prog)            # asks the compiler for the constants once
    word.CONST = (w.mt, w.en)
    for r in par.pmap(one, ['scan', 0, 1, 2], 4, 700):
        what = 'parse_file' if r['label'] == 'scan' else 'process_word (%s)' % ('no quotation open', 'delimiter expected', 'inside a quotation')[r['label']]
        if 'error' in r:
            c.undecided(what, r['error'] + r.get('trace', ''))
        else:
            c.obligations([o for o in r['obls'] if keep(o[0])])
            c.functions.update(r['inlined'])
    c.functions.update(['parse_file', 'process_word'])
    c.assumptions += ['the text has no NUL bytes and is shorter than 2^31 bytes; getc returns its bytes in order and then EOF',
                      'no foreign quotation is open when the file is opened (static initial state)',
                      'morf_scan satisfies its contract (proved under P01, P02 and P03), process_cmavo its own (P04)',
                      'the nested calls of process_word for the parts of a split name satisfy the same contract (induction on the length of the word, proved to decrease)',
                      'Malloc/Realloc return fresh memory; strlen, strcpy, strcat, strcmp have their C meaning; fprintf has no effect on the program state']

def texts(rnd, n):
    out = [b'', b' ', b'\n', b'(', b')', b'(a', b'((mi)', b'(()) mi', b'mi(do)le', b'mi (do) (le\n) ui', b'12:5', b'mi12do', b'mi:do', b'1\n2', b'mi.do', b'>mi>do', b'> mi', b'\tmi\n\tdo',
           b'mi (\n\n) do', b'(mi', b'mi(', b'mi ( do ( le ) ui', b'mi)', b'mi)do', b'(0(1)2)3', b'mi\rdo', b'\xffmi', b'la,alis', b',', b"'", b"mi'", b'-', b'mi-do', b'lalalalalas', b'ladjan', b'mi la djan',
           b'doidoidoidjan', b'mlatulatul', b'badlalas', b'kalatas kalatas\nkalatas', b'a' * 400, b'mi' * 300, b'la' * 200 + b's', b'mi \n' * 300, b'( ' * 500 + b') ' * 500 + b'mi',
           b'x' * 65535, b'x' * 65536, b'mi\n ' + b'x' * 65536 + b' do', b'mi' * 32767, b'mi ' + b"a'" * 32767 + b'i', b'la' * 3000 + b's']
    seps = [' ', '\n', '\t', '.', '>', '  ', ' . ', '\n\n', '\n>', '(x)', ' (mi (do)\n) ', '()', '1', ':', '907', '', '(', ')', '\r', '\v']
    wt = [12, 5, 3, 3, 2, 2, 2, 1, 1, 3, 3, 1, 2, 1, 2, 2, .3, .3, .2, .2]
    letters = "aeiouybcdfgjklmnprstvxz',"
    for i in range(n):
        s = ''
        for _ in range(rnd.randint(1, 10)):
            s += rnd.choice(VOC) if rnd.random() < .8 else ''.join(rnd.choice(letters) for _ in range(rnd.randint(1, 12)))
            s += rnd.choices(seps, wt)[0]
        out.append(s.replace('zoi', 'zo').encode())
    al = b"(()) \n\t.>0159:miou',las\r-"
    for i in range(n // 2):
        out.append(bytes(rnd.choice(al) for _ in range(rnd.randint(1, 25))))
    return out

def report(c, what, bad, n, bound):
    for x, e, o in bad[:20]:
        exp, obs = (e.get('toks', e), o.get('toks', o)) if e.get('toks') != o.get('toks') else (e, o)
        c.failing(what, x.decode('latin-1'), str(exp)[:600], str(obs)[:600], 'the text on standard input of jbofihe (tokens printed by harness/tok_h.c)')
    c.bounded.append(dict(what=what, cases=n, disagreements=len(bad), bound=bound))

def check(c):
    ref = cmavo.reference()
    c.guarded('reader and word proofs', lambda: proofs(c, lambda n: not n.startswith('P06')))
    rnd = random.Random(common.SEED)
    t = texts(rnd, 6000 if common.TIER == 'quick' else 60000)
    bad = tokcmp.compare(t, 1, ref)
    report(c, 'tokens of a text with their positions', bad, len(t), 'hand-written cases, words up to 65536 letters, random texts of up to 10 words with every separator, random strings over the reader\'s alphabet')
