"""Reference morphology: an executable and automaton-theoretic statement of what
class a Lojban word form has.  Written from the documented rules (the notes in
morf_nfa.in and the Reference Grammar ch. 3-4), at letter level; it shares no
table with the code under verification.

A letter is read in its context (the consonants since the last vowel or
apostrophe, with y transparent, and the two preceding letters) and yields one of
the tokens below; the word classes are regular sets over tokens.
"""
from spec.nfa import NFA

VOW = 'aeiou'
CONS = 'bcdfgjklmnprstvxz'
VOICED, UNVOICED = 'bdgvjz', 'ptkfcsx'
INITIAL = set('''bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr
 pl pr sf sk sl sm sn sp sr st tc tr ts vl vr xl xr zb zd zg zm zv'''.split())
BAD_TRIPLES = {'ntc', 'nts', 'ndj', 'ndz'}

def permissible(a, b):
    """C/C may stand together"""
    if a == b:
        return False
    if (a in VOICED and b in UNVOICED) or (a in UNVOICED and b in VOICED):
        return False
    if a in 'cjsz' and b in 'cjsz':
        return False
    return a + b not in ('cx', 'kx', 'xc', 'xk', 'mz')

# context: (c2, c1, l2, l1)
#  c2 in '-', 'n', 'r', 'C' : consonant before c1 in the current run (y ignored)
#  c1 in '-', consonant     : last consonant of the current run
#  l2, l1 in 'C','y',vowel  : the two preceding letters ('C' covers consonant, apostrophe, start)
START = ('-', '-', 'C', 'C')

def ccls(c):
    return c if c in '-nr' else 'C'

def token(ctx, c):
    c2, c1, l2, l1 = ctx
    if c in VOW:
        if l1 in VOW:
            if l1 + c in ('ai', 'au', 'ei', 'oi'):
                return '2'
            return '3' if l1 in 'iu' else '4'
        return 'V' if l1 == 'C' else '?'
    if c == 'y':
        if l1 == 'C':
            return 'Y'
        if l1 in 'iu':
            return '5'
        if l1 == 'y' and l2 in ('C', 'y'):
            return '6'
        return '?'
    if c == "'":
        return "'"
    if c not in CONS:
        return '?'
    syl = c in 'lmnr'
    if c1 == '-':
        return c.upper() if c in 'rn' else 'C'
    # hyphen triples of stage-3 fu'ivla: CrC, nrC, rnC, Cnr, rln, nlr
    if c2 + c1 + c in ('rln', 'nlr'):
        return 't'
    if c1 == 'r' and c2 in 'Cn' and c != 'r':
        return 't' if syl else 'h'
    if c1 == 'n' and c2 == 'r' and c != 'n':
        return 't' if syl else 'h'
    if c2 + c1 + c == 'Cnr':
        return 't'
    if c2 == '-' and c1 + c == 'nr':
        return 'x'
    if c2 == 'n' and permissible(c1, c) and 'n' + c1 + c in BAD_TRIPLES:
        return 'b'
    if not permissible(c1, c):
        return 'q'
    if c1 + c in INITIAL:
        return 'j' if syl else 'i'
    return 's' if syl else 'p'

def advance(ctx, c):
    c2, c1, l2, l1 = ctx
    if c in VOW or c == "'":
        n2, n1 = '-', '-'
    elif c == 'y':
        n2, n1 = c2, c1
    elif c in CONS:
        n2, n1 = ccls(c1), c
    else:
        n2, n1 = '-', '-'
    return (n2, n1, l1, c if c in VOW or c == 'y' else 'C')

def build(cultural=True):
    g = NFA()
    E = g.edge
    CNR, LCI, LCP, FVV = '[CNR]', '[ij]', '[ijpsx]', '[234]'
    FCP, FCS = '[iph]', '[jstx]'

    # --- start: no prefix / after prefix cmavo
    for s in ('gismu', 'lujvo', 'culuj', 'nyb', 'fcc', 'fcv', 's3s', 's3l', 'x3'):
        E('in', '', s)
        E('pre', '', s)
    E('in', '', 'fv')
    E('in', '', 'cmavo')
    E('in', '', 'cmene')

    # --- gismu
    E('gismu', 'C%sV%sV' % (LCI, CNR), 'gismu0')
    E('gismu', '%sV%s%sV' % (CNR, CNR, LCP), 'gismu1')
    g.tag('gismu0', 'GISMU_0')
    g.tag('gismu1', 'GISMU_1')

    # --- cmavo sequences (a prefix of ordinary cmavo, possibly ending in Cy lerfu)
    E('cmavo', 'V', 'cv', 'ci')
    E('cmavo', CNR, 'cc', 'cy')
    E('cmavo', 'Y', 'y')
    E('ci', '3', 'ci2')             # ia, ie, .. as a complete first cmavo
    E('ci2', '', 'pre')
    E('ci2', CNR, 'cc')
    E('cc', 'V', 'cv')
    E('cv', '2', 'cv')
    E('cv', "'", 'cc')
    E('cv', CNR, 'cc', 'cy')
    E('cv', '', 'pre')
    E('cy', 'Y', 'cy2')
    E('cy2', '', 'cyend')
    E('cy2', '[ijpsqxhtb]', 'cy')
    E('y', "6*|'Y", 'cyend')
    g.tag('pre', 'CMAVOS')
    g.tag('cyend', 'CMAVOS_CY')

    # --- names
    E('cmene', CNR + '|Y' + CNR, 'nc')
    E('cmene', 'V', 'nv')
    E('nc', 'V', 'nv')
    E('nc', 'Y', 'ny')
    E('nc', '[ijpsxth]', 'nc')
    E('nv', '[2345]', 'nv')
    E('nv', CNR, 'nc')
    E('nv', "'[VY]", 'nv')
    E('ny', "'[VY]", 'nv')
    E('ny', '5', 'nv')
    E('ny', '6', 'ny')
    E('ny', '[ijpsxthqb]|pb', 'nc')
    g.tag('nc', 'CMENE')

    # --- lujvo.  k = 0: body starts with CC ; 1: with CV ; T: with CVC + y kept by the tosmabru test
    def tail(px, cult):
        """from the 2nd rafsi on, its first consonant already read (M) or its CC (Mc)"""
        M, Mc, F, Fc, end = (px + x for x in ('M', 'Mc', 'F', 'Fc', 'end'))
        cln, cvc, y4 = px + 'cln', px + 'cvc', px + 'y4'
        E(M, "V2|V'V|%sV" % LCI, cln)
        E(M, 'V' + CNR, cvc)
        E(M, 'V%s%s|%sV%s' % (CNR, LCP, LCI, CNR), y4)
        E(Mc, 'V', cln)
        E(Mc, 'V' + CNR, y4)
        if cult:
            E(M, "%s(V'V|V2)%s" % (LCI, CNR), y4)
            E(Mc, "(V'V|V2)%s" % CNR, y4)
        E(cln, CNR, M, F)
        E(cvc, 'Yq|' + LCP, M, F)
        E(cvc, 'Ypb', Mc, Fc)
        E(y4, 'Y[ijpsxqthb]', M, F)
        E(y4, 'Y[ph]b', Mc, Fc)
        E(F, "V'V|V2|%sV|%sV%sV|V%s%sV" % (LCI, LCI, CNR, CNR, LCP), end)
        E(Fc, 'V|V%sV' % CNR, end)
    def lujvo(top, px, cult, tags):
        for k in ('0', '1', 'T', 'S'):
            tail(px + k, cult)
        # first rafsi
        E(top, "%s(V'V|V2)" % CNR, px + 'cvv')
        E(top, 'C%sV' % LCI, px + 'ccv')
        E(top, '%sV%s' % (CNR, CNR), px + 'cvc1')
        E(top, '%sV%s%s' % (CNR, CNR, LCP), px + 'cvcc')
        E(top, 'C%sV%s' % (LCI, CNR), px + 'ccvc')
        if cult:
            E(top, "C%s(V'V|V2)%s" % (LCI, CNR), px + 'ccvc')
        # CVV needs r/n glue, unless exactly CVV+CCV
        E(px + 'cvv', 'R[ps]|Nx', px + '1M', px + 'cvvF')
        E(px + 'cvvF', "V'V|V2|%sV%sV|V%s%sV" % (LCI, CNR, CNR, LCP), px + '1end')
        E(px + 'cvv', '%s%sV' % (CNR, LCI), px + '1end')
        E(px + 'ccv', CNR, px + '0M', px + '0F')
        E(px + 'ccvc', 'Y[ijpsxq]', px + '0M', px + '0F')
        E(px + 'ccvc', 'Ypb', px + '0Mc', px + '0Fc')
        E(px + 'cvcc', 'Y[ijpsxqthb]', px + '1M', px + '1F')
        E(px + 'cvcc', 'Y[ph]b', px + '1Mc', px + '1Fc')
        E(px + 'cvc1', LCP + '|Yq', px + '1M', px + '1F')
        E(px + 'cvc1', 'Ypb', px + '1Mc', px + '1Fc')
        # y between letters that could start a word: only where the word would fall apart without it
        E(px + 'cvc1', 'Y' + LCI, px + 'TM', px + 'TF', px + 'tos')
        # tosmabru: C + rest must itself be a lujvo
        E(px + 'tos', 'V', px + 'tcln')
        E(px + 'tos', 'V' + CNR, px + 'ty')
        if cult:
            E(px + 'tos', "(V'V|V2)" + CNR, px + 'ty')
        E(px + 'tcln', CNR, px + 'SM', px + 'SF')
        E(px + 'ty', 'Y[ijpsxq]', px + 'SM', px + 'SF')
        E(px + 'ty', 'Y[ps]b', px + 'SMc', px + 'SFc')
        for k, t in zip('01TS', tags):
            g.tag(px + k + 'end', t)
    lujvo('lujvo', 'L', False, ('LUJVO_0', 'LUJVO_1', 'LUJVO_1T', 'TAIL_OK'))
    lujvo('culuj', 'K', True, ('CUL_0', 'CUL_1', 'CUL_1T', 'CUL_TAIL_OK'))

    # --- forms with the consonant shape of a y-less lujvo (whatever the vowels)
    E('nyb', "%sV(%s|'V)" % (CNR, FVV), 'nb1')
    E('nyb', '%s%sV' % (CNR, LCI), 'nbv')
    E('nyb', '%sV%s' % (CNR, CNR), 'nbc')
    E('nyb', "%sV(%s|'V)%s%sV" % (CNR, FVV, CNR, LCI), 'nbend')
    for s, first in (('nbc', LCP), ('nbv', CNR), ('nb1', 'R' + LCP)):
        E(s, "%s(V%s|V'V|%sV)" % (first, FVV, LCI), 'nbv', 'nbend')
        E(s, '%sV%s' % (first, CNR), 'nbc')
    E('nb1', "Nx(V%s|V'V)" % FVV, 'nbv', 'nbend')
    E('nb1', 'NxV' + CNR, 'nbc')
    g.tag('nbend', 'NOY_LUJVO_SHAPE')

    # --- fu'ivla
    def vowels(s, single, multi):
        E(s, "V%s?" % FVV, single)
        E(s, "(V%s%s|V'V|V%s'V)('V|%s)*" % (FVV, FVV, FVV, FVV), multi)
    def cgroup(px, out):
        """internal consonant group, entry states px+{'any','clus','c1','cs'}"""
        E(px + 'any', CNR, px + 'c1')
        E(px + 'clus', CNR + FCS, px + 'cs')
        E(px + 'clus', CNR + FCP, px + 'c2')
        E(px + 'c1', FCS, px + 'cs')
        E(px + 'c1', FCP, px + 'c2')
        E(px + 'c2', FCS, px + 'cs')
        E(px + 'c2', FCP, px + 'c3')
        E(px + 'c3', FCS + FCS, px + 'cs')
        E(px + 'c3', FCS + FCP, px + 'c1')
        E(px + 'cs', FCS, px + 'cs')
        E(px + 'cs', FCP, px + 'c1')
        for x in ('c1', 'c2', 'c3', 'cs'):
            E(px + x, '', out)
    def rest(px, end):
        """consonant groups and vowels alternating to the end"""
        cgroup(px, px + 'v')
        vowels(px + 'v', px + 'V', px + 'V')
        E(px + 'V', '', px + 'any', end)
    # starting with a cluster
    E('fcc', 'C(i|j|ii|ij|ijj|iijj)', 'fccv')
    vowels('fccv', 'fcc1', 'fcc2')
    E('fcc2', '', 'fccend')
    E('fcc1', '', 'Aany')
    E('fcc2', '', 'Aany')
    rest('A', 'fccend')
    g.tag('fccend', 'FUIVLA_0')
    # slinku'i: a consonant in front of something that would make it CVC+lujvo
    E('fcc', CNR + LCP, 'QM', 'QF')
    tail('Q', False)
    g.tag('Qend', 'SLINKUI')
    # starting CV.. / V..
    E('fcv', "%sV(%s|'V)?" % (CNR, FVV), 'Bclus')
    rest('B', 'fcvend')
    E('fv', "V((%s|'V)(%s|'V)?)?" % (FVV, FVV), 'Bclus')
    g.tag('fcvend', 'FUIVLA_1')
    # stage 3: rafsi + hyphen + tail
    def s3tail(s, px, end, hy):
        E(s, '[jstx]', px + 'h')
        E(px + 'h', 'h', px + 'c1')
        E(px + 'h', 't', px + 'cs')
        cgroup(px, px + 'v')
        vowels(px + 'v', px + 'V', px + 'V')
        E(px + 'V', '', px + 'any', end)
        g.hyph = getattr(g, 'hyph', {})
        g.hyph[g.st(px + 'h')] = hy
    E('s3s', '%sV%s' % (CNR, CNR), 's3s1')
    s3tail('s3s1', 'D', 's3send', 3)
    g.tag('s3send', 'S3_CVC')
    E('s3l', 'C%sV%s|%sV%s%s' % (LCI, CNR, CNR, CNR, LCP), 's3l1')
    s3tail('s3l1', 'G', 's3lend', 4)
    g.tag('s3lend', 'S3_LONG')
    # several rafsi before the hyphen
    E('x3', '%s%sV%s' % (CNR, LCI, CNR), 'xm')
    E('x3', "%s(V'V|V2)(R[ps]|Nx)" % CNR, 'xm')
    E('x3', '%sV%s[psx]' % (CNR, CNR), 'xm')
    E('xm', '%sV%s|V2%s|V%s%s' % (LCI, CNR, CNR, CNR, LCP), 'xm')
    E('xm', 'V' + CNR, 'x3s1')
    E('xm', '%sV%s|V%s%s' % (LCI, CNR, CNR, LCP), 'x3l1')
    s3tail('x3s1', 'I', 'x3send', 3)
    s3tail('x3l1', 'J', 'x3lend', 4)
    g.tag('x3send', 'X3_CVC')
    g.tag('x3lend', 'X3_LONG')
    g.start = g.closure({g.st('in')})
    return g

def classify(t):
    """word class from the set of shapes that match: (class, brivla starts CV, hyphen size)"""
    if 'GISMU_0' in t: return ('gismu', 0)
    if 'GISMU_1' in t: return ('gismu', 1)
    if 'LUJVO_0' in t: return ('lujvo', 0)
    if 'LUJVO_1' in t: return ('lujvo', 1)
    if 'LUJVO_1T' in t:
        return ('lujvo', 1) if 'TAIL_OK' in t else ('bad', 1)
    if 'CUL_0' in t: return ('cultural', 0)
    if 'CUL_1' in t: return ('cultural', 1)
    if 'CUL_1T' in t:
        return ('cultural', 1) if 'CUL_TAIL_OK' in t else ('bad', 1)
    f = None
    if 'FUIVLA_0' in t and 'SLINKUI' not in t:
        f = 0
    elif 'FUIVLA_1' in t:
        f = 1
    elif 'FUIVLA_0' in t:
        return ('bad', 0)
    if f is not None:
        if 'S3_LONG' in t: return ('fuivla3', f)
        if 'S3_CVC' in t and f == 1: return ('fuivla3cvc', f)
        if 'X3_LONG' in t: return ('fuivla3x', f)
        if 'X3_CVC' in t: return ('fuivla3xcvc', f)
        if 'S3_CVC' not in t and 'NOY_LUJVO_SHAPE' not in t:
            return ('fuivla4', f)
    if 'CMENE' in t: return ('cmene', 0)
    if 'CMAVOS' in t: return ('cmavos', 0)
    if 'CMAVOS_CY' in t: return ('cmavos_cy', 0)
    return ('unknown', 0)
