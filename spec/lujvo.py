"""Executable specification of compounds: the rafsi table, decomposition, the dictionary form, the score."""
from spec.morph import INITIAL
C, V = set('bcdfgjklmnprstvxz'), set('aeiou')

def table(path):
    """rafsi -> word, from the published list of roots"""
    t = {}
    for l in open(path, encoding='latin-1'):
        l = l.rstrip('\n')
        w = l[:5].rstrip()
        for r in l[6:18].split():
            t[r] = w
        if len(w) == 5:
            t[w[:4]] = w
    return t

def shape(s):
    return ''.join('C' if c in C else 'V' if c in V else c for c in s)

def segmentations(w):
    """all ways to read w as rafsi with their hyphens: lists of rafsi"""
    out = []
    def go(i, acc):
        rest = len(w) - i
        if rest == 0:
            if len(acc) > 1:
                out.append(acc)
            return
        for n in (3, 4, 5):
            r = w[i:i + n]
            s = shape(r)
            last = rest == n
            if len(r) < n or s[:2] == 'CC' and r[:2] not in INITIAL:
                continue
            if last:
                if s in ('CVV', 'CCV', "CV'V", 'CVCCV', 'CCVCV'):
                    go(i + n, acc + [r])
                continue
            nx = w[i + n]
            if s in ('CCV', 'CVV', "CV'V"):
                go(i + n, acc + [r])
            if s in ('CVV', "CV'V") and not acc and rest > n + 1 and (nx == 'r' and w[i + n + 1] in C - {'r'} or nx == 'n' and w[i + n + 1] == 'r'):
                go(i + n + 1, acc + [r])
            if s == 'CVC':
                go(i + n, acc + [r])
                if nx == 'y':
                    go(i + n + 1, acc + [r])
            if s in ('CVCC', 'CCVC') and nx == 'y':
                go(i + n + 1, acc + [r])
    go(0, [])
    return out

def canon(w, t):
    """dictionary form of a well-formed compound"""
    s = segmentations(w)
    if len(s) != 1:
        return None
    return '+'.join(r if len(r) == 5 else t.get(r, '?') for r in s[0])
