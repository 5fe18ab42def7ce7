"""Executable specification of the text scanner and of the word-level preprocessing
(quotation, erasure, compounds, letterals, emphasis, indicators)."""
from spec import words

MAXWORD = 65535     # a longer word is an error that ends the run
SEP = set(b' \t\n.>')
DIGITS = ["no", "pa", "re", "ci", "vo", "mu", "xa", "ze", "bi", "so"]
BRIVLA = {'gismu': 0, 'lujvo': 1, 'cultural': 1, 'fuivla3': 2, 'fuivla3cvc': 2, 'fuivla3x': 2, 'fuivla3xcvc': 2, 'fuivla4': 3}

class Stop(Exception):
    """the program reports an error and ends with this status"""
    def __init__(self, code):
        self.code = code

_an = {}
def analyse(w):
    r = _an.get(w)
    if r is None:
        r = _an[w] = words.analyse(w)
    return r

class Scan:
    def __init__(self, cmavo, text, cultural=False):
        self.cmavo, self.cultural = cmavo, cultural
        self.toks, self.bad = [], False
        self.zoi = None          # None | [form, line, col] | [form, line, col, delimiter, words]
        self.scan(text)

    def scan(self, text):
        line, col, depth = 1, 0, 0
        word, at = b'', None
        def close():
            nonlocal word
            if word:
                self.word(word.decode('latin-1'), *at)
            word = b''
        for ch in text:
            col += 1
            if depth:
                if ch == 0x28: depth += 1
                elif ch == 0x29: depth -= 1
                elif ch == 10: line, col = line + 1, 0
                continue
            if ch in SEP or ch == 0x28:
                close()
                if ch == 10:
                    if self.toks:
                        self.toks[-1]['eols'] += 1
                    line, col = line + 1, 0
                elif ch == 0x28:
                    depth = 1
            elif 48 <= ch <= 57 or ch == 58:
                close()
                self.word("pi'e" if ch == 58 else DIGITS[ch - 48], line, col)
            else:
                if not word:
                    at = (line, col)
                if len(word) == MAXWORD:
                    raise Stop(1)
                word += bytes([ch])
        if depth:
            self.bad = True
        else:
            close()
        if self.zoi:
            self.bad = True

    def add(self, t, line, col, **kw):
        self.toks.append(dict(t=t, l=line, c=col, eols=0, **kw))

    def word(self, w, line, col):
        if self.zoi:
            if len(self.zoi) == 3:
                self.zoi += [w, []]
            elif w == self.zoi[3]:
                f, l, c, d, ws = self.zoi
                self.zoi = None
                self.add('ZOI', l, c, form=f, term=d, text=' '.join(ws))
            else:
                self.zoi[4].append(w)
            return
        if w in ('zoi', "la'o"):
            self.zoi = [w, line, col]
            return
        a = analyse(w)
        cls = a['cls']
        if cls in ('unknown', 'bad') or (cls == 'cultural' and not self.cultural and not a['up']) or (cls != 'cmene' and a['up']):
            self.bad = True
            return
        if cls == 'cmene':
            bad, split, i, j = a['cmene']
            if not bad:
                self.add('CMENE', line, col, w=w)
            elif i is None:
                self.bad = True
            else:
                if i: self.word(w[:i], line, col)
                self.word(w[i:j], line, col + i)
                self.word(w[j:], line, col + j)
            return
        st = a['starts'] + [len(w)]
        for k in range(len(st) - 1):
            piece = w[st[k]:st[k + 1]]
            c = col + st[k] - st[0]
            if k == len(st) - 2 and cls in BRIVLA:
                self.add('BRIVLA', line, c, w=piece, k=BRIVLA[cls])
            elif ',' in piece:
                self.bad = True
            elif piece in self.cmavo:
                self.add('CMAVO', line, c, w=piece, s=self.cmavo[piece])
            else:
                self.bad = True
                self.add('GARBAGE', line, c, w=piece)

# ---- preprocessing, on token lists; sel(t) is the selma'o of a cmavo token
def sel(t):
    return t['s'] if t['t'] == 'CMAVO' else None

def text_of(t):
    k = t['t']
    if k == 'ZOI': return 'zoi+"%s"' % t['text']
    if k == 'ZO': return 'zo+' + t['w']
    if k == 'ZEI': return t['zei']
    if k == 'LOhU': return "lo'u %s le'u" % t['w']
    if k == 'BROKEN': return '<Defective erasure>'
    return t['w']

def zo(L):
    out, i = [], 0
    while i < len(L):
        t = L[i]
        if sel(t) == 'ZO':
            if i + 1 == len(L):
                raise Stop(1)
            n = L[i + 1]
            t = dict(t, t='ZO', w=n['text'] if n['t'] == 'ZOI' else n['w'])
            i += 1
        out.append(t)
        i += 1
    return out

def lohu(L):
    out, i = [], 0
    while i < len(L):
        t = L[i]
        if sel(t) == 'LOhU':
            j = i + 1
            while j < len(L) and sel(L[j]) != 'LEhU':
                j += 1
            if j == len(L):
                raise Stop(1)
            t = dict(t, t='LOhU', w=' '.join(text_of(x) for x in L[i + 1:j]))
            i = j
        out.append(t)
        i += 1
    return out

NEED = {'ZOI': 4, 'ZO': 2, 'LOhU': 3}
def si(L):
    out, i = [], 0
    while i < len(L):
        t = L[i]
        if sel(t) == 'SI' and out:
            need = out[-1]['d'] if out[-1]['t'] == 'BROKEN' else NEED.get(out[-1]['t'], 1)
            got = 0
            while i < len(L) and got < need and sel(L[i]) == 'SI':
                got, i = got + 1, i + 1
            y = out.pop()
            if got < need:
                out.append(dict(y, t='BROKEN', d=need - got))
            continue
        out.append(t)
        i += 1
    return out

def sa(L):
    out = []
    for i, t in enumerate(L):
        if sel(t) == 'SA' and i + 1 < len(L):
            n = L[i + 1]
            k = len(out) - 1
            while k >= 0 and not (out[k]['t'] == n['t'] and sel(out[k]) == sel(n)):
                k -= 1
            out = out[:max(k, 0)]
        else:
            out.append(t)
    return out

def su(L):
    out, i = [], 0
    while i < len(L):
        if sel(L[i]) == 'SU':
            if i + 1 < len(L) and sel(L[i + 1]) == 'SU':
                out, i = [], i + 2
                continue
            k = len(out) - 1
            while k >= 0 and sel(out[k]) not in ('NIhO', 'LU', 'TUhE', 'TO'):
                k -= 1
            out = out[:max(k, 0)]
        else:
            out.append(L[i])
        i += 1
    return out

class Bad(Exception):
    pass

def zei(L):
    out, i = [], 0
    while i < len(L):
        if sel(L[i]) != 'ZEI':
            out.append(L[i])
            i += 1
            continue
        if not out:
            raise Bad()
        kids, z = [out.pop()], L[i]
        while i < len(L) and sel(L[i]) == 'ZEI':
            if i + 1 == len(L):
                raise Bad()
            kids.append(L[i + 1])
            i += 2
        ts = [text_of(k) for k in kids]
        out.append(dict(z, t='ZEI', kids=kids, plus='+'.join(ts), zei=' zei '.join(ts)))
    return out

def bahe(L):
    out, i = [], 0
    L = [dict(t) for t in L]
    for i, t in enumerate(L):
        if sel(t) == 'BAhE' and i + 1 < len(L) and sel(L[i + 1]) != 'FAhO':
            L[i + 1]['bahe'] = t
        else:
            out.append(t)
    return out

def bu(L):
    out = []
    for t in L:
        if sel(t) == 'BU':
            if not out:
                raise Bad()
            y = out.pop()
            k = y['t']
            w = ('zo' + y['w'] if k == 'ZO' else y['w'] + '.bu' if k == 'BU' else "lo'u-" + y['w'] + "-le'u" if k == 'LOhU' else
                 y['text'] if k == 'ZOI' else text_of(y))
            t = dict(t, t='BU', w=w)
        out.append(t)
    return out

IND = ('UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO')
CAI = {'cai': 0, 'sai': 1, "ru'e": 2, "cu'i": 3, 'pei': 7}
CAINAI = {0: 6, 1: 5, 2: 4, 3: 3, 7: 8}
def ind(t):
    return sel(t) in IND

def indicators(L):
    # suffixes
    P, i = [], 0
    while i < len(L):
        t = L[i]
        i += 1
        if ind(t):
            t = dict(t)
            if i < len(L) and sel(L[i]) == 'NAI':
                t['nai'] = 1
                i += 1
            if i < len(L) and sel(L[i]) == 'CAI':
                t['cai'] = CAI[L[i]['w']]
                i += 1
                if i < len(L) and sel(L[i]) == 'NAI':
                    t['cai'] = CAINAI[t['cai']]
                    i += 1
        P.append(t)
    # attachment: indicators at the very start of the text stay, all others go onto the word before
    out, i = [], 0
    while i < len(P) and ind(P[i]):
        out.append(P[i])
        i += 1
    while i < len(P):
        t = dict(P[i])
        i += 1
        r = []
        while i < len(P) and ind(P[i]):
            r.append(P[i])
            i += 1
        if r:
            t['ui'] = r
        out.append(t)
    return out

def fuhe_start(P):
    return bool(P) and sel(P[0]) == 'FUhE'

STEPS = [('zo', zo), ('lohu', lohu), ('si', si), ('sa', sa), ('su', su), ('zei', zei), ('bahe', bahe), ('bu', bu), ('indicators', indicators)]

def preprocess(L):
    """('ok', tokens) | ('bad',) | ('stop', status)"""
    try:
        for n, f in STEPS:
            L = f(L)
    except Stop as s:
        return ('stop', s.code)
    except Bad:
        return ('bad',)
    return ('ok', L)
