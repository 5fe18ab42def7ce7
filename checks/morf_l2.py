"""Level 2 of the morphology argument: a lemma over the contract of the DFA step
function (its table, discharged entry by entry on the current tree).

For every finite sequence of letters, the state the code's automaton reaches
carries the class that the reference morphology (spec/morph.py) gives to the word,
the marks the scanner records delimit the words the specification sees, and the
remembered hyphen position is the specified one.  The set of reachable
(letter context, specification state, DFA state) triples is finite, so closing it
under every letter decides this for words of every length."""
import collections
from spec import morph
from spec.morph import VOW, CONS

TOKS = "?V'YRNCxijpsqhtb23456"
TOKNUM = {t: i for i, t in enumerate(TOKS)}
LETTERS = VOW + CONS + "y'"

RAW = ("UNKNOWN CMAVOS CMAVOS_END_CY GISMU_0 GISMU_1 LUJVO_0 LUJVO_1 CULTURAL_LUJVO_0 "
       "CULTURAL_LUJVO_1 STAGE3_0 STAGE3_1 STAGE3_1_CVC X_STAGE3_0 X_STAGE3_0_CVC X_STAGE3_1 "
       "X_STAGE3_1_CVC STAGE4_0 STAGE4_1 CMENE BAD_TOSMABRU CULTURAL_BAD_TOSMABRU BAD_SLINKUI").split()

class Product:
    """words(): for each reachable DFA state its specified class; errors: words on which one
    DFA state would need two classes"""
    def __init__(self, delta):
        g = morph.build()
        self.g = g
        memo = {}
        def step(S, t):
            k = (S, t)
            if k not in memo:
                memo[k] = g.step(S, t)
            return memo[k]
        cls = {}
        init = (morph.START, g.start, 0)
        par = {init: None}
        work = collections.deque([init])
        self.classes = {}        # q -> {class: witness node}
        self.ctxs = set()
        while work:
            n = work.popleft()
            ctx, S, q = n
            if S not in cls:
                cls[S] = morph.classify(g.tagsof(S))
            self.classes.setdefault(q, {}).setdefault(cls[S], n)
            if q >= 0:
                self.ctxs.add((ctx, q))
            for c in LETTERS:
                t = morph.token(ctx, c)
                S2 = step(S, t)
                q2 = delta[q][TOKNUM[t]] if q >= 0 else -1
                if q2 < 0 and not S2:
                    continue
                m = (morph.advance(ctx, c), S2, q2)
                if m not in par:
                    par[m] = (n, c)
                    work.append(m)
        self.par = par
        self.size = len(par)

    def word(self, n):
        w = ''
        while self.par[n]:
            n, c = self.par[n]
            w = c + w
        return w

    def expected(self):
        """(q -> class) for the reachable states, and the ambiguous/lost words: a DFA state
        (or the dead state) that has to stand for two classes cannot be mapped correctly by any epilogue"""
        exp, bad = {}, []
        for q, cs in self.classes.items():
            if q < 0:
                for c, n in cs.items():
                    if c != ('unknown', 0):
                        bad.append((self.word(n), c, 'rejected by the automaton'))
                continue
            if len(cs) > 1:
                for c, n in cs.items():
                    bad.append((self.word(n), c, 'DFA state %d shared by different classes' % q))
            exp[q] = sorted(cs)[0]
        return exp, bad

class Positions:
    """Second lemma: along every letter sequence, the marks the scanner records (first letter;
    each consonant after a vowel or apostrophe until the first consonant pair) are exactly the
    starts of the prefixed cmavo plus the brivla's own 1 (starts with a cluster or vowel) or 2
    (starts CV) marks, and the hyphen position remembered through the state attributes is the
    hyphen of the stage-3 reading."""
    ENTRY = ('gismu', 'lujvo', 'culuj', 'nyb', 'fcc', 'fcv', 'fv', 's3s', 's3l', 'x3', 'cmene')
    BRIVLA = {'gismu': ('GISMU_0', 'GISMU_1'), 'lujvo': ('LUJVO_0', 'LUJVO_1', 'LUJVO_1T'),
              'cultural': ('CUL_0', 'CUL_1', 'CUL_1T'), 'fuivla4': ('FUIVLA_0', 'FUIVLA_1'),
              'fuivla3': ('S3_LONG',), 'fuivla3cvc': ('S3_CVC',), 'fuivla3x': ('X3_LONG',), 'fuivla3xcvc': ('X3_CVC',)}
    def __init__(self, delta, at, at3=(1, 3), at4=(2, 4), limit=2000000):
        g = morph.build()
        entry = {g.names[x] for x in self.ENTRY}
        cystates = g.closure({g.names['cy']}) | {g.names['cy2']}
        ecl = {}
        def close(x):
            """closure of one NFA state with what happened on the way: [(state, entered body, hyphen kind)]"""
            if x in ecl:
                return ecl[x]
            out = set()
            work = [(x, False, 0)]
            while work:
                n = work.pop()
                s, b, h = n
                b2 = b or s in entry
                h2 = g.hyph.get(s, h)
                n = (s, b2, h2)
                if n in out:
                    continue
                out.add(n)
                for y in g.eps.get(s, ()):
                    work.append((y, b2, h2))
            r = [n for n in out if n[0] in g.tr or n[0] in g.tags or n[0] in cystates]
            ecl[x] = r
            return r
        init_cfg = set()
        for x in (g.names['in'],):
            for s, b, h in close(x):
                init_cfg.add((s, 0 if b else 'p', None))
        memo = {}
        def step(cfg, t, mark, fire):
            """fire: which remembered positions (3, 4) are set to the second last letter before this one is read"""
            k = (cfg, t, mark, fire)
            r = memo.get(k)
            if r is not None:
                return r
            out = set()
            for s, m, hy in cfg:
                ds = g.tr.get(s, {}).get(t)
                if not ds:
                    continue
                if hy is not None:
                    kind, st = hy
                    if kind in fire:
                        st = 'E' if st == 2 else 'N'
                    else:
                        st = {1: 2, 2: 'N'}.get(st, st)
                    hy2 = (kind, st)
                else:
                    hy2 = None
                m2 = m if m == 'p' else min(m + mark, 3)
                for d in ds:
                    for s2, b, h in close(d):
                        out.add((s2, 0 if b else m2, (h, 1) if h else hy2))
            r = memo[k] = frozenset(out)
            return r
        init = (morph.START, 0, 0, 1, frozenset(init_cfg), 0)
        par = {init: None}
        work = collections.deque([init])
        self.bad = []
        self.par = par
        ccache = {}
        while work:
            n = work.popleft()
            ctx, inh, kind, first, cfg, q = n
            r = ccache.get(cfg)
            if r is None:
                tags = set()
                for s, m, hy in cfg:
                    tags |= g.tags.get(s, set())
                cls, flag = morph.classify(tags)
                why = None
                if cls in self.BRIVLA or cls == 'bad':
                    # the reading that gives the word its class
                    want = self.BRIVLA.get(cls, ('FUIVLA_0',) if flag == 0 else ('LUJVO_1T', 'CUL_1T'))
                    if cls in ('gismu', 'lujvo', 'cultural', 'fuivla4'):
                        want = tuple(x for x in want if x.rstrip('T').endswith(str(flag)))
                    for s, m, hy in cfg:
                        tg = g.tags.get(s, set()) & set(want)
                        if not tg:
                            continue
                        if cls.startswith('fuivla3') and (hy is None or hy[1] not in ('E', 2)):
                            why = 'hyphen position'
                        if m != 1 + flag:
                            why = 'word start (%s marks %s)' % (sorted(tg), m)
                r = ccache[cfg] = (cls, why)
            cls, why = r
            if why:
                self.bad.append((self.word(n), cls, why))
            if first == 0 and cls.startswith('fuivla3'):
                for s, m, hy in cfg:
                    if g.tags.get(s, set()) & set(self.BRIVLA[cls]) and hy[1] == 2:
                        self.bad.append((self.word(n), cls, 'hyphen not yet remembered'))
            if len(par) > limit:
                raise RuntimeError('position product too large')
            for c in LETTERS:
                t = morph.token(ctx, c)
                cons = c in CONS
                inh2 = 1 if inh or (cons and ctx[1] != '-') else 0
                mark = 1 if first or (cons and ctx[1] == '-' and not inh2) else 0
                markc = cons and kind == 2
                a = at[q] if q >= 0 else 0
                fire = tuple(k for k, s in ((3, at3), (4, at4)) if a in s)
                cfg2 = step(cfg, t, mark, fire)
                if not cfg2:
                    continue
                if cons:
                    for s, m, hy in cfg:
                        if m == 'p' and t in g.tr.get(s, {}) and mark + (1 if markc else 0) != 1:
                            self.bad.append((self.word(n) + c, 'cmavos', 'cmavo start'))
                q2 = delta[q][TOKNUM[t]] if q >= 0 else -1
                m = (morph.advance(ctx, c), inh2, 1 if cons else 2 if c == 'y' else 0, 0, cfg2, q2)
                if m not in par:
                    par[m] = (n, c)
                    work.append(m)
        self.size = len(par)
    word = Product.word
