"""Name (cmene) validity: contract of is_bad_cmene.

Level 1: one iteration of the letter loop is one step of the name automaton with the position
of the last l/d remembered; the epilogue turns the automaton's verdict into the results.
Level 2: closing (letter context, morphology state, automaton state, last letters) under every
letter shows that the automaton's verdict is the specified one for every name, of any length."""
import sys, time, z3, collections
from engine.gotovc import *
from engine import tree, par
from spec import morph
from spec.morph import VOW, CONS
from checks import morf_l1
from checks.morf_l2 import LETTERS

TOK = {'a': 0, 'e': 1, 'i': 2, 'o': 3, 'u': 4, 'y': 5, 'd': 6, 'l': 7, "'": 9}
for c in CONS:
    TOK.setdefault(c, 8)

def load():
    tree.make('bctables.c')
    return Program(tree.goto(['bccheck.c'], 'bccheck'))

# state of the specification: (part of la/lai/doi read so far, what stood before it, what the last letter is)
# stood/last: 'v' vowel or start of the name, 'g' y glued to a consonant or to the start, 'y' other y, 'c' consonant, "'"
SPEC0 = ('', '', '^')

def spec_next(w, c):
    """(new state, None) or (None, (splits, length of la/lai/doi)) when the letter c completes a bad pattern"""
    part, before, last = w
    if c == 'y' and last in 'gy':
        return None, (False, 0)
    if part in ('la', 'lai', 'doi') and (c in CONS or c == "'") and before in '^vgy':
        return None, (before != 'g', len(part))
    if c in 'ld':
        part, before = c, last
    elif part + c in ('la', 'lai', 'do', 'doi'):
        part = part + c
    else:
        part, before = '', ''
    last = 'v' if c in VOW else ("g" if last in 'c^' else 'y') if c == 'y' else "'" if c == "'" else 'c'
    return (part, before, last), None

class Lemma:
    """rel: letter -> states in which it can be read inside a name; bad: [(word, why)]"""
    def __init__(self, delta, ev, at, R):
        g = morph.build()
        memo = {}
        def step(S, t):
            k = (S, t)
            if k not in memo:
                memo[k] = g.step(S, t)
            return memo[k]
        # morphology: which specification states can still become a name
        init = (morph.START, g.start)
        succ = {}
        work = [init]
        acc = set()
        while work:
            n = work.pop()
            if n in succ:
                continue
            ctx, S = n
            if morph.classify(g.tagsof(S))[0] == 'cmene':
                acc.add(n)
            succ[n] = {}
            for c in LETTERS:
                S2 = step(S, morph.token(ctx, c))
                if S2:
                    m = (morph.advance(ctx, c), S2)
                    succ[n][c] = m
                    work.append(m)
        pred = {}
        for n, d in succ.items():
            for m in d.values():
                pred.setdefault(m, set()).add(n)
        alive = set(acc)
        work = list(acc)
        while work:
            n = work.pop()
            for m in pred.get(n, ()):
                if m not in alive:
                    alive.add(m)
                    work.append(m)
        self.rel, self.end, self.bad = {}, set(), []
        start = (init, 0, SPEC0, 5)
        self.par = {start: None}
        work = collections.deque([start])
        while work:
            nd = work.popleft()
            n, q, win, age = nd
            if n in acc:
                self.end.add(q)
                if ev[q] != R['BC_CMENE_OK']:
                    self.bad.append((self.word(nd), 'a correct name is not accepted (verdict %d)' % ev[q]))
            for c in LETTERS:
                m = succ[n].get(c)
                if m is None or m not in alive:
                    continue
                self.rel.setdefault(c, set()).add(q)
                q2 = delta[q][TOK[c]]
                win2, v = spec_next(win, c)
                w = None
                if q2 < 0:                  # no transition: bad, does not split
                    w = None if v is not None and not v[0] else 'the name automaton gets stuck'
                    if w:
                        self.bad.append((self.word(nd) + c, w))
                    continue
                if v is None and ev[q2] in (R['BC_CMENE_BAD_SPLIT'], R['BC_CMENE_BAD_NOSPLIT']):
                    w = 'reported bad without reason'
                elif v is not None and ev[q2] != R['BC_CMENE_BAD_SPLIT' if v[0] else 'BC_CMENE_BAD_NOSPLIT']:
                    w = 'bad name (%s) given verdict %d' % ('splits' if v[0] else 'does not split', ev[q2])
                elif v is not None and age != v[1]:
                    w = 'remembered position is not the start of la/lai/doi'
                if w:
                    self.bad.append((self.word(nd) + c, w))
                if w or v is not None:
                    continue
                a2 = 1 if at[q2] == R['ATTR_SEEN_LD'] else min(age + 1, 5)
                k = (m, q2, win2, a2)
                if k not in self.par:
                    self.par[k] = (nd, c)
                    work.append(k)
        self.size = len(self.par)
    def word(self, n):
        w = ''
        while self.par[n]:
            n, c = self.par[n]
            w = c + w
        return w

B32 = lambda v: z3.BitVecVal(v, 32)
B64 = lambda v: z3.BitVecVal(v, 64)

class Proof:
    LABELS = list(LETTERS) + [',', 'end']
    def __init__(self, prog, D, ev, at, L, R):
        self.prog, self.D, self.ev, self.at, self.L, self.R = prog, D, ev, at, L, R
        self.N = len(D)

    def delta(self, q, tok):
        return morf_l1.tab_fn(('d', id(self), tok), {s: self.D[s][tok] & 0xffffffff for s in range(self.N)}, q, 0xffffffff)

    def run(self, label, frame=None, live=None, verbose=False):
        prog, R = self.prog, self.R
        e = Engine(prog, timeout=60000)
        e.verbose = verbose
        e.const_globals |= {s for s in prog.sym if prog.sym[s].get('isStaticLifetime') and prog.sym[s]['type'].get('id') == 'array'}
        st = State()
        ln = z3.BitVec('len', 64)
        st.assume(z3.And(z3.ULE(ln, 65535), z3.UGE(ln, 1)))
        s_o = e.new_obj(st, 's', ln + 1, const=True)
        sa = e._mat(st.mem[s_o], 8, None)
        S = sa.arr
        e._setcell(st, st.mem[s_o], 8, sa)
        outs = [e.new_obj(st, n, k) for n, k in (('split', 4), ('ladoi', 8), ('tail', 8))]
        def next_state(eng, st, a, ts):
            q, t = bv(a[0], 32), bv(a[1], 32)
            eng.oblige(st, 'call of the name automaton step: state and token in range', z3.And(q >= 0, q < self.N, z3.ULT(t, 11)), eng.where(st))
            r = B32(-1)
            for k in range(10, -1, -1):
                r = z3.If(t == k, self.delta(q, k), r)
            return [(st, concretize(z3.simplify(r), T('int', 32, True)))]
        e.contracts['bad_cmene_next_state'] = next_state
        for n in ('n', 'ld'):
            setG(st, n, B64(0))
        setG(st, 'q', B32(0))
        setG(st, 'has', z3.BoolVal(False))
        setG(st, 'any', z3.BoolVal(False))
        byte = lambda i: z3.Select(S, i)
        def inv(eng, h, entry):
            n, q = G(h, 'n'), G(h, 'q')
            return [('position within the name', z3.ULE(n, ln)), ('automaton state is valid', z3.And(q >= 0, q < self.N)),
                    ('no bad pattern so far', z3.Not(self.isin('e', R['BC_CMENE_BAD_SPLIT'], q, R['BC_CMENE_BAD_NOSPLIT'])))]
        def cands(eng, h, entry):
            out = []
            fid = h.frames[-1][0]
            for key, v in list(h.env.items()):
                if key[0] != fid or key[1] == '#ret':
                    continue
                nm = key[1]
                t = prog.typ(prog.sym[nm]['type'])
                if t.k == 'int' and t.w == 32:
                    out.append((nm + '==q', bv(v, 32) == G(h, 'q'), (key, G(h, 'q'))))
                    out.append((nm + '==q once a letter was read', z3.Implies(G(h, 'any'), bv(v, 32) == G(h, 'q'))))
                elif t.k == 'ptr' and isinstance(v, Ptr):
                    out.append((nm + '==n', b_and(oeq(v.obj, s_o), bv(v.off, 64) == G(h, 'n')), (key, Ptr(s_o, G(h, 'n')))))
                    out.append((nm + '==ld', z3.Implies(G(h, 'has'), b_and(oeq(v.obj, s_o), bv(v.off, 64) == G(h, 'ld')))))
            return out
        def on_head(eng, h, entry):
            n, q = G(h, 'n'), G(h, 'q')
            h.assume(z3.Implies(z3.ULT(n, ln), byte(n) != 0))
            h.assume(z3.Implies(n == ln, byte(n) == 0))
        def split(eng, h):
            n, q = G(h, 'n'), G(h, 'q')
            s = h.fork()
            c = byte(n)
            if label == 'end':
                v = z3.BitVecVal(0, 8)
                # precondition: the word has the form of a name, so it ends in a state of the lemma and has a letter
                s.assume(z3.Or(*[q == x for x in sorted(self.L.end)]))
                s.assume(G(s, 'any'))
            elif label.isalpha():
                v = z3.Concat(z3.BitVecVal(1, 2), z3.BitVec(fresh_name('lower'), 1), z3.BitVecVal(ord(label) & 31, 5))
            else:
                v = z3.BitVecVal(ord(label), 8)
            if len(label) == 1 and label != ',':
                s.assume(z3.Or(False, *[q == x for x in sorted(self.L.rel.get(label, ()))]))
            s.assume(c == v)
            o = s.mem[s_o]
            eng._setcell(s, o, 8, Cells(8, None, {}, z3.Store(o.cells[8].arr, n, v)))
            s.ghost['letter'] = v
            return [s] if eng.feasible(s) else []
        def step(eng, b, head, entry):
            n, q = G(head, 'n'), G(head, 'q')
            setG(b, 'n', z3.simplify(n + 1))
            b.assume(z3.Implies(z3.ULT(n, ln), z3.ULE(n + 1, ln)))
            if label not in (',', 'end'):
                q2 = self.delta(q, TOK[label])
                ld = self.isin('a', R['ATTR_SEEN_LD'], q2)
                setG(b, 'q', z3.simplify(q2))
                setG(b, 'ld', z3.simplify(z3.If(ld, n, G(head, 'ld'))))
                setG(b, 'has', z3.simplify(z3.Or(ld, G(head, 'has'))))
                setG(b, 'any', z3.BoolVal(True))
        spec = LoopSpec(inv, cands, on_head, None, step, 'letters of the name [%s]' % label, split=split, frame=dict(frame or {}), live=live)
        self.spec = spec
        e.loop_for = lambda f, pc: spec if f.name == 'is_bad_cmene' and f.heads.index(pc) == 0 else None
        res = e.run_function(st, 'is_bad_cmene', [Ptr(s_o, 0)] + [Ptr(o, 0) for o in outs])
        cp = prog.typ(prog.sym['is_bad_cmene::word']['type'])
        for s, r in res:
            if isinstance(r, tuple):
                e.oblige(s, 'the name check does not stop the program', False, 'is_bad_cmene')
                continue
            n, q = G(s, 'n'), G(s, 'q')
            rv = bv(r, 32) != 0
            sp = bv(e.read(s, Ptr(outs[0], 0), T('int', 32, True)), 32) != 0
            if label == 'end':
                e.oblige(s, 'a name without bad pattern is accepted', z3.Not(rv), 'is_bad_cmene exit')
            elif label == ',':
                e.oblige(s, 'a comma never ends the check', False, 'is_bad_cmene exit')
            else:
                q2 = self.delta(q, TOK[label])
                ok = self.isin('e', R['BC_CMENE_BAD_SPLIT'], q2)
                no = z3.Or(q2 < 0, self.isin('e', R['BC_CMENE_BAD_NOSPLIT'], q2))
                e.oblige(s, 'the check stops only at a bad pattern', z3.Or(ok, no), 'is_bad_cmene exit')
                e.oblige(s, 'a bad name is reported bad', rv, 'is_bad_cmene exit')
                e.oblige(s, 'split verdict', z3.And(z3.Implies(ok, sp), z3.Implies(no, z3.Not(sp))), 'is_bad_cmene exit')
                la, ta = e.read(s, Ptr(outs[1], 0), cp), e.read(s, Ptr(outs[2], 0), cp)
                e.oblige(s, 'where the name splits', z3.Implies(z3.And(q2 >= 0, G(s, 'has')), b_and(oeq(la.obj, s_o), bv(la.off, 64) == G(s, 'ld'),
                         oeq(ta.obj, s_o), bv(ta.off, 64) == n)), 'is_bad_cmene exit')
                e.oblige(s, 'no place to split where there is none', z3.Implies(q2 < 0, oi(la.obj) == 0), 'is_bad_cmene exit')
        return e, res

    def isin(self, kind, val, q, val2=None):
        t = self.ev if kind == 'e' else self.at
        return z3.Or(False, *[q == i for i, x in enumerate(t) if x == val or (val2 is not None and x == val2)])

def enums():
    return tree.cenum('bccheck.h', 'BC_NOT_COMPLETE BC_CMENE_OK BC_CMENE_BAD_SPLIT BC_CMENE_BAD_NOSPLIT ATTR_NONE ATTR_SEEN_LD'.split(),
                      '#include "bccheck.c"\n')

def prove(jobs=8):
    prog = load()
    D, ev, at, bad, n = morf_l1.dfa_tables(prog, 'bad_cmene_next_state', 'bad_cmene_', 11)
    R = enums()
    L = Lemma(D, ev, at, R)
    P = Proof(prog, D, ev, at, L, R)
    live, frame, rounds_left = None, {}, 12
    while True:
        # every letter is checked against the common frame and the common invariant
        def one(label):
            e, res = P.run(label, frame, live)
            return dict(obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for o in e.obls], stats=e.stats, inlined=sorted(e.inlined),
                        models=sorted(e.used_models), paths=len(res), lost=sorted(e.lost), frame=P.spec.frame, names=P.spec.names)
        out = par.pmap(one, P.LABELS, jobs)
        nf, lost, names = dict(frame), set(), set()
        for o in out:
            if 'error' not in o:
                nf.update({k: v for k, v in o['frame'].items() if frame.get(k) != v})
                lost |= set(o['lost'])
                names |= o['names']
        if nf == frame and (live is not None and not lost & live):
            break
        frame, live = nf, (names if live is None else live) - lost
        if rounds_left <= 0:
            break
        rounds_left -= 1
    return dict(step_bad=bad, step_n=n, lemma_bad=L.bad, lemma_n=L.size, out=out)

if __name__ == '__main__':
    t = time.time()
    r = prove()
    print(time.time() - t, r['step_bad'], r['lemma_bad'][:5], r['lemma_n'])
    for o in r['out']:
        print(o.get('error') and (o['label'], o['error'], o['trace'][-400:]) or (o['label'], len(o['obls']), [x[:3] for x in o['obls'] if x[2] != 'proved'][:5], o['paths']))
