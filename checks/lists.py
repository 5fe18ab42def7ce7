"""Contracts over the token list (lex2.c, erasure.c): every pass walks the list once, replacing a window around the
current word.

Ghost state of a pass: the words of the text at its start are numbered 0..n-1 (node(a) for number a; node(-1) and node(n)
are the list head).  D[0..d) are the numbers of the words kept so far and i is the number of the next word; at the loop
head the list is   head, node(D[0]), ..., node(D[d-1]), node(i), ..., node(n-1), head   in both directions, all of these
words are allocated, and the fields of every word are what they were at the start, except where the pass's own rule says
otherwise.  Facts about all words are proved for arbitrary indices kappa < lambda and used at the instances needed."""
import sys, time, z3
from engine.gotovc import *
from engine import tree, par
from checks.cmavo import fld
from checks.conv import path, consts

def load():
    tree.make('rpc2x_act.tab.h', 'nonterm.h', 'cmavotab.c')
    return Program(tree.goto(['lex2.c', 'cmavotab.c'], 'lex2')), Program(tree.goto(['erasure.c', 'lex2.c'], 'eras'))

I = z3.IntSort()
KINDS = ['N_GARBAGE', 'N_CMAVO', 'N_BRIVLA', 'N_CMENE', 'N_ZOI', 'N_ZO', 'N_LOhU', 'N_ZEI', 'N_BU', 'N_BROKEN_ERASURE', 'N_MARKER']
CODES = ['CC_CAI', 'CC_SAI', 'CC_RUhE', 'CC_CUhI', 'CC_PEI', 'CC_CAINAI', 'CC_SAINAI', 'CC_RUhENAI', 'CC_PEINAI']
SELMAO = ['SI', 'SA', 'SU', 'NIhO', 'LU', 'TUhE', 'TO', 'ZO', 'LOhU', 'LEhU', 'ZEI', 'BAhE', 'BU', 'FAhO', 'UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO', 'NAI']

class Pass:
    """One list pass.  rule(self, s): called at the loop head; returns the outcome of this turn as a dict
       a: how many of the kept words stay (D[0..a)), keep: whether the current word is kept after them (condition),
       i: number of the next word; everything as terms over the head state."""
    def __init__(self, prog, fn, title, use_param=False):
        self.prog, self.fn, self.P = prog, fn, title
        e = self.e = Engine(prog)
        st = self.st = State()
        TN = self.TN = prog.typ(prog.sym['tag-treenode']['type'])
        self.o = {}
        for nm in (('next',), ('prev',), ('type',), ('bahe',), ('data', 'cmavo', 'selmao'), ('data', 'cmavo', 'code'), ('data', 'erasure', 'defects')):
            self.o[nm[-1]] = path(prog, TN, *nm)
        self.K = dict(next=('po', self.o['next'][0]), prev=('po', self.o['prev'][0]), type=(32, self.o['type'][0]), selmao=(32, self.o['selmao'][0]), defects=(32, self.o['defects'][0]), bahe=('po', self.o['bahe'][0]))
        self.c = CONST
        if use_param:
            self.T = next(e.oid)
            e.names[self.T] = 'list head'
        else:
            self.T = e.global_obj(st, 'toks')
        e.heap_objs.add(self.T)
        self.n, self.B = z3.Int('n'), z3.Int('base')
        self.kap, self.lam = z3.Int('kappa'), z3.Int('lambda')
        st.assume(z3.And(self.n >= 0, self.B > self.T + 1, self.kap < self.lam))
        self.pre = {k: e.heap_arr(st, k) for k in self.K.values()}
        self.ALIVE = z3.Array('allocated', I, z3.BoolSort())
        st.heap[('alive',)] = self.ALIVE
        self.fresh = 0
        self.frame_except = lambda s, k, a: z3.BoolVal(False)     # may field k of word number a (kept) differ from the start?
        self.keep_pre = []
        e.nonnull = self.alive
        e.contracts.update(Free=self.free, Malloc=self.malloc, fprintf=lambda g, s, a, ts: [(s, 0)], fflush=lambda g, s, a, ts: [(s, 0)])
        e.verbose = '-v' in sys.argv
        e.cand_timeout = 20000
        e.near = False
        setG(st, 'D', z3.Array('D0', I, I)); setG(st, 'd', z3.IntVal(0)); setG(st, 'i', z3.IntVal(0))
        self.heads = []
        self.post = []
        for k in (self.kap, self.lam, z3.IntVal(0), z3.IntVal(-1)):
            self.initial(st, k)
        st.assume(z3.Select(self.ALIVE, self.T))
    # -------------------------------------------------------------- the list
    def node(self, a):
        return z3.If(z3.Or(a == -1, a == self.n), z3.IntVal(self.T), self.B + a)
    def dn(self, D, k):
        return z3.If(k == -1, z3.IntVal(self.T), self.B + z3.Select(D, k))
    def arr(self, s, nm):
        return self.e.heap_arr(s, self.K[nm])
    def link(self, s, x, y):
        return z3.And(z3.Select(self.arr(s, 'next'), x) == y, z3.Select(self.arr(s, 'prev'), y) == x)
    def initial(self, s, k):
        """the list at the start (assumption of the pass; conclusion of the pass before)"""
        n = self.n
        s.assume(z3.Implies(z3.And(-1 <= k, k < n), z3.And(z3.Select(self.pre[self.K['next']], self.node(k)) == self.node(k + 1), z3.Select(self.pre[self.K['prev']], self.node(k + 1)) == self.node(k))))
        s.assume(z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(self.ALIVE, self.B + k), self.kinds(z3.Select(self.pre[self.K['type']], self.B + k)))))
        for f in self.keep_pre:
            s.assume(z3.Implies(z3.And(0 <= k, k < n), f(k)))
    def kinds(self, t):
        return z3.Or(*[t == self.c[k] for k in self.in_kinds])
    in_kinds = ['N_CMAVO', 'N_BRIVLA', 'N_CMENE', 'N_ZOI', 'N_ZO', 'N_LOhU']
    def ty0(self, a):
        return z3.Select(self.pre[self.K['type']], self.B + a)
    def sel0(self, a):
        return z3.Select(self.pre[self.K['selmao']], self.B + a)
    def is_cm(self, a, *sel):
        return z3.And(self.ty0(a) == self.c['N_CMAVO'], z3.Or(*[self.sel0(a) == self.c[x] for x in sel]))
    def cur_cm(self, s, x, *sel):
        return z3.And(z3.Select(self.arr(s, 'type'), x) == self.c['N_CMAVO'], z3.Or(*[z3.Select(self.arr(s, 'selmao'), x) == self.c[v] for v in sel]))
    def keys(self, s):
        return [k for k in s.heap if k not in (('alive',), self.K['next'], self.K['prev'])]
    def pre_arr(self, k):
        if k not in self.pre:
            self.pre[k] = self.e.heap_arr(State(), k)
        return self.pre[k]
    def same(self, s, k, x):
        return z3.Select(s.heap[k], x) == z3.Select(self.pre_arr(k), x)
    def wf(self, s, D, d, i, k):
        """the invariant at index k"""
        n = self.n
        out = [('links of the kept words', z3.Implies(z3.And(-1 <= k, k < d - 1), self.link(s, self.dn(D, k), self.dn(D, k + 1)))),
               ('links of the words to come', z3.Implies(z3.And(i <= k, k < n), self.link(s, self.node(k), self.node(k + 1)))),
               ('kept words are words before the current one', z3.Implies(z3.And(0 <= k, k < d), z3.And(0 <= z3.Select(D, k), z3.Select(D, k) < i, z3.Select(s.heap[('alive',)], self.dn(D, k))))),
               ('words to come are allocated', z3.Implies(z3.And(i <= k, k < n), z3.Select(s.heap[('alive',)], self.B + k)))]
        return out
    def fixed(self, s, D, d, i):
        return [('position', z3.And(0 <= d, 0 <= i, i <= self.n)),
                ('the kept words are followed by the words to come', self.link(s, self.dn(D, d - 1), self.node(i))),
                ('the list head stays', z3.Select(s.heap[('alive',)], self.T))]
    def mono(self, D, d, k, l):
        return z3.Implies(z3.And(0 <= k, k < l, l < d), z3.Select(D, k) < z3.Select(D, l))
    def contents(self, s, D, d, i, k):
        out = []
        for key in self.keys(s):
            out.append(('words to come keep field %s' % (key,), z3.Implies(z3.And(i <= k, k < self.n), self.same(s, key, self.B + k))))
            out.append(('kept words keep field %s' % (key,), z3.Implies(z3.And(0 <= k, k < d), z3.Or(self.same(s, key, self.dn(D, k)), self.frame_except(s, key, self.dn(D, k))))))
        return out
    # -------------------------------------------------------------- memory
    def alive(self, s, p):
        if not self.e.safety:
            return
        self.e.oblige(s, self.P + 'only words that are still there are read or changed', z3.Select(s.heap[('alive',)], oi(p.obj)), self.e.where(s))
    def free(self, e, s, a, ts):
        self.alive(s, a[0])
        e.oblige(s, self.P + 'the list head is not given back', oi(a[0].obj) != self.T, e.where(s))
        s.heap[('alive',)] = z3.Store(s.heap[('alive',)], oi(a[0].obj), z3.BoolVal(False))
        return [(s, None)]
    def new(self, s):
        f = z3.Int(fresh_name('new'))
        s.assume(z3.And(f > self.B + self.n, z3.Not(z3.Select(s.heap[('alive',)], f))))
        s.heap[('alive',)] = z3.Store(s.heap[('alive',)], f, z3.BoolVal(True))
        return f
    def malloc(self, e, s, a, ts):
        return [(s, Ptr(self.new(s), 0))]
    # -------------------------------------------------------------- loops
    def ptr_locals(self, s):
        fids = {fr[0] for fr in s.frames}
        for key, v in list(s.env.items()):
            if key[0] in fids and isinstance(key[1], str) and isinstance(v, Ptr) and key[1] != '#ret':
                yield key, v
        for o in s.mem.values():          # pointers whose address is taken
            if not o.const and '::' in o.name and o.size == 8 and 'p' in o.cells and isinstance(o.cells['p'].d.get(0), Ptr):
                yield (None, o.name), o.cells['p'].d[0]
    def main_spec(self):
        P = self.P
        def inv(eng, s, entry):
            if s is entry and self.case is not None:
                # several proofs (cases of one turn) share one invariant: all of them start from the same, large frame
                fr = {('heap', k): 'arr' for k in list(self.K.values()) + [('alive',)]}
                fr.update({('env', ('g', x)): 'int' for x in ('D', 'd', 'i')})
                fr.update(self.more_frame(s))
                fid = s.frames[-1][0]
                for key, v in s.env.items():
                    if key[0] == fid and isinstance(v, Ptr):
                        fr[('env', key)] = ('ptr', None, 0)
                spec.frame = fr
                if self.hint:
                    spec.frame = dict(self.hint[0])
                    spec.live = set(self.hint[1])
            D, d, i = G(s, 'D'), G(s, 'd'), G(s, 'i')
            out = self.fixed(s, D, d, i)
            for k in (self.kap, self.lam):
                out += self.wf(s, D, d, i, k)
            out.append(('kept words are in order', self.mono(D, d, self.kap, self.lam)))
            for k in (self.kap,):
                out += self.contents(s, D, d, i, k)
            return out + self.extra_inv(s, D, d, i)
        def cands(eng, s, entry):
            D, d, i = G(s, 'D'), G(s, 'd'), G(s, 'i')
            out = []
            for key, v in self.ptr_locals(s):
                out.append(('%s is the current word' % key[1], oi(v.obj) == self.node(i)))
                out.append(('%s is the list head' % key[1], oi(v.obj) == self.T))
                out.append(('%s is the last word kept' % key[1], oi(v.obj) == self.dn(D, d - 1)))
            return out + self.extra_cands(s, D, d, i)
        def on_head(eng, h, entry):
            D, d, i = G(h, 'D'), G(h, 'd'), G(h, 'i')
            H = self.head = dict(D=D, d=d, i=i, heap=dict(h.heap))
            self.hs = h
            frozen = State(); frozen.heap = dict(h.heap)
            self.frozen = frozen
            r = self.turn = self.rule(h, D, d, i)
            idx = [d - 1, d - 2, i - 1, i, i + 1, i + 2] + list(r.get('idx', ()))
            self.facts(h, idx)
            if self.case is not None:
                # one proof per case; together the cases cover everything
                self.e.oblige(h, self.P + 'the cases cover everything', z3.Implies(i < self.n, z3.Or(*r['cases'].values())), self.fn)
                h.assume(z3.Implies(i < self.n, r['cases'][self.case]))
        def step(eng, b, head, entry):
            H, r = self.head, self.turn
            D, d, i = H['D'], H['d'], H['i']
            a, keep = r['a'], r['keep']
            setG(b, 'D', z3.simplify(z3.If(keep, z3.Store(D, a, i), D)) if not isinstance(keep, bool) else (z3.Store(D, a, i) if keep else D))
            setG(b, 'd', z3.simplify(z3.If(keep, a + 1, a)) if not isinstance(keep, bool) else z3.simplify(a + (1 if keep else 0)))
            setG(b, 'i', z3.simplify(r['i']))
            # instances of the old facts where the new invariant needs them
            self.facts(b, [self.kap, self.lam, self.kap + 1, self.kap - 1, self.lam + 1, self.lam - 1, a, a - 1, a - 2, z3.simplify(r['i']), z3.simplify(r['i']) - 1] + list(r.get('idx', ())))
            for nm, c in r.get('must', lambda s: [])(b):
                eng.oblige(b, P + nm, c, self.fn + ' loop')
            eng.oblige(b, P + 'a turn is finished only while words are left, and the text is used up step by step', z3.And(i < self.n, r['i'] > i, r['i'] <= self.n), self.fn + ' loop')
        spec = self.spec = LoopSpec(inv, cands, on_head, None, step, P + self.fn)
        return spec
    case = None
    hint = None
    def more_frame(self, s):
        return {}
    def extra_inv(self, s, D, d, i):
        return []
    def extra_cands(self, s, D, d, i):
        return []
    def facts(self, s, idx):
        """what held at the head of the main loop, at the given indices (about the list as it was then)"""
        H, f = self.head, self.frozen
        D, d, i = H['D'], H['d'], H['i']
        done = s.ghost.get('facts') or {}
        if done.get('#head') is not f:
            done = {'#head': f}
        done = dict(done)
        new = []
        for x in list(idx) + [self.kap, self.lam]:
            x = z3.simplify(x)
            if x.get_id() not in done:
                done[x.get_id()] = x
                new.append(x)
        s.ghost['facts'] = done
        old = [v for k, v in done.items() if k != '#head']
        for x in new:
            self.initial(s, x)
            for nm, c in self.wf(f, D, d, i, x) + self.contents(f, D, d, i, x) + self.more_facts(f, D, d, i, x):
                s.assume(c)
            self.initial(s, z3.simplify(z3.Select(D, x)))
        for k, x in enumerate(old):
            for y in old[:k]:
                if any(x is z or y is z for z in new):
                    s.assume(self.mono(D, d, x, y))
                    s.assume(self.mono(D, d, y, x))
    def more_facts(self, f, D, d, i, x):
        return []
    # ---- scanning without changing the list
    def scan_spec(self, name, pos, lo, hi, stepby, axiom, locs=None):
        """ghost position p (sequence W of the head state), lo <= p <= hi; axiom(s, p): what the rule says about position p"""
        def inv(eng, s, entry):
            if s is entry:
                setG(s, name, z3.simplify(pos))
            p = G(s, name)
            return [('position', z3.And(lo <= p, p <= hi))]
        def cands(eng, s, entry):
            p = G(s, name)
            out = []
            for key, v in self.ptr_locals(s):
                out.append(('%s is the word reached' % key[1], oi(v.obj) == self.w(p)))
                out.append(('%s is the word before it' % key[1], oi(v.obj) == self.w(p - stepby)))
            for key, v in list(s.env.items()):
                if key[0] in {fr[0] for fr in s.frames} and isinstance(key[1], str) and key[1] in self.prog.sym and not isinstance(v, (Ptr, tuple)) and v is not None:
                    t = self.prog.typ(self.prog.sym[key[1]]['type'])
                    if t.k == 'int' and t.w == 32:
                        g = G(s, 'cnt.' + name) if ('g', 'cnt.' + name) in s.env else None
                        if g is not None:
                            for dd in (0, 1):
                                out.append(('%s counts+%d' % (key[1], dd), bv(v, 32) == g + dd))
            return out
        def on_head(eng, h, entry):
            p = G(h, name)
            self.facts(h, [self.wd(p), self.wi(p), self.wd(p) + 1, self.wi(p) + 1, self.wd(p) - 1, self.wi(p) - 1])
            for c in axiom(h, p):
                h.assume(c)
        def step(eng, b, head, entry):
            p = z3.simplify(G(head, name) + stepby)
            setG(b, name, p)
            if ('g', 'cnt.' + name) in b.env:
                setG(b, 'cnt.' + name, z3.simplify(G(head, 'cnt.' + name) + 1))
            self.facts(b, [self.wd(p), self.wi(p)])
            for c in axiom(b, p):
                b.assume(c)
        return LoopSpec(inv, cands, on_head, None, step, self.P + self.fn + ' ' + name)
    def wd(self, p):
        return p
    def wi(self, p):
        return z3.simplify(self.head['i'] + p - self.head['d'])
    def w(self, p):
        """the list at the head of the main loop as one sequence"""
        H = self.head
        return z3.If(p < H['d'], self.dn(H['D'], p), self.node(H['i'] + p - H['d']))
    # ---- deleting a stretch of the list
    def del_spec(self, a, c0, end):
        """words number a..c of the sequence are gone; starts at c0 (already gone), stops at end"""
        name = 'gone'
        H = self.head
        total = H['d'] + self.n - H['i']
        f = self.frozen
        def inv(eng, s, entry):
            if s is entry:
                setG(s, name, z3.simplify(c0))
                s.ghost['nd'] = s.ghost.get('nd', 0) + 1
                self.facts(s, [self.kap, self.lam, self.kap + 1, self.lam + 1, self.wi(self.kap), self.wi(self.lam), self.wi(self.kap) + 1, self.wi(self.lam) + 1])
            c = G(s, name)
            out = [('stretch', z3.And(c0 <= c, c <= end)),
                   ('the gap is closed', self.link(s, self.w(a - 1), self.w(c))),
                   ('the list head stays', z3.Select(s.heap[('alive',)], self.T))]
            for k in (self.kap, self.lam):
                out += [('links before', z3.Implies(z3.And(-1 <= k, k < a - 1), self.link(s, self.w(k), self.w(k + 1)))),
                        ('links after', z3.Implies(z3.And(c <= k, k < total), self.link(s, self.w(k), self.w(k + 1)))),
                        ('words before are kept', z3.Implies(z3.And(0 <= k, k < a), z3.Select(s.heap[('alive',)], self.w(k)))),
                        ('words after are kept', z3.Implies(z3.And(c <= k, k < total), z3.Select(s.heap[('alive',)], self.w(k))))]
            return out
        def cands(eng, s, entry):
            c = G(s, name)
            out = []
            for key, v in self.ptr_locals(s):
                out.append(('%s is the next word to go' % key[1], oi(v.obj) == self.w(c)))
            return out
        def on_head(eng, h, entry):
            c = G(h, name)
            self.del_facts(h, a, c, total, [c, c + 1, a - 1, a - 2, self.kap + 1, self.lam + 1])
            self.facts(h, [c, self.wi(c), self.wi(c) + 1, a - 1, a])
        def step(eng, b, head, entry):
            setG(b, name, z3.simplify(G(head, name) + 1))
            c = G(head, name)
            self.facts(b, [c, c + 1, self.wi(c), self.wi(c) + 1, self.wi(self.kap), self.wi(self.lam), self.wi(self.kap) + 1, self.wi(self.lam) + 1, self.kap + 1, self.lam + 1, a - 1])
            self.del_head = head
        sp = LoopSpec(inv, cands, on_head, None, step, self.P + self.fn + ' erasing')
        sp.total = total
        self.deletion = (a, total)
        return sp
    def del_facts(self, s, a, c, total, idx):
        f = State(); f.heap = dict(s.heap)
        for k in [z3.simplify(x) for x in idx]:
            for cnd in (z3.Implies(z3.And(-1 <= k, k < a - 1), self.link(f, self.w(k), self.w(k + 1))),
                        z3.Implies(z3.And(c <= k, k < total), self.link(f, self.w(k), self.w(k + 1))),
                        z3.Implies(z3.And(0 <= k, k < a), z3.Select(f.heap[('alive',)], self.w(k))),
                        z3.Implies(z3.And(c <= k, k < total), z3.Select(f.heap[('alive',)], self.w(k)))):
                s.assume(cnd)
        # remember how to instantiate the invariant of the deletion after the loop
        s.ghost['delinst'] = (f.heap[self.K['next']], f.heap[self.K['prev']], f.heap[('alive',)], a, c, total)
    def after_del(self, s, idx):
        d = s.ghost.get('delinst')
        if d is None:
            return
        nx, pv, al, a, c, total = d
        f = State(); f.heap = {self.K['next']: nx, self.K['prev']: pv, ('alive',): al}
        for k in [z3.simplify(x) for x in idx]:
            for cnd in (z3.Implies(z3.And(-1 <= k, k < a - 1), self.link(f, self.w(k), self.w(k + 1))),
                        z3.Implies(z3.And(c <= k, k < total), self.link(f, self.w(k), self.w(k + 1))),
                        z3.Implies(z3.And(0 <= k, k < a), z3.Select(al, self.w(k))),
                        z3.Implies(z3.And(c <= k, k < total), z3.Select(al, self.w(k)))):
                s.assume(cnd)
    # -------------------------------------------------------------- the whole pass
    def prove(self):
        e = self.e
        main = self.main_spec()
        st0 = main.step
        def step(eng, b, head, entry):
            st0(eng, b, head, entry)
            H, r = self.head, self.turn
            sh = lambda k: z3.simplify(k - H['i'] + H['d'])
            self.after_del(b, [self.kap, self.lam, sh(self.kap), sh(self.lam), r['a'] - 1, r['a'] - 2, sh(r['i']), self.kap + 1, self.lam + 1])
            b.ghost.pop('delinst', None)
        main.step = step
        frames = {}
        def known(f, pc, sp):
            """start from the frame found when this loop was last met (a larger frame is only weaker)"""
            if sp is not None:
                old = frames.get((f.name, pc))
                if old is not None:
                    sp.frame = dict(old.frame)
                frames[(f.name, pc)] = sp
            return sp
        def loops(f, pc):
            if f.name != self.fn:
                return known(f, pc, self.other_loop(f, pc) or self.inner(f, pc))
            outer = [h for h in f.heads if h != pc and pc in f.loop_body(h)]
            if not outer:
                return main
            return known(f, pc, self.inner(f, pc))
        e.loop_for = loops
        res = e.run_function(self.st, self.fn, self.args())
        for s, r in res:
            w = self.fn + ' exit'
            if isinstance(r, tuple):
                self.on_exit(s, r[1])
                continue
            D, d, i = G(s, 'D'), G(s, 'd'), G(s, 'i')
            self.at_end(s, D, d, i)
        e.oblige(State(), 'vacuity: %s can finish' % self.fn, any(not isinstance(r, tuple) for s, r in res), self.fn)
        e.inlined.add(self.fn)
        return e
    def at_end(self, s, D, d, i):
        self.e.oblige(s, self.P + 'the whole text is treated', i == self.n, self.fn + ' exit')
        self.e.oblige(s, self.P + 'the list ends after the last word kept', self.link(s, self.dn(D, d - 1), z3.IntVal(self.T)), self.fn + ' exit')
    def on_exit(self, s, code):
        self.e.oblige(s, self.P + 'the pass does not end the program', False, self.fn)
    def other_loop(self, f, pc):
        return None
    def args(self):
        return []
    def body_has(self, f, pc, *texts):
        t = str([f.ins[b] for b in f.loop_body(pc)])
        return any(x in t for x in texts)

CONST = {}
def constants():
    CONST.update(consts(KINDS + SELMAO + CODES, 'lex2.c'))
    return CONST

# ================================================================== erasures
class Erase(Pass):
    def __init__(self, prog, fn, title):
        super().__init__(prog, fn, title, True)
    def args(self):
        return [Ptr(self.T, 0)]

class Sa(Erase):
    """sa: back to the last word of the same kind as the word after it"""
    in_kinds = Pass.in_kinds + ['N_BROKEN_ERASURE']
    def match(self, k):
        """is kept word number k (index in D) of the kind of the word after the current one"""
        H = self.head
        x, y = self.dn(H['D'], k), self.B + H['i'] + 1
        f = self.frozen
        t = lambda z: z3.Select(self.arr(f, 'type'), z)
        return z3.And(t(x) == t(y), z3.Or(t(x) != self.c['N_CMAVO'], z3.Select(self.arr(f, 'selmao'), x) == z3.Select(self.arr(f, 'selmao'), y)))
    def ax(self, j, k):
        d = self.head['d']
        return [z3.Implies(z3.And(0 <= k, k < d, k > j), z3.Not(self.match(k))), z3.Implies(z3.And(k == j, j >= 0), self.match(j))]
    def rule(self, h, D, d, i):
        j = self.j = z3.Int(fresh_name('last match'))
        h.assume(z3.And(-1 <= j, j < d))
        is_sa = z3.And(self.is_cm(i, 'SA'), i + 1 < self.n)
        self.A = z3.If(j == -1, z3.IntVal(0), j)
        for k in (j, d - 1):
            for c in self.ax(j, k):
                h.assume(c)
        return dict(a=z3.If(is_sa, self.A, d), keep=z3.Not(is_sa), i=i + 1, idx=[j, j - 1, j + 1, z3.IntVal(0), z3.IntVal(-1)])
    def inner(self, f, pc):
        d = self.head['d']
        if self.body_has(f, pc, 'delete_node', "'Free'"):
            return self.del_spec(self.A, self.A, d + 1)
        j = self.j
        return self.scan_spec('back', d - 1, j, d - 1, -1, lambda s, p: self.ax(j, p))
    def at_end(self, s, D, d, i):
        # the pass may stop before the last word: it is kept
        self.e.oblige(s, self.P + 'the whole text is treated', z3.Or(i == self.n, i == self.n - 1), self.fn + ' exit')
        self.e.oblige(s, self.P + 'the list ends after the last word kept', z3.Implies(i == self.n, self.link(s, self.dn(D, d - 1), z3.IntVal(self.T))), self.fn + ' exit')

class Su(Erase):
    """su: back to the last opener; su su: everything"""
    in_kinds = Sa.in_kinds
    def match(self, k):
        return self.cur_cm(self.frozen, self.dn(self.head['D'], k), 'NIhO', 'LU', 'TUhE', 'TO')
    ax = Sa.ax
    def rule(self, h, D, d, i):
        j = self.j = z3.Int(fresh_name('last opener'))
        h.assume(z3.And(-1 <= j, j < d))
        for k in (j, d - 1):
            for c in self.ax(j, k):
                h.assume(c)
        su = self.is_cm(i, 'SU')
        dbl = z3.And(su, i + 1 < self.n, self.is_cm(i + 1, 'SU'))
        self.A = z3.If(j == -1, z3.IntVal(0), j)
        return dict(a=z3.If(dbl, z3.IntVal(0), z3.If(su, self.A, d)), keep=z3.Not(su), i=z3.If(dbl, i + 2, i + 1), idx=[j, j - 1, j + 1, z3.IntVal(0), z3.IntVal(-1), i + 1])
    def inner(self, f, pc):
        H = self.head
        d, i = H['d'], H['i']
        dbl = z3.And(self.is_cm(i, 'SU'), i + 1 < self.n, self.is_cm(i + 1, 'SU'))
        if self.body_has(f, pc, 'delete_node', "'Free'"):
            a = z3.If(dbl, z3.IntVal(0), self.A)
            return self.del_spec(a, a, z3.If(dbl, d + 2, d + 1))
        j = self.j
        return self.scan_spec('back', d - 1, j, d - 1, -1, lambda s, p: self.ax(j, p))

class Si(Erase):
    """si: the word before it; a quotation needs as many as it has words"""
    cases = ['none', 'word', 'N_ZOI', 'N_LOhU', 'N_ZO', 'broken1', 'broken2', 'broken3']
    def __init__(self, prog, case):
        super().__init__(prog, 'handle_si', 'si: ')
        self.case = case
        self.frame_except = lambda s, k, x: z3.Select(self.arr(s, 'type'), x) == self.c['N_BROKEN_ERASURE']
    def require(self, f, x):
        t = z3.Select(self.arr(f, 'type'), x)
        c = self.c
        iv = lambda v: z3.BitVecVal(v, 32)
        return z3.If(t == c['N_ZOI'], iv(4), z3.If(t == c['N_LOhU'], iv(3), z3.If(t == c['N_ZO'], iv(2), z3.If(t == c['N_BROKEN_ERASURE'], z3.Select(self.arr(f, 'defects'), x), iv(1)))))
    def extra_inv(self, s, D, d, i):
        out = []
        for k in (self.kap,):
            x = self.dn(D, k)
            t = z3.Select(self.arr(s, 'type'), x)
            q = z3.Select(self.arr(s, 'defects'), x)
            out.append(('a word erased in part is counted', z3.Implies(z3.And(0 <= k, k < d), z3.And(z3.Or(self.kinds(t), t == self.c['N_BROKEN_ERASURE']), z3.Implies(t == self.c['N_BROKEN_ERASURE'], z3.And(1 <= q, q <= 3))))))
        return out
    def more_facts(self, f, D, d, i, x):
        return [(nm, z3.substitute(c, (self.kap, x))) for nm, c in self.extra_inv(f, D, d, i)]
    def rule(self, h, D, d, i):
        """m: how many si in a row are used up (at most as many as needed)"""
        si = lambda k: z3.And(k < self.n, self.is_cm(k, 'SI'))
        hit = z3.And(si(i), d > 0)
        y = self.dn(D, d - 1)
        req = self.require(h, y)
        t = z3.Select(self.arr(h, 'type'), y)
        ks = ('N_ZOI', 'N_LOhU', 'N_ZO', 'N_BROKEN_ERASURE')
        word = z3.Not(z3.Or(*[t == self.c[k] for k in ks]))
        de = z3.Select(self.arr(h, 'defects'), y)
        cs = {'none': z3.Not(hit), 'word': z3.And(hit, word)}
        for k in ks[:3]:
            cs[k] = z3.And(hit, t == self.c[k])
        for v in (1, 2, 3):
            cs['broken%d' % v] = z3.And(hit, t == self.c['N_BROKEN_ERASURE'], de == v)
        m = self.m = z3.If(z3.Or(req == 1, z3.Not(si(i + 1))), 1, z3.If(z3.Or(req == 2, z3.Not(si(i + 2))), 2, z3.If(z3.Or(req == 3, z3.Not(si(i + 3))), 3, 4)))
        self.req = req
        full = z3.BV2Int(req) == m
        full = z3.Or(*[z3.And(req == v, m == v) for v in (1, 2, 3, 4)])
        self.A = z3.If(full, d - 1, d)
        self.full, self.hit = full, hit
        def must(b):
            ty, de = z3.Select(self.arr(b, 'type'), y), z3.Select(self.arr(b, 'defects'), y)
            left = z3.And(ty == self.c['N_BROKEN_ERASURE'], z3.Or(*[z3.And(m == v, de == req - v) for v in (1, 2, 3, 4)]))
            k = self.dn(D, self.kap)
            return [('a word erased in part remembers how many si are missing', z3.Implies(z3.And(hit, z3.Not(full)), left)),
                    ('other words erased in part are left alone', z3.Implies(z3.And(0 <= self.kap, self.kap < d, z3.Or(z3.Not(hit), self.kap < d - 1)),
                        z3.And(z3.Select(self.arr(b, 'type'), k) == z3.Select(self.arr(self.frozen, 'type'), k), z3.Select(self.arr(b, 'defects'), k) == z3.Select(self.arr(self.frozen, 'defects'), k))))]
        return dict(a=z3.If(hit, self.A, d), keep=z3.Not(hit), i=z3.If(hit, i + m, i + 1), idx=[i + 3, i + 4, z3.IntVal(0), z3.IntVal(-1)], must=must, cases=cs)
    def inner(self, f, pc):
        H = self.head
        d, i = H['d'], H['i']
        if self.body_has(f, pc, 'delete_node', "'Free'"):
            return self.del_spec(self.A, d, d + self.m)
        sp = self.scan_spec('ahead', d + 1, d + 1, d + self.m, 1, lambda s, p: [])
        inv0 = sp.inv
        def inv(eng, s, entry):
            if s is entry:
                setG(s, 'cnt.ahead', z3.BitVecVal(1, 32))
            return inv0(eng, s, entry) + [('count', z3.Or(*[z3.And(G(s, 'ahead') == d + v, G(s, 'cnt.ahead') == v) for v in (1, 2, 3, 4)]))]
        sp.inv = inv
        return sp

class Order:
    """a function that calls the passes: each exactly once, in this order"""
    def __init__(self, prog, fn, calls, head=False):
        self.prog, self.fn, self.calls, self.head = prog, fn, calls, head
        self.spec = LoopSpec()
        self.spec.live_out = set()
    def prove(self):
        e, st = Engine(self.prog), State()
        T_ = e.global_obj(st, 'toks') if not self.head else next(e.oid)
        e.heap_objs.add(T_)
        st.ghost['calls'] = ()
        def call(n):
            def f(eng, s, a, ts):
                if a:
                    eng.oblige(s, 'order: %s works on the token list' % n, oi(a[0].obj) == T_, self.fn)
                s.ghost['calls'] = s.ghost['calls'] + (n,)
                return [(s, None)]
            return f
        for n in self.calls:
            e.contracts[n] = call(n)
        res = e.run_function(st, self.fn, [Ptr(T_, 0)] if self.head else [])
        for s, r in res:
            e.oblige(s, 'order: %s does %s' % (self.fn, ', '.join(self.calls)), s.ghost['calls'] == tuple(self.calls), self.fn)
        e.oblige(State(), 'vacuity: %s returns' % self.fn, len(res) > 0, self.fn)
        e.inlined.add(self.fn)
        return e

ASSUME = ['the token list is finite and well linked when preprocessing starts (established by add_token, P05), and holds only the kinds of tokens the reader makes',
          'the fields of a token are accessed under the union member its type names; two members are not read through each other']
ALL = ['handle_zo', 'handle_lohu', 'do_erasures', 'handle_zei', 'handle_bahe', 'handle_bu', 'handle_indicators', 'categorize_tokens']
def passes():
    pl, pe = load()
    constants()
    from checks import lists2
    return {**lists2.passes(pl), 'handle_si': [(lambda k=k: Si(pe, k)) for k in Si.cases], 'handle_sa': [lambda: Sa(pe, 'handle_sa', 'sa: ')], 'handle_su': [lambda: Su(pe, 'handle_su', 'su: ')],
            'do_erasures': [lambda: Order(pe, 'do_erasures', ['handle_si', 'handle_sa', 'handle_su'], True)], 'preprocess_tokens': [lambda: Order(pl, 'preprocess_tokens', ALL)]}

HINT = {}
def one(label):
    k, j = label
    p = PASSES[k][j]()
    p.hint = HINT.get(label)
    e = p.prove()
    return dict(obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for o in e.obls], inl=sorted(e.inlined), frame=dict(p.spec.frame), live=p.spec.live_out, lost=sorted(e.lost))

def prove_all(which, timeout=600):
    """prove the passes, one process per case; the cases of one pass must agree on the invariant (frame and candidates)"""
    global PASSES
    PASSES = passes()
    todo = [(k, j) for k in which for j in range(len(PASSES[k]))]
    done = {}
    # the first case of each pass finds the invariant the others start from
    def rest(r):
        k, j = r['label']
        if j:
            return []
        if 'error' not in r:
            for x in range(1, len(PASSES[k])):
                HINT[k, x] = (r['frame'], r['live'])
        return [(k, x) for x in range(1, len(PASSES[k]))]
    for r in par.pmap(one, [l for l in todo if l[1] == 0], 8, timeout, rest):
        done[r['label']] = r
    todo = []
    for rnd in range(6):
        if todo:
            for r in par.pmap(one, todo, 8, timeout):
                done[r['label']] = r
        todo = []
        for k in which:
            rs = [(j, done[k, j]) for j in range(len(PASSES[k]))]
            if len(rs) == 1 or any('error' in r for j, r in rs):
                continue
            fr = {}
            for j, r in rs:
                for key, mode in r['frame'].items():
                    if key not in fr or fr[key] == mode:
                        fr[key] = mode
                    else:
                        fr[key] = ('ptr', None, None) if isinstance(mode, tuple) else mode
            live = set.intersection(*[r['live'] for j, r in rs])
            for j, r in rs:
                if r['frame'] != fr or r['live'] != live:
                    HINT[k, j] = (fr, live)
                    todo.append((k, j))
        if not todo:
            break
    else:
        for l in todo:
            done[l] = dict(label=l, error='the cases of one turn do not agree on an invariant', trace='')
    return list(done.values())

def prove(c, which):
    for r in prove_all(which):
        if 'error' in r:
            c.undecided('%s case %d' % r['label'], r['error'] + r.get('trace', ''))
        else:
            c.obligations(r['obls'])
            c.functions.update(r['inl'])

def main():
    t = time.time()
    for v in prove_all([k for k in sys.argv[1:] if not k.startswith('-')] or list(passes())):
        print(v['label'], v.get('error'), v.get('trace'), len(v.get('obls', '')), v.get('lost'), round(v['wall'], 1))
        seen = set()
        for o in v.get('obls', ()):
            if o[2] != 'proved' and o[:2] not in seen:
                seen.add(o[:2]); print('   ', o[:3])
    print(round(time.time() - t, 1))

if __name__ == '__main__':
    from checks import lists
    lists.main()
