"""Level 1 of the morphology proof: one iteration of morf_scan's letter loop is one step of
the specified letter reader followed by one DFA step, for every letter in every context; the
epilogue maps the DFA's verdict, the recorded marks and the hyphen position as specified."""
import sys, time, z3, os
from engine.gotovc import *
from engine import tree, par
from spec import morph
from checks.morf_l2 import TOKNUM

SKIP = ('allow_cultural_rafsi', 'verbose', 'expand_lujvo', 'stdin', 'stdout', 'stderr')

def load(defs=()):
    tree.make('morf_dfa.c', 'morf_lex.c', 'morfvlex.c', 'morf_enc.c', 'bctables.c')
    gb = tree.goto(['morf.c', 'morf_dfa.c'], 'morf' + ('t' if defs else ''), defs)
    return Program(gb)

def statics(prog):
    """file-scope tables: never written anywhere (checked by never_written), so their initialiser is their value"""
    return {s for s in prog.sym if prog.sym[s].get('isStaticLifetime') and s not in SKIP
            and not s.startswith('__CPROVER') and prog.sym[s]['type'].get('id') == 'array'}

def table(prog, sym):
    e = Engine(prog)
    e.const_globals.add(sym)
    o = e._init_global(sym, 1)
    t = prog.typ(prog.sym[sym]['type'])
    es = prog.sizeof(t.to)
    base = o.cells[cls_of(t.to)].base
    return [base.get(i * es, 0) for i in range(t.n)]

def dfa_tables(prog, fn='morf_next_state', pre='morf_', ntok=21):
    """contract of the DFA step function, discharged by running its body on its whole domain"""
    ev = table(prog, pre + 'exitval')
    at = table(prog, pre + 'attribute')
    n = len(ev)
    e = Engine(prog)
    e.const_globals |= statics(prog)
    D, bad = [], []
    for q in range(n):
        row = []
        for t in range(ntok):
            r = e.run_function(State(), fn, [q, t])
            v = r[0][1] if len(r) == 1 else None
            if not isinstance(v, int) or not (-1 <= v < n):
                bad.append('%s(%d,%d) = %s' % (fn, q, t, v))
                v = -1
            row.append(v)
        D.append(row)
    bad += [o.name for o in e.obls if o.status != 'proved']
    return D, ev, at, bad, n * ntok

# ---- the specification of one letter, as z3 terms over ghost context
B32 = lambda v: z3.BitVecVal(v, 32)
B64 = lambda v: z3.BitVecVal(v, 64)
LET = {c: ord(c) & 31 for c in morph.CONS + morph.VOW + 'y'}
LCODE = {'C': 1, 'y': 2, 'a': 3, 'e': 4, 'i': 5, 'o': 6, 'u': 7}
CCODE = {'-': 0, 'n': 1, 'r': 2, 'C': 3}

_mux = {}
def tab_fn(name, rows, idx, default):
    """constant table lookup"""
    if name not in _mux:
        _mux[name] = MuxTable(rows() if callable(rows) else rows, 32, 32, default)
    r = _mux[name](idx)
    return r

def ctok_rows():
    tok = {}
    for c2 in '-nrC':
        for c1 in '-' + morph.CONS:
            for ch in morph.CONS:
                k = (CCODE[c2] << 10) | ((LET[c1] if c1 != '-' else 0) << 5) | LET[ch]
                tok[k] = TOKNUM[morph.token((c2, c1, 'C', 'C'), ch)]
    return tok

def vtok_rows():
    return {(a << 6) | (b << 3) | LCODE[ch]: TOKNUM[morph.token(('-', '-', l2, l1), ch)]
            for l2, a in LCODE.items() for l1, b in LCODE.items() for ch in morph.VOW + 'y'}

def simp2(x):
    x = z3.simplify(x)
    return x

def spec_step(g, c8):
    """token read and new letter context; c8 a byte term (concrete in most cases)"""
    up = z3.And(z3.UGE(c8, 65), z3.ULE(c8, 90))
    let = z3.Or(up, z3.And(z3.UGE(c8, 97), z3.ULE(c8, 122)))
    idx = simp2(z3.If(let, z3.ZeroExt(24, c8) & B32(31), B32(0)))
    isin = lambda S: simp2(z3.And(let, z3.Or(*[idx == LET[x] for x in S])))
    cons, vow, y, apos = isin(morph.CONS), isin(morph.VOW), isin('y'), simp2(c8 == 39)
    lcode = simp2(z3.If(vow, tab_fn('lcode', {LET[v]: LCODE[v] for v in morph.VOW}, idx, 1), z3.If(y, B32(2), B32(1))))
    ctok = tab_fn('ctok', ctok_rows, simp2((g['c2'] << 10) | (g['c1'] << 5) | idx), 0)
    vtok = tab_fn('vtok', vtok_rows, simp2((g['l2'] << 6) | (g['l1'] << 3) | lcode), 0)
    tok = simp2(z3.If(cons, ctok, z3.If(z3.Or(vow, y), vtok, z3.If(apos, B32(TOKNUM["'"]), B32(0)))))
    cls = tab_fn('ccls', {LET[c]: CCODE[morph.ccls(c)] for c in morph.CONS}, g['c1'], 0)
    n = {'c2': z3.If(cons, cls, z3.If(y, g['c2'], B32(0))),
         'c1': z3.If(cons, idx, z3.If(y, g['c1'], B32(0))),
         'l2': g['l1'], 'l1': lcode,
         'kind': z3.If(cons, B32(1), z3.If(y, B32(2), B32(0)))}
    fresh = z3.And(cons, g['c1'] == 0)       # consonant after a vowel, apostrophe or at the start
    pair = z3.And(cons, g['c1'] != 0)
    return tok, n, fresh, pair, up, cons

GH32 = dict(c2=0, c1=0, l2=1, l1=1, kind=0, q=0, up=0, inh=0, ini=1)
GH64 = ('n', 'q1', 'q2', 'k', 'kc', 'h3', 'h4')
GHB = ('q1', 'q2', 'h3', 'h4')
CLS = ['unknown', 'bad', 'cmavos', 'cmavos_cy', 'gismu', 'lujvo', 'cultural', 'fuivla3', 'fuivla3cvc',
       'fuivla3x', 'fuivla3xcvc', 'fuivla4', 'cmene']

class Proof:
    skip = None
    def __init__(self, prog, D, at, exp, at3=(1, 3), at4=(2, 4), mt=None):
        self.prog, self.D, self.at, self.exp, self.at3, self.at4, self.mt = prog, D, at, exp, at3, at4, mt
        self.N = len(D)
        self.head = None
        self.ranges = ranges(sorted(exp))

    def setup(self, word=None):
        """engine and initial state; word: concrete bytes (simulation) or None (arbitrary string)"""
        prog = self.prog
        e = Engine(prog, safety=word is None, timeout=60000)
        e.skip = self.skip
        e.const_globals |= statics(prog)
        st = State()
        if word is None:
            ln = z3.BitVec('len', 64)
            st.assume(z3.ULE(ln, 65535))
        else:
            ln = B64(len(word))
        s_o = e.new_obj(st, 's', ln + 1, const=True)
        starts = e.new_obj(st, 'starts', 8 * 131072)
        be = e.new_obj(st, 'buf_end', 8)
        xt = e.new_obj(st, 'xtra', 24)
        e.write(st, Ptr(be, 0), T('ptr', 64, to=None), Ptr(starts, 0))
        sa = e._mat(st.mem[s_o], 8, None)
        S = sa.arr
        if word is not None:
            for i, c in enumerate(word + b'\0'):
                sa.arr = z3.Store(sa.arr, B64(i), z3.BitVecVal(c, 8))
        e._setcell(st, st.mem[s_o], 8, sa)
        e._setcell(st, st.mem[starts], 'p', e._mat(st.mem[starts], 'p', None))
        D, N = self.D, self.N
        delta = z3.Function('delta', z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32))
        def dl(q, t):
            q, t = z3.simplify(bv(q, 32)), z3.simplify(bv(t, 32))
            if z3.is_bv_value(q) and z3.is_bv_value(t):
                a, b = q.as_signed_long(), t.as_long()
                return B32(D[a][b] if 0 <= a < N and b < 21 else -1)
            return delta(q, t)
        def next_state(eng, st, a, ts):
            q, t = bv(a[0], 32), bv(a[1], 32)
            eng.oblige(st, 'call of the DFA step: state and token in range', z3.And(q >= 0, q < N, t >= 0, t < 21), eng.where(st))
            r = dl(q, t)
            st.assume(z3.And(r >= -1, r < N))
            return [(st, concretize(z3.simplify(r), T('int', 32, True)))]
        e.contracts['morf_next_state'] = next_state
        cp = prog.typ(prog.sym['morf_scan::s']['type'])
        def bad_cmene(eng, st, a, ts):
            r = fresh_bv('isbad', 32)
            st.ghost['cmene_call'] = (a[0], r)
            vs = (fresh_bv('split', 32), Ptr(s_o, fresh_bv('ladoi', 64)), Ptr(s_o, fresh_bv('tail', 64)))
            st.ghost['cmene_out'] = vs
            for x, v, t in zip(a[1:], vs, (T('int', 32, True), cp, cp)):
                if not (isinstance(x.obj, int) and x.obj == 0):
                    eng.write(st, x, t, v)
            return [(st, r)]
        e.contracts['is_bad_cmene'] = bad_cmene
        for n, v in GH32.items():
            setG(st, n, B32(v))
        for n in GH64:
            setG(st, n, B64(0))
        for n in GHB:
            setG(st, 'has_' + n, z3.BoolVal(False))
        setG(st, 'A', st.mem[starts].cells['p'].arr[1])
        setG(st, 'Ao', st.mem[starts].cells['p'].arr[0])
        setG(st, 'i', B64(0))
        setG(st, 'AC', z3.K(BV64, B64(0)))
        self.e, self.s_o, self.starts, self.be, self.xt, self.ln, self.S, self.dl = e, s_o, starts, be, xt, ln, S, dl
        return e, st

    def byte(self, i):
        return z3.Select(self.S, i)

    def in_exp(self, q):
        return z3.Or(*[z3.And(q >= a, q <= b) for a, b in self.ranges])

    def inv(self, eng, h, entry):
        n, k, kc, q, ln = G(h, 'n'), G(h, 'k'), G(h, 'kc'), G(h, 'q'), self.ln
        g = lambda x: G(h, x)
        return [('position within string', z3.ULE(n, ln)),
                ('at most one word start per letter', z3.And(z3.ULE(k, n), z3.ULE(kc, n))),
                ('DFA state is valid', z3.And(q >= 0, q < self.N)),
                ('ghost context in range', z3.And(z3.ULE(g('c2'), 3), z3.Implies(g('c1') == 0, g('c2') == 0), z3.ULE(g('c1'), 31),
                     z3.Or(*[g('c1') == x for x in [0] + [LET[c] for c in morph.CONS]]),
                     z3.ULE(g('l1'), 7), z3.ULE(g('l2'), 7), g('l1') != 0, g('l2') != 0, z3.ULE(g('kind'), 2),
                     z3.ULE(g('up'), 1), z3.ULE(g('inh'), 1), z3.ULE(g('ini'), 1))),
                ('first letter is marked', z3.And((g('ini') == 1) == z3.Not(g('has_q1')), z3.Implies(g('ini') == 0, z3.UGE(k, 1)))),
                ('remembered letters precede', z3.And(z3.Implies(g('has_q1'), z3.ULT(g('q1'), n)),
                                                     z3.Implies(g('has_q2'), z3.And(g('has_q1'), z3.ULT(g('q2'), n))))),
                ]

    def cands(self, eng, h, entry):
        out = []
        prog, s_o, starts = self.prog, self.s_o, self.starts
        fid = h.frames[-1][0]
        for key, v in list(h.env.items()):
            if key[0] != fid or key[1] == '#ret':
                continue
            nm = key[1]
            t = prog.typ(prog.sym[nm]['type'])
            if t.k == 'int' and t.w == 32:
                b = bv(v, 32)
                for g in ('c2', 'c1', 'kind', 'q', 'up', 'inh', 'ini'):
                    out.append((nm + '==' + g, b == G(h, g), (key, G(h, g))))
                out.append((nm + '==1-ini', b == 1 - G(h, 'ini'), (key, 1 - G(h, 'ini'))))
                lets = (G(h, 'l2') << 3) | G(h, 'l1')
                out.append((nm + '&077==letters', b & B32(0o77) == lets))
                out.append((nm + ' two letters nonzero', z3.And(b & B32(0o70) != 0, b & B32(7) != 0)))
                out.append((nm + '<512', z3.ULT(b, 512)))
                out.append((nm + '==&starts[k]', b == z3.Extract(31, 0, G(h, 'k')), (key, z3.Extract(31, 0, G(h, 'k')))))
                out.append((nm + '==n', b == z3.Extract(31, 0, G(h, 'n')), (key, z3.Extract(31, 0, G(h, 'n')))))
            elif t.k == 'ptr' and isinstance(v, Ptr):
                if not isinstance(v.obj, int) or v.obj in (0, s_o):
                    is_s, is_0 = zb(oeq(v.obj, s_o)), zb(oeq(v.obj, 0))
                    for g in GHB:
                        has = G(h, 'has_' + g)
                        out.append((nm + '==' + g, z3.And(is_s == has, is_0 == z3.Not(has), z3.Implies(has, bv(v.off, 64) == G(h, g)))))
                    out.append((nm + '==n', b_and(oeq(v.obj, s_o), bv(v.off, 64) == G(h, 'n')), (key, Ptr(s_o, G(h, 'n')))))
                elif v.obj == starts:
                    out.append((nm + '==&starts[k]', bv(v.off, 64) == G(h, 'k') * 8, (key, Ptr(v.obj, G(h, 'k') * 8))))
                elif v.obj not in (self.be, self.xt):
                    out.append((nm + '==&cstart[kc]', bv(v.off, 64) == G(h, 'kc') * 8, (key, Ptr(v.obj, G(h, 'kc') * 8))))
        a = h.mem[starts].cells['p'].arr
        out.append(('starts[] holds the marked positions', z3.And(a[1] == G(h, 'A'), a[0] == G(h, 'Ao'))))
        j = z3.BitVec('jc', 64)
        for oid, o in h.mem.items():
            if o.name.endswith('cstart') and o.size == 65536 * 8:
                ce = o.cells.get('p')
                nm = 'cstart[] holds the Cy positions'
                if ce is not None and ce.arr is not None:
                    out.append((nm, z3.Implies(z3.ULT(j, G(h, 'kc')), z3.And(z3.Select(ce.arr[1], j * 8) == z3.Select(G(h, 'AC'), j * 8),
                                                                           z3.Select(ce.arr[0], j * 8) == s_o))))
                else:
                    out.append((nm, G(h, 'kc') == 0))
        return out

    def on_head(self, eng, h, entry):
        n, ln = G(h, 'n'), self.ln
        h.assume(z3.Implies(z3.ULT(n, ln), self.byte(n) != 0))
        h.assume(z3.Implies(n == ln, self.byte(n) == 0))
        # lemma (Level 2): the states reached are those of the product exploration
        h.assume(self.in_exp(G(h, 'q')))

    def cur(self, h, b=None):
        """the byte at the current position (a constant after a case split)"""
        c = h.ghost.get('letter')
        if c is None:
            return self.byte(G(h, 'n'))
        return z3.BitVecVal(c, 8) if isinstance(c, int) else c

    def step(self, eng, b, head, entry):
        g = {x: G(head, x) for x in list(GH32) + list(GH64) + ['has_' + x for x in GHB] + ['A', 'Ao', 'AC']}
        n = g['n']
        c = self.cur(b)
        tok, nx, fresh, pair, up, cons = spec_step(g, c)
        inh = g['inh'] | z3.If(pair, B32(1), B32(0))
        mark = z3.Or(z3.And(fresh, inh == 0), g['ini'] == 1)
        markc = z3.And(g['kind'] == 2, cons)
        atq = tab_fn(('at', id(self)), {i: v for i, v in enumerate(self.at)}, g['q'], 0)
        s3 = z3.Or(False, *[atq == v for v in self.at3])
        s4 = z3.Or(False, *[atq == v for v in self.at4])
        new = dict(nx)
        new.update(q=self.dl(g['q'], tok), up=g['up'] | z3.If(up, B32(1), B32(0)), inh=inh, ini=B32(0),
                   k=z3.If(mark, g['k'] + 1, g['k']), kc=z3.If(markc, g['kc'] + 1, g['kc']),
                   A=z3.If(mark, z3.Store(g['A'], g['k'] * 8, n), g['A']),
                   Ao=z3.If(mark, z3.Store(g['Ao'], g['k'] * 8, z3.IntVal(self.s_o)), g['Ao']),
                   AC=z3.If(markc, z3.Store(g['AC'], g['kc'] * 8, n), g['AC']),
                   h3=z3.If(s3, g['q2'], g['h3']), has_h3=z3.If(s3, g['has_q2'], g['has_h3']),
                   h4=z3.If(s4, g['q2'], g['h4']), has_h4=z3.If(s4, g['has_q2'], g['has_h4']),
                   q2=g['q1'], has_q2=g['has_q1'], q1=n, has_q1=z3.BoolVal(True))
        for x, v in new.items():
            setG(b, x, z3.simplify(z3.If(c == 44, g[x], v)))
        setG(b, 'n', z3.simplify(n + 1))
        b.assume(z3.Implies(z3.ULT(n, self.ln), z3.ULE(n + 1, self.ln)))

    LABELS = [chr(c) for c in range(97, 123)] + ["'", ',', 'other', 'end']

    def split(self, label):
        def f(eng, h):
            n = G(h, 'n')
            s = h.fork()
            c = self.byte(n)
            if label == 'end' or len(label) == 1:
                if label.isalpha() and label != 'end':      # lower or upper case
                    v = z3.Concat(z3.BitVecVal(1, 2), z3.BitVec(fresh_name('lower'), 1), z3.BitVecVal(ord(label) & 31, 5))
                else:
                    v = z3.BitVecVal(0 if label == 'end' else ord(label), 8)
                s.assume(c == v)
                o = s.mem[self.s_o]
                eng._setcell(s, o, 8, Cells(8, None, {}, z3.Store(o.cells[8].arr, n, v)))
                s.ghost['letter'] = v
            else:
                s.assume(z3.And(c != 0, c != 39, c != 44, z3.Not(z3.And(z3.UGE(c, 65), z3.ULE(c, 90))), z3.Not(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)))))
            return [s] if eng.feasible(s) else []
        return f

    # ---- concrete simulation: which candidates are worth trying
    def simulate(self, words):
        live = None
        self.frame0 = {}
        for w in words:
            e, st = self.setup(w)
            acc = []
            prev = [None]
            entry = [None]
            def hook(f, pc, s, fid):
                if f.name != 'morf_scan' or pc != f.heads[0]:
                    return
                if prev[0] is not None:
                    hd = State()
                    hd.env = prev[0]
                    i = z3.simplify(G(hd, 'n')).as_long()
                    s.ghost['letter'] = (w + b'\0')[i]
                    self.step(e, s, hd, None)
                    s.ghost.pop('letter')
                    for k in s.env:
                        if k[0] == 'g' and z3.is_expr(s.env[k]):
                            s.env[k] = z3.simplify(s.env[k])
                prev[0] = {k: v for k, v in s.env.items() if k[0] == 'g'}
                if entry[0] is None:
                    entry[0] = s.fork()
                else:
                    for key, x in e.changed(entry[0], s).items():
                        self.frame0[key] = e.havoc_mode(key, entry[0], None, x, self.frame0.get(key))
                acc.append({x[0] for x in self.cands(e, s, None) if x[1] is True or (not isinstance(x[1], bool) and z3.is_true(z3.simplify(x[1])))
                            or 'holds' in x[0]})
            e.head_hook = hook
            e.unroll = 2000
            e.prune = False
            e.max_paths = 50
            try:
                e.run_function(st, 'morf_scan', [Ptr(self.s_o, 0), Ptr(self.be, 0), Ptr(self.xt, 0)])
            except Unsupported:
                pass          # after the loop (symbolic is_bad_cmene result etc.): enough seen
            for a in acc:
                live = a if live is None else live & a
        return live

    # ---- proof for one letter class
    def run(self, label, live, frame=None, verbose=False):
        e, st = self.setup()
        spec = LoopSpec(self.inv, self.cands, self.on_head, None, self.step, 'letter loop [%s]' % label,
                        split=self.split(label), live=live, frame=dict(frame or {}))
        self.spec = spec
        e.verbose = verbose
        cy = self.cy_loop()
        def loop_for(f, pc):
            if f.name == 'morf_scan':
                i = f.heads.index(pc)
                if i == 0:
                    return spec
                if i == 1:
                    return cy
            return None
        e.loop_for = loop_for
        res = e.run_function(st, 'morf_scan', [Ptr(self.s_o, 0), Ptr(self.be, 0), Ptr(self.xt, 0)])
        for s, r in res:
            self.post(e, s, r)
        return e, res

    def cy_loop(self):
        """appending the starts of trailing Cy letters to the list of word starts"""
        j = z3.BitVec('jl', 64)
        def cands(eng, h, entry):
            out = []
            i = G(h, 'i')
            for key, v in list(h.env.items()):
                if key[0] == h.frames[-1][0] and isinstance(v, Ptr) and isinstance(v.obj, int):
                    if v.obj == self.starts:
                        out.append((key[1] + '==&starts[k+i]', bv(v.off, 64) == (G(h, 'k') + i) * 8, (key, Ptr(v.obj, (G(h, 'k') + i) * 8))))
                    elif eng.names.get(v.obj, '').endswith('cstart'):
                        out.append((key[1] + '==&cstart[i]', bv(v.off, 64) == i * 8, (key, Ptr(v.obj, i * 8))))
            a = h.mem[self.starts].cells['p'].arr
            k = G(h, 'k')
            out.append(('prefix of the list kept', z3.Implies(z3.ULT(j, k), z3.Select(a[1], j * 8) == z3.Select(G(h, 'A'), j * 8))))
            out.append(('Cy starts appended', z3.Implies(z3.And(z3.UGE(j, k), z3.ULT(j, k + i)),
                        z3.Select(a[1], j * 8) == z3.Select(G(h, 'AC'), (j - k) * 8))))
            return out
        def inv(eng, h, entry):
            return [('copied at most all', z3.ULE(G(h, 'i'), G(h, 'kc')))]
        def step(eng, b, head, entry):
            setG(b, 'i', G(head, 'i') + 1)
        def on_head(eng, h, entry):
            # the Cy-position invariant of the letter loop holds for every index: instance i
            i = G(h, 'i')
            for oid, o in h.mem.items():
                if o.name.endswith('cstart'):
                    ce = o.cells.get('p')
                    if ce is not None and ce.arr is not None and self.cy_inv:
                        h.assume(z3.Implies(z3.ULT(i, G(h, 'kc')), z3.And(z3.Select(ce.arr[1], i * 8) == z3.Select(G(h, 'AC'), i * 8),
                                                                        z3.Select(ce.arr[0], i * 8) == self.s_o)))
        spec = LoopSpec(inv, cands, on_head, None, step, 'append Cy starts')
        return spec

    cy_inv = True

    def post(self, e, s, r):
        prog, mt = self.prog, self.mt
        if isinstance(r, tuple):
            e.oblige(s, 'P01: the scanner does not stop the program', False, 'morf_scan')
            return
        rv = bv(r, 32)
        g = {x: G(s, x) for x in list(GH32) + list(GH64) + ['has_' + x for x in GHB]}
        n, ln = g['n'], self.ln
        c = self.cur(s)
        at_end = n == ln
        tok, nx, fresh, pair, up, cons = spec_step(g, c)
        nq = self.dl(g['q'], tok)
        e.oblige(s, 'P01: scanning stops early only where no word can continue', z3.Or(at_end, z3.And(c != 44, nq < 0)), 'morf_scan exit')
        e.oblige(s, 'P01: a form in which no word can continue is reported invalid', z3.Or(at_end, rv == mt['MT_BOGUS']), 'morf_scan exit')
        cl = tab_fn(('cls', id(self)), {q: CLS.index(x[0]) for q, x in self.exp.items()}, g['q'], 0)
        fl = tab_fn(('flg', id(self)), {q: x[1] for q, x in self.exp.items()}, g['q'], 0)
        cult = bv(e.read(s, Ptr(e.global_obj(s, 'allow_cultural_rafsi'), 0), T('int', 32, True)), 32)
        names = dict(cmavos='MT_CMAVOS', cmavos_cy='MT_CMAVOS', gismu='MT_GISMU', lujvo='MT_LUJVO', fuivla3='MT_FUIVLA3',
                     fuivla3cvc='MT_FUIVLA3_CVC', fuivla3x='MT_FUIVLA3X', fuivla3xcvc='MT_FUIVLA3X_CVC', fuivla4='MT_FUIVLA4')
        exp = {'unknown': B32(mt['MT_BOGUS']), 'bad': B32(mt['MT_BOGUS']), 'cmene': B32(mt['MT_CMENE'])}
        for x, m in names.items():
            exp[x] = z3.If(g['up'] == 1, B32(mt['MT_BAD_UPPERCASE']), B32(mt[m]))
        exp['cultural'] = z3.If(g['up'] == 1, B32(mt['MT_BAD_UPPERCASE']), z3.If(cult != 0, B32(mt['MT_LUJVO']), B32(mt['MT_BOGUS'])))
        s.assume(at_end)
        e.oblige_all(s, [('P01: every %s form is reported as such' % x, z3.Implies(cl == i, rv == exp[x])) for i, x in enumerate(CLS)], 'morf_scan exit')
        # P02
        end = e.read(s, Ptr(self.be, 0), T('ptr', 64, to=None))
        brivla = z3.Or(*[cl == CLS.index(x) for x in ('gismu', 'lujvo', 'cultural', 'fuivla3', 'fuivla3cvc', 'fuivla3x', 'fuivla3xcvc', 'fuivla4', 'bad')])
        K = z3.If(cl == CLS.index('cmene'), B64(1), z3.If(cl == CLS.index('cmavos_cy'), g['k'] + g['kc'],
              z3.If(brivla, g['k'] - z3.ZeroExt(32, fl), g['k'])))
        e.oblige(s, 'P02: number of words found', z3.Implies(cl != 0, z3.And(zb(oeq(end.obj, self.starts)), bv(end.off, 64) == K * 8 - 8)), 'morf_scan exit')
        a = s.mem[self.starts].cells['p'].arr
        j = z3.BitVec('jl', 64)
        e.oblige(s, 'P02: start position of every word', z3.Implies(z3.And(cl != 0, z3.ULT(j, K)),
                 z3.Select(a[1], j * 8) == z3.If(z3.And(cl == CLS.index('cmavos_cy'), z3.UGE(j, g['k'])),
                                                 z3.Select(G(s, 'AC'), (j - g['k']) * 8), z3.Select(G(s, 'A'), j * 8))), 'morf_scan exit')
        hy = e.read(s, Ptr(self.xt, 0), prog.typ(prog.sym['morf_scan::s']['type']))
        for gh, cs in (('h4', ('fuivla3', 'fuivla3x')), ('h3', ('fuivla3cvc', 'fuivla3xcvc'))):
            cc = z3.Or(*[cl == CLS.index(x) for x in cs])
            e.oblige(s, 'P02: hyphen position of %s' % '/'.join(cs), z3.Implies(z3.And(cc, g['has_' + gh]),
                     b_and(oeq(hy.obj, self.s_o), bv(hy.off, 64) == g[gh])), 'morf_scan exit')
        cm = s.ghost.get('cmene_call')
        isc = cl == CLS.index('cmene')
        if cm is None:
            e.oblige(s, 'P03: every cmene form is checked for la/lai/doi', z3.Not(isc), 'morf_scan exit')
        else:
            bad = e.read(s, Ptr(self.xt, 0), T('int', 32, True))
            sp = e.read(s, Ptr(self.xt, 4), T('int', 32, True))
            cp = prog.typ(prog.sym['morf_scan::s']['type'])
            ld, tl = e.read(s, Ptr(self.xt, 8), cp), e.read(s, Ptr(self.xt, 16), cp)
            v = s.ghost['cmene_out']
            e.oblige(s, 'P03: the cmene verdict is passed on', z3.Implies(isc, b_and(oeq(cm[0].obj, self.s_o), bv(cm[0].off, 64) == 0,
                     (bv(bad, 32) != 0) == (cm[1] != 0), (bv(sp, 32) != 0) == (v[0] != 0), peq(ld, v[1]), peq(tl, v[2]))), 'morf_scan exit')

def ranges(xs):
    out = []
    for x in xs:
        if out and x == out[-1][1] + 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out

SAMPLES = [b'broda', b'lenubroda', b"coi,do'i", b'bycydy', b"Brodycpaka", b'spaghetti', b'djan', b"la'indjan", b'tricrkapu', b'djarspageti', b"ckikycu'a", b'babrbabra', b'balrbroda']

def mtypes():
    return tree.cenum('morf.h', ('MT_BOGUS MT_GISMU MT_LUJVO MT_FUIVLA3 MT_FUIVLA3_CVC MT_FUIVLA3X MT_FUIVLA3X_CVC MT_FUIVLA4 '
                                'MT_CMAVOS MT_CMENE MT_BAD_UPPERCASE').split())

def prove(prog, D, at, exp, jobs=8, prefixes=None):
    """all letter classes in parallel, repeated until the candidate invariant is stable"""
    P = Proof(prog, D, at, exp, mt=mtypes())
    live = P.simulate(SAMPLES)
    if prefixes:
        P.skip = lambda n: n.startswith('P0') and n[:3] not in prefixes
    frame = dict(P.frame0)     # a first guess of the loop's frame; every class is then checked against the common frame
    first = True
    while True:
        def one(label):
            e, res = P.run(label, live, frame)
            return dict(lost=sorted(e.lost), frame=P.spec.frame, obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for o in e.obls],
                        stats=e.stats, paths=len(res), inlined=sorted(e.inlined), models=sorted(e.used_models))
        # the first turn looks at a small class only, for the variables the loop assigns
        order = [',', 'a', 'h'] if first else sorted(P.LABELS, key=lambda l: l in 'aeiouyhqw\',')
        first = False
        out = par.pmap(one, order, jobs)
        lost = set()
        nf = dict(frame)
        for o in out:
            if 'error' not in o:
                lost |= set(o['lost'])
                nf.update({k: v for k, v in o['frame'].items() if frame.get(k) != v})
        if len(order) == len(P.LABELS) and not lost and nf == frame:
            return live, out
        live = live - lost
        frame = nf

if __name__ == '__main__':
    from checks import morf_l2
    t = time.time()
    p = load()
    D, ev, at, bad, n = dfa_tables(p)
    exp, b = morf_l2.Product(D).expected()
    print('dfa', time.time() - t)
    if len(sys.argv) > 1:
        P = Proof(p, D, at, exp, mt=mtypes())
        live = P.simulate(SAMPLES)
        print('sim', time.time() - t, sorted(live))
        for l in sys.argv[1:]:
            e, res = P.run(l, live, verbose=True)
            print(l, time.time() - t, len(res), e.summary()[:2], [(o.name, o.where, o.status) for o in e.summary()[2]][:10], e.stats, e.lost)
    else:
        live, out = prove(p, D, at, exp)
        print(time.time() - t, sorted(live))
        for o in out:
            print(o.get('error') or (o['label'], len(o['obls']), [x[:3] for x in o['obls'] if x[2] != 'proved'][:5], o['paths']))
