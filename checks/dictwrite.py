"""Contracts of the dictionary builder: adding entries, ordering, keeping the last definition of each key, writing the image."""
import os, sys, time, z3
from engine.gotovc import *
from engine import tree, par
from checks.scan import B32, B64, I32, gread, gwrite, simp_
from checks.cmavo import e_add, fld
from checks import strs
from checks.dictread import ints, gptr_read, gptr_write

P = 'builder: '
BITS = 27
A64 = lambda nm, w=64: z3.Array(nm, z3.BitVecSort(64), z3.BitVecSort(w))
idx = lambda nm: z3.ZeroExt(64 - BITS, z3.BitVec(nm, BITS))

def load():
    tree.make('version.h', 'canonluj.inc')
    return Program(tree.goto(['smujajgau.c'], 'builder'))

def to(prog, t):
    return t.to if isinstance(t.to, T) else prog.typ(t.to)

class Measure:
    """termination of a loop: one index moves strictly in one direction, within its range, on every way round"""
    def __init__(self, n, what):
        self.n, self.what, self.ok = n, what, None
    def back(self, eng, b, head):
        hs = {nm: x for nm, x, _, _ in ints(eng, head)}
        ok = set()
        for nm, x, _, _ in ints(eng, b):
            if nm not in hs or x.eq(hs[nm]):
                continue
            for d, c in (('down', z3.And(x < hs[nm], hs[nm] >= -1)), ('up', z3.And(x > hs[nm], hs[nm] <= self.n))):
                if (self.ok is None or (nm, d) in self.ok) and eng.check(list(b.pc) + [z3.Not(c)], 10000)[0] == z3.unsat:
                    ok.add((nm, d))
        self.ok = ok
        eng.oblige(b, P + 'the loop advances on every way round (it ends): ' + self.what, bool(ok), self.what)

class Pool:
    """the entries: an array of n pointers to distinct records"""
    def __init__(self, prog):
        self.prog = prog
        self.T = to(prog, to(prog, prog.typ(prog.sym['transac']['type'])))
        self.es = prog.sizeof(self.T)
        self.f = {n: fld(prog, self.T, n) for n in ('action', 'key', 'val', 'ord')}
        en = tree.cenum('smujajgau.c', ['DEFINE', 'ERASE'], extra='\n#define main smujajgau_main\n') if False else None
        self.PT = prog.typ(prog.sym['transac']['type'])
    def setup(self, e):
        st = State()
        self.n = n = idx('n')
        self.kap = kap = idx('kappa')
        st.assume(z3.ULT(kap, n))
        self.Q = A64('record.of')         # index -> record number
        self.ACT, self.KEY, self.VAL = A64('action', 32), A64('key'), A64('val')
        self.RANK = A64('byte.order')     # key address -> position in byte order
        self.recs = e.new_obj(st, 'records', n * self.es)
        self.tab = e.new_obj(st, 'table', n * 8)
        P_ = z3.Array('table.f', z3.BitVecSort(64), z3.BitVecSort(64))
        self.Pf = P_
        e._setcell(st, st.mem[self.tab], 'p', Cells('p', None, {}, (z3.K(z3.BitVecSort(64), z3.IntVal(self.recs)), P_)))
        e.pobj[self.tab] = self.recs
        self.strs = e.new_obj(st, 'strings', z3.BitVec('strings.size', 64), const=True)
        W32 = z3.Array('records.w', z3.BitVecSort(64), z3.BitVecSort(32))
        KF = z3.Array('records.f', z3.BitVecSort(64), z3.BitVecSort(64))
        self.W32, self.KF = W32, KF
        e._setcell(st, st.mem[self.recs], 32, Cells(32, None, {}, W32))
        e._setcell(st, st.mem[self.recs], 'p', Cells('p', None, {}, (z3.K(z3.BitVecSort(64), z3.IntVal(self.strs)), KF)))
        gptr_write(e, st, 'transac', Ptr(self.tab, 0))
        gwrite(e, st, 'transord', z3.Extract(31, 0, n))
        return st
    def rec(self, i):
        """offset of the i-th record (initial table)"""
        return z3.Select(self.Pf, i * 8)
    def inst(self, s, *ii):
        """the table addresses distinct records; records are whole"""
        for a in ii:
            s.assume(z3.Implies(z3.ULT(a, self.n), z3.ULE(self.rec(a), self.n * self.es - self.es)))
            for b in ii:
                if a is not b:
                    s.assume(z3.Implies(z3.And(z3.ULT(a, self.n), z3.ULT(b, self.n), self.rec(a) == self.rec(b)), a == b))
    def action0(self, i):
        return z3.Select(self.W32, self.rec(i) + self.f['action'][0])
    def action(self, e, s, i):
        sf, e.safety = e.safety, False
        try:
            return bv(e.read(s, Ptr(self.recs, self.rec(i) + self.f['action'][0]), self.f['action'][1]), 32)
        finally:
            e.safety = sf
    def rank(self, i):
        return z3.Select(self.RANK, z3.Select(self.KF, self.rec(i) + self.f['key'][0]))

def narrow(s, g):
    """a freshly havoced ghost index is below 2^BITS (by the index invariant)"""
    x = G(s, g)
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        setG(s, g, idx(fresh_name('index')))

def narrow_ints(eng, s):
    pass

def strcmp_rank(pool):
    def strcmp(eng, s, a, ts):
        x, y = (eng._resolve(s, p) for p in a)
        w = eng.where(s)
        eng.oblige(s, P + 'only keys are compared', b_and(oi(x.obj) == pool.strs, oi(y.obj) == pool.strs), w)
        r = fresh_bv('cmp', 32)
        a_, b_ = z3.Select(pool.RANK, bv(x.off, 64)), z3.Select(pool.RANK, bv(y.off, 64))
        s.assume(z3.And((r == 0) == (a_ == b_), (r < 0) == z3.ULT(a_, b_), r != z3.BitVecVal(1 << 31, 32)))
        return [(s, r)]
    return strcmp

def rationalise(prog, DEF, ERA):
    e = Engine(prog)
    pool = Pool(prog)
    st = pool.setup(e)
    n, kap = pool.n, pool.kap
    e.contracts['strcmp'] = strcmp_rank(pool)
    e.cand_timeout = 30000
    kap1 = kap + 1
    pool.inst(st, kap, kap1)
    st.assume(z3.Or(pool.action0(kap) == DEF, pool.action0(kap) == ERA))
    last = z3.Or(kap1 == n, pool.rank(kap1) != pool.rank(kap))
    final = z3.If(last, pool.action0(kap), B32(ERA))
    S = lambda x, w: x
    def idxs(eng, s):
        return [(nm, x, key, w) for nm, x, key, w in ints(eng, s)]
    def grounds(eng, s):
        return [('n', n)] + [(nm, x) for nm, x, key, w in idxs(eng, s)]
    def inst_all(eng, s):
        for nm, x, key, w in idxs(eng, s):
            for d in (x, x + 1, x - 1):
                pool.inst(s, d, kap)
    def kind(f, pc):
        heads = f.heads
        bodies = {h: f.loop_body(h) for h in heads}
        outer = all(h == pc or h in bodies[pc] for h in heads)
        b = bodies[pc]
        writes = any(f.ins[i]['instructionId'] == 'ASSIGN' and f.ins[i]['code']['sub'][0]['id'] == 'member' for i in b)
        return 'outer' if outer else 'mark' if writes else 'find'
    def loops(f, pc):
        if f.name != 'rationalise_transactions':
            return None
        k = kind(f, pc)
        def inv(eng, s, entry):
            return []
        def cands(eng, s, entry):
            out = []
            I = idxs(eng, s)
            act = pool.action(eng, s, kap)
            act_e = pool.action(eng, entry, kap)
            for nm, x, key, w in I:
                out += [('-1<=' + nm, x >= -1), (nm + '<n', x < n), (nm + '>=0', x >= 0), (nm + '<=n', x <= n)]
                if k == 'outer':
                    out.append(('group ends at ' + nm, z3.Or(x == n - 1, x < 0, pool.rank(x) != pool.rank(x + 1))))
                    out.append(('done above ' + nm, act == z3.If(kap > x, final, pool.action0(kap))))
                for nm2, y, _, _ in I:
                    if nm == nm2 or k == 'outer':
                        continue
                    out += [('%s<%s' % (nm, nm2), x < y), ('%s<=%s' % (nm, nm2), x <= y), ('%s<=%s+1' % (nm, nm2), x <= y + 1)]
                    if k == 'find':
                        out.append(('one key: %s+1,%s' % (nm, nm2), pool.rank(x + 1) == pool.rank(y)))
                        for q in (kap, kap1):
                            qn = 'k' if q is kap else 'k+1'
                            out.append(('one key: %s in (%s,%s]' % (qn, nm, nm2), z3.Implies(z3.And(q > x, q <= y), pool.rank(q) == pool.rank(y))))
                            out.append(('one key: %s in [%s,%s]' % (qn, nm, nm2), z3.Implies(z3.And(q >= x, q <= y), pool.rank(q) == pool.rank(y))))
                    else:
                        out.append(('erased in [%s,%s)' % (nm, nm2), act == z3.If(z3.And(kap >= x, kap < y), B32(ERA), act_e)))
                        out.append(('erased in (%s,%s]' % (nm, nm2), act == z3.If(z3.And(kap > x, kap <= y), B32(ERA), act_e)))
            return out
        def on_head(eng, h, entry):
            inst_all(eng, h)
        ms = Measure(n, 'keep the last definition: ' + k)
        def on_back(eng, b, head, entry):
            ms.back(eng, b, head)
        return LoopSpec(inv, cands, on_head, on_back, None, P + 'keep the last definition: ' + k)
    e.loop_for = loops
    e.verbose = '-v' in sys.argv
    res = e.run_function(st, 'rationalise_transactions', [])
    for s, r in res:
        e.oblige(s, P + 'a definition is kept exactly if it is the last entry for its key', pool.action(e, s, kap) == final, 'rationalise_transactions exit')
        e.oblige(s, P + 'the entries stay in their places', peq(e.read(s, Ptr(pool.tab, kap * 8), to(prog, pool.PT)), Ptr(pool.recs, pool.rec(kap))), 'rationalise_transactions exit')
    e.oblige(State(), 'vacuity: the pass can end', len(res) > 0, 'rationalise_transactions')
    return e

def compress(prog, DEF, ERA):
    """definitions move up in order, without gaps; C(i) = number of definitions among the first i entries"""
    e = Engine(prog)
    pool = Pool(prog)
    st = pool.setup(e)
    n, kap = pool.n, pool.kap
    e.cand_timeout = 30000
    CNT = A64('definitions.before')
    lam = idx('lambda')
    PT = to(prog, pool.PT)
    rd = lambda s, o: (lambda r: (setattr(e, 'safety', True), r)[1])((setattr(e, 'safety', False), e.read(s, Ptr(pool.tab, o), PT))[1])
    isdef = lambda i: pool.action0(i) == DEF
    def inst(s, i):
        pool.inst(s, i)
        s.assume(z3.Implies(z3.ULT(i, n), z3.Select(CNT, i + 1) == z3.Select(CNT, i) + z3.If(isdef(i), B64(1), B64(0))))
        s.assume(z3.ULE(z3.Select(CNT, i), i))
    st.assume(z3.Select(CNT, B64(0)) == 0)
    inst(st, kap)
    def loops(f, pc):
        if f.name != 'compress_transactions':
            return None
        setters = []
        def inv(eng, s, entry):
            if ('g', 'j') not in s.env:
                setG(s, 'j', B64(0))
            narrow(s, 'j')
            return [('index within the table', z3.ULE(G(s, 'j'), n))]
        def cands(eng, s, entry):
            out = []
            j = G(s, 'j')
            c = z3.Select(CNT, j)
            for nm, x, key, w in ints(eng, s):
                ex = (lambda v: v) if w == 64 else (lambda v: z3.Extract(31, 0, v))
                out.append((nm + '==j', x == j, (key, ex(j))))
                out.append((nm + '==count', x == c, (key, ex(c))))
            out.append(('not yet read part', z3.Implies(z3.UGE(lam, j), peq(rd(s, lam * 8), Ptr(pool.recs, pool.rec(lam))))))
            out.append(('kept entry moved', z3.Implies(z3.And(z3.ULT(kap, j), isdef(kap)), z3.And(peq(rd(s, z3.Select(CNT, kap) * 8), Ptr(pool.recs, pool.rec(kap))), z3.ULT(z3.Select(CNT, kap), c)))))
            return out
        def on_head(eng, h, entry):
            j = G(h, 'j')
            inst(h, j)
            if h.ghost.get('unread'):
                pass
            # "not yet read part" holds for every lambda: its instance at j
            h.assume(z3.Implies(LIVE['v'] and z3.ULT(j, n), peq(rd(h, j * 8), Ptr(pool.recs, pool.rec(j)))) if LIVE['v'] else z3.BoolVal(True))
        def step(eng, b, head, entry):
            setG(b, 'j', simp_(G(head, 'j') + 1))
        ms = Measure(n, 'drop superseded entries')
        return LoopSpec(inv, cands, on_head, lambda eng, b, head, entry: ms.back(eng, b, head), step, P + 'drop superseded entries')
    LIVE = dict(v=True)
    e.loop_for = loops
    e.verbose = '-v' in sys.argv
    res = e.run_function(st, 'compress_transactions', [])
    # the instance at j was used: the candidate must have survived
    e.oblige(State(), P + 'the part not yet read is unchanged', 'not yet read part' not in e.lost, 'compress_transactions')
    for s, r in res:
        c = z3.Select(CNT, n)
        e.oblige(s, P + 'as many entries remain as there are definitions', bv(gread(e, s, 'transord'), 32) == z3.Extract(31, 0, c), 'compress_transactions exit')
        e.oblige(s, P + 'every definition remains, in order', z3.Implies(isdef(kap), peq(rd(s, z3.Select(CNT, kap) * 8), Ptr(pool.recs, pool.rec(kap)))), 'compress_transactions exit')
    e.oblige(State(), 'vacuity: the pass can end', len(res) > 0, 'compress_transactions')
    return e

def comparison(prog):
    """the sort order: by key, then by time of entry"""
    e = Engine(prog)
    pool = Pool(prog)
    st = pool.setup(e)
    e.contracts['strcmp'] = strcmp_rank(pool)
    i, j = idx('i'), idx('j')
    pool.inst(st, i, j)
    st.assume(z3.And(z3.ULT(i, pool.n), z3.ULT(j, pool.n)))
    res = e.run_function(st, 'sort_comparison', [Ptr(pool.tab, i * 8), Ptr(pool.tab, j * 8)])
    o = lambda k: z3.Select(pool.W32, pool.rec(k) + pool.f['ord'][0])
    for s, r in res:
        r = bv(r, 32)
        a, b = pool.rank(i), pool.rank(j)
        e.oblige(s, P + 'entries are ordered by key, then by time of entry', z3.And((r < 0) == z3.Or(z3.ULT(a, b), z3.And(a == b, o(i) < o(j))), (r == 0) == z3.And(a == b, o(i) == o(j))), 'sort_comparison')
    e.oblige(State(), 'vacuity: comparison returns', len(res) > 0, 'sort_comparison')
    return e

def sorting(prog):
    e = Engine(prog)
    pool = Pool(prog)
    st = pool.setup(e)
    got = []
    def qsort(eng, s, a, ts):
        got.append(1)
        p = eng._resolve(s, a[0])
        fn = a[3]
        eng.oblige(s, P + 'all entries are sorted, as pointers', z3.And(zb(peq(p, Ptr(pool.tab, 0))), bv(a[1], 64) == pool.n, bv(a[2], 64) == 8), eng.where(s))
        eng.oblige(s, P + 'they are sorted with the order of keys and time', 'sort_comparison' in str(getattr(fn, 'obj', fn)) or 'sort_comparison' in str(fn) or fn_name(eng, s, fn) == 'sort_comparison', eng.where(s))
        return [(s, None)]
    e.contracts['qsort'] = qsort
    res = e.run_function(st, 'sort_array', [])
    e.oblige(State(), P + 'the entries are sorted', len(got) > 0 and len(res) > 0, 'sort_array')
    return e

def fn_name(eng, s, p):
    try:
        return eng.obj(s, p.obj).name
    except Exception:
        return None

def writer(prog, DEF, ERA):
    """the image: count, two lengths per entry, then every key and text with its final NUL"""
    e = Engine(prog)
    pool = Pool(prog)
    st = pool.setup(e)
    n = pool.n
    LEN = A64('string.length')
    e.cand_timeout = 30000
    setG(st, 'i', B64(0))
    st.ghost['phase'] = 0
    off = lambda s, i, f: z3.Select(pool.KF, pool.rec(i) + pool.f[f][0])
    f_ = e.new_obj(st, 'FILE', 216)
    W = lambda eng, s: eng.where(s)
    def lens(s, i):
        for f in ('key', 'val'):
            s.assume(z3.Implies(z3.ULT(i, n), z3.ULE(z3.Select(LEN, off(s, i, f)), 255)))
    def putc(eng, s, a, ts):
        ph = s.ghost['phase']
        v = bv(a[0], 32)
        w = W(eng, s)
        if ph < 4:
            x = z3.Extract(31, 0, n)
            eng.oblige(s, P + 'the image starts with the number of entries', (v & 255) == z3.ZeroExt(24, z3.Extract(31 - 8 * ph, 24 - 8 * ph, x)), w)
            s.ghost['phase'] = ph + 1
        elif ph in (4, 5):
            i = G(s, 'i')
            eng.oblige(s, P + 'the lengths of the entries follow, in order', z3.And(z3.ULT(i, n), z3.ZeroExt(32, v & 255) == z3.Select(LEN, off(s, i, 'key' if ph == 4 else 'val'))), w)
            if ph == 5:
                setG(s, 'i', simp_(i + 1))
            s.ghost['phase'] = 9 - ph
        else:
            eng.oblige(s, P + 'nothing else is written', False, w)
        return [(s, a[0])]
    def fwrite(eng, s, a, ts):
        ph = s.ghost['phase']
        w = W(eng, s)
        p = eng._resolve(s, a[0])
        if ph == 4:
            eng.oblige(s, P + 'all lengths are written before the first key', G(s, 'i') == n, w)
            setG(s, 'k', B64(0)) if ('g', 'k') not in s.env else None
            s.ghost['phase'] = ph = 6
        if ph not in (6, 7):
            eng.oblige(s, P + 'keys and texts are written after the lengths', False, w)
            return [(s, 0)]
        k = G(s, 'k')
        fld_ = 'key' if ph == 6 else 'val'
        ln = bv(a[1], 64) * bv(a[2], 64)
        eng.oblige(s, P + 'every key and text is written, in order', b_and(z3.ULT(k, n), peq(p, Ptr(pool.strs, off(s, k, fld_)))), w)
        eng.oblige(s, P + 'completely, with its final NUL', ln == z3.Select(LEN, off(s, k, fld_)) + 1, w)
        if ph == 7:
            setG(s, 'k', simp_(k + 1))
        s.ghost['phase'] = 13 - ph
        return [(s, a[2])]
    def strlen(eng, s, a, ts):
        p = eng._resolve(s, a[0])
        eng.oblige(s, P + 'lengths of keys and texts', oi(p.obj) == pool.strs, W(eng, s))
        return [(s, z3.Select(LEN, bv(p.off, 64)))]
    e.contracts.update(putc=putc, fputc=putc, _IO_putc=putc, fwrite=fwrite, strlen=strlen)
    def loops(f, pc):
        if f.name != 'write_database':
            return None
        # which of the two loops: decided by what has been written when it is reached
        def g(s):
            return 'k' if s.ghost.get('second') else 'i'
        def inv(eng, s, entry):
            if s is entry and s.ghost['phase'] == 4 and not s.ghost.get('first'):
                s.ghost['first'] = True
            elif s is entry and s.ghost['phase'] == 4:
                s.ghost['second'] = True
                setG(s, 'k', B64(0))
                eng.oblige(s, P + 'all lengths are written before the first key', G(s, 'i') == n, 'write_database')
                s.ghost['phase'] = 6
            x = g(entry)
            narrow(s, x)
            return [('index within the table', z3.ULE(G(s, x), n))]
        def cands(eng, s, entry):
            out = []
            i = G(s, g(entry))
            for nm, x, key, w in ints(eng, s):
                ex = i if w == 64 else z3.Extract(31, 0, i)
                out.append((nm + '==i', x == i, (key, ex)))
            return out
        def on_head(eng, h, entry):
            i = G(h, g(entry))
            pool.inst(h, i)
            lens(h, i)
        def on_back(eng, b, head, entry):
            x = g(entry)
            eng.oblige(b, P + 'each turn writes one entry (the writer ends)', z3.And(G(b, x) == G(head, x) + 1, b.ghost['phase'] == head.ghost['phase']), 'write_database')
        return LoopSpec(inv, cands, on_head, on_back, None, P + 'write the image')
    e.loop_for = loops
    e.verbose = '-v' in sys.argv
    res = e.run_function(st, 'write_database', [Ptr(f_, 0)])
    for s, r in res:
        if isinstance(r, tuple) and r and r[0] == 'exit':
            e.oblige(s, P + 'writing an image of entries of accepted length does not fail', False, 'write_database')
            continue
        k = G(s, 'k') if ('g', 'k') in s.env else None
        e.oblige(s, P + 'the whole image is written', z3.And(G(s, 'i') == n, k == n) if k is not None else False, 'write_database exit')
    e.oblige(State(), 'vacuity: writing can end', len(res) > 0, 'write_database')
    return e

ALPHA = set(range(65, 91)) | set(range(97, 123))
def isin(b, S):
    S = sorted(S)
    out, i = [], 0
    while i < len(S):
        j = i
        while j + 1 < len(S) and S[j + 1] == S[j] + 1:
            j += 1
        out.append(z3.And(z3.UGE(b, S[i]), z3.ULE(b, S[j])))
        i = j + 1
    return z3.Or(*out)

def adding(prog, D, E_):
    """add_defn and add_deletion put one entry, the newest, at the front of the list"""
    es = []
    for fn, act in (('add_defn', D), ('add_deletion', E_)):
        e = Engine(prog)
        st = State()
        tx = strs.Texts(e)
        key, val = tx.source(st, 'key'), tx.source(st, 'val')
        ord0 = gread(e, st, 'transord')
        links0 = Ptr(e.new_obj(st, 'older entries', 16), 0)
        gptr_write(e, st, 'links', links0)
        res = e.run_function(st, fn, [key, val][:1 if act == E_ else 2])
        LT = to(prog, prog.typ(prog.sym['links']['type']))
        TT = to(prog, to(prog, prog.typ(prog.sym['transac']['type'])))
        short = z3.And(z3.ULE(tx.lens['key'], 255), z3.ULE(tx.lens['val'], 255))
        for s, r in res:
            w = fn
            if isinstance(r, tuple) and r and r[0] == 'exit':
                e.oblige(s, P + 'an entry is refused only if its key or text is longer than 255', z3.BoolVal(False) if act == E_ else z3.Not(short), w)
                continue
            def get(p, T_, f):
                o, t = fld(prog, T_, f)
                return e.read(s, Ptr(p.obj, e_add(p.off, o)), t)
            l = gptr_read(e, s, 'links')
            e.oblige(s, P + 'keys and texts longer than 255 are refused', short if act == D else z3.BoolVal(True), w)
            ok = isinstance(l.obj, int) and e.obj(s, l.obj).name == 'heap'
            e.oblige(s, P + 'a new entry is put in front', ok, w)
            if not ok:
                continue
            e.oblige(s, P + 'the older entries stay behind it', peq(get(l, LT, 'next'), links0), w)
            t = get(l, LT, 'trans')
            e.oblige(s, P + 'the entry keeps its action', bv(get(t, TT, 'action'), 32) == act, w)
            e.oblige(s, P + 'the entry keeps its key', tx.same(tx.text(s, get(t, TT, 'key')), (('sym', 'key'),)), w)
            if act == D:
                e.oblige(s, P + 'the entry keeps its text', tx.same(tx.text(s, get(t, TT, 'val')), (('sym', 'val'),)), w)
            e.oblige(s, P + 'entries are numbered in the order they are added', z3.And(bv(get(t, TT, 'ord'), 32) == bv(ord0, 32), bv(gread(e, s, 'transord'), 32) == bv(ord0, 32) + 1), w)
        e.oblige(State(), 'vacuity: entries can be added', any(not isinstance(r, tuple) for s, r in res), fn)
        e.inlined.add(fn)
        es.append(e)
    es[0].obls += es[1].obls
    es[0].inlined |= es[1].inlined
    return es[0]

def sourced(e, tx, prog):
    ev = lambda s: s.ghost.get('events', ())
    def log(kind, n):
        def f(eng, s, a, ts):
            s.ghost['events'] = ev(s) + ((kind,) + tuple(tx.need(s, a[i]) for i in range(n)),)
            return [(s, None)]
        return f
    return ev, log

def same_events(tx, got, want):
    if len(got) != len(want) or any(g[0] != w[0] for g, w in zip(got, want)):
        return z3.BoolVal(False)
    # the calls concern different keys, so their order does not matter
    shape = lambda v: (v[0], [(a[0],) + (a[1:] if a[0] in ('lit', 'sym') else ()) for x in v[1:] for a in x])
    got, want = sorted(got, key=lambda v: repr(shape(v))), sorted(want, key=lambda v: repr(shape(v)))
    return z3.And(z3.BoolVal(True), *[tx.same(x, y) for g, w in zip(got, want) for x, y in zip(g[1:], w[1:])])

def preening(prog):
    """an entry for a place discards the older entries for its noun, verb, adjective and tag forms"""
    e = Engine(prog)
    st = State()
    tx = strs.Texts(e, 65500)
    ev, log = sourced(e, tx, prog)
    e.contracts['add_deletion'] = log('erase', 1)
    key = tx.source(st, 'key')
    res = e.run_function(st, 'preen', [key])
    want = [('erase', (('sym', 'key'), ('lit', x))) for x in (b'n', b'v', b'a', b't')]
    for s, r in res:
        got = sorted(ev(s), key=lambda g: [b'n', b'v', b'a', b't'].index(g[1][-1][1]) if g[1] and g[1][-1][0] == 'lit' and g[1][-1][1] in (b'n', b'v', b'a', b't') else 9)
        e.oblige(s, P + 'exactly the four more specific entries are erased', same_events(tx, got, want), 'preen')
    e.oblige(State(), 'vacuity: preen returns', len(res) > 0, 'preen')
    e.inlined.add('preen')
    return e

def mapping(prog):
    """one line of a source file: what is erased and added, in order"""
    e = Engine(prog)
    st = State()
    tx = strs.Texts(e, 65500)
    strs.ctype(e)
    ev, log = sourced(e, tx, prog)
    e.contracts.update(preen=log('preen', 1), add_defn=log('define', 2))
    src, dst = tx.source(st, 'src'), tx.source(st, 'dest')
    n = tx.lens['src']
    B = st.mem[src.obj].cells[8].arr
    kap = z3.BitVec('kappa', 64)
    nz = lambda i: z3.Implies(z3.ULT(i, n), z3.Select(B, i) != 0)
    st.assume(nz(kap))
    st.assume(nz(n - 1))
    st.assume(nz(B64(0)))
    alpha = lambda i: isin(z3.Select(B, i), ALPHA)
    digit = z3.And(n > 0, isin(z3.Select(B, n - 1), range(48, 58)))
    def canon(eng, s, a, ts):
        s.ghost['asked'] = s.ghost.get('asked', ()) + (tx.need(s, a[0]),)
        yes, no = s, s.fork()
        o = eng.new_obj(yes, 'canonical form', 65500, const=True)
        yes.ghost[('text', o)] = (('sym', 'canon'),)
        tx.lens['canon'] = z3.BitVec('len.canon', 64)
        yes.assume(z3.ULT(tx.lens['canon'], 65500))
        yes.ghost['canonical'] = True
        return [(yes, Ptr(o, 0)), (no, NULL)]
    e.contracts['canon_lujvo'] = canon
    def loops(f, pc):
        if f.name != 'handle_mapping':
            return None
        def cands(eng, s, entry):
            out = []
            for k, v in eng.locals(s).items():
                if isinstance(v, Ptr) and v.obj == src.obj:
                    o = bv(v.off, 64)
                    out += [('letters before ' + k, z3.Implies(z3.ULT(kap, o), alpha(kap))), (k + ' in the word', z3.ULE(o, n))]
            for nm, x, key, w in ints(eng, s):
                out += [('letters before ' + nm, z3.Implies(z3.And(x >= 0, z3.ULT(kap, x)), alpha(kap))), (nm + ' in the word', z3.And(x >= 0, x <= n))]
            return out
        def on_back(eng, b, head, entry):
            adv = [z3.UGT(bv(v.off, 64), bv(eng.locals(head)[k].off, 64)) for k, v in eng.locals(b).items() if isinstance(v, Ptr) and v.obj == src.obj and isinstance(eng.locals(head).get(k), Ptr)]
            adv += [x > dict((m, y) for m, y, _, _ in ints(eng, head))[nm] for nm, x, _, _ in ints(eng, b) if nm in [m for m, _, _, _ in ints(eng, head)]]
            eng.oblige(b, P + 'the scan of the word advances (it ends)', z3.Or(*adv), 'handle_mapping')
        return LoopSpec(None, cands, None, on_back, None, P + 'leading letters')
    e.loop_for = loops
    res = e.run_function(st, 'handle_mapping', [src, dst])
    S, DEST = (('sym', 'src'),), (('sym', 'dest'),)
    m = z3.BitVec('letters', 64)
    seen = set()
    for s, r in res:
        w = 'handle_mapping exit'
        got = ev(s)
        asked = s.ghost.get('asked', ())
        pre = [('preen', S)]
        dfn = [('define', S, DEST)]
        e.oblige(s, P + 'the canonical form is asked for at most once', len(asked) <= 1, w)
        if asked:
            a = asked[0]
            ok = len(a) == 1 and a[0][0] == 'pre' and a[0][1] == 'src'
            e.oblige(s, P + 'the canonical form is asked for the leading letters', ok, w)
            if not ok:
                continue
            k = a[0][2]
            e.oblige(s, P + 'only for entries for a place of a word of six letters or more', z3.And(digit, z3.UGE(k, 6)), w)
            e.oblige(s, P + 'all the leading letters', z3.And(z3.Implies(z3.ULT(kap, k), alpha(kap)), z3.Not(alpha(k)), z3.ULE(k, n)), w)
        else:
            # six leading letters and a final digit: must have been asked
            six = z3.And(*[alpha(B64(i)) for i in range(6)])
            e.oblige(s, P + 'the canonical form is asked for whenever there is one', z3.Not(z3.And(digit, z3.UGE(n, 6), six)) if not asked else True, w)
        c = (('sym', 'canon'), ('byte', z3.Select(B, n - 1)))
        al = [('preen', c), ('define', c, (('lit', b'@'), ('sym', 'src')))] if s.ghost.get('canonical') else []
        seen.add((bool(asked), bool(al)))
        e.oblige(s, P + 'the entry, and the erasures and the alias that go with it, in order', z3.If(digit, same_events(tx, got, pre + dfn + al), same_events(tx, got, dfn + al)), w)
    e.oblige(State(), 'vacuity: entries with and without alias occur', seen == {(False, False), (True, False), (True, True)}, str(sorted(seen)))
    e.inlined.add('handle_mapping')
    return e

def arraying(prog):
    """the list, newest entry first, becomes the array, oldest first"""
    e = Engine(prog)
    pool = Pool(prog)
    st = pool.setup(e)
    n, kap = pool.n, pool.kap
    LO = A64('link.at')
    LT = to(prog, prog.typ(prog.sym['links']['type']))
    fo = {f: fld(prog, LT, f) for f in ('next', 'trans')}
    ls = prog.sizeof(LT)
    links = e.new_obj(st, 'links', n * ls, const=True)
    setG(st, 'j', n)
    def link(s, j):
        """the link of the j-th entry (from 1); none for j = 0"""
        if e.check(list(s.pc) + [j == 0], 5000)[0] == z3.unsat:
            return Ptr(links, z3.Select(LO, j))
        o = z3.Int(fresh_name('link.o'))
        e.domains[str(o)] = (0, links)
        s.assume(o == z3.If(j == 0, z3.IntVal(0), z3.IntVal(links)))
        return Ptr(o, z3.If(j == 0, B64(0), z3.Select(LO, j)))
    def hook(s, p, t):
        j = G(s, 'j')
        for d in (0, 1, -1):
            for f in fo:
                if e.check(list(s.pc) + [bv(p.off, 64) != z3.Select(LO, j + d) + fo[f][0]], 3000)[0] == z3.unsat:
                    e.oblige(s, P + 'only entries on the list are read', z3.And(j + d >= 1, j + d <= n), e.where(s))
                    return Ptr(pool.recs, pool.rec(j + d - 1)) if f == 'trans' else link(s, simp_(j + d - 1))
        raise Unsupported('read of an unknown link at ' + e.where(s))
    e.read_hook[links] = hook
    gptr_write(e, st, 'transac', NULL)
    got = []
    def malloc(eng, s, a, ts):
        o = eng.new_obj(s, 'heap', bv(a[0], 64))
        e.pobj[o] = pool.recs
        e._setcell(s, s.mem[o], 'p', Cells('p', None, {}, (z3.K(z3.BitVecSort(64), z3.IntVal(pool.recs)), z3.Array('array.f', z3.BitVecSort(64), z3.BitVecSort(64)))))
        got.append(o)
        return [(s, Ptr(o, 0))]
    e.contracts['malloc'] = malloc
    def inst(s, j):
        s.assume(z3.Implies(z3.And(j >= 1, j <= n), z3.ULE(z3.Select(LO, j), n * ls - ls)))
    PT = to(prog, pool.PT)
    rd = lambda s, t, o: (lambda r: (setattr(e, 'safety', True), r)[1])((setattr(e, 'safety', False), e.read(s, Ptr(t.obj, e_add(t.off, o)), PT))[1])
    def loops(f, pc):
        if f.name != 'build_array':
            return None
        def inv(eng, s, entry):
            j = G(s, 'j')
            if z3.is_const(j) and j.decl().kind() == z3.Z3_OP_UNINTERPRETED and not j.eq(n):
                setG(s, 'j', idx(fresh_name('index')))
            return [('at most n entries left', z3.ULE(G(s, 'j'), n))]
        def cands(eng, s, entry):
            out = []
            j = G(s, 'j')
            for nm, x, key, w in ints(eng, s):
                ex = (lambda v: v) if w == 64 else (lambda v: z3.Extract(31, 0, v))
                out += [('%s==j%+d' % (nm, d), x == j + d, (key, ex(j + d))) for d in (0, -1)] + [('%s==n-j' % nm, x == n - j, (key, ex(n - j)))]
            for k, v in eng.locals(s).items():
                if isinstance(v, Ptr) and not (isinstance(v.obj, int) and v.obj not in (0, links)):
                    out.append((k + ' is the link', z3.And(oi(v.obj) == z3.If(j == 0, z3.IntVal(0), z3.IntVal(links)), bv(v.off, 64) == z3.If(j == 0, B64(0), z3.Select(LO, j)))))
            t = gptr_read(e, s, 'transac')
            if got and isinstance(t.obj, int) and t.obj in got:
                out.append(('done', z3.Implies(z3.ULE(j, kap), peq(rd(s, t, kap * 8), Ptr(pool.recs, pool.rec(kap))))))
            return out
        def on_head(eng, h, entry):
            inst(h, G(h, 'j'))
        def step(eng, b, head, entry):
            setG(b, 'j', simp_(G(head, 'j') - 1))
        def on_back(eng, b, head, entry):
            eng.oblige(b, P + 'each turn files one entry (the loop ends)', z3.UGT(G(head, 'j'), 0), 'build_array')
        return LoopSpec(inv, cands, on_head, on_back, step, P + 'file the entries')
    e.loop_for = loops
    inst(st, n)
    gptr_write(e, st, 'links', link(st, n))
    e.verbose = '-v' in sys.argv
    res = e.run_function(st, 'build_array', [])
    for s, r in res:
        t = gptr_read(e, s, 'transac')
        ok = isinstance(t.obj, int) and t.obj in got
        e.oblige(s, P + 'a new table is made', ok, 'build_array exit')
        if ok:
            e.oblige(s, P + 'the table holds every entry, oldest first', peq(rd(s, t, kap * 8), Ptr(pool.recs, pool.rec(kap))), 'build_array exit')
    e.oblige(State(), 'vacuity: the table can be made', len(res) > 0, 'build_array')
    e.inlined.add('build_array')
    return e

def parts(prog):
    ev = tree_values(prog)
    D, E_ = ev['DEFINE'], ev['ERASE']
    return dict(rationalise=lambda: rationalise(prog, D, E_), compress=lambda: compress(prog, D, E_), comparison=lambda: comparison(prog), sorting=lambda: sorting(prog), writer=lambda: writer(prog, D, E_), adding=lambda: adding(prog, D, E_), preening=lambda: preening(prog), mapping=lambda: mapping(prog), arraying=lambda: arraying(prog))

def tree_values(prog):
    """values of the two actions, from the program's own symbol table"""
    out = {}
    for k, v in prog.sym.items():
        if v['type'].get('id') == 'c_enum':
            for m in v['type']['namedSub'].get('body', {}).get('sub', []):
                n = m['namedSub']
                out[n.get('base_name', n.get('identifier'))['id']] = int(n['value']['id'])
    return {k: out[k] for k in ('DEFINE', 'ERASE')}

def prove(c):
    prog = load()
    ps = parts(prog)
    def one(k):
        e = ps[k]()
        return dict(obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for o in e.obls], inl=sorted(e.inlined))
    for r in par.pmap(one, list(ps), 9, 700):
        if 'error' in r:
            c.undecided('dictionary builder (%s)' % r['label'], r['error'] + r.get('trace', ''))
        else:
            c.obligations(r['obls'])
            c.functions.update(r['inl'])
    c.functions.update(['add_defn', 'add_deletion', 'build_array', 'sort_comparison', 'sort_array', 'rationalise_transactions', 'compress_transactions', 'write_database', 'put_long', 'put_char', 'preen', 'handle_mapping'])
    c.assumptions += ['qsort leaves the same pointers, in the order of the comparison it is given', 'strcmp is the byte order of C strings; malloc returns fresh memory; strlen, strcpy, strcat, strncpy and <ctype.h> (C locale) have their standard meaning',
                      'fewer than 2^27 entries', 'canonical forms and source lines are shorter than 65500 bytes (longer lines are refused by do_file)',
                      'main, do_file (cutting of source lines at the colons) and read_database (existing image) are not under contract: covered by the bounded comparison only']

if __name__ == '__main__':
    p = load()
    ps = parts(p)
    for nm in ([a for a in sys.argv[1:] if not a.startswith('-')] or list(ps)):
        t = time.time()
        e = ps[nm]()
        print(nm, e.summary()[:2], e.inlined, len(e.lost), time.time() - t)
        for o in e.summary()[2][:10]:
            print(o.name, o.where, o.status, (o.detail or '')[:800])
