"""Recognition of cmavo: contracts of process_cmavo and of the hash function over the cmavo table."""
import os, sys, re, time, z3
from engine.gotovc import *
from engine import tree
from spec.morph import CONS, VOW
from checks import common, morf_l1

B64 = lambda v: z3.BitVecVal(v, 64)
CHARSET = b"abcdefgijklmnoprstuvxyz'"

def fld(prog, t, n):
    a, b = prog.field(t, n)
    return (a, b) if isinstance(a, int) else (b, a)

def load():
    tree.make('rpc2x_act.tab.h', 'nonterm.h')
    return Program(tree.goto(['lex1.c', 'cmavotab.c', 'functions.c'], 'cmavo'))

def reference():
    """word -> selma'o name (committed reference list)"""
    r = {}
    for l in open(os.path.join(common.VERIF, 'spec', 'cmavo.tsv')):
        a = l.rstrip('\n').split('\t')
        if len(a) == 2:
            r[a[0]] = a[1]
    return r

def table_rows(prog):
    """(text, selma'o code) per entry, from the program's own initialiser"""
    e = Engine(prog)
    e.const_globals |= {'cmavo_table'}
    st = State()
    o = e.global_obj(st, 'cmavo_table')
    t = prog.typ(prog.sym['cmavo_table']['type'])
    es = prog.sizeof(t.to)
    fo, ft = fld(prog, t.to, 'cmavo')
    so, stt = fld(prog, t.to, 'selmao')
    rows = []
    for i in range(t.n):
        p = e.read(st, Ptr(o, i * es + fo), ft)
        txt = b''
        while True:
            b = e.read(st, Ptr(p.obj, p.off + len(txt)), T('int', 8, False))
            b = b if isinstance(b, int) else z3.simplify(b).as_long()
            if not b:
                break
            txt += bytes([b & 255])
        rows.append((txt.decode('latin-1'), e.read(st, Ptr(o, i * es + so), stt)))
    return rows

def concrete_string(e, st, s):
    o = e.new_obj(st, 'str', len(s) + 1, const=True)
    c = Cells(8, None, {i: b for i, b in enumerate(s.encode('latin-1') + b'\0')})
    e._setcell(st, st.mem[o], 8, c)
    return Ptr(o, 0)

def hash_lemma(prog, rows):
    """every entry is found where the hash function looks for it"""
    bad = []
    n = 0
    for i, (w, sel) in enumerate(rows):
        if not w:
            continue
        n += 1
        e = Engine(prog)
        e.const_globals |= morf_l1.statics(prog)
        st = State()
        try:
            r = e.run_function(st, 'hash_cmavo', [concrete_string(e, st, w)])
        except Unsupported as ex:
            bad.append((w, str(ex)))
            continue
        v = r[0][1] if len(r) == 1 else None
        v = v if isinstance(v, int) else None
        if v != i or any(o.status != 'proved' for o in e.obls):
            bad.append((w, 'entry %d, hash %s' % (i, v)))
    return n, bad

def arbitrary(e, st):
    """a NUL-terminated byte string of any length up to 65535"""
    ln = z3.BitVec('len', 64)
    st.assume(z3.And(z3.ULE(ln, 65535), z3.UGE(ln, 1)))
    o = e.new_obj(st, 'buf', ln + 1, const=True)
    a = e._mat(st.mem[o], 8, None)
    e._setcell(st, st.mem[o], 8, a)
    S = a.arr
    st.assume(z3.Select(S, ln) == 0)
    for k in range(5):
        st.assume(z3.Implies(z3.ULT(B64(k), ln), z3.Select(S, B64(k)) != 0))
    return o, S, ln

def form(S, ln):
    """first letters of a word of cmavo form: C? V (('|V) V?)*"""
    def isin(i, cs):
        return z3.Or(*[z3.Select(S, B64(i)) == ord(c) for c in cs])
    vy = VOW + 'y'
    def after(i):
        return z3.And(z3.Implies(z3.Select(S, B64(i)) == 39, isin(i + 1, vy)),
                      z3.Or(z3.Select(S, B64(i)) == 39, isin(i, vy), z3.Select(S, B64(i)) == 0))
    return z3.Or(z3.And(isin(0, CONS), isin(1, vy), after(2)), z3.And(isin(0, vy), after(1)))

def hash_safe(prog):
    e = Engine(prog)
    e.const_globals |= morf_l1.statics(prog)
    st = State()
    o, S, ln = arbitrary(e, st)
    st.assume(form(S, ln))
    e.run_function(st, 'hash_cmavo', [Ptr(o, 0)])
    return e

def prove(prog, sel_unknown=0):
    e = Engine(prog)
    e.const_globals |= morf_l1.statics(prog) | {'cmavo_table'}
    st = State()
    o, S, ln = arbitrary(e, st)
    st.assume(form(S, ln))
    st.assume(z3.BitVec('len', 64) == ln)
    h = z3.BitVec('hash.of.buf', 32)
    eq = z3.Function('same_text', z3.IntSort(), z3.BoolSort())
    def strlen(eng, s, a, ts):
        if a[0].obj == o and a[0].off == 0:
            return [(s, ln)]
        return [(s, fresh_bv('strlen', 64))]
    def strchr(eng, s, a, ts):
        b = z3.Extract(7, 0, bv(a[1], 32))
        r = s.fork()
        inside = z3.Or(b == 0, *[b == c for c in CHARSET])
        out = []
        for cond, v in ((inside, Ptr(a[0].obj, fresh_bv('strchr', 64))), (z3.Not(inside), Ptr(0, 0))):
            s2 = s.fork()
            s2.assume(cond)
            if eng.feasible(s2):
                out.append((s2, v))
        return out
    def hash_cmavo(eng, s, a, ts):
        eng.oblige(s, 'hash function: called on the word, all of whose letters are known', b_and(peq(a[0], Ptr(o, 0))), eng.where(s))
        return [(s, h)]
    def strcmp(eng, s, a, ts):
        x, y = a
        if x.obj != o:
            x, y = y, x
        eng.oblige(s, 'the word itself is compared with the entry', b_and(peq(x, Ptr(o, 0))), eng.where(s))
        s.ghost['cmp'] = y
        r = fresh_bv('strcmp', 32)
        s.assume((r == 0) == eq(oi(y.obj)))
        return [(s, r)]
    def malloc(eng, s, a, ts):
        n = eng.new_obj(s, 'heap', a[0])
        return [(s, Ptr(n, 0))]
    def strcpy(eng, s, a, ts):
        s.ghost[('text', a[0].obj)] = a[1]
        return [(s, a[0])]
    def add_token(eng, s, a, ts):
        s.ghost['added'] = s.ghost.get('added', ()) + (a[0],)
        return [(s, None)]
    e.contracts.update(strlen=strlen, strchr=strchr, hash_cmavo=hash_cmavo, strcmp=strcmp, Malloc=malloc, strcpy=strcpy, add_token=add_token)
    line, col = z3.BitVec('line', 32), z3.BitVec('col', 32)
    e.allow = set()
    setG(st, 'i', z3.BitVecVal(0, 64))
    def inv(eng, hd, entry):
        i = G(hd, 'i')
        f = [('position within the word', z3.ULE(i, ln))]
        for k in range(5):
            f.append(('letters so far are known [%d]' % k, z3.Implies(z3.ULT(B64(k), i), z3.Or(*[z3.Select(S, B64(k)) == c for c in CHARSET]))))
        return f
    def cands(eng, hd, entry):
        out = []
        fid = hd.frames[-1][0]
        for key, v in list(hd.env.items()):
            if key[0] == fid and key[1] != '#ret':
                t = prog.typ(prog.sym[key[1]]['type'])
                if t.k == 'int' and t.w in (32, 64):
                    g = G(hd, 'i') if t.w == 64 else z3.Extract(31, 0, G(hd, 'i'))
                    out.append((key[1] + '==i', bv(v, t.w) == g, (key, g)))
                    for c in (0, 1):
                        out.append(('%s==%d' % (key[1], c), bv(v, t.w) == c, (key, z3.BitVecVal(c, t.w))))
                    l = ln if t.w == 64 else z3.Extract(31, 0, ln)
                    out.append((key[1] + '==len', bv(v, t.w) == l, (key, l)))
                elif t.k == 'ptr' and isinstance(v, Ptr) and v.obj == o:
                    out.append((key[1] + '==&buf[i]', bv(v.off, 64) == G(hd, 'i'), (key, Ptr(o, G(hd, 'i')))))
        return out
    def step(eng, b, head, entry):
        setG(b, 'i', z3.simplify(G(head, 'i') + 1))
    def on_head(eng, hd, entry):
        i = G(hd, 'i')
        hd.assume(z3.Implies(z3.ULT(i, ln), z3.Select(S, i) != 0))
        hd.assume(z3.Implies(i == ln, z3.Select(S, i) == 0))
    spec = LoopSpec(inv, cands, on_head, None, step, 'letters of the word are known')
    e.loop_for = lambda f, pc: spec if f.name == 'process_cmavo' and f.heads.index(pc) == 0 else None
    res = e.run_function(st, 'process_cmavo', [Ptr(o, 0), line, col])
    tn = prog.typ(prog.sym['process_cmavo::1::node']['type']) if 'process_cmavo::1::node' in prog.sym else None
    N = node_type(prog)
    I = T('int', 32, True)
    f = lambda n: fld(prog, N, n)
    off = {n: f(n)[0] for n in ('type', 'start_line', 'start_column', 'data')}
    U = f('data')[1]
    def sub(u, s):
        a, t = fld(prog, u, s)
        return a, t
    ca, ct = fld(prog, U, 'cmavo')
    so, st1 = fld(prog, ct, 'selmao')
    co, ct1 = fld(prog, ct, 'code')
    ga, gt = fld(prog, U, 'garbage')
    wo, wt = fld(prog, gt, 'word')
    en = tree.cenum('nodes.h', ['N_CMAVO', 'N_GARBAGE'])
    tt = prog.typ(prog.sym['cmavo_table']['type'])
    es = prog.sizeof(tt.to)
    fo, ft = fld(prog, tt.to, 'cmavo')
    se, sty = fld(prog, tt.to, 'selmao')
    kinds = {}
    for s, r in res:
        if isinstance(r, tuple):
            e.oblige(s, 'a word never stops the program here', False, 'process_cmavo')
            continue
        added = s.ghost.get('added', ())
        hb = e.read(s, Ptr(e.global_obj(s, 'had_bad_tokens'), 0), I)
        k = z3.BitVec('k', 64)
        if not added:
            kinds['refused'] = 1
            e.oblige(s, 'a word with unknown letters is reported', bv(hb, 32) == 1, 'process_cmavo exit')
            # only words that contain a letter no cmavo can have may be dropped
            i = G(s, 'i')
            e.oblige(s, 'only words with unknown letters are dropped', z3.And(z3.ULT(i, ln), *[z3.Select(S, i) != c for c in CHARSET]), 'process_cmavo exit')
            continue
        e.oblige(s, 'exactly one token is added', len(added) == 1, 'process_cmavo exit')
        p = added[0]
        rd = lambda o_, t: e.read(s, Ptr(p.obj, e_add(p.off, o_)), t)
        ty = bv(rd(off['type'], I), 32)
        to = e.global_obj(s, 'cmavo_table')
        ix = z3.SignExt(32, h)
        ent = e.read(s, Ptr(to, z3.simplify(ix * es + fo)), ft) if s.ghost.get('cmp') is not None else None
        nrows = tt.n
        known = z3.And(h >= 0, h < nrows, eq(oi(ent.obj))) if ent is not None else z3.And(h >= 0, h < nrows)
        e.oblige(s, 'position of the token', z3.And(bv(rd(off['start_line'], I), 32) == line, bv(rd(off['start_column'], I), 32) == col), 'process_cmavo exit')
        goods = [(ty == en['N_CMAVO'], 'known'), (ty == en['N_GARBAGE'], 'garbage')]
        if ent is None:
            e.oblige(s, 'not looked up only when the hash is outside the table', z3.Not(known), 'process_cmavo exit')
            e.oblige(s, 'unknown cmavo becomes garbage', ty == en['N_GARBAGE'], 'process_cmavo exit')
        else:
            e.oblige(s, 'the entry compared is the one hashed to', b_and(oeq(s.ghost['cmp'].obj, ent.obj)), 'process_cmavo exit')
            e.oblige(s, 'cmavo token exactly for known cmavo', z3.And((ty == en['N_CMAVO']) == known, (ty == en['N_GARBAGE']) == z3.Not(known)), 'process_cmavo exit')
        if z3.is_true(z3.simplify(ty == en['N_CMAVO'])):
            kinds['known'] = 1
            e.oblige(s, 'the token refers to the entry', bv(rd(off['data'] + ca + co, ct1), 32) == h, 'process_cmavo exit')
            sv = e.read(s, Ptr(to, z3.simplify(ix * es + se)), sty)
            sv = bv(sv, 16)
            e.oblige(s, "the token carries the entry's selma'o", bv(rd(off['data'] + ca + so, st1), 32) == z3.SignExt(16, sv), 'process_cmavo exit')
        else:
            kinds['garbage'] = 1
            w = rd(off['data'] + ga + wo, wt)
            src = s.ghost.get(('text', w.obj))
            e.oblige(s, 'an unknown cmavo keeps its text', src is not None and peq(src, Ptr(o, 0)), 'process_cmavo exit')
            e.oblige(s, 'an unknown cmavo is reported', bv(hb, 32) == 1, 'process_cmavo exit')
    e.oblige(State(), 'vacuity: known, unknown and refused words all occur', len(kinds) == 3, 'process_cmavo')
    return e, res

def e_add(a, b):
    return a + b if isinstance(a, int) and isinstance(b, int) else bv(a, 64) + b

def node_type(prog):
    for n in prog.sym:
        if n.endswith('tag-treenode'):
            return prog.typ(prog.sym[n]['type'])
    raise Unsupported('no struct treenode')

if __name__ == '__main__':
    t = time.time()
    p = load()
    rows = table_rows(p)
    print(len(rows), rows[14:18], time.time() - t)
    print(hash_lemma(p, rows), time.time() - t)
    e = hash_safe(p); print(e.summary()[:2], [(o.name, o.where) for o in e.summary()[2]])
    e, res = prove(p)
    print(e.summary()[:2], [(o.name, o.where, o.status, o.detail and o.detail[:300]) for o in e.summary()[2]], time.time() - t, len(res))
